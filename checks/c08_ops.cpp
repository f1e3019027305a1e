// C08: each asynchronous operation completes once with its own result.
// Programs of concurrent coroutines issue operations on a worker whose kernel
// is simulated: completion order, batching and results are choices.
#include "checks/worker_rig.h"
#include <cerrno>
#include <deque>
#include <fcntl.h>
#include <netinet/in.h>

using namespace kio;
using namespace kio::io;

namespace
{
    enum Kind { kAccept, kRead, kReadAt, kWrite, kWriteAt, kReadv, kWritev, kConnect, kOpen, kFalloc, kPoll, kSendmsg, kClose, kFsync, kFdsync, kUnlink, kSleep, kTrunc, kKinds };
    const char* kname[] = {"accept", "read", "read_at", "write", "write_at", "readv", "writev", "connect", "openat", "fallocate", "poll", "sendmsg", "close", "fsync", "fdatasync", "unlinkat", "sleep", "ftruncate"};

    struct Want
    {
        uint64_t seq = 0;
        Kind kind{};
        int fd = 0;
        uint64_t off = 0;
        std::string path;
        std::string buf;            // contents given (read: space)
        size_t len = 0;
        int flags = 0;
        mode_t mode = 0;
        iovec iov[4];
        int iovcnt = 0;
        sockaddr_in sa{};
        socklen_t sal = sizeof(sockaddr_in);
        msghdr mh{};
        uint64_t dur = 0, t0 = 0;
        bool submitted = false, completed = false, resumed = false;
        uint64_t opid = 0;
        int res = 0;
    };

    struct World
    {
        pbt::Case& c;
        rig::Rig& r;
        WorkerConfig wc;
        size_t budget = 0;        // operations still to issue
        size_t live = 0;          // coroutines not finished
        size_t suspended = 0;     // coroutines waiting for an operation
        size_t max_suspended = 0;
        size_t queued = 0;        // issued since the last submission
        size_t refused = 0, issued = 0, late_spawns = 0;
        uint64_t seq = 0;
        std::deque<std::shared_ptr<Want>> expect;            // issued, not seen by the kernel
        std::map<uint64_t, std::shared_ptr<Want>> inkernel;  // by operation id
        size_t completed_out_of_order = 0;
        uint64_t last_done = 0;

        void check_submission(const sim::Op& o)
        {
            if (o.wakeup) return;
            CREQUIRE(!expect.empty(), "phantom-op", "the kernel was given a {} (fd {}, user_data {}) nobody asked for", sim::opname(o.opcode), o.fd, o.user_data);
            auto w = expect.front();
            expect.pop_front();
            queued = expect.size();
            w->submitted = true;
            w->opid = o.id;
            inkernel[o.id] = w;
            auto bad = [&](const char* what, auto got, auto want) {
                sim::abort_case("wrong-args", std::format("{}: {} passed to the kernel is {}, the caller gave {}", kname[w->kind], what, got, want));
            };
            auto op = [&](int code) {
                if (o.opcode != code) bad("operation", sim::opname(o.opcode), sim::opname(static_cast<uint8_t>(code)));
            };
            auto fdc = [&] {
                if (o.fd != w->fd) bad("descriptor", o.fd, w->fd);
            };
            auto buf = [&](const void* p, size_t l) {
                if (o.addr != reinterpret_cast<uint64_t>(p)) bad("buffer", o.addr, reinterpret_cast<uint64_t>(p));
                if (o.len != l) bad("length", o.len, l);
            };
            auto off = [&](uint64_t v) {
                if (o.off != v) bad("offset", o.off, v);
            };
            auto flg = [&](uint32_t v) {
                if (o.op_flags != v) bad("flags", o.op_flags, v);
            };
            if (o.sqe_flags) bad("sqe flags", static_cast<int>(o.sqe_flags), 0);
            switch (w->kind)
            {
                case kRead: op(IORING_OP_READ); fdc(); buf(w->buf.data(), w->len); off(~0ULL); flg(0); break;
                case kReadAt: op(IORING_OP_READ); fdc(); buf(w->buf.data(), w->len); off(w->off); flg(0); break;
                case kWrite: op(IORING_OP_WRITE); fdc(); buf(w->buf.data(), w->len); off(~0ULL); flg(0); break;
                case kWriteAt: op(IORING_OP_WRITE); fdc(); buf(w->buf.data(), w->len); off(w->off); flg(0); break;
                case kReadv:
                case kWritev:
                    op(w->kind == kReadv ? IORING_OP_READV : IORING_OP_WRITEV);
                    fdc();
                    off(w->off);
                    flg(0);
                    if (static_cast<int>(o.iov.size()) != w->iovcnt) bad("segments", o.iov.size(), static_cast<size_t>(w->iovcnt));
                    for (int i = 0; i < w->iovcnt; ++i)
                        if (o.iov[i].iov_base != w->iov[i].iov_base || o.iov[i].iov_len != w->iov[i].iov_len) bad("segment", o.iov[i].iov_len, w->iov[i].iov_len);
                    break;
                case kAccept:
                    op(IORING_OP_ACCEPT);
                    fdc();
                    if (o.addr != reinterpret_cast<uint64_t>(&w->sa)) bad("address", o.addr, reinterpret_cast<uint64_t>(&w->sa));
                    if (o.off != reinterpret_cast<uint64_t>(&w->sal)) bad("address length", o.off, reinterpret_cast<uint64_t>(&w->sal));
                    break;
                case kConnect:
                    op(IORING_OP_CONNECT);
                    fdc();
                    if (o.sockaddr_copy != std::string(reinterpret_cast<char*>(&w->sa), w->sal)) bad("address", pbt::show(o.sockaddr_copy), pbt::show(std::string(reinterpret_cast<char*>(&w->sa), w->sal)));
                    break;
                case kOpen:
                    op(IORING_OP_OPENAT);
                    if (o.fd != AT_FDCWD) bad("directory", o.fd, AT_FDCWD);
                    if (o.path != w->path) bad("path", o.path, w->path);
                    flg(static_cast<uint32_t>(w->flags));
                    if (o.len != w->mode) bad("mode", o.len, w->mode);
                    break;
                case kFalloc:
                    op(IORING_OP_FALLOCATE);
                    fdc();
                    off(0);
                    if (o.len != static_cast<uint32_t>(w->flags)) bad("mode", o.len, w->flags);
                    if (o.addr != w->off) bad("size", o.addr, w->off);
                    break;
                case kPoll: op(IORING_OP_POLL_ADD); fdc(); flg(static_cast<uint32_t>(w->flags)); break;
                case kSendmsg:
                    op(IORING_OP_SENDMSG);
                    fdc();
                    if (o.addr != reinterpret_cast<uint64_t>(&w->mh)) bad("message", o.addr, reinterpret_cast<uint64_t>(&w->mh));
                    flg(static_cast<uint32_t>(w->flags));
                    break;
                case kClose: op(IORING_OP_CLOSE); fdc(); break;
                case kFsync: op(IORING_OP_FSYNC); fdc(); flg(0); break;
                case kFdsync: op(IORING_OP_FSYNC); fdc(); flg(IORING_FSYNC_DATASYNC); break;
                case kUnlink:
                    op(IORING_OP_UNLINKAT);
                    fdc();
                    if (o.path != w->path) bad("path", o.path, w->path);
                    flg(static_cast<uint32_t>(w->flags));
                    break;
                case kSleep:
                    op(IORING_OP_TIMEOUT);
                    if (o.deadline != w->t0 + w->dur) bad("deadline", o.deadline, w->t0 + w->dur);
                    off(0);
                    break;
                case kTrunc: op(55); fdc(); off(w->off); break;
                default: break;
            }
        }
        void check_done(const sim::Op& o)
        {
            if (o.wakeup) return;
            auto it = inkernel.find(o.id);
            if (it == inkernel.end()) return;
            it->second->completed = true;
            it->second->res = o.res;
            if (o.id < last_done) ++completed_out_of_order;
            last_done = o.id;
        }

        sim::Fault result(sim::Op& o)
        {
            auto it = inkernel.find(o.id);
            sim::Fault f;
            f.use_override = true;
            size_t len = it != inkernel.end() ? it->second->len : 0;
            switch (c.weighted({5, 2, 1}))
            {
                case 0:
                    if (o.opcode == IORING_OP_OPENAT || o.opcode == IORING_OP_ACCEPT) f.override_res = static_cast<int>(3 + c.draw(100000));
                    else if (o.is_transfer()) f.override_res = static_cast<int>(c.coin() ? len : c.draw(len + 1));
                    else f.override_res = o.opcode == IORING_OP_POLL_ADD ? static_cast<int>(1 + c.draw(0x20)) : 0;
                    break;
                case 1: f.override_res = -static_cast<int>(1 + c.draw(133)); break;
                default: f.override_res = c.pick({-EAGAIN, -EINTR, -ECANCELED, -EINVAL, -4095, -ETIME}); break;
            }
            return f;
        }
    };

    std::shared_ptr<Want> gen(World& W)
    {
        pbt::Case& c = W.c;
        auto w = std::make_shared<Want>();
        w->seq = W.seq++;
        w->kind = static_cast<Kind>(c.draw(kKinds));
        w->fd = c.weighted({4, 1}) == 0 ? static_cast<int>(4096 + c.draw(1u << 20)) : c.pick({-1, 2147483647, -100});
        w->off = c.weighted({3, 1, 1}) == 0 ? c.draw(1 << 16) : (c.coin() ? c.draw(1ULL << 62) : 0xffffffffULL + c.draw(3));
        switch (w->kind)
        {
            case kRead: case kReadAt: case kWrite: case kWriteAt:
                w->len = c.small(70000);
                w->buf.assign(w->len + 1, 'x');
                break;
            case kReadv: case kWritev:
                w->iovcnt = static_cast<int>(1 + c.draw(4));
                w->buf.assign(4 * 64, 'x');
                for (int i = 0; i < w->iovcnt; ++i)
                {
                    w->iov[i] = {w->buf.data() + 64 * i, c.draw(65)};
                    w->len += w->iov[i].iov_len;
                }
                break;
            case kAccept: case kConnect:
                w->sa.sin_family = AF_INET;
                w->sa.sin_port = static_cast<uint16_t>(c.draw(65536));
                w->sa.sin_addr.s_addr = static_cast<uint32_t>(c.draw(1ULL << 32));
                break;
            case kOpen: case kUnlink:
                w->path = "/nonexistent/" + std::string(c.draw(60), 'p') + std::to_string(w->seq);
                w->flags = w->kind == kOpen ? c.pick({O_RDONLY, O_WRONLY | O_CREAT, O_RDWR | O_CREAT | O_TRUNC, O_RDWR | O_APPEND | O_CLOEXEC}) : c.pick({0, AT_REMOVEDIR});
                w->mode = static_cast<mode_t>(c.pick({0644, 0600, 0, 0777}));
                if (w->kind == kUnlink && c.coin()) w->fd = AT_FDCWD;
                break;
            case kFalloc: w->flags = c.pick({0, 1, 3}); w->off = c.draw(1ULL << 40); break;
            case kPoll: w->flags = c.pick({1, 4, 5, 0x2001}); break;
            case kSendmsg:
                w->buf.assign(100, 'm');
                w->iov[0] = {w->buf.data(), c.draw(100)};
                w->len = w->iov[0].iov_len;
                w->mh.msg_iov = w->iov;
                w->mh.msg_iovlen = 1;
                w->flags = c.pick<int>({0, MSG_NOSIGNAL, MSG_MORE});
                break;
            case kSleep: w->dur = c.coin() ? c.draw(5'000'000'000ULL) : c.draw(100); break;
            case kTrunc: w->off = c.draw(1ULL << 40); break;
            default: break;
        }
        return w;
    }

    // -1: an exception; 0: success; otherwise an error
    struct Got { bool threw = false; bool ok = false; Error err; int64_t val = 0; };

    template<typename T>
    Got conv(Result<T>&& r)
    {
        Got g;
        g.ok = r.has_value();
        if (!r) g.err = r.error();
        else if constexpr (!std::is_void_v<T>) g.val = *r;
        return g;
    }

    Task<Got> issue(Worker& w, Want& a)
    {
        switch (a.kind)
        {
            case kAccept: co_return conv(co_await w.async_accept(a.fd, reinterpret_cast<sockaddr*>(&a.sa), &a.sal));
            case kRead: co_return conv(co_await w.async_read(a.fd, std::span(a.buf.data(), a.len)));
            case kReadAt: co_return conv(co_await w.async_read_at(a.fd, std::span(a.buf.data(), a.len), a.off));
            case kWrite: co_return conv(co_await w.async_write(a.fd, std::span<const char>(a.buf.data(), a.len)));
            case kWriteAt: co_return conv(co_await w.async_write_at(a.fd, std::span<const char>(a.buf.data(), a.len), a.off));
            case kReadv: co_return conv(co_await w.async_readv(a.fd, a.iov, a.iovcnt, a.off));
            case kWritev: co_return conv(co_await w.async_writev(a.fd, a.iov, a.iovcnt, a.off));
            case kConnect: co_return conv(co_await w.async_connect(a.fd, reinterpret_cast<sockaddr*>(&a.sa), a.sal));
            case kOpen: co_return conv(co_await w.async_openat(std::filesystem::path(a.path), a.flags, a.mode));
            case kFalloc: co_return conv(co_await w.async_fallocate(a.fd, a.flags, static_cast<off_t>(a.off)));
            case kPoll: co_return conv(co_await w.async_poll(a.fd, a.flags));
            case kSendmsg: co_return conv(co_await w.async_sendmsg(a.fd, &a.mh, a.flags));
            case kClose: co_return conv(co_await w.async_close(a.fd));
            case kFsync: co_return conv(co_await w.async_fsync(a.fd));
            case kFdsync: co_return conv(co_await w.async_fdatasync(a.fd));
            case kUnlink: co_return conv(co_await w.async_unlink_at(a.fd, std::filesystem::path(a.path), a.flags));
            case kSleep: co_return conv(co_await w.async_sleep(std::chrono::nanoseconds(a.dur)));
            default: co_return conv(co_await w.async_ftruncate(a.fd, static_cast<off_t>(a.off)));
        }
    }

    DetachedTask program(World& W, Worker& w, size_t ops, bool hop);

    void spawn(World& W, Worker& w, bool hop)
    {
        size_t n = 1 + W.c.draw(6);
        program(W, w, n, hop).detach();
    }

    DetachedTask program(World& W, Worker& w, size_t ops, bool hop)
    {
        ++W.live;
        if (hop) co_await SwitchToWorker(w);
        for (size_t i = 0; i < ops && W.budget > 0; ++i)
        {
            --W.budget;
            auto a = gen(W);
            ++W.issued;
            a->t0 = sim::now_ns();
            const size_t queued_before = W.expect.size(), suspended_before = W.suspended;
            W.expect.push_back(a);
            ++W.suspended;
            W.max_suspended = std::max(W.max_suspended, W.suspended);
            Got g;
            try
            {
                g = co_await issue(w, *a);
            }
            catch (const std::exception& e)
            {
                g.threw = true;
            }
            --W.suspended;
            CREQUIRE(!a->resumed, "resumed-twice", "{} #{} resumed twice", kname[a->kind], a->seq);
            a->resumed = true;
            if (!a->submitted)
            {
                // it never reached the kernel: it must have been refused at once
                CREQUIRE(!W.expect.empty() && W.expect.back() == a, "early-resume", "{} #{} resumed although it is queued for the kernel", kname[a->kind], a->seq);
                W.expect.pop_back();
                ++W.refused;
                CREQUIRE(g.threw || !g.ok, "refused-success", "{} #{} reported success but never reached the kernel", kname[a->kind], a->seq);
                size_t limit = W.wc.max_op_slots;
                unsigned depth = 1;
                while (depth < W.wc.uring_queue_depth) depth *= 2;
                // one entry may hold the wake-up read; one slot may still belong to the operation being completed
                CREQUIRE(queued_before + 1 >= depth || suspended_before + 1 >= limit, "spurious-refusal",
                         "{} #{} was refused ({}) with {} entries queued of {} and {} operations outstanding of {}", kname[a->kind], a->seq, g.threw ? std::string("exception") : std::format("{}", g.err),
                         queued_before, depth, suspended_before, limit);
                continue;
            }
            CREQUIRE(a->completed, "early-resume", "{} #{} resumed before the kernel completed it", kname[a->kind], a->seq);
            size_t hard = std::max(W.wc.max_op_slots, W.wc.default_op_slots);
            CREQUIRE(suspended_before < hard, "limit-ignored", "{} #{} was accepted with {} operations outstanding, the limit is {}", kname[a->kind], a->seq, suspended_before, hard);
            CREQUIRE(!g.threw, "threw", "{} #{} completed with {} but threw", kname[a->kind], a->seq, a->res);
            const bool kernel_ok = a->res >= 0 || (a->kind == kSleep && a->res == -ETIME);
            CREQUIRE(g.ok == kernel_ok, "wrong-outcome", "{} #{}: kernel result {}, reported {}", kname[a->kind], a->seq, a->res, g.ok ? "success" : std::format("{}", g.err));
            if (!g.ok) CREQUIRE(g.err == Error::from_errno(-a->res), "wrong-error", "{} #{}: kernel result {}, reported {}", kname[a->kind], a->seq, a->res, g.err);
            if (g.ok && (a->kind <= kWritev || a->kind == kOpen)) CREQUIRE(g.val == a->res, "wrong-value", "{} #{}: kernel result {}, reported {}", kname[a->kind], a->seq, a->res, g.val);
            if (W.budget > 3 && W.c.chance(1, 6))
            {
                ++W.late_spawns;
                spawn(W, w, W.c.coin());
            }
        }
        if (--W.live == 0) W.r.done = true;
    }

    void prop(pbt::Case& c)
    {
        rig::Rig r(c);
        World W{c, r};
        W.wc.uring_queue_depth = c.pick<size_t>({64, 1, 2, 3, 4, 8, 16, 256});
        W.wc.default_op_slots = c.pick<size_t>({64, 0, 1, 2, 3, 5, 8, 16});
        W.wc.max_op_slots = c.pick<size_t>({1024 * 1024, 1, 2, 3, 7, 20, 64, 0});
        W.wc.op_slots_growth_factor = c.pick({1.5f, 1.01f, 1.1f, 2.0f, 4.0f});
        W.wc.task_queue_capacity = 512;
        W.budget = 5 + c.draw(20 + 280 * static_cast<size_t>(c.size) / 100);
        size_t roots = 1 + c.draw(1 + 40 * static_cast<size_t>(c.size) / 100);
        c.note("depth={} slots={}..{} x{} roots={} ops<={}", W.wc.uring_queue_depth, W.wc.default_op_slots, W.wc.max_op_slots, W.wc.op_slots_growth_factor, roots, W.budget);
        sim::Config sc;
        sc.synthetic = true;
        sc.max_batch = c.pick({16u, 1u, 3u, 200u});
        sc.eintr_per_mille = c.pick({0u, 50u});
        sc.submitted = [&](const sim::Op& o) { W.check_submission(o); };
        sc.done = [&](const sim::Op& o) { W.check_done(o); };
        sc.fault = [&](sim::Op& o) { return W.result(o); };
        size_t extra = c.draw(4);
        Worker* wp = nullptr;
        sc.tick = [&] {
            if (extra && wp && !r.done && c.chance(1, 8))
            {
                --extra;
                // started elsewhere, handed over to the worker
                ++W.live;
                size_t n = 1 + c.draw(4);
                sim::on_helper([&] { program(W, *wp, n, true).detach(); });
                --W.live;
            }
        };
        r.run(sc, W.wc, [&](Worker& w) {
            wp = &w;
            ++W.live;
            for (size_t i = 0; i < roots; ++i) spawn(W, w, false);
            if (--W.live == 0) r.done = true;
        });
        const uint64_t active = r.crashed ? 0 : r.w->get_stats().active_coroutines;
        r.finish();
        if (c.failed) return;
        REQUIRE(r.done, "lost", "{} coroutines never finished", W.live);
        REQUIRE(active == 0, "slots-leaked", "{} operation slots are in use after everything completed", active);
        c.note("issued={} refused={} peak={} spawned later={} out of order={}", W.issued, W.refused, W.max_suspended, W.late_spawns, W.completed_out_of_order);
        if (W.refused) c.label("refused operations");
        if (W.max_suspended > W.wc.default_op_slots) c.label("table grew");
        if (W.completed_out_of_order) c.label("out-of-order completions");
        if (W.max_suspended > 3 && W.completed_out_of_order && W.issued > 8) c.nontrivial();
    }
}  // namespace
PBT_MAIN(prop)
