// C16 (a): the counters of one worker equal what its operations really did.
#include "checks/worker_rig.h"
#include <fcntl.h>
#include <netinet/in.h>
#include <sys/stat.h>

using namespace kio;
using namespace kio::io;

namespace
{
    struct Expected
    {
        uint64_t rb = 0, wb_min = 0, wb_max = 0, ro = 0, wo = 0, acc = 0, conn = 0, open = 0;
        uint64_t fails = 0, shorts = 0;
    };

    struct World
    {
        pbt::Case& c;
        rig::Rig& r;
        Expected e;
        size_t live = 0, ops = 0;

        // while running, completions the worker has not looked at yet may be missing
        void check(Worker& w, bool running)
        {
            const char* when = running ? "while running" : "at the end";
            const auto& s = w.get_stats();
            auto eq = [&](const char* n, uint64_t got, uint64_t want) {
                if (running ? got > want : got != want) sim::abort_case("wrong-counter", std::format("{}: {} is {}, the operations add up to {}", when, n, got, want));
            };
            eq("bytes_read_total", s.bytes_read_total, e.rb);
            eq("read_ops_total", s.read_ops_total, e.ro);
            eq("write_ops_total", s.write_ops_total, e.wo);
            eq("connections_accepted_total", s.connections_accepted_total, e.acc);
            eq("connect_ops_total", s.connect_ops_total, e.conn);
            eq("open_ops_total", s.open_ops_total, e.open);
            if ((!running && s.bytes_written_total < e.wb_min) || s.bytes_written_total > e.wb_max)
                sim::abort_case("wrong-counter", std::format("{}: bytes_written_total is {}, the operations add up to {}..{}", when, s.bytes_written_total, e.wb_min, e.wb_max));
        }
    };

    Task<void> one(World& W, Worker& w)
    {
        pbt::Case& c = W.c;
        int fd = static_cast<int>(4096 + c.draw(1 << 20));
        size_t len = c.small(40000);
        std::string buf(len + 1, 'q');
        std::span<char> s(buf.data(), len);
        std::span<const char> cs(buf.data(), len);
        iovec iov[2] = {{buf.data(), len / 2}, {buf.data() + len / 2, len - len / 2}};
        sockaddr_in sa{};
        socklen_t sal = sizeof sa;
        msghdr mh{};
        mh.msg_iov = iov;
        mh.msg_iovlen = 2;
        ++W.ops;
        switch (c.draw(18))
        {
            case 0: (void) co_await w.async_read(fd, s); break;
            case 1: (void) co_await w.async_read_at(fd, s, 77); break;
            case 2: (void) co_await w.async_readv(fd, iov, 2, 5); break;
            case 3: (void) co_await w.async_read_exact(fd, s); break;
            case 4: (void) co_await w.async_read_exact_at(fd, s, 9); break;
            case 5: (void) co_await w.async_write(fd, cs); break;
            case 6: (void) co_await w.async_write_at(fd, cs, 3); break;
            case 7: (void) co_await w.async_writev(fd, iov, 2, 0); break;
            case 8: (void) co_await w.async_write_exact(fd, cs); break;
            case 9: (void) co_await w.async_write_exact_at(fd, cs, 100); break;
            case 10: (void) co_await w.async_sendmsg(fd, &mh, 0); break;
            case 11: (void) co_await w.async_accept(fd, reinterpret_cast<sockaddr*>(&sa), &sal); break;
            case 12: (void) co_await w.async_connect(fd, reinterpret_cast<sockaddr*>(&sa), sal); break;
            case 13: (void) co_await w.async_openat("/nonexistent/x", O_RDONLY, 0); break;
            case 14: (void) co_await w.async_fsync(fd); break;
            case 15: (void) co_await w.async_sleep(std::chrono::nanoseconds(c.draw(1000))); break;
            case 16: (void) co_await w.async_close(fd); break;
            default:
            {
                size_t n = c.coin() ? c.small(200000) : c.draw(70000);
                auto r = co_await w.async_sendfile(fd, fd + 1, 11, n);
                if (r) ++W.e.wo;
                break;
            }
        }
        if (c.chance(1, 4)) W.check(w, true);
    }

    DetachedTask program(World& W, Worker& w, size_t n)
    {
        ++W.live;
        for (size_t i = 0; i < n; ++i) co_await one(W, w);
        if (--W.live == 0) W.r.done = true;
    }

    void prop(pbt::Case& c)
    {
        rig::Rig r(c);
        World W{c, r};
        WorkerConfig wc;
        wc.default_op_slots = c.pick<size_t>({64, 1, 4});
        wc.op_slots_growth_factor = c.pick({2.0f, 1.1f});
        size_t roots = 1 + c.draw(1 + 12 * static_cast<size_t>(c.size) / 100);
        std::vector<size_t> lens;
        for (size_t i = 0; i < roots; ++i) lens.push_back(1 + c.draw(12));
        sim::Config sc;
        sc.synthetic = true;
        sc.eintr_per_mille = 20;
        unsigned err_pm = c.pick({100u, 0u, 400u});
        // the block of a transfer that is in its pipe; both ends of a pipe have the same inode
        std::map<uint64_t, std::pair<uint64_t, uint64_t>> block;  // pipe -> size, bytes not yet delivered
        auto inode = [](int fd) {
            struct stat st{};
            ::fstat(fd, &st);
            return static_cast<uint64_t>(st.st_ino);
        };
        sc.fault = [&](sim::Op& o) {
            sim::Fault f;
            f.use_override = true;
            if (c.draw(1000) >= 1000 - err_pm)
            {
                f.override_res = -static_cast<int>(1 + c.draw(133));
                return f;
            }
            if (o.opcode == IORING_OP_OPENAT || o.opcode == IORING_OP_ACCEPT) f.override_res = static_cast<int>(c.draw(1000));
            else if (o.is_transfer())
            {
                size_t n = o.bytes();
                f.override_res = static_cast<int>(n == 0 ? 0 : c.weighted({3, 2}) == 0 ? n : c.draw(n + 1));
            }
            else f.override_res = 0;
            return f;
        };
        sc.done = [&](const sim::Op& o) {
            if (o.wakeup) return;
            Expected& e = W.e;
            if (o.res < 0) ++e.fails;
            else if (o.is_transfer() && static_cast<size_t>(o.res) < o.bytes()) ++e.shorts;
            uint64_t n = o.res > 0 ? static_cast<uint64_t>(o.res) : 0;
            switch (o.opcode)
            {
                case IORING_OP_READ: case IORING_OP_READV: e.rb += n; e.ro += o.res >= 0; break;
                case IORING_OP_WRITE: case IORING_OP_WRITEV: case IORING_OP_SENDMSG: e.wb_min += n; e.wb_max += n; e.wo += o.res >= 0; break;
                case IORING_OP_ACCEPT: e.acc += o.res >= 0; break;
                case IORING_OP_CONNECT: e.conn += o.res >= 0; break;
                case IORING_OP_OPENAT: e.open += o.res >= 0; break;
                case IORING_OP_SPLICE:
                    // bytes count once they have gone through the pipe; a block abandoned half-way may count or not
                    if (o.splice_fd_in >= 4096) block[inode(o.fd)] = {n, n};
                    else
                    {
                        auto& [size, left] = block[inode(o.splice_fd_in)];
                        left -= std::min(n, left);
                        e.wb_max += n;
                        if (n > 0 && left == 0) e.wb_min += size;
                    }
                    break;
                default: break;
            }
        };
        WorkerStats fin{};
        r.run(sc, wc, [&](Worker& w) {
            ++W.live;
            for (size_t n: lens) program(W, w, n).detach();
            if (--W.live == 0) r.done = true;
        });
        if (!r.crashed)
        {
            fin = r.w->get_stats();
            W.check(*r.w, false);
        }
        r.finish();
        if (c.failed) return;
        REQUIRE(r.done, "lost", "{} coroutines never finished", W.live);
        REQUIRE(fin.active_coroutines == 0, "slots-leaked", "{} operations outstanding after everything completed", fin.active_coroutines);
        c.note("{} operations, {} failures, {} short transfers; read {} written {}", W.ops, W.e.fails, W.e.shorts, W.e.rb, W.e.wb_min);
        if (W.ops > 5 && W.e.fails && W.e.shorts) c.nontrivial();
    }
}  // namespace
PBT_MAIN(prop)
