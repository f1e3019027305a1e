// C09: exact transfers move every byte once despite short transfers and errors.
#include "checks/threaded_rig.h"
#include "checks/worker_rig.h"
#include <dirent.h>
#include <fcntl.h>
#include <sys/ioctl.h>
#include <sys/socket.h>

using namespace kio;
using namespace kio::io;

namespace
{
    size_t count_fds()
    {
        size_t n = 0;
        DIR* d = opendir("/proc/self/fd");
        while (readdir(d)) ++n;
        closedir(d);
        return n;
    }
    std::string slurp(const std::string& p)
    {
        std::string s;
        int fd = ::open(p.c_str(), O_RDONLY);
        char b[65536];
        ssize_t n;
        while ((n = ::read(fd, b, sizeof b)) > 0) s.append(b, static_cast<size_t>(n));
        ::close(fd);
        return s;
    }
    void spill(const std::string& p, const std::string& s)
    {
        int fd = ::open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        if (!s.empty() && ::write(fd, s.data(), s.size()) != static_cast<ssize_t>(s.size())) abort();
        ::close(fd);
    }

    // Every injected error number is used once, so the reported error identifies the failed transfer.
    struct Plan
    {
        pbt::Case& c;
        unsigned short_pm = 0, err_pm = 0, zero_pm = 0;
        bool on = true;
        int injected = 0;        // error given to the last operation that failed
        size_t shorts = 0, transfers = 0, zeros = 0;
        bool zero_write = false; // a transfer into the target moved nothing
        bool trouble = false;    // an error or a zero-length result was injected

        sim::Fault operator()(sim::Op& o)
        {
            sim::Fault f;
            if (!on || !o.is_transfer()) return f;
            ++transfers;
            if (err_pm && c.draw(1000) >= 1000 - err_pm)
            {
                injected = c.pick({EIO, ENOSPC, ECONNRESET, EINTR, EAGAIN, EPIPE, EINVAL, ENOMEM, EBADF, ECANCELED});
                f.error = injected;
                trouble = true;
                return f;
            }
            if (zero_pm && (o.is_write() || o.opcode == IORING_OP_SPLICE) && o.bytes() > 0 && c.draw(1000) >= 1000 - zero_pm)
            {
                f.use_override = true;
                f.override_res = 0;
                ++zeros;
                zero_write = true;
                trouble = true;
                return f;
            }
            if (short_pm && o.bytes() > 1 && c.draw(1000) >= 1000 - short_pm)
            {
                f.limit = c.weighted({2, 1, 1}) == 0 ? 1 + c.draw(o.bytes() - 1) : c.coin() ? 1 : o.bytes() - 1;
                ++shorts;
            }
            return f;
        }
    };

    struct Outcome { bool done = false, ok = false; Error err; };

    void prop(pbt::Case& c)
    {
        trig::Dir dir;
        rig::Rig r(c);
        Plan plan{c};
        plan.short_pm = c.pick({600u, 0u, 900u, 200u});
        plan.err_pm = c.pick({0u, 0u, 40u, 200u});
        plan.zero_pm = c.pick({0u, 0u, 0u, 60u});
        const size_t maxn = 200 + 200000 * static_cast<size_t>(c.size) / 100;
        enum { ReadFile, WriteFile, ReadFileAt, WriteFileAt, ReadStream, WriteStream, SendFile, SendSock };
        const int mode = static_cast<int>(c.draw(8));
        const bool sock = c.coin();
        // about 1 case in 6 moves a lot; many one-byte transfers of large buffers would only be slow
        size_t n = c.weighted({5, 1}) == 0 ? c.small(std::min<size_t>(maxn, 3000)) : c.draw(maxn + 1);
        const size_t off = c.weighted({1, 2, 1}) == 0 ? 0 : c.coin() ? c.draw(5000) : c.draw(300000);
        size_t have = n;  // bytes the source really offers from `off` on
        const bool cut_source = c.chance(1, 3);
        if (cut_source) have = c.coin() ? c.draw(n + 1) : n + c.draw(100);
        c.note("mode={} n={} off={} available={} short/1000={} err/1000={} zero/1000={}", mode, n, off, have, plan.short_pm, plan.err_pm, plan.zero_pm);

        const std::string src_path = dir.path + "/src", dst_path = dir.path + "/dst";
        const std::string data = c.bytes(have);
        const std::string before = c.bytes(off);
        std::string old_dst;
        std::string buf(n, '\x5a');
        Outcome out;
        size_t streamed = 0;             // bytes fed to / taken from the peer
        std::string taken;               // what the peer received
        int a = -1, b = -1;              // worker's end, peer's end
        bool src_closed = false;
        const size_t fds0 = count_fds();
        if (mode == ReadStream || mode == WriteStream || mode == SendSock)
        {
            int p[2];
            if (sock) { if (::socketpair(AF_UNIX, SOCK_STREAM, 0, p) != 0) abort(); }
            else
            {
                if (::pipe(p) != 0) abort();
                if (mode != ReadStream) std::swap(p[0], p[1]);
            }
            a = p[0];
            b = p[1];
            ::fcntl(b, F_SETFL, O_NONBLOCK);
        }
        if (mode == ReadFile || mode == ReadFileAt || mode == SendFile || mode == SendSock)
        {
            spill(src_path, before + data);
        }
        if (mode == WriteFile || mode == WriteFileAt || mode == SendFile)
        {
            old_dst = std::string(c.draw(2000), 'o');
            spill(dst_path, old_dst);
        }
        int sfd = -1, dfd = -1;
        if (mode == ReadFile || mode == ReadFileAt || mode == SendFile || mode == SendSock) sfd = ::open(src_path.c_str(), O_RDONLY);
        if (mode == WriteFile || mode == WriteFileAt || mode == SendFile) dfd = ::open(dst_path.c_str(), O_WRONLY);
        // streaming file transfers start at the descriptor's position
        const size_t start = mode == ReadFile ? off : mode == WriteFile || mode == SendFile ? c.draw(old_dst.size() + 1) : off;
        if (mode == ReadFile) ::lseek(sfd, static_cast<off_t>(start), SEEK_SET);
        if (mode == WriteFile || mode == SendFile) ::lseek(dfd, static_cast<off_t>(start), SEEK_SET);
        const size_t fds1 = count_fds();
        size_t fds_after_op = 0;

        auto peer = [&](bool flush) {
            if (mode == ReadStream && b >= 0)
            {
                size_t k = flush ? have - streamed : std::min(have - streamed, c.small(70000));
                while (k > 0)
                {
                    ssize_t m = ::write(b, data.data() + streamed, k);
                    if (m <= 0) break;
                    streamed += static_cast<size_t>(m);
                    k -= static_cast<size_t>(m);
                }
                if (streamed == have && !src_closed) { ::close(b); b = -1; src_closed = true; }
                return true;
            }
            if ((mode == WriteStream || mode == SendSock) && b >= 0)
            {
                std::string t(flush ? 300000 : 1 + c.small(70000), 0);
                ssize_t m = ::read(b, t.data(), t.size());
                if (m > 0) { taken.append(t.data(), static_cast<size_t>(m)); return true; }
            }
            return false;
        };

        sim::Config sc;
        sc.reorder = true;
        sc.eintr_per_mille = c.pick({0u, 30u});
        sc.fault = [&](sim::Op& o) { return plan(o); };
        sc.tick = [&] {
            if (!out.done && c.chance(1, 4)) peer(false);
        };
        sc.idle = [&] { return peer(true); };
        auto go = [&](Worker& w) -> DetachedTask {
            Result<void> res;
            switch (mode)
            {
                case ReadFile: res = co_await w.async_read_exact(sfd, buf); break;
                case ReadStream: res = co_await w.async_read_exact(a, buf); break;
                case ReadFileAt: res = co_await w.async_read_exact_at(sfd, buf, off); break;
                case WriteFile: buf = c.bytes(n); res = co_await w.async_write_exact(dfd, buf); break;
                case WriteStream: buf = c.bytes(n); res = co_await w.async_write_exact(a, buf); break;
                case WriteFileAt: buf = c.bytes(n); res = co_await w.async_write_exact_at(dfd, buf, off); break;
                case SendFile: res = co_await w.async_sendfile(dfd, sfd, static_cast<off_t>(off), n); break;
                default: res = co_await w.async_sendfile(a, sfd, static_cast<off_t>(off), n); break;
            }
            out.ok = res.has_value();
            if (!res) out.err = res.error();
            out.done = true;
            r.done = true;
        };
        r.run(sc, WorkerConfig{}, [&](Worker& w) { go(w).detach(); });
        // what is still on its way to the peer
        if (out.done && (mode == WriteStream || mode == SendSock))
            while (peer(true)) {}
        const size_t pending_ring = r.crashed ? 0 : 2;  // the ring and its wake-up descriptor are still open
        fds_after_op = count_fds();
        r.finish();
        const std::string dst_now = dfd >= 0 ? slurp(dst_path) : "";
        const off_t dpos = dfd >= 0 ? ::lseek(dfd, 0, SEEK_CUR) : 0;
        for (int fd: {a, b, sfd, dfd})
            if (fd >= 0) ::close(fd);
        if (c.failed) return;
        REQUIRE(out.done, "lost", "the transfer never finished");

        const bool is_read = mode == ReadFile || mode == ReadStream || mode == ReadFileAt;
        const bool is_send = mode == SendFile || mode == SendSock;
        const std::string want = is_read ? data.substr(0, n) : is_send ? data.substr(0, n) : buf;
        const char* names[] = {"read_exact(file)", "write_exact(file)", "read_exact_at", "write_exact_at", "read_exact(stream)", "write_exact(stream)", "sendfile(file)", "sendfile(stream)"};
        const bool enough = have >= n;
        // outcome
        if (out.ok)
        {
            REQUIRE(!plan.trouble || n == 0, "error-swallowed", "{} reported success although a transfer failed with {}", names[mode], plan.injected);
            if (is_read || is_send) REQUIRE(enough, "short-success", "{} of {} bytes reported success, the source has {}", names[mode], n, have);
        }
        else
        {
            REQUIRE(n > 0, "spurious-error", "{} of nothing failed: {}", names[mode], out.err);
            if (!plan.trouble)
            {
                REQUIRE((is_read || is_send) && !enough, "spurious-error", "{} failed with {} although nothing went wrong", names[mode], out.err);
                REQUIRE(out.err.value == kIoEof, "wrong-error", "{}: the source ended early, reported {}", names[mode], out.err);
            }
            else if (plan.injected)
                REQUIRE(out.err == Error::from_errno(plan.injected), "wrong-error", "{}: a transfer failed with errno {}, reported {}", names[mode], plan.injected, out.err);
        }
        // data
        if (is_read)
        {
            if (out.ok) REQUIRE(buf == want, "wrong-data", "{} of {} bytes returned other bytes than the source holds", names[mode], n);
            else
            {
                // whatever was stored is a prefix of the source
                size_t k = 0;
                while (k < std::min(n, have) && buf[k] == data[k]) ++k;
                for (size_t i = k; i < n; ++i)
                    if (buf[i] != '\x5a') REQUIRE(false, "wrong-data", "{}: byte {} was written after a gap", names[mode], i);
            }
        }
        if (mode == WriteStream || mode == SendSock)
        {
            REQUIRE(want.compare(0, taken.size(), taken) == 0 && taken.size() <= want.size(), "wrong-data", "{}: the peer received {} bytes that are not a prefix of the {} sent", names[mode], taken.size(), want.size());
            if (out.ok) REQUIRE(taken.size() == n, "lost-bytes", "{} of {} bytes succeeded, the peer received {}", names[mode], n, taken.size());
        }
        if (mode == WriteFile || mode == WriteFileAt || mode == SendFile)
        {
            size_t at = mode == WriteFileAt ? off : start;
            if (out.ok)
            {
                std::string m = old_dst;
                if (n > 0)
                {
                    if (m.size() < at + n) m.resize(at + n, '\0');
                    m.replace(at, n, want);
                }
                REQUIRE(dst_now == m, "wrong-data", "{} of {} bytes at {}: the file has {} bytes, expected {}, or differs", names[mode], n, at, dst_now.size(), m.size());
                if (mode == WriteFile) REQUIRE(static_cast<size_t>(dpos) == start + n, "wrong-position", "{}: position {} after writing {} at {}", names[mode], dpos, n, start);
            }
            else
            {
                // a prefix was written, nothing else changed
                size_t wrote = 0;
                bool fits = false;
                for (wrote = 0; wrote <= want.size() && !fits; ++wrote)
                {
                    size_t end = std::max(old_dst.size(), wrote ? at + wrote : 0);
                    if (end == dst_now.size())
                    {
                        std::string m = old_dst;
                        if (m.size() < end) m.resize(end, '\0');
                        if (wrote) m.replace(at, wrote, want, 0, wrote);
                        fits = m == dst_now;
                    }
                    if (at + wrote > dst_now.size() + 1 && wrote) break;
                }
                REQUIRE(fits, "wrong-data", "{} failed and left other bytes than a prefix of the {} given", names[mode], n);
            }
        }
        if (is_send)
        {
            size_t closed_peer = src_closed ? 1 : 0;
            REQUIRE(fds_after_op + closed_peer == fds1 + pending_ring, "fd-leak", "{}: {} descriptors were open before, {} after (ring included)", names[mode], fds1, fds_after_op);
        }
        (void) fds0;
        c.label(std::string(names[mode]) + (out.ok ? " succeeded" : " failed"));
        c.note("{} -> {}; {} transfers, {} short", names[mode], out.ok ? "ok" : std::format("{}", out.err), plan.transfers, plan.shorts);
        if (plan.transfers >= 3 && plan.shorts >= 1 && n > 3) c.nontrivial();
    }
}  // namespace
PBT_MAIN(prop)
