// C32 (b): connecting and accepting through workers over loopback.
#include <cstdint>
#include <syscall.h>
#include <arpa/inet.h>
#include <atomic>
#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/socket.h>
#include <thread>
#include "pbt/pbt.h"
#include "sim/simuring.h"
#include "checks/threaded_rig.h"
#include "kio/core/worker_pool.h"
#include "kio/net/net.h"
#include "kio/net/socket.h"
#include "kio/sync/sync_wait.h"

using namespace kio;
using namespace kio::io;

namespace
{
    size_t open_sockets()
    {
        size_t n = 0;
        DIR* d = ::opendir("/proc/self/fd");
        while (dirent* e = readdir(d))
        {
            char b[64] = {};
            n += ::readlinkat(dirfd(d), e->d_name, b, sizeof b - 1) > 0 && std::string_view(b).starts_with("socket:");
        }
        ::closedir(d);
        return n;
    }
    std::string text(const sockaddr_storage& s)
    {
        char b[64] = "?";
        uint16_t p = 0;
        if (s.ss_family == AF_INET)
        {
            auto& a = reinterpret_cast<const sockaddr_in&>(s);
            ::inet_ntop(AF_INET, &a.sin_addr, b, sizeof b);
            p = ntohs(a.sin_port);
        }
        else if (s.ss_family == AF_INET6)
        {
            auto& a = reinterpret_cast<const sockaddr_in6&>(s);
            ::inet_ntop(AF_INET6, &a.sin6_addr, b, sizeof b);
            p = ntohs(a.sin6_port);
        }
        return std::format("{} {}", b, p);
    }
    constexpr size_t kMsg = 80;

    struct Sink
    {
        std::mutex mu;
        std::string tag, msg;
        std::atomic<bool> bad{false};
        void fail(const char* t, std::string m)
        {
            std::lock_guard g(mu);
            if (!bad) tag = t, msg = std::move(m);
            bad = true;
        }
    };
    struct Faults
    {
        uint64_t seed;
        unsigned rate;
        std::atomic<unsigned> given{0};
        static constexpr int errs[] = {EMFILE, ENFILE, ECONNABORTED, ENOBUFS, EPERM, ETIMEDOUT, EHOSTUNREACH};
        sim::Fault operator()(sim::Op& o)
        {
            sim::Fault f;
            uint64_t s = seed + o.id * 0x9E3779B97F4A7C15ULL, v = pbt::splitmix(s);
            if (rate && (o.opcode == IORING_OP_ACCEPT || o.opcode == IORING_OP_CONNECT) && v % rate == 0)
            {
                f.error = errs[(v >> 20) % std::size(errs)];
                ++given;
            }
            else if (o.is_transfer() && o.bytes() > 1 && v % 3 == 1) f.limit = 1 + (v >> 8) % o.bytes();
            return f;
        }
        bool known(int e) const
        {
            for (int x: errs)
                if (x == e) return true;
            return false;
        }
    };

    struct Listener
    {
        net::Socket s;
        sockaddr_storage addr{};
        socklen_t len = 0;
        size_t expected = 0;
        bool overload = false;
        size_t worker = 0;
        size_t server_first = 0;
    };

    DetachedTask serve(Worker& w, int fd, std::string peer, bool first, Sink& k, std::atomic<size_t>& finished)
    {
        net::Socket s(fd);
        char in[kMsg], out[kMsg] = {};
        snprintf(out, sizeof out, "%s", peer.c_str());
        bool ok = true;
        if (first) ok = (co_await w.async_write_exact(fd, std::span<const char>(out, kMsg))).has_value();
        ok = ok && (co_await w.async_read_exact(fd, std::span(in, kMsg))).has_value();
        if (ok && !first) ok = (co_await w.async_write_exact(fd, std::span<const char>(out, kMsg))).has_value();
        if (!ok) k.fail("dead-connection", "an accepted connection does not carry data");
        else if (peer != std::string(in, strnlen(in, kMsg))) k.fail("wrong-peer", std::format("accept reported the peer {} but {} is at the other end", peer, std::string(in, strnlen(in, kMsg))));
        s = net::Socket();
        ++finished;
    }

    Task<void> accept_all(Worker& w, Listener& l, Sink& k, Faults& f, std::atomic<size_t>& finished)
    {
        co_await SwitchToWorker(w);
        size_t n = 0;
        while (n < l.expected && !k.bad)
        {
            net::SocketAddress sa;
            sockaddr_storage ss{};
            socklen_t sl = sizeof ss;
            Result<int> r = std::unexpected(Error::from_errno(EAGAIN));
            if (l.overload) r = co_await w.async_accept(l.s, sa);
            else r = co_await w.async_accept(l.s.get(), reinterpret_cast<sockaddr*>(&ss), &sl);
            if (!r)
            {
                if (!f.known(r.error().value)) k.fail("accept-failed", std::format("accepting fails with {}", strerror(r.error().value)));
                continue;
            }
            ++n;
            std::string peer;
            if (l.overload)
            {
                sa.populate_from_storage();
                peer = std::format("{} {}", sa.ip, sa.port);
            }
            else peer = text(ss);
            sockaddr_storage real{};
            socklen_t rl = sizeof real;
            if (::getpeername(*r, reinterpret_cast<sockaddr*>(&real), &rl) != 0) k.fail("dead-connection", "the descriptor returned by accept is no connection");
            if (peer != text(real)) k.fail("wrong-peer", std::format("accept reports the peer {} but the connection is with {}", peer, text(real)));
            serve(w, *r, peer, l.server_first, k, finished).detach();
        }
    }

    enum class Kind { Good, Refused, BadFd, WrongFamily, ShortAddr, Twice, AcceptOn, Count };

    int plain_connect(int fam, const sockaddr_storage& to, socklen_t len)
    {
        int fd = static_cast<int>(::socket(fam, SOCK_STREAM, 0));
        int e = ::connect(fd, reinterpret_cast<const sockaddr*>(&to), len) ? errno : 0;
        ::close(fd);
        return e;
    }

    struct Deed
    {
        Kind kind = Kind::Good;
        size_t listener = 0, worker = 0;
        unsigned variant = 0;
    };

    Task<void> deed(Worker& w, Deed d, std::vector<Listener>& ls, const sockaddr_storage& closed, socklen_t closed_len, Sink& k, Faults& f, std::atomic<size_t>& errors)
    {
        co_await SwitchToWorker(w);
        auto& l = ls[d.listener];
        auto expect_error = [&](const Result<void>& r, int want, const char* what) {
            if (r) k.fail("false-success", std::format("{} succeeded, plainly it fails with {}", what, strerror(want)));
            else if (r.error().value != want && !f.known(r.error().value)) k.fail("wrong-error", std::format("{} fails with {}, plainly with {}", what, strerror(r.error().value), strerror(want)));
            ++errors;
        };
        const int fam = l.addr.ss_family, other = fam == AF_INET ? AF_INET6 : AF_INET;
        switch (d.kind)
        {
            case Kind::Good:
            case Kind::Twice:
                while (!k.bad)
                {
                    auto fd = net::create_tcp_fd(fam);
                    if (!fd) { k.fail("create", "creating a socket fails"); co_return; }
                    net::Socket s(*fd);
                    (void) net::set_tcp_fd_options(s.get());
                    auto r = co_await w.async_connect(s.get(), reinterpret_cast<sockaddr*>(&l.addr), l.len);
                    if (!r)
                    {
                        if (!f.known(r.error().value)) k.fail("connect-failed", std::format("connecting to a listening socket fails with {}", strerror(r.error().value)));
                        ++errors;
                        continue;
                    }
                    sockaddr_storage peer{}, me{};
                    socklen_t n = sizeof peer, m = sizeof me;
                    if (::getpeername(s.get(), reinterpret_cast<sockaddr*>(&peer), &n) != 0) { k.fail("false-success", "connecting succeeded but the socket is not connected"); co_return; }
                    ::getsockname(s.get(), reinterpret_cast<sockaddr*>(&me), &m);
                    if (text(peer) != text(l.addr)) k.fail("wrong-peer", std::format("connected to {} instead of {}", text(peer), text(l.addr)));
                    if (d.kind == Kind::Twice)
                    {
                        // the system answers the first such call on a socket connected in the background with success
                        auto again = co_await w.async_connect(s.get(), reinterpret_cast<sockaddr*>(&l.addr), l.len);
                        if (!again && again.error().value != EISCONN && !f.known(again.error().value)) k.fail("wrong-error", std::format("connecting a connected socket fails with {}", strerror(again.error().value)));
                    }
                    char out[kMsg] = {}, in[kMsg] = {};
                    snprintf(out, sizeof out, "%s", text(me).c_str());
                    bool ok = (co_await w.async_write_exact(s.get(), std::span<const char>(out, kMsg))).has_value();
                    ok = ok && (co_await w.async_read_exact(s.get(), std::span(in, kMsg))).has_value();
                    if (!ok) k.fail("dead-connection", "a connection made does not carry data");
                    else if (text(me) != std::string(in, strnlen(in, kMsg))) k.fail("wrong-peer", std::format("the server says its peer is {}, the client is {}", std::string(in, strnlen(in, kMsg)), text(me)));
                    char more;
                    auto eof = co_await w.async_read(s.get(), std::span(&more, 1));
                    if (ok && (!eof || *eof != 0)) k.fail("dead-connection", "no end of stream after the server closed");
                    co_return;
                }
                break;
            case Kind::Refused:
            {
                auto fd = net::create_tcp_fd(closed.ss_family);
                net::Socket s(*fd);
                expect_error(co_await w.async_connect(s.get(), reinterpret_cast<const sockaddr*>(&closed), closed_len), ECONNREFUSED, "connecting to a port nobody listens on");
                break;
            }
            case Kind::BadFd:
                expect_error(co_await w.async_connect(-1, reinterpret_cast<sockaddr*>(&l.addr), l.len), EBADF, "connecting descriptor -1");
                break;
            case Kind::WrongFamily:
            {
                int want = plain_connect(other, l.addr, l.len);
                auto fd = net::create_tcp_fd(other);
                net::Socket s(*fd);
                if (want) expect_error(co_await w.async_connect(s.get(), reinterpret_cast<sockaddr*>(&l.addr), l.len), want, "connecting a socket of the other family");
                break;
            }
            case Kind::ShortAddr:
            {
                int want = plain_connect(fam, l.addr, 4);
                auto fd = net::create_tcp_fd(fam);
                net::Socket s(*fd);
                if (want) expect_error(co_await w.async_connect(s.get(), reinterpret_cast<sockaddr*>(&l.addr), 4), want, "connecting with a cut address");
                break;
            }
            default:
            {
                int fd = d.variant % 3 == 0 ? -1 : d.variant % 3 == 1 ? ::open("/dev/null", O_RDONLY) : ::socket(AF_INET, SOCK_STREAM, 0);
                int x = ::accept(fd, nullptr, nullptr);
                int want = errno;
                sockaddr_storage ss{};
                socklen_t sl = sizeof ss;
                auto r = co_await w.async_accept(fd, reinterpret_cast<sockaddr*>(&ss), &sl);
                if (r || x >= 0) k.fail("false-success", "accepting on something that does not listen succeeded");
                else if (r.error().value != want && !f.known(r.error().value)) k.fail("wrong-error", std::format("accepting fails with {}, plainly with {}", strerror(r.error().value), strerror(want)));
                if (fd >= 0) ::close(fd);
                ++errors;
                break;
            }
        }
    }

    void prop(pbt::Case& c)
    {
        trig::quiet();
        // families that do not exist
        if (c.chance(1, 20))
        {
            for (int fam: {-1, 12345, 46})
            {
                auto r = net::create_tcp_fd(fam);
                int fd = ::socket(fam, SOCK_STREAM, 0), e = errno;
                REQUIRE(!r && fd < 0, "false-success", "a socket of family {} was created", fam);
                REQUIRE(r.error().value == e, "wrong-error", "creating a socket of family {} fails with {}, plainly with {}", fam, strerror(r.error().value), strerror(e));
            }
        }
        const std::string mine = std::format("127.{}.{}.{}", 1 + (getpid() >> 16) % 200, (getpid() >> 8) & 255, 1 + (getpid() & 255) % 254);
        sim::Config sc;
        sc.threaded = true;
        sc.seed = c.draw(1u << 30);
        sc.delay_us = c.pick({0u, 0u, 80u});
        Faults f{sc.seed, c.pick({0u, 0u, 3u, 8u})};
        sc.fault = [&](sim::Op& o) { return f(o); };
        sim::begin(sc);
        const size_t before = open_sockets();
        const size_t nl = 1 + c.draw(2), nw = 1 + c.draw(3);
        static unsigned turn = 0;
        std::vector<Listener> ls(nl);
        for (auto& l: ls)
        {
            const bool six = c.chance(1, 3);
            auto r = net::create_tcp_server_socket(six ? "::1" : mine, six ? static_cast<uint16_t>(10000 + getpid() % 550 * 40 + turn++ % 40) : static_cast<uint16_t>(0), 128);
            REQUIRE(r, "listen", "listening fails with {}", strerror(r.error().value));
            l.s = net::Socket(*r);
            l.len = sizeof l.addr;
            ::getsockname(*r, reinterpret_cast<sockaddr*>(&l.addr), &l.len);
            l.overload = c.coin();
            l.worker = c.draw(nw);
            l.server_first = c.draw(2);
        }
        int closed_fd = ::socket(AF_INET, SOCK_STREAM, 0);
        sockaddr_storage closed{};
        socklen_t closed_len = sizeof(sockaddr_in);
        closed.ss_family = AF_INET;
        ::inet_pton(AF_INET, mine.c_str(), &reinterpret_cast<sockaddr_in&>(closed).sin_addr);
        (void) ::bind(closed_fd, reinterpret_cast<sockaddr*>(&closed), closed_len);
        ::getsockname(closed_fd, reinterpret_cast<sockaddr*>(&closed), &closed_len);
        std::vector<Deed> ds(c.steps(10));
        size_t good = 0;
        for (auto& d: ds)
        {
            d.kind = static_cast<Kind>(c.weighted({8, 1, 1, 1, 1, 1, 1}));
            d.listener = c.draw(nl);
            d.worker = c.draw(nw);
            d.variant = static_cast<unsigned>(c.draw(3));
            if (d.kind == Kind::Good || d.kind == Kind::Twice) ++good, ++ls[d.listener].expected;
        }
        c.note("{} listeners, {} workers, {} clients of which {} good, faults {}", nl, nw, ds.size(), good, f.rate);
        Sink k;
        std::atomic<size_t> finished{0}, errors{0};
        {
            WorkerConfig wc;
            IOPool pool(nw, wc);
            std::vector<std::thread> th;
            auto run = [&](auto make) {
                th.emplace_back([&, make] {
                    try { SyncWait(make()); }
                    catch (const std::exception& e) { k.fail("exception", e.what()); }
                });
            };
            for (auto& l: ls) run([&] { return accept_all(*pool.get_worker(l.worker), l, k, f, finished); });
            for (auto& d: ds) run([&] { return deed(*pool.get_worker(d.worker), d, ls, closed, closed_len, k, f, errors); });
            if (true)
                for (auto& t: th) t.join();
            for (int i = 0; i < 5000 && finished < good && !k.bad; ++i) ::usleep(1000);
            pool.stop();
        }
        sim::end();
        ls.clear();
        ::close(closed_fd);
        if (k.bad) pbt::fail(k.tag, k.msg);
        REQUIRE(finished == good, "not-served", "{} of {} connections were served", finished.load(), good);
        REQUIRE(open_sockets() == before, "descriptor-leaked", "{} sockets are open, {} were before", open_sockets(), before);
        if (f.given) c.label("injected-errors");
        if (good >= 2 && errors >= 1) c.nontrivial();
    }
}  // namespace
PBT_MAIN(prop)
