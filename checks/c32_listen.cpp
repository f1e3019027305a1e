// C32 (a): creating listening sockets, against the plain calls, with failing system calls.
#include <cstdint>
#include <syscall.h>
#include <arpa/inet.h>
#include <cstdarg>
#include <dirent.h>
#include <fcntl.h>
#include <map>
#include <netdb.h>
#include <poll.h>
#include <set>
#include <sys/socket.h>
#include "pbt/pbt.h"
#include "sim/simuring.h"
#include "checks/threaded_rig.h"
#include "kio/net/net.h"
#include "kio/net/socket.h"

using namespace kio;

namespace
{
    enum Call { kSocket, kSetsockopt, kBind, kListen, kFcntl, kCalls };
    const char* const kName[] = {"socket", "setsockopt", "bind", "listen", "fcntl"};
    struct
    {
        bool on = false;
        int call = -1;
        int err = 0;
        unsigned hits = 0;
        std::set<int> ours;   // sockets made while watching
        int stray = 0;        // close() of something else
    } w;
    bool trip(Call k)
    {
        if (!w.on || w.call != k) return false;
        ++w.hits;
        errno = w.err;
        return true;
    }
}
extern "C" {
int socket(int d, int t, int p)
{
    if (trip(kSocket)) return -1;
    int r = static_cast<int>(syscall(SYS_socket, d, t, p));
    if (w.on && r >= 0) w.ours.insert(r);
    return r;
}
int setsockopt(int fd, int l, int o, const void* v, socklen_t n) { return trip(kSetsockopt) ? -1 : static_cast<int>(syscall(SYS_setsockopt, fd, l, o, v, n)); }
int bind(int fd, const sockaddr* a, socklen_t n) { return trip(kBind) ? -1 : static_cast<int>(syscall(SYS_bind, fd, a, n)); }
int listen(int fd, int b) { return trip(kListen) ? -1 : static_cast<int>(syscall(SYS_listen, fd, b)); }
int fcntl(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long a = va_arg(ap, long);
    va_end(ap);
    if (cmd == F_SETFL && trip(kFcntl)) return -1;
    return static_cast<int>(syscall(SYS_fcntl, fd, cmd, a));
}
int close(int fd)
{
    if (w.on)
    {
        if (!w.ours.erase(fd)) ++w.stray;
    }
    return static_cast<int>(syscall(SYS_close, fd));
}
int getaddrinfo(const char*, const char*, const addrinfo*, addrinfo**) { return EAI_NONAME; }
}

namespace
{
    struct Addr
    {
        std::string text;
        sockaddr_storage ss{};
        socklen_t len = 0;
        void port(uint16_t p)
        {
            if (ss.ss_family == AF_INET) reinterpret_cast<sockaddr_in*>(&ss)->sin_port = htons(p);
            else reinterpret_cast<sockaddr_in6*>(&ss)->sin6_port = htons(p);
        }
        uint16_t port() const { return ntohs(ss.ss_family == AF_INET ? reinterpret_cast<const sockaddr_in*>(&ss)->sin_port : reinterpret_cast<const sockaddr_in6*>(&ss)->sin6_port); }
    };
    bool literal(const std::string& t, Addr& a)
    {
        a.text = t;
        if (::inet_pton(AF_INET, t.c_str(), &reinterpret_cast<sockaddr_in*>(&a.ss)->sin_addr) == 1)
        {
            a.ss.ss_family = AF_INET;
            a.len = sizeof(sockaddr_in);
            return true;
        }
        if (::inet_pton(AF_INET6, t.c_str(), &reinterpret_cast<sockaddr_in6*>(&a.ss)->sin6_addr) == 1)
        {
            a.ss.ss_family = AF_INET6;
            a.len = sizeof(sockaddr_in6);
            return true;
        }
        return false;
    }
    bool same(const sockaddr_storage& x, const Addr& y, bool any_port)
    {
        if (x.ss_family != y.ss.ss_family) return false;
        if (x.ss_family == AF_INET)
        {
            auto &p = reinterpret_cast<const sockaddr_in&>(x), &q = reinterpret_cast<const sockaddr_in&>(y.ss);
            return p.sin_addr.s_addr == q.sin_addr.s_addr && (any_port ? p.sin_port != 0 : p.sin_port == q.sin_port);
        }
        auto &p = reinterpret_cast<const sockaddr_in6&>(x), &q = reinterpret_cast<const sockaddr_in6&>(y.ss);
        return memcmp(&p.sin6_addr, &q.sin6_addr, 16) == 0 && (any_port ? p.sin6_port != 0 : p.sin6_port == q.sin6_port);
    }

    // 0 or the errno of the first plain call that fails
    int plain(const Addr& a, int backlog)
    {
        int fd = ::socket(a.ss.ss_family, SOCK_STREAM, 0);
        if (fd < 0) return errno;
        int one = 1, e = 0;
        if (::setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one) || ::setsockopt(fd, SOL_SOCKET, SO_REUSEPORT, &one, sizeof one) || ::bind(fd, reinterpret_cast<const sockaddr*>(&a.ss), a.len) || ::listen(fd, backlog)) e = errno;
        ::close(fd);
        return e;
    }

    void prop(pbt::Case& c)
    {
        trig::quiet();
        const std::string mine = std::format("127.{}.{}.{}", 1 + (getpid() >> 16) % 200, (getpid() >> 8) & 255, 1 + (getpid() & 255) % 254);
        struct Live { net::Socket s; Addr a; };
        std::vector<Live> live;
        std::vector<int> blockers;
        size_t steps = c.steps(12);
        size_t ok = 0, refused = 0;
        for (size_t i = 0; i < steps; ++i)
        {
            std::string host = c.pick<std::string>({mine, mine, mine, "127.0.0.1", "0.0.0.0", "::1", "::", "::ffff:" + mine, "8.8.8.8", "2001:db8::5", "not-an-address", "", "127.0.0.1 ", "1.2.3", "::1x"});
            uint16_t port = 0;
            bool blocked = false;
            switch (c.weighted({5, 2, 2, 1}))
            {
                case 0: break;
                case 1:  // the port of an earlier listener: shared by SO_REUSEPORT
                    if (!live.empty()) port = live[c.draw(live.size())].a.port();
                    break;
                case 2:  // a port somebody else holds
                {
                    Addr b;
                    if (!literal(host, b)) break;
                    int fd = static_cast<int>(syscall(SYS_socket, b.ss.ss_family, SOCK_STREAM, 0));
                    b.port(0);
                    if (::bind(fd, reinterpret_cast<sockaddr*>(&b.ss), b.len) || ::listen(fd, 1)) { ::close(fd); break; }
                    socklen_t n = sizeof b.ss;
                    ::getsockname(fd, reinterpret_cast<sockaddr*>(&b.ss), &n);
                    port = b.port();
                    blockers.push_back(fd);
                    blocked = true;
                    break;
                }
                default: port = static_cast<uint16_t>(c.pick({1, 65535})); break;
            }
            // addresses shared with other processes: a port of our own, so that nobody else answers
            if (host.find(mine) == std::string::npos && (port == 0 || port == 1 || port == 65535))
            {
                static unsigned turn = 0;
                port = static_cast<uint16_t>(10000 + getpid() % 550 * 40 + turn++ % 40);
            }
            int backlog = c.pick({128, 1, 0, 4096, -1, 1 << 30});
            Addr a;
            const bool is_lit = literal(host, a);
            if (is_lit) a.port(port);
            // the system's view, before any fault
            int want = is_lit ? plain(a, backlog) : -1;
            w = {};
            if (c.chance(1, 3))
            {
                w.call = static_cast<int>(c.draw(kCalls));
                w.err = c.pick({EMFILE, ENFILE, ENOBUFS, ENOMEM, EACCES, EADDRINUSE, EINVAL, EPERM, EADDRNOTAVAIL});
            }
            c.note("listen on {}:{} backlog {}{}{}{}", host, port, backlog, blocked ? " (in use)" : "", w.call >= 0 ? std::format(" with {} failing with {}", kName[w.call], strerror(w.err)) : "", want > 0 ? std::format(" (plain calls fail with {})", strerror(want)) : "");
            w.on = true;
            auto r = net::create_tcp_server_socket(host, port, backlog);
            w.on = false;
            REQUIRE(w.stray == 0, "foreign-close", "a descriptor that was not created by the call was closed");
            if (!r)
            {
                REQUIRE(w.ours.empty(), "descriptor-leaked", "failing to listen on {} left {} sockets open", host, w.ours.size());
                ++refused;
                const int e = r.error().value;
                if (!is_lit) c.label("no-address");
                else if (w.hits)
                {
                    // the failing call came before or after the one that the system itself refuses
                    REQUIRE(e == w.err || e == want, "wrong-error", "{} failed with {} but the call reports {}", kName[w.call], strerror(w.err), strerror(e));
                    c.label("fault-reported");
                }
                else
                {
                    REQUIRE(want > 0, "refused", "listening on {}:{} fails with {} although plain calls succeed", host, port, strerror(e));
                    REQUIRE(e == want, "wrong-error", "listening on {}:{} fails with {}, plain calls with {}", host, port, strerror(e), strerror(want));
                    c.label("refused");
                }
                continue;
            }
            REQUIRE(is_lit, "no-address-accepted", "listening on {} succeeded", pbt::show(host));
            REQUIRE(w.ours.size() == 1 && *w.ours.begin() == *r, "descriptor-leaked", "{} sockets made and left open by one successful call", w.ours.size());
            net::Socket s(*r);
            REQUIRE(want == 0, "false-success", "listening on {}:{} succeeded although plain calls fail with {}", host, port, strerror(want));
            REQUIRE(!w.hits || w.call == kFcntl || w.call == kSetsockopt, "false-success", "listening on {} succeeded although {} failed with {}", host, kName[std::max(0, w.call)], strerror(w.err));
            sockaddr_storage got{};
            socklen_t n = sizeof got;
            REQUIRE(::getsockname(s.get(), reinterpret_cast<sockaddr*>(&got), &n) == 0, "not-a-socket", "the descriptor returned is no socket");
            REQUIRE(same(got, a, port == 0), "wrong-address", "the socket is bound to another address than {}:{}", host, port);
            int v = 0;
            socklen_t vl = sizeof v;
            ::getsockopt(s.get(), SOL_SOCKET, SO_ACCEPTCONN, &v, &vl);
            REQUIRE(v == 1, "not-listening", "the socket for {} does not listen", host);
            ::getsockopt(s.get(), SOL_SOCKET, SO_TYPE, &v, &vl);
            REQUIRE(v == SOCK_STREAM, "not-listening", "the socket for {} is of type {}", host, v);
            if (!w.hits) REQUIRE(::fcntl(s.get(), F_GETFL) & O_NONBLOCK, "blocking", "the listening socket blocks");
            Addr b = a;
            b.port(ntohs(got.ss_family == AF_INET ? reinterpret_cast<sockaddr_in&>(got).sin_port : reinterpret_cast<sockaddr_in6&>(got).sin6_port));
            ++ok;
            live.push_back({std::move(s), b});
            c.label("listening");
        }
        // each accepts connections (those sharing a port: one of them does)
        for (size_t i = 0; i < live.size(); ++i)
        {
            Addr to = live[i].a;
            if (to.text == "0.0.0.0" || to.text == "::")
            {
                Addr l;
                literal(to.text == "::" ? "::1" : mine, l);
                l.port(to.port());
                to = l;
            }
            int fd = ::socket(to.ss.ss_family, SOCK_STREAM, 0);
            int rc = ::connect(fd, reinterpret_cast<sockaddr*>(&to.ss), to.len);
            REQUIRE(rc == 0, "not-accepting", "connecting to {}:{} fails with {}", live[i].a.text, to.port(), strerror(errno));
            bool taken = false;
            for (int t = 0; t < 200 && !taken; ++t)
            {
                for (size_t j = 0; j < live.size() && !taken; ++j)
                {
                    if (live[j].a.port() != to.port()) continue;
                    sockaddr_storage me{}, peer{};
                    socklen_t n = sizeof me, m = sizeof peer;
                    pollfd pf{live[j].s.get(), POLLIN, 0};
                    if (::poll(&pf, 1, 0) <= 0) continue;
                    int x = ::accept(live[j].s.get(), reinterpret_cast<sockaddr*>(&peer), &m);
                    if (x < 0) continue;
                    ::getsockname(fd, reinterpret_cast<sockaddr*>(&me), &n);
                    taken = true;
                    char ch = 'q', got = 0;
                    (void) !::write(x, &ch, 1);
                    REQUIRE(::read(fd, &got, 1) == 1 && got == ch, "dead-connection", "a connection to {} carries no data", to.text);
                    ::close(x);
                }
                if (!taken) ::usleep(100);
            }
            REQUIRE(taken, "not-accepting", "a connection to {}:{} was not accepted by its listener", live[i].a.text, to.port());
            ::close(fd);
        }
        for (int fd: blockers) ::close(fd);
        if (ok && refused) c.nontrivial();
    }
}  // namespace
PBT_MAIN(prop)
