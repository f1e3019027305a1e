// C17: the metrics server against generated clients over loopback sockets.
#include <cstdint>
#include <syscall.h>
#include <arpa/inet.h>
#include <array>
#include <atomic>
#include <dirent.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/socket.h>
#include <thread>
#include "pbt/pbt.h"
#include "sim/simuring.h"
#include "checks/threaded_rig.h"
#include "kio/metrics/registry.h"
#include "kio/metrics/server.h"

using namespace kio;

namespace
{
    std::atomic<int> g_port{0};
    std::atomic<int> g_listen{-1};
}
extern "C" int listen(int fd, int backlog)
{
    long r = syscall(SYS_listen, fd, backlog);
    sockaddr_in a{};
    socklen_t n = sizeof a;
    if (r == 0 && ::getsockname(fd, reinterpret_cast<sockaddr*>(&a), &n) == 0) g_port = ntohs(a.sin_port), g_listen = fd;
    return static_cast<int>(r);
}

namespace
{
    struct Blob : IMetricsCollector
    {
        std::atomic<uint64_t> version{0};
        std::atomic<size_t> samples{0};
        std::atomic<bool> broken{false};
        void Collect(MetricSnapshot& s) override
        {
            if (broken) throw std::runtime_error("collector out of order");
            s.BuildFamily("kio_version", "v", MetricType::Counter).Add({}, static_cast<double>(version.load()));
            auto& f = s.BuildFamily("kio_blob", "some samples", MetricType::Gauge);
            for (size_t i = 0; i < samples; ++i) f.Add({{"index", std::to_string(i)}, {"text", std::string(i % 50, 'x')}}, static_cast<double>(i) / 4);
        }
    };
    Blob& blob()
    {
        static auto b = [] {
            auto p = std::make_shared<Blob>();
            MetricsRegistry<>::Instance().Register(p);
            return p;
        }();
        return *b;
    }
    size_t open_fds()
    {
        size_t n = 0;
        DIR* d = ::opendir("/proc/self/fd");
        while (readdir(d)) ++n;
        ::closedir(d);
        return n;
    }

    size_t open_sockets()
    {
        size_t n = 0;
        DIR* d = ::opendir("/proc/self/fd");
        while (dirent* e = readdir(d))
        {
            char b[64] = {};
            n += ::readlinkat(dirfd(d), e->d_name, b, sizeof b - 1) > 0 && std::string_view(b).starts_with("socket:");
        }
        ::closedir(d);
        return n;
    }

    enum class Want { Nothing, Dropped, Answer };
    struct Expect
    {
        Want w = Want::Nothing;
        std::vector<int> codes;  // acceptable status codes
        bool metrics = false;
    };
    constexpr size_t kLimit = 8192;

    // what the bytes sent so far call for
    Expect expect(const std::string& b)
    {
        Expect e;
        size_t he = b.find("\r\n\r\n");
        if (he == std::string::npos)
        {
            if (b.size() > kLimit) e.w = Want::Dropped;
            return e;
        }
        if (he + 4 > kLimit)
        {
            e.w = Want::Dropped;
            return e;
        }
        e.w = Want::Answer;
        std::string line = b.substr(0, b.find("\r\n"));
        size_t s1 = line.find(' ');
        size_t s2 = s1 == std::string::npos ? s1 : line.find(' ', s1 + 1);
        if (s2 == std::string::npos)
        {
            e.codes = {400};
            return e;
        }
        std::string m = line.substr(0, s1), p = line.substr(s1 + 1, s2 - s1 - 1), v = line.substr(s2 + 1);
        if (m != "GET") e.codes = {405};
        else if (p == "/metrics") e.codes = {200}, e.metrics = true;
        else if (p == "/health" || p == "/") e.codes = {200};
        else e.codes = {404};
        // forms the request-line grammar does not allow may also be called malformed
        if (m.empty() || p.empty() || (v != "HTTP/1.1" && v != "HTTP/1.0")) e.codes.push_back(400);
        return e;
    }

    struct Seg { std::string s; };
    enum class End { ReadAll, HalfClose, Reset, Close };
    struct Client
    {
        std::vector<std::string> segs;
        size_t next = 0;
        End end = End::ReadAll;
        bool small_window = false;
        int fd = -1;
        std::string sent;
        bool gone = false;      // the server has closed, as seen when sending
        uint64_t version_at_request = 0;
        bool done = false;
        std::string what;
    };

    std::string gen_request(pbt::Case& c, std::string& what)
    {
        static const std::vector<std::string> methods = {"GET", "POST", "HEAD", "PUT", "get", "OPTIONS", "G", "GETT", "DELETE"};
        static const std::vector<std::string> paths = {"/metrics", "/health", "/", "/metrics/", "/metricsx", "/Metrics", "/nothing", "metrics", "/healthz", "*", "//", "/health/metrics", "/m"};
        std::string r;
        switch (c.weighted({10, 3, 1, 1, 1}))
        {
            case 0:
            case 1:
            {
                std::string m = c.chance(1, 4) ? c.pick_from(methods) : "GET";
                std::string p = c.chance(2, 5) ? c.pick_from(paths) : "/metrics";
                r = m + " " + p + " " + (c.chance(1, 6) ? "HTTP/1.0" : "HTTP/1.1") + "\r\n";
                break;
            }
            case 2:  // not a request line
                r = c.pick<std::string>({"", "GET", "GET/metrics", "\x01\x02", "HTTP/1.1", "GET /metrics", "GET\t/metrics\tHTTP/1.1", "hello there", ":"}) + "\r\n";
                break;
            case 3:
                r = "GET /metrics HTTP/1.1" + c.pick<std::string>({"\n", "\r", "\n\r", " \r\n", "\r\n", " x\r\n"});
                break;
            default:
                r = "GET /" + c.bytes(c.draw(12)) + " HTTP/1.1\r\n";
                break;
        }
        what = pbt::show(r, 40);
        size_t hdrs = c.draw(4);
        for (size_t i = 0; i < hdrs; ++i)
            r += c.pick<std::string>({"Host: localhost\r\n", "Accept: */*\r\n", "X:\r\n", "A: b\n\r\n", "Connection: keep-alive\r\n", "X: \r\r\n", "Y: \n\n\r\n"});
        if (c.chance(1, 6))
        {
            // padded to around the size limit
            size_t target = c.pick<size_t>({kLimit - 2, kLimit - 1, kLimit, kLimit + 2, kLimit + 3, kLimit + 500, 2 * kLimit - 100, 2 * kLimit + 10, 3 * kLimit, 4096, 1024, 1020, 2048});
            if (r.size() + 6 < target - 2) r += "P: " + std::string(target - 2 - r.size() - 5, 'p') + "\r\n";
            what += std::format(" padded to {}", target);
        }
        switch (c.weighted({12, 2, 1, 2}))
        {
            case 0: r += "\r\n"; break;
            case 1: r += "\r\nbody" + c.bytes(c.draw(30)) + "\r\n\r\n"; break;
            case 2: r += "\r\nGET /metrics HTTP/1.1\r\n\r\n"; break;
            default: what += " unfinished"; break;
        }
        return r;
    }

    struct Net
    {
        sockaddr_in addr{};
        int connect(bool small_window)
        {
            int fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
            int one = 1, win = 2304;
            ::setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
            if (small_window) ::setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &win, sizeof win);
            timeval tv{20, 0};
            ::setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
            ::setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv);
            if (::connect(fd, reinterpret_cast<sockaddr*>(&addr), sizeof addr) != 0)
            {
                int e = errno;
                ::close(fd);
                errno = e;
                return -1;
            }
            return fd;
        }
    };

    std::string cut_version(std::string t, uint64_t& v)
    {
        size_t p = t.find("\nkio_version ");
        if (p == std::string::npos) return "";
        size_t e = t.find('\n', p + 1);
        v = strtoull(t.c_str() + p + 13, nullptr, 10);
        return t.substr(0, p) + t.substr(e == std::string::npos ? t.size() : e);
    }

    // reads to the end of the stream; false: timed out
    bool read_all(int fd, std::string& out, bool& reset)
    {
        char b[65536];
        reset = false;
        while (true)
        {
            ssize_t n = ::recv(fd, b, sizeof b, 0);
            if (n > 0) out.append(b, static_cast<size_t>(n));
            else if (n == 0) return true;
            else if (errno == EINTR) continue;
            else if (errno == ECONNRESET) { reset = true; return true; }
            else return false;
        }
    }

    void check_answer(const Client& k, const Expect& e, const std::string& got)
    {
        size_t he = got.find("\r\n\r\n");
        REQUIRE(got.starts_with("HTTP/1.1 ") && he != std::string::npos, "bad-response", "{} got {}", k.what, pbt::show(got));
        size_t le = got.find("\r\n");
        std::string st = got.substr(9, le - 9);
        int code = atoi(st.c_str());
        REQUIRE(st.size() > 4 && st[3] == ' ' && isdigit(static_cast<unsigned char>(st[0])), "bad-response", "status line {}", pbt::show(got.substr(0, le)));
        size_t i = le + 2, lens = 0, len = 0;
        bool close = false;
        while (i < he + 2)
        {
            size_t x = got.find("\r\n", i);
            std::string h = got.substr(i, x - i);
            i = x + 2;
            size_t colon = h.find(':');
            REQUIRE(colon != std::string::npos && colon > 0 && h.find_first_of(" \r\n\t") > colon, "bad-response", "header line {}", pbt::show(h));
            std::string name = h.substr(0, colon), val = h.substr(colon + 1);
            for (auto& ch: name) ch = static_cast<char>(tolower(ch));
            val.erase(0, val.find_first_not_of(' '));
            if (name == "content-length")
            {
                ++lens;
                REQUIRE(!val.empty() && val.find_first_not_of("0123456789") == std::string::npos, "bad-response", "content length {}", pbt::show(val));
                len = strtoull(val.c_str(), nullptr, 10);
            }
            if (name == "connection") close = val == "close";
        }
        (void) close;
        std::string body = got.substr(he + 4);
        REQUIRE(lens == 1, "bad-response", "{} content-length headers", lens);
        REQUIRE(len == body.size(), "content-length", "{}: content length {} but {} bytes follow", k.what, len, body.size());
        bool ok = false;
        for (int x: e.codes) ok |= x == code;
        REQUIRE(ok, "wrong-status", "{} answered {} {}", k.what, st, e.codes.empty() ? 0 : e.codes[0]);
        if (e.metrics && code == 200)
        {
            uint64_t v = 0, w = 0;
            std::string rest = cut_version(body, v), now = cut_version(MetricsRegistry<>::Instance().Scrape(), w);
            REQUIRE(rest == now, "wrong-exposition", "the body is not the current exposition: {}", pbt::show(body, 300));
            REQUIRE(v >= k.version_at_request && v <= w, "stale-exposition", "the body was made at version {}, the request at {}", v, k.version_at_request);
        }
    }

    // an operation of the answer found no slot
    bool cut_short(const std::string& got)
    {
        size_t he = got.find("\r\n\r\n"), p = got.find("Content-Length: ");
        return he == std::string::npos || p == std::string::npos || got.size() - he - 4 < strtoull(got.c_str() + p + 16, nullptr, 10);
    }

    void pause_us(unsigned us)
    {
        if (us) ::usleep(us);
    }

    void prop(pbt::Case& c)
    {
        trig::quiet();
        blob();
        sim::Config sc;
        sc.threaded = true;
        sc.seed = c.draw(1u << 30);
        sc.delay_us = c.pick({0u, 0u, 100u});
        trig::Shorten sh(sc.seed);
        const bool shorten = c.chance(1, 3);
        if (shorten) sc.fault = [&](sim::Op& o) { return sh(o); };
        sim::begin(sc);
        blob().samples = c.chance(1, 5) ? 200 + c.draw(6000) : c.draw(40);
        blob().broken = false;
        io::WorkerConfig wc;
        const unsigned mode = static_cast<unsigned>(c.weighted({12, 1, 1}));
        const size_t before = open_fds();
        const std::string host = std::format("127.{}.{}.{}", 1 + (getpid() >> 16) % 200, (getpid() >> 8) & 255, 1 + (getpid() & 255) % 254);
        auto fin = [&] { sim::end(); };
        if (mode == 1)
        {
            // life cycles without clients
            size_t k = c.draw(6);
            c.note("life cycle {}", k);
            {
                MetricsServer s(host, 0, wc);
                if (k == 1 || k == 2 || k == 3 || k == 4) s.start();
                if (k == 2) s.start();
                if (k == 3) s.stop();
                if (k == 4) { s.stop(); s.stop(); }
                if (k == 5) s.stop();
            }
            fin();
            REQUIRE(open_fds() == before, "descriptor-left", "{} descriptors after the server is gone, {} before", open_fds(), before);
            c.label("life-cycle");
            return;
        }
        const bool tight = mode == 2;  // fewer operation slots or ring entries than clients
        if (tight)
        {
            wc.default_op_slots = 3 + c.draw(3);
            wc.max_op_slots = wc.default_op_slots + c.draw(3);
            if (c.coin()) wc.uring_queue_depth = 4 + c.draw(3);
        }
        size_t n = tight ? 4 + c.draw(8) : c.steps(8);
        std::vector<Client> cl(n);
        for (auto& k: cl)
        {
            std::string r = gen_request(c, k.what);
            switch (c.weighted({3, 3, 2, 1}))
            {
                case 0: k.segs = {r}; break;
                case 1:
                {
                    size_t cuts = 1 + c.draw(6), at = 0;
                    for (size_t i = 0; i < cuts && at < r.size(); ++i)
                    {
                        size_t m = i + 1 == cuts ? r.size() - at : c.draw(std::min<size_t>(r.size() - at, 40) + 1);
                        if (m) k.segs.push_back(r.substr(at, m));
                        at += m;
                    }
                    break;
                }
                case 2:  // cut inside the terminator
                {
                    size_t he = r.find("\r\n\r\n");
                    size_t at = he == std::string::npos ? r.size() / 2 : he + c.draw(4);
                    k.segs = {r.substr(0, at), r.substr(at)};
                    if (k.segs[0].empty()) k.segs.erase(k.segs.begin());
                    if (k.segs.back().empty()) k.segs.pop_back();
                    break;
                }
                default:
                    if (r.size() <= 400)
                        for (char ch: r) k.segs.push_back(std::string(1, ch));
                    else
                        for (size_t i = 0; i < r.size(); i += 1000) k.segs.push_back(r.substr(i, 1000));
                    break;
            }
            k.end = c.pick({End::ReadAll, End::ReadAll, End::ReadAll, End::HalfClose, End::Reset, End::Close});
            if (k.end == End::Reset || k.end == End::Close)
                if (c.coin() && k.segs.size() > 1) k.segs.resize(1 + c.draw(k.segs.size() - 1));
            k.small_window = c.chance(1, 4);
            c.note("client: {} in {} segments, end {}{}", k.what, k.segs.size(), static_cast<int>(k.end), k.small_window ? ", small window" : "");
        }
        auto server = std::make_unique<MetricsServer>(host, 0, wc);
        const size_t listening = open_sockets();
        Net net;
        net.addr.sin_family = AF_INET;
        net.addr.sin_port = htons(static_cast<uint16_t>(g_port.load()));
        ::inet_pton(AF_INET, host.c_str(), &net.addr.sin_addr);
        server->start();
        size_t served = 0, dropped = 0, left = n;
        std::string failure, ftag;
        try
        {
            while (left)
            {
                size_t i = c.draw(n);
                while (cl[i].done) i = (i + 1) % n;
                Client& k = cl[i];
                if (c.chance(1, 4)) blob().version++;
                if (k.fd < 0)
                {
                    k.fd = net.connect(k.small_window);
                    REQUIRE(k.fd >= 0, "refused", "connecting failed: {}", strerror(errno));
                    continue;
                }
                if (k.next < k.segs.size())
                {
                    bool had = expect(k.sent).w != Want::Nothing;
                    const std::string& s = k.segs[k.next++];
                    if (!had && expect(k.sent + s).w == Want::Answer) k.version_at_request = blob().version;
                    if (!k.gone)
                    {
                        size_t at = 0;
                        while (at < s.size())
                        {
                            ssize_t w = ::send(k.fd, s.data() + at, s.size() - at, MSG_NOSIGNAL);
                            if (w < 0)
                            {
                                REQUIRE(errno == EPIPE || errno == ECONNRESET, "send", "sending failed: {}", strerror(errno));
                                REQUIRE(tight || expect(k.sent + s).w != Want::Nothing, "closed-early", "{}: the server closed after {} bytes of an unfinished request", k.what, k.sent.size());
                                k.gone = true;
                                break;
                            }
                            at += static_cast<size_t>(w);
                        }
                    }
                    k.sent += s;
                    if (c.chance(1, 3)) pause_us(static_cast<unsigned>(c.draw(300)));
                    continue;
                }
                if (tight && left > 1 && c.chance(3, 4)) continue;
                k.done = true;
                --left;
                Expect e = expect(k.sent);
                if (k.end == End::Reset || k.end == End::Close)
                {
                    if (k.end == End::Reset)
                    {
                        linger l{1, 0};
                        ::setsockopt(k.fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
                    }
                    ::close(k.fd);
                    k.fd = -1;
                    c.label(k.end == End::Reset ? "client-reset" : "client-closed-early");
                    continue;
                }
                std::string got;
                bool reset = false;
                if (e.w == Want::Nothing)
                {
                    pollfd p{k.fd, POLLIN, 0};
                    REQUIRE(tight || ::poll(&p, 1, 0) == 0, "answered-early", "{}: something came back before the header was complete", k.what);
                    ::shutdown(k.fd, SHUT_WR);
                }
                else if (k.end == End::HalfClose && c.coin()) ::shutdown(k.fd, SHUT_WR);
                REQUIRE(read_all(k.fd, got, reset), "no-answer", "{}: neither an answer nor a close within 20 s", k.what);
                ::close(k.fd);
                k.fd = -1;
                if (tight && cut_short(got)) continue;
                if (e.w == Want::Answer)
                {
                    check_answer(k, e, got);
                    ++served;
                    c.label("answered");
                }
                else
                {
                    REQUIRE(got.empty(), "answered-dropped", "{}: answered {} although {}", k.what, pbt::show(got), e.w == Want::Dropped ? "the header is over the limit" : "the header is not complete");
                    ++dropped;
                    c.label(e.w == Want::Dropped ? "over-limit" : "unfinished");
                }
            }
            // the next client is served
            blob().broken = c.chance(1, 10);
            for (int round = 0; round < (blob().broken ? 2 : 1); ++round)
            {
                if (round) blob().broken = false;
                const bool broken = blob().broken;
                for (int attempt = 0;; ++attempt)
                {
                    int fd = net.connect(false);
                    REQUIRE(fd >= 0, "refused", "connecting failed after the other clients: {}", strerror(errno));
                    std::string q = "GET /metrics HTTP/1.1\r\n\r\n", got;
                    Client k;
                    k.what = "the last client";
                    k.version_at_request = blob().version;
                    (void) ::send(fd, q.data(), q.size(), MSG_NOSIGNAL);
                    bool reset;
                    bool ok = read_all(fd, got, reset);
                    ::close(fd);
                    REQUIRE(ok, "not-served", "a client after the others got neither an answer nor a close within 20 s");
                    if (tight && cut_short(got) && attempt < 50)
                    {
                        ::usleep(2000);
                        continue;
                    }
                    Expect e = expect(q);
                    if (broken) e.codes = {500}, e.metrics = false;
                    check_answer(k, e, got);
                    break;
                }
            }
            // the server closes its end of every connection
            for (int i = 0; i < 10000 && open_sockets() != listening; ++i) ::usleep(1000);
            REQUIRE(open_sockets() == listening, "descriptor-left", "{} connections of clients that have gone are still open", open_sockets() - listening);
        }
        catch (const pbt::Failure& f)
        {
            ftag = f.tag;
            failure = f.what();
        }
        size_t idle = c.draw(4);
        std::vector<int> idlers;
        if (failure.empty())
            for (size_t i = 0; i < idle; ++i)
            {
                int fd = net.connect(false);
                if (fd < 0) continue;
                idlers.push_back(fd);
                if (c.coin()) (void) ::send(fd, "GET /", 5, MSG_NOSIGNAL);
            }
        if (idle) pause_us(static_cast<unsigned>(c.draw(500)));
        for (auto& k: cl)
            if (k.fd >= 0) ::close(k.fd);
        if (c.coin()) server->stop();
        server.reset();
        if (failure.empty())
        {
            int fd = net.connect(false);
            for (int x: idlers) ::close(x);
            if (fd >= 0) ::close(fd);
            fin();
            REQUIRE(fd < 0, "still-listening", "the port still accepts after the server is gone");
            if (idlers.empty()) REQUIRE(open_fds() == before, "descriptor-left", "{} descriptors after the server is gone, {} before", open_fds(), before);
        }
        else
        {
            for (int x: idlers) ::close(x);
            fin();
            pbt::fail(ftag, failure);
        }
        if (tight) c.label("tight");
        if (shorten) c.label("short-transfers");
        if (n >= 3 && served >= 2 && !tight) c.nontrivial();
        (void) dropped;
    }
}  // namespace
PBT_MAIN(prop)
