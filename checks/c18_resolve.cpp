// C18: address literals round-trip through resolution and back.
#include <cstdint>
#include <syscall.h>
#include "kio/net/net.h"
#include "kio/core/async_logger.h"
#include "pbt.h"
#include <map>
#include <netdb.h>
#include <set>

// The system resolver is replaced by a table, so that nothing leaves the
// process and every lookup is visible.
namespace
{
    std::map<std::string, std::vector<sockaddr_storage>> table;
    std::vector<std::string> lookups;
    std::set<addrinfo*> outstanding;
    int bad_free = 0;
    socklen_t len_of(const sockaddr_storage& s) { return s.ss_family == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6); }
}
extern "C" int getaddrinfo(const char* node, const char* service, const addrinfo* hints, addrinfo** res)
{
    lookups.push_back(node ? node : "(null)");
    *res = nullptr;
    std::vector<sockaddr_storage> v;
    sockaddr_storage lit{};
    if (node && inet_pton(AF_INET, node, &reinterpret_cast<sockaddr_in*>(&lit)->sin_addr) == 1) { lit.ss_family = AF_INET; v.push_back(lit); }
    else if (node && inet_pton(AF_INET6, node, &reinterpret_cast<sockaddr_in6*>(&lit)->sin6_addr) == 1) { lit.ss_family = AF_INET6; v.push_back(lit); }
    else if (node && table.count(node) && !(hints && (hints->ai_flags & AI_NUMERICHOST))) v = table[node];
    if (v.empty()) return EAI_NONAME;
    uint16_t port = 0;
    if (service) port = static_cast<uint16_t>(atoi(service));
    addrinfo* head = nullptr;
    addrinfo** tail = &head;
    for (auto& s: v)
    {
        if (hints && hints->ai_family != AF_UNSPEC && hints->ai_family != s.ss_family) continue;
        auto* a = static_cast<addrinfo*>(calloc(1, sizeof(addrinfo) + len_of(s)));
        a->ai_family = s.ss_family;
        a->ai_socktype = SOCK_STREAM;
        a->ai_addrlen = len_of(s);
        a->ai_addr = reinterpret_cast<sockaddr*>(a + 1);
        memcpy(a->ai_addr, &s, len_of(s));
        if (s.ss_family == AF_INET) reinterpret_cast<sockaddr_in*>(a->ai_addr)->sin_port = htons(port);
        else reinterpret_cast<sockaddr_in6*>(a->ai_addr)->sin6_port = htons(port);
        *tail = a;
        tail = &a->ai_next;
    }
    if (!head) return EAI_NONAME;
    *res = head;
    outstanding.insert(head);
    return 0;
}
extern "C" void freeaddrinfo(addrinfo* p)
{
    if (!outstanding.erase(p)) { ++bad_free; return; }
    while (p) { auto* n = p->ai_next; free(p); p = n; }
}

namespace
{
    std::string v6_text(pbt::Case& c, const unsigned char* b)
    {
        uint16_t g[8];
        for (int i = 0; i < 8; ++i) g[i] = static_cast<uint16_t>(b[2 * i] << 8 | b[2 * i + 1]);
        const bool v4tail = c.chance(1, 4);
        const int n = v4tail ? 6 : 8;
        // optional compression of one run of zeros
        int cs = -1, cl = 0;
        if (c.coin())
        {
            std::vector<std::pair<int, int>> runs;
            for (int i = 0; i < n; ++i)
            {
                int j = i;
                while (j < n && g[j] == 0) ++j;
                if (j > i) { runs.emplace_back(i, j - i); i = j; }
            }
            if (!runs.empty())
            {
                auto [s, l] = runs[c.draw(runs.size())];
                cs = s;
                cl = l;
            }
        }
        std::string s;
        for (int i = 0; i < n; ++i)
        {
            if (i == cs)
            {
                s += "::";
                i += cl - 1;
                continue;
            }
            if (!s.empty() && s.back() != ':') s += ':';
            std::string h = c.coin() ? std::format("{:x}", g[i]) : c.coin() ? std::format("{:04x}", g[i]) : std::format("{:X}", g[i]);
            s += h;
        }
        if (v4tail)
        {
            if (s.empty() || s.back() != ':') s += ':';
            s += std::format("{}.{}.{}.{}", b[12], b[13], b[14], b[15]);
        }
        return s;
    }
}

static void prop(pbt::Case& c)
{
    static std::stringbuf devnull;
    static std::ostream os(nullptr);
    static bool once = (kio::alog::configure(64, kio::LogLevel::Disabled, os), true);
    (void) once;
    table.clear();
    lookups.clear();
    bad_free = 0;
    const uint16_t port = static_cast<uint16_t>(c.coin() ? c.pick<int>({0, 1, 80, 255, 256, 8080, 32767, 32768, 65535}) : static_cast<int>(c.draw(65536)));
    const size_t kind = c.weighted({4, 4, 2, 3, 2});
    sockaddr_storage want{};
    int family = 0;
    std::string host;
    bool must_fail = false, name = false;
    auto mk4 = [&] {
        family = AF_INET;
        auto* in = reinterpret_cast<sockaddr_in*>(&want);
        in->sin_family = AF_INET;
        unsigned char b[4];
        for (auto& x: b) x = static_cast<unsigned char>(c.coin() ? c.draw(256) : c.pick<int>({0, 1, 127, 10, 255, 100, 9}));
        memcpy(&in->sin_addr, b, 4);
        return std::format("{}.{}.{}.{}", b[0], b[1], b[2], b[3]);
    };
    auto mk6 = [&] {
        family = AF_INET6;
        auto* in = reinterpret_cast<sockaddr_in6*>(&want);
        in->sin6_family = AF_INET6;
        unsigned char b[16];
        for (auto& x: b) x = static_cast<unsigned char>(c.chance(1, 3) ? c.draw(256) : c.pick<int>({0, 0, 0, 255, 1}));
        memcpy(&in->sin6_addr, b, 16);
        return v6_text(c, b);
    };
    switch (kind)
    {
        case 0: host = mk4(); break;
        case 1: host = mk6(); break;
        case 2:  // a name known to the resolver
        {
            name = true;
            host = c.pick<const char*>({"localhost", "db.internal", "a", "xn--caf-dma.example", "127.1"});
            size_t n = 1 + c.draw(3);
            for (size_t i = 0; i < n; ++i)
            {
                sockaddr_storage keep = want;
                int kf = family;
                if (c.coin()) mk4(); else mk6();
                table[host].push_back(want);
                if (i > 0) { want = keep; family = kf; }
            }
            break;
        }
        case 3:  // not an address: a damaged literal
        {
            host = c.coin() ? mk4() : mk6();
            size_t n = 1 + c.draw(2);
            for (size_t i = 0; i < n; ++i)
            {
                size_t p = c.draw(host.size() + 1);
                switch (c.draw(4))
                {
                    case 0: host.insert(p, c.pick<const char*>({".", ":", " ", "g", "0", "9", "-", "%1", "/", "::", "1.2.3.4", "\t"})); break;
                    case 1: host.insert(p, 1, '\0'); break;
                    case 2: if (p < host.size()) host.erase(p, 1); break;
                    default: if (p < host.size()) host[p] = static_cast<char>(c.draw(256));
                }
            }
            break;
        }
        default: host = c.bytes(c.draw(20)); break;
    }
    // reference verdict for damaged texts: the platform's own literal parser
    if (kind >= 3)
    {
        const bool nul = host.find('\0') != std::string::npos;
        sockaddr_storage s{};
        if (!nul && inet_pton(AF_INET, host.c_str(), &reinterpret_cast<sockaddr_in*>(&s)->sin_addr) == 1) { s.ss_family = AF_INET; want = s; family = AF_INET; }
        else if (!nul && inet_pton(AF_INET6, host.c_str(), &reinterpret_cast<sockaddr_in6*>(&s)->sin6_addr) == 1) { s.ss_family = AF_INET6; want = s; family = AF_INET6; }
        else must_fail = true;
    }
    // only the characters of the view belong to the host: what follows would change the address
    const std::string tail = c.pick<const char*>({"", "9", "0", ".1", ":1", "f", "junk"});
    std::string storage = host + tail;
    std::vector<char> exact(storage.begin(), storage.end());
    std::string_view view(exact.data(), host.size());
    c.note("resolve {} followed by {} port {}", pbt::show(host), pbt::show(tail), port);
    auto r = kio::net::resolve_address(view, port);
    for (auto& l: lookups)
        REQUIRE(l == host || host.find('\0') != std::string::npos, "foreign-characters", "looked up {} for {}", pbt::show(l), pbt::show(host));
    REQUIRE(outstanding.empty() && bad_free == 0, "addrinfo-leak", "{} lists not freed, {} bad frees", outstanding.size(), bad_free);
    if (must_fail)
    {
        REQUIRE(!r.has_value(), "accepts-non-address", "{} resolved to family {}", pbt::show(host), r->family);
        c.label("rejected");
        c.nontrivial();
        return;
    }
    REQUIRE(r.has_value(), "rejects-address", "{} not resolved", pbt::show(host));
    REQUIRE(r->family == family && r->addr.ss_family == family, "family", "{}: family {}/{} expected {}", pbt::show(host), r->family, r->addr.ss_family, family);
    REQUIRE(r->addrlen == len_of(want), "address-length", "{}: length {}", pbt::show(host), r->addrlen);
    uint16_t got_port = family == AF_INET ? ntohs(reinterpret_cast<sockaddr_in*>(&r->addr)->sin_port) : ntohs(reinterpret_cast<sockaddr_in6*>(&r->addr)->sin6_port);
    REQUIRE(got_port == port, "port", "{}: port {} expected {}", pbt::show(host), got_port, port);
    const void* ga = family == AF_INET ? static_cast<void*>(&reinterpret_cast<sockaddr_in*>(&r->addr)->sin_addr) : &reinterpret_cast<sockaddr_in6*>(&r->addr)->sin6_addr;
    const void* wa = family == AF_INET ? static_cast<void*>(&reinterpret_cast<sockaddr_in*>(&want)->sin_addr) : &reinterpret_cast<sockaddr_in6*>(&want)->sin6_addr;
    const size_t al = family == AF_INET ? 4 : 16;
    REQUIRE(memcmp(ga, wa, al) == 0, "wrong-address", "{}", pbt::show(host));
    if (family == AF_INET6) REQUIRE(reinterpret_cast<sockaddr_in6*>(&r->addr)->sin6_scope_id == 0 && reinterpret_cast<sockaddr_in6*>(&r->addr)->sin6_flowinfo == 0, "stray-fields", "{}", pbt::show(host));
    REQUIRE(r->as_sockaddr() == reinterpret_cast<const sockaddr*>(&r->addr), "as-sockaddr", "");
    // the text and port it carries, and text converted from the binary form
    auto text_is = [&](const kio::net::SocketAddress& a, const char* what) {
        unsigned char b[16];
        REQUIRE(inet_pton(family, a.ip.c_str(), b) == 1 && memcmp(b, wa, al) == 0, "text", "{}: {} gives ip {}", pbt::show(host), what, pbt::show(a.ip));
        REQUIRE(a.port == port, "text-port", "{}: {} gives port {} expected {}", pbt::show(host), what, a.port, port);
        REQUIRE(a.family == family, "family", "{}", pbt::show(host));
    };
    text_is(*r, "resolution");
    kio::net::SocketAddress again;
    again.addr = r->addr;
    again.addrlen = r->addrlen;
    again.ip = "stale";
    REQUIRE(again.populate_from_storage(), "populate-fails", "{}", pbt::show(host));
    text_is(again, "populate_from_storage");
    kio::net::SocketAddress none;
    none.addr.ss_family = AF_UNIX;
    none.addrlen = c.coin() ? 0 : 10;
    REQUIRE(!none.populate_from_storage(), "populate-accepts", "unknown family accepted");
    // and back again
    auto r2 = kio::net::resolve_address(again.ip, again.port);
    REQUIRE(r2 && r2->addrlen == r->addrlen && memcmp(&r2->addr, &r->addr, r->addrlen) == 0, "round-trip", "{} -> {} differs", pbt::show(host), pbt::show(again.ip));
    c.label(name ? "name" : family == AF_INET ? "IPv4 literal" : "IPv6 literal");
    if (!tail.empty() || family == AF_INET6 || name) c.nontrivial();
}
PBT_MAIN(prop)
