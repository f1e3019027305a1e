// C33: whom a TLS stream accepts as its peer, and what it carries once established.
#include <cstdint>
#include <syscall.h>
#include <optional>
#include "checks/tls_case.h"

namespace
{
    using namespace tlscase;

    bool is_ip(const std::string& h)
    {
        unsigned char b[16];
        return ::inet_pton(AF_INET, h.c_str(), b) == 1 || ::inet_pton(AF_INET6, h.c_str(), b) == 1;
    }
    bool name_ok(const Identity& i, const std::string& h)
    {
        return is_ip(h) ? X509_check_ip_asc(i.cert.get(), h.c_str(), 0) == 1 : X509_check_host(i.cert.get(), h.c_str(), h.size(), 0, nullptr) == 1;
    }
    void prop(pbt::Case& c)
    {
        Plan p;
        p.strict = true;
        p.role = c.coin() ? tls::TlsRole::Server : tls::TlsRole::Client;
        p.route = static_cast<Route>(c.weighted({4, 1, 1}));
        if (p.route == Listen) p.role = tls::TlsRole::Server;
        if (p.route == Connect) p.role = tls::TlsRole::Client;
        bool server = p.role == tls::TlsRole::Server;
        Pki& k = pki();
        bool ok = true;
        auto anyone = [&] { return c.chance(1, 2) ? static_cast<int>(c.pick<Who>({kGood, kViaInter})) : static_cast<int>(c.draw(kWhoCount)); };
        auto trusted = [](int w) { return w == kGood || w == kViaInter || w == kOtherName || w == kCnOnly; };
        static const std::string hashdir = [&] {
            std::string d = k.dir + "/hashd33";
            ::mkdir(d.c_str(), 0700);
            char h[32];
            snprintf(h, sizeof h, "/%08lx.0", X509_NAME_hash_ex(X509_get_subject_name(k.ca1.get()), nullptr, nullptr, nullptr));
            Pki::put(d + h, pem(k.ca1.get()));
            return d;
        }();
        unsigned trust = static_cast<unsigned>(c.weighted({6, 2, 2, 1, 1}));
        if (trust == 0) p.cfg.ca_cert_path = k.ca1_path;
        if (trust == 1) p.cfg.ca_cert_path = k.both_path;
        if (trust == 2) p.cfg.ca_dir_path = hashdir;
        if (trust == 3) p.cfg.ca_cert_path = k.ca2_path;
        bool knows1 = trust <= 2, knows2 = trust == 1 || trust == 3;
        auto chain_ok = [&](int w) { return (knows1 && trusted(w)) || (knows2 && w == kUntrusted); };
        int mine = -1;
        if (server)
        {
            mine = c.pick<int>({kGood, kViaInter, kCnOnly});
            p.cfg.verify_mode = c.pick<int>({SSL_VERIFY_NONE, SSL_VERIFY_PEER, SSL_VERIFY_PEER | SSL_VERIFY_FAIL_IF_NO_PEER_CERT});
            p.peer_who = c.chance(1, 2) ? -1 : anyone();
            if (p.cfg.verify_mode & SSL_VERIFY_PEER)
            {
                if (p.peer_who < 0) ok = !(p.cfg.verify_mode & SSL_VERIFY_FAIL_IF_NO_PEER_CERT);
                else ok = chain_ok(p.peer_who);
            }
            if (p.route == Listen) p.bind_address = c.pick<std::string>({"127.0.0.1", "0.0.0.0", "::1", "localhost", "::"});
        }
        else
        {
            p.peer_who = anyone();
            p.cfg.verify_mode = c.chance(1, 6) ? SSL_VERIFY_NONE : SSL_VERIFY_PEER;
            p.cfg.verify_hostname = !c.chance(1, 6);
            if (p.route == Connect) p.hostname = c.pick<std::string>({"localhost", "127.0.0.1", "::1"});
            else p.hostname = c.pick<std::string>({"localhost", "kio.test", "KIO.Test", "a.wild.test", "b.a.wild.test", "wild.test", "127.0.0.1", "10.9.8.7", "other.test", "::1", "", "kio.test.evil.com", "good"});
            if (c.chance(1, 5)) p.cfg.server_name = c.pick<std::string>({"kio.test", "other.test", "localhost"});
            std::string effective = p.hostname.empty() ? p.cfg.server_name : p.hostname;
            if (p.cfg.verify_mode != SSL_VERIFY_NONE)
            {
                ok = chain_ok(p.peer_who);
                if (p.cfg.verify_hostname && !effective.empty() && !name_ok(k.id[p.peer_who], effective)) ok = false;
            }
            // the peer may ask who we are
            if (c.chance(1, 4))
            {
                mine = c.pick<int>({kGood, kViaInter});
                p.peer_verify = SSL_VERIFY_PEER | SSL_VERIFY_FAIL_IF_NO_PEER_CERT;
            }
            if (c.chance(1, 3))
                for (size_t i = 0, n = 1 + c.draw(3); i < n; ++i) p.cfg.alpn_protocols.push_back(c.pick<std::string>({"h2", "http/1.1", "kio"}));
        }
        if (mine >= 0)
        {
            p.cfg.cert_path = k.id[mine].cert_path;
            p.cfg.key_path = k.id[mine].key_path;
        }
        // ciphers: always one that can be offloaded
        switch (c.weighted({3, 1, 1, 1, 1}))
        {
            case 1: p.peer_ciphers = "ECDHE-ECDSA-AES128-GCM-SHA256"; break;
            case 2: p.cfg.cipher_suites = "ECDHE-ECDSA-AES128-GCM-SHA256"; break;
            case 3: p.peer_ciphers = "ECDHE-ECDSA-CHACHA20-POLY1305"; break;
            case 4: p.cfg.cipher_suites = "ECDHE-ECDSA-AES256-GCM-SHA384"; break;
            default: break;
        }
        if (c.chance(1, 12)) p.cfg.min_version = tls::TlsVersion::TLS_1_3, ok = false;
        uint64_t pr = 1 + c.draw(1000);
        p.peer_data = std::string(c.coin() ? c.draw(200) : c.draw(60000), '\0');
        for (auto& ch: p.peer_data) ch = static_cast<char>(pbt::splitmix(pr) >> 20);
        p.chunk = c.coin() ? 0 : 1 + c.draw(4000);
        if (p.chunk && p.peer_data.size() / p.chunk > 500) p.chunk = 1 + p.peer_data.size() / 500;
        p.answer = !c.chance(1, 4);   // a peer need not answer our goodbye
        p.lazy_peer = c.chance(3, 10);
        if (p.peer_data.size() < 3000 && c.chance(2, 5)) p.trickle = 20 + c.draw(200);
        p.blocking = c.chance(3, 10);
        if (p.route == Pair && c.chance(1, 5)) p.before.push_back(Step{Move});
        for (size_t i = 0, n = c.draw(9); i < n; ++i)
        {
            Step s;
            s.kind = c.pick<OpKind>({Write, WriteExact, Read, SendFile, Move});
            s.n = c.coin() ? 1 + c.draw(60) : 1 + c.draw(40000);
            s.off = c.draw(8999);
            if (s.kind == Read && p.peer_data.empty()) s.kind = Write;
            p.after.push_back(s);
        }
        // reads in the program must have something to read
        size_t expect = p.peer_data.size();
        for (auto& s: p.after)
            if (s.kind == Read)
            {
                if (expect == 0) s.kind = Move;
                else expect -= std::min(expect, s.n);
            }
        p.must_work = ok;
        p.must_fail = !ok;
        c.note("{} route {} bind {} host '{}' sni '{}' mine {} peer {} trust {} mode {} verify_hostname {} ciphers {} / {} data {} chunk {} ok {}", server ? "server" : "client", (int) p.route, p.bind_address, p.hostname, p.cfg.server_name, mine, p.peer_who, trust,
               p.cfg.verify_mode, p.cfg.verify_hostname, p.cfg.cipher_suites, p.peer_ciphers, p.peer_data.size(), p.chunk, ok);
        for (auto& s: p.after) c.note("after: {} {} {}", (int) s.kind, s.n, s.off);
        auto* h = new Run(c, p);
        h->run();
        bool fail = c.failed;
        bool keep = fail || !h->finished;
        if (!fail)
        {
            if (!server && h->established)
            {
                std::string effective = p.hostname.empty() ? p.cfg.server_name : p.hostname;
                if (!is_ip(effective)) REQUIRE(h->sni == effective, "server-name", "the server was asked for '{}' instead of '{}'", h->sni, effective);
                std::string want;
                for (auto& a: p.cfg.alpn_protocols) want += static_cast<char>(a.size()), want += a;
                REQUIRE(h->alpn_seen == want, "protocols", "the protocols offered are not the configured ones");
            }
            if (server && h->established && mine >= 0)
            {
                X509* got = SSL_get0_peer_certificate(h->peer.ssl);
                REQUIRE(got && X509_cmp(got, k.id[mine].cert.get()) == 0, "identity", "the peer saw another certificate than the configured one");
            }
            c.label(h->established ? "established" : "refused");
            if (p.route != Pair) c.label(p.route == Listen ? "listener" : "connector");
            if (h->established && h->ops_ok > 2 && (h->sure.size() > 16384 || h->reading.size() > 16384)) c.label("large"), c.nontrivial();
            if (!ok) c.nontrivial();
        }
        if (!keep) delete h;
    }
}  // namespace
PBT_MAIN(prop)
