// C30 (a): nothing but TLS records leaves a TLS stream, and without an
// established, offloaded session reading and writing are refused.
#include <cstdint>
#include <syscall.h>
#include <optional>
#include "checks/tls_case.h"

namespace
{
    using namespace tlscase;

    Step gen_step(pbt::Case& c, bool any)
    {
        Step s;
        s.kind = c.pick<OpKind>({Write, WriteExact, Read, SendFile, Again, Move, Shutdown});
        if (!any && (s.kind == Again || s.kind == Shutdown)) s.kind = Write;
        s.n = c.coin() ? 1 + c.draw(60) : 1 + c.draw(40000);
        s.off = c.draw(8999);
        return s;
    }
    void prop(pbt::Case& c)
    {
        Plan p;
        p.role = c.coin() ? tls::TlsRole::Server : tls::TlsRole::Client;
        p.route = static_cast<Route>(c.weighted({8, 1, 1}));
        if (p.route == Listen) p.role = tls::TlsRole::Server;
        if (p.route == Connect) p.role = tls::TlsRole::Client;
        p.offload = static_cast<Offload>(c.weighted({6, 2, 1, 3, 3}));
        p.chacha = !c.chance(200, 1000);
        bool server = p.role == tls::TlsRole::Server;
        Pki& k = pki();
        if (server)
        {
            Who w = c.pick<Who>({kGood, kViaInter});
            p.cfg.cert_path = k.id[w].cert_path;
            p.cfg.key_path = k.id[w].key_path;
            p.peer_who = -1;
            p.cfg.verify_mode = SSL_VERIFY_NONE;
        }
        else
        {
            p.cfg.ca_cert_path = k.ca1_path;
            p.hostname = "localhost";
        }
        // ---- what the peer can and wants
        bool compatible = true;
        switch (c.weighted({8, 2, 1, 1, 1, 1}))
        {
            case 1: p.peer_max = TLS1_3_VERSION; break;      // 1.3 cannot be offloaded both ways here
            case 2: p.cfg.min_version = tls::TlsVersion::TLS_1_3; compatible = false; break;
            case 3: p.peer_ciphers = "ECDHE-ECDSA-AES128-SHA256:ECDHE-ECDSA-AES128-SHA"; break;   // not offloadable
            case 4: p.peer_ciphers = "ECDHE-ECDSA-CHACHA20-POLY1305"; break;
            case 5: p.peer_ciphers = "ECDHE-ECDSA-AES128-GCM-SHA256"; p.cfg.cipher_suites = "ECDHE-ECDSA-AES256-GCM-SHA384"; compatible = false; break;
            default: break;
        }
        if (!server && c.chance(120, 1000)) p.peer_who = c.pick<int>({kExpired, kOtherName, kUntrusted, kSelfSigned});
        bool trusted = server || p.peer_who == kGood;
        bool offloadable = p.peer_max == TLS1_2_VERSION && (p.peer_ciphers.empty() || p.peer_ciphers.find("GCM") != std::string::npos || (p.peer_ciphers.find("CHACHA") != std::string::npos && p.chacha));
        p.peer_data = std::string(c.weighted({3, 1}) ? c.draw(20000) : c.draw(300), '\0');
        uint64_t pr = 1 + c.draw(1000);
        for (auto& ch: p.peer_data) ch = static_cast<char>('a' + (pbt::splitmix(pr) >> 20) % 26);
        p.chunk = c.coin() ? 0 : 1 + c.draw(4000);
        p.notify = c.chance(300, 1000);
        p.eof_after = c.chance(300, 1000);
        if (p.peer_data.size() < 3000 && c.chance(2, 5)) p.trickle = 20 + c.draw(200);
        p.blocking = c.chance(300, 1000);
        p.lazy_peer = c.chance(300, 1000);
        if (c.chance(600, 1000))
        {
            p.dmg.kind = c.pick<Damage::Kind>({Damage::Flip, Damage::Eof, Damage::Reset, Damage::Silence, Damage::Drop, Damage::Garbage, Damage::Plain, Damage::Insert, Damage::DupRecord});
            p.dmg.at = c.weighted({3, 1}) ? c.draw(6000) : c.draw(1400);
            p.dmg.n = 1 + c.draw(p.dmg.kind == Damage::Flip ? 254 : 300);
            switch (p.dmg.kind)
            {
                case Damage::Garbage: p.dmg.bytes = c.bytes(1 + c.draw(400)); break;
                case Damage::Plain: p.dmg.bytes = c.pick<std::string>({"HTTP/1.1 200 OK\r\n\r\nhello", "GET / HTTP/1.1\r\n\r\n", "\r\n", "hello, this is plain text"}); break;
                case Damage::Insert:
                    p.dmg.bytes = c.pick<std::string>({std::string("\x15\x03\x03\x00\x02\x02\x28", 7), std::string("\x15\x03\x03\x00\x02\x01\x00", 7), std::string("\x15\x03\x03\x00\x02\x01\x5a", 7),
                                                       std::string("\x17\x03\x03\x00\x05hello", 10), std::string("\x14\x03\x03\x00\x01\x01", 6), std::string("\x16\x03\x03\x00\x04\x00\x00\x00\x00", 9), std::string("\x17\x03\x03\x00\x00", 5)});
                    break;
                default: break;
            }
        }
        if (c.chance(200, 1000)) p.stop_at = 1 + static_cast<long>(c.draw(p.trickle ? 140 : 60));
        else if (c.chance(100, 1000))
        {
            p.stop_half = true;
            p.trickle = 1 + c.draw(60);
            if (p.peer_data.size() > 3000) p.peer_data.resize(3000);
        }
        if (c.chance(150, 1000)) p.poll_fault = 2 + static_cast<unsigned>(c.draw(6));
        if (p.route == Pair && c.chance(250, 1000))
            for (size_t i = 0, n = 1 + c.draw(2); i < n; ++i)
            {
                Step s = gen_step(c, true);
                // reading before the handshake would have to be refused, too
                p.before.push_back(s);
            }
        for (size_t i = 0, n = c.draw(6); i < n; ++i) p.after.push_back(gen_step(c, true));
        p.close = !c.chance(250, 1000);
        p.must_fail = p.offload != Both || !compatible || !trusted || !offloadable;

        c.note("role {} route {} offload {} peer_max {:x} ciphers {} who {} data {} chunk {} notify {} eof {} lazy {} blocking {} dmg {} at {} n {} stop {}/{} pollfault {} close {} must_fail {}", server ? "server" : "client", (int) p.route, (int) p.offload, p.peer_max, p.peer_ciphers, p.peer_who, p.peer_data.size(), p.chunk, p.notify, p.eof_after, p.lazy_peer, p.blocking, (int) p.dmg.kind, p.dmg.at, p.dmg.n, p.stop_at, p.stop_half, p.poll_fault, p.close, p.must_fail);
        for (auto& s: p.before) c.note("before: {} {} {}", (int) s.kind, s.n, s.off);
        for (auto& s: p.after) c.note("after: {} {} {}", (int) s.kind, s.n, s.off);
        // on the heap if the program may stay suspended
        auto* h = new Run(c, p);
        h->run();
        bool fail = c.failed;
        bool keep = fail || !h->finished;
        if (!fail)
        {
            // an edit to the peer's handshake that the handshake's own authentication covers
            if (h->established && h->peer.damaged && h->peer.damaged_handshake)
            {
                auto kd = p.dmg.kind;
                bool covered = (kd == Damage::Flip && !h->peer.damaged_header) || kd == Damage::Eof || kd == Damage::Reset || kd == Damage::Silence || kd == Damage::Drop;
                REQUIRE(!covered, "tampered", "the handshake succeeds although byte {} of the peer's handshake was tampered with", p.dmg.at);
            }
            if (h->established) c.label("established");
            if (h->refused) c.label("refused");
            if (h->peer.damaged) c.label("damaged");
            if (!h->finished) c.label("stopped");
            if (p.must_fail) c.label("must-fail");
            if (h->refused || (h->established && h->ops_ok && h->peer.damaged) || (h->established && h->ops_ok > 2)) c.nontrivial();
        }
        if (!keep) delete h;
    }
}  // namespace
PBT_MAIN(prop)
