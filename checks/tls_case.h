// One TLS stream of kio against a plain OpenSSL peer, in lockstep with the simulated ring.
#pragma once
#include "checks/worker_rig.h"
#include "checks/threaded_rig.h"
#include "checks/tls_rig.h"
#include "kio/net/net.h"
#include "kio/tls/context.h"
#include "kio/tls/listener.h"
#include "kio/tls/stream.h"

namespace tlscase
{
    using namespace kio;
    using namespace tlsrig;

    enum Offload { Both, None, UlpOnly, TxOnly, RxOnly };
    enum Route { Pair, Listen, Connect };
    enum OpKind { Read, Write, WriteExact, SendFile, Shutdown, Again, Move, OpKinds };
    struct Step
    {
        OpKind kind;
        size_t n = 0, off = 0;
    };
    struct Plan
    {
        tls::TlsRole role = tls::TlsRole::Client;
        Route route = Pair;
        Offload offload = Both;
        bool chacha = true;
        tls::TlsConfig cfg;
        std::string hostname;         // given to async_handshake / connect
        std::string bind_address = "127.0.0.1";
        // the peer
        int peer_max = TLS1_2_VERSION;
        std::string peer_ciphers;
        int peer_who = kGood;         // -1: no certificate
        int peer_verify = SSL_VERIFY_NONE;
        std::vector<std::string> peer_alpn_seen;
        Damage dmg;
        bool eof_after = false, notify = false, answer = true;
        size_t chunk = 0;
        size_t trickle = 0;
        std::string peer_data;
        // the program
        std::vector<Step> before, after;   // steps before the (first) handshake, and after it
        bool close = true;
        long stop_at = -1;            // the worker is asked to stop at this decision
        bool stop_half = false;       // the worker is asked to stop when the peer's Finished message is outstanding
        unsigned poll_fault = 0;      // 1 in so many polls fails
        bool blocking = false;        // the socket handed over is a blocking one (an accepted one always is)
        bool strict = false;          // also what the stream reports about itself
        bool lazy_peer = false;       // the peer acts only when nothing else can
        // what must happen
        bool must_fail = false, must_work = false;
    };

    inline std::string why(const Error& e) { return std::format("{}/{}", static_cast<int>(e.category), e.value); }
    inline std::vector<int> open_listeners()
    {
        std::vector<int> v;
        for (int fd = 3; fd < 400; ++fd)
        {
            int on = 0;
            socklen_t l = sizeof on;
            if (::getsockopt(fd, SOL_SOCKET, SO_ACCEPTCONN, &on, &l) == 0 && on) v.push_back(fd);
        }
        return v;
    }

    struct Run
    {
        pbt::Case& c;
        Plan p;
        rig::Rig r;
        Peer peer;
        int listen_fd = -1;       // the peer's
        std::optional<tls::TlsContext> ctx;
        trig::Dir dir;
        int file = -1;
        std::string file_data;
        long decisions = 0;
        bool gave_up = false;
        bool in_handshake_emission = false;
        // facts the program records
        bool established = false, hs_tried = false;
        int kio_fd = -1;
        std::string reading, sure, maybe;   // data read; data certainly sent; data possibly sent after it
        std::string unsure_tail;
        bool unsure = false;
        bool read_failed = false;
        size_t ops_ok = 0, refused = 0;
        std::vector<std::string> payloads;
        std::string current;
        bool finished = false;
        std::string hs_error;
        bool closed = false;
        sockaddr_storage peer_local{};
        std::string sni;
        std::string alpn_seen;

        Run(pbt::Case& cc, Plan pl) : c(cc), p(std::move(pl)), r(cc) {}

        Sock* kernel() { return tlsrig::find(kio_fd); }

        void tcp_settle()  // loopback delivers soon, not at once
        {
            if (p.route == Pair) return;
            pollfd f[2];
            nfds_t n = 0;
            if (peer.fd >= 0 && !peer.got_eof) f[n++] = {peer.fd, POLLIN, 0};
            if (listen_fd >= 0) f[n++] = {listen_fd, POLLIN, 0};
            timespec ts{0, 2000000};
            ::syscall(SYS_ppoll, f, n, &ts, nullptr, 8);
        }
        void peer_accept()
        {
            if (listen_fd < 0 || peer.fd >= 0 || peer.ssl) return;
            int fd = static_cast<int>(::syscall(SYS_accept4, listen_fd, nullptr, nullptr, SOCK_CLOEXEC | SOCK_NONBLOCK));
            if (fd >= 0) peer.start(fd, true);
        }
        bool peer_step()
        {
            peer_accept();
            bool any = peer.step();
            tlsrig::all_flush();
            tlsrig::reap();
            return any;
        }
        void see() { tlsrig::all_flush(); if (peer.fd >= 0) peer.listen(); }

        std::string payload(size_t n)
        {
            std::string s(n, '\0');
            for (auto& ch: s) ch = static_cast<char>('A' + (pbt::splitmix(prng) >> 20) % 58);
            return s;
        }
        uint64_t prng = 7;

        template<class T>
        void refused_check(const char* what, size_t before, const Result<T>& r2)
        {
            see();
            if (r2.has_value()) sim::abort_case("not-refused", std::format("{} on a stream without an established, offloaded TLS session succeeds", what));
            if (peer.wire.all.size() != before) sim::abort_case("plaintext", std::format("{} on a stream without an established, offloaded TLS session puts {} bytes on the wire", what, peer.wire.all.size() - before));
            ++refused;
        }
        void established_now(const tls::TlsStream& s)
        {
            established = true;
            CREQUIRE(s.is_ktls_active(), "offload", "the handshake succeeds but the stream says offload is not active");
            Sock* k = tlsrig::find(s.fd());
            CREQUIRE(k && k->tx.on && k->rx.on, "offload", "the handshake succeeds although the kernel does not {}", !k ? "offload" : !k->tx.on ? "encrypt" : "decrypt");
            CREQUIRE(k->hs_given, "unfinished", "the handshake succeeds before our Finished message was handed to the kernel");
            CREQUIRE(k->hs_taken, "unfinished", "the handshake succeeds before the peer's Finished message was read");
            CREQUIRE(!p.must_fail, "accepted", "the handshake succeeds although it must fail");
        }
        Task<void> step(std::unique_ptr<tls::TlsStream>& s, const Step& st)
        {
            see();
            size_t w0 = peer.wire.all.size();
            switch (st.kind)
            {
                case Read:
                {
                    std::string buf(std::max<size_t>(st.n, 1), '\0');
                    current = "async_read";
                    auto x = co_await s->async_read(std::span(buf.data(), buf.size()));
                    if (x) c.note("read {} of {}", *x, buf.size()); else c.note("read fails {}", why(x.error()));
                    if (!established) { refused_check("async_read", w0, x); break; }
                    if (!x) { read_failed = true; break; }
                    CREQUIRE(*x >= 0 && static_cast<size_t>(*x) <= buf.size(), "read-count", "reading into {} bytes returns {}", buf.size(), *x);
                    if (*x == 0) read_failed = true;
                    else CREQUIRE(!read_failed, "read-after-end", "a read returns data after one that failed or met the end");
                    if (!was_shut) reading.append(buf, 0, static_cast<size_t>(*x));  // a shutdown discards what it meets
                    if (*x > 0) ++ops_ok;
                    break;
                }
                case Write:
                case WriteExact:
                {
                    std::string d = payload(std::max<size_t>(st.n, 1));
                    payloads.push_back(d);
                    current = st.kind == Write ? "async_write" : "async_write_exact";
                    if (st.kind == Write)
                    {
                        auto x = co_await s->async_write(d);
                        if (!established) { refused_check("async_write", w0, x); break; }
                        if (!x) { note_unsure(d); break; }
                        CREQUIRE(*x > 0 && static_cast<size_t>(*x) <= d.size(), "write-count", "writing {} bytes returns {}", d.size(), *x);
                        add(d.substr(0, static_cast<size_t>(*x)));
                    }
                    else
                    {
                        auto x = co_await s->async_write_exact(d);
                        if (!established) { refused_check("async_write_exact", w0, x); break; }
                        if (!x) { note_unsure(d); break; }
                        add(d);
                    }
                    ++ops_ok;
                    break;
                }
                case SendFile:
                {
                    size_t off = std::min(st.off, file_data.size());
                    size_t n = std::min(std::max<size_t>(st.n, 1), file_data.size() - off);
                    if (n == 0) break;
                    current = "async_sendfile";
                    auto x = co_await s->async_sendfile(file, static_cast<off_t>(off), n);
                    if (!established) { refused_check("async_sendfile", w0, x); break; }
                    if (!x) { note_unsure(file_data.substr(off, n)); break; }
                    add(file_data.substr(off, n));
                    ++ops_ok;
                    break;
                }
                case Shutdown:
                {
                    current = "async_shutdown";
                    (void) co_await s->async_shutdown();
                    was_shut = true;
                    break;
                }
                case Again:
                {
                    current = "async_handshake";
                    bool first = !hs_tried;
                    hs_tried = true;
                    auto x = co_await s->async_handshake(p.role == tls::TlsRole::Client ? std::string_view(p.hostname) : std::string_view{});
                    if (x && !established) established_now(*s);
                    else if (!x && established) { /* a repeated call may refuse */ }
                    if (!x && first) hs_error = why(x.error());
                    break;
                }
                case Move:
                {
                    auto t = std::make_unique<tls::TlsStream>(std::move(*s));
                    s = std::move(t);
                    break;
                }
                default: break;
            }
            current.clear();
        }
        bool was_shut = false;
        void add(const std::string& d)
        {
            if (unsure) maybe += d;
            else sure += d;
        }
        void note_unsure(const std::string& d)
        {
            if (!unsure) unsure_tail = d;
            unsure = true;
        }
        DetachedTask go(io::Worker& w);
        void run();
        void check();
    };

    inline DetachedTask Run::go(io::Worker& w)
    {
        std::unique_ptr<tls::TlsStream> s;
        std::unique_ptr<tls::TlsListener> lst;
        if (p.route == Pair)
        {
            s = std::make_unique<tls::TlsStream>(w, net::Socket(kio_fd), *ctx, p.role);
            for (auto& st: p.before) co_await step(s, st);
            co_await step(s, Step{Again});
        }
        else if (p.route == Connect)
        {
            sockaddr_storage a{};
            socklen_t l = sizeof a;
            ::getsockname(listen_fd, reinterpret_cast<sockaddr*>(&a), &l);
            uint16_t port = ntohs(a.ss_family == AF_INET6 ? reinterpret_cast<sockaddr_in6&>(a).sin6_port : reinterpret_cast<sockaddr_in&>(a).sin_port);
            tls::TlsConnector con(w, *ctx);
            current = "connect";
            auto x = co_await con.connect(p.hostname, port);
            hs_tried = true;
            if (x)
            {
                kio_fd = x->fd();
                s = std::make_unique<tls::TlsStream>(std::move(*x));
                established_now(*s);
            }
            else hs_error = why(x.error());
        }
        else
        {
            tls::ListenerConfig lc;
            lc.port = 0;
            lc.bind_address = p.bind_address;
            auto before = open_listeners();
            auto b = tls::TlsListener::bind(w, lc, *ctx);
            CREQUIRE(b.has_value(), "bind", "listening on {} fails: {}", p.bind_address, why(b.error()));
            lst = std::make_unique<tls::TlsListener>(std::move(*b));
            int lf = -1;
            for (int f: open_listeners())
                if (std::find(before.begin(), before.end(), f) == before.end()) lf = f;
            CREQUIRE(lf >= 0, "bind", "bind reported success but nothing listens");
            sockaddr_storage a{};
            socklen_t l = sizeof a;
            ::getsockname(lf, reinterpret_cast<sockaddr*>(&a), &l);
            int fd = ::socket(a.ss_family, SOCK_STREAM | SOCK_CLOEXEC, 0);
            if (a.ss_family == AF_INET && reinterpret_cast<sockaddr_in&>(a).sin_addr.s_addr == 0) reinterpret_cast<sockaddr_in&>(a).sin_addr.s_addr = htonl(INADDR_LOOPBACK);
            CREQUIRE(::connect(fd, reinterpret_cast<sockaddr*>(&a), l) == 0, "harness", "connecting to the listener: {}", strerror(errno));
            socklen_t pl = sizeof peer_local;
            ::getsockname(fd, reinterpret_cast<sockaddr*>(&peer_local), &pl);
            peer.start(fd, false);
            current = "accept";
            auto x = co_await lst->accept();
            hs_tried = true;
            if (x)
            {
                kio_fd = x->fd();
                s = std::make_unique<tls::TlsStream>(std::move(*x));
                established_now(*s);
                char ip[64] = "";
                uint16_t port = 0;
                if (peer_local.ss_family == AF_INET)
                {
                    auto& q = reinterpret_cast<sockaddr_in&>(peer_local);
                    ::inet_ntop(AF_INET, &q.sin_addr, ip, sizeof ip);
                    port = ntohs(q.sin_port);
                }
                else
                {
                    auto& q = reinterpret_cast<sockaddr_in6&>(peer_local);
                    ::inet_ntop(AF_INET6, &q.sin6_addr, ip, sizeof ip);
                    port = ntohs(q.sin6_port);
                }
                if (p.strict) CREQUIRE(s->peer_ip() == ip && s->peer_port() == port, "peer-address", "the accepted stream reports its peer as {}:{}, it is {}:{}", s->peer_ip(), s->peer_port(), ip, port);
            }
            else hs_error = why(x.error());
        }
        current.clear();
        if (p.must_work) CREQUIRE(established, "refused", "the handshake must succeed but fails: {}", hs_error);
        if (established)
        {
            CREQUIRE(!peer.hs_failed || p.dmg.kind != Damage::None, "harness", "kio succeeded, the peer failed");
            if (peer.hs_done && p.must_work)
            {
                CREQUIRE(s->get_version() == SSL_get_version(peer.ssl), "version", "the stream reports {}, the session is {}", s->get_version(), SSL_get_version(peer.ssl));
                CREQUIRE(s->get_cipher() == SSL_get_cipher_name(peer.ssl), "cipher", "the stream reports {}, the session uses {}", s->get_cipher(), SSL_get_cipher_name(peer.ssl));
            }
        }
        if (s)
        {
            for (auto& st: p.after) co_await step(s, st);
            if (p.must_work && !was_shut)
            {
                // everything the peer sends arrives
                while (reading.size() < p.peer_data.size() && !read_failed) co_await step(s, Step{Read, 5000});
                CREQUIRE(!read_failed || reading.size() == p.peer_data.size(), "lost", "reading ends after {} of {} bytes", reading.size(), p.peer_data.size());
            }
            if (p.close)
            {
                current = "async_close";
                co_await s->async_close();
                closed = true;
                current.clear();
            }
            s.reset();
        }
        lst.reset();
        finished = true;
        r.done = true;
    }

    inline void Run::run()
    {
        rig::quiet();
        (void) pki();
        g_rng = 0x5EED + c.draw(1 << 16);
        prng = g_rng * 77;
        begin_case();
        struct End { ~End() { end_case(); } } end_guard;
        g_kernel.allow_ulp = p.offload != None;
        g_kernel.allow_tx = p.offload == Both || p.offload == TxOnly;
        g_kernel.allow_rx = p.offload == Both || p.offload == RxOnly;
        g_kernel.allow_chacha = p.chacha;
        auto cx = p.role == tls::TlsRole::Client ? tls::TlsContext::make_client(p.cfg) : tls::TlsContext::make_server(p.cfg);
        REQUIRE(cx.has_value(), "context", "a usable configuration is refused: {}", why(cx.error()));
        ctx.emplace(std::move(*cx));

        bool peer_server = p.role == tls::TlsRole::Client;
        peer.ctx.reset(SSL_CTX_new(peer_server ? TLS_server_method() : TLS_client_method()));
        SSL_CTX* x = peer.ctx.get();
        SSL_CTX_set_max_proto_version(x, p.peer_max);
        if (!p.peer_ciphers.empty()) SSL_CTX_set_cipher_list(x, p.peer_ciphers.c_str());
        if (p.peer_who >= 0) use_identity(x, pki().id[p.peer_who]);
        SSL_CTX_set_verify(x, p.peer_verify, nullptr);
        if (p.peer_verify) SSL_CTX_load_verify_locations(x, pki().ca1_path.c_str(), nullptr);
        if (peer_server)
        {
            SSL_CTX_set_session_id_context(x, reinterpret_cast<const unsigned char*>("p"), 1);
            SSL_CTX_set_tlsext_servername_arg(x, this);
            SSL_CTX_set_tlsext_servername_callback(x, +[](SSL* s, int*, void* a) {
                if (const char* n = SSL_get_servername(s, TLSEXT_NAMETYPE_host_name)) static_cast<Run*>(a)->sni = n;
                return SSL_TLSEXT_ERR_OK;
            });
            SSL_CTX_set_alpn_select_cb(x, +[](SSL*, const unsigned char** out, unsigned char* outl, const unsigned char* in, unsigned inl, void* a) {
                static_cast<Run*>(a)->alpn_seen.assign(reinterpret_cast<const char*>(in), inl);
                *outl = in[0];
                *out = in + 1;
                return SSL_TLSEXT_ERR_OK;
            }, this);
        }
        peer.dmg = p.dmg;
        peer.eof_after = p.eof_after;
        peer.send_notify = p.notify;
        peer.answer_notify = p.answer;
        peer.write_chunk = p.chunk;
        peer.trickle = p.trickle;
        peer.to_send = p.peer_data;

        file_data = payload(9000);
        {
            std::string f = dir.path + "/f";
            Pki::put(f, file_data);
            file = ::open(f.c_str(), O_RDONLY | O_CLOEXEC);
            payloads.push_back(file_data.substr(0, 64));
        }
        if (p.route == Pair)
        {
            int sv[2];
            REQUIRE(::socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0, sv) == 0, "harness", "socketpair");
            kio_fd = sv[0];
            if (p.blocking) ::fcntl(kio_fd, F_SETFL, 0);
            peer.start(sv[1], peer_server);
        }
        else if (p.route == Connect)
        {
            bool six = p.hostname.find(':') != std::string::npos;
            sockaddr_storage a{};
            socklen_t l;
            if (six) { auto& q = reinterpret_cast<sockaddr_in6&>(a); q.sin6_family = AF_INET6; q.sin6_addr = in6addr_loopback; l = sizeof q; }
            else { auto& q = reinterpret_cast<sockaddr_in&>(a); q.sin_family = AF_INET; q.sin_addr.s_addr = htonl(INADDR_LOOPBACK); l = sizeof q; }
            listen_fd = ::socket(a.ss_family, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
            REQUIRE(::bind(listen_fd, reinterpret_cast<sockaddr*>(&a), l) == 0 && ::listen(listen_fd, 4) == 0, "harness", "peer listen: {}", strerror(errno));
        }

        sim::Config cfg;
        cfg.tick = [this] {
            if (++decisions == p.stop_at) r.stop();
            if (p.stop_half)
                if (Sock* k = kernel(); k && k->rx.on && !k->hs_taken) r.stop();
            if (!p.lazy_peer && c.coin()) (void) peer_step();
        };
        unsigned stuck = 0;
        cfg.idle = [this, &stuck] {
            if (peer_step()) { stuck = 0; return true; }
            tcp_settle();
            if (peer_step()) { stuck = 0; return true; }
            if (p.stop_at >= 0 && decisions < p.stop_at) { r.stop(); return true; }
            if (++stuck < (p.route == Pair ? 2u : 6u)) return true;
            if (sim::advance_to_next_timer()) return true;
            if (!gave_up)
            {
                if (hs_tried && !established && current.starts_with("async_") && current != "async_handshake" && current != "async_shutdown" && current != "async_close")
                    sim::abort_case("not-refused", std::format("{} waits on a stream whose handshake failed", current));
                if (p.must_work && peer.hs_done && (p.answer || p.strict)) sim::abort_case("stuck", std::format("{} never finishes although the peer did its part", current));
                gave_up = true;
                stuck = 0;
                peer.close();
                if (listen_fd >= 0) ::close(listen_fd), listen_fd = -1;
                return true;
            }
            return false;
        };
        cfg.fault = [this](sim::Op& o) {
            sim::Fault f;
            if (p.poll_fault && o.opcode == IORING_OP_POLL_ADD && c.chance(1, p.poll_fault)) f.error = c.pick<int>({ECANCELED, ENOMEM, EINTR});
            else if (o.is_transfer() && o.opcode != IORING_OP_SPLICE && o.bytes() > 1 && c.chance(150, 1000)) f.limit = 1 + c.draw(o.bytes());
            return f;
        };
        io::WorkerConfig wc;
        wc.uring_queue_depth = 64;
        r.run(cfg, wc, [this](io::Worker& w) { go(w).detach(); });
        bool crashed = r.crashed;
        bool leak = crashed || !finished;
        if (!crashed && !c.failed)
        {
            for (int i = 0; i < 50; ++i)
                if (!peer_step())
                {
                    if (p.route == Pair || gave_up || peer.got_eof) break;
                    tcp_settle();
                }
        }
        r.finish();
        if (leak)
        {
            // the suspended program keeps what it owns; its descriptors are taken from it
            if (inode(kio_fd)) ::close(kio_fd);
            for (int f: open_listeners()) ::close(f);
        }
        if (file >= 0) ::close(file);
        if (listen_fd >= 0) ::close(listen_fd);
        if (c.failed) return;
        reap();
        for (int i = 0; i < 20 && peer_step(); ++i) {}
        check();
        if (!leak) REQUIRE(g_kernel.socks.empty(), "leak", "the socket outlives its stream");
    }
    inline void Run::check()
    {
        REQUIRE(!peer.wire.bad, "plaintext", "what leaves the stream is not a sequence of TLS records (from byte {}: {})", peer.wire.pos, pbt::show(peer.wire.all.substr(peer.wire.pos, 40)));
        for (auto& d: payloads)
        {
            if (d.size() < 12) continue;
            REQUIRE(peer.wire.all.find(d.substr(0, 12)) == std::string::npos && peer.wire.all.find(d.substr(d.size() - 12)) == std::string::npos, "plaintext", "application data is on the wire in the clear");
        }
        if (!finished)
        {
            REQUIRE(p.stop_at >= 0 || p.stop_half, "stuck", "the program never finishes");
            return;
        }
        if (p.must_work) REQUIRE(established, "refused", "the handshake must succeed but fails: {}", hs_error);
        REQUIRE(reading == p.peer_data.substr(0, reading.size()) && reading.size() <= p.peer_data.size(), "altered", "the {} bytes read are not what the peer sent", reading.size());
        std::string want = sure;
        size_t n = std::min(peer.got.size(), want.size());
        REQUIRE(peer.got.compare(0, n, want, 0, n) == 0, "altered", "the peer got other data than what was written");
        if (!unsure) REQUIRE(peer.got.size() <= want.size(), "altered", "the peer got {} bytes, {} were written", peer.got.size(), want.size());
        if (p.must_work && !gave_up) REQUIRE(peer.got.size() >= want.size(), "lost", "the peer got {} of {} bytes written", peer.got.size(), want.size());
        if (p.must_work && closed && !gave_up && p.answer) REQUIRE(peer.clean_close, "no-notify", "the stream was closed without telling the peer that nothing was cut off");
        if (!gave_up && peer.fd >= 0) REQUIRE(peer.got_eof, "leak", "the connection is not closed after its stream is gone");
    }
}  // namespace tlscase
