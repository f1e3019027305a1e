// Stand-ins for TLS checks: kernel offload on ordinary stream sockets (the
// record layer a kernel with the tls module would run), certificates, and a
// peer built on plain OpenSSL whose byte stream the case may damage.
#pragma once
#include <cstdint>
#include <syscall.h>
#include <arpa/inet.h>
#include <deque>
#include <filesystem>
#include <signal.h>
#include <fcntl.h>
#include <linux/tls.h>
#include <map>
#include <memory>
#include <netinet/tcp.h>
#include <openssl/err.h>
#include <openssl/pem.h>
#include <openssl/rand.h>
#include <openssl/ssl.h>
#include <openssl/x509v3.h>
#include <poll.h>
#include <string>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
#include <vector>
#include "pbt/pbt.h"

#ifndef SOL_TLS
#define SOL_TLS 282
#endif

namespace tlsrig
{
    // ---------- randomness: a function of the case ----------
    inline uint64_t g_rng = 1;
    inline int rng_bytes(unsigned char* p, int n)
    {
        for (int i = 0; i < n; ++i) p[i] = static_cast<unsigned char>(pbt::splitmix(g_rng) >> 24);
        return 1;
    }
    inline int rng_status() { return 1; }
    inline void fix_randomness()
    {
        static RAND_METHOD m{nullptr, rng_bytes, nullptr, nullptr, rng_bytes, rng_status};
        static bool done = [] {
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
            RAND_set_rand_method(&m);
#pragma GCC diagnostic pop
            return true;
        }();
        (void) done;
    }

    // ---------- the kernel's part ----------
    struct Dir
    {
        bool on = false;
        int cipher = 0;
        unsigned char key[32]{}, salt[4]{}, iv[12]{}, seq[8]{};
    };
    struct Rec
    {
        unsigned char type;
        std::string data;
        size_t used = 0;
    };
    struct Sock
    {
        ino_t ino = 0;
        int fd = -1, keep = -1;   // keep: our own reference, so that closing does not lose what is still to be sent
        bool ulp = false;
        Dir tx, rx;
        std::string out;          // encrypted, not yet taken by the transport
        std::string raw;          // received, not yet a record
        std::deque<Rec> recs;
        bool eof = false;
        int error = 0;
        uint64_t plain_tx = 0;    // bytes handed in while offload was not sending
        uint64_t crypt_tx = 0;    // bytes handed in for encryption
        unsigned hs_given = 0, hs_taken = 0;  // handshake messages through the kernel
    };
    struct Kernel
    {
        bool active = false;      // between begin_case and end_case
        bool allow_ulp = true, allow_tx = true, allow_rx = true, allow_chacha = true;
        size_t out_limit = 65536;
        std::map<ino_t, std::unique_ptr<Sock>> socks;
    };
    inline Kernel g_kernel;

    inline ino_t inode(int fd)
    {
        struct stat s{};
        return ::fstat(fd, &s) == 0 && S_ISSOCK(s.st_mode) ? s.st_ino : 0;
    }
    inline Sock* find(int fd)
    {
        if (!g_kernel.active || fd < 0 || g_kernel.socks.empty()) return nullptr;
        ino_t i = inode(fd);
        auto it = g_kernel.socks.find(i);
        return it == g_kernel.socks.end() ? nullptr : it->second.get();
    }
    inline void bump(unsigned char* p, size_t n)
    {
        for (size_t i = n; i-- > 0;)
            if (++p[i]) break;
    }
    inline const EVP_CIPHER* cipher_of(int c)
    {
        switch (c)
        {
            case TLS_CIPHER_AES_GCM_128: return EVP_aes_128_gcm();
            case TLS_CIPHER_AES_GCM_256: return EVP_aes_256_gcm();
            case TLS_CIPHER_CHACHA20_POLY1305: return EVP_chacha20_poly1305();
            default: return nullptr;
        }
    }
    inline void nonce_of(const Dir& d, const unsigned char* explicit_iv, unsigned char out[12])
    {
        if (d.cipher == TLS_CIPHER_CHACHA20_POLY1305)
        {
            memcpy(out, d.iv, 12);
            for (int i = 0; i < 8; ++i) out[4 + i] ^= d.seq[i];
        }
        else
        {
            memcpy(out, d.salt, 4);
            memcpy(out + 4, explicit_iv, 8);
        }
    }
    inline std::string seal(Dir& d, unsigned char type, const char* p, size_t n)
    {
        bool expl = d.cipher != TLS_CIPHER_CHACHA20_POLY1305;
        unsigned char nonce[12], aad[13];
        nonce_of(d, d.iv, nonce);
        memcpy(aad, d.seq, 8);
        aad[8] = type, aad[9] = 3, aad[10] = 3, aad[11] = static_cast<unsigned char>(n >> 8), aad[12] = static_cast<unsigned char>(n);
        size_t body = (expl ? 8 : 0) + n + 16;
        std::string r(5 + body, '\0');
        auto* o = reinterpret_cast<unsigned char*>(r.data());
        o[0] = type, o[1] = 3, o[2] = 3, o[3] = static_cast<unsigned char>(body >> 8), o[4] = static_cast<unsigned char>(body);
        o += 5;
        if (expl) memcpy(o, d.iv, 8), o += 8;
        EVP_CIPHER_CTX* x = EVP_CIPHER_CTX_new();
        int l = 0;
        EVP_EncryptInit_ex(x, cipher_of(d.cipher), nullptr, d.key, nonce);
        EVP_EncryptUpdate(x, nullptr, &l, aad, 13);
        if (n) EVP_EncryptUpdate(x, o, &l, reinterpret_cast<const unsigned char*>(p), static_cast<int>(n));
        EVP_EncryptFinal_ex(x, o + n, &l);
        EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_AEAD_GET_TAG, 16, o + n);
        EVP_CIPHER_CTX_free(x);
        bump(d.seq, 8);
        if (expl) bump(d.iv, 8);
        return r;
    }
    inline bool unseal(Dir& d, unsigned char type, const std::string& body, std::string& plain)
    {
        bool expl = d.cipher != TLS_CIPHER_CHACHA20_POLY1305;
        size_t head = expl ? 8 : 0;
        if (body.size() < head + 16) return false;
        size_t n = body.size() - head - 16;
        auto* b = reinterpret_cast<const unsigned char*>(body.data());
        unsigned char nonce[12], aad[13];
        nonce_of(d, b, nonce);
        memcpy(aad, d.seq, 8);
        aad[8] = type, aad[9] = 3, aad[10] = 3, aad[11] = static_cast<unsigned char>(n >> 8), aad[12] = static_cast<unsigned char>(n);
        plain.assign(n, '\0');
        EVP_CIPHER_CTX* x = EVP_CIPHER_CTX_new();
        int l = 0;
        EVP_DecryptInit_ex(x, cipher_of(d.cipher), nullptr, d.key, nonce);
        EVP_DecryptUpdate(x, nullptr, &l, aad, 13);
        if (n) EVP_DecryptUpdate(x, reinterpret_cast<unsigned char*>(plain.data()), &l, b + head, static_cast<int>(n));
        EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_AEAD_SET_TAG, 16, const_cast<unsigned char*>(b + head + n));
        bool ok = EVP_DecryptFinal_ex(x, nullptr, &l) == 1;
        EVP_CIPHER_CTX_free(x);
        bump(d.seq, 8);
        return ok;
    }
    inline void flush(Sock& s)
    {
        while (!s.out.empty())
        {
            ssize_t n = ::syscall(SYS_sendto, s.keep, s.out.data(), s.out.size(), MSG_DONTWAIT | MSG_NOSIGNAL, nullptr, 0);
            if (n <= 0)
            {
                if (n < 0 && errno != EAGAIN && errno != EINTR) s.error = errno, s.out.clear();
                break;
            }
            s.out.erase(0, static_cast<size_t>(n));
        }
    }
    inline void pump(Sock& s)
    {
        flush(s);
        if (!s.rx.on || s.eof || s.error) return;
        // no more than one record ahead of the reader, like a reader-driven stream parser
        while (s.recs.size() < 4)
        {
            if (s.raw.size() >= 5)
            {
                size_t n = (static_cast<unsigned char>(s.raw[3]) << 8) | static_cast<unsigned char>(s.raw[4]);
                if (s.raw[1] != 3 || s.raw[2] != 3) { s.error = EINVAL; return; }
                if (n > 16384 + 8 + 16) { s.error = EMSGSIZE; return; }
                if (s.raw.size() >= 5 + n)
                {
                    Rec r{static_cast<unsigned char>(s.raw[0]), {}, 0};
                    bool ok = unseal(s.rx, r.type, s.raw.substr(5, n), r.data);
                    s.raw.erase(0, 5 + n);
                    if (!ok) { s.error = EBADMSG; return; }
                    s.recs.push_back(std::move(r));
                    continue;
                }
            }
            char buf[4096];
            ssize_t n = ::syscall(SYS_recvfrom, s.keep, buf, sizeof buf, MSG_DONTWAIT, nullptr, nullptr);
            if (n > 0) s.raw.append(buf, static_cast<size_t>(n));
            else
            {
                if (n == 0) s.eof = true;
                else if (errno != EAGAIN && errno != EINTR) s.error = errno;
                return;
            }
        }
    }
    inline ssize_t give(Sock& s, unsigned char type, const char* p, size_t n)
    {
        pump(s);
        if (s.error) { errno = s.error == EBADMSG ? EBADMSG : s.error; return -1; }
        if (s.out.size() >= g_kernel.out_limit) { errno = EAGAIN; return -1; }
        size_t done = 0;
        if (type == 22) ++s.hs_given;
        do
        {
            size_t k = std::min<size_t>(n - done, 16384);
            s.out += seal(s.tx, type, p + done, k);
            done += k;
        } while (done < n && s.out.size() < g_kernel.out_limit);
        s.crypt_tx += done;
        flush(s);
        return static_cast<ssize_t>(done);
    }
    // `type` null: the caller has no room for a record type
    inline ssize_t take(Sock& s, unsigned char* type, const iovec* v, size_t nv, bool* whole = nullptr)
    {
        pump(s);
        if (s.recs.empty())
        {
            if (s.error) { errno = s.error; return -1; }
            if (s.eof) return 0;
            errno = EAGAIN;
            return -1;
        }
        size_t done = 0;
        unsigned char t = s.recs.front().type;
        if (!type && t != 23) { errno = EIO; return -1; }
        for (size_t i = 0; i < nv; ++i)
        {
            char* p = static_cast<char*>(v[i].iov_base);
            size_t left = v[i].iov_len;
            while (left && !s.recs.empty() && s.recs.front().type == t)
            {
                Rec& r = s.recs.front();
                size_t k = std::min(left, r.data.size() - r.used);
                memcpy(p, r.data.data() + r.used, k);
                p += k, left -= k, done += k, r.used += k;
                if (r.used == r.data.size())
                {
                    s.recs.pop_front();
                    if (t == 22) ++s.hs_taken;
                    if (t != 23 || type) { if (whole) *whole = true; goto out; }
                    pump(s);
                }
            }
        }
    out:
        if (type) *type = t;
        return static_cast<ssize_t>(done);
    }
    inline bool readable(Sock& s)
    {
        pump(s);
        // empty data records carry nothing to a plain reader
        while (!s.recs.empty() && s.recs.front().type == 23 && s.recs.front().data.empty()) s.recs.pop_front(), pump(s);
        return !s.recs.empty() || s.eof || s.error;
    }
    inline void all_flush()
    {
        for (auto& [i, s]: g_kernel.socks) flush(*s);
    }
    inline void reap()  // what was closed and fully sent goes away
    {
        for (auto it = g_kernel.socks.begin(); it != g_kernel.socks.end();)
        {
            Sock& s = *it->second;
            flush(s);
            if (inode(s.fd) != s.ino && s.out.empty())
            {
                ::syscall(SYS_close, s.keep);
                it = g_kernel.socks.erase(it);
            }
            else ++it;
        }
    }
    inline void begin_case()
    {
        ::signal(SIGPIPE, SIG_IGN);
        g_kernel.active = true;
        g_kernel.allow_ulp = g_kernel.allow_tx = g_kernel.allow_rx = g_kernel.allow_chacha = true;
        g_kernel.out_limit = 65536;
    }
    inline void end_case()
    {
        for (auto& [i, s]: g_kernel.socks) ::syscall(SYS_close, s->keep);
        g_kernel.socks.clear();
        g_kernel.active = false;
    }
    inline int set_tls(int fd, int level, int name, const void* val, socklen_t len)
    {
        if (level == IPPROTO_TCP && name == TCP_ULP)
        {
            ino_t i = inode(fd);
            if (!i) { errno = ENOTSOCK; return -1; }
            if (!g_kernel.allow_ulp) { errno = ENOENT; return -1; }
            auto& s = g_kernel.socks[i];
            if (s) { errno = EEXIST; return -1; }
            s = std::make_unique<Sock>();
            s->ino = i, s->fd = fd, s->ulp = true, s->keep = static_cast<int>(::syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 0));
            return 0;
        }
        Sock* s = find(fd);
        if (!s) { errno = ENOPROTOOPT; return -1; }
        if ((name == TLS_TX && !g_kernel.allow_tx) || (name == TLS_RX && !g_kernel.allow_rx)) { errno = ENOPROTOOPT; return -1; }
        if (name != TLS_TX && name != TLS_RX) { errno = ENOPROTOOPT; return -1; }
        Dir& d = name == TLS_TX ? s->tx : s->rx;
        if (d.on) { errno = EBUSY; return -1; }
        auto* info = static_cast<const tls_crypto_info*>(val);
        if (len < sizeof *info || info->version != TLS_1_2_VERSION) { errno = EINVAL; return -1; }
        d.cipher = info->cipher_type;
        auto load = [&](auto* x) {
            if (len < sizeof *x) return false;
            memcpy(d.iv, x->iv, sizeof x->iv);
            memcpy(d.key, x->key, sizeof x->key);
            if constexpr (sizeof x->salt > 0) memcpy(d.salt, x->salt, sizeof x->salt);
            memcpy(d.seq, x->rec_seq, sizeof x->rec_seq);
            return true;
        };
        bool ok = false;
        if (info->cipher_type == TLS_CIPHER_AES_GCM_128) ok = load(static_cast<const tls12_crypto_info_aes_gcm_128*>(val));
        else if (info->cipher_type == TLS_CIPHER_AES_GCM_256) ok = load(static_cast<const tls12_crypto_info_aes_gcm_256*>(val));
        else if (info->cipher_type == TLS_CIPHER_CHACHA20_POLY1305 && g_kernel.allow_chacha)
        {
            auto* x = static_cast<const tls12_crypto_info_chacha20_poly1305*>(val);
            if (len >= sizeof *x)
            {
                memcpy(d.iv, x->iv, sizeof x->iv);
                memcpy(d.key, x->key, sizeof x->key);
                memcpy(d.seq, x->rec_seq, sizeof x->rec_seq);
                ok = true;
            }
        }
        if (!ok) { errno = EINVAL; return -1; }
        d.on = true;
        return 0;
    }
}  // namespace tlsrig

extern "C"
{
    int setsockopt(int fd, int level, int name, const void* val, socklen_t len) noexcept
    {
        if (tlsrig::g_kernel.active && ((level == IPPROTO_TCP && name == TCP_ULP) || level == SOL_TLS)) return tlsrig::set_tls(fd, level, name, val, len);
        return static_cast<int>(::syscall(SYS_setsockopt, fd, level, name, val, len));
    }
    ssize_t write(int fd, const void* p, size_t n)
    {
        if (auto* s = tlsrig::find(fd))
        {
            if (s->tx.on) return n ? tlsrig::give(*s, 23, static_cast<const char*>(p), n) : 0;
            ssize_t r = ::syscall(SYS_write, fd, p, n);
            if (r > 0) s->plain_tx += static_cast<uint64_t>(r);
            return r;
        }
        return ::syscall(SYS_write, fd, p, n);
    }
    ssize_t send(int fd, const void* p, size_t n, int fl)
    {
        if (auto* s = tlsrig::find(fd); s && s->tx.on) return n ? tlsrig::give(*s, 23, static_cast<const char*>(p), n) : 0;
        return ::syscall(SYS_sendto, fd, p, n, fl, nullptr, 0);
    }
    ssize_t writev(int fd, const iovec* v, int nv)
    {
        if (auto* s = tlsrig::find(fd); s && s->tx.on)
        {
            std::string all;
            for (int i = 0; i < nv; ++i) all.append(static_cast<const char*>(v[i].iov_base), v[i].iov_len);
            return all.empty() ? 0 : tlsrig::give(*s, 23, all.data(), all.size());
        }
        return ::syscall(SYS_writev, fd, v, nv);
    }
    ssize_t sendmsg(int fd, const msghdr* m, int fl)
    {
        if (auto* s = tlsrig::find(fd); s && s->tx.on)
        {
            unsigned char type = 23;
            for (cmsghdr* c = CMSG_FIRSTHDR(m); c; c = CMSG_NXTHDR(const_cast<msghdr*>(m), c))
                if (c->cmsg_level == SOL_TLS && c->cmsg_type == TLS_SET_RECORD_TYPE) type = *CMSG_DATA(c);
            std::string all;
            for (size_t i = 0; i < m->msg_iovlen; ++i) all.append(static_cast<const char*>(m->msg_iov[i].iov_base), m->msg_iov[i].iov_len);
            return tlsrig::give(*s, type, all.data(), all.size());
        }
        return ::syscall(SYS_sendmsg, fd, m, fl);
    }
    ssize_t read(int fd, void* p, size_t n)
    {
        if (auto* s = tlsrig::find(fd); s && s->rx.on)
        {
            iovec v{p, n};
            return tlsrig::take(*s, nullptr, &v, 1);
        }
        return ::syscall(SYS_read, fd, p, n);
    }
    ssize_t recv(int fd, void* p, size_t n, int fl)
    {
        if (auto* s = tlsrig::find(fd); s && s->rx.on)
        {
            iovec v{p, n};
            return tlsrig::take(*s, nullptr, &v, 1);
        }
        return ::syscall(SYS_recvfrom, fd, p, n, fl, nullptr, nullptr);
    }
    ssize_t readv(int fd, const iovec* v, int nv)
    {
        if (auto* s = tlsrig::find(fd); s && s->rx.on) return tlsrig::take(*s, nullptr, v, static_cast<size_t>(nv));
        return ::syscall(SYS_readv, fd, v, nv);
    }
    ssize_t recvmsg(int fd, msghdr* m, int fl)
    {
        if (auto* s = tlsrig::find(fd); s && s->rx.on)
        {
            bool room = m->msg_control && m->msg_controllen >= CMSG_SPACE(1);
            unsigned char type = 23;
            bool whole = false;
            ssize_t r = tlsrig::take(*s, room ? &type : nullptr, m->msg_iov, m->msg_iovlen, &whole);
            if (r < 0) return r;
            if (room && (r > 0 || whole))
            {
                cmsghdr* c = CMSG_FIRSTHDR(m);
                c->cmsg_level = SOL_TLS;
                c->cmsg_type = TLS_GET_RECORD_TYPE;
                c->cmsg_len = CMSG_LEN(1);
                *CMSG_DATA(c) = type;
                m->msg_controllen = c->cmsg_len;
            }
            else m->msg_controllen = 0;
            m->msg_flags = whole ? MSG_EOR : 0;
            return r;
        }
        return ::syscall(SYS_recvmsg, fd, m, fl);
    }
    ssize_t splice(int in, off64_t* oi, int out, off64_t* oo, size_t n, unsigned fl)
    {
        if (auto* s = tlsrig::find(out); s && s->tx.on)
        {
            tlsrig::flush(*s);
            if (s->out.size() >= tlsrig::g_kernel.out_limit) { errno = EAGAIN; return -1; }
            std::string buf(std::min<size_t>(n, 65536), '\0');
            ssize_t r = oi ? ::syscall(SYS_pread64, in, buf.data(), buf.size(), *oi) : ::syscall(SYS_read, in, buf.data(), buf.size());
            if (r <= 0) return r;
            size_t done = 0;
            while (done < static_cast<size_t>(r))
            {
                size_t keep = tlsrig::g_kernel.out_limit;
                tlsrig::g_kernel.out_limit = SIZE_MAX;
                ssize_t g = tlsrig::give(*s, 23, buf.data() + done, static_cast<size_t>(r) - done);
                tlsrig::g_kernel.out_limit = keep;
                if (g < 0) return done ? static_cast<ssize_t>(done) : -1;
                done += static_cast<size_t>(g);
            }
            return r;
        }
        return ::syscall(SYS_splice, in, oi, out, oo, n, fl);
    }
    int poll(pollfd* p, nfds_t n, int timeout)
    {
        bool any = false;
        if (tlsrig::g_kernel.active)
            for (nfds_t i = 0; i < n && !any; ++i)
                if (auto* s = tlsrig::find(p[i].fd); s && (s->tx.on || s->rx.on)) any = true;
        timespec ts{timeout / 1000, (timeout % 1000) * 1000000L};
        if (!any) return static_cast<int>(::syscall(SYS_ppoll, p, n, timeout < 0 ? nullptr : &ts, nullptr, 8));
        timespec zero{};
        ::syscall(SYS_ppoll, p, n, &zero, nullptr, 8);
        int cnt = 0;
        for (nfds_t i = 0; i < n; ++i)
        {
            if (auto* s = tlsrig::find(p[i].fd))
            {
                if (s->rx.on && (p[i].events & POLLIN))
                {
                    p[i].revents = static_cast<short>(p[i].revents & ~(POLLIN | POLLRDNORM));
                    if (tlsrig::readable(*s)) p[i].revents |= POLLIN;
                }
                if (s->tx.on && (p[i].events & POLLOUT))
                {
                    tlsrig::flush(*s);
                    p[i].revents = static_cast<short>(p[i].revents & ~(POLLOUT | POLLWRNORM));
                    if (s->out.size() < tlsrig::g_kernel.out_limit) p[i].revents |= POLLOUT;
                }
            }
            if (p[i].revents) ++cnt;
        }
        return cnt;
    }
}

namespace tlsrig
{
    // ---------- certificates ----------
    template<class T, void (*F)(T*)> struct Del { void operator()(T* p) const { F(p); } };
    using Key = std::unique_ptr<EVP_PKEY, Del<EVP_PKEY, EVP_PKEY_free>>;
    using Cert = std::unique_ptr<X509, Del<X509, X509_free>>;
    using Ctx = std::unique_ptr<SSL_CTX, Del<SSL_CTX, SSL_CTX_free>>;

    inline Key new_key() { return Key(EVP_EC_gen("P-256")); }
    struct Spec
    {
        const char* cn = "x";
        const char* san = nullptr;      // "DNS:a,IP:1.2.3.4"
        const char* from = "20200101000000Z";
        const char* to = "20900101000000Z";
        bool ca = false;
    };
    inline Cert new_cert(const Spec& sp, EVP_PKEY* key, X509* issuer, EVP_PKEY* issuer_key)
    {
        Cert x(X509_new());
        X509_set_version(x.get(), 2);
        static long serial = 1;
        ASN1_INTEGER_set(X509_get_serialNumber(x.get()), serial++);
        ASN1_TIME_set_string(X509_getm_notBefore(x.get()), sp.from);
        ASN1_TIME_set_string(X509_getm_notAfter(x.get()), sp.to);
        X509_NAME* nm = X509_get_subject_name(x.get());
        X509_NAME_add_entry_by_txt(nm, "CN", MBSTRING_ASC, reinterpret_cast<const unsigned char*>(sp.cn), -1, -1, 0);
        X509_set_issuer_name(x.get(), issuer ? X509_get_subject_name(issuer) : nm);
        X509_set_pubkey(x.get(), key);
        auto ext = [&](int nid, const char* v) {
            X509V3_CTX c;
            X509V3_set_ctx(&c, issuer ? issuer : x.get(), x.get(), nullptr, nullptr, 0);
            X509_EXTENSION* e = X509V3_EXT_conf_nid(nullptr, &c, nid, v);
            X509_add_ext(x.get(), e, -1);
            X509_EXTENSION_free(e);
        };
        ext(NID_basic_constraints, sp.ca ? "critical,CA:TRUE" : "critical,CA:FALSE");
        ext(NID_key_usage, sp.ca ? "critical,keyCertSign,cRLSign" : "critical,digitalSignature");
        if (sp.san) ext(NID_subject_alt_name, sp.san);
        X509_sign(x.get(), issuer_key ? issuer_key : key, EVP_sha256());
        return x;
    }
    inline std::string pem(X509* x)
    {
        BIO* b = BIO_new(BIO_s_mem());
        PEM_write_bio_X509(b, x);
        char* p;
        long n = BIO_get_mem_data(b, &p);
        std::string s(p, static_cast<size_t>(n));
        BIO_free(b);
        return s;
    }
    inline std::string pem(EVP_PKEY* k)
    {
        BIO* b = BIO_new(BIO_s_mem());
        PEM_write_bio_PrivateKey(b, k, nullptr, nullptr, 0, nullptr, nullptr);
        char* p;
        long n = BIO_get_mem_data(b, &p);
        std::string s(p, static_cast<size_t>(n));
        BIO_free(b);
        return s;
    }
    struct Identity
    {
        Key key;
        Cert cert;
        std::string key_pem, chain_pem;
        std::string key_path, cert_path;
        std::vector<X509*> extra;  // intermediates
    };
    enum Who { kGood, kViaInter, kExpired, kNotYet, kOtherName, kUntrusted, kSelfSigned, kCnOnly, kWhoCount };
    struct Pki
    {
        std::string dir;
        Key ca1k, ca2k, interk;
        Cert ca1, ca2, inter;
        Identity id[kWhoCount];
        std::string ca1_path, ca2_path, both_path;
        static void put(const std::string& path, const std::string& s)
        {
            int fd = ::open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
            (void) !::syscall(SYS_write, fd, s.data(), s.size());
            ::close(fd);
        }
        Pki()
        {
            fix_randomness();
            g_rng = 0x7155;
            const char* base = getenv("KIO_SCRATCH");
            dir = std::string(base ? base : "/tmp") + "/pki" + std::to_string(getpid());
            ::mkdir(dir.c_str(), 0700);
            ca1k = new_key(), ca2k = new_key(), interk = new_key();
            ca1 = new_cert({.cn = "Root One", .ca = true}, ca1k.get(), nullptr, nullptr);
            ca2 = new_cert({.cn = "Root Two", .ca = true}, ca2k.get(), nullptr, nullptr);
            inter = new_cert({.cn = "Inter", .ca = true}, interk.get(), ca1.get(), ca1k.get());
            const char* san = "DNS:localhost,DNS:kio.test,DNS:*.wild.test,IP:127.0.0.1,IP:::1";
            auto make = [&](Who w, Spec sp, X509* iss, EVP_PKEY* ik) {
                Identity& i = id[w];
                i.key = new_key();
                i.cert = new_cert(sp, i.key.get(), iss, ik);
                i.key_pem = pem(i.key.get());
                i.chain_pem = pem(i.cert.get());
                if (w == kViaInter) i.chain_pem += pem(inter.get()), i.extra.push_back(inter.get());
                i.key_path = dir + "/k" + std::to_string(w) + ".pem";
                i.cert_path = dir + "/c" + std::to_string(w) + ".pem";
                put(i.key_path, i.key_pem);
                put(i.cert_path, i.chain_pem);
            };
            make(kGood, {.cn = "good", .san = san}, ca1.get(), ca1k.get());
            make(kViaInter, {.cn = "via", .san = san}, inter.get(), interk.get());
            make(kExpired, {.cn = "old", .san = san, .from = "20000101000000Z", .to = "20010101000000Z"}, ca1.get(), ca1k.get());
            make(kNotYet, {.cn = "new", .san = san, .from = "20890101000000Z"}, ca1.get(), ca1k.get());
            make(kOtherName, {.cn = "other", .san = "DNS:other.test,IP:10.9.8.7"}, ca1.get(), ca1k.get());
            make(kUntrusted, {.cn = "foreign", .san = san}, ca2.get(), ca2k.get());
            make(kSelfSigned, {.cn = "self", .san = san}, nullptr, nullptr);
            make(kCnOnly, {.cn = "kio.test"}, ca1.get(), ca1k.get());
            ca1_path = dir + "/ca1.pem";
            ca2_path = dir + "/ca2.pem";
            both_path = dir + "/both.pem";
            put(ca1_path, pem(ca1.get()));
            put(ca2_path, pem(ca2.get()));
            put(both_path, pem(ca2.get()) + pem(ca1.get()));
        }
        ~Pki()
        {
            std::error_code ec;
            std::filesystem::remove_all(dir, ec);
        }
    };
    inline Pki& pki()
    {
        static Pki p;
        return p;
    }
    inline void use_identity(SSL_CTX* x, const Identity& i)
    {
        SSL_CTX_use_certificate(x, i.cert.get());
        for (auto* e: i.extra) SSL_CTX_add1_chain_cert(x, e);
        SSL_CTX_use_PrivateKey(x, i.key.get());
    }

    // ---------- what a wire may carry ----------
    struct WireCheck
    {
        std::string all;
        size_t pos = 0;      // start of the first incomplete record
        bool bad = false;
        size_t records = 0, app_records = 0;
        void feed(const char* p, size_t n)
        {
            all.append(p, n);
            while (!bad && all.size() - pos >= 5)
            {
                auto* h = reinterpret_cast<const unsigned char*>(all.data() + pos);
                size_t len = (h[3] << 8) | h[4];
                if (h[0] < 20 || h[0] > 24 || h[1] != 3 || (h[2] > 4 && h[0] != 21) || len > 16384 + 2048) { bad = true; return; }  // alerts may echo the version of a damaged record
                if (all.size() - pos < 5 + len) return;
                ++records;
                if (h[0] == 23) ++app_records;
                pos += 5 + len;
            }
            if (!bad && all.size() > pos)
            {
                auto* h = reinterpret_cast<const unsigned char*>(all.data() + pos);
                if (h[0] < 20 || h[0] > 24 || (all.size() - pos > 1 && h[1] != 3)) bad = true;
            }
        }
    };

    // ---------- the peer ----------
    struct Damage
    {
        enum Kind { None, Flip, Insert, Drop, Eof, Reset, Silence, Plain, Garbage, DupRecord } kind = None;
        size_t at = 0;           // byte of the peer's stream
        std::string bytes;       // Insert, Plain, Garbage
        size_t n = 1;            // Drop
    };
    struct Peer
    {
        Ctx ctx;
        SSL* ssl = nullptr;
        BIO *in = nullptr, *out = nullptr;
        int fd = -1;
        bool server = true;
        bool hs_done = false, hs_failed = false, dead = false, got_eof = false;
        bool clean_close = false;   // kio's close_notify arrived
        std::string got;            // application data from kio
        std::string to_send;        // application data for kio, sent as soon as the handshake is done
        std::string tx;             // bytes to put on the wire
        uint64_t tx_total = 0;      // bytes of our stream so far (before damage)
        WireCheck wire;
        Damage dmg;
        bool damaged = false, damaged_handshake = false, in_handshake = false, damaged_header = false;
        bool send_notify = false, notified = false;   // close_notify after to_send
        bool answer_notify = true;
        bool eof_after = false, eof_done = false;      // shut our direction after that
        bool read_paused = false;   // do not take bytes off the wire
        size_t write_chunk = 0;     // bytes per SSL_write (0: all)
        int last_error = 0;

        void start(int s, bool as_server)
        {
            fd = s;
            server = as_server;
            ::syscall(SYS_fcntl, fd, F_SETFL, O_NONBLOCK);
            int one = 1;
            ::syscall(SYS_setsockopt, fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
            ssl = SSL_new(ctx.get());
            in = BIO_new(BIO_s_mem()), out = BIO_new(BIO_s_mem());
            BIO_set_mem_eof_return(in, -1);
            BIO_set_mem_eof_return(out, -1);
            SSL_set_bio(ssl, in, out);
            if (server) SSL_set_accept_state(ssl);
            else SSL_set_connect_state(ssl);
        }
        ~Peer()
        {
            if (ssl) SSL_free(ssl);
            if (fd >= 0) ::syscall(SYS_close, fd);
        }
        Peer() = default;
        Peer(const Peer&) = delete;

        void emit(std::string s)
        {
            if (dead) return;
            uint64_t begin = tx_total, end = tx_total + s.size();
            tx_total = end;
            if (dmg.kind != Damage::None && !damaged && dmg.at >= begin && dmg.at < end)
            {
                damaged = true;
                damaged_handshake = in_handshake;
                {
                    // does the damage hit the header of a record?
                    size_t q = 0, kk = static_cast<size_t>(dmg.at - begin);
                    while (q + 5 <= s.size())
                    {
                        if (kk >= q && kk < q + 5) damaged_header = true;
                        q += 5 + ((static_cast<unsigned char>(s[q + 3]) << 8) | static_cast<unsigned char>(s[q + 4]));
                    }
                }
                size_t k = static_cast<size_t>(dmg.at - begin);
                switch (dmg.kind)
                {
                    case Damage::Flip: s[k] = static_cast<char>(s[k] ^ (dmg.n ? static_cast<int>(dmg.n & 255) : 1)); break;
                    case Damage::Insert:
                    case Damage::Plain:
                    case Damage::Garbage: s.insert(k, dmg.bytes); break;
                    case Damage::Drop: s.erase(k, dmg.n); break;
                    case Damage::DupRecord: s.insert(k, s.substr(0, k)); break;
                    case Damage::Eof:
                    case Damage::Reset:
                    case Damage::Silence: s.resize(k); break;
                    default: break;
                }
                tx += s;
                if (dmg.kind == Damage::Eof || dmg.kind == Damage::Reset || dmg.kind == Damage::Silence) dead = true;
                return;
            }
            tx += s;
        }
        size_t trickle = 0;         // put at most so many bytes on the wire at a time
        bool push()
        {
            bool any = false;
            while (!tx.empty() && fd >= 0)
            {
                ssize_t n = ::syscall(SYS_sendto, fd, tx.data(), trickle ? std::min(trickle, tx.size()) : tx.size(), MSG_DONTWAIT | MSG_NOSIGNAL, nullptr, 0);
                if (n <= 0)
                {
                    if (n < 0 && errno != EAGAIN) tx.clear();
                    break;
                }
                tx.erase(0, static_cast<size_t>(n));
                any = true;
                if (trickle) break;
            }
            return any;
        }
        void drain_out()
        {
            char buf[4096];
            int n;
            std::string s;
            while ((n = BIO_read(out, buf, sizeof buf)) > 0) s.append(buf, static_cast<size_t>(n));
            if (!s.empty()) emit(std::move(s));
        }
        // takes what kio put on the wire without reacting
        bool listen()
        {
            bool any = false;
            char buf[16384];
            while (fd >= 0 && !got_eof)
            {
                ssize_t n = ::syscall(SYS_recvfrom, fd, buf, sizeof buf, MSG_DONTWAIT, nullptr, nullptr);
                if (n > 0)
                {
                    wire.feed(buf, static_cast<size_t>(n));
                    BIO_write(in, buf, static_cast<int>(n));
                    any = true;
                }
                else
                {
                    if (n == 0 || (errno != EAGAIN && errno != EINTR)) got_eof = true, any = true;
                    break;
                }
            }
            return any;
        }
        // one round; true if something happened
        bool step()
        {
            if (fd < 0) return false;
            bool any = false;
            if (!read_paused) any = listen();
            if (dead)
            {
                any = push() || any;
                if (tx.empty() && !eof_done && dmg.kind != Damage::Silence)
                {
                    eof_done = true;
                    if (dmg.kind == Damage::Reset)
                    {
                        linger l{1, 0};
                        ::syscall(SYS_setsockopt, fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
                        listen();
                        ::syscall(SYS_close, fd);
                        fd = -1;
                    }
                    else ::shutdown(fd, SHUT_WR);
                    any = true;
                }
                return any;
            }
            ERR_clear_error();
            if (!hs_done && !hs_failed)
            {
                in_handshake = true;
                int r = SSL_do_handshake(ssl);
                if (r == 1) hs_done = true, any = true;
                else
                {
                    int e = SSL_get_error(ssl, r);
                    if (e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE)
                    {
                        hs_failed = true, any = true;
                        last_error = ERR_GET_REASON(ERR_peek_last_error());
                        ERR_clear_error();
                    }
                }
                drain_out();
                in_handshake = false;
            }
            if (hs_done)
            {
                char buf[16384];
                int n;
                while ((n = SSL_read(ssl, buf, sizeof buf)) > 0) got.append(buf, static_cast<size_t>(n)), any = true;
                if (n <= 0)
                {
                    int e = SSL_get_error(ssl, n);
                    if (e == SSL_ERROR_ZERO_RETURN && !clean_close) clean_close = true, any = true;
                    if (e == SSL_ERROR_SSL && !hs_failed) last_error = ERR_GET_REASON(ERR_peek_last_error()), hs_failed = true, any = true;
                    ERR_clear_error();
                }
                while (!to_send.empty() && !hs_failed && tx.size() < 100000)
                {
                    size_t k = write_chunk ? std::min(write_chunk, to_send.size()) : to_send.size();
                    int w = SSL_write(ssl, to_send.data(), static_cast<int>(k));
                    if (w <= 0) { ERR_clear_error(); break; }
                    to_send.erase(0, static_cast<size_t>(w));
                    any = true;
                    drain_out();
                }
                if (!notified && ((send_notify && to_send.empty()) || (clean_close && answer_notify)))
                {
                    notified = true, any = true;
                    SSL_shutdown(ssl);
                    ERR_clear_error();
                }
                drain_out();
            }
            any = push() || any;
            if (!dead && eof_after && !eof_done && tx.empty() && (hs_failed || (hs_done && to_send.empty() && (!send_notify || notified))))
            {
                eof_done = true, any = true;
                ::shutdown(fd, SHUT_WR);
            }
            return any;
        }
        void close()
        {
            if (fd >= 0) ::syscall(SYS_close, fd), fd = -1;
        }
    };
}  // namespace tlsrig
