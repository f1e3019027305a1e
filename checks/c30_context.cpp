// C30 (b): a TLS context exists only when what the configuration names is usable,
// has the effect it asks for, and a refusal names what is wrong.
#include <cstdint>
#include <syscall.h>
#include <optional>
#include <set>
#include "checks/tls_rig.h"
#include "checks/threaded_rig.h"
#include "kio/tls/context.h"

namespace
{
    using namespace kio;
    using namespace tlsrig;

    struct Files
    {
        std::string dir, none, empty, garbage, cut_cert, der_cert, not_cert, cut_key, emptydir, hashdir, folder;
        Files()
        {
            Pki& k = pki();
            dir = k.dir;
            auto put = [&](const char* n, const std::string& s) {
                std::string p = dir + "/" + n;
                Pki::put(p, s);
                return p;
            };
            none = dir + "/no-such-file";
            empty = put("empty", "");
            garbage = put("garbage", "-----BEGIN CERTIFICATE-----\nthis is no certificate\n-----END CERTIFICATE-----\n");
            cut_cert = put("cutc", k.id[kGood].chain_pem.substr(0, k.id[kGood].chain_pem.size() / 2));
            cut_key = put("cutk", k.id[kGood].key_pem.substr(0, k.id[kGood].key_pem.size() / 2));
            unsigned char* der = nullptr;
            int n = i2d_X509(k.id[kGood].cert.get(), &der);
            der_cert = put("der", std::string(reinterpret_cast<char*>(der), static_cast<size_t>(n)));
            OPENSSL_free(der);
            not_cert = k.id[kGood].key_path;
            emptydir = dir + "/emptyd";
            ::mkdir(emptydir.c_str(), 0700);
            hashdir = dir + "/hashd";
            ::mkdir(hashdir.c_str(), 0700);
            char h[32];
            snprintf(h, sizeof h, "/%08lx.0", X509_NAME_hash_ex(X509_get_subject_name(k.ca1.get()), nullptr, nullptr, nullptr));
            Pki::put(hashdir + h, pem(k.ca1.get()));
            folder = dir;
        }
    };
    Files& files()
    {
        static Files f;
        return f;
    }

    void prop(pbt::Case& c)
    {
        trig::quiet();
        Pki& k = pki();
        Files& f = files();
        g_rng = 1 + c.draw(1000);
        bool server = c.coin();
        tls::TlsConfig cfg;
        std::set<int> wrong;   // errors that would be right
        bool ambiguous = false;
        int who = -1;          // identity of a good certificate
        // identity
        auto bad_cert = [&] { return c.pick<std::string>({f.none, f.empty, f.garbage, f.cut_cert, f.der_cert, f.not_cert, f.folder}); };
        bool has_cert = server ? !c.chance(1, 12) : c.chance(1, 3);
        bool cert_ok = false;
        if (has_cert)
        {
            if (c.chance(1, 5)) cfg.cert_path = bad_cert(), wrong.insert(kTlsCertificateLoadFailed);
            else
            {
                who = static_cast<int>(c.draw(kWhoCount));
                cfg.cert_path = k.id[who].cert_path;
                cert_ok = true;
            }
        }
        else if (server) wrong.insert(kTlsCertificateLoadFailed);
        bool has_key = server ? !c.chance(1, 12) : has_cert ? !c.chance(1, 6) : c.chance(1, 10);
        int key_who = -1;
        if (has_key)
        {
            switch (c.weighted({8, 2, 2}))
            {
                case 1: cfg.key_path = c.pick<std::string>({f.none, f.empty, f.garbage, f.cut_key, k.id[kGood].cert_path, f.folder}); wrong.insert(kTlsPrivateKeyLoadFailed); break;
                case 2:
                    key_who = (std::max(who, 0) + 1 + static_cast<int>(c.draw(kWhoCount - 1))) % kWhoCount;
                    cfg.key_path = k.id[key_who].key_path;
                    wrong.insert(kTlsPrivateKeyLoadFailed);
                    break;
                default:
                    key_who = std::max(who, 0);
                    cfg.key_path = k.id[key_who].key_path;
                    if (!cert_ok) wrong.insert(kTlsPrivateKeyLoadFailed);   // a key without its certificate
                    break;
            }
        }
        else if (server) wrong.insert(kTlsCertificateLoadFailed), wrong.insert(kTlsPrivateKeyLoadFailed);
        else if (has_cert) ambiguous = true;   // a client certificate without key: of no use, but harmless
        // trust
        bool ca1 = false;
        if (c.chance(2, 3))
        {
            unsigned how = static_cast<unsigned>(c.weighted({4, 2, 1}));
            if (how != 1)
            {
                if (c.chance(1, 4)) cfg.ca_cert_path = c.pick<std::string>({f.none, f.empty, f.garbage, f.cut_cert, f.not_cert, f.der_cert, f.folder}), wrong.insert(kTlsCertificateLoadFailed);
                else
                {
                    cfg.ca_cert_path = c.pick<std::string>({k.ca1_path, k.both_path, k.ca2_path});
                    if (cfg.ca_cert_path != k.ca2_path) ca1 = true;
                }
            }
            if (how != 0)
            {
                if (c.chance(1, 3)) cfg.ca_dir_path = c.pick<std::string>({f.none, k.ca1_path, f.none + "/sub"}), wrong.insert(kTlsCertificateLoadFailed);
                else
                {
                    cfg.ca_dir_path = c.pick<std::string>({f.hashdir, f.emptydir});
                    if (cfg.ca_dir_path == f.hashdir) ca1 = true;
                }
            }
        }
        cfg.verify_mode = c.pick<int>({SSL_VERIFY_PEER, SSL_VERIFY_NONE, SSL_VERIFY_PEER | SSL_VERIFY_FAIL_IF_NO_PEER_CERT, SSL_VERIFY_PEER | SSL_VERIFY_CLIENT_ONCE});
        cfg.min_version = c.coin() ? tls::TlsVersion::TLS_1_3 : tls::TlsVersion::TLS_1_2;
        // ciphers
        if (c.chance(1, 3))
        {
            if (c.chance(1, 4)) cfg.cipher_suites = c.pick<std::string>({"NO-SUCH-CIPHER", "garbage:more", "!"}), wrong.insert(kTlsContextCreationFailed);
            else cfg.cipher_suites = c.pick<std::string>({"ECDHE-ECDSA-AES128-GCM-SHA256", "ECDHE-ECDSA-AES256-GCM-SHA384:ECDHE-ECDSA-CHACHA20-POLY1305", "HIGH:!aNULL"});
            if (cfg.cipher_suites == "!") wrong.insert(kTlsContextCreationFailed);
        }
        if (c.chance(1, 3))
        {
            if (c.chance(1, 4)) cfg.ciphersuites_tls13 = "NO_SUCH_SUITE", wrong.insert(kTlsContextCreationFailed);
            else cfg.ciphersuites_tls13 = c.pick<std::string>({"TLS_AES_128_GCM_SHA256", "TLS_AES_256_GCM_SHA384:TLS_CHACHA20_POLY1305_SHA256"});
        }
        // protocols
        std::string alpn;
        if (c.chance(1, 3))
        {
            size_t n = 1 + c.draw(4);
            for (size_t i = 0; i < n; ++i)
            {
                std::string p = c.pick<std::string>({"h2", "http/1.1", "x", "spdy/3"});
                if (c.chance(1, 6)) p = std::string(c.pick<size_t>({255, 254, 100}), 'p');
                if (c.chance(1, 10)) p = std::string(c.pick<size_t>({0, 256, 257, 300, 512}), 'q');
                if (p.empty() || p.size() > 255) wrong.insert(kTlsContextCreationFailed);
                cfg.alpn_protocols.push_back(p);
                alpn += static_cast<char>(p.size());
                alpn += p;
            }
        }
        c.note("{} cert {} key {} ca {} dir {} mode {} min {} ciphers {} suites {} alpn {} entries; wrong {} things", server ? "server" : "client", cfg.cert_path.string(), cfg.key_path.string(), cfg.ca_cert_path.string(), cfg.ca_dir_path.string(),
               cfg.verify_mode, cfg.min_version == tls::TlsVersion::TLS_1_3 ? "1.3" : "1.2", cfg.cipher_suites, cfg.ciphersuites_tls13, cfg.alpn_protocols.size(), wrong.size());
        auto r = server ? tls::TlsContext::make_server(cfg) : tls::TlsContext::make_client(cfg);
        if (!r)
        {
            REQUIRE(!wrong.empty() || ambiguous, "refused", "a usable configuration is refused with {}", r.error().value);
            REQUIRE(r.error().category == ErrorCategory::Tls, "error-kind", "refused with an error of category {}", static_cast<int>(r.error().category));
            if (ambiguous) wrong.insert({kTlsCertificateLoadFailed, kTlsPrivateKeyLoadFailed});
            REQUIRE(wrong.contains(r.error().value), "error-kind", "refused with {}, none of what is wrong here", r.error().value);
            c.label("refused");
            if (wrong.size() == 1) c.nontrivial();
            return;
        }
        REQUIRE(wrong.empty(), "accepted", "a context is created although there is something wrong with what is configured (e.g. {})", *wrong.begin());
        c.label("accepted");
        // the context moves with all it holds
        tls::TlsContext ctx = std::move(*r);
        if (c.coin())
        {
            tls::TlsContext other = std::move(ctx);
            if (c.coin())
            {
                tls::TlsConfig none;
                none.verify_mode = SSL_VERIFY_NONE;
                auto t = tls::TlsContext::make_client(none);
                REQUIRE(t.has_value(), "refused", "the default client configuration is refused");
                ctx = std::move(*t);
            }
            ctx = std::move(other);
            REQUIRE(other.get() == nullptr, "move", "a moved-from context still holds something");
        }
        SSL_CTX* x = ctx.get();
        REQUIRE(x != nullptr, "no-context", "success without a context");
        REQUIRE(SSL_CTX_get_verify_mode(x) == cfg.verify_mode, "verify-mode", "verification mode {} instead of {}", SSL_CTX_get_verify_mode(x), cfg.verify_mode);
        int min = cfg.min_version == tls::TlsVersion::TLS_1_3 ? TLS1_3_VERSION : TLS1_2_VERSION;
        REQUIRE(SSL_CTX_get_min_proto_version(x) == min, "min-version", "oldest version accepted is {:x}, configured {:x}", SSL_CTX_get_min_proto_version(x), min);
        REQUIRE(SSL_CTX_get_options(x) & SSL_OP_ENABLE_KTLS, "offload-option", "offload is not asked for");
        if (server) REQUIRE(SSL_CTX_get_num_tickets(x) == 0, "tickets", "the server would send {} session tickets after the handshake, which offloaded reads cannot take", SSL_CTX_get_num_tickets(x));
        if (cert_ok)
        {
            REQUIRE(SSL_CTX_get0_certificate(x) && X509_cmp(SSL_CTX_get0_certificate(x), k.id[who].cert.get()) == 0, "identity", "the context's certificate is not the configured one");
            if (who == kViaInter)
            {
                STACK_OF(X509)* ch = nullptr;
                SSL_CTX_get0_chain_certs(x, &ch);
                REQUIRE(ch && sk_X509_num(ch) == 1, "chain", "the intermediate certificate of the chain file is missing");
            }
            if (has_key) REQUIRE(SSL_CTX_get0_privatekey(x) && EVP_PKEY_eq(SSL_CTX_get0_privatekey(x), k.id[who].key.get()) == 1, "identity", "the context's key is not the configured one");
        }
        // whom it trusts: a certificate by the first root verifies exactly if that root was configured
        {
            X509_STORE_CTX* sc = X509_STORE_CTX_new();
            X509_STORE_CTX_init(sc, SSL_CTX_get_cert_store(x), k.id[kGood].cert.get(), nullptr);
            bool ok = X509_verify_cert(sc) == 1;
            X509_STORE_CTX_free(sc);
            ERR_clear_error();
            REQUIRE(ok == ca1, "trust", "a certificate of a root that is {}configured is {}", ca1 ? "" : "not ", ok ? "trusted" : "not trusted");
        }
        if (!cfg.cipher_suites.empty() && cfg.cipher_suites.starts_with("ECDHE"))
        {
            SSL* s = SSL_new(x);
            std::set<std::string> have;
            STACK_OF(SSL_CIPHER)* cs = SSL_get_ciphers(s);
            for (int i = 0; i < sk_SSL_CIPHER_num(cs); ++i)
                if (std::string(SSL_CIPHER_get_version(sk_SSL_CIPHER_value(cs, i))) != "TLSv1.3") have.insert(SSL_CIPHER_get_name(sk_SSL_CIPHER_value(cs, i)));
            SSL_free(s);
            std::string joined;
            std::set<std::string> want;
            std::string rest = cfg.cipher_suites;
            for (size_t p; (p = rest.find(':')) != std::string::npos; rest.erase(0, p + 1)) want.insert(rest.substr(0, p));
            want.insert(rest);
            REQUIRE(have == want, "ciphers", "the context offers {} TLS 1.2 ciphers, configured {}", have.size(), want.size());
        }
        if (!cfg.ciphersuites_tls13.empty())
        {
            SSL* s = SSL_new(x);
            std::string have;
            STACK_OF(SSL_CIPHER)* cs = SSL_get_ciphers(s);
            for (int i = 0; i < sk_SSL_CIPHER_num(cs); ++i)
                if (std::string(SSL_CIPHER_get_version(sk_SSL_CIPHER_value(cs, i))) == "TLSv1.3") have += (have.empty() ? "" : ":") + std::string(SSL_CIPHER_get_name(sk_SSL_CIPHER_value(cs, i)));
            SSL_free(s);
            REQUIRE(have == cfg.ciphersuites_tls13, "ciphers", "the context offers {} for TLS 1.3, configured {}", have, cfg.ciphersuites_tls13);
        }
        if (has_cert || !cfg.ca_cert_path.empty() || !cfg.ca_dir_path.empty()) c.nontrivial();
    }
}  // namespace
PBT_MAIN(prop)
