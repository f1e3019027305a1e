// C21: error mapping, formatting and propagation.
#include <cerrno>
#include <cstdint>
#include <cstring>
#include <syscall.h>
#include "kio/core/errors.h"
#include "kio/core/coro.h"
#include "kio/sync/sync_wait.h"
#include "pbt.h"
#include <set>

using kio::Error;
using kio::ErrorCategory;
using kio::Result;
using kio::Task;

namespace
{
    // the documented classification of system errors (kio/core/errors.h)
    ErrorCategory expected_category(int e)
    {
        static const std::set<int> net{EWOULDBLOCK, EAGAIN, ECONNABORTED, ECONNRESET, ECONNREFUSED, EPIPE, EFAULT, EINVAL, ENETDOWN, ENETUNREACH, ENETRESET, EINPROGRESS, EISCONN, ENOTCONN, ENOTSOCK, EDESTADDRREQ,
                                       EMSGSIZE, EPROTONOSUPPORT, EADDRINUSE, EADDRNOTAVAIL, ETIMEDOUT, EHOSTUNREACH, EHOSTDOWN};
        static const std::set<int> file{ENOENT, EACCES, EEXIST, EISDIR, ENOTDIR, ENAMETOOLONG, EROFS, EBADF, EIO, ENOSPC, ESPIPE, EFBIG, ENOTEMPTY, EXDEV};
        static const std::set<int> res{ENOMEM, EMFILE, ENFILE, EDEADLK, ENOLCK, ENOSYS, ECANCELED, EOWNERDEAD, ENOTRECOVERABLE};
        static const std::set<int> dev{ENODEV, ENXIO, EBUSY};
        if (e == 0) return ErrorCategory::Success;
        if (e >= 1000 && e <= 1999) return ErrorCategory::Uring;
        if (e >= 2000 && e <= 2999) return ErrorCategory::Serialization;
        if (e >= 3000 && e <= 3999) return ErrorCategory::Application;
        if (e >= 4000 && e <= 4999) return ErrorCategory::Tls;
        if (net.count(e)) return ErrorCategory::Network;
        if (file.count(e)) return ErrorCategory::File;
        if (res.count(e)) return ErrorCategory::SystemResource;
        if (dev.count(e)) return ErrorCategory::Device;
        return ErrorCategory::Unknown;
    }
    const char* cat_name(ErrorCategory c)
    {
        switch (c)
        {
            case ErrorCategory::Success: return "Success";
            case ErrorCategory::Network: return "Network";
            case ErrorCategory::File: return "File";
            case ErrorCategory::SystemResource: return "SystemResource";
            case ErrorCategory::Device: return "Device";
            case ErrorCategory::Uring: return "IOUring";
            case ErrorCategory::Serialization: return "Serialization";
            case ErrorCategory::Application: return "Application";
            case ErrorCategory::Tls: return "TLS";
            default: return "Unknown";
        }
    }
    const std::set<int> kCustom{kio::kIouringSqFull, kio::kIouringCqFull, kio::kIouringSqeTooEarly, kio::kIouringCancelled, kio::kIoDeserialization, kio::kIoDataCorrupted, kio::kIoEof, kio::kIoNeedMoreData,
                                kio::kAppEmptyBuffer, kio::kAppUnknown, kio::kAppInvalidArg, kio::kTlsHandshakeFailed, kio::kTlsContextCreationFailed, kio::kTlsKtlsEnableFailed, kio::kTlsCertificateLoadFailed,
                                kio::kTlsPrivateKeyLoadFailed, kio::kTlsVerificationFailed, kio::kTlsNotConnected, kio::kTlsAlreadyConnected, kio::kTlsUnsupportedCipher, kio::kTlsWantRead, kio::kTlsWantWrite,
                                kio::kTlsShutdownFailed};

    void check_error(int e)
    {
        const Error err = Error::from_errno(e);
        REQUIRE(err.value == e, "value", "from_errno({}) keeps {}", e, err.value);
        REQUIRE(err.category == expected_category(e), "category", "errno {} is {} expected {}", e, cat_name(err.category), cat_name(expected_category(e)));
        REQUIRE(err.is_success() == (e == 0), "success", "errno {} success {}", e, err.is_success());
        REQUIRE(err == Error::from_errno(e) && err == Error(err.category, e), "equality", "errno {}", e);
        const std::string s = std::format("{}", err);
        const std::string head = std::string(cat_name(err.category)) + ": ", tail = std::format(" ({})", e);
        REQUIRE(s.starts_with(head) && s.ends_with(tail) && s.size() > head.size() + tail.size(), "format", "errno {} formats as {}", e, pbt::show(s));
        const std::string msg = s.substr(head.size(), s.size() - head.size() - tail.size());
        if (e > 0 && e < 1000)
        {
            REQUIRE(msg == std::string(strerror(e)), "system-message", "errno {}: {} expected {}", e, pbt::show(msg), strerror(e));
        }
        if (kCustom.count(e)) REQUIRE(msg != "Unknown code" && !msg.empty(), "custom-message", "code {} has message {}", e, pbt::show(msg));
    }

    std::atomic<int> live{0};
    struct Probe
    {
        uint64_t v;
        std::unique_ptr<int> p;
        explicit Probe(uint64_t x) : v(x), p(new int(1)) { ++live; }
        Probe(Probe&& o) noexcept : v(o.v), p(std::move(o.p)) { ++live; }
        Probe& operator=(Probe&&) = default;
        ~Probe() { --live; }
    };
    struct Plan
    {
        size_t depth;
        size_t fail_at;  // == depth: no failure
        Error err;
        std::vector<int> kinds;
        std::vector<uint64_t> add;
        std::vector<int> evals, after;
    };
    template<typename T>
    T mk(uint64_t v)
    {
        if constexpr (std::is_same_v<T, uint64_t>) return v;
        else if constexpr (std::is_same_v<T, std::string>) return std::to_string(v) + "-a-string-on-the-heap-------";
        else if constexpr (std::is_same_v<T, Probe>) return Probe(v);
        else return std::make_unique<uint64_t>(v);
    }
    uint64_t un(const uint64_t& v) { return v; }
    uint64_t un(const std::string& s) { return std::stoull(s); }
    uint64_t un(const Probe& p) { return p.p ? p.v : 0xbad; }
    uint64_t un(const std::unique_ptr<uint64_t>& p) { return p ? *p : 0xbad; }

    Task<Result<uint64_t>> step(Plan& p, size_t i);
    template<typename T>
    Task<Result<T>> typed(Plan& p, size_t i)
    {
        ++p.evals[i];
        if (i == p.fail_at) co_return std::unexpected(p.err);
        uint64_t below = KIO_TRY(co_await step(p, i + 1));
        ++p.after[i];
        co_return mk<T>(below + p.add[i]);
    }
    Task<Result<void>> typed_void(Plan& p, size_t i, uint64_t& out)
    {
        ++p.evals[i];
        if (i == p.fail_at) co_return std::unexpected(p.err);
        out = KIO_TRY(co_await step(p, i + 1)) + p.add[i];
        ++p.after[i];
        co_return {};
    }
    Result<std::string> sync_part(Plan& p, bool ok)
    {
        if (!ok) return std::unexpected(p.err);
        return "x";
    }
    Task<Result<uint64_t>> step(Plan& p, size_t i)
    {
        if (i >= p.depth) co_return 7;
        switch (p.kinds[i])
        {
            case 0: { auto v = KIO_TRY(co_await typed<uint64_t>(p, i)); co_return un(v); }
            case 1: { auto v = KIO_TRY(co_await typed<std::string>(p, i)); co_return un(v); }
            case 2: { auto v = KIO_TRY(co_await typed<Probe>(p, i)); co_return un(v); }
            case 3: { auto v = KIO_TRY(co_await typed<std::unique_ptr<uint64_t>>(p, i)); co_return un(v); }
            case 4:
            {
                uint64_t out = 0;
                KIO_TRY(co_await typed_void(p, i, out));
                co_return out;
            }
            default:
            {
                // a plain (non-coroutine) result, used in an expression
                ++p.evals[i];
                size_t n = KIO_TRY(sync_part(p, i != p.fail_at)).size();
                ++p.after[i];
                co_return n - 1 + p.add[i] + KIO_TRY(co_await step(p, i + 1));
            }
        }
    }
}  // namespace

static void prop(pbt::Case& c)
{
    // classification and text
    const int e = static_cast<int>(c.weighted({4, 2, 1}) == 0 ? c.range(0, 140) : c.coin() ? c.range(990, 5010) : static_cast<int64_t>(static_cast<int32_t>(c.draw(1ULL << 32))));
    if (e > INT32_MIN) check_error(e);
    static bool once = [] {
        std::set<std::string> msgs;
        for (int x: kCustom)
        {
            check_error(x);
            REQUIRE(msgs.insert(std::string(cat_name(Error::from_errno(x).category)) + kio::ErrorValueToString(x)).second, "custom-message", "two codes share the message of {}", x);
        }
        REQUIRE(Error().is_success() && Error().value == 0, "default", "default error is not success");
        return true;
    }();
    (void) once;
    // propagation
    Plan p;
    p.depth = 1 + c.draw(8);
    p.fail_at = c.coin() ? c.draw(p.depth) : p.depth;
    p.err = Error::custom(static_cast<ErrorCategory>(1 + c.draw(9)), static_cast<int>(c.range(-50, 5000)));
    uint64_t want = 7;
    for (size_t i = 0; i < p.depth; ++i)
    {
        p.kinds.push_back(static_cast<int>(c.draw(6)));
        p.add.push_back(c.draw(1000));
        want += p.add.back();
    }
    p.evals.assign(p.depth, 0);
    p.after.assign(p.depth, 0);
    c.note("errno {}; {} levels, failure at {} with {}", e, p.depth, p.fail_at, std::format("{}", p.err));
    auto r = kio::SyncWait(step(p, 0));
    if (p.fail_at == p.depth)
    {
        REQUIRE(r.has_value(), "spurious-error", "no level failed but the result is an error");
        REQUIRE(*r == want, "value-changed", "result {} expected {}", *r, want);
    }
    else
    {
        REQUIRE(!r.has_value(), "error-lost", "level {} failed but the result is a value", p.fail_at);
        REQUIRE(r.error() == p.err, "error-changed", "error {} became {}", std::format("{}", p.err), std::format("{}", r.error()));
    }
    for (size_t i = 0; i < p.depth; ++i)
    {
        REQUIRE(p.evals[i] == (i <= p.fail_at ? 1 : 0), "evaluated-once", "level {} evaluated {} times", i, p.evals[i]);
        // a plain result continues before the levels below it are tried
        int cont = (p.fail_at == p.depth) ? 1 : (p.kinds[i] == 5 && i < p.fail_at) ? 1 : 0;
        REQUIRE(p.after[i] == cont, "continued-after-error", "level {} continued {} times, expected {}", i, p.after[i], cont);
    }
    REQUIRE(live == 0, "leak", "{} values alive", live.load());
    if (p.fail_at < p.depth) c.label("error propagated");
    if (p.depth > 2) c.nontrivial();
}
PBT_MAIN(prop)
