// Choice-sequence property-based testing runner.
//
// A case is a pure function of a sequence of integers ("choices"). In run mode
// the choices come from a PRNG seeded by (VERIF_SEED, case index) and are
// recorded in a shared file as they are drawn, so that a crash, a sanitizer
// abort or a hang of the process still leaves the failing case behind. In
// replay mode they come from a file (zeros after its end). Shrinking works on
// the choice sequence and is done by the driver (run.py), which replays
// candidate sequences in fresh processes.
#pragma once
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <format>
#include <functional>
#include <initializer_list>
#include <map>
#include <mutex>
#include <span>
#include <stdexcept>
#include <string>
#include <string_view>
#include <sys/mman.h>
#include <unistd.h>
#include <vector>

namespace pbt
{
    struct Failure : std::runtime_error
    {
        std::string tag;
        Failure(std::string t, const std::string& m) : std::runtime_error(m), tag(std::move(t)) {}
    };

    inline uint64_t splitmix(uint64_t& s)
    {
        uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }

    constexpr size_t kMaxChoices = 1u << 19;
    struct Shared
    {
        std::atomic<uint64_t> n;          // choices of the running case
        std::atomic<uint64_t> case_idx;   // running case
        std::atomic<uint64_t> started_ms; // monotonic start of the running case, 0 = none
        uint64_t pad;
        uint64_t choice[kMaxChoices];
    };

    inline uint64_t now_ms()
    {
        timespec ts;
        // raw syscall: harnesses may interpose clock_gettime
        ::clock_gettime(CLOCK_MONOTONIC_RAW, &ts);
        return static_cast<uint64_t>(ts.tv_sec) * 1000 + static_cast<uint64_t>(ts.tv_nsec) / 1000000;
    }

    class Case
    {
    public:
        bool replay = false;
        const std::vector<uint64_t>* rep = nullptr;
        uint64_t rng = 0;
        Shared* sh = nullptr;
        uint64_t pos = 0;
        uint64_t hash = 0xcbf29ce484222325ULL;
        int size = 100;  // 0..100, grows with the case index
        bool tracing = false;
        bool is_nontrivial = false;
        std::string trace;
        std::map<std::string, uint64_t> labels;
        std::mutex mu;
        bool failed = false;
        std::string fail_tag, fail_msg;

        // uniform in [0, n); n == 0 means the full 64-bit range
        uint64_t draw(uint64_t n)
        {
            uint64_t v;
            if (replay)
            {
                v = pos < rep->size() ? (*rep)[pos] : 0;
                if (n && v >= n) v %= n;
            }
            else
            {
                v = splitmix(rng);
                if (n) v = static_cast<uint64_t>((static_cast<unsigned __int128>(v) * n) >> 64);
            }
            if (sh && pos < kMaxChoices)
            {
                sh->choice[pos] = v;
                sh->n.store(pos + 1, std::memory_order_relaxed);
            }
            ++pos;
            hash = (hash ^ v) * 0x100000001b3ULL;
            hash ^= hash >> 29;
            return v;
        }
        void record(uint64_t v)
        {
            if (sh && pos < kMaxChoices)
            {
                sh->choice[pos] = v;
                sh->n.store(pos + 1, std::memory_order_relaxed);
            }
            ++pos;
        }
        // number of steps for a history, scaled by the case size
        size_t steps(size_t max) { return 1 + draw(std::max<size_t>(1, max * static_cast<size_t>(size) / 100)); }
        // inclusive
        int64_t range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(draw(static_cast<uint64_t>(hi - lo) + 1)); }
        bool chance(uint64_t num, uint64_t den) { return draw(den) >= den - num; }  // shrinks to false
        bool coin() { return draw(2) != 0; }
        template<typename T>
        T pick(std::initializer_list<T> l) { return *(l.begin() + draw(l.size())); }
        template<typename V>
        auto& pick_from(V& v) { return v[draw(v.size())]; }
        size_t weighted(std::initializer_list<unsigned> w)
        {
            uint64_t t = 0;
            for (auto x: w) t += x;
            uint64_t r = draw(t);
            size_t i = 0;
            for (auto x: w)
            {
                if (r < x) return i;
                r -= x;
                ++i;
            }
            return 0;
        }
        // sizes: mostly small, sometimes near a power of two or the maximum
        size_t small(size_t max)
        {
            if (max == 0) return 0;
            switch (weighted({5, 3, 1}))
            {
                case 0: return draw(std::min<uint64_t>(max, 8) + 1);
                case 1:
                {
                    uint64_t b = draw(64 - __builtin_clzll(max) + 1);
                    uint64_t m = std::min<uint64_t>(max, (1ULL << std::min<uint64_t>(b, 62)));
                    return draw(m + 1);
                }
                default:
                {
                    uint64_t b = draw(64 - __builtin_clzll(max));
                    int64_t v = static_cast<int64_t>(1ULL << b) + range(-2, 2);
                    if (v < 0) v = 0;
                    return std::min<uint64_t>(max, static_cast<uint64_t>(v));
                }
            }
        }
        // bytes: literal choices for short strings, seeded expansion for long ones
        std::string bytes(size_t n)
        {
            std::string s(n, '\0');
            if (n <= 16)
                for (auto& ch: s) ch = static_cast<char>(draw(256));
            else
            {
                uint64_t k = draw(3), seed = draw(1u << 16) * 0x9e3779b97f4a7c15ULL + n;
                for (size_t i = 0; i < n; ++i)
                    s[i] = k == 0 ? static_cast<char>('a' + (seed + i) % 26) : static_cast<char>(splitmix(seed));
            }
            return s;
        }
        template<typename... A>
        void note(std::format_string<A...> f, A&&... a)
        {
            if (!tracing) return;
            std::string s = std::format(f, std::forward<A>(a)...);
            std::lock_guard g(mu);
            if (trace.size() < 20000) trace += s + "\n";
        }
        void label(const std::string& l)
        {
            std::lock_guard g(mu);
            labels[l]++;
        }
        void nontrivial() { is_nontrivial = true; }
        // record a failure without throwing (other threads, detached coroutines)
        void soft_fail(const std::string& tag, const std::string& m)
        {
            std::lock_guard g(mu);
            if (failed) return;
            failed = true;
            fail_tag = tag;
            fail_msg = m;
        }
    };

    [[noreturn]] inline void fail(const std::string& tag, const std::string& m) { throw Failure(tag, m); }

    inline std::string show(std::string_view s, size_t max = 80)
    {
        std::string o = "\"";
        for (size_t i = 0; i < s.size() && i < max; ++i)
        {
            unsigned char ch = static_cast<unsigned char>(s[i]);
            if (ch == '\r') o += "\\r";
            else if (ch == '\n') o += "\\n";
            else if (ch == '"' || ch == '\\') { o += '\\'; o += static_cast<char>(ch); }
            else if (ch < 32 || ch > 126) o += std::format("\\x{:02x}", ch);
            else o += static_cast<char>(ch);
        }
        o += "\"";
        if (s.size() > max) o += std::format("...({} bytes)", s.size());
        return o;
    }

    using Prop = void (*)(Case&);

    namespace detail
    {
        inline std::string jesc(const std::string& s)
        {
            std::string o;
            for (unsigned char c: s)
            {
                if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
                else if (c == '\n') o += "\\n";
                else if (c < 32 || c > 126) o += std::format("\\u{:04x}", c);
                else o += static_cast<char>(c);
            }
            return o;
        }
        inline void run_one(Case& c, Prop prop)
        {
            try
            {
                prop(c);
            }
            catch (const Failure& f)
            {
                c.soft_fail(f.tag, f.what());
            }
            catch (const std::exception& e)
            {
                c.soft_fail("unexpected-exception", e.what());
            }
        }
    }  // namespace detail

    // Called (if set) after each case, e.g. to reset global state.
    inline int main(int argc, char** argv, Prop prop)
    {
        uint64_t seed = 1, shard = 0, shards = 1, cases = 100;
        double tlimit = 1e9;
        std::string out, state, replay, known;
        bool verbose = false;
        uint64_t only = ~0ULL;
        for (int i = 1; i < argc; ++i)
        {
            std::string a = argv[i];
            auto nx = [&] { return std::string(argv[++i]); };
            if (a == "--seed") seed = std::stoull(nx());
            else if (a == "--shard") shard = std::stoull(nx());
            else if (a == "--shards") shards = std::stoull(nx());
            else if (a == "--cases") cases = std::stoull(nx());
            else if (a == "--time") tlimit = std::stod(nx());
            else if (a == "--out") out = nx();
            else if (a == "--state") state = nx();
            else if (a == "--replay") replay = nx();
            else if (a == "--known") known = nx();
            else if (a == "--only") only = std::stoull(nx());
            else if (a == "-v") verbose = true;
        }
        auto is_known = [&](const std::string& tag) {
            return ("," + known + ",").find("," + tag + ",") != std::string::npos;
        };
        Shared* sh = nullptr;
        if (!state.empty())
        {
            int fd = ::open(state.c_str(), O_RDWR | O_CREAT, 0644);
            if (fd < 0 || ::ftruncate(fd, sizeof(Shared)) != 0) { perror("state"); return 3; }
            sh = static_cast<Shared*>(::mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
            if (sh == MAP_FAILED) { perror("mmap"); return 3; }
            ::close(fd);
        }
        if (!replay.empty())
        {
            std::vector<uint64_t> ch;
            if (FILE* f = fopen(replay.c_str(), "r"))
            {
                char line[256];
                while (fgets(line, sizeof line, f))
                {
                    if (line[0] == '#' || line[0] == '\n') continue;
                    ch.push_back(strtoull(line, nullptr, 10));
                }
                fclose(f);
            }
            else { perror("replay"); return 3; }
            Case c;
            c.replay = true;
            c.rep = &ch;
            c.sh = sh;
            c.tracing = true;
            c.size = static_cast<int>(std::min<uint64_t>(100, c.draw(101)));
            detail::run_one(c, prop);
            if (verbose || c.failed) printf("TRACE\n%s", c.trace.c_str());
            printf("USED %llu\n", static_cast<unsigned long long>(c.pos));
            if (c.failed)
            {
                printf("FAIL %s: %s\n", c.fail_tag.c_str(), c.fail_msg.c_str());
                fflush(stdout);
                _exit(10);
            }
            printf("PASS\n");
            fflush(stdout);
            _exit(0);
        }
        uint64_t evals = 0, nontriv = 0, knownhits = 0;
        std::map<std::string, uint64_t> labels, knownmap;
        std::vector<std::string> samples;
        std::vector<uint64_t> hashes;
        const uint64_t t0 = now_ms();
        std::string ftag, fmsg;
        bool failed = false;
        for (uint64_t idx = shard; idx < cases && !failed; idx += shards)
        {
            if (only != ~0ULL) idx = only;
            if (static_cast<double>(now_ms() - t0) > tlimit * 1000) break;
            Case c;
            uint64_t s = seed * 0x2545F4914F6CDD1DULL + idx * 0x9E3779B97F4A7C15ULL + 12345;
            splitmix(s);
            c.rng = s;
            c.sh = sh;
            c.size = static_cast<int>(std::min<uint64_t>(100, 5 + idx * 200 / std::max<uint64_t>(cases, 1)));
            c.tracing = samples.size() < 2 && evals < 200;
            if (sh)
            {
                sh->n.store(0);
                sh->case_idx.store(idx);
                sh->started_ms.store(now_ms());
            }
            c.record(static_cast<uint64_t>(c.size));  // first choice of every case: its size
            detail::run_one(c, prop);
            if (sh) sh->started_ms.store(0);
            ++evals;
            for (auto& [k, v]: c.labels) labels[k] += 1, (void) v;
            if (c.failed)
            {
                if (is_known(c.fail_tag)) { knownhits++; knownmap[c.fail_tag]++; }
                else
                {
                    failed = true;
                    ftag = c.fail_tag;
                    fmsg = c.fail_msg;
                    break;
                }
            }
            else if (c.is_nontrivial)
            {
                ++nontriv;
                hashes.push_back(c.hash);
                if (c.tracing && !c.trace.empty()) samples.push_back(c.trace.substr(0, 1500));
            }
            if (only != ~0ULL) break;
        }
        if (!out.empty())
        {
            if (FILE* f = fopen((out + ".hash").c_str(), "wb"))
            {
                fwrite(hashes.data(), 8, hashes.size(), f);
                fclose(f);
            }
            FILE* f = fopen(out.c_str(), "w");
            if (!f) return 3;
            fprintf(f, "{\"evaluations\":%llu,\"nontrivial\":%llu,\"known\":{", (unsigned long long) evals, (unsigned long long) nontriv);
            bool first = true;
            for (auto& [k, v]: knownmap) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", detail::jesc(k).c_str(), (unsigned long long) v); first = false; }
            fprintf(f, "},\"labels\":{");
            first = true;
            for (auto& [k, v]: labels) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", detail::jesc(k).c_str(), (unsigned long long) v); first = false; }
            fprintf(f, "},\"samples\":[");
            first = true;
            for (auto& s: samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", detail::jesc(s).c_str()); first = false; }
            fprintf(f, "],\"failed\":%s,\"tag\":\"%s\",\"msg\":\"%s\"}\n", failed ? "true" : "false", detail::jesc(ftag).c_str(), detail::jesc(fmsg.substr(0, 4000)).c_str());
            fclose(f);
        }
        if (failed)
        {
            printf("FAIL %s: %s\n", ftag.c_str(), fmsg.c_str());
            fflush(stdout);
            _exit(10);
        }
        fflush(stdout);
        _exit(0);
    }
}  // namespace pbt

#define REQUIRE(cond, tag, ...)                                                                            \
    do                                                                                                     \
    {                                                                                                      \
        if (!(cond)) ::pbt::fail(tag, std::string(#cond " -- ") + std::format(__VA_ARGS__));               \
    } while (0)

#define PBT_MAIN(prop) \
    int main(int argc, char** argv) { return ::pbt::main(argc, argv, prop); }
