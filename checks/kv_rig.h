// Helpers for the checks of the key-value partition: scratch directory, generated
// configurations, keys and values, a clock under the case's control, and close()
// watched so that descriptors closed twice or never are seen.
#pragma once
#include <cstdint>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <dirent.h>
#include <time.h>
#include "checks/threaded_rig.h"
#include "checks/worker_rig.h"
#include "bitcask/include/partition.h"

namespace kv
{
    using namespace bitcask;
    using kio::Result;
    using kio::Task;
    using kio::DetachedTask;
    using kio::io::Worker;
    using kio::io::WorkerConfig;
    using rig::Rig;

    inline std::atomic<bool> g_clock{false};          // the clock is the case's
    inline uint64_t g_real = 1'700'000'000'000'000'000ULL, g_mono = 5'000'000'000ULL, g_mono_step = 1;
    inline std::atomic<int> g_bad_close{-1};          // a descriptor closed that was not open

    inline const char* env_base()
    {
        // the file operations are real: keep them in memory
        static bool ok = ::access("/dev/shm", W_OK) == 0;
        return ok ? "/dev/shm" : nullptr;
    }
    inline void setup()
    {
        static bool done = [] {
            rlimit r{};
            if (::getrlimit(RLIMIT_NOFILE, &r) == 0 && r.rlim_cur < 8192 && r.rlim_max >= 8192)
            {
                r.rlim_cur = 8192;
                (void) ::setrlimit(RLIMIT_NOFILE, &r);
            }
            rig::quiet();
            if (!getenv("KIO_SCRATCH") && env_base()) setenv("KIO_SCRATCH", env_base(), 1);
            return true;
        }();
        (void) done;
        g_bad_close = -1;
    }

    struct Clock
    {
        Clock() { g_real = 1'700'000'000'000'000'000ULL; g_mono = 5'000'000'000ULL; g_mono_step = 1; g_clock = true; }
        ~Clock() { g_clock = false; }
        // lets some time pass (or go back, for the calendar clock)
        static void move(pbt::Case& c)
        {
            switch (c.weighted({4, 3, 2, 1}))
            {
                case 0: break;
                case 1: g_real += c.draw(2'000'000'000); break;
                case 2: g_real += 1'000'000'000ULL * (1 + c.draw(5)); break;
                default: g_real -= 1'000'000'000ULL * (1 + c.draw(20)); break;
            }
        }
    };

    // ----- keys and values -----
    inline std::vector<std::string> gen_keys(pbt::Case& c, size_t n)
    {
        std::vector<std::string> v;
        for (size_t i = 0; i < n; ++i)
        {
            std::string k;
            switch (c.weighted({5, 2, 1, 1}))
            {
                case 0: k = "k" + std::to_string(i); break;
                case 1: k = c.bytes(c.draw(12)) ; break;
                case 2: k = ""; break;
                default: k = c.bytes(c.pick({200u, 255u, 256u, 300u, 3000u})); break;
            }
            while (std::find(v.begin(), v.end(), k) != v.end()) k += static_cast<char>('A' + i);
            v.push_back(k);
        }
        return v;
    }
    // a value that tells which operation wrote it (when there is room)
    inline std::string make_value(uint64_t id, size_t n)
    {
        std::string s(n, '\0');
        uint64_t x = id * 0x9E3779B97F4A7C15ULL + 1;
        for (size_t i = 0; i < n; ++i) s[i] = i < 4 ? static_cast<char>(id >> (8 * i)) : static_cast<char>(pbt::splitmix(x));
        return s;
    }
    inline size_t gen_value_size(pbt::Case& c, bool allow_tiny = true, bool allow_huge = true)
    {
        switch (c.weighted({8, 3, 2, allow_huge ? 1u : 0u}))
        {
            case 0: return (allow_tiny ? 0 : 4) + c.draw(40);
            case 1: return 4 + c.draw(300);
            case 2: return 200 + c.draw(5000);
            default: return c.chance(1, 40) ? (2u << 20) + c.draw(100'000) : 20'000 + c.draw(60'000);
        }
    }
    inline std::vector<char> vec(const std::string& s) { return {s.begin(), s.end()}; }
    inline std::string str(const std::vector<char>& v) { return {v.begin(), v.end()}; }

    // ----- configuration -----
    inline void vary_config(pbt::Case& c, BitcaskConfig& f)
    {
        f.max_file_size = c.pick<size_t>({1, 50, 200, 200, 500, 1000, 1000, 4096, 20000});
        f.read_buffer_size = c.pick<size_t>({16, 40, 128, 1024, 4096, 65536});
        f.write_buffer_size = c.pick<size_t>({0, 1, 64, 512, 4096});
        f.fragmentation_threshold = c.pick<double>({0.5, 0.0, 0.01, 0.3, 0.5, 0.8, 1.0});
        f.sync_on_write = c.chance(1, 3);
        f.sync_interval = std::chrono::milliseconds(c.pick({1000, 1, 50, 1000}));
        f.auto_compact = c.coin();
        f.compaction_interval_s = std::chrono::milliseconds(c.pick({120000, 1, 20, 500}));
        f.max_open_sealed_files = c.pick<size_t>({100, 0, 1, 2, 3, 5});
    }
    // a pause in which the background loops wake up a few times at most
    inline std::chrono::milliseconds gen_pause(pbt::Case& c, const BitcaskConfig& f)
    {
        int64_t ms = c.pick({1, 5, 60, 1100, 130000});
        if (f.auto_compact) ms = std::min<int64_t>(ms, 10 * f.compaction_interval_s.count());
        if (!f.sync_on_write) ms = std::min<int64_t>(ms, 200 * f.sync_interval.count());
        return std::chrono::milliseconds(ms);
    }
    inline std::string partition_dir(const BitcaskConfig& f, size_t pid) { return (f.directory / ("partition_" + std::to_string(pid))).string(); }

    inline std::vector<std::string> list_files(const std::string& dir)
    {
        std::vector<std::string> v;
        std::error_code ec;
        for (auto& e: std::filesystem::directory_iterator(dir, ec)) v.push_back(e.path().filename().string());
        std::sort(v.begin(), v.end());
        return v;
    }
    inline std::string slurp(const std::string& p)
    {
        std::string s;
        int fd = ::open(p.c_str(), O_RDONLY | O_CLOEXEC);
        if (fd < 0) return s;
        char b[65536];
        ssize_t n;
        while ((n = ::read(fd, b, sizeof b)) > 0) s.append(b, static_cast<size_t>(n));
        ::syscall(SYS_close, fd);
        return s;
    }
    inline void spit(const std::string& p, const std::string& s)
    {
        int fd = ::open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
        if (fd < 0) return;
        for (size_t o = 0; o < s.size();)
        {
            ssize_t n = ::write(fd, s.data() + o, s.size() - o);
            if (n <= 0) break;
            o += static_cast<size_t>(n);
        }
        ::syscall(SYS_close, fd);
    }

    // ----- the documented format, read independently -----
    inline uint32_t crc32c_of(const char* p, size_t n)
    {
        static const auto table = [] {
            std::array<uint32_t, 256> t{};
            for (uint32_t i = 0; i < 256; ++i)
            {
                uint32_t r = i;
                for (int k = 0; k < 8; ++k) r = (r >> 1) ^ (r & 1 ? 0x82F63B78u : 0);
                t[i] = r;
            }
            return t;
        }();
        uint32_t r = ~0u;
        for (size_t i = 0; i < n; ++i) r = (r >> 8) ^ table[(r ^ static_cast<unsigned char>(p[i])) & 0xff];
        return ~r;
    }
    struct Parsed
    {
        uint64_t off = 0, size = 0;
        bool tombstone = false;
        std::string key, value;
    };
    // the entries of a data file up to the first one that is not intact
    inline std::vector<Parsed> parse_data(const std::string& s, uint64_t* end = nullptr)
    {
        std::vector<Parsed> out;
        size_t o = 0;
        auto le = [&](size_t at, size_t n) {
            uint64_t v = 0;
            for (size_t i = 0; i < n; ++i) v |= static_cast<uint64_t>(static_cast<unsigned char>(s[at + i])) << (8 * i);
            return v;
        };
        while (s.size() - o >= 12)
        {
            uint64_t len = le(o + 4, 8);
            if (len > s.size() - o - 12) break;
            if (le(o, 4) != crc32c_of(s.data() + o + 12, len)) break;
            auto e = DataEntry::deserialize(std::span<const char>(s.data() + o, 12 + len));
            if (!e.has_value()) break;
            out.push_back({o, 12 + len, e->first.is_tombstone(), e->first.key, str(e->first.value)});
            o += 12 + len;
        }
        if (end) *end = o;
        return out;
    }
    inline bool file_id_of(const std::string& name, const char* prefix, const char* ext, uint64_t& id)
    {
        size_t p = strlen(prefix), x = strlen(ext);
        if (name.size() <= p + x || name.compare(0, p, prefix) != 0 || name.compare(name.size() - x, x, ext) != 0) return false;
        auto [q, ec] = std::from_chars(name.data() + p, name.data() + name.size() - x, id);
        return ec == std::errc{} && q == name.data() + name.size() - x;
    }
    inline bool is_data(const std::string& n, uint64_t& id) { return file_id_of(n, "data_", ".db", id); }
    inline bool is_hint(const std::string& n, uint64_t& id) { return file_id_of(n, "hint_", ".ht", id); }

    inline std::string err(const kio::Error& e) { return std::format("{}/{}", static_cast<int>(e.category), e.value); }

    inline WorkerConfig worker_config(pbt::Case& c)
    {
        WorkerConfig wc;
        wc.uring_queue_depth = c.pick<size_t>({64, 256});  // a full submission queue refuses operations
        wc.default_op_slots = c.pick<size_t>({64, 4, 16});
        wc.task_queue_capacity = 64;
        return wc;
    }
}  // namespace kv

// The kernel is called directly: the sanitizers' own versions are not needed for these two.
extern "C" inline int kv_real_close(int fd) { return static_cast<int>(::syscall(SYS_close, fd)); }
extern "C" int close(int fd)
{
    sim::forget_fd(fd);
    int r = kv_real_close(fd);
    if (r < 0 && errno == EBADF) kv::g_bad_close = fd;
    return r;
}
extern "C" int clock_gettime(clockid_t id, timespec* ts) noexcept
{
    if (kv::g_clock && (id == CLOCK_REALTIME || id == CLOCK_MONOTONIC))
    {
        uint64_t t = id == CLOCK_REALTIME ? kv::g_real : (kv::g_mono += kv::g_mono_step);
        ts->tv_sec = static_cast<time_t>(t / 1'000'000'000ULL);
        ts->tv_nsec = static_cast<long>(t % 1'000'000'000ULL);
        return 0;
    }
    return static_cast<int>(::syscall(SYS_clock_gettime, id, ts));
}
