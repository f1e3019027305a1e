// Helpers for checks that run real worker threads over the simulated ring.
#pragma once
#include <atomic>
#include <cstdint>
#include <cstdlib>
#include <filesystem>
#include <string>
#include <sys/stat.h>
#include <syscall.h>
#include <unistd.h>
#include "pbt/pbt.h"
#include "sim/simuring.h"
#include "kio/core/async_logger.h"

namespace trig
{
    inline void quiet()
    {
        static bool done = [] { kio::alog::configure(4, kio::LogLevel::Disabled); return true; }();
        (void) done;
    }

    // a scratch directory, removed at the end of the case
    struct Dir
    {
        std::string path;
        Dir()
        {
            static std::atomic<unsigned> n{0};
            const char* base = getenv("KIO_SCRATCH");
            path = std::string(base ? base : "/tmp") + "/d" + std::to_string(getpid()) + "-" + std::to_string(n++);
            ::mkdir(path.c_str(), 0700);
        }
        ~Dir()
        {
            std::error_code ec;
            std::filesystem::remove_all(path, ec);
        }
        Dir(const Dir&) = delete;
    };

    // short transfers on regular descriptors, decided by a seed and the operation number
    struct Shorten
    {
        uint64_t seed;
        explicit Shorten(uint64_t s) : seed(s) {}
        sim::Fault operator()(sim::Op& o) const
        {
            sim::Fault f;
            uint64_t s = seed + o.id * 0x9E3779B97F4A7C15ULL;
            uint64_t v = pbt::splitmix(s);
            if (o.is_transfer() && o.bytes() > 1 && v % 3 == 0) f.limit = 1 + (v >> 8) % o.bytes();
            return f;
        }
    };
}  // namespace trig
