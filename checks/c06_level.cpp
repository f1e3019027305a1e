// C06, part 2: level filtering while another thread changes the level.
#include <cstdint>
#include <syscall.h>
#include "kio/core/async_logger.h"
#include "pbt.h"
using kio::LogLevel;
static void prop(pbt::Case& c)
{
    std::stringbuf sink;
    std::ostream os(&sink);
    size_t rounds = 2000 + c.draw(60000);
    // two levels; a message that both of them exclude must never pass
    LogLevel a = LogLevel::Disabled, b = static_cast<LogLevel>(2 + c.draw(4));
    if (c.chance(1, 4)) a = static_cast<LogLevel>(2 + c.draw(4));
    const int low = a == LogLevel::Disabled ? static_cast<int>(b) : std::min(static_cast<int>(a), static_cast<int>(b));
    LogLevel m = static_cast<LogLevel>(1 + c.draw(static_cast<uint64_t>(low - 1)));
    uint64_t passed = 0;
    {
        kio::Logger lg(1024, a, os);
        std::atomic<bool> stop{false};
        std::thread t([&] { while (!stop) { lg.set_level(b); lg.set_level(a); } });
        for (size_t i = 0; i < rounds; ++i)
        {
            passed += lg.should_log(m);
            if (i % 64 == 0)
            {
                switch (m)
                {
                    case LogLevel::Trace: lg.trace(std::source_location::current(), "x"); break;
                    case LogLevel::Debug: lg.debug(std::source_location::current(), "x"); break;
                    case LogLevel::Info: lg.info(std::source_location::current(), "x"); break;
                    default: lg.warn(std::source_location::current(), "x"); break;
                }
            }
        }
        stop = true;
        t.join();
    }
    c.note("levels {} and {}, message level {}, {} tries", static_cast<int>(a), static_cast<int>(b), static_cast<int>(m), rounds);
    REQUIRE(passed == 0 && sink.str().empty(), "filtered-message-passes", "{} of {} messages of level {} pass while the level alternates between {} and {}", passed, rounds,
            static_cast<int>(m), static_cast<int>(a), static_cast<int>(b));
    c.nontrivial();
}
PBT_MAIN(prop)
