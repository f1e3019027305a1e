// C06: the logger's output against the list of messages each thread logged.
#include <cstdint>
#include <syscall.h>
#include "kio/core/async_logger.h"
#include "pbt.h"
#include <barrier>
#include <dirent.h>
#include <map>
#include <sstream>

using kio::Logger;
using kio::LogLevel;

namespace
{
    // counts the lines other threads report to std::cerr (dropped messages)
    struct CountBuf : std::streambuf
    {
        std::mutex m;
        uint64_t lines = 0;
        int overflow(int ch) override
        {
            std::lock_guard g(m);
            if (ch == '\n') ++lines;
            return ch;
        }
        std::streamsize xsputn(const char* s, std::streamsize n) override
        {
            std::lock_guard g(m);
            for (std::streamsize i = 0; i < n; ++i) lines += s[i] == '\n';
            return n;
        }
    };
    // an output that is slow now and then, so that the consumer falls behind
    struct SlowBuf : std::stringbuf
    {
        uint64_t n = 0, every = 0;
        std::streamsize xsputn(const char* s, std::streamsize k) override
        {
            if (every && ++n % every == 0) std::this_thread::sleep_for(std::chrono::microseconds(200));
            return std::stringbuf::xsputn(s, k);
        }
    };
    struct Msg
    {
        LogLevel level;
        std::string text;
        unsigned line = 0;
        int64_t tid = 0;
        bool expected = false;
        int kind = 0;
        int64_t num = 0;
    };
    const char* name(LogLevel l)
    {
        switch (l)
        {
            case LogLevel::Trace: return "TRACE";
            case LogLevel::Debug: return "DEBUG";
            case LogLevel::Info: return "INFO";
            case LogLevel::Warn: return "WARN";
            case LogLevel::Error: return "ERROR";
            default: return "?";
        }
    }
    bool wanted(LogLevel msg, LogLevel active) { return active != LogLevel::Disabled && static_cast<int>(msg) >= static_cast<int>(active); }
    size_t open_fds()
    {
        size_t n = 0;
        if (DIR* d = opendir("/proc/self/fd"))
        {
            while (readdir(d)) ++n;
            closedir(d);
        }
        return n;
    }
    template<typename L>
    void emit(L& lg, Msg& m)
    {
        m.tid = ::syscall(SYS_gettid);
        auto go = [&](auto fn) {
            fn();
        };
        (void) go;
#define EMIT(fn)                                                                        \
    do                                                                                  \
    {                                                                                   \
        m.line = __LINE__;                                                              \
        switch (m.kind)                                                                 \
        {                                                                               \
            case 0: lg.fn(std::source_location::current(), "{}", m.text); break;        \
            case 1: lg.fn(std::source_location::current(), "{}#{}", m.text, m.num); break; \
            default: lg.fn(std::source_location::current(), "{:>6}|{}|{:x}", m.num, m.text, static_cast<uint64_t>(m.num)); break; \
        }                                                                               \
    } while (0)
        switch (m.level)
        {
            case LogLevel::Trace: EMIT(trace); break;
            case LogLevel::Debug: EMIT(debug); break;
            case LogLevel::Info: EMIT(info); break;
            case LogLevel::Warn: EMIT(warn); break;
            default: EMIT(error); break;
        }
    }
    std::string rendered(const Msg& m)
    {
        switch (m.kind)
        {
            case 0: return m.text;
            case 1: return std::format("{}#{}", m.text, m.num);
            default: return std::format("{:>6}|{}|{:x}", m.num, m.text, static_cast<uint64_t>(m.num));
        }
    }
}

static CountBuf g_err;
static std::vector<char> payload_pool;

static void prop(pbt::Case& c)
{
    std::cerr.rdbuf(&g_err);
    g_err.lines = 0;
    const size_t T = 1 + c.draw(4);
    const bool tight = c.chance(1, 3);
    const bool flusher = c.chance(1, 4);
    const size_t phases = 1 + c.draw(3);
    const size_t before_fds = open_fds();
    SlowBuf sink;
    if (c.chance(1, 3)) sink.every = 1 + c.draw(8);
    // plan
    std::vector<LogLevel> levels;
    for (size_t i = 0; i < phases; ++i) levels.push_back(static_cast<LogLevel>(c.draw(6)));
    std::vector<std::vector<std::vector<Msg>>> plan(T, std::vector<std::vector<Msg>>(phases));
    size_t total = 0, id = 0, longs = 0;
    for (auto& th: plan)
        for (size_t ph = 0; ph < phases; ++ph)
        {
            size_t n = c.draw(tight ? 30 : 12);
            for (size_t k = 0; k < n; ++k)
            {
                Msg m;
                m.level = static_cast<LogLevel>(1 + c.draw(5));
                m.kind = static_cast<int>(c.draw(3));
                m.num = c.range(-5, 5000);
                std::string head = std::format("m{}:", id++);
                size_t len = c.weighted({3, 3, 1}) == 0 ? c.draw(40) : c.coin() ? static_cast<size_t>(c.range(230, 275)) : c.small(5000);
                std::string body = c.bytes(len);
                for (auto& ch: body) if (ch == '\n') ch = '~';
                m.text = head + body;
                if (m.text.size() > 256) ++longs;
                m.expected = wanted(m.level, levels[ph]);
                total += m.expected;
                th[ph].push_back(std::move(m));
            }
        }
    size_t cap = tight ? 1ULL << (1 + c.draw(4)) : 1;
    if (!tight) while (cap < total + 1) cap *= 2;
    c.note("{} threads, {} phases, {} expected records, queue {}, flusher {}", T, phases, total, cap, flusher);
    {
        std::ostream os(&sink);
        Logger lg(cap, levels[0], os);
        std::barrier bar(static_cast<std::ptrdiff_t>(T) + 1);
        std::vector<std::thread> ths;
        std::atomic<bool> stop{false};
        for (size_t t = 0; t < T; ++t)
            ths.emplace_back([&, t] {
                for (size_t ph = 0; ph < phases; ++ph)
                {
                    bar.arrive_and_wait();
                    for (auto& m: plan[t][ph]) emit(lg, m);
                    bar.arrive_and_wait();
                }
            });
        std::thread fl;
        if (flusher) fl = std::thread([&] { while (!stop) { lg.flush(); std::this_thread::yield(); } });
        for (size_t ph = 0; ph < phases; ++ph)
        {
            lg.set_level(levels[ph]);
            for (int l = 1; l <= 5; ++l)
                if (lg.should_log(static_cast<LogLevel>(l)) != wanted(static_cast<LogLevel>(l), levels[ph])) c.soft_fail("should-log", std::format("should_log({}) at level {}", l, static_cast<int>(levels[ph])));
            bar.arrive_and_wait();
            bar.arrive_and_wait();
        }
        for (auto& x: ths) x.join();
        stop = true;
        if (fl.joinable()) fl.join();
    }
    const std::string out = sink.str();
    // parse: [time] [LEVEL] [tid:N] file:line - text
    std::map<std::string, int> by_text;  // text -> position
    std::vector<std::string> lines;
    for (size_t p = 0; p < out.size();)
    {
        size_t e = out.find('\n', p);
        REQUIRE(e != std::string::npos, "unterminated-record", "output ends with {}", pbt::show(out.substr(p)));
        lines.push_back(out.substr(p, e - p));
        p = e + 1;
    }
    std::map<std::string, size_t> where;
    for (size_t i = 0; i < lines.size(); ++i)
    {
        size_t m = lines[i].find(" - ");
        REQUIRE(m != std::string::npos, "bad-record", "record {}", pbt::show(lines[i]));
        std::string text = lines[i].substr(m + 3);
        if (!where.emplace(text, i).second) pbt::fail("duplicate", std::format("record {} appears twice", pbt::show(text, 40)));
    }
    size_t found = 0;
    for (auto& th: plan)
    {
        size_t last = 0;
        bool any = false;
        for (size_t ph = 0; ph < phases; ++ph)
            for (auto& m: th[ph])
            {
                auto text = rendered(m);
                auto it = where.find(text);
                if (!m.expected)
                {
                    REQUIRE(it == where.end(), "filtered-message-appears", "level {} while active level was {}", name(m.level), static_cast<int>(levels[ph]));
                    continue;
                }
                if (it == where.end())
                {
                    if (!tight) pbt::fail("lost", std::format("message {} ({} bytes) not in the output; {} records", pbt::show(text, 40), text.size(), lines.size()));
                    continue;
                }
                ++found;
                REQUIRE(!any || it->second > last, "order", "record {} out of order", pbt::show(text, 40));
                any = true;
                last = it->second;
                const auto& line = lines[it->second];
                auto meta = line.substr(0, line.find(" - "));
                const auto lv = std::string(name(m.level));
                REQUIRE(meta.find("[" + lv + std::string(lv.size() < 5 ? 5 - lv.size() : 0, ' ') + "]") != std::string::npos, "level", "{} logged at {}", pbt::show(meta), lv);
                REQUIRE(meta.find(std::format("[tid:{}]", m.tid)) != std::string::npos, "thread-id", "{} logged by {}", pbt::show(meta), m.tid);
                REQUIRE(meta.ends_with(std::format("c06_logger.cpp:{}", m.line)), "source-position", "{} logged at line {}", pbt::show(meta), m.line);
            }
    }
    REQUIRE(found == lines.size(), "invented-record", "{} records, {} of them known", lines.size(), found);
    if (tight)
    {
        const uint64_t refused = g_err.lines;
        REQUIRE(found + refused == total, "accepted-message-lost", "{} messages, {} in the output, {} reported as dropped", total, found, refused);
        REQUIRE(found >= std::min(total, cap), "dropped-with-room", "{} messages, queue {}, only {} written", total, cap, found);
        if (refused) c.label("queue overflowed");
    }
    const size_t after_fds = open_fds();
    REQUIRE(after_fds == before_fds, "descriptor-leak", "{} descriptors before, {} after", before_fds, after_fds);
    if (longs) c.label("messages over 256 bytes");
    if (flusher) c.label("concurrent flush");
    if (T > 1 && total > 5 && longs) c.nontrivial();
}

PBT_MAIN(prop)
