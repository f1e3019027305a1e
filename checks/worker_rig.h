// Runs one worker in lockstep with the simulated ring: the event loop runs on
// the calling thread and every completion is a choice of the case.
#pragma once
#include <cstdint>
#include <syscall.h>
#include <functional>
#include <memory>
#include <string>
#include "pbt/pbt.h"
#include "sim/simuring.h"
#include "kio/core/worker.h"
#include "kio/core/coro.h"

namespace rig
{
    inline void quiet()
    {
        static bool done = [] { kio::alog::configure(4, kio::LogLevel::Disabled); return true; }();
        (void) done;
    }

    struct Rig
    {
        pbt::Case& c;
        std::unique_ptr<kio::io::Worker> w;
        bool done = false;       // set by the program when everything it started has finished
        bool stopping = false;
        bool crashed = false;

        explicit Rig(pbt::Case& cc) : c(cc) {}

        void stop()
        {
            if (stopping) return;
            stopping = true;
            sim::on_helper([&] { (void) w->request_stop(); });
        }

        // `cfg.idle` may be set by the caller: it is asked before the worker is stopped
        void run(sim::Config cfg, kio::io::WorkerConfig wc, std::function<void(kio::io::Worker&)> init)
        {
            quiet();
            cfg.c = &c;
            auto user_idle = cfg.idle;
            cfg.idle = [this, user_idle] {
                if (c.failed) { stop(); return true; }
                if (!done)
                {
                    if (user_idle && user_idle()) return true;
                    if (sim::advance_to_next_timer()) return true;
                    return false;
                }
                if (stopping) return false;
                stop();
                return true;
            };
            sim::begin(cfg);
            crashed = sim::run_until_crash([&] {
                w = std::make_unique<kio::io::Worker>(0, wc, init);
                w->loop_forever();
            });
        }
        // after a normal run
        void finish()
        {
            if (crashed) (void) w.release();
            else w.reset();
            sim::end();
        }
    };

    // REQUIRE for coroutines: an exception would be swallowed there
#define CREQUIRE(cond, tag, ...)                                                                               \
    do                                                                                                         \
    {                                                                                                          \
        if (!(cond)) ::sim::abort_case(tag, std::string(#cond " -- ") + std::format(__VA_ARGS__));             \
    } while (0)
}  // namespace rig
