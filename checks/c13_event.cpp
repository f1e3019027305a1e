// C13: a broadcast event wakes every waiter exactly once.
// Built twice, like C12: with fibers, every atomic access of the event is a
// scheduling point between the worker, waiters and notifiers on other threads;
// without, other threads act at chosen moments, under AddressSanitizer.
#ifdef WITH_FIBERS
#include "sim/fiber_sched.h"
#include "sim/poison.h"
#endif
#include "checks/worker_rig.h"
#ifdef WITH_FIBERS
#define atomic sched_atomic
#endif
#include "kio/sync/event.h"
#undef atomic

using namespace kio;
using namespace kio::io;
using kio::sync::AsyncEvent;

namespace
{
    struct Actor
    {
        size_t round = 0;
        bool notifier = false;
        bool foreign = false;    // on another thread, or a coroutine on the worker
        uint64_t skip = 0;       // time that passes before it acts
        size_t again = 0;        // waits again so many times
        int times = 1;
        bool started = false, done = false, in_wait = false, acted = false;
        size_t resumes = 0, immediate = 0;
    };
    struct World
    {
        pbt::Case& c;
        rig::Rig& r;
        std::vector<Actor> as;
        std::vector<bool> fresh;
        std::unique_ptr<AsyncEvent> ev;
        size_t round = 0;
        size_t begun = 0, ended = 0;  // notifications of this round
        std::function<bool()> on_worker_now;
        size_t suspended = 0, woken = 0;

        bool finished(size_t k)
        {
            for (auto& a: as)
                if (a.round == k && !a.done) return false;
            return true;
        }
        void notify(Actor& a)
        {
            a.started = true;
            for (int i = 0; i < a.times; ++i)
            {
                ++begun;
                ev->notify();
                ++ended;
            }
            a.done = true;
        }
    };

    DetachedTask wait_here(World& W, Worker& w, Actor& a)
    {
        a.started = true;
        if (!a.foreign && a.skip) co_await w.async_sleep(std::chrono::nanoseconds(a.skip));
        for (size_t k = 0; k <= a.again; ++k)
        {
            const bool set_before = W.ended > 0;
            a.in_wait = true;
            a.acted = false;
            co_await W.ev->wait();
            CREQUIRE(a.in_wait, "resumed-twice", "round {}: a waiter was resumed again", W.round);
            CREQUIRE(W.round == a.round, "resumed-twice", "a waiter of round {} was resumed in round {}", a.round, W.round);
            a.in_wait = false;
            ++a.resumes;
            CREQUIRE(W.begun > 0, "spurious-wake", "round {}: a waiter was resumed although nothing was notified", W.round);
            if (set_before) CREQUIRE(!a.acted, "blocked-while-set", "round {}: a wait on the set event did not continue at once", W.round);
            if (a.acted) CREQUIRE(W.on_worker_now(), "wrong-thread", "round {}: a waiter was resumed elsewhere than on the worker", W.round);
            if (a.acted) ++W.woken;
        }
        a.done = true;
    }
    void start_waiter(World& W, Worker& w, Actor& a)
    {
        wait_here(W, w, a).detach();
        if (a.in_wait) a.acted = true, ++W.suspended;
    }
    DetachedTask notify_here(World& W, Worker& w, Actor& a)
    {
        a.started = true;
        co_await w.async_sleep(std::chrono::nanoseconds(a.skip));
        W.notify(a);
    }

    DetachedTask program(World& W, Worker& w, bool open_end)
    {
        for (size_t k = 0; k < W.fresh.size(); ++k)
        {
            if (k == 0 || W.fresh[k]) W.ev = std::make_unique<AsyncEvent>(w);
            else W.ev->reset();
            CREQUIRE(!W.ev->is_set(), "reset-has-no-effect", "round {}: the event is set after reset()", k);
            W.begun = W.ended = 0;
            W.round = k + 1;
            for (auto& a: W.as)
                if (a.round == k + 1 && !a.foreign)
                {
                    if (a.notifier) notify_here(W, w, a).detach();
                    else
                    {
                        start_waiter(W, w, a);
                        // it may have suspended in its sleep, and waits later
                        if (a.skip && !a.done) a.acted = false;
                    }
                }
            uint64_t pause = 1 + W.c.draw(5);
            while (!W.finished(k + 1))
            {
                if (W.ended) CREQUIRE(W.ev->is_set(), "state-lost", "round {}: not set after notify()", k);
                (void) co_await w.async_sleep(std::chrono::nanoseconds(pause));
                pause *= 2;
                if (pause > 1ULL << 40) sim::abort_case("lost-waiter", std::format("round {}: a waiter was never resumed", k));
            }
            CREQUIRE(W.ev->is_set() == (W.ended > 0), "state-lost", "round {}: is_set() is {} after {} notifications", k, W.ev->is_set(), W.ended);
        }
        const uint64_t t = sim::now_ns();
        auto s = co_await w.async_sleep(std::chrono::nanoseconds(7));
        CREQUIRE(s.has_value() && sim::now_ns() >= t + 7, "worker-broken", "a sleep after the last round failed or ended early");
        if (open_end)
        {
            W.ev->reset();
            W.r.done = true;
            co_await W.ev->wait();
            sim::abort_case("spurious-wake", "a wait nobody notified returned");
        }
        W.r.done = true;
    }

    void prop(pbt::Case& c)
    {
        rig::Rig r(c);
        World W{c, r};
        const size_t R = 1 + c.draw(1 + 4 * static_cast<size_t>(c.size) / 100);
        size_t most = 0, mostn = 0;
        for (size_t k = 0; k < R; ++k)
        {
            W.fresh.push_back(c.chance(1, 3));
            size_t nw = c.draw(2 + 10 * static_cast<size_t>(c.size) / 100), nn = c.draw(3) + (nw ? 1 : 0);
            most = std::max(most, nw);
            mostn = std::max(mostn, nn);
            for (size_t i = 0; i < nw + nn; ++i)
            {
                Actor a;
                a.round = k + 1;
                a.notifier = i >= nw;
                a.foreign = c.chance(a.notifier ? 3 : 1, 4);
                a.skip = c.weighted({3, 2, 1}) == 0 ? 0 : c.coin() ? 1 + c.draw(4) : 1 + c.draw(100);
                if (!a.notifier) a.again = c.chance(1, 4) ? 1 + c.draw(2) : 0;
                else a.times = 1 + static_cast<int>(c.draw(2));
                W.as.push_back(a);
            }
            c.note("round {}: {} waiters {} notifiers{}", k, nw, nn, W.fresh[k] ? ", new event" : "");
        }
        bool open_end = c.chance(1, 6);
        WorkerConfig wc;
        wc.task_queue_capacity = c.pick<size_t>({1024, 1, 2, 4});
        sim::Config sc;
        sc.max_batch = c.pick({16u, 1u, 4u});
        auto turn = [&](Actor& a) { return a.foreign && !a.started && !a.done && W.ev && W.round >= a.round; };
        auto act = [&](Actor& a) {
            if (a.skip) sim::advance_ns(a.skip);
            if (a.notifier) W.notify(a);
            else start_waiter(W, *r.w, a);
        };
        static thread_local bool helper = false;
#ifdef WITH_FIBERS
        fs_::Sched s(c, 1, 2 + static_cast<unsigned>(c.draw(4)));
        bool over = false;
        s.stack_size = 512 * 1024;
        W.on_worker_now = [&] { return s.cur == 0; };
        sc.tick = [&] { s.point(); };
        sc.idle = [&] { return s.yield_other(); };
        s.add([&] {
            r.run(sc, wc, [&](Worker& w) { program(W, w, open_end).detach(); });
            over = true;
        });
        for (auto& a: W.as)
            if (a.foreign)
                s.add([&] {
                    s.wait_until([&] { return r.crashed || c.failed || over || turn(a); });
                    if (!turn(a)) return;
                    for (size_t i = 0; i < 3 && c.coin(); ++i) s.yield_other();
                    act(a);
                });
        try
        {
            s.run();
        }
        catch (const pbt::Failure& f)
        {
            c.soft_fail(f.tag, f.what());
        }
#else
        W.on_worker_now = [&] { return !helper; };
        auto fire = [&](Actor& a) { sim::on_helper([&] { helper = true; act(a); helper = false; }); };
        sc.tick = [&] {
            for (auto& a: W.as)
                if (turn(a) && c.chance(1, 3)) fire(a);
        };
        sc.idle = [&] {
            for (auto& a: W.as)
                if (turn(a)) { fire(a); return true; }
            return false;
        };
        r.run(sc, wc, [&](Worker& w) { program(W, w, open_end).detach(); });
#endif
        uint64_t active = 0;
        if (!r.crashed && !c.failed) active = r.w->get_stats().active_coroutines;
        if (open_end || c.failed) (void) W.ev.release();
        r.finish();
        if (c.failed) return;
        REQUIRE(r.done, "lost-waiter", "the program stopped in round {}", W.round);
        REQUIRE(active == 0, "slots-leaked", "{} operation slots in use after the last round", active);
        size_t imm = 0;
        for (auto& a: W.as)
            if (!a.notifier)
            {
                REQUIRE(a.resumes == a.again + 1, "lost-waiter", "a waiter of round {} was resumed {} times, it waited {} times", a.round, a.resumes, a.again + 1);
                imm += a.resumes;
            }
        c.note("{} resumptions, {} after suspending", imm, W.woken);
        if (W.woken) c.label("suspended");
        if (W.woken >= 2 && most > 1 && mostn) c.nontrivial();
    }
}  // namespace
PBT_MAIN(prop)
