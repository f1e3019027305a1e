// C12: a baton wakes its waiter exactly once and never misses a notification.
// Built twice: with fibers, every atomic access of the baton is a scheduling
// point between the worker and the notifiers; without, notifications are made
// by another thread at chosen moments, under AddressSanitizer.
#ifdef WITH_FIBERS
#include "sim/fiber_sched.h"
#endif
#include "checks/worker_rig.h"
#ifdef WITH_FIBERS
#define atomic sched_atomic
#endif
#include "kio/sync/baton.h"
#undef atomic

using namespace kio;
using namespace kio::io;
using kio::sync::AsyncBaton;

namespace
{
    struct Notifier
    {
        size_t round = 0;
        bool done = false, started = false;
        uint64_t begin = 0, end = 0;  // virtual time
        uint64_t skip = 0;            // time that passes before it acts
        bool own_thread = true;       // or a coroutine on the worker
        int times = 1;
    };
    struct Round
    {
        bool timed = false;
        uint64_t dur = 0;
        uint64_t pre = 0;    // pause before waiting
        bool fresh = false;  // a new baton rather than reset()
        bool aligned = false;
    };
    struct World
    {
        pbt::Case& c;
        rig::Rig& r;
        std::vector<Round> rounds;
        std::vector<Notifier> nots;
        std::unique_ptr<AsyncBaton> baton;
        size_t round = 0;          // rounds started
        bool in_wait = false;
        size_t resumes = 0;
        uint64_t wait_began = 0;
        size_t timeouts = 0, signalled = 0, late = 0;
        bool open_end = false;     // the last wait is never notified

        size_t done_in(size_t k, bool begun)
        {
            size_t n = 0;
            for (auto& x: nots) n += x.round == k && (begun ? x.started : x.done);
            return n;
        }
        bool all_done(size_t k)
        {
            for (auto& x: nots)
                if (x.round == k && !x.done) return false;
            return true;
        }
        void act(Notifier& n)
        {
            n.started = true;
            n.begin = sim::now_ns();
            for (int i = 0; i < n.times; ++i) baton->notify();
            n.end = sim::now_ns();
            n.done = true;
        }
    };

    DetachedTask on_worker(World& W, Worker& w, Notifier& n)
    {
        co_await w.async_sleep(std::chrono::nanoseconds(n.skip));
        W.act(n);
    }

    DetachedTask program(World& W, Worker& w)
    {
        for (size_t k = 0; k < W.rounds.size(); ++k)
        {
            Round& rd = W.rounds[k];
            if (k == 0 || rd.fresh) W.baton = std::make_unique<AsyncBaton>(w);
            else
            {
                W.baton->reset();
                CREQUIRE(!W.baton->ready(), "reset-has-no-effect", "round {}: the baton is set after reset()", k);
            }
            W.round = k + 1;
            for (auto& n: W.nots)
                if (n.round == k + 1 && !n.own_thread)
                {
                    if (rd.aligned) n.skip = rd.pre + rd.dur;
                    on_worker(W, w, n).detach();
                }
            if (rd.pre) co_await w.async_sleep(std::chrono::nanoseconds(rd.pre));
            const uint64_t t0 = sim::now_ns();
            const size_t done_before = W.done_in(k + 1, false);
            W.in_wait = true;
            W.wait_began = t0;
            bool res = true;
            if (rd.timed) res = co_await W.baton->wait_for(std::chrono::nanoseconds(rd.dur));
            else co_await W.baton->wait();
            CREQUIRE(W.in_wait, "resumed-twice", "round {}: the waiter was resumed again", k);
            CREQUIRE(W.round == k + 1, "resumed-twice", "the waiter of round {} was resumed in round {}", k + 1, W.round);
            W.in_wait = false;
            CREQUIRE(w.is_on_worker_thread(), "wrong-thread", "round {}: resumed on another thread", k);
            ++W.resumes;
            const uint64_t now = sim::now_ns();
            const size_t begun = W.done_in(k + 1, true);
            if (res)
            {
                CREQUIRE(begun > 0, "spurious-wake", "round {}: {} returned at {}+{} although nothing was notified", k, rd.timed ? "wait_for (true)" : "wait", t0, now - t0);
                ++W.signalled;
            }
            else
            {
                ++W.timeouts;
                CREQUIRE(now >= t0 + rd.dur, "early-timeout", "round {}: wait_for({}) timed out after {}", k, rd.dur, now - t0);
                for (auto& n: W.nots)
                    if (n.round == k + 1 && n.done)
                        CREQUIRE(n.end >= t0 + rd.dur, "missed-notification", "round {}: wait_for({}) begun at {} returned false, but notify() had returned at {}", k, rd.dur, t0, n.end);
            }
            if (done_before) CREQUIRE(res, "missed-notification", "round {}: notified before the wait, which timed out", k);
            // let the notifiers of this round finish
            uint64_t pause = 1 + W.c.draw(5);
            while (!W.all_done(k + 1))
            {
                ++W.late;
                co_await w.async_sleep(std::chrono::nanoseconds(pause));
                pause *= 4;
            }
            CREQUIRE(W.baton->ready() == (W.done_in(k + 1, false) > 0), "state-lost", "round {}: ready() is {} after {} notifications", k, W.baton->ready(), W.done_in(k + 1, false));
        }
        // the worker is still usable
        const uint64_t t = sim::now_ns();
        auto s = co_await w.async_sleep(std::chrono::nanoseconds(7));
        CREQUIRE(s.has_value() && sim::now_ns() >= t + 7, "worker-broken", "a sleep after the last wait failed or ended early");
        if (W.open_end)
        {
            W.baton = std::make_unique<AsyncBaton>(w);
            W.in_wait = true;
            W.r.done = true;
            co_await W.baton->wait();
            sim::abort_case("spurious-wake", "a wait nobody notified returned");
        }
        W.r.done = true;
    }

    void prop(pbt::Case& c)
    {
        rig::Rig r(c);
        World W{c, r};
        const size_t R = 1 + c.draw(1 + 5 * static_cast<size_t>(c.size) / 100);
        for (size_t k = 0; k < R; ++k)
        {
            Round rd;
            rd.timed = c.weighted({1, 2}) == 1;
            rd.dur = c.weighted({3, 2, 1}) == 0 ? c.draw(30) : c.coin() ? c.draw(2000) : c.pick<uint64_t>({0, 1, 1'000'000'000, 3'600'000'000'000});
            rd.pre = c.weighted({2, 1}) == 0 ? 0 : c.draw(20);
            rd.fresh = c.coin();
            rd.aligned = c.chance(1, 3);
            size_t n = rd.timed ? c.draw(4) : 1 + c.draw(3);
            for (size_t i = 0; i < n; ++i)
            {
                Notifier x;
                x.round = k + 1;
                x.own_thread = c.weighted({3, 1}) == 0;
                x.skip = c.weighted({2, 1, 1}) == 0 ? c.draw(3) : c.coin() ? rd.dur : c.draw(40);
                x.times = 1 + static_cast<int>(c.draw(2));
                W.nots.push_back(x);
            }
            W.rounds.push_back(rd);
            c.note("round {}: {} dur={} pause={} {}{} notifiers", k, rd.timed ? "wait_for" : "wait", rd.dur, rd.pre, rd.fresh ? "new baton, " : "", n);
        }
        W.open_end = c.chance(1, 6);
        WorkerConfig wc;
        wc.default_op_slots = c.pick<size_t>({64, 1, 3});
        sim::Config sc;
        sc.max_batch = c.pick({16u, 1u, 4u});
        auto ready_to_act = [&](Notifier& n) { return !n.done && !n.started && n.own_thread && W.round >= n.round && W.baton; };
#ifdef WITH_FIBERS
        fs_::Sched s(c, 1, 1 + static_cast<unsigned>(c.draw(4)) + 1);
        bool over = false;
        s.stack_size = 512 * 1024;
        sc.tick = [&] { s.point(); };
        sc.idle = [&] {
            return s.yield_other();
        };
        s.add([&] {
            r.run(sc, wc, [&](Worker& w) { program(W, w).detach(); });
            over = true;
        });
        for (auto& n: W.nots)
            if (n.own_thread)
                s.add([&] {
                    s.wait_until([&] { return r.crashed || c.failed || over || ready_to_act(n); });
                    if (!ready_to_act(n)) return;
                    uint64_t skip = n.skip;
                    for (size_t i = 0; i < 3 && c.coin(); ++i) s.yield_other();
                    if (skip) sim::advance_ns(skip);
                    W.act(n);
                });
        try
        {
            s.run();
        }
        catch (const pbt::Failure& f)
        {
            c.soft_fail(f.tag, f.what());
        }
#else
        auto fire = [&](Notifier& n) {
            if (n.skip) sim::advance_ns(n.skip);
            sim::on_helper([&] { W.act(n); });
        };
        sc.tick = [&] {
            for (auto& n: W.nots)
                if (ready_to_act(n) && c.chance(1, 3)) fire(n);
        };
        sc.idle = [&] {
            for (auto& n: W.nots)
                if (ready_to_act(n)) { fire(n); return true; }
            return false;
        };
        r.run(sc, wc, [&](Worker& w) { program(W, w).detach(); });
#endif
        uint64_t active = 0;
        size_t pend = sim::pending(false);
        if (!r.crashed && !c.failed)
        {
            active = r.w->get_stats().active_coroutines;
        }
        if (W.open_end || c.failed) (void) W.baton.release();
        r.finish();
        if (c.failed) return;
        REQUIRE(r.done, "lost-wakeup", "the program stopped in round {}", W.round);
        // operation slots may be held by timers that have not expired yet, by nothing else
        REQUIRE(active <= pend, "slots-leaked", "{} operation slots in use, {} operations pending", active, pend);
        c.note("{} signalled, {} timed out, {} polls after", W.signalled, W.timeouts, W.late);
        if (W.timeouts) c.label("timed out");
        if (W.signalled) c.label("signalled");
#ifdef WITH_FIBERS
        if (s.switches > 4 && !W.nots.empty() && W.rounds.size() > 1) c.nontrivial();
#else
        if (W.timeouts + W.signalled > 1 && !W.nots.empty()) c.nontrivial();
#endif
    }
}  // namespace
PBT_MAIN(prop)
