// C14: when_any reports the first task to finish and lets the rest run.
#include "checks/worker_rig.h"
#include "kio/sync/baton.h"
#include "kio/sync/when_any.h"

using namespace kio;
using namespace kio::io;
using kio::sync::AsyncBaton;
using kio::sync::when_any;

namespace
{
    struct Step
    {
        int kind;  // 0 sleep, 1 nested task, 2 switch to the same worker, 3 wait for the baton of a group, 4 notify it, 5 nested when_any
        uint64_t arg;
    };
    struct Plan
    {
        std::vector<Step> steps;
        bool throws = false, value = false;
    };
    struct Group
    {
        std::vector<Plan> plans;
        std::vector<size_t> order;  // tasks in the order they finished
        std::vector<int> runs;
        std::unique_ptr<AsyncBaton> baton;
        uint64_t pause = 0;
        bool stored = false, returned = false;
        size_t live = 0, caught = 0;
    };
    struct World
    {
        pbt::Case& c;
        rig::Rig& r;
        std::vector<std::unique_ptr<Group>> gs;
        size_t finished_callers = 0, losers_later = 0, immediate = 0, thrown_wins = 0;
    };
    struct Boom
    {
        int v;
    };
    struct Counted
    {
        size_t& n;
        explicit Counted(size_t& x) : n(x) { ++n; }
        ~Counted() { --n; }
        Counted(const Counted&) = delete;
    };

    Task<int> nested(Worker& w, uint64_t d, int depth)
    {
        if (depth > 0) co_return co_await nested(w, d, depth - 1) + 1;
        if (d) (void) co_await w.async_sleep(std::chrono::nanoseconds(d));
        co_return 0;
    }
    Task<void> run_steps(World& W, Worker& w, Group& g, const Plan& p)
    {
        for (auto& s: p.steps)
            switch (s.kind)
            {
                case 0: (void) co_await w.async_sleep(std::chrono::nanoseconds(s.arg)); break;
                case 1: CREQUIRE(co_await nested(w, s.arg, 3) == 3, "nested-task", "wrong value"); break;
                case 2: co_await SwitchToWorker(w); break;
                case 3: if (!g.baton->ready()) co_await g.baton->wait(); break;
                case 4: g.baton->notify(); break;
                default:
                {
                    size_t i = co_await when_any(w, nested(w, s.arg, 1), nested(w, s.arg / 2 + 1, 0));
                    CREQUIRE(i < 2, "bad-index", "nested when_any returned {}", i);
                }
            }
    }
    Task<void> task_void(World& W, Worker& w, Group& g, size_t i)
    {
        Counted held(g.live);
        ++g.runs[i];
        co_await run_steps(W, w, g, g.plans[i]);
        g.order.push_back(i);
        if (g.plans[i].throws) throw std::runtime_error("task failed");
    }
    Task<std::string> task_value(World& W, Worker& w, Group& g, size_t i)
    {
        Counted held(g.live);
        ++g.runs[i];
        co_await run_steps(W, w, g, g.plans[i]);
        g.order.push_back(i);
        if (g.plans[i].throws) throw Boom{1};
        co_return "a result that does not fit the small string buffer";
    }
    Task<size_t> start(World& W, Worker& w, Group& g)
    {
        auto v = [&](size_t i) { return task_void(W, w, g, i); };
        auto s = [&](size_t i) { return task_value(W, w, g, i); };
        switch (g.plans.size())
        {
            case 1: return g.plans[0].value ? when_any(w, s(0)) : when_any(w, v(0));
            case 2: return g.plans[0].value ? when_any(w, s(0), v(1)) : when_any(w, v(0), s(1));
            case 3: return when_any(w, v(0), s(1), v(2));
            case 4: return when_any(w, s(0), s(1), v(2), v(3));
            case 5: return when_any(w, v(0), v(1), v(2), v(3), s(4));
            default: return when_any(w, v(0), s(1), v(2), v(3), s(4), v(5), s(6));
        }
    }
    Task<size_t> awaited_at_once(World& W, Worker& w, Group& g)
    {
        auto v = [&](size_t i) { return task_void(W, w, g, i); };
        auto s = [&](size_t i) { return task_value(W, w, g, i); };
        switch (g.plans.size())
        {
            case 1: co_return co_await when_any(w, v(0));
            case 2: co_return co_await when_any(w, v(0), v(1));
            case 3: co_return co_await when_any(w, s(0), v(1), s(2));
            case 4: co_return co_await when_any(w, v(0), s(1), v(2), s(3));
            case 5: co_return co_await when_any(w, s(0), s(1), s(2), s(3), s(4));
            default: co_return co_await when_any(w, v(0), s(1), v(2), v(3), s(4), v(5), v(6));
        }
    }
    DetachedTask caller(World& W, Worker& w, Group& g)
    {
        if (g.pause) (void) co_await w.async_sleep(std::chrono::nanoseconds(g.pause));
        g.baton = std::make_unique<AsyncBaton>(w);
        size_t idx;
        if (g.stored)
        {
            auto t = start(W, w, g);
            CREQUIRE(g.order.empty(), "started-early", "a task ran before when_any was awaited");
            idx = co_await t;
        }
        else idx = co_await awaited_at_once(W, w, g);
        CREQUIRE(!g.returned, "returned-twice", "when_any returned twice");
        g.returned = true;
        CREQUIRE(idx < g.plans.size(), "bad-index", "when_any of {} tasks returned {}", g.plans.size(), idx);
        CREQUIRE(!g.order.empty(), "returned-early", "when_any returned {} before any task had finished", idx);
        CREQUIRE(g.order[0] == idx, "wrong-winner", "when_any returned {}, but task {} finished first", idx, g.order[0]);
        for (size_t i = 0; i < g.plans.size(); ++i) CREQUIRE(g.runs[i] == 1, "not-started", "task {} was started {} times", i, g.runs[i]);
        if (g.plans[idx].throws) ++W.thrown_wins;
        size_t then = g.order.size();
        if (then == g.plans.size()) ++W.immediate;
        else ++W.losers_later;
        uint64_t pause = 1;
        while (g.order.size() < g.plans.size() || g.live)
        {
            (void) co_await w.async_sleep(std::chrono::nanoseconds(pause));
            pause *= 2;
            if (pause > 1ULL << 45) sim::abort_case("loser-lost", std::format("{} of {} tasks finished, {} still hold their resources", g.order.size(), g.plans.size(), g.live));
        }
        for (size_t i = 0; i < g.plans.size(); ++i) CREQUIRE(g.runs[i] == 1, "not-started", "task {} was started {} times", i, g.runs[i]);
        if (++W.finished_callers == W.gs.size()) W.r.done = true;
    }

    void prop(pbt::Case& c)
    {
        rig::Rig r(c);
        World W{c, r};
        const size_t G = 1 + c.draw(4);
        for (size_t k = 0; k < G; ++k)
        {
            auto g = std::make_unique<Group>();
            size_t n = 1 + c.draw(6);
            if (n == 6) n = 7;
            g->pause = c.coin() ? 0 : c.draw(30);
            g->stored = c.coin();
            bool everyone_waits = true;
            uint64_t base = c.draw(50);
            for (size_t i = 0; i < n; ++i)
            {
                Plan p;
                size_t m = c.draw(4);
                bool waits = false;
                for (size_t j = 0; j < m; ++j)
                {
                    Step s;
                    s.kind = static_cast<int>(c.weighted({4, 2, 1, 1, 1, 1}));
                    if (s.kind == 3 && i == 0) s.kind = 0;  // task 0 never waits, and notifies
                    waits |= s.kind == 3;
                    s.arg = c.coin() ? base : c.draw(60);
                    p.steps.push_back(s);
                }
                // only one task may wait for a baton
                if (waits && !everyone_waits)
                    for (auto& s: p.steps)
                        if (s.kind == 3) s.kind = 0;
                if (waits) everyone_waits = false;
                if (i == 0) p.steps.push_back({4, 0});
                p.throws = c.chance(1, 5);
                p.value = c.coin();
                g->plans.push_back(p);
                std::string d;
                for (auto& s: p.steps) d += std::format(" {}:{}", std::array{"sleep", "nested", "switch", "wait", "notify", "any"}[static_cast<size_t>(s.kind)], s.arg);
                c.note("group {} task {}:{}{}", k, i, d, p.throws ? " throws" : "");
            }
            g->runs.assign(n, 0);
            W.gs.push_back(std::move(g));
        }
        WorkerConfig wc;
        wc.default_op_slots = c.pick<size_t>({64, 1, 3});
        sim::Config sc;
        sc.reorder = true;
        sc.max_batch = c.pick({16u, 1u, 4u});
        sc.timers_compete = true;
        r.run(sc, wc, [&](Worker& w) {
            for (auto& g: W.gs) caller(W, w, *g).detach();
        });
        uint64_t active = 0;
        const size_t pend = sim::pending(false);  // losers of nested calls may still sleep
        if (!r.crashed && !c.failed) active = r.w->get_stats().active_coroutines;
        if (c.failed)
            for (auto& g: W.gs) (void) g.release();
        r.finish();
        if (c.failed) return;
        REQUIRE(r.done, "never-returned", "{} of {} when_any calls returned", W.finished_callers, W.gs.size());
        REQUIRE(active <= pend, "slots-leaked", "{} operation slots in use, {} operations pending", active, pend);
        if (W.thrown_wins) c.label("winner threw");
        if (W.losers_later) c.nontrivial();
    }
}  // namespace
PBT_MAIN(prop)
