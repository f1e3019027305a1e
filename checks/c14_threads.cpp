// C14, real threads under ThreadSanitizer: tasks that finish on different workers.
#include "checks/threaded_rig.h"
#include <thread>
#include "kio/core/worker_pool.h"
#include "kio/sync/sync_wait.h"
#include "kio/sync/when_any.h"

using namespace kio;
using namespace kio::io;
using kio::sync::when_any;

namespace
{
    struct Plan
    {
        size_t worker;
        unsigned us;
        bool throws;
    };
    struct Tally
    {
        std::atomic<size_t> started{0}, finished{0}, released{0};
        std::array<std::atomic<bool>, 4> done{};
        std::array<uint64_t, 4> payload{};  // not atomic on purpose
    };
    struct Release
    {
        std::shared_ptr<Tally> t;
        ~Release() { t->released.fetch_add(1, std::memory_order_release); }
    };
    Task<void> task(IOPool& pool, Plan p, size_t i, std::shared_ptr<Tally> t)
    {
        Release rel{t};
        t->started.fetch_add(1);
        Worker& w = *pool.get_worker(p.worker);
        co_await SwitchToWorker(w);
        if (p.us) (void) co_await w.async_sleep(std::chrono::microseconds(p.us));
        t->payload[i] = i + 100;
        t->done[i].store(true, std::memory_order_relaxed);
        t->finished.fetch_add(1);
        if (p.throws) throw std::runtime_error("x");
    }
    Task<std::string> call(IOPool& pool, size_t home, const std::vector<Plan>& ps, std::shared_ptr<Tally> t)
    {
        Worker& w = *pool.get_worker(home);
        co_await SwitchToWorker(w);
        size_t i;
        if (ps.size() == 1) i = co_await when_any(w, task(pool, ps[0], 0, t));
        else if (ps.size() == 2) i = co_await when_any(w, task(pool, ps[0], 0, t), task(pool, ps[1], 1, t));
        else if (ps.size() == 3) i = co_await when_any(w, task(pool, ps[0], 0, t), task(pool, ps[1], 1, t), task(pool, ps[2], 2, t));
        else i = co_await when_any(w, task(pool, ps[0], 0, t), task(pool, ps[1], 1, t), task(pool, ps[2], 2, t), task(pool, ps[3], 3, t));
        if (!w.is_on_worker_thread()) co_return "when_any returned on another thread";
        if (i >= ps.size()) co_return "when_any returned a bad index";
        if (!t->done[i].load(std::memory_order_relaxed)) co_return std::format("when_any returned {}, which has not finished", i);
        if (t->payload[i] != i + 100) co_return "the effects of the winner are not visible";
        co_return "";
    }

    void prop(pbt::Case& c)
    {
        trig::quiet();
        sim::Config sc;
        sc.threaded = true;
        sc.seed = c.draw(1u << 30);
        sim::begin(sc);
        const size_t workers = 1 + c.draw(3), calls = 1 + c.draw(1 + 8 * static_cast<size_t>(c.size) / 100);
        std::vector<std::vector<Plan>> plans;
        std::vector<size_t> home;
        size_t total = 0;
        for (size_t k = 0; k < calls; ++k)
        {
            std::vector<Plan> ps;
            size_t n = 1 + c.draw(4);
            unsigned base = c.pick({0u, 30u, 200u});
            for (size_t i = 0; i < n; ++i) ps.push_back({c.draw(workers), c.coin() ? base : static_cast<unsigned>(c.draw(200)), c.chance(1, 6)});
            total += n;
            plans.push_back(ps);
            home.push_back(c.draw(workers));
        }
        c.note("{} workers, {} calls, {} tasks", workers, calls, total);
        std::vector<std::string> errs(calls);
        std::vector<std::shared_ptr<Tally>> ts;
        for (size_t k = 0; k < calls; ++k) ts.push_back(std::make_shared<Tally>());
        {
            IOPool pool(workers);
            std::vector<std::thread> th;
            for (size_t k = 0; k < calls; ++k)
                th.emplace_back([&, k] { errs[k] = SyncWait(call(pool, home[k], plans[k], ts[k])); });
            for (auto& t: th) t.join();
            for (size_t k = 0; k < calls; ++k)
                for (int spin = 0; ts[k]->released.load(std::memory_order_acquire) < plans[k].size(); ++spin)
                {
                    if (spin > 100000)
                    {
                        errs[k] = std::format("{} of {} tasks finished, {} released", ts[k]->finished.load(), plans[k].size(), ts[k]->released.load());
                        break;
                    }
                    std::this_thread::sleep_for(std::chrono::microseconds(100));
                }
            pool.stop();
        }
        sim::end();
        for (size_t k = 0; k < calls; ++k)
        {
            REQUIRE(errs[k].empty(), "wrong-result", "call {}: {}", k, errs[k]);
            REQUIRE(ts[k]->started == plans[k].size() && ts[k]->finished == plans[k].size(), "not-started", "call {}: {} started, {} finished", k, ts[k]->started.load(), ts[k]->finished.load());
        }
        if (workers > 1 && total > 3) c.nontrivial();
    }
}  // namespace
PBT_MAIN(prop)
