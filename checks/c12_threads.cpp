// C12, real threads under ThreadSanitizer: what a notifier wrote before
// notify() is what the waiter reads after its wait.
#include "checks/threaded_rig.h"
#include <syscall.h>
#include <thread>
#include "kio/core/worker.h"
#include "kio/core/worker_pool.h"
#include "kio/sync/baton.h"
#include "kio/sync/sync_wait.h"

using namespace kio;
using namespace kio::io;
using kio::sync::AsyncBaton;

namespace
{
    struct Plan
    {
        unsigned timed;     // 0 wait, else microseconds
        unsigned before;    // microseconds the owner lets pass before waiting
        unsigned after;     // microseconds the notifier lets pass
        bool fresh;
    };
    struct Pair
    {
        std::vector<Plan> plan;
        std::unique_ptr<AsyncBaton> baton;
        std::atomic<unsigned> go{0}, gone{0};
        uint64_t payload = 0;  // not atomic on purpose
        std::string err;
        size_t signalled = 0, timeouts = 0;
    };

    Task<void> owner(Worker& w, Pair& p)
    {
        co_await SwitchToWorker(w);
        for (unsigned k = 0; k < p.plan.size() && p.err.empty(); ++k)
        {
            const Plan& q = p.plan[k];
            if (k == 0 || q.fresh) p.baton = std::make_unique<AsyncBaton>(w);
            else p.baton->reset();
            p.go.store(k + 1, std::memory_order_release);
            if (q.before) co_await w.async_sleep(std::chrono::microseconds(q.before));
            bool ok = true;
            if (q.timed) ok = co_await p.baton->wait_for(std::chrono::microseconds(q.timed));
            else co_await p.baton->wait();
            if (!w.is_on_worker_thread()) p.err = "resumed on another thread";
            if (ok)
            {
                ++p.signalled;
                if (p.payload != k + 1) p.err = std::format("round {}: the waiter reads {}", k, p.payload);
            }
            else ++p.timeouts;
            while (p.gone.load(std::memory_order_acquire) != k + 1) co_await w.async_sleep(std::chrono::microseconds(20));
            if (!p.baton->ready()) p.err = std::format("round {}: not ready after notify()", k);
        }
    }
    void notifier(Pair& p)
    {
        for (unsigned k = 0; k < p.plan.size(); ++k)
        {
            while (p.go.load(std::memory_order_acquire) != k + 1)
            {
                if (p.go.load(std::memory_order_acquire) > p.plan.size()) return;
                std::this_thread::yield();
            }
            if (unsigned d = p.plan[k].after; d > 20) std::this_thread::sleep_for(std::chrono::microseconds(d));
            else
                for (unsigned i = 0; i < d * 40; ++i) __builtin_ia32_pause();
            p.payload = k + 1;
            p.baton->notify();
            p.gone.store(k + 1, std::memory_order_release);
        }
    }

    void prop(pbt::Case& c)
    {
        trig::quiet();
        sim::Config sc;
        sc.threaded = true;
        sc.seed = c.draw(1u << 30);
        sim::begin(sc);
        size_t n = 1 + c.draw(3), workers = 1 + c.draw(2), rounds = 0, sig = 0, to = 0;
        std::vector<std::unique_ptr<Pair>> ps;
        for (size_t i = 0; i < n; ++i)
        {
            auto p = std::make_unique<Pair>();
            size_t k = 1 + c.draw(1 + 12 * static_cast<size_t>(c.size) / 100);
            rounds += k;
            for (size_t j = 0; j < k; ++j)
            {
                Plan q;
                unsigned d = static_cast<unsigned>(c.pick<uint64_t>({0, 1, 30, 200}));
                q.timed = c.coin() ? 0 : c.pick({1u, 30u, 100u, 2000u, 1000000u});
                q.before = c.pick({0u, 0u, 1u, 100u});
                q.after = c.coin() ? d : q.before + (q.timed < 3000 ? q.timed : 0);
                q.fresh = c.coin();
                p->plan.push_back(q);
            }
            ps.push_back(std::move(p));
        }
        c.note("{} batons on {} workers, {} rounds", n, workers, rounds);
        std::string err;
        {
            IOPool pool(workers);
            std::vector<std::thread> th;
            for (size_t i = 0; i < n; ++i)
            {
                Pair& p = *ps[i];
                th.emplace_back([&] { notifier(p); });
                th.emplace_back([&, i] { SyncWait(owner(*pool.get_worker(i % workers), p)); p.go.store(1u << 30); });
            }
            for (auto& t: th) t.join();
            for (auto& p: ps)
            {
                if (!p->err.empty()) err = p->err;
                sig += p->signalled;
                to += p->timeouts;
            }
            // batons refer to their workers
            for (auto& p: ps) p->baton.reset();
            pool.stop();
        }
        sim::end();
        REQUIRE(err.empty(), "wrong-data", "{}", err);
        if (to) c.label("timed out");
        if (sig > 2 && rounds > 3) c.nontrivial();
    }
}  // namespace
PBT_MAIN(prop)
