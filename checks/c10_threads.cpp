// C10, real threads under ThreadSanitizer: coroutines travel between workers;
// each worker's plain counters are touched only by what runs on it.
#include "checks/threaded_rig.h"
#include <thread>
#include "kio/core/worker_pool.h"
#include "kio/sync/sync_wait.h"

using namespace kio;
using namespace kio::io;

namespace
{
    struct PerWorker
    {
        uint64_t visits = 0;          // not atomic on purpose
        std::vector<long> last;       // per producer: last first-hop seen
        uint64_t disorder = 0, wrong = 0;
    };
    struct Shared
    {
        IOPool* pool;
        std::vector<PerWorker> per;
        std::atomic<size_t> finished{0};
    };
    DetachedTask travel(Shared& s, size_t producer, long seq, std::vector<size_t> route, bool sleepy)
    {
        std::vector<uint64_t> luggage{1, 2, 3};
        for (size_t k = 0; k < route.size(); ++k)
        {
            Worker& w = *s.pool->get_worker(route[k]);
            co_await SwitchToWorker(w);
            PerWorker& p = s.per[route[k]];
            ++p.visits;
            if (!w.is_on_worker_thread()) ++p.wrong;
            luggage.push_back(k);
            if (k == 0)
            {
                if (p.last[producer] >= seq) ++p.disorder;
                p.last[producer] = seq;
            }
            if (sleepy && k % 2) (void) co_await w.async_sleep(std::chrono::microseconds(20));
            if (luggage.size() != 4 + k) ++p.wrong;
        }
        s.finished.fetch_add(1, std::memory_order_release);
    }

    void prop(pbt::Case& c)
    {
        trig::quiet();
        sim::Config sc;
        sc.threaded = true;
        sc.seed = c.draw(1u << 30);
        sim::begin(sc);
        const size_t W = 1 + c.draw(3), P = 1 + c.draw(4);
        struct Trip
        {
            std::vector<size_t> route;
            bool sleepy;
        };
        std::vector<std::vector<Trip>> plans(P);
        size_t total = 0;
        std::vector<uint64_t> visits(W, 0);
        for (auto& p: plans)
            for (size_t n = c.draw(2 + 20 * static_cast<size_t>(c.size) / 100); n--;)
            {
                Trip t;
                for (size_t k = 1 + c.draw(6); k--;) t.route.push_back(c.draw(W));
                for (auto x: t.route) ++visits[x];
                t.sleepy = c.chance(1, 4);
                p.push_back(t);
                ++total;
            }
        c.note("{} workers, {} threads, {} coroutines", W, P, total);
        Shared s;
        s.per.resize(W);
        for (auto& p: s.per) p.last.assign(P, -1);
        std::string err;
        {
            IOPool pool(W);
            s.pool = &pool;
            std::vector<std::thread> th;
            for (size_t p = 0; p < P; ++p)
                th.emplace_back([&, p] {
                    for (size_t i = 0; i < plans[p].size(); ++i) travel(s, p, static_cast<long>(i), plans[p][i].route, plans[p][i].sleepy).detach();
                });
            for (auto& t: th) t.join();
            for (int spin = 0; s.finished.load(std::memory_order_acquire) < total; ++spin)
            {
                if (spin > 100000) { err = std::format("{} of {} coroutines arrived", s.finished.load(), total); break; }
                std::this_thread::sleep_for(std::chrono::microseconds(100));
            }
            pool.stop();
        }
        sim::end();
        REQUIRE(err.empty(), "lost", "{}", err);
        for (size_t w = 0; w < W; ++w)
        {
            REQUIRE(s.per[w].visits == visits[w], "lost", "worker {} was visited {} times, not {}", w, s.per[w].visits, visits[w]);
            REQUIRE(s.per[w].wrong == 0, "wrong-thread", "{} visits of worker {} ran elsewhere", s.per[w].wrong, w);
            REQUIRE(s.per[w].disorder == 0, "out-of-order", "{} hand-offs to worker {} overtook earlier ones of their thread", s.per[w].disorder, w);
        }
        if (W > 1 && P > 1 && total > 5) c.nontrivial();
    }
}  // namespace
PBT_MAIN(prop)
