// C13, real threads under ThreadSanitizer: waiters on several threads, each
// resumed exactly once on the owner, after a notification whose effects it sees.
#include "checks/threaded_rig.h"
#include <thread>
#include "kio/core/worker_pool.h"
#include "kio/sync/event.h"
#include "kio/sync/sync_wait.h"

using namespace kio;
using namespace kio::io;
using kio::sync::AsyncEvent;

namespace
{
    struct Shared
    {
        std::unique_ptr<AsyncEvent> ev;
        Worker* owner = nullptr;
        std::atomic<size_t> resumed{0}, wrong{0}, stale{0}, blocked{0};
        uint64_t payload = 0;  // not atomic on purpose
        uint64_t expect = 0;
    };

    DetachedTask waiter(Shared& s, uint64_t expect, bool worker_side)
    {
        if (worker_side) co_await SwitchToWorker(*s.owner);
        const auto before = std::this_thread::get_id();
        co_await s.ev->wait();
        if (s.payload != expect) s.stale.fetch_add(1, std::memory_order_relaxed);
        if (std::this_thread::get_id() != before && !s.owner->is_on_worker_thread()) s.wrong.fetch_add(1, std::memory_order_relaxed);
        s.resumed.fetch_add(1, std::memory_order_release);
    }

    void prop(pbt::Case& c)
    {
        trig::quiet();
        sim::Config sc;
        sc.threaded = true;
        sc.seed = c.draw(1u << 30);
        sim::begin(sc);
        const size_t threads = 1 + c.draw(4), rounds = 1 + c.draw(1 + 6 * static_cast<size_t>(c.size) / 100);
        struct Round
        {
            std::vector<unsigned> waiters;  // per thread
            unsigned delay, mode;
            bool again, fresh;
        };
        std::vector<Round> plan(rounds);
        size_t total = 0;
        for (auto& r: plan)
        {
            for (size_t t = 0; t < threads; ++t) r.waiters.push_back(static_cast<unsigned>(c.draw(9)));
            for (auto n: r.waiters) total += n;
            r.delay = c.pick({0u, 0u, 5u, 50u});
            r.mode = static_cast<unsigned>(c.draw(4));
            r.again = c.coin();
            r.fresh = c.chance(1, 3);
        }
        c.note("{} threads, {} rounds, {} waiters", threads, rounds, total);
        std::string err;
        Shared s;
        {
            IOPool pool(1);
            s.owner = pool.get_worker(0);
            for (size_t k = 0; k < rounds && err.empty(); ++k)
            {
                auto& r = plan[k];
                if (k == 0 || r.fresh) s.ev = std::make_unique<AsyncEvent>(*s.owner);
                else s.ev->reset();
                s.resumed = 0;
                std::vector<std::thread> th;
                std::atomic<int> armed{0};
                size_t want = 0;
                for (size_t t = 0; t < threads; ++t)
                {
                    want += r.waiters[t];
                    th.emplace_back([&, t] {
                        armed.fetch_add(1, std::memory_order_relaxed);
                        for (unsigned i = 0; i < r.waiters[t]; ++i) waiter(s, k + 1, (r.mode >> (i & 1)) & 1).detach();
                    });
                }
                for (unsigned i = 0; i < r.delay * 40; ++i) __builtin_ia32_pause();
                s.payload = k + 1;
                std::thread second;
                s.ev->notify();
                if (r.again) second = std::thread([&] { s.ev->notify(); });
                for (auto& t: th) t.join();
                if (second.joinable()) second.join();
                for (int spin = 0; s.resumed.load(std::memory_order_acquire) < want; ++spin)
                {
                    if (spin > 100000) { err = std::format("round {}: {} of {} waiters resumed", k, s.resumed.load(), want); break; }
                    std::this_thread::sleep_for(std::chrono::microseconds(100));
                }
                if (!s.ev->is_set()) err = std::format("round {}: not set after notify()", k);
                // everything posted has been handled when a later hand-off has run
                SyncWait([](Worker& w) -> Task<void> { co_await SwitchToWorker(w); }(*s.owner));
                if (s.resumed.load() != want) err = std::format("round {}: {} resumptions for {} waiters", k, s.resumed.load(), want);
            }
            s.ev.reset();
            pool.stop();
        }
        sim::end();
        REQUIRE(err.empty(), "lost-waiter", "{}", err);
        REQUIRE(s.wrong == 0, "wrong-thread", "{} waiters resumed on another thread than the owner", s.wrong.load());
        REQUIRE(s.stale == 0, "stale-data", "{} waiters did not see what the notifier wrote", s.stale.load());
        if (total > 5 && rounds > 1 && threads > 1) c.nontrivial();
    }
}  // namespace
PBT_MAIN(prop)
