// C05, part 2: every atomic access is a scheduling point chosen by the case.
#include <atomic>
#include <bit>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <memory>
#include <new>
#include <optional>
#include <type_traits>
#include <utility>
#include <vector>
#include "fiber_sched.h"
#define atomic sched_atomic
#include "kio/sync/mpsc_queue.h"
#undef atomic
#include "c05_elem.h"
#include <map>

template<typename T>
static void run(pbt::Case& c)
{
    ledger().reset();
    {
        const size_t want = c.pick<size_t>({2, 1, 4, 8});
        const size_t P = 1 + c.draw(4);
        const size_t K = 1 + c.draw(6);
        const size_t preload = c.draw(want + 1);
        kio::MPSCQueue<T> q(want);
        const size_t cap = q.capacity();
        // shift the ring so that positions wrap
        T sink(0);
        for (size_t i = 0, n = c.draw(2 * cap); i < n; ++i)
        {
            REQUIRE(q.try_push(T(999)) && q.try_pop(sink), "warm-up", "push/pop on an empty queue failed");
        }
        struct P_ { std::vector<uint64_t> ok; size_t popped = 0; };
        std::vector<P_> prod(P + 1);
        // bookkeeping at scheduling-point granularity
        size_t started = 0, freed = 0, completed = 0, popped = 0, in_progress = 0;
        uint64_t stamp_completed = 0;
        (void) stamp_completed;
        for (size_t i = 0; i < preload; ++i)
        {
            if (!q.try_push(T((P << 16) | i))) pbt::fail("push-fails-with-room", "preload");
            prod[P].ok.push_back((P << 16) | i);
            ++started; ++completed;
        }
        fs_::Sched s(c, 1, 1 + static_cast<unsigned>(c.draw(4)) + 1);
        size_t full = 0, empty = 0;
        size_t running = P;
        // active pushes watch the highest occupancy seen while they run
        std::map<size_t, size_t> watch;
        auto observe = [&] {
            for (auto& [id, m]: watch) m = std::max(m, started - freed - 1);
        };
        bool pop_active = false, pop_saw_progress = false;
        for (size_t p = 0; p < P; ++p)
            s.add([&, p] {
                for (size_t k = 0; k < K; ++k)
                {
                    uint64_t v = (p << 16) | (k + 1);
                    T e(v);
                    ++started; ++in_progress;
                    if (pop_active) pop_saw_progress = true;
                    watch[p] = started - freed - 1;
                    observe();
                    bool ok = q.try_push(std::move(e));
                    --in_progress;
                    size_t most = watch[p];
                    watch.erase(p);
                    if (ok)
                    {
                        ++completed;
                        prod[p].ok.push_back(v);
                    }
                    else
                    {
                        --started;
                        ++full;
                        if (most < cap) pbt::fail("push-fails-with-room", std::format("producer {} push {}: at most {} of {} slots were taken", p, k, most, cap));
                        if (!e.intact(v)) pbt::fail("failed-push-changes-argument", std::format("producer {}", p));
                    }
                }
                --running;
            });
        auto take = [&](const T& e) {
            size_t p = e.v >> 16;
            if (p > P) pbt::fail("wrong-element", std::format("popped {:#x}", e.v));
            // an element may be visible to the consumer before its push has returned
            auto& st = prod[p];
            if (!e.intact(e.v)) pbt::fail("wrong-element", std::format("element {:#x} damaged", e.v));
            static std::map<size_t, uint64_t> last;
            (void) st;
            return p;
        };
        std::map<size_t, uint64_t> last;
        std::vector<std::vector<uint64_t>> out(P + 1);
        s.add([&] {
            size_t idle = 0;
            while (running || idle < 2)
            {
                pop_active = true;
                pop_saw_progress = in_progress > 0;
                const size_t outstanding = completed - std::min(completed, popped);
                bool ok = q.try_pop(sink);
                pop_active = false;
                if (ok)
                {
                    ++popped;
                    ++freed;
                    size_t p = take(sink);
                    if (last.count(p) && sink.v <= last[p]) pbt::fail("order", std::format("producer {}: {:#x} after {:#x}", p, sink.v, last[p]));
                    last[p] = sink.v;
                    out[p].push_back(sink.v);
                    idle = 0;
                }
                else
                {
                    ++empty;
                    ++idle;
                    if (outstanding > 0 && !pop_saw_progress) pbt::fail("pop-fails", std::format("{} completed pushes outstanding, none in progress", outstanding));
                    if (idle > 3 && running) fs_::point();
                    if (idle > 60 && c.coin()) break;  // leave elements for the destructor
                }
            }
        });
        s.run();
        size_t left = 0;
        for (size_t p = 0; p <= P; ++p)
        {
            REQUIRE(out[p].size() <= prod[p].ok.size(), "duplicate", "producer {}: {} popped {} pushed", p, out[p].size(), prod[p].ok.size());
            for (size_t i = 0; i < out[p].size(); ++i)
                REQUIRE(out[p][i] == prod[p].ok[i], "lost-or-reordered", "producer {}: element {} is {:#x} expected {:#x}", p, i, out[p][i], prod[p].ok[i]);
            left += prod[p].ok.size() - out[p].size();
        }
        REQUIRE(ledger().error.empty(), "lifetime", "{}", ledger().error);
        // drain some, leave the rest
        while (left && c.chance(2, 3))
        {
            REQUIRE(q.try_pop(sink), "lost", "{} elements missing at the end", left);
            size_t p = sink.v >> 16;
            REQUIRE(p <= P && out[p].size() < prod[p].ok.size() && prod[p].ok[out[p].size()] == sink.v, "lost-or-reordered", "drained {:#x}", sink.v);
            out[p].push_back(sink.v);
            --left;
        }
        if (left == 0) REQUIRE(!q.try_pop(sink), "duplicate", "extra element {:#x}", sink.v);
        c.note("capacity {}, {} producers x {} pushes, {} preloaded: {} refused, {} empty pops, {} switches, {} left", cap, P, K, preload, full, empty, s.switches, left);
        if (full) c.label("push refused");
        if (left) c.label("destroyed non-empty");
        if (s.switches > 5 && P > 1) c.nontrivial();
    }
    REQUIRE(ledger().error.empty(), "lifetime", "{}", ledger().error);
    REQUIRE(ledger().live.empty(), "leak", "{} elements not destroyed", ledger().live.size());
}
static void prop(pbt::Case& c)
{
    if (c.coin()) run<Elem<true>>(c);
    else run<Elem<false>>(c);
}
PBT_MAIN(prop)
