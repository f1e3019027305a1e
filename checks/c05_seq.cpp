// C05, part 1: single-threaded histories against std::deque.
#include "kio/sync/mpsc_queue.h"
#include "c05_elem.h"
#include <deque>

template<typename T>
static void run(pbt::Case& c)
{
    ledger().reset();
    {
        const size_t cap = 1ULL << c.draw(6);
        kio::MPSCQueue<T> q(cap);
        std::deque<uint64_t> model;
        uint64_t next = 1;
        size_t wraps = 0, fulls = 0, empties = 0;
        REQUIRE(q.capacity() >= cap, "capacity", "capacity {} requested {}", q.capacity(), cap);
        const size_t real = q.capacity();
        size_t n = c.steps(300);
        const unsigned bias = 1 + static_cast<unsigned>(c.draw(9));
        T sink(0);
        c.note("capacity {}, push bias {}/10, {} steps", cap, bias, n);
        for (size_t i = 0; i < n; ++i)
        {
            if (c.chance(bias, 10))
            {
                uint64_t x = next++;
                T e(x);
                bool ok = q.try_push(std::move(e));
                REQUIRE(ok == (model.size() < real), ok ? "push-into-full" : "push-fails-with-room", "push {} with {} of {} queued", ok, model.size(), real);
                if (ok) { model.push_back(x); if (x > real) ++wraps; }
                else { REQUIRE(e.intact(x), "failed-push-changes-argument", "argument changed by a failed push"); ++fulls; }
            }
            else
            {
                bool ok = q.try_pop(sink);
                REQUIRE(ok == !model.empty(), ok ? "pop-from-empty" : "pop-fails", "pop {} with {} queued", ok, model.size());
                if (ok)
                {
                    REQUIRE(sink.intact(model.front()), "wrong-element", "popped {} expected {}", sink.v, model.front());
                    model.pop_front();
                }
                else ++empties;
            }
            REQUIRE(q.size_approx() == model.size(), "size", "size {} model {}", q.size_approx(), model.size());
            REQUIRE(ledger().error.empty(), "lifetime", "{}", ledger().error);
        }
        if (fulls) c.label("reached full");
        if (empties) c.label("popped empty");
        if (!model.empty()) c.label("destroyed non-empty");
        if (wraps && fulls && !model.empty()) c.nontrivial();
        c.note("{} pushed, {} refused, {} left at destruction", next - 1, fulls, model.size());
    }
    REQUIRE(ledger().error.empty(), "lifetime", "{}", ledger().error);
    REQUIRE(ledger().live.empty(), "leak", "{} elements not destroyed", ledger().live.size());
}
static void prop(pbt::Case& c)
{
    if (c.coin()) run<Elem<true>>(c);
    else run<Elem<false>>(c);
    size_t n = c.small(1 << 20);
    size_t p = kio::next_power_of_2(n);
    REQUIRE((p & (p - 1)) == 0 && p >= n && p >= 1 && (p == 1 || p / 2 < n), "next-power-of-2", "next_power_of_2({}) = {}", n, p);
}
PBT_MAIN(prop)
