// C05, part 3: real threads under ThreadSanitizer (memory ordering).
#include "kio/sync/mpsc_queue.h"
#include "pbt.h"
#include <thread>

struct Item
{
    uint64_t a = 0, b = 0;
    std::string text;
};
static void prop(pbt::Case& c)
{
    const size_t cap = 1ULL << (1 + c.draw(6));
    const size_t P = 1 + c.draw(4), K = 1 + c.draw(400);
    kio::MPSCQueue<Item> q(cap);
    std::vector<std::thread> t;
    std::vector<size_t> refused(P, 0);
    for (size_t p = 0; p < P; ++p)
        t.emplace_back([&, p] {
            for (size_t k = 0; k < K; ++k)
            {
                Item it{p, k, "payload that is long enough for the heap " + std::to_string(k)};
                while (!q.try_push(std::move(it))) { ++refused[p]; std::this_thread::yield(); }
            }
        });
    std::vector<size_t> next(P, 0);
    std::string bad;
    Item it;
    for (size_t got = 0; got < P * K && bad.empty();)
    {
        if (!q.try_pop(it)) { std::this_thread::yield(); continue; }
        ++got;
        if (it.a >= P || it.b != next[it.a] || it.text != "payload that is long enough for the heap " + std::to_string(it.b))
            bad = std::format("producer {} item {} expected {}", it.a, it.b, it.a < P ? next[it.a] : 0);
        else ++next[it.a];
    }
    if (!bad.empty())
    {
        // unblock the producers
        std::atomic<bool> stop{false};
        std::thread drain([&] { Item x; while (!stop) q.try_pop(x); });
        for (auto& x: t) x.join();
        stop = true;
        drain.join();
        pbt::fail("lost-or-reordered", bad);
    }
    for (auto& x: t) x.join();
    REQUIRE(!q.try_pop(it), "duplicate", "extra element");
    c.note("capacity {}, {} producers x {}", cap, P, K);
    if (P > 1 && K > 20) c.nontrivial();
}
PBT_MAIN(prop)
