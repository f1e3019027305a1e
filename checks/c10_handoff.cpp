// C10: work handed to a worker from any thread runs there, once, in order.
// Built twice: with fibers that pose as threads (std::this_thread::get_id is
// theirs) and switch at every atomic access of the hand-off queue and around
// the wake-up write; without, a second thread hands over at chosen moments,
// under AddressSanitizer.
#ifdef WITH_FIBERS
#include "sim/fiber_sched.h"
#include "sim/poison.h"
#endif
#include "checks/worker_rig.h"
#include <sys/syscall.h>

using namespace kio;
using namespace kio::io;

#ifdef WITH_FIBERS
extern "C" pthread_t pthread_self(void) noexcept
{
    const auto real = reinterpret_cast<pthread_t>(__builtin_thread_pointer());
    auto* s = fs_::Sched::active();
    if (s && s->owner == real && s->cur > 0) return real + static_cast<pthread_t>(s->cur);
    return real;
}
extern "C" ssize_t write(int fd, const void* p, size_t n)
{
    const bool wake = n == 8 && fs_::Sched::active() && fs_::Sched::active()->owner == reinterpret_cast<pthread_t>(__builtin_thread_pointer());
    if (wake) fs_::point();
    ssize_t r = syscall(SYS_write, fd, p, n);
    if (wake)
    {
        int e = errno;
        fs_::point();
        errno = e;
    }
    return r;
}
#endif

namespace
{
    struct Item
    {
        size_t producer, seq;
        int kind;        // 0 detached, 1 within a task, 2 within a task of a task
        uint64_t sleep;  // afterwards, on the worker
        bool again;      // switches again once there
        int ran = 0;
        bool ended = false;
    };
    struct World
    {
        pbt::Case& c;
        rig::Rig& r;
        std::vector<std::vector<Item>> items;
        std::vector<long> last;
        std::vector<size_t> handed;
        size_t outstanding = 0, posting = 0, most = 0, finished = 0, total = 0, capacity = 0;
        uint64_t steps = 0;  // moves of the worker loop
        std::function<bool()> on_worker;
        bool went_idle = false;
        size_t woke = 0, local = 0;

        void arrived(Item& it)
        {
            --outstanding;
            CREQUIRE(on_worker(), "wrong-thread", "item {}.{} continued elsewhere than on the worker", it.producer, it.seq);
            CREQUIRE(it.ran == 0, "ran-twice", "item {}.{} continued {} times", it.producer, it.seq, it.ran + 1);
            ++it.ran;
            CREQUIRE(last[it.producer] == static_cast<long>(it.seq) - 1, "out-of-order", "producer {}: hand-off {} ran after {}", it.producer, it.seq, last[it.producer]);
            last[it.producer] = static_cast<long>(it.seq);
            if (went_idle) ++woke;
        }
        void leave()
        {
            ++outstanding;
            most = std::max(most, outstanding);
        }
    };

    Task<int> inner(World& W, Worker& w, Item& it, int depth)
    {
        if (depth > 0) co_return co_await inner(W, w, it, depth - 1) + 1;
        W.leave();
        co_await SwitchToWorker(w);
        W.arrived(it);
        co_return 1;
    }
    DetachedTask hop(World& W, Worker& w, Item& it)
    {
        if (it.kind == 0)
        {
            W.leave();
            co_await SwitchToWorker(w);
            W.arrived(it);
        }
        else
        {
            int v = co_await inner(W, w, it, it.kind - 1);
            CREQUIRE(v == it.kind, "wrong-value", "the task that switched returned {}, not {}", v, it.kind);
        }
        CREQUIRE(W.on_worker(), "wrong-thread", "item {}.{} left the worker", it.producer, it.seq);
        if (it.again)
        {
            const uint64_t s = W.steps;
            co_await SwitchToWorker(w);
            CREQUIRE(W.steps == s, "delayed", "switching to the worker it runs on was delayed");
        }
        if (it.sleep)
        {
            (void) co_await w.async_sleep(std::chrono::nanoseconds(it.sleep));
            CREQUIRE(W.on_worker(), "wrong-thread", "item {}.{} left the worker in a sleep", it.producer, it.seq);
        }
        it.ended = true;
        if (++W.finished == W.total) W.r.done = true;
    }
    DetachedTask busy(World& W, Worker& w, std::vector<uint64_t> d)
    {
        for (auto x: d)
        {
            (void) co_await w.async_sleep(std::chrono::nanoseconds(x));
            const uint64_t s = W.steps;
            co_await SwitchToWorker(w);
            CREQUIRE(W.steps == s, "delayed", "switching to the worker it runs on was delayed");
            ++W.local;
        }
    }

    void prop(pbt::Case& c)
    {
        rig::Rig r(c);
        World W{c, r};
        WorkerConfig wc;
        wc.task_queue_capacity = W.capacity = c.pick<size_t>({1024, 1, 2, 4, 16});
        wc.uring_queue_depth = c.pick<size_t>({1024, 1, 2, 8});
        wc.default_op_slots = c.pick<size_t>({64, 1});
        const size_t P = 1 + c.draw(4);
        for (size_t p = 0; p < P; ++p)
        {
            std::vector<Item> v;
            size_t n = c.draw(2 + 12 * static_cast<size_t>(c.size) / 100);
            for (size_t i = 0; i < n; ++i)
            {
                Item it{};
                it.producer = p;
                it.seq = i;
                it.kind = static_cast<int>(c.weighted({3, 1, 1}));
                it.sleep = c.chance(1, 4) ? c.draw(30) : 0;
                it.again = c.chance(1, 4);
                v.push_back(it);
            }
            W.total += n;
            W.items.push_back(v);
            c.note("producer {}: {} hand-offs", p, n);
        }
        W.last.assign(P, -1);
        W.handed.assign(P, 0);
        std::vector<std::vector<uint64_t>> load(c.draw(4));
        for (auto& l: load)
            for (size_t n = c.draw(6); n--;) l.push_back(c.draw(20));
        c.note("queue of {}, ring of {}, {} busy coroutines", W.capacity, wc.uring_queue_depth, load.size());
        sim::Config sc;
        sc.max_batch = c.pick({16u, 1u, 4u});
        sc.eintr_per_mille = c.pick({0u, 0u, 50u});
        auto may = [&](size_t p) { return W.handed[p] < W.items[p].size() && W.outstanding < W.capacity && r.w; };
        auto asleep = [&] {
            if (W.posting == 0 && W.outstanding > 0)
                sim::abort_case("sleeps-on-work", std::format("the worker sleeps while {} hand-offs wait", W.outstanding));
            W.went_idle = true;
        };
        if (W.total == 0) r.done = true;
        auto start = [&](Worker& w) {
            for (auto& l: load) busy(W, w, l).detach();
        };
#ifdef WITH_FIBERS
        fs_::Sched s(c, 1, 2 + static_cast<unsigned>(c.draw(4)));
        s.owner = reinterpret_cast<pthread_t>(__builtin_thread_pointer());
        bool over = false;
        s.stack_size = 512 * 1024;
        W.on_worker = [&] { return s.cur == 0; };
        sc.tick = [&] { ++W.steps; s.point(); };
        sc.idle = [&] {
            asleep();
            return s.yield_other();
        };
        s.add([&] {
            r.run(sc, wc, start);
            over = true;
        });
        for (size_t p = 0; p < P; ++p)
            s.add([&, p] {
                for (;;)
                {
                    s.wait_until([&] { return r.crashed || c.failed || over || W.handed[p] == W.items[p].size() || may(p); });
                    if (r.crashed || c.failed || over || !may(p)) return;
                    size_t i = W.handed[p]++;
                    ++W.posting;
                    hop(W, *r.w, W.items[p][i]).detach();
                    --W.posting;
                    if (c.chance(1, 3)) s.yield_other();
                }
            });
        try
        {
            s.run();
        }
        catch (const pbt::Failure& f)
        {
            c.soft_fail(f.tag, f.what());
        }
        const bool mixed = s.switches > 4;
#else
        static thread_local bool helper = false;
        W.on_worker = [&] { return !helper; };
        auto fire = [&](size_t p) {
            size_t i = W.handed[p]++;
            sim::on_helper([&] {
                helper = true;
                hop(W, *r.w, W.items[p][i]).detach();
                helper = false;
            });
        };
        sc.tick = [&] {
            ++W.steps;
            for (size_t p = 0; p < P; ++p)
                while (may(p) && c.chance(1, 4)) fire(p);
        };
        sc.idle = [&] {
            asleep();
            for (size_t p = 0; p < P; ++p)
                if (may(p)) { fire(p); return true; }
            return false;
        };
        r.run(sc, wc, start);
        const bool mixed = true;
#endif
        r.finish();
        if (c.failed) return;
        REQUIRE(r.done && W.finished == W.total, "lost", "{} of {} hand-offs ran to their end", W.finished, W.total);
        for (auto& v: W.items)
            for (auto& it: v) REQUIRE(it.ran == 1 && it.ended, "lost", "hand-off {}.{} ran {} times", it.producer, it.seq, it.ran);
        c.note("{} woke a sleeping worker, at most {} waiting", W.woke, W.most);
        if (W.woke) c.label("woke an idle worker");
        if (W.most == W.capacity) c.label("queue full");
        if (mixed && W.total > 3 && P > 1) c.nontrivial();
    }
}  // namespace
PBT_MAIN(prop)
