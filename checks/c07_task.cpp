// C07: random trees of tasks against a recursive evaluation.
#include <cstdint>
#include <syscall.h>
#include <condition_variable>
#include <deque>
#include <thread>
#include "kio/core/coro.h"
#include "kio/sync/sync_wait.h"
#include "pbt.h"

using kio::SyncWait;
using kio::Task;

namespace
{
    std::atomic<int64_t> g_live{0};
    std::atomic<uint64_t> g_bad{0};
    struct Tracker
    {
        uint64_t magic = 0x1234;
        Tracker() { ++g_live; }
        Tracker(const Tracker&) { ++g_live; }
        Tracker(Tracker&&) noexcept { ++g_live; }
        Tracker& operator=(const Tracker&) = default;
        ~Tracker()
        {
            if (magic != 0x1234) ++g_bad;
            magic = 0xdead;
            --g_live;
        }
    };
    struct Boom : std::runtime_error
    {
        uint64_t id;
        Tracker t;
        explicit Boom(uint64_t i) : std::runtime_error("boom"), id(i) {}
    };
    // threads that resume suspended coroutines
    struct Pool
    {
        std::mutex m;
        std::condition_variable cv;
        std::deque<std::coroutine_handle<>> q;
        std::vector<std::thread> th;
        bool stop = false;
        explicit Pool(size_t n)
        {
            for (size_t i = 0; i < n; ++i)
                th.emplace_back([this] {
                    for (;;)
                    {
                        std::coroutine_handle<> h;
                        {
                            std::unique_lock l(m);
                            cv.wait(l, [&] { return stop || !q.empty(); });
                            if (q.empty()) return;
                            h = q.front();
                            q.pop_front();
                        }
                        h.resume();
                    }
                });
        }
        ~Pool()
        {
            {
                std::lock_guard l(m);
                stop = true;
            }
            cv.notify_all();
            for (auto& t: th) t.join();
        }
        void post(std::coroutine_handle<> h)
        {
            {
                std::lock_guard l(m);
                q.push_back(h);
            }
            cv.notify_one();
        }
    };
    struct Hop
    {
        Pool& p;
        bool await_ready() const noexcept { return false; }
        void await_suspend(std::coroutine_handle<> h) { p.post(h); }
        void await_resume() const noexcept {}
    };

    enum Kind { Int, Str, Ptr, Void, NoDef };
    struct Value  // not default constructible, move only
    {
        uint64_t v;
        std::unique_ptr<int> own;
        Tracker t;
        explicit Value(uint64_t x) : v(x), own(new int(1)) {}
        Value(Value&&) = default;
        Value& operator=(Value&&) = default;
    };
    struct Node
    {
        Kind kind = Int;
        uint64_t id = 0;
        bool throws = false;
        int hops_before = 0, hops_after = 0;
        std::vector<Node> kids;
        std::vector<int> mode;  // per child: 0 await, 1 await and catch, 2 drop, 3 move then await, 4 move-assign over a started-never task, then await
        std::atomic<int>* runs = nullptr;
        size_t index = 0;
    };
    struct Outcome
    {
        bool threw;
        uint64_t v;
    };
    // reference: value = id + sum of kid values (caught exceptions contribute their id * 3)
    Outcome eval(const Node& n, std::vector<int>& runs)
    {
        ++runs[n.index];
        uint64_t v = n.id;
        for (size_t i = 0; i < n.kids.size(); ++i)
        {
            if (n.mode[i] == 2) continue;
            auto o = eval(n.kids[i], runs);
            if (o.threw)
            {
                if (n.mode[i] != 1) return o;
                v += o.v * 3;
            }
            else v += o.v;
        }
        if (n.throws) return {true, n.id};
        if (n.kind == Void) return {false, 0};
        return {false, v};
    }

    struct Env
    {
        Pool* pool;
        std::atomic<int>* runs;
    };

    template<typename T>
    Task<T> body(Env& e, const Node& n, Tracker arg);

    Task<uint64_t> as_int(Env& e, const Node& n);

    template<typename T, typename M>
    Task<uint64_t> convert(Task<T> t, M m)
    {
        Tracker local;
        if constexpr (std::is_void_v<T>)
        {
            co_await std::move(t);
            co_return 0;
        }
        else
        {
            T v = co_await std::move(t);
            co_return m(v);
        }
    }
    template<typename T>
    T make(uint64_t v)
    {
        if constexpr (std::is_same_v<T, uint64_t>) return v;
        else if constexpr (std::is_same_v<T, std::string>) return std::to_string(v) + std::string(40, '.');
        else if constexpr (std::is_same_v<T, std::unique_ptr<uint64_t>>) return std::make_unique<uint64_t>(v);
        else return Value(v);
    }
    uint64_t unmake(const uint64_t& v) { return v; }
    uint64_t unmake(const std::string& s) { return std::stoull(s); }
    uint64_t unmake(const std::unique_ptr<uint64_t>& p) { return p ? *p : 0xbad; }
    uint64_t unmake(const Value& v) { return v.own ? v.v : 0xbad; }

    template<typename T>
    Task<T> child(Env& e, const Node& n, int mode)
    {
        if (mode == 3)
        {
            Task<T> a = body<T>(e, n, Tracker{});
            Task<T> b = std::move(a);
            return b;
        }
        if (mode == 4)
        {
            Task<T> a = body<T>(e, n, Tracker{});  // never awaited: destroyed by the assignment
            a = body<T>(e, n, Tracker{});
            Task<T>& self = a;
            a = std::move(self);
            return a;
        }
        return body<T>(e, n, Tracker{});
    }
    template<typename T>
    Task<uint64_t> run_as(Env& e, const Node& n, int mode)
    {
        return convert(child<T>(e, n, mode), [](const auto& v) { return unmake(v); });
    }
    Task<uint64_t> run_kid(Env& e, const Node& n, int mode)
    {
        switch (n.kind)
        {
            case Int: return child<uint64_t>(e, n, mode);
            case Str: return run_as<std::string>(e, n, mode);
            case Ptr: return run_as<std::unique_ptr<uint64_t>>(e, n, mode);
            case NoDef: return run_as<Value>(e, n, mode);
            default: return convert(child<void>(e, n, mode), 0);
        }
    }

    template<typename T>
    Task<T> body(Env& e, const Node& n, Tracker arg)
    {
        Tracker local;
        e.runs[n.index].fetch_add(1);
        for (int i = 0; i < n.hops_before; ++i) co_await Hop{*e.pool};
        uint64_t v = n.id;
        for (size_t i = 0; i < n.kids.size(); ++i)
        {
            Tracker inner;
            if (n.mode[i] == 2)
            {
                auto t = run_kid(e, n.kids[i], 0);  // lazily created, never awaited
                continue;
            }
            if (n.mode[i] == 1)
            {
                uint64_t got = 0;
                try { got = co_await run_kid(e, n.kids[i], 0); }
                catch (const Boom& b) { got = b.id * 3; }
                v += got;
            }
            else v += co_await run_kid(e, n.kids[i], n.mode[i]);
        }
        for (int i = 0; i < n.hops_after; ++i) co_await Hop{*e.pool};
        if (n.throws) throw Boom(n.id);
        if constexpr (!std::is_void_v<T>) co_return make<T>(v);
    }

    size_t g_nodes;
    Node gen(pbt::Case& c, size_t depth, size_t& budget, bool hops)
    {
        Node n;
        n.index = g_nodes++;
        n.id = 1 + c.draw(1000);
        n.kind = static_cast<Kind>(c.draw(5));
        n.throws = c.chance(1, 6);
        if (hops)
        {
            n.hops_before = static_cast<int>(c.chance(1, 3) ? 1 + c.draw(3) : 0);
            n.hops_after = static_cast<int>(c.chance(1, 4) ? 1 + c.draw(2) : 0);
        }
        size_t k = depth > 6 || budget == 0 ? 0 : c.weighted({3, 3, 2, 2});
        for (size_t i = 0; i < k && budget; ++i)
        {
            --budget;
            n.kids.push_back(gen(c, depth + 1, budget, hops));
            n.mode.push_back(static_cast<int>(c.weighted({5, 4, 1, 2, 2})));
        }
        return n;
    }

    // chains
    Task<uint64_t> nested(size_t n, const char* base, size_t& worst)
    {
        worst = std::max<size_t>(worst, static_cast<size_t>(std::abs(base - static_cast<char*>(__builtin_frame_address(0)))));
        if (n == 0) co_return 1;
        uint64_t v = co_await nested(n - 1, base, worst);
        worst = std::max<size_t>(worst, static_cast<size_t>(std::abs(base - static_cast<char*>(__builtin_frame_address(0)))));
        co_return v + 1;
    }
    Task<void> leaf(uint64_t& sum, const char* base, size_t& worst)
    {
        worst = std::max<size_t>(worst, static_cast<size_t>(std::abs(base - static_cast<char*>(__builtin_frame_address(0)))));
        ++sum;
        co_return;
    }
    Task<uint64_t> looped(size_t n, const char* base, size_t& worst)
    {
        uint64_t sum = 0;
        for (size_t i = 0; i < n; ++i)
        {
            co_await leaf(sum, base, worst);
            worst = std::max<size_t>(worst, static_cast<size_t>(std::abs(base - static_cast<char*>(__builtin_frame_address(0)))));
        }
        co_return sum;
    }
}  // namespace

static void prop(pbt::Case& c)
{
    g_live = 0;
    g_bad = 0;
    if (c.chance(1, 300))
    {
        // measure with short chains what one level costs, then a long chain
        size_t n = 2000 + c.draw(20000);
        const bool loop = c.coin();
        size_t shallow = 0, deep = 0;
        const char* base = static_cast<char*>(__builtin_frame_address(0));
        uint64_t a, b;
        if (loop) { a = SyncWait(looped(4, base, shallow)); b = SyncWait(looped(n, base, deep)); }
        else
        {
            // locals live in heap frames: only __builtin_frame_address counts
            a = SyncWait(nested(4, base, shallow));
            b = SyncWait(nested(n, base, deep));
        }
        REQUIRE(a == (loop ? 4u : 5u) && b == (loop ? n : n + 1), "chain-value", "{} and {} for {}", a, b, n);
        REQUIRE(deep < shallow + 4096, "stack-growth", "stack use {} for 4 awaits, {} for {}", shallow, deep, n);
        c.note("chain of {} {}", n, loop ? "sequential awaits" : "nested tasks");
        c.label("long chain");
        c.nontrivial();
        return;
    }
    const bool hops = c.chance(1, 3);
    size_t budget = c.steps(40);
    g_nodes = 0;
    Node root = gen(c, 0, budget, hops);
    std::vector<int> want(g_nodes, 0);
    std::vector<std::atomic<int>> runs(g_nodes);
    Outcome o = eval(root, want);
    c.note("{} nodes, hops {}, expected {} {}", g_nodes, hops, o.threw ? "exception" : "value", o.v);
    {
        std::unique_ptr<Pool> pool;
        if (hops) pool = std::make_unique<Pool>(1 + c.draw(3));
        Env env{pool.get(), runs.data()};
        if (c.chance(1, 12))
        {
            // never awaited at all
            { auto t = run_kid(env, root, 0); auto u = std::move(t); }
            for (auto& r: runs) REQUIRE(r == 0, "eager", "a task ran without being awaited");
            REQUIRE(g_live == 0, "leak", "{} objects alive after dropping an unawaited task", g_live.load());
        }
        bool threw = false;
        uint64_t got = 0;
        try
        {
            switch (root.kind)
            {
                case Int: got = SyncWait(body<uint64_t>(env, root, Tracker{})); break;
                case Str: got = unmake(SyncWait(body<std::string>(env, root, Tracker{}))); break;
                case Ptr: got = unmake(SyncWait(body<std::unique_ptr<uint64_t>>(env, root, Tracker{}))); break;
                case NoDef: got = unmake(SyncWait(body<Value>(env, root, Tracker{}))); break;
                default: SyncWait(body<void>(env, root, Tracker{})); break;
            }
        }
        catch (const Boom& b) { threw = true; got = b.id; }
        REQUIRE(threw == o.threw, threw ? "spurious-exception" : "exception-lost", "expected {} {}, got {} {}", o.threw ? "exception" : "value", o.v, threw ? "exception" : "value", got);
        REQUIRE(got == o.v, "wrong-result", "expected {}, got {}", o.v, got);
    }
    for (size_t i = 0; i < g_nodes; ++i)
        REQUIRE(runs[i] == want[i], "run-count", "node {} ran {} times, expected {}", i, runs[i].load(), want[i]);
    REQUIRE(g_live == 0, "leak", "{} tracked objects left", g_live.load());
    REQUIRE(g_bad == 0, "double-destroy", "{} objects destroyed twice", g_bad.load());
    bool caught = false, dropped = false;
    std::function<void(const Node&)> scan = [&](const Node& n) {
        for (size_t i = 0; i < n.kids.size(); ++i) { caught |= n.mode[i] == 1 && n.kids[i].throws; dropped |= n.mode[i] == 2; scan(n.kids[i]); }
    };
    scan(root);
    if (o.threw) c.label("exception reaches the root");
    if (caught) c.label("exception caught inside");
    if (dropped) c.label("task never awaited");
    if (hops) c.label("resumed on other threads");
    if (g_nodes > 3) c.nontrivial();
}
PBT_MAIN(prop)
