// Cooperative scheduler owned by the choice sequence: code under test is run in
// fibers and every atomic operation is a scheduling point (std::atomic is
// replaced by std::sched_atomic through a macro around the include of the
// header under test). Sequentially consistent interleavings only; memory-order
// mistakes are left to the ThreadSanitizer parts.
#pragma once
#include "pbt.h"
#include <atomic>
#include <functional>
#include <memory>
#include <ucontext.h>
#include <vector>

namespace fs_
{
    struct Fiber
    {
        ucontext_t ctx{};
        char* stack = nullptr;
        std::function<void()> fn;
        bool done = false;
        std::function<bool()> ready;  // set: waits for it
        std::exception_ptr err;
    };
    struct Sched
    {
        pbt::Case& c;
        std::vector<std::unique_ptr<Fiber>> fibers;
        ucontext_t main_ctx{};
        unsigned long owner = 0;  // the thread the fibers run on, when code under test asks for its identity
        int cur = -1;
        size_t turn = 0;
        uint64_t switches = 0, points = 0, same = 0;
        unsigned num, den;
        explicit Sched(pbt::Case& cc, unsigned n = 1, unsigned d = 3) : c(cc), num(n), den(d) { active() = this; }
        ~Sched() { active() = nullptr; }
        static Sched*& active() { static Sched* s = nullptr; return s; }
        void add(std::function<void()> f)
        {
            auto fb = std::make_unique<Fiber>();
            fb->fn = std::move(f);
            fibers.push_back(std::move(fb));
        }
        static void tramp()
        {
            Sched* s = active();
            Fiber& f = *s->fibers[static_cast<size_t>(s->cur)];
            try { f.fn(); } catch (...) { f.err = std::current_exception(); }
            f.done = true;
            swapcontext(&f.ctx, &s->main_ctx);
        }
        std::vector<int> runnable() const
        {
            std::vector<int> r;
            for (size_t i = 0; i < fibers.size(); ++i) if (!fibers[i]->done && (!fibers[i]->ready || fibers[i]->ready())) r.push_back(static_cast<int>(i));
            return r;
        }
        void switch_to(int t)
        {
            int from = cur;
            cur = t;
            ++switches;
            swapcontext(from < 0 ? &main_ctx : &fibers[static_cast<size_t>(from)]->ctx, &fibers[static_cast<size_t>(t)]->ctx);
            cur = from;
        }
        // called by code under test
        void point()
        {
            if (cur < 0 || (owner && owner != reinterpret_cast<unsigned long>(__builtin_thread_pointer()))) return;
            ++points;
            if (points > 400000) pbt::fail("livelock", "no progress after 400000 scheduling points");
            bool sw = c.chance(num, den);
            if (!sw && ++same > 300) { (void) yield_other(); return; }  // fairness
            if (!sw) return;
            same = 0;
            auto r = runnable();
            if (r.size() < 2) return;
            int t = r[c.draw(r.size())];
            if (t != cur) switch_to(t);
        }
        // gives way to another fiber; false: there is none
        bool yield_other()
        {
            if (cur < 0) return false;
            if (++points > 400000) pbt::fail("livelock", "no progress after 400000 scheduling points");
            std::vector<int> r;
            for (int t: runnable()) if (t != cur) r.push_back(t);
            if (r.empty()) return false;
            same = 0;
            switch_to(r[(c.draw(r.size()) + ++turn) % r.size()]);
            return true;
        }
        // the fiber does not run until `ready`; false: nothing else can run
        bool wait_until(std::function<bool()> ready)
        {
            if (cur < 0) return ready();
            const int me = cur;
            fibers[static_cast<size_t>(me)]->ready = ready;
            bool ok = true;
            while (!ready())
                if (!yield_other()) { ok = false; break; }
            fibers[static_cast<size_t>(me)]->ready = nullptr;
            return ok;
        }
        size_t stack_size = 64 * 1024;
        // stacks are kept from case to case
        char* stack_for(size_t i)
        {
            static std::vector<std::pair<char*, size_t>> pool;
            if (pool.size() <= i) pool.resize(i + 1);
            if (pool[i].second < stack_size)
            {
                std::free(pool[i].first);
                pool[i] = {static_cast<char*>(std::malloc(stack_size)), stack_size};
            }
            return pool[i].first;
        }
        void run()
        {
            size_t n = 0;
            for (auto& f: fibers)
            {
                f->stack = stack_for(n++);
                getcontext(&f->ctx);
                f->ctx.uc_stack.ss_sp = f->stack;
                f->ctx.uc_stack.ss_size = stack_size;
                f->ctx.uc_link = &main_ctx;
                makecontext(&f->ctx, reinterpret_cast<void (*)()>(tramp), 0);
            }
            for (auto r = runnable(); !r.empty(); r = runnable())
            {
                int t = r[c.draw(r.size())];
                cur = t;
                swapcontext(&main_ctx, &fibers[static_cast<size_t>(t)]->ctx);
                cur = -1;
                for (auto& f: fibers) if (f->err) std::rethrow_exception(f->err);
            }
        }
    };
    inline void point() { if (auto* s = Sched::active()) s->point(); }
    inline bool spurious() { auto* s = Sched::active(); return s && s->cur >= 0 && (!s->owner || s->owner == reinterpret_cast<unsigned long>(__builtin_thread_pointer())) && s->c.chance(1, 16); }
}  // namespace fs_

namespace std
{
    template<typename T>
    struct sched_atomic
    {
        T v{};
        using value_type = T;
        static constexpr bool is_always_lock_free = true;
        sched_atomic() noexcept = default;
        constexpr sched_atomic(T x) noexcept : v(x) {}
        sched_atomic(const sched_atomic&) = delete;
        sched_atomic& operator=(const sched_atomic&) = delete;
        bool is_lock_free() const noexcept { return true; }
        T load(memory_order = memory_order_seq_cst) const { fs_::point(); return v; }
        void store(T x, memory_order = memory_order_seq_cst) { fs_::point(); v = x; }
        T exchange(T x, memory_order = memory_order_seq_cst) { fs_::point(); T o = v; v = x; return o; }
        bool compare_exchange_strong(T& e, T d, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst)
        {
            fs_::point();
            if (v == e) { v = d; return true; }
            e = v;
            return false;
        }
        bool compare_exchange_weak(T& e, T d, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst)
        {
            fs_::point();
            if (v == e && !fs_::spurious()) { v = d; return true; }
            e = v;
            return false;
        }
        T fetch_add(T x, memory_order = memory_order_seq_cst) { fs_::point(); T o = v; v = static_cast<T>(v + x); return o; }
        T fetch_sub(T x, memory_order = memory_order_seq_cst) { fs_::point(); T o = v; v = static_cast<T>(v - x); return o; }
        T fetch_or(T x, memory_order = memory_order_seq_cst) { fs_::point(); T o = v; v = static_cast<T>(v | x); return o; }
        T fetch_and(T x, memory_order = memory_order_seq_cst) { fs_::point(); T o = v; v = static_cast<T>(v & x); return o; }
        T operator++() { return static_cast<T>(fetch_add(1) + 1); }
        T operator++(int) { return fetch_add(1); }
        T operator--() { return static_cast<T>(fetch_sub(1) - 1); }
        T operator--(int) { return fetch_sub(1); }
        T operator+=(T x) { return static_cast<T>(fetch_add(x) + x); }
        T operator-=(T x) { return static_cast<T>(fetch_sub(x) - x); }
        operator T() const { return load(); }
        T operator=(T x) { store(x); return x; }
        void wait(T o, memory_order = memory_order_seq_cst) const { while (load() == o) {} }
        void notify_one() noexcept {}
        void notify_all() noexcept {}
        bool test_and_set(memory_order = memory_order_seq_cst) { return exchange(true); }
        void clear(memory_order = memory_order_seq_cst) { store(false); }
    };
}  // namespace std
