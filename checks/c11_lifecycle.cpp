// C11: start-up and shutdown of workers and pools always terminate cleanly.
#include <cmath>
#include <limits>
#include "checks/threaded_rig.h"
#include <dirent.h>
#include <fcntl.h>
#include <map>
#include <pthread.h>
#include <sys/stat.h>
#include <thread>
#include "kio/core/worker_pool.h"
#include "kio/sync/sync_wait.h"

using namespace kio;
using namespace kio::io;

// creation of threads can be made to fail
extern "C" int __interceptor_pthread_create(pthread_t*, const pthread_attr_t*, void* (*) (void*), void*);
namespace
{
    std::atomic<int> g_threads_left{-1};  // so many more threads can be created; -1: any number
}
extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* arg)
{
    int n = g_threads_left.load();
    if (n == 0) return EAGAIN;
    if (n > 0) --g_threads_left;
    return __interceptor_pthread_create(t, a, f, arg);
}

namespace
{
    std::map<int, std::string> descriptors()
    {
        std::map<int, std::string> m;
        DIR* d = opendir("/proc/self/fd");
        while (auto* e = readdir(d))
        {
            int fd = atoi(e->d_name);
            if (e->d_name[0] == '.' || fd == dirfd(d)) continue;
            struct stat st;
            if (fstat(fd, &st) == 0) m[fd] = std::format("{}:{}", st.st_dev, st.st_ino);
        }
        closedir(d);
        return m;
    }
    size_t threads()
    {
        size_t n = 0;
        DIR* d = opendir("/proc/self/task");
        while (auto* e = readdir(d)) n += e->d_name[0] != '.';
        closedir(d);
        return n;
    }
    std::string diff(const std::map<int, std::string>& a, const std::map<int, std::string>& b)
    {
        std::string s;
        for (auto& [fd, id]: a)
            if (!b.count(fd)) s += std::format(" {} was closed", fd);
            else if (b.at(fd) != id) s += std::format(" {} is another file", fd);
        for (auto& [fd, id]: b)
            if (!a.count(fd)) s += std::format(" {} was left open", fd);
        return s;
    }

    struct Failures
    {
        int ring = -1;       // creation of the ring fails for the n-th worker that starts
        int enter = -1;      // the n-th ring fails ...
        unsigned call = 0;   // ... at this entry
        int callback = -1;   // the start-up callback of this worker throws
        bool odd_exception = false;
        bool kernel = false;
        int thread = -1;     // only so many threads can be created
        bool any() const { return ring >= 0 || enter >= 0 || callback >= 0 || kernel || thread >= 0; }
    };

    WorkerConfig make_config(pbt::Case& c, bool& valid)
    {
        WorkerConfig w;
        valid = true;
        w.uring_queue_depth = c.pick<size_t>({64, 1, 2, 1024, 4096});
        w.default_op_slots = c.pick<size_t>({64, 1, 4096});
        w.task_queue_capacity = size_t{1} << c.draw(12);
        w.tcp_backlog = 1 + c.draw(1000);
        w.uring_submit_batch_size = 1 + c.draw(1000);
        w.op_slots_growth_factor = c.pick({1.5f, 1.01f, 2.0f, 4.0f});
        if (!c.chance(1, 2)) return w;
        valid = false;
        switch (c.draw(6))
        {
            case 0: w.uring_queue_depth = 0; break;
            case 1: w.uring_submit_batch_size = 0; break;
            case 2: w.tcp_backlog = 0; break;
            case 3: w.op_slots_growth_factor = c.pick({1.0f, 0.5f, 0.0f, -2.0f, std::numeric_limits<float>::quiet_NaN(), -std::numeric_limits<float>::infinity()}); break;
            case 4: w.task_queue_capacity = 0; break;
            default:
                w.task_queue_capacity = c.pick<size_t>({3, 5, 6, 7, 9, 12, 1000, 1023, 1025, 4095}) << c.draw(3);
                break;
        }
        return w;
    }

    void config_case(pbt::Case& c)
    {
        bool valid;
        WorkerConfig cfg = make_config(c, valid);
        bool pool = c.coin();
        size_t n = pool ? c.draw(4) : 1;
        if (n == 0) valid = false;
        bool threw = false;
        std::string what;
        try
        {
            if (pool) { IOPool p(n, cfg); }
            else { Worker w(0, cfg); }
        }
        catch (const std::exception& e)
        {
            threw = true;
            what = e.what();
        }
        c.note("{} {} configuration: depth {} batch {} backlog {} growth {} queue {} workers {} -> {}", valid ? "valid" : "invalid", pool ? "pool" : "worker", cfg.uring_queue_depth, cfg.uring_submit_batch_size, cfg.tcp_backlog, cfg.op_slots_growth_factor, cfg.task_queue_capacity, n, threw ? what : "accepted");
        REQUIRE(threw == !valid, valid ? "valid-config-refused" : "invalid-config-accepted", "{}", threw ? what : "accepted");
        c.label("configuration");
        if (!valid) c.nontrivial();
    }

    Task<std::string> use(Worker& w)
    {
        co_await SwitchToWorker(w);
        if (!w.is_on_worker_thread()) co_return "not on the worker's thread";
        auto r = co_await w.async_sleep(std::chrono::microseconds(10));
        if (!r) co_return "sleep failed";
        co_return "";
    }
    DetachedTask sleeper(Worker& w)
    {
        co_await SwitchToWorker(w);
        (void) co_await w.async_sleep(std::chrono::hours(1));
    }
    DetachedTask reader(Worker& w, int fd, std::array<char, 8>& buf)
    {
        co_await SwitchToWorker(w);
        (void) co_await w.async_read(fd, std::span<char>(buf.data(), buf.size()));
    }

    void pool_case(pbt::Case& c, const Failures& f)
    {
        const size_t n = 1 + c.draw(4);
        WorkerConfig cfg;
        cfg.uring_queue_depth = c.pick<size_t>({64, 1, 2});
        cfg.default_op_slots = 16;
        cfg.task_queue_capacity = 64;
        std::vector<std::string> keys;
        for (size_t k = c.draw(5); k--;) keys.push_back(c.bytes(c.draw(20)));
        const size_t use_n = c.draw(4), stops = c.draw(4), mode = c.draw(4), own_stop = c.draw(3);
        const bool pending = c.coin();
        c.note("pool of {}, mode {}, {} stops", n, mode, stops);
        std::vector<std::atomic<int>> called(n);
        std::vector<std::atomic<bool>> foreign(n);
        std::function<void(Worker&)> cb;
        if (f.callback >= 0 || c.coin())
            cb = [&](Worker& w) {
                ++called[w.get_id()];
                foreign[w.get_id()] = !w.is_on_worker_thread();
                if (static_cast<int>(w.get_id()) == f.callback)
                {
                    if (f.odd_exception) throw 42;
                    throw std::runtime_error("start-up callback failed");
                }
            };
        int pfd[2];
        REQUIRE(pipe2(pfd, O_CLOEXEC) == 0, "harness", "pipe");
        std::array<char, 8> buf{};
        bool threw = false;
        std::string err;
        g_threads_left = f.thread;
        try
        {
            IOPool pool(n, cfg, cb);
            g_threads_left = -1;
            if (pool.num_workers() != n) err = std::format("num_workers() is {}", pool.num_workers());
            if (pool.get_worker(n) || pool.get_worker(n + 1 + c.draw(1000)) || pool.get_worker(~size_t{0})) err = "get_worker() of a bad id is not null";
            std::map<std::string, size_t> first;
            for (auto& k: keys)
            {
                first[k] = pool.get_worker_id_by_key(k);
                if (first[k] >= n || !pool.get_worker(first[k])) err = "a key selects a worker that does not exist";
            }
            const bool sick = f.ring >= 0 || f.enter >= 0 || f.kernel || f.callback >= 0;
            for (size_t i = 0; i < n && err.empty(); ++i)
            {
                Worker& w = *pool.get_worker(i);
                if (w.get_id() != i) err = std::format("worker {} has id {}", i, w.get_id());
                w.wait_ready();
                const bool dead = static_cast<int>(i) == f.callback;
                if (sick && (f.ring >= 0 || f.enter >= 0 || f.kernel || dead)) continue;
                for (size_t k = 0; k < use_n && err.empty(); ++k) err = SyncWait(use(w));
                if (cb && use_n && called[i] != 1) err = std::format("the start-up callback of worker {} ran {} times", i, called[i].load());
                if (cb && use_n && foreign[i]) err = "the start-up callback ran on another thread";
                if (pending) sleeper(w).detach();
                if (pending && i == 0) reader(w, pfd[0], buf).detach();
            }
            for (auto& k: keys)
            {
                std::string copy = k;
                if (pool.get_worker_id_by_key(copy) != first[k]) err = "the same key selects different workers";
            }
            for (size_t i = 0; i < own_stop && i < n; ++i) (void) pool.get_worker(i)->request_stop();
            if (mode == 0)
                for (size_t i = 0; i < stops; ++i) pool.stop();
            else if (mode == 1)
            {
                std::vector<std::thread> th;
                for (size_t i = 0; i < stops; ++i) th.emplace_back([&] { pool.stop(); });
                for (auto& t: th) t.join();
            }
            else if (mode == 2 && stops)
            {
                pool.stop();
                for (size_t i = 0; i < n; ++i)
                {
                    pool.get_worker(i)->wait_shutdown();
                    pool.get_worker(i)->wait_ready();
                    (void) pool.get_worker(i)->request_stop();
                    if (pool.get_worker(i)->is_running()) err = "a stopped worker says it is running";
                }
                for (auto& k: keys)
                    if (pool.get_worker_id_by_key(k) != first[k]) err = "the same key selects different workers after stop()";
            }
            if (!keys.empty())
            {
                IOPool other(n);
                for (auto& k: keys)
                    if (!sick && other.get_worker_id_by_key(k) != first[k]) err = "the same key selects different workers in a pool of the same size";
            }
        }
        catch (const std::exception& e)
        {
            threw = true;
            err = f.thread >= 0 ? "" : std::string("exception: ") + e.what();
        }
        g_threads_left = -1;
        close(pfd[0]);
        close(pfd[1]);
        REQUIRE(err.empty(), "wrong-behaviour", "{}", err);
        if (f.thread >= 0 && f.thread < static_cast<int>(n)) REQUIRE(threw, "failure-hidden", "a pool of {} was made with {} threads", n, f.thread);
        if (stops > 1 || f.any()) c.nontrivial();
    }

    void worker_case(pbt::Case& c, const Failures& f)
    {
        WorkerConfig cfg;
        cfg.uring_queue_depth = c.pick<size_t>({64, 1, 2});
        const size_t kind = c.draw(4);
        const size_t waiters = c.draw(3), stoppers = 1 + c.draw(3);
        c.note("single worker, kind {}, {} waiting threads, {} stopping", kind, waiters, stoppers);
        std::function<void(Worker&)> cb;
        if (f.callback >= 0)
            cb = [&](Worker&) {
                if (f.odd_exception) throw 42;
                throw std::runtime_error("start-up callback failed");
            };
        const bool sick = f.ring >= 0 || f.enter >= 0 || f.kernel || f.callback >= 0;
        std::string err;
        {
            Worker w(0, cfg, cb);
            std::vector<std::thread> th;
            if (kind == 0)  // never started
            {
                for (size_t i = c.draw(3); i--;) (void) w.request_stop();
            }
            else
            {
                for (size_t i = 0; i < waiters; ++i)
                    th.emplace_back([&, i] {
                        if (i & 1) w.wait_ready();
                        w.wait_shutdown();
                    });
                if (kind == 1) (void) w.request_stop();  // before it starts
                std::thread loop([&] { w.loop_forever(); });
                if (kind == 2)
                {
                    w.wait_ready();
                    if (!sick) err = SyncWait(use(w));
                    if (!sick && c.coin()) sleeper(w).detach();
                }
                if (kind != 1 || c.coin())
                {
                    std::vector<std::thread> st;
                    for (size_t i = 0; i < stoppers; ++i) st.emplace_back([&] { (void) w.request_stop(); });
                    for (auto& t: st) t.join();
                }
                w.wait_ready();
                w.wait_shutdown();
                loop.join();
                w.wait_shutdown();
                if (w.is_running()) err = "a stopped worker says it is running";
                for (size_t i = c.draw(2); i--;) (void) w.request_stop();
            }
            for (auto& t: th) t.join();
        }
        REQUIRE(err.empty(), "wrong-behaviour", "{}", err);
        if (kind == 1 || sick || stoppers > 1) c.nontrivial();
    }

    void prop(pbt::Case& c)
    {
        trig::quiet();
        sim::Config sc;
        sc.threaded = true;
        sc.seed = c.draw(1u << 30);
        const size_t what = c.weighted({3, 3, 2});
        Failures f;
        if (what != 2 && c.chance(1, 2))
        {
            int i = static_cast<int>(what == 0 ? c.draw(4) : 0);
            switch (c.draw(5))
            {
                case 0: f.ring = i; break;
                case 1: f.enter = i; f.call = static_cast<unsigned>(c.draw(6)); break;
                case 2: f.callback = i; f.odd_exception = c.chance(1, 3); break;
                case 3: f.kernel = true; break;
                default:
                    if (what == 0) f.thread = i;
                    break;
            }
            c.note("fault: ring {} entry {}@{} callback {}{} kernel {} threads {}", f.ring, f.enter, f.call, f.callback, f.odd_exception ? " (int)" : "", f.kernel, f.thread);
        }
        if (f.ring >= 0) sc.init_fault = [&](int k) { return k == f.ring ? ENOMEM : 0; };
        if (f.enter >= 0) sc.enter_fault = [&](int k, unsigned call) { return k == f.enter && call == f.call ? -EBADF : 0; };
        strcpy(sim::sim_uname_release, f.kernel ? "5.15.0-sim" : "6.8.0-sim");
        const auto before = descriptors();
        const size_t tasks = threads();
        sim::begin(sc);
        if (what == 0) pool_case(c, f);
        else if (what == 1) worker_case(c, f);
        else config_case(c);
        const size_t rings = sim::rings_alive();
        const bool bad = sim::bad_exit();
        const int bad_fd = sim::bad_exit_fd();
        strcpy(sim::sim_uname_release, "6.8.0-sim");
        sim::end();
        REQUIRE(!bad, "closes-foreign-descriptor", "a ring that was never created was torn down, closing descriptor {}", bad_fd);
        REQUIRE(rings == 0, "ring-leaked", "{} rings exist after destruction", rings);
        const auto after = descriptors();
        REQUIRE(after == before, "descriptors-changed", "{}", diff(before, after));
        // a joined thread may still be listed for a moment
        size_t now = threads();
        for (int i = 0; i < 200 && now > tasks; ++i)
        {
            std::this_thread::sleep_for(std::chrono::milliseconds(1));
            now = threads();
        }
        REQUIRE(now == tasks, "threads-left", "{} threads before, {} after", tasks, now);
    }
}  // namespace
PBT_MAIN(prop)
