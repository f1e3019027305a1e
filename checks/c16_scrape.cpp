// C16 (b): a scrape reports every worker's own counters under its id.
#include <cstdint>
#include <syscall.h>
#include <atomic>
#include <fcntl.h>
#include <latch>
#include <sys/socket.h>
#include "pbt/pbt.h"
#include "sim/simuring.h"
#include "checks/threaded_rig.h"
#include "kio/core/metrics_collector.h"
#include "kio/core/worker_pool.h"
#include "kio/metrics/registry.h"
#include "kio/sync/sync_wait.h"

using namespace kio;
using namespace kio::io;

namespace
{
    struct Tally { uint64_t rb = 0, wb = 0, ro = 0, wo = 0, open = 0; };

    Task<void> work(Worker& w, const std::vector<std::array<uint64_t, 3>>& plan, std::string dir, Tally& t)
    {
        co_await SwitchToWorker(w);
        std::string path = dir + "/f" + std::to_string(w.get_id());
        std::string buf(5000, 'z');
        int fd = -1;
        for (auto& [k, len, off]: plan)
        {
            if (fd < 0)
            {
                auto r = co_await w.async_openat(path, O_RDWR | O_CREAT, 0600);
                if (r) { fd = *r; ++t.open; }
                else continue;
            }
            switch (k)
            {
                case 0:
                {
                    auto r = co_await w.async_write_at(fd, std::span<const char>(buf.data(), len), off);
                    if (r) { ++t.wo; t.wb += static_cast<uint64_t>(*r); }
                    break;
                }
                case 1:
                {
                    auto r = co_await w.async_read_at(fd, std::span(buf.data(), len), off);
                    if (r) { ++t.ro; t.rb += static_cast<uint64_t>(*r); }
                    break;
                }
                case 2:
                {
                    auto r = co_await w.async_read_at(-1, std::span(buf.data(), len), off);  // fails
                    if (r) { ++t.ro; t.rb += static_cast<uint64_t>(*r); }
                    break;
                }
                default:
                    co_await w.async_close(fd);
                    fd = -1;
                    break;
            }
        }
        if (fd >= 0) co_await w.async_close(fd);
    }

    // the registry lives for ever: it holds slots that pass on to the collectors of the running case
    struct Slot : IMetricsCollector
    {
        std::shared_ptr<IMetricsCollector> to;
        void Collect(MetricSnapshot& s) override
        {
            if (to) to->Collect(s);
        }
    };
    std::vector<std::shared_ptr<Slot>>& slots()
    {
        static auto v = [] {
            std::vector<std::shared_ptr<Slot>> x;
            for (int i = 0; i < 6; ++i)
            {
                x.push_back(std::make_shared<Slot>());
                MetricsRegistry<>::Instance().Register(x.back());
            }
            return x;
        }();
        return v;
    }

    using Samples = std::map<std::string, std::map<std::string, double>>;  // name -> worker id -> value

    bool scrape(MetricsRegistry<>& reg, Samples& out, std::string& err)
    {
        std::string text = reg.Scrape();
        size_t i = 0;
        while (i < text.size())
        {
            size_t e = text.find('\n', i);
            std::string line = text.substr(i, e - i);
            i = e + 1;
            if (line.empty() || line[0] == '#') continue;
            size_t b = line.find('{'), q = line.find("worker_id=\""), sp = line.rfind(' ');
            if (b == std::string::npos || q == std::string::npos) { err = "sample without a worker id: " + line; return false; }
            size_t q2 = line.find('"', q + 11);
            std::string id = line.substr(q + 11, q2 - q - 11);
            std::string name = line.substr(0, b);
            if (out[name].count(id)) { err = "two samples of " + name + " for worker " + id; return false; }
            out[name][id] = strtod(line.c_str() + sp + 1, nullptr);
        }
        return true;
    }

    void prop(pbt::Case& c)
    {
        trig::quiet();
        trig::Dir dir;
        sim::Config sc;
        sc.threaded = true;
        sc.seed = c.draw(1u << 30);
        sc.delay_us = c.pick({0u, 0u, 100u});
        trig::Shorten sh(sc.seed);
        if (c.coin()) sc.fault = [&](sim::Op& o) { return sh(o); };
        size_t n = 1 + c.draw(5);
        std::vector<std::vector<std::array<uint64_t, 3>>> plans(n);
        size_t total = 0;
        for (auto& p: plans)
        {
            size_t k = c.draw(1 + 25 * static_cast<size_t>(c.size) / 100);
            total += k;
            for (size_t i = 0; i < k; ++i) p.push_back({c.draw(4), c.draw(5000), c.draw(8000)});
        }
        size_t scrapes = c.draw(4);
        size_t registered = c.chance(1, 3) ? c.draw(n + 1) : n;
        c.note("{} workers ({} registered), {} operations, {} scrapes meanwhile", n, registered, total, scrapes);
        sim::begin(sc);
        std::vector<Tally> tally(n);
        std::string err;
        Samples fin;
        std::vector<WorkerStats> own(n);
        std::vector<Samples> mids;
        {
            IOPool pool(n);
            auto& reg = MetricsRegistry<>::Instance();
            for (auto& s: slots()) s->to.reset();
            for (size_t i = 0; i < registered; ++i) slots()[i]->to = std::make_shared<WorkerMetricsCollector>(*pool.get_worker(i));
            std::vector<std::thread> th;
            for (size_t i = 0; i < n; ++i)
                th.emplace_back([&, i] { SyncWait(work(*pool.get_worker(i), plans[i], dir.path, tally[i])); });
            for (size_t s = 0; s < scrapes && err.empty(); ++s)
            {
                Samples x;
                scrape(reg, x, err);
                mids.push_back(x);
            }
            for (auto& t: th) t.join();
            if (err.empty()) scrape(reg, fin, err);
            for (size_t i = 0; i < n; ++i)
                own[i] = SyncWait([](Worker& w) -> Task<WorkerStats> {
                    co_await SwitchToWorker(w);
                    co_return w.get_stats();
                }(*pool.get_worker(i)));
            for (auto& s: slots()) s->to.reset();
            pool.stop();
        }
        sim::end();
        REQUIRE(err.empty(), "bad-scrape", "{}", err);
        for (size_t i = 0; i < n; ++i)
        {
            REQUIRE(own[i].bytes_read_total == tally[i].rb && own[i].read_ops_total == tally[i].ro, "wrong-counter", "worker {}: {} bytes in {} reads reported, {} in {} happened", i, own[i].bytes_read_total, own[i].read_ops_total, tally[i].rb, tally[i].ro);
            REQUIRE(own[i].bytes_written_total == tally[i].wb && own[i].write_ops_total == tally[i].wo, "wrong-counter", "worker {}: {} bytes in {} writes reported, {} in {} happened", i, own[i].bytes_written_total, own[i].write_ops_total, tally[i].wb, tally[i].wo);
            REQUIRE(own[i].open_ops_total == tally[i].open, "wrong-counter", "worker {}: {} opens reported, {} happened", i, own[i].open_ops_total, tally[i].open);
            REQUIRE(own[i].active_coroutines == 0, "slots-leaked", "worker {}: {} operations outstanding after everything completed", i, own[i].active_coroutines);
        }
        const std::pair<const char*, uint64_t WorkerStats::*> names[] = {
                {"kio_worker_bytes_read_total", &WorkerStats::bytes_read_total}, {"kio_worker_bytes_written_total", &WorkerStats::bytes_written_total},
                {"kio_worker_read_ops_total", &WorkerStats::read_ops_total}, {"kio_worker_write_ops_total", &WorkerStats::write_ops_total},
                {"kio_worker_connections_accepted_total", &WorkerStats::connections_accepted_total}, {"kio_worker_connect_ops_total", &WorkerStats::connect_ops_total},
                {"kio_worker_open_ops_total", &WorkerStats::open_ops_total}, {"kio_worker_coroutine_pool_resizes_total", &WorkerStats::coroutines_pool_resize_total},
                {"kio_worker_active_coroutines", &WorkerStats::active_coroutines}, {"kio_worker_io_errors_total", &WorkerStats::io_errors_total}};
        for (auto& [nm, mem]: names)
        {
            REQUIRE(fin[nm].size() == registered, "missing-worker", "{} has {} samples, {} workers are registered", nm, fin[nm].size(), registered);
            for (size_t i = 0; i < registered; ++i)
            {
                auto it = fin[nm].find(std::to_string(i));
                REQUIRE(it != fin[nm].end(), "missing-worker", "{} has no sample for worker {}", nm, i);
                REQUIRE(it->second == static_cast<double>(own[i].*mem), "wrong-sample", "{} of worker {} is {}, the worker reports {}", nm, i, it->second, own[i].*mem);
                // counters only grow, and a scrape never reports more than had happened
                double last = 0;
                if (std::string(nm).ends_with("_total"))
                    for (auto& m: mids)
                    {
                        double v = m[nm][std::to_string(i)];
                        REQUIRE(v >= last && v <= it->second, "not-monotonic", "{} of worker {} went {} -> {} -> {}", nm, i, last, v, it->second);
                        last = v;
                    }
            }
        }
        if (n > 1 && total > 8 && scrapes) c.nontrivial();
    }
}  // namespace
PBT_MAIN(prop)
