// C28: the multi-partition store against one map, over real worker threads. Drivers with
// keys of their own work at the same time; the store is closed and reopened, with the same
// partition count, with others, with altered manifests, with failing set-ups.
#include <cmath>
#include "checks/kv_rig.h"
#include "bitcask/include/bitcask.h"
#include "kio/sync/sync_wait.h"

namespace
{
    using namespace kv;
    using kio::SyncWait;

    struct Step
    {
        unsigned kind;  // 0 put, 1 get, 2 delete, 3 sync, 4 compact, 5 get_string, 6 put (string), 7 close, 8 pause
        size_t key = 0, size = 0;
        uint64_t id = 0;
    };
    struct Bad { std::string tag, msg; };
    // what a key may hold: after a failed update, the old or the new value
    using Maybe = std::vector<std::optional<std::string>>;
    struct Driver
    {
        std::vector<std::string> keys;
        std::vector<Step> plan;
        std::map<std::string, Maybe> model;
        std::optional<Bad> bad;
        bool whole = false;
        unsigned puts = 0, hits = 0;
    };
    struct World
    {
        std::unique_ptr<BitKV> db;
        std::atomic<bool> closing{false};
        std::atomic<bool> closed_ok{false};
    };

    std::string show(const std::optional<std::string>& v)
    {
        if (!v) return "nothing";
        std::string s = std::format("{} bytes", v->size());
        if (v->size() >= 4)
        {
            uint32_t id;
            memcpy(&id, v->data(), 4);
            s += std::format(" (update {})", id);
        }
        return s;
    }
    bool allowed(const Maybe& m, const std::optional<std::string>& v) { return std::find(m.begin(), m.end(), v) != m.end(); }

    Task<void> step(World& W, Driver& d, const Step& s)
    {
        auto wrong = [&](const char* tag, std::string m) { if (!d.bad) d.bad = Bad{tag, std::move(m)}; };
        const bool before = W.closing.load();
        static const bool trace = getenv("KIO_TRACE") != nullptr;
        if (trace) fprintf(stderr, "step %u key %zu update %lu\n", s.kind, s.key, s.id);
        std::string k = s.kind < 3 || s.kind == 5 || s.kind == 6 ? d.keys[s.key] : "";
        switch (s.kind)
        {
            case 0:
            case 6:
            {
                std::string v = make_value(s.id, s.size);
                Result<void> r;
                if (s.kind == 0) r = co_await W.db->put(std::string(k), vec(v));
                else r = co_await W.db->put(std::string(k), std::string(v));
                auto& m = d.model[k];
                if (r)
                {
                    m = {v};
                    d.puts++;
                }
                else
                {
                    m.push_back(v);
                    if (!before && !W.closing) wrong("put-fails", std::format("a put fails with {}", err(r.error())));
                }
                break;
            }
            case 2:
            {
                auto r = co_await W.db->del(k);
                auto& m = d.model[k];
                if (r) m = {std::nullopt};
                else
                {
                    m.push_back(std::nullopt);
                    if (!before && !W.closing) wrong("delete-fails", std::format("a delete fails with {}", err(r.error())));
                }
                break;
            }
            case 1:
            case 5:
            {
                std::optional<std::string> v;
                std::optional<kio::Error> e;
                if (s.kind == 1)
                {
                    auto r = co_await W.db->get(k);
                    if (!r) e = r.error();
                    else if (r->has_value()) v = str(r->value());
                }
                else
                {
                    auto r = co_await W.db->get_string(k);
                    if (!r) e = r.error();
                    else v = *r;
                }
                if (e)
                {
                    if (!before && !W.closing) wrong("get-fails", std::format("a get fails with {}", err(*e)));
                    break;
                }
                auto& m = d.model[k];
                if (!allowed(m, v)) wrong("wrong-value", std::format("key {} of {} bytes reads {} instead of {}", s.key, k.size(), show(v), show(m.back())));
                if (v) d.hits++;
                break;
            }
            case 3:
            case 4:
            {
                Result<void> r;
                if (s.kind == 3) r = co_await W.db->sync();
                else r = co_await W.db->compact();
                if (!r && !before && !W.closing) wrong("maintenance-fails", std::format("{} fails with {}", s.kind == 3 ? "sync" : "compact", err(r.error())));
                break;
            }
            case 7:
            {
                W.closing = true;
                auto r = co_await W.db->close();
                if (!r) wrong("close-fails", std::format("close fails with {}", err(r.error())));
                else W.closed_ok = true;
                break;
            }
            default: std::this_thread::sleep_for(std::chrono::microseconds(s.size)); break;
        }
    }
    Task<void> drive(World& W, Driver& d)
    {
        for (auto& s: d.plan)
        {
            if (d.bad) co_return;
            co_await step(W, d, s);
        }
    }
    Task<Result<std::unique_ptr<BitKV>>> open_db(const BitcaskConfig& f, WorkerConfig wc, size_t n)
    {
        co_return co_await BitKV::open(f, wc, n);
    }

    void prop(pbt::Case& c)
    {
        setup();
        trig::Dir D;
        sim::Config sc;
        sc.threaded = true;
        sc.hold_files = true;
        sc.seed = c.draw(1u << 30);
        sc.delay_us = c.pick({0u, 0u, 0u, 40u});
        trig::Shorten sh(sc.seed);
        const bool shorten = c.chance(1, 3);
        std::atomic<int> broken_open{-1}, broken_ring{-1};
        std::atomic<int> ring_seq{0};
        int broken_error = 0;
        sc.fault = [&](sim::Op& o) {
            sim::Fault f;
            if (shorten) f = sh(o);
            int p = broken_open.load();
            if (p >= 0 && o.opcode == IORING_OP_OPENAT && o.path.find(std::format("partition_{}/", p)) != std::string::npos) f.error = broken_error;
            return f;
        };
        sc.init_fault = [&](int) {
            int i = ring_seq++;
            return i == broken_ring.load() ? ENOMEM : 0;
        };
        size_t count = 1 + c.draw(c.chance(1, 20) ? 16 : 6);
        BitcaskConfig cfg;
        vary_config(c, cfg);
        const std::string deep = c.coin() ? "" : c.coin() ? "/x" : "/x/y/../z";
        cfg.directory = D.path + deep;
        if (deep.size() > 2 && c.coin()) ::mkdir((D.path + "/x").c_str(), 0700);
        if (deep == "/x/y/../z") std::filesystem::create_directories(D.path + "/x/y");
        if (c.chance(1, 6)) cfg.dir_mode = 0700;
        // real time here: loops that wake too often only burn time
        if (cfg.compaction_interval_s.count() < 5) cfg.compaction_interval_s = std::chrono::milliseconds(5);
        const size_t nd = 1 + c.draw(4);
        std::vector<Driver> ds(nd);
        {
            auto keys = gen_keys(c, nd * (1 + c.draw(6)));
            for (size_t i = 0; i < keys.size(); ++i) ds[i % nd].keys.push_back(keys[i]);
        }
        for (auto& d: ds)
            for (auto& k: d.keys) d.model[k] = {std::nullopt};
        c.note("{} partitions, {} drivers, file size {}, threshold {}{}{}{}", count, nd, cfg.max_file_size, cfg.fragmentation_threshold, cfg.auto_compact ? ", auto compaction" : "", cfg.sync_on_write ? ", sync on write" : "", shorten ? ", short transfers" : "");
        const std::string mpath = (cfg.directory / std::string(kManifestFileName)).string();
        uint64_t ids = 0;
        unsigned refused = 0, hits = 0, puts = 0, live_multi = 0;
        std::string manifest;

        // every driver looks at all of its keys
        auto audit = [&](World& W, const char* when) {
            for (auto& d: ds)
                for (size_t i = 0; i < d.keys.size(); ++i)
                {
                    auto r = SyncWait(W.db->get(d.keys[i]));
                    REQUIRE(r.has_value(), "audit-error", "{}: reading a key fails with {}", when, err(r.error()));
                    std::optional<std::string> v;
                    if (r->has_value()) v = str(r->value());
                    auto& m = d.model[d.keys[i]];
                    REQUIRE(allowed(m, v), "wrong-value", "{}: key {} ({} bytes) of a driver reads {} instead of {}", when, i, d.keys[i].size(), show(v), show(m.back()));
                    m = {v};
                }
        };
        auto must_refuse = [&](const BitcaskConfig& f, const WorkerConfig& wc, size_t n, const char* tag, std::string what) {
            auto r = SyncWait(open_db(f, wc, n));
            if (r.has_value())
            {
                (void) SyncWait((*r)->close());
                pbt::fail(tag, "open succeeds with " + what);
            }
            refused++;
        };

        const size_t sessions = 1 + c.draw(4);
        sim::begin(sc);
        struct End { ~End() { sim::end(); } } end_guard;
        for (size_t sess = 0; sess < sessions; ++sess)
        {
            WorkerConfig wc = worker_config(c);
            // ----- what must be refused -----
            const size_t attempts = c.weighted({3, 3, 2});
            for (size_t a = 0; a < attempts; ++a)
            {
                BitcaskConfig f = cfg;
                WorkerConfig w = wc;
                size_t n = count;
                switch (c.weighted({manifest.empty() ? 0u : 5u, manifest.empty() ? 0u : 3u, 4, 1, 2, 2}))
                {
                    case 0:  // damaged manifest
                    {
                        std::string m = manifest;
                        std::string what;
                        switch (c.weighted({4, 3, 2, 2, 1, 2}))
                        {
                            case 0:
                            {
                                size_t bit = c.draw(m.size() * 8);
                                m[bit / 8] = static_cast<char>(m[bit / 8] ^ (1 << (bit % 8)));
                                what = std::format("bit {} of the manifest flipped", bit);
                                break;
                            }
                            case 1: m.resize(c.draw(m.size())); what = std::format("the manifest cut to {} bytes", m.size()); break;
                            case 2: m += c.bytes(1 + c.draw(20)); what = std::format("the manifest extended to {} bytes", m.size()); break;
                            case 3: m = c.bytes(c.draw(64)); what = std::format("a manifest of {} foreign bytes", m.size()); break;
                            case 4: m = std::string(m.size(), c.coin() ? '\0' : '\xff'); what = "a constant manifest"; break;
                            default:
                            {
                                Manifest x;
                                x.partition_count = static_cast<uint32_t>(count);
                                if (c.coin()) x.magic = static_cast<uint32_t>(c.draw(1u << 31));
                                else x.version = c.pick({0u, 2u, 0x01000000u, 0xffffffffu});
                                auto v = struct_pack::serialize(x);
                                m = str(v);
                                what = "a manifest of a foreign kind";
                            }
                        }
                        if (m == manifest) break;
                        spit(mpath, m);
                        c.note("open with {}", what);
                        must_refuse(f, w, n, "damaged-manifest", what);
                        REQUIRE(slurp(mpath) == m, "manifest-rewritten", "a refused open rewrote the manifest ({})", what);
                        spit(mpath, manifest);
                        c.label("manifest-damage");
                        break;
                    }
                    case 1:  // another count
                        while (n == count) n = c.weighted({4, 1}) == 0 ? 1 + c.draw(8) : count + (c.coin() ? 256 : 1);
                        if (n > 64) n = count + 1;
                        c.note("open with {} partitions", n);
                        must_refuse(f, w, n, "count-mismatch", std::format("{} partitions instead of {}", n, count));
                        c.label("other-count");
                        break;
                    case 2:  // invalid configuration
                    {
                        std::string what;
                        switch (c.draw(10))
                        {
                            case 0: n = 0; what = "no partitions"; break;
                            case 1: n = c.pick<size_t>({0x10001, SIZE_MAX, size_t{1} << 40}); what = "more partitions than file numbers allow"; break;
                            case 2: f.read_buffer_size = 0; what = "a read buffer of 0 bytes"; break;
                            case 3: f.fragmentation_threshold = c.pick<double>({-0.1, 1.1, 50.0, std::nan(""), -INFINITY, INFINITY}); what = "a threshold outside 0 to 1"; break;
                            case 4: f.auto_compact = true; f.compaction_interval_s = std::chrono::milliseconds(c.pick({0, -1, -120000})); what = "a compaction interval that is not positive"; break;
                            case 5: f.sync_on_write = false; f.sync_interval = std::chrono::milliseconds(c.pick({0, -1, -1000})); what = "a sync interval that is not positive"; break;
                            case 6: f.directory.clear(); what = "no directory"; break;
                            case 7: w.uring_queue_depth = 0; what = "a ring of no entries"; break;
                            case 8: w.task_queue_capacity = 0; what = "a task queue of no entries"; break;
                            default: w.op_slots_growth_factor = c.pick({1.0f, 0.0f, -2.0f}); what = "slots that cannot grow"; break;
                        }
                        c.note("open with {}", what);
                        must_refuse(f, w, n, "bad-config", what);
                        c.label("bad-config");
                        break;
                    }
                    case 3:  // the directory cannot be made
                    {
                        std::string file = D.path + "/plain";
                        spit(file, "x");
                        f.directory = file + (c.coin() ? "" : "/store");
                        c.note("open with a file in the directory's place");
                        must_refuse(f, w, n, "bad-directory", "a file in the directory's place");
                        ::unlink(file.c_str());
                        break;
                    }
                    case 4:  // a ring cannot be made
                        if (n == 0) break;
                        ring_seq = 0;
                        broken_ring = static_cast<int>(c.draw(n));
                        c.note("open while ring {} cannot be made", broken_ring.load());
                        must_refuse(f, w, n, "ring-failure", "a ring that cannot be made");
                        broken_ring = -1;
                        sim::close_open_fds();  // see below
                        c.label("ring-failure");
                        break;
                    default:  // a partition cannot open its files
                        broken_error = c.pick({EACCES, EIO, EMFILE, ENOSPC});
                        broken_open = static_cast<int>(c.draw(n));
                        c.note("open while partition {} cannot open files", broken_open.load());
                        must_refuse(f, w, n, "partition-failure", std::format("partition {} unable to open its files", broken_open.load()));
                        broken_open = -1;
                        // what another partition's background compaction had open at that moment is not constrained
                        sim::close_open_fds();
                        c.label("partition-failure");
                        break;
                }
                REQUIRE(sim::rings_alive() == 0, "ring-leak", "{} rings stay open after a refused open", sim::rings_alive());
                if (std::filesystem::exists(mpath) && manifest.empty()) manifest = slurp(mpath);
                else if (!manifest.empty()) REQUIRE(slurp(mpath) == manifest, "manifest-changed", "a refused open changed the manifest");
            }
            // ----- a session -----
            for (auto& d: ds)
            {
                d.plan.clear();
                d.whole = c.coin();
                const size_t n = c.steps(25);
                for (size_t i = 0; i < n; ++i)
                {
                    Step s;
                    s.kind = static_cast<unsigned>(c.weighted({9, 6, 4, 1, 2, 3, 3, 0, 1}));
                    s.key = c.draw(d.keys.size());
                    s.size = s.kind == 8 ? c.pick({0u, 50u, 500u, 6000u}) : gen_value_size(c, false);
                    s.id = ++ids;
                    d.plan.push_back(s);
                    c.note("  driver {}: {} key {} size {} update {}", &d - ds.data(), (const char*[]){"put", "get", "delete", "sync", "compact", "get_string", "put_string", "close", "pause"}[s.kind], s.key, s.size, s.id);
                }
            }
            const bool abrupt = c.chance(1, 8);  // somebody closes while the others work
            if (abrupt)
            {
                auto& p = ds[c.draw(nd)].plan;
                p.insert(p.begin() + static_cast<ptrdiff_t>(c.draw(p.size() + 1)), Step{7});
                c.note("  close in the middle");
                c.label("close-while-busy");
            }
            World W;
            {
                auto r = SyncWait(open_db(cfg, wc, count));
                REQUIRE(r.has_value(), "open-fails", "session {}: open fails with {}", sess, err(r.error()));
                W.db = std::move(*r);
            }
            std::string m2 = slurp(mpath);
            REQUIRE(!m2.empty(), "no-manifest", "an open store has no manifest");
            REQUIRE(manifest.empty() || m2 == manifest, "manifest-changed", "reopening changed the manifest");
            manifest = m2;
            audit(W, "after open");
            {
                std::vector<std::thread> th;
                for (auto& d: ds)
                    th.emplace_back([&W, &d] {
                        try
                        {
                            if (d.whole) SyncWait(drive(W, d));
                            else
                                for (auto& s: d.plan)
                                {
                                    if (d.bad) break;
                                    SyncWait(step(W, d, s));
                                }
                        }
                        catch (const std::exception& e)
                        {
                            if (!d.bad) d.bad = Bad{"exception", std::string("an operation threw: ") + e.what()};
                        }
                    });
                for (auto& t: th) t.join();
            }
            for (auto& d: ds)
            {
                hits += std::exchange(d.hits, 0);
                puts += std::exchange(d.puts, 0);
            }
            std::optional<Bad> bad;
            for (auto& d: ds)
                if (d.bad && !bad) bad = d.bad;
            if (bad)
            {
                if (!W.closed_ok) (void) SyncWait(W.db->close());
                W.db.reset();
                pbt::fail(bad->tag, bad->msg);
            }
            if (!W.closed_ok) audit(W, "before close");
            const size_t closes = 1 + c.chance(1, 5);
            for (size_t i = 0; i < closes; ++i)
            {
                auto r = SyncWait(W.db->close());
                REQUIRE(r.has_value(), "close-fails", "close number {} fails with {}", i + 1, err(r.error()));
            }
            if (c.chance(1, 4))  // operations after that
            {
                W.closing = true;
                auto& d = ds[c.draw(nd)];
                Step s{static_cast<unsigned>(c.draw(7)), c.draw(d.keys.size()), 10, ++ids};
                c.note("  after close: operation kind {}", s.kind);
                SyncWait(step(W, d, s));
                if (d.bad) pbt::fail(d.bad->tag, "after close: " + d.bad->msg);
            }
            W.db.reset();
            REQUIRE(sim::rings_alive() == 0, "ring-leak", "{} rings stay open after the store is gone", sim::rings_alive());
            for (int fd: sim::open_fds())
            {
                std::error_code ec;
                c.note("  open: {} is {}", fd, std::filesystem::read_symlink(std::format("/proc/self/fd/{}", fd), ec).filename().string());
            }
            REQUIRE(sim::open_fds().empty(), "fd-leak", "{} descriptors stay open after the store is gone", sim::open_fds().size());
            REQUIRE(g_bad_close.load() < 0, "bad-close", "descriptor {} was closed although it was not open", g_bad_close.load());
            // each key lives in one partition only
            std::map<std::string, size_t> where;
            std::set<size_t> used;
            for (size_t p = 0; p < count; ++p)
                for (auto& f: list_files(partition_dir(cfg, p)))
                {
                    uint64_t id;
                    if (!is_data(f, id)) continue;
                    for (auto& e: parse_data(slurp(partition_dir(cfg, p) + "/" + f)))
                    {
                        auto [it, fresh] = where.emplace(e.key, p);
                        REQUIRE(it->second == p, "two-partitions", "a key of {} bytes has entries in partitions {} and {}", e.key.size(), it->second, p);
                        used.insert(p);
                    }
                }
            if (used.size() > 1) live_multi++;
            if (c.chance(1, 4)) vary_config(c, cfg);
            if (cfg.compaction_interval_s.count() < 5) cfg.compaction_interval_s = std::chrono::milliseconds(5);
        }
        if (refused) c.label("refusals");
        if (live_multi) c.label("several-partitions-used");
        if (sessions > 1 && live_multi && puts > 5 && hits) c.nontrivial();
    }
}  // namespace
PBT_MAIN(prop)
