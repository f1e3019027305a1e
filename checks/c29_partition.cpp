// C29: the descriptors of a whole partition. Clients read many sealed files through a
// small cache at once, while others write, compact and close.
#include "checks/kv_rig.h"

namespace
{
    using namespace kv;

    struct World
    {
        pbt::Case& c;
        Rig* r = nullptr;
        BitcaskConfig cfg;
        std::vector<std::vector<std::string>> keys;              // of each client
        std::map<std::string, std::optional<std::string>> model;
        std::unique_ptr<Partition> part;
        uint64_t ids = 0;
        std::vector<size_t> left;
        size_t running = 0, gets = 0, most_open = 0, files = 0, concurrent = 0, reading = 0, round = 0, rounds = 0;
        bool closing = false;
    };
    size_t open_data_files(size_t& deleted)
    {
        size_t n = 0;
        for (int fd: sim::open_fds())
        {
            char b[512];
            ssize_t k = ::readlink(std::format("/proc/self/fd/{}", fd).c_str(), b, sizeof b);
            std::string_view p(b, static_cast<size_t>(std::max<ssize_t>(k, 0)));
            if (p.find("/data_") == std::string_view::npos) continue;
            ++n;
            if (p.ends_with(" (deleted)")) ++deleted;
        }
        return n;
    }

    Task<void> read_all(World& W, std::vector<std::string> ks)
    {
        for (auto& k: ks)
        {
            W.gets++;
            if (W.reading++) W.concurrent++;
            auto g = co_await W.part->get(k);
            W.reading--;
            CREQUIRE(g.has_value(), "get-fails", "reading a key fails with {} while descriptors are evicted", err(g.error()));
            std::optional<std::string> v;
            if (g->has_value()) v = str(**g);
            CREQUIRE(v == W.model[k], "wrong-value", "a key reads {} instead of {}", v ? pbt::show(*v, 10) : "nothing", W.model[k] ? pbt::show(*W.model[k], 10) : "nothing");
        }
    }

    void round(World& W, Worker& w);
    DetachedTask rest(World& W, Worker& w)
    {
        // at rest: wait for the background loops' present work
        co_await w.async_sleep(std::chrono::milliseconds(1));
        if (!W.cfg.auto_compact)
        {
            size_t deleted = 0;
            const size_t n = open_data_files(deleted);
            CREQUIRE(deleted == 0, "deleted-kept-open", "{} descriptors of data files removed by compaction are kept at rest", deleted);
            W.files = std::max(W.files, list_files(partition_dir(W.cfg, 0)).size());
            CREQUIRE(n <= W.cfg.max_open_sealed_files + 1, "over-limit", "{} data files are open at rest; the limit for sealed ones is {}", n, W.cfg.max_open_sealed_files);
        }
        if (++W.round < W.rounds)
        {
            round(W, w);
            co_return;
        }
        auto r = co_await W.part->async_close();
        CREQUIRE(r.has_value(), "close-failed", "closing failed with {}", err(r.error()));
        W.r->done = true;
    }

    DetachedTask client(World& W, Worker& w, size_t me)
    {
        auto& c = W.c;
        auto& ks = W.keys[me];
        while (W.left[me] > 0 && !c.failed)
        {
            W.left[me]--;
            switch (c.weighted({5, 6, 1, 1, 1}))
            {
                case 0:
                {
                    const std::string& k = c.pick_from(ks);
                    std::string v = make_value(++W.ids, gen_value_size(c, false, false));
                    c.note("client {} put #{} {} bytes", me, W.ids, v.size());
                    auto r = co_await W.part->put(std::string(k), vec(v));
                    CREQUIRE(r.has_value(), "put-fails", "put fails with {}", err(r.error()));
                    W.model[k] = v;
                    break;
                }
                case 1: co_await read_all(W, ks); break;
                case 2:
                {
                    const std::string& k = c.pick_from(ks);
                    auto r = co_await W.part->del(k);
                    CREQUIRE(r.has_value(), "del-fails", "del fails with {}", err(r.error()));
                    W.model[k] = std::nullopt;
                    break;
                }
                case 3:
                {
                    c.note("client {} compacts", me);
                    auto r = co_await W.part->compact();
                    CREQUIRE(r.has_value(), "compact-fails", "compact fails with {}", err(r.error()));
                    break;
                }
                default: co_await w.async_sleep(gen_pause(c, W.cfg)); break;
            }
        }
        if (--W.running == 0) rest(W, w).detach();
    }
    void round(World& W, Worker& w)
    {
        W.running = W.left.size();
        for (auto& x: W.left) x = 1 + W.c.draw(8);
        for (size_t i = 0, n = W.left.size(); i < n; ++i) client(W, w, i).detach();
    }
    DetachedTask go(World& W, Worker& w)
    {
        auto p = co_await Partition::open(W.cfg, w, 0);
        CREQUIRE(p.has_value(), "open-failed", "opening the partition failed with {}", err(p.error()));
        W.part = std::move(p.value());
        round(W, w);
    }

    void prop(pbt::Case& c)
    {
        setup();
        Clock clock;
        trig::Dir d;
        World W{c};
        W.cfg.directory = d.path;
        vary_config(c, W.cfg);
        W.cfg.max_file_size = c.pick<size_t>({1, 50, 200, 500});
        W.cfg.auto_compact = c.chance(1, 4);
        W.cfg.fragmentation_threshold = c.pick<double>({0.5, 0.3, 0.8, 1.0});
        W.cfg.max_open_sealed_files = c.pick<size_t>({1, 0, 1, 2, 3, 5});
        ::mkdir(partition_dir(W.cfg, 0).c_str(), 0755);
        const size_t n = 1 + c.draw(5);
        W.keys.resize(n);
        auto all = gen_keys(c, n * (1 + c.draw(3)));
        for (size_t i = 0; i < all.size(); ++i) W.keys[i % n].push_back(all[i]);
        const size_t sessions = 1 + c.draw(2);
        for (size_t s = 0; s < sessions && !c.failed; ++s)
        {
            Rig r{c};
            W.r = &r;
            W.left.assign(n, 0);
            W.round = 0;
            W.rounds = 1 + c.draw(3);
            sim::Config sc;
            sc.fresh_fds = c.coin();
            sc.timers_compete = c.coin();
            sc.max_batch = static_cast<unsigned>(c.pick({1, 2, 16}));
            sc.hold_files = true;
            c.note("session {}: limit {} file size {} clients {}", s, W.cfg.max_open_sealed_files, W.cfg.max_file_size, n);
            r.run(sc, worker_config(c), [&](Worker& w) { go(W, w).detach(); });
            const bool done = r.done;
            if (r.crashed || c.failed || !done) (void) W.part.release();
            r.finish();
            W.part.reset();
            if (c.failed) return;
            REQUIRE(done, "stuck", "the history did not finish");
            REQUIRE(g_bad_close < 0, "closed-twice", "descriptor {} closed that was not open", g_bad_close.load());
            REQUIRE(sim::open_fds().empty(), "leak", "{} descriptors stay open after close", sim::open_fds().size());
        }
        if (W.concurrent) c.label("overlapping reads");
        if (W.files > 4) c.label("many files");
        if (W.concurrent > 1 && W.gets > 8 && W.files > W.cfg.max_open_sealed_files + 2) c.nontrivial();
    }
}  // namespace
PBT_MAIN(prop)
