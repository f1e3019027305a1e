// C23: one partition against a map, over histories of puts, gets, deletes,
// flushes, compactions, pauses, closes and reopens.
#include "checks/kv_rig.h"

namespace
{
    using namespace kv;

    struct World
    {
        pbt::Case& c;
        Rig* r = nullptr;
        BitcaskConfig cfg;
        size_t pid = 0;
        std::vector<std::string> keys;
        std::map<std::string, std::string> model;
        std::vector<std::unique_ptr<Partition>> parts;  // closed, or the current one
        uint64_t ids = 0;
        size_t ops = 0, sessions = 0, gets = 0, compactions = 0, reopens = 0, rotations = 0;
        bool vary = false;
        size_t left = 0;
    };

    Task<void> check_get(World& W, const std::string& k, const char* when)
    {
        auto g = co_await W.parts.back()->get(k);
        CREQUIRE(g.has_value(), "get-failed", "{}: get({}) failed with {}", when, pbt::show(k), err(g.error()));
        auto it = W.model.find(k);
        if (it == W.model.end())
        {
            CREQUIRE(!g->has_value(), "resurrected", "{}: get({}) gives {} although the key is not there", when, pbt::show(k), pbt::show(str(**g)));
        }
        else
        {
            CREQUIRE(g->has_value(), "lost", "{}: get({}) gives nothing, {} was put", when, pbt::show(k), pbt::show(it->second));
            CREQUIRE(str(**g) == it->second, "wrong-value", "{}: get({}) gives {}, {} was put", when, pbt::show(k), pbt::show(str(**g)), pbt::show(it->second));
        }
        W.gets++;
    }
    Task<void> audit(World& W, const char* when)
    {
        for (auto& k: W.keys) co_await check_get(W, k, when);
    }
    Task<void> open(World& W, Worker& w)
    {
        Clock::move(W.c);
        auto p = co_await Partition::open(W.cfg, w, W.pid);
        CREQUIRE(p.has_value(), "open-failed", "opening the partition failed with {}", err(p.error()));
        W.parts.push_back(std::move(p.value()));
    }
    Task<void> close(World& W)
    {
        W.rotations += W.parts.back()->get_stats().file_rotations_total;
        auto r = co_await W.parts.back()->async_close();
        CREQUIRE(r.has_value(), "close-failed", "closing the partition failed with {}", err(r.error()));
        if (W.c.coin()) W.parts.back().reset();
    }

    Task<void> session(World& W, Worker& w)
    {
        auto& c = W.c;
        co_await open(W, w);
        co_await audit(W, "after opening");
        bool is_open = true;
        for (size_t n = c.steps(50); n-- > 0 && !c.failed;)
        {
            W.ops++;
            const std::string& k = c.pick_from(W.keys);
            switch (c.weighted({10, 4, 5, 1, 2, 2, 1}))
            {
                case 0:
                {
                    std::string v = make_value(++W.ids, gen_value_size(c));
                    c.note("put {} {} bytes", pbt::show(k, 20), v.size());
                    auto r = co_await W.parts.back()->put(std::string(k), vec(v));
                    CREQUIRE(r.has_value(), "put-failed", "put({}) of {} bytes failed with {}", pbt::show(k), v.size(), err(r.error()));
                    W.model[k] = v;
                    break;
                }
                case 1: co_await check_get(W, k, "during the history"); break;
                case 2:
                {
                    c.note("del {}", pbt::show(k, 20));
                    auto r = co_await W.parts.back()->del(k);
                    CREQUIRE(r.has_value(), "del-failed", "del({}) failed with {}", pbt::show(k), err(r.error()));
                    W.model.erase(k);
                    break;
                }
                case 3:
                {
                    auto r = co_await W.parts.back()->sync();
                    CREQUIRE(r.has_value(), "sync-failed", "sync failed with {}", err(r.error()));
                    break;
                }
                case 4:
                {
                    c.note("compact");
                    auto r = co_await W.parts.back()->compact();
                    CREQUIRE(r.has_value(), "compact-failed", "compaction failed with {}", err(r.error()));
                    W.compactions++;
                    co_await audit(W, "after compaction");
                    break;
                }
                case 5:
                {
                    const auto ms = gen_pause(c, W.cfg);
                    c.note("pause {} ms", ms.count());
                    co_await w.async_sleep(ms);
                    Clock::move(c);
                    break;
                }
                default:
                {
                    c.note("reopen");
                    co_await close(W);
                    if (W.vary) vary_config(c, W.cfg);
                    co_await open(W, w);
                    W.reopens++;
                    co_await audit(W, "after reopening");
                    break;
                }
            }
        }
        (void) is_open;
        co_await audit(W, "at the end");
        co_await close(W);
    }
    DetachedTask go(World& W, Worker& w)
    {
        co_await session(W, w);
        W.r->done = true;
    }

    void prop(pbt::Case& c)
    {
        setup();
        Clock clock;
        g_mono_step = c.pick({1, 1, 0, 1000});
        trig::Dir d;
        World W{c};
        W.cfg.directory = d.path;
        vary_config(c, W.cfg);
        W.vary = c.coin();
        W.pid = c.pick<size_t>({0, 1, 7, 255, 65535});
        W.keys = gen_keys(c, 1 + c.draw(c.coin() ? 4 : 12));
        ::mkdir(partition_dir(W.cfg, W.pid).c_str(), 0755);
        unsigned shorten = static_cast<unsigned>(c.pick({0, 0, 300}));
        W.left = 1 + c.draw(3);
        for (size_t s = 0; s < W.left && !c.failed; ++s)
        {
            Rig r{c};
            W.r = &r;
            if (s) W.reopens++;
            if (c.chance(1, 4)) g_mono = 1'000'000'000 + c.draw(5'000'000'000);  // the machine was restarted
            if (s && W.vary) vary_config(c, W.cfg);
            sim::Config sc;
            sc.hold_files = sc.fresh_fds = true;
            sc.reorder = c.coin();
            sc.timers_compete = c.coin();
            if (shorten)
                sc.fault = [&](sim::Op& o) {
                    sim::Fault f;
                    if (o.is_transfer() && o.bytes() > 1 && c.draw(1000) < shorten) f.limit = 1 + c.draw(o.bytes() - 1);
                    return f;
                };
            c.note("session {}: max_file_size {} read {} write {} threshold {} auto {} cache {}", s, W.cfg.max_file_size, W.cfg.read_buffer_size, W.cfg.write_buffer_size, W.cfg.fragmentation_threshold, W.cfg.auto_compact, W.cfg.max_open_sealed_files);
            r.run(sc, worker_config(c), [&](Worker& w) { go(W, w).detach(); });
            bool done = r.done;
            if (r.crashed || c.failed || !done)
                for (auto& p: W.parts) (void) p.release();
            r.finish();
            if (c.failed) return;
            REQUIRE(done, "stuck", "the history did not finish");
            W.parts.clear();
            REQUIRE(g_bad_close < 0, "closed-twice", "descriptor {} closed that was not open", g_bad_close.load());
        }
        c.note("{} operations, {} rotations, {} compactions, {} reopens", W.ops, W.rotations, W.compactions, W.reopens);
        if (W.rotations) c.label("rotated");
        if (W.compactions) c.label("compacted");
        if (W.rotations && W.compactions && W.reopens && W.ops > 10) c.nontrivial();
    }
}  // namespace
PBT_MAIN(prop)
