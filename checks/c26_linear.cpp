// C26: many coroutines use one partition at once while it rotates and compacts;
// the history of each key must be linearizable, also with what is read after
// everything has completed and after reopening.
#include "checks/kv_rig.h"
#include "checks/linear.h"

namespace
{
    using namespace kv;

    struct World
    {
        pbt::Case& c;
        Rig* r = nullptr;
        BitcaskConfig cfg;
        size_t pid = 0;
        std::vector<std::string> keys;
        std::map<std::string, std::vector<lin::Op>> hist;
        std::unique_ptr<Partition> part;
        uint64_t ids = 0, time = 0;
        std::vector<size_t> left;
        size_t running = 0, compactions = 0, overlaps = 0, in_flight = 0, rotations = 0, ops = 0;
        bool closing = false, early_close = false, closed = false;
    };

    std::string show(const lin::Value& v) { return v ? pbt::show(*v, 12) : "nothing"; }

    Task<void> do_put(World& W, size_t me, std::string k)
    {
        std::string v = make_value(++W.ids, gen_value_size(W.c, false));
        auto& h = W.hist[k];
        const size_t at = h.size();
        h.push_back({0, v, ++W.time, UINT64_MAX, std::format("client {} put #{}", me, W.ids)});
        W.c.note("{}: client {} put {} #{} {} bytes", W.time, me, pbt::show(k, 10), W.ids, v.size());
        if (W.in_flight++) W.overlaps++;
        auto r = co_await W.part->put(std::string(k), vec(v));
        W.in_flight--;
        if (!r.has_value())
        {
            CREQUIRE(W.closing, "put-failed", "put({}) failed with {}", pbt::show(k), err(r.error()));
            co_return;
        }
        W.hist[k][at].res = ++W.time;
        W.c.note("{}: client {} put done", W.time, me);
    }
    Task<void> do_del(World& W, size_t me, std::string k)
    {
        auto& h = W.hist[k];
        const size_t at = h.size();
        h.push_back({0, std::nullopt, ++W.time, UINT64_MAX, std::format("client {} del", me)});
        W.c.note("{}: client {} del {}", W.time, me, pbt::show(k, 10));
        if (W.in_flight++) W.overlaps++;
        auto r = co_await W.part->del(k);
        W.in_flight--;
        if (!r.has_value())
        {
            CREQUIRE(W.closing, "del-failed", "del({}) failed with {}", pbt::show(k), err(r.error()));
            co_return;
        }
        W.hist[k][at].res = ++W.time;
        W.c.note("{}: client {} del done", W.time, me);
    }
    Task<void> do_get(World& W, size_t me, std::string k, const char* when)
    {
        auto& h = W.hist[k];
        const size_t at = h.size();
        h.push_back({1, std::nullopt, ++W.time, UINT64_MAX, std::format("client {} get", me)});
        W.c.note("{}: client {} get {}", W.time, me, pbt::show(k, 10));
        W.in_flight++;
        auto g = co_await W.part->get(k);
        W.in_flight--;
        if (!g.has_value())
        {
            CREQUIRE(W.closing, "get-failed", "{}: get({}) failed with {}", when, pbt::show(k), err(g.error()));
            co_return;
        }
        auto& o = W.hist[k][at];
        if (g->has_value()) o.v = str(**g);
        o.res = ++W.time;
        W.c.note("{}: client {} get gives {}", W.time, me, show(o.v));
    }
    void verify(World& W, const char* when)
    {
        for (auto& [k, h]: W.hist)
        {
            if (lin::linearizable(h)) continue;
            std::string s;
            for (auto& o: h) s += std::format("\n  [{}..{}] {} {}", o.inv, o.res == UINT64_MAX ? std::string("failed") : std::to_string(o.res), o.what, show(o.v));
            sim::abort_case("not-linearizable", std::format("{}: no order of the operations on {} explains their results:{}", when, pbt::show(k, 30), s));
        }
    }

    DetachedTask finish(World& W)
    {
        if (!W.closed)
        {
            for (auto& k: W.keys) co_await do_get(W, 99, k, "at the end");
            verify(W, "after everything has completed");
            W.rotations += W.part->get_stats().file_rotations_total;
            W.closing = true;
            auto r = co_await W.part->async_close();
            CREQUIRE(r.has_value(), "close-failed", "closing failed with {}", err(r.error()));
            W.closed = true;
        }
        W.r->done = true;
    }

    DetachedTask client(World& W, Worker& w, size_t me)
    {
        auto& c = W.c;
        while (W.left[me] > 0 && !c.failed)
        {
            W.left[me]--;
            W.ops++;
            const std::string k = c.pick_from(W.keys);
            switch (c.weighted({9, 6, 4, 2, 1, 1}))
            {
                case 0: co_await do_put(W, me, k); break;
                case 1: co_await do_get(W, me, k, "during the history"); break;
                case 2: co_await do_del(W, me, k); break;
                case 3:
                {
                    c.note("client {} compact", me);
                    auto r = co_await W.part->compact();
                    CREQUIRE(r.has_value() || W.closing, "compact-failed", "compaction failed with {}", err(r.error()));
                    W.compactions++;
                    break;
                }
                case 4: co_await w.async_sleep(gen_pause(c, W.cfg)); Clock::move(c); break;
                default:
                    if (W.early_close && me == 0 && !W.closing)
                    {
                        c.note("client {} closes", me);
                        W.closing = true;
                        auto r = co_await W.part->async_close();
                        CREQUIRE(r.has_value(), "close-failed", "closing failed with {}", err(r.error()));
                        W.closed = true;
                        c.note("closed");
                    }
                    else if (auto r = co_await W.part->sync(); !r.has_value()) CREQUIRE(W.closing, "sync-failed", "sync failed with {}", err(r.error()));
                    break;
            }
        }
        if (--W.running == 0) finish(W).detach();
    }

    DetachedTask go(World& W, Worker& w)
    {
        auto p = co_await Partition::open(W.cfg, w, W.pid);
        CREQUIRE(p.has_value(), "open-failed", "opening the partition failed with {}", err(p.error()));
        W.part = std::move(p.value());
        W.closing = W.closed = false;
        for (auto& k: W.keys) co_await do_get(W, 98, k, "after opening");
        verify(W, "after opening");
        W.running = W.left.size();
        for (size_t i = 0, n = W.left.size(); i < n; ++i) client(W, w, i).detach();
    }

    void prop(pbt::Case& c)
    {
        setup();
        Clock clock;
        g_mono_step = c.pick({1, 0});
        trig::Dir d;
        World W{c};
        W.cfg.directory = d.path;
        vary_config(c, W.cfg);
        W.pid = c.pick<size_t>({0, 2});
        W.keys = gen_keys(c, 1 + c.draw(3));
        ::mkdir(partition_dir(W.cfg, W.pid).c_str(), 0755);
        const size_t sessions = 1 + c.draw(2);
        for (size_t s = 0; s <= sessions && !c.failed; ++s)
        {
            Rig r{c};
            W.r = &r;
            W.left.assign(1 + c.draw(6), 0);
            // the last one only looks at what is left
            if (s < sessions)
                for (auto& x: W.left) x = 1 + c.draw(8);
            W.early_close = c.chance(1, 4);
            Clock::move(c);
            sim::Config sc;
            sc.hold_files = sc.fresh_fds = true;
            sc.timers_compete = c.coin();
            sc.max_batch = static_cast<unsigned>(c.pick({1, 2, 16}));
            const unsigned shorten = static_cast<unsigned>(c.pick({0, 0, 200}));
            sc.fault = [&](sim::Op& o) {
                sim::Fault f;
                if (shorten && o.is_transfer() && o.bytes() > 1 && c.draw(1000) < shorten) f.limit = 1 + c.draw(o.bytes() - 1);
                return f;
            };
            c.note("session {}: max_file_size {} read {} write {} threshold {} auto {} cache {} clients {}", s, W.cfg.max_file_size, W.cfg.read_buffer_size, W.cfg.write_buffer_size, W.cfg.fragmentation_threshold, W.cfg.auto_compact, W.cfg.max_open_sealed_files, W.left.size());
            r.run(sc, worker_config(c), [&](Worker& w) { go(W, w).detach(); });
            const bool done = r.done;
            if (r.crashed || c.failed || !done) (void) W.part.release();
            r.finish();
            W.part.reset();
            if (c.failed) return;
            REQUIRE(done, "stuck", "the history did not finish");
            REQUIRE(g_bad_close < 0, "closed-twice", "descriptor {} closed that was not open", g_bad_close.load());
        }
        if (W.overlaps) c.label("overlapping updates");
        if (W.compactions) c.label("compacted");
        if (W.rotations) c.label("rotated");
        if (W.overlaps > 2 && W.ops > 8 && (W.compactions || W.rotations)) c.nontrivial();
    }
}  // namespace
PBT_MAIN(prop)
