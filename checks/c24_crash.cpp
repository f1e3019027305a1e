// C24: the process stops at an arbitrary storage operation (completed, torn or not
// started), optionally losing what was not flushed; the partition is reopened and
// every key must have the last acknowledged value or one that was in flight.
#include "checks/kv_rig.h"

namespace
{
    using namespace kv;
    using MaybeValue = std::optional<std::string>;

    struct World
    {
        pbt::Case& c;
        Rig* r = nullptr;
        BitcaskConfig cfg;
        size_t pid = 0;
        std::vector<std::string> keys;
        std::map<std::string, std::vector<MaybeValue>> cand;  // the first is the acknowledged one
        std::unique_ptr<Partition> part;
        uint64_t ids = 0;
        size_t clients = 1, running = 0, acked = 0, compactions = 0, audited = 0;
        std::vector<size_t> left;
        bool closing = false;
        bool open = false;
        size_t rotations = 0;
    };

    std::string show(const MaybeValue& v) { return v ? pbt::show(*v, 20) : "nothing"; }
    std::string show(const std::vector<MaybeValue>& v)
    {
        std::string s;
        for (auto& x: v) s += (s.empty() ? "" : " or ") + show(x);
        return s;
    }

    // what the key has must be possible; from here on it is what it has
    Task<void> check(World& W, std::string k, const char* when)
    {
        auto& cs = W.cand[k];
        auto g = co_await W.part->get(k);
        CREQUIRE(g.has_value(), "get-failed", "{}: get({}) failed with {}", when, pbt::show(k), err(g.error()));
        MaybeValue v;
        if (g->has_value()) v = str(**g);
        bool ok = std::find(cs.begin(), cs.end(), v) != cs.end();
        CREQUIRE(ok, cs.size() > 1 ? "wrong-in-flight" : v ? "wrong-value" : "lost", "{}: get({}) gives {}, expected {}", when, pbt::show(k), show(v), show(cs));
        cs = {v};
        W.audited++;
    }

    DetachedTask client(World& W, Worker& w, size_t me)
    {
        auto& c = W.c;
        std::vector<std::string> mine;
        for (size_t i = me; i < W.keys.size(); i += W.clients) mine.push_back(W.keys[i]);
        while (W.left[me] > 0 && !c.failed)
        {
            W.left[me]--;
            if (mine.empty()) break;
            const std::string& k = c.pick_from(mine);
            switch (c.weighted({12, 2, 5, 1, 3, 1}))
            {
                case 0:
                {
                    std::string v = make_value(++W.ids, gen_value_size(c));
                    auto& cs = W.cand[k];
                    cs.push_back(v);
                    c.note("client {}: put {} #{} {} bytes", me, pbt::show(k, 10), W.ids, v.size());
                    auto r = co_await W.part->put(std::string(k), vec(v));
                    CREQUIRE(r.has_value(), "put-failed", "put({}) failed with {}", pbt::show(k), err(r.error()));
                    c.note("client {}: acknowledged", me);
                    W.cand[k] = {v};
                    W.acked++;
                    break;
                }
                case 1: co_await check(W, k, "before the crash"); break;
                case 2:
                {
                    W.cand[k].push_back(std::nullopt);
                    c.note("client {}: del {}", me, pbt::show(k, 10));
                    auto r = co_await W.part->del(k);
                    CREQUIRE(r.has_value(), "del-failed", "del({}) failed with {}", pbt::show(k), err(r.error()));
                    c.note("client {}: acknowledged", me);
                    W.cand[k] = {std::nullopt};
                    W.acked++;
                    break;
                }
                case 3: (void) co_await W.part->sync(); break;
                case 4:
                {
                    c.note("client {}: compact", me);
                    auto r = co_await W.part->compact();
                    CREQUIRE(r.has_value(), "compact-failed", "compaction failed with {}", err(r.error()));
                    c.note("client {}: compacted", me);
                    W.compactions++;
                    break;
                }
                default:
                    co_await w.async_sleep(gen_pause(c, W.cfg));
                    Clock::move(c);
                    break;
            }
        }
        if (--W.running == 0)
        {
            c.note("closing");
            auto r = co_await W.part->async_close();
            CREQUIRE(r.has_value(), "close-failed", "closing failed with {}", err(r.error()));
            c.note("closed");
            W.open = false;
            W.r->done = true;
        }
    }

    DetachedTask go(World& W, Worker& w)
    {
        auto p = co_await Partition::open(W.cfg, w, W.pid);
        CREQUIRE(p.has_value(), "open-failed", "opening the partition failed with {}", err(p.error()));
        W.part = std::move(p.value());
        W.open = true;
        for (auto& k: W.keys) co_await check(W, k, "after reopening");
        W.c.note("opened");
        W.running = W.clients;
        for (size_t i = 0; i < W.clients; ++i) client(W, w, i).detach();
    }

    void prop(pbt::Case& c)
    {
        setup();
        Clock clock;
        g_mono_step = c.pick({1, 0});
        trig::Dir d;
        World W{c};
        W.cfg.directory = d.path;
        vary_config(c, W.cfg);
        W.pid = c.pick<size_t>({0, 3});
        W.keys = gen_keys(c, 1 + c.draw(6));
        for (auto& k: W.keys) W.cand[k] = {std::nullopt};
        W.clients = 1 + c.draw(3);
        const std::string dir = partition_dir(W.cfg, W.pid);
        ::mkdir(dir.c_str(), 0755);
        const bool power = W.cfg.sync_on_write && c.coin();
        size_t crashes = 0, lossy = 0;
        const size_t sessions = 2 + c.draw(3);
        for (size_t s = 0; s < sessions && !c.failed; ++s)
        {
            Rig r{c};
            W.r = &r;
            Clock::move(c);
            const bool last = s + 1 == sessions;
            uint64_t crash_at = UINT64_MAX, n = 0;
            if (!last) crash_at = c.draw(1ULL << (3 + c.draw(6)));
            size_t torn = c.draw(4);
            W.left.assign(W.clients, 0);
            for (auto& x: W.left) x = last ? c.draw(6) : c.steps(30);
            sim::Config sc;
            sc.hold_files = sc.fresh_fds = true;
            sc.reorder = c.coin();
            sc.timers_compete = c.coin();
            sc.fault = [&](sim::Op& o) {
                sim::Fault f;
                bool storage = o.opcode != IORING_OP_TIMEOUT;
                if (storage && n++ == crash_at)
                {
                    f.crash = true;
                    f.limit = torn == 0 ? SIZE_MAX : torn == 1 ? 0 : o.is_write() && o.bytes() > 1 ? 1 + c.draw(o.bytes() - 1) : 0;
                    if (!o.is_transfer() && f.limit) f.limit = SIZE_MAX;
                    c.note("crash at {} ({})", sim::opname(o.opcode), torn == 0 ? "done" : torn == 1 ? "not done" : "in part");
                    c.label(std::string("crash at ") + sim::opname(o.opcode));
                }
                return f;
            };
            c.note("session {}: max_file_size {} write {} threshold {} auto {} sync {} clients {}", s, W.cfg.max_file_size, W.cfg.write_buffer_size, W.cfg.fragmentation_threshold, W.cfg.auto_compact, W.cfg.sync_on_write, W.clients);
            r.run(sc, worker_config(c), [&](Worker& w) {
                if (power)
                {
                    sim::track_storage(dir);
                    for (auto& f: list_files(dir)) sim::storage_adopt(dir + "/" + f);
                }
                go(W, w).detach();
            });
            const bool crashed = r.crashed && !c.failed;
            if (crashed)
            {
                sim::close_open_fds();
                crashes++;
                if (power && c.coin())
                {
                    c.note("power lost");
                    sim::power_loss(c);
                    lossy++;
                }
            }
            const bool done = r.done;
            if (W.part) W.rotations += W.part->get_stats().file_rotations_total;
            if (r.crashed || c.failed || !done) (void) W.part.release();
            r.finish();
            W.part.reset();
            if (c.failed) return;
            REQUIRE(done || crashed, "stuck", "the history did not finish");
        }
        if (lossy) c.label("power lost");
        if (crashes) c.label("crashed");
        if (W.compactions) c.label("compacted");
        if (crashes && W.acked > 3 && (W.compactions || W.rotations)) c.nontrivial();
    }
}  // namespace
PBT_MAIN(prop)
