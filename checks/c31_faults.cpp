// C31: storage operations of a partition fail or fall short at chosen points. What a call
// reports must be what happened, other keys stay as they are, operations work again once
// storage does, and reopening agrees with what was acknowledged.
#include "checks/kv_rig.h"

namespace
{
    using namespace kv;
    using Maybe = std::vector<std::optional<std::string>>;

    struct World
    {
        pbt::Case& c;
        Rig* r = nullptr;
        BitcaskConfig cfg;
        std::vector<std::vector<std::string>> keys;
        std::map<std::string, Maybe> model;
        std::unique_ptr<Partition> part;
        uint64_t ids = 0;
        std::vector<size_t> left;
        size_t running = 0;
        bool faulty = false;      // faults may fire
        uint64_t fired = 0;       // faults so far, short transfers not counted
        uint64_t shorts = 0;
        std::map<std::string, size_t> by_op;
        size_t failed_ops = 0, survived = 0, failed_opens = 0, failed_closes = 0, reopened_after = 0, acked = 0, open_tries = 0;
        size_t dirty = 0;         // failed updates so far
    };
    std::string show(const std::optional<std::string>& v) { return v ? std::format("{} ({} bytes)", pbt::show(v->substr(0, 8), 8), v->size()) : "nothing"; }
    bool allowed(const Maybe& m, const std::optional<std::string>& v) { return std::find(m.begin(), m.end(), v) != m.end(); }

    // ----- when storage fails -----
    struct Plan
    {
        unsigned mode = 0;        // 0 never, 1 now and then, 2 at a position, 3 one kind of operation, 4 one kind of file, 5 disk full
        unsigned per_mille = 0, shorten = 0;
        uint64_t at = 0, burst = 1, seen = 0;
        uint8_t opcode = 0;
        std::string part;
        uint64_t until = 0;
        bool tail = false;        // a short transfer is followed by a failure
        int tail_fd = -1;
    };
    Plan gen_plan(pbt::Case& c)
    {
        Plan p;
        p.mode = static_cast<unsigned>(c.weighted({1, 4, 6, 3, 2, 2}));
        p.per_mille = static_cast<unsigned>(c.pick({20, 5, 60, 150}));
        p.shorten = static_cast<unsigned>(c.pick({0, 0, 100, 400}));
        p.at = c.draw(c.pick({20u, 60u, 200u}));
        p.burst = c.pick({1, 1, 1, 2, 3, 6});
        p.opcode = static_cast<uint8_t>(c.pick<int>({IORING_OP_WRITE, IORING_OP_OPENAT, IORING_OP_READ, IORING_OP_FSYNC, IORING_OP_UNLINKAT, IORING_OP_FALLOCATE, 55}));
        p.part = c.pick({"hint_", "data_"});
        p.until = p.at + c.pick({3, 10, 40, 1000});
        p.tail = c.coin();
        return p;
    }
    int gen_error(pbt::Case& c, uint8_t op)
    {
        switch (op)
        {
            case IORING_OP_OPENAT: return c.pick({EMFILE, EIO, EACCES, ENOSPC, ENOENT, ENFILE});
            case IORING_OP_WRITE: case IORING_OP_WRITEV: return c.pick({ENOSPC, EIO, EDQUOT, EINTR, EAGAIN});
            case IORING_OP_FALLOCATE: return c.pick({ENOSPC, EIO, EOPNOTSUPP});
            case IORING_OP_UNLINKAT: return c.pick({EIO, EPERM, EBUSY});
            default: return c.pick({EIO, EINTR, EAGAIN, ENOMEM});
        }
    }
    sim::Fault decide(World& W, Plan& p, sim::Op& o)
    {
        sim::Fault f;
        auto& c = W.c;
        if (!W.faulty || o.wakeup || o.opcode == IORING_OP_TIMEOUT || o.opcode == IORING_OP_CLOSE) return f;
        const uint64_t n = p.seen++;
        bool hit = false;
        switch (p.mode)
        {
            case 0: break;
            case 1: hit = c.draw(1000) < p.per_mille; break;
            case 2: hit = n >= p.at && n < p.at + p.burst; break;
            case 3: hit = o.opcode == p.opcode && n >= p.at && n < p.until && c.coin(); break;
            case 4:
            {
                std::string path = o.path;
                if (path.empty() && o.fd >= 0)
                {
                    std::error_code ec;
                    path = std::filesystem::read_symlink(std::format("/proc/self/fd/{}", o.real_fd()), ec).string();
                }
                hit = path.find("/" + p.part) != std::string::npos && n >= p.at && n < p.until && c.coin();
                break;
            }
            default: hit = n >= p.at && n < p.until && (o.is_write() || (o.opcode == IORING_OP_OPENAT && (o.op_flags & O_CREAT)) || o.opcode == IORING_OP_FALLOCATE); break;
        }
        if (o.is_transfer() && o.fd == p.tail_fd) hit = true;
        if (!hit)
        {
            if (p.shorten && o.is_transfer() && o.bytes() > 1 && c.draw(1000) < p.shorten)
            {
                f.limit = 1 + c.draw(o.bytes() - 1);
                W.shorts++;
            }
            return f;
        }
        if (o.is_transfer() && o.bytes() > 1 && o.fd != p.tail_fd && p.tail && c.coin())
        {
            // falls short now, fails next time
            f.limit = 1 + c.draw(o.bytes() - 1);
            p.tail_fd = o.fd;
            W.fired++;
            c.note("    {} of {} bytes falls short ({})", sim::opname(o.opcode), o.bytes(), f.limit);
            return f;
        }
        if (o.fd == p.tail_fd) p.tail_fd = -1;
        f.error = p.mode == 5 ? ENOSPC : gen_error(c, o.opcode);
        W.fired++;
        W.by_op[sim::opname(o.opcode)]++;
        c.note("    {} {} fails with {}", sim::opname(o.opcode), o.path.empty() ? "" : o.path.substr(o.path.rfind('/') + 1), std::string(strerror(f.error)));
        return f;
    }

    // a failure needs a fault since `from`
    void outcome(World& W, const char* what, bool ok, uint64_t from, const kio::Error& e)
    {
        if (ok)
        {
            if (W.fired > from) W.survived++;
            return;
        }
        W.failed_ops++;
        CREQUIRE(W.fired > from, "fails-by-itself", "{} fails with {} although no storage operation failed meanwhile ({} had failed before)", what, err(e), from);
    }

    Task<void> check_key(World& W, std::string k, const char* when)
    {
        const uint64_t from = W.fired;
        auto g = co_await W.part->get(k);
        outcome(W, "get", g.has_value(), from, g.has_value() ? kio::Error{} : g.error());
        if (!g.has_value()) co_return;
        std::optional<std::string> v;
        if (g->has_value()) v = str(**g);
        auto& m = W.model[k];
        std::string want;
        for (auto& x: m) want += (want.empty() ? "" : " or ") + show(x);
        CREQUIRE(allowed(m, v), "wrong-value", "{}: {} reads {} instead of {}", when, pbt::show(k, 10), show(v), want);
    }

    DetachedTask finish(World& W)
    {
        for (auto& ks: W.keys)
            for (auto& k: ks) co_await check_key(W, k, "at the end");
        for (int tries = 0;; ++tries)
        {
            const uint64_t from = W.fired;
            if (tries == 3) W.faulty = false;
            auto r = co_await W.part->async_close();
            outcome(W, "close", r.has_value(), from, r.has_value() ? kio::Error{} : r.error());
            W.c.note("close {}", r.has_value() ? "done" : "fails");
            if (r.has_value()) break;
            W.failed_closes++;
        }
        W.r->done = true;
    }

    DetachedTask client(World& W, Worker& w, size_t me)
    {
        auto& c = W.c;
        auto& ks = W.keys[me];
        while (W.left[me] > 0 && !c.failed)
        {
            W.left[me]--;
            const std::string k = c.pick_from(ks);
            const uint64_t from = W.fired;
            switch (c.weighted({9, 4, 4, 3, 2, 1}))
            {
                case 0:
                {
                    std::string v = make_value(++W.ids, gen_value_size(c, false));
                    c.note("client {}: put {} #{} {} bytes", me, pbt::show(k, 10), W.ids, v.size());
                    auto r = co_await W.part->put(std::string(k), vec(v));
                    c.note("client {}: put {}", me, r.has_value() ? "done" : "fails");
                    outcome(W, "put", r.has_value(), from, r.has_value() ? kio::Error{} : r.error());
                    if (r.has_value())
                    {
                        W.model[k] = {v};
                        W.acked++;
                    }
                    else
                    {
                        W.model[k].push_back(v);
                        W.dirty++;
                    }
                    co_await check_key(W, k, "after a put");
                    break;
                }
                case 1: co_await check_key(W, k, "during the history"); break;
                case 2:
                {
                    c.note("client {}: delete {}", me, pbt::show(k, 10));
                    auto r = co_await W.part->del(k);
                    c.note("client {}: delete {}", me, r.has_value() ? "done" : "fails");
                    outcome(W, "delete", r.has_value(), from, r.has_value() ? kio::Error{} : r.error());
                    if (r.has_value()) W.model[k] = {std::nullopt};
                    else
                    {
                        W.model[k].push_back(std::nullopt);
                        W.dirty++;
                    }
                    co_await check_key(W, k, "after a delete");
                    break;
                }
                case 3:
                {
                    c.note("client {}: compact", me);
                    const bool alone = W.left.size() == 1 && !W.cfg.auto_compact;
                    std::vector<uint64_t> due;
                    if (alone)
                    {
                        uint64_t newest = 0, id;
                        std::set<uint64_t> there;
                        for (auto& f: list_files(partition_dir(W.cfg, 0)))
                            if (is_data(f, id))
                            {
                                newest = std::max(newest, id);
                                there.insert(id);
                            }
                        for (auto& [i, st]: W.part->get_stats().data_files)
                            if (i != newest && there.count(i) && st.total_bytes > 0 && st.fragmentation() > W.cfg.fragmentation_threshold + 1e-9) due.push_back(i);
                    }
                    auto r = co_await W.part->compact();
                    if (r.has_value())
                        for (auto id: due)
                            CREQUIRE(!std::filesystem::exists(partition_dir(W.cfg, 0) + std::format("/data_{}.db", id)), "success-without-effect", "a compaction reports success but file {}, which was due, is still there", id);
                    c.note("client {}: compaction {}", me, r.has_value() ? "done" : "fails");
                    outcome(W, "compact", r.has_value(), from, r.has_value() ? kio::Error{} : r.error());
                    for (auto& x: ks) co_await check_key(W, x, "after a compaction");
                    break;
                }
                case 4:
                {
                    auto r = co_await W.part->sync();
                    outcome(W, "sync", r.has_value(), from, r.has_value() ? kio::Error{} : r.error());
                    break;
                }
                default: co_await w.async_sleep(gen_pause(c, W.cfg)); break;
            }
        }
        if (--W.running == 0) finish(W).detach();
    }

    DetachedTask go(World& W, Worker& w)
    {
        for (int tries = 0;; ++tries)
        {
            W.open_tries++;
            const uint64_t from = W.fired;
            if (tries == 3) W.faulty = false;
            auto p = co_await Partition::open(W.cfg, w, 0);
            W.c.note("open {}", p.has_value() ? "done" : "fails");
            outcome(W, "open", p.has_value(), from, p.has_value() ? kio::Error{} : p.error());
            if (p.has_value())
            {
                W.part = std::move(p.value());
                break;
            }
            W.failed_opens++;
        }
        for (auto& ks: W.keys)
            for (auto& k: ks) co_await check_key(W, k, "after opening");
        W.running = W.left.size();
        for (size_t i = 0, n = W.left.size(); i < n; ++i) client(W, w, i).detach();
    }

    void prop(pbt::Case& c)
    {
        setup();
        Clock clock;
        trig::Dir d;
        World W{c};
        W.cfg.directory = d.path;
        vary_config(c, W.cfg);
        if (c.coin()) W.cfg.auto_compact = false;
        ::mkdir(partition_dir(W.cfg, 0).c_str(), 0755);
        const size_t n = 1 + (c.coin() ? c.draw(3) : 0);
        W.keys.resize(n);
        auto all = gen_keys(c, n * (1 + c.draw(4)));
        for (size_t i = 0; i < all.size(); ++i)
        {
            W.keys[i % n].push_back(all[i]);
            W.model[all[i]] = {std::nullopt};
        }
        const size_t sessions = 1 + c.draw(3);
        for (size_t s = 0; s <= sessions && !c.failed; ++s)
        {
            const bool last = s == sessions;  // only looks, nothing fails
            Rig r{c};
            W.r = &r;
            W.left.assign(n, 0);
            if (!last)
                for (auto& x: W.left) x = 1 + c.draw(n == 1 ? 30 : 12);
            Plan p = gen_plan(c);
            W.faulty = !last;
            if (last && W.dirty) W.reopened_after++;
            Clock::move(c);
            sim::Config sc;
            sc.hold_files = sc.fresh_fds = true;
            sc.timers_compete = c.coin();
            sc.max_batch = static_cast<unsigned>(c.pick({1, 2, 16}));
            sc.fault = [&](sim::Op& o) { return decide(W, p, o); };
            c.note("session {}: max_file_size {} read {} write {} threshold {} auto {} cache {} sync {} clients {}; faults: mode {} at {} burst {} rate {} short {} op {} file {}", s, W.cfg.max_file_size, W.cfg.read_buffer_size, W.cfg.write_buffer_size, W.cfg.fragmentation_threshold, W.cfg.auto_compact, W.cfg.max_open_sealed_files, W.cfg.sync_on_write, n, last ? 0 : p.mode, p.at, p.burst, p.per_mille, p.shorten, sim::opname(p.opcode), p.part);
            r.run(sc, worker_config(c), [&](Worker& w) { go(W, w).detach(); });
            const bool done = r.done;
            if (r.crashed || c.failed || !done) (void) W.part.release();
            r.finish();
            W.part.reset();
            if (c.failed) return;
            REQUIRE(done, "stuck", "the history did not finish");
            REQUIRE(g_bad_close < 0, "closed-twice", "descriptor {} closed that was not open", g_bad_close.load());
            REQUIRE(sim::open_fds().empty(), "leak", "{} descriptors stay open after close", sim::open_fds().size());
        }
        for (auto& [k, v]: W.by_op) c.label("failed-" + k);
        if (W.failed_opens) c.label("open-failed");
        if (W.failed_closes) c.label("close-failed");
        if (W.survived) c.label("succeeded-despite-fault");
        if (W.shorts) c.label("short-transfers");
        if (W.fired && W.failed_ops && W.acked > 3) c.nontrivial();
    }
}  // namespace
PBT_MAIN(prop)
