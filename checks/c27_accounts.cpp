// C27: accounts and compaction. At quiet moments the store's statistics are compared
// with what the history and an independent reading of its files give; a compaction
// with nothing else going on must remove exactly the fragmented files and keep each
// live entry once.
#include "checks/kv_rig.h"

namespace
{
    using namespace kv;

    struct Loc { uint64_t file = 0, off = 0, size = 0; };
    struct Disk
    {
        std::map<uint64_t, std::string> content;             // data files
        std::map<uint64_t, std::vector<Parsed>> entries;
        std::map<uint64_t, uint64_t> end;
        std::set<uint64_t> hints;
        std::map<std::string, Loc> live;                     // where each key is
        std::map<std::string, std::string> values;
    };

    struct World
    {
        pbt::Case& c;
        Rig* r = nullptr;
        BitcaskConfig cfg;
        size_t pid = 0;
        std::string dir;
        std::vector<std::string> keys;
        std::map<std::string, std::string> model;
        std::unique_ptr<Partition> part;
        uint64_t ids = 0;
        uint64_t puts = 0, gets = 0, misses = 0, dels = 0, compacts = 0;
        size_t running = 0, rounds = 0, quiet_compactions = 0, reclaimed_files = 0, checks = 0;
    };

    Disk read_disk(const std::string& dir)
    {
        Disk d;
        for (auto& f: list_files(dir))
        {
            uint64_t id;
            if (is_data(f, id)) d.content[id] = slurp(dir + "/" + f);
            else if (is_hint(f, id)) d.hints.insert(id);
        }
        for (auto& [id, s]: d.content)
        {
            d.entries[id] = parse_data(s, &d.end[id]);
            for (auto& e: d.entries[id])
            {
                if (e.tombstone) { d.live.erase(e.key); d.values.erase(e.key); }
                else { d.live[e.key] = {id, e.off, e.size}; d.values[e.key] = e.value; }
            }
        }
        return d;
    }

    // the statistics against the files; `active` is 0 when the partition is closed
    void check_accounts(World& W, const Disk& d, uint64_t active, const char* when)
    {
        const auto& st = W.part->get_stats();
        W.checks++;
        std::map<uint64_t, PartitionStats::FileStats> want;
        for (auto& [id, s]: d.content) want[id].total_bytes = id == active ? d.end.at(id) : s.size();
        for (auto& [k, l]: d.live)
        {
            want[l.file].live_bytes += l.size;
            want[l.file].live_entries++;
        }
        uint64_t keys = 0;
        for (auto& [id, f]: st.data_files)
        {
            keys += f.live_entries;
            auto it = want.find(id);
            if (it == want.end())
            {
                CREQUIRE(f.total_bytes == 0 && f.live_bytes == 0 && f.live_entries == 0, "ghost-file", "{}: file {} is not on disk, but {} bytes, {} live bytes and {} live entries are accounted for it", when, id, f.total_bytes, f.live_bytes, f.live_entries);
                continue;
            }
            CREQUIRE(f.live_entries == it->second.live_entries, "live-entries", "{}: file {} holds {} live entries, {} are accounted", when, id, it->second.live_entries, f.live_entries);
            CREQUIRE(f.live_bytes == it->second.live_bytes, "live-bytes", "{}: file {} holds {} live bytes, {} are accounted", when, id, it->second.live_bytes, f.live_bytes);
            CREQUIRE(f.total_bytes == it->second.total_bytes, "total-bytes", "{}: file {} holds {} bytes, {} are accounted", when, id, it->second.total_bytes, f.total_bytes);
        }
        for (auto& [id, f]: want)
            if (!st.data_files.contains(id))
                CREQUIRE(f.total_bytes == 0, "missing-file", "{}: file {} of {} bytes is not accounted", when, id, f.total_bytes);
        CREQUIRE(keys == W.model.size(), "key-count", "{}: {} live entries are accounted, there are {} keys", when, keys, W.model.size());
        CREQUIRE(d.live.size() == W.model.size(), "files-key-count", "{}: the files hold {} keys, there are {}", when, d.live.size(), W.model.size());
        for (auto& [k, v]: W.model)
            CREQUIRE(d.values.count(k) && d.values.at(k) == v, "files-value", "{}: the files do not hold the value of {}", when, pbt::show(k, 30));
        CREQUIRE(st.puts_total == W.puts, "puts", "{}: {} puts counted, there were {}", when, st.puts_total, W.puts);
        CREQUIRE(st.gets_total == W.gets, "gets", "{}: {} gets counted, there were {}", when, st.gets_total, W.gets);
        CREQUIRE(st.gets_miss_total == W.misses, "misses", "{}: {} misses counted, there were {}", when, st.gets_miss_total, W.misses);
        CREQUIRE(st.deletes_total == W.dels, "deletes", "{}: {} deletes counted, there were {}", when, st.deletes_total, W.dels);
        CREQUIRE(st.compactions_failed == 0, "failed-compactions", "{}: {} failed compactions counted", when, st.compactions_failed);
        CREQUIRE(!st.compaction_running || W.cfg.auto_compact, "running", "{}: a compaction is said to be running", when);
        // the derived figures
        uint64_t total = 0, live = 0;
        for (auto& [id, f]: st.data_files) { total += f.total_bytes; live += f.live_bytes; }
        CREQUIRE(st.total_reclaimable_bytes() == total - live, "reclaimable", "{}: {} reclaimable bytes, should be {}", when, st.total_reclaimable_bytes(), total - live);
    }

    Task<void> get(World& W, std::string k)
    {
        auto g = co_await W.part->get(k);
        W.gets++;
        CREQUIRE(g.has_value(), "get-failed", "get({}) failed with {}", pbt::show(k), err(g.error()));
        if (!g->has_value()) W.misses++;
    }

    DetachedTask client(World& W, std::vector<std::string> mine, size_t n, kio::sync::AsyncBaton* over)
    {
        auto& c = W.c;
        while (n-- > 0 && !c.failed)
        {
            const std::string k = c.pick_from(mine);
            switch (c.weighted({8, 2, 4, 1, 1}))
            {
                case 0:
                {
                    std::string v = make_value(++W.ids, gen_value_size(c));
                    c.note("put {} #{} {} bytes", pbt::show(k, 10), W.ids, v.size());
                    auto r = co_await W.part->put(std::string(k), vec(v));
                    CREQUIRE(r.has_value(), "put-failed", "put failed with {}", err(r.error()));
                    W.puts++;
                    W.model[k] = v;
                    break;
                }
                case 1: co_await get(W, k); break;
                case 2:
                {
                    c.note("del {}", pbt::show(k, 10));
                    auto r = co_await W.part->del(k);
                    CREQUIRE(r.has_value(), "del-failed", "del failed with {}", err(r.error()));
                    W.dels++;
                    W.model.erase(k);
                    break;
                }
                case 3:
                {
                    c.note("compact");
                    auto r = co_await W.part->compact();
                    CREQUIRE(r.has_value(), "compact-failed", "compaction failed with {}", err(r.error()));
                    break;
                }
                default: (void) co_await W.part->sync(); break;
            }
        }
        if (--W.running == 0) over->notify();
    }

    Task<void> quiet_compaction(World& W)
    {
        const auto before = W.part->get_stats();
        const uint64_t active = W.part->active_file_id();
        const Disk d0 = read_disk(W.dir);
        std::set<uint64_t> src;
        uint64_t src_bytes = 0;
        for (auto& [id, s]: d0.content)
        {
            if (id == active) continue;
            uint64_t live = 0;
            for (auto& [k, l]: d0.live)
                if (l.file == id) live += l.size;
            const double frag = s.empty() ? 0.0 : 1.0 - static_cast<double>(live) / static_cast<double>(s.size());
            if (frag >= W.cfg.fragmentation_threshold) { src.insert(id); src_bytes += s.size(); }
        }
        W.c.note("compact, {} of {} files", src.size(), d0.content.size());
        auto r = co_await W.part->compact();
        CREQUIRE(r.has_value(), "compact-failed", "compaction failed with {}", err(r.error()));
        const Disk d1 = read_disk(W.dir);
        const auto& after = W.part->get_stats();
        const uint64_t active1 = W.part->active_file_id();
        CREQUIRE(after.compactions_total - before.compactions_total == (src.empty() ? 0 : 1), "compactions", "{} compactions counted for one of {} files", after.compactions_total - before.compactions_total, src.size());
        CREQUIRE(after.files_compacted_total - before.files_compacted_total == src.size(), "files-compacted", "{} merged files counted, there were {}", after.files_compacted_total - before.files_compacted_total, src.size());
        std::set<uint64_t> fresh;
        uint64_t fresh_bytes = 0;
        for (auto& [id, s]: d1.content)
            if (!d0.content.count(id) && id != active1) { fresh.insert(id); fresh_bytes += s.size(); }
        CREQUIRE(after.bytes_reclaimed_total - before.bytes_reclaimed_total == src_bytes - fresh_bytes, "reclaimed", "{} reclaimed bytes counted, {} bytes became {}", after.bytes_reclaimed_total - before.bytes_reclaimed_total, src_bytes, fresh_bytes);
        for (auto id: src)
        {
            CREQUIRE(!d1.content.count(id), "source-kept", "file {} was fragmented and is still there", id);
            CREQUIRE(!d1.hints.count(id), "source-hint-kept", "the hint of the merged file {} is still there", id);
        }
        // everything else is as it was
        for (auto& [id, s]: d0.content)
        {
            if (src.count(id)) continue;
            if (id == active)
            {
                if (d0.end.at(id) > 0) CREQUIRE(d1.content.count(id) && d1.content.at(id).compare(0, d0.end.at(id), s, 0, d0.end.at(id)) == 0, "active-changed", "the active file {} was changed", id);
                continue;
            }
            CREQUIRE(d1.content.count(id), "other-removed", "file {} was not fragmented and is gone", id);
            CREQUIRE(d1.content.at(id) == s, "other-changed", "file {} was not fragmented and was changed", id);
        }
        // the new files hold exactly what was live in the sources, once
        std::map<std::string, size_t> times;
        for (auto id: fresh)
        {
            CREQUIRE(d1.end.at(id) == d1.content.at(id).size(), "tail", "the merged file {} has {} bytes, its entries take {}", id, d1.content.at(id).size(), d1.end.at(id));
            for (auto& e: d1.entries.at(id))
            {
                if (e.tombstone)
                {
                    bool older = false;
                    for (auto& [o, s]: d1.content) older |= !fresh.count(o) && o < id && o != active;
                    CREQUIRE(older, "tombstone-kept", "a deletion of {} was kept although no older file is left", pbt::show(e.key, 30));
                    continue;
                }
                auto l = d0.live.find(e.key);
                CREQUIRE(l != d0.live.end() && src.count(l->second.file), "dead-kept", "an entry of {} that was not live was kept", pbt::show(e.key, 30));
                times[e.key]++;
            }
        }
        for (auto& [k, l]: d0.live)
            if (src.count(l.file))
            {
                CREQUIRE(times[k] == 1, "live-once", "the live entry of {} is stored {} times after the compaction", pbt::show(k, 30), times[k]);
            }
        W.quiet_compactions++;
        W.reclaimed_files += src.size();
        check_accounts(W, d1, active1, "after a compaction");
    }

    DetachedTask go(World& W, Worker& w, size_t rounds)
    {
        auto& c = W.c;
        auto p = co_await Partition::open(W.cfg, w, W.pid);
        CREQUIRE(p.has_value(), "open-failed", "opening failed with {}", err(p.error()));
        W.part = std::move(p.value());
        W.puts = W.gets = W.misses = W.dels = 0;
        if (!W.cfg.auto_compact) check_accounts(W, read_disk(W.dir), W.part->active_file_id(), "after opening");
        for (; rounds > 0 && !c.failed; --rounds)
        {
            W.rounds++;
            const size_t clients = 1 + c.draw(3);
            kio::sync::AsyncBaton over(w);
            W.running = clients;
            std::vector<std::vector<std::string>> share(clients);
            for (size_t i = 0; i < W.keys.size(); ++i) share[i % clients].push_back(W.keys[i]);
            for (size_t i = 0; i < clients; ++i)
                if (share[i].empty()) share[i] = {"extra" + std::to_string(i)};
            for (size_t i = 0; i < clients; ++i) client(W, share[i], 1 + c.draw(12), &over).detach();
            co_await over.wait();
            if (c.failed) co_return;
            if (!W.cfg.auto_compact)
            {
                check_accounts(W, read_disk(W.dir), W.part->active_file_id(), "at rest");
                if (c.coin()) co_await quiet_compaction(W);
            }
            for (auto& k: W.keys) co_await get(W, k);
            if (c.chance(1, 4)) { co_await w.async_sleep(gen_pause(c, W.cfg)); Clock::move(c); }
        }
        auto r = co_await W.part->async_close();
        CREQUIRE(r.has_value(), "close-failed", "closing failed with {}", err(r.error()));
        check_accounts(W, read_disk(W.dir), 0, "after closing");
        W.r->done = true;
    }

    void prop(pbt::Case& c)
    {
        setup();
        Clock clock;
        g_mono_step = c.pick({1, 0});
        trig::Dir d;
        World W{c};
        W.cfg.directory = d.path;
        W.pid = c.pick<size_t>({0, 11});
        W.dir = partition_dir(W.cfg, W.pid);
        W.keys = gen_keys(c, 1 + c.draw(8));
        ::mkdir(W.dir.c_str(), 0755);
        vary_config(c, W.cfg);
        if (c.chance(2, 3)) W.cfg.auto_compact = false;
        for (size_t s = 0, n = 1 + c.draw(3); s < n && !c.failed; ++s)
        {
            Rig r{c};
            W.r = &r;
            Clock::move(c);
            if (c.chance(1, 3)) W.cfg.auto_compact = !W.cfg.auto_compact;
            sim::Config sc;
            sc.hold_files = sc.fresh_fds = true;
            sc.timers_compete = c.coin();
            const unsigned shorten = static_cast<unsigned>(c.pick({0, 0, 200}));
            sc.fault = [&](sim::Op& o) {
                sim::Fault f;
                if (shorten && o.is_transfer() && o.bytes() > 1 && c.draw(1000) < shorten) f.limit = 1 + c.draw(o.bytes() - 1);
                return f;
            };
            c.note("session {}: max_file_size {} read {} write {} threshold {} auto {}", s, W.cfg.max_file_size, W.cfg.read_buffer_size, W.cfg.write_buffer_size, W.cfg.fragmentation_threshold, W.cfg.auto_compact);
            r.run(sc, worker_config(c), [&](Worker& w) { go(W, w, 1 + c.draw(4)).detach(); });
            const bool done = r.done;
            if (r.crashed || c.failed || !done) (void) W.part.release();
            r.finish();
            W.part.reset();
            if (c.failed) return;
            REQUIRE(done, "stuck", "the history did not finish");
        }
        if (W.quiet_compactions) c.label("compacted at rest");
        if (W.reclaimed_files) c.label("files merged");
        if (W.reclaimed_files && W.checks > 3) c.nontrivial();
    }
}  // namespace
PBT_MAIN(prop)
