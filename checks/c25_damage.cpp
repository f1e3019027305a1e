// C25: a store's data and hint files are truncated, altered, extended or lost; it is
// opened again. Every value it then returns was written for that key, keys whose
// entries all precede the damage keep their value, and the store keeps working.
#include "checks/kv_rig.h"

namespace
{
    using namespace kv;
    using MaybeValue = std::optional<std::string>;

    struct World
    {
        pbt::Case& c;
        Rig* r = nullptr;
        BitcaskConfig cfg;
        size_t pid = 0;
        std::vector<std::string> keys;
        std::map<std::string, MaybeValue> model;                // what each key has (certain)
        std::map<std::string, std::set<std::string>> written;   // everything ever put
        std::set<std::string> certain;
        std::unique_ptr<Partition> part;
        uint64_t ids = 0;
        size_t kept = 0, lost = 0, errors = 0, compactions = 0;
        size_t ops = 0;
        bool after = false;   // the damage is done
    };

    Task<void> check(World& W, std::string k, const char* when)
    {
        auto g = co_await W.part->get(k);
        if (!g.has_value())
        {
            CREQUIRE(!W.certain.count(k), "get-failed", "{}: get({}) failed with {}, no entry of it is damaged", when, pbt::show(k), err(g.error()));
            W.errors++;
            co_return;
        }
        MaybeValue v;
        if (g->has_value()) v = str(**g);
        if (W.certain.count(k))
        {
            CREQUIRE(v == W.model[k], v ? "wrong-value" : "lost", "{}: get({}) gives {}, no entry of it is damaged and it is {}", when, pbt::show(k), v ? pbt::show(*v) : "nothing", W.model[k] ? pbt::show(*W.model[k]) : "not there");
            W.kept++;
        }
        else if (v)
        {
            CREQUIRE(W.written[k].count(*v), "invented", "{}: get({}) gives {}, which was never written", when, pbt::show(k), pbt::show(*v));
        }
        else W.lost++;
    }

    Task<void> history(World& W, Worker& w, size_t n)
    {
        auto& c = W.c;
        while (n-- > 0 && !c.failed)
        {
            const std::string& k = c.pick_from(W.keys);
            switch (c.weighted({12, 3, 4, 2, 1}))
            {
                case 0:
                {
                    std::string v = make_value(++W.ids, gen_value_size(c, true, false));
                    c.note("put {} #{} {} bytes", pbt::show(k, 10), W.ids, v.size());
                    auto r = co_await W.part->put(std::string(k), vec(v));
                    CREQUIRE(r.has_value(), "put-failed", "put({}) failed with {}", pbt::show(k), err(r.error()));
                    W.written[k].insert(v);
                    W.model[k] = v;
                    W.certain.insert(k);
                    W.ops++;
                    break;
                }
                case 1: co_await check(W, k, "during the history"); break;
                case 2:
                {
                    c.note("del {}", pbt::show(k, 10));
                    bool there = !W.after || W.certain.count(k);
                    auto r = co_await W.part->del(k);
                    CREQUIRE(r.has_value(), "del-failed", "del({}) failed with {}", pbt::show(k), err(r.error()));
                    W.model[k] = std::nullopt;
                    // an absent key leaves no tombstone: entries that could not be read may be found again
                    if (there) W.certain.insert(k);
                    break;
                }
                case 3:
                {
                    c.note("compact");
                    auto r = co_await W.part->compact();
                    CREQUIRE(r.has_value(), "compact-failed", "compaction failed with {}", err(r.error()));
                    W.compactions++;
                    break;
                }
                default: co_await w.async_sleep(gen_pause(c, W.cfg)); Clock::move(c); break;
            }
        }
    }

    DetachedTask go(World& W, Worker& w, size_t n)
    {
        auto p = co_await Partition::open(W.cfg, w, W.pid);
        CREQUIRE(p.has_value(), "open-failed", "opening failed with {}", err(p.error()));
        W.part = std::move(p.value());
        for (auto& k: W.keys) co_await check(W, k, "after opening");
        co_await history(W, w, n);
        for (auto& k: W.keys) co_await check(W, k, "at the end");
        auto r = co_await W.part->async_close();
        CREQUIRE(r.has_value(), "close-failed", "closing failed with {}", err(r.error()));
        W.r->done = true;
    }

    void session(World& W, size_t n)
    {
        auto& c = W.c;
        Rig r{c};
        W.r = &r;
        sim::Config sc;
        sc.hold_files = sc.fresh_fds = true;
        sc.reorder = c.coin();
        r.run(sc, worker_config(c), [&](Worker& w) { go(W, w, n).detach(); });
        bool done = r.done;
        if (r.crashed || c.failed || !done) (void) W.part.release();
        r.finish();
        W.part.reset();
        if (!c.failed) REQUIRE(done, "stuck", "the history did not finish");
    }

    // damages one file; gives the first byte that is not as it was
    uint64_t damage(pbt::Case& c, const std::string& path, bool& lost)
    {
        std::string s = slurp(path);
        lost = false;
        switch (c.weighted({3, 4, 3, 1, 2, 1}))
        {
            case 0:
            {
                if (s.empty()) return 0;
                uint64_t at = c.chance(1, 6) ? 0 : c.draw(s.size());
                c.note("{} truncated from {} to {}", path, s.size(), at);
                spit(path, s.substr(0, at));
                return at;
            }
            case 1:
            {
                if (s.empty()) return s.size();
                uint64_t at = c.draw(s.size());
                unsigned bit = static_cast<unsigned>(c.draw(8));
                c.note("{} bit {} of byte {} flipped", path, bit, at);
                s[at] = static_cast<char>(s[at] ^ (1 << bit));
                spit(path, s);
                return at;
            }
            case 2:
            {
                size_t n = 1 + c.draw(c.coin() ? 40 : 3000);
                std::string j;
                switch (c.draw(4))
                {
                    case 0: j = std::string(n, '\0'); break;
                    case 1: j = c.bytes(n); break;
                    case 2: j = s.substr(0, n); break;                          // what looks like entries
                    default: j = s.size() > 13 ? s.substr(s.size() - std::min(s.size(), n)) : c.bytes(n); break;
                }
                // an intact entry would be a forgery, not junk
                if (!parse_data(j).empty()) j[0] = static_cast<char>(j[0] ^ 1);
                c.note("{} extended with {} bytes", path, j.size());
                spit(path, s + j);
                return s.size();
            }
            case 3:
                c.note("{} lost", path);
                ::unlink(path.c_str());
                lost = true;
                return 0;
            case 4:
            {
                if (s.empty()) return 0;
                uint64_t at = c.draw(s.size()), n = 1 + c.draw(std::min<uint64_t>(s.size() - at, 600));
                std::string z = c.coin() ? std::string(n, '\0') : c.bytes(n);
                c.note("{} bytes of {} overwritten at {}", n, path, at);
                s.replace(at, n, z);
                spit(path, s);
                return at;
            }
            default:
            {
                // a length field that asks for a lot
                if (s.size() < 12) return s.size();
                uint64_t at = c.draw(s.size() - 8);
                auto es = parse_data(s);
                if (!es.empty()) at = es[c.draw(es.size())].off + 4;
                uint64_t v = c.pick<uint64_t>({UINT64_MAX, UINT64_MAX - 11, UINT64_MAX - 12, 1ULL << 63, 1ULL << 32, 0xffffffff, 0, s.size()});
                c.note("{} the size at {} becomes {}", path, at, v);
                std::memcpy(s.data() + at, &v, 8);
                spit(path, s);
                return at;
            }
        }
    }

    void prop(pbt::Case& c)
    {
        setup();
        Clock clock;
        trig::Dir d;
        World W{c};
        W.cfg.directory = d.path;
        vary_config(c, W.cfg);
        W.pid = c.pick<size_t>({0, 9});
        W.keys = gen_keys(c, 1 + c.draw(6));
        for (auto& k: W.keys)
        {
            W.model[k] = std::nullopt;
            W.certain.insert(k);
        }
        const std::string dir = partition_dir(W.cfg, W.pid);
        ::mkdir(dir.c_str(), 0755);
        for (size_t n = 1 + c.draw(2); n-- > 0 && !c.failed;)
        {
            session(W, c.steps(30));
            Clock::move(c);
        }
        if (c.failed) return;

        // which entries are where
        std::map<std::string, std::map<std::string, uint64_t>> ends;  // file -> key -> end of its last entry
        std::vector<std::string> data, hints;
        for (auto& f: list_files(dir))
        {
            uint64_t id;
            if (is_data(f, id))
            {
                data.push_back(f);
                for (auto& e: parse_data(slurp(dir + "/" + f))) ends[f][e.key] = e.off + e.size;
            }
            else if (is_hint(f, id)) hints.push_back(f);
        }
        std::map<std::string, uint64_t> first;  // data file -> first damaged byte
        size_t damaged_data = 0, damaged_hints = 0;
        for (size_t n = 1 + c.draw(3); n-- > 0;)
        {
            const bool hint = !hints.empty() && c.chance(1, 3);
            auto& list = hint ? hints : data;
            if (list.empty()) continue;
            const std::string f = c.pick_from(list);
            bool lost = false;
            uint64_t at = damage(c, dir + "/" + f, lost);
            if (!hint)
            {
                auto it = first.try_emplace(f, at).first;
                it->second = std::min(it->second, at);
                damaged_data++;
            }
            else damaged_hints++;
            if (lost) std::erase(list, f);
        }
        // things that do not belong there
        if (c.chance(1, 4))
        {
            spit(dir + "/notes.txt", c.bytes(20));
            spit(dir + "/data_.db", c.bytes(20));
            spit(dir + "/data_12x.db", c.bytes(40));
            ::mkdir((dir + "/data_77.db").c_str(), 0755);
            spit(dir + "/hint_4242.ht", c.bytes(30));
            if (c.coin()) spit(dir + "/data_4243.db", c.coin() ? std::string() : c.bytes(30));
            c.label("foreign files");
        }
        W.certain.clear();
        for (auto& k: W.keys)
        {
            bool ok = true;
            for (auto& [f, at]: first)
            {
                auto e = ends[f].find(k);
                if (e != ends[f].end() && e->second > at) ok = false;
            }
            if (ok) W.certain.insert(k);
        }
        c.note("{} of {} keys are not affected", W.certain.size(), W.keys.size());
        const size_t affected = W.keys.size() - W.certain.size();
        W.after = true;
        W.kept = W.lost = W.errors = 0;
        if (c.coin()) vary_config(c, W.cfg);
        session(W, c.draw(15));
        if (c.failed) return;
        Clock::move(c);
        session(W, c.draw(5));
        if (c.failed) return;
        if (damaged_data) c.label("data files damaged");
        if (damaged_hints) c.label("hint files damaged");
        if (W.errors) c.label("damage reported");
        if (W.lost) c.label("values lost");
        if (affected) c.label("keys affected");
        if (damaged_data + damaged_hints > 0 && W.ops > 3) c.nontrivial();
    }
}  // namespace
PBT_MAIN(prop)
