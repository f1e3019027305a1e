// C29: the descriptor cache itself. Clients look files up, keep the handles, read through
// them, remove, clear and replace files; the set of open descriptors is known at any moment.
#include "checks/kv_rig.h"
#include "bitcask/include/fd_cache.h"

namespace
{
    using namespace kv;
    using Handle = std::shared_ptr<const FileHandle>;

    struct Held
    {
        Handle h;
        size_t file;
        std::string content;
    };
    struct World
    {
        pbt::Case& c;
        Rig* r = nullptr;
        std::string dir;
        size_t limit = 0;
        std::unique_ptr<FDCache> cache;
        std::vector<std::vector<std::string>> versions;  // of each file; the last is the present one, empty: not there
        std::vector<size_t> left;
        std::vector<std::vector<Held>> held;
        std::vector<size_t> lru;     // single client: what must be cached, most recent first
        bool single = false, faults = false;
        size_t running = 0, looking = 0, lookups = 0, evicted_held = 0, hits = 0, overlaps = 0, replaced = 0;
        uint64_t opens = 0, ids = 0, evictions = 0;
    };
    std::string path_of(World& W, size_t f) { return W.dir + "/data_" + std::to_string(f) + ".db"; }

    void write_version(World& W, size_t f, bool there)
    {
        ::unlink(path_of(W, f).c_str());
        std::string s;
        if (there)
        {
            s = make_value(++W.ids, 8 + W.c.draw(60));
            spit(path_of(W, f), s);
        }
        W.versions[f].push_back(s);
    }
    std::string read_fd(int fd)
    {
        std::string s(200, 0);
        ssize_t n = ::pread(fd, s.data(), s.size(), 0);
        s.resize(n < 0 ? 0 : static_cast<size_t>(n));
        return n < 0 ? std::string("<unreadable>") : s;
    }
    void bound(World& W, const char* when)
    {
        std::set<int> h;
        for (auto& v: W.held)
            for (auto& x: v) h.insert(x.h->get());
        CREQUIRE(W.cache->size() <= W.limit, "over-limit", "{}: the cache holds {} descriptors, its limit is {}", when, W.cache->size(), W.limit);
        const size_t open = sim::open_fds().size();
        CREQUIRE(open <= W.cache->size() + h.size() + W.looking, "too-many-open", "{}: {} descriptors are open, {} are cached (limit {}), {} in use, {} being opened", when, open, W.cache->size(), W.limit, h.size(), W.looking);
        if (W.looking == 0)
            for (auto& x: W.held)
                for (auto& y: x) CREQUIRE(sim::open_fds().count(y.h->get()), "closed-in-use", "{}: descriptor {} of a handle in use is closed", when, y.h->get());
    }

    Task<void> lookup(World& W, Worker& w, size_t me)
    {
        auto& c = W.c;
        const size_t f = c.draw(W.versions.size());
        const size_t from = W.versions[f].size() - 1;
        const uint64_t opens = W.opens;
        c.note("client {} looks up file {}", me, f);
        W.lookups++;
        if (W.looking++) W.overlaps++;
        auto r = co_await W.cache->get_or_open(f, path_of(W, f));
        W.looking--;
        auto& v = W.versions[f];
        if (!r.has_value())
        {
            bool gone = false;
            for (size_t i = from; i < v.size(); ++i) gone |= v[i].empty();
            CREQUIRE(W.faults || (gone && r.error().value == ENOENT), "lookup-fails", "looking up file {} fails with {}", f, err(r.error()));
            bound(W, "after a failed lookup");
            co_return;
        }
        CREQUIRE(*r && (*r)->is_valid(), "no-descriptor", "looking up file {} gives no descriptor", f);
        const std::string got = read_fd((*r)->get());
        bool ok = false;
        for (size_t i = from; i < v.size(); ++i) ok |= !v[i].empty() && v[i] == got;
        CREQUIRE(ok, "wrong-file", "the descriptor for file {} (versions {} to {}) reads {}", f, from, v.size() - 1, pbt::show(got, 12));
        if (W.single)
        {
            auto it = std::find(W.lru.begin(), W.lru.end(), f);
            const bool hit = it != W.lru.end();
            CREQUIRE(hit == (W.opens == opens), "lru", "file {} was {} although it {} among the {} most recently used", f, hit ? "opened again" : "cached", hit ? "is" : "is not", W.limit);
            if (hit)
            {
                W.lru.erase(it);
                W.hits++;
            }
            W.lru.insert(W.lru.begin(), f);
            while (W.lru.size() > W.limit)
            {
                W.lru.pop_back();
                W.evictions++;
            }
            CREQUIRE(W.cache->size() == W.lru.size(), "size", "the cache holds {} files instead of {}", W.cache->size(), W.lru.size());
        }
        if (c.chance(1, 2) && W.held[me].size() < 4)
        {
            c.note("client {} keeps it", me);
            W.held[me].push_back({std::move(*r), f, got});
        }
        else if (c.coin())
        {
            // a read in progress while others evict, remove and replace
            Handle h = std::move(*r);
            W.held[me].push_back({h, f, got});
            std::string b(got.size(), 0);
            auto n = co_await w.async_read_at(h->get(), std::span(b.data(), b.size()), 0);
            CREQUIRE(n.has_value() || W.faults, "read-fails", "a read through a handle fails with {}", err(n.error()));
            if (n.has_value()) CREQUIRE(b.substr(0, static_cast<size_t>(*n)) == got.substr(0, static_cast<size_t>(*n)) && *n > 0, "wrong-bytes", "a read through the handle for file {} gives other bytes", f);
            auto& hv = W.held[me];
            hv.erase(std::find_if(hv.begin(), hv.end(), [&](auto& x) { return x.h == h; }));
        }
        r = Handle{};
        bound(W, "after a lookup");
    }

    DetachedTask client(World& W, Worker& w, size_t me)
    {
        auto& c = W.c;
        while (W.left[me] > 0 && !c.failed)
        {
            W.left[me]--;
            switch (c.weighted({10, 3, 2, 1, 2, 2, 1}))
            {
                case 0: co_await lookup(W, w, me); break;
                case 1:  // read through a handle kept
                {
                    if (W.held[me].empty()) break;
                    auto x = W.held[me][c.draw(W.held[me].size())];
                    std::string b(x.content.size(), 0);
                    auto n = co_await w.async_read_at(x.h->get(), std::span(b.data(), b.size()), 0);
                    CREQUIRE(n.has_value() || W.faults, "read-fails", "a read through a kept handle fails with {}", err(n.error()));
                    if (n.has_value()) CREQUIRE(*n > 0 && b.substr(0, static_cast<size_t>(*n)) == x.content.substr(0, static_cast<size_t>(*n)), "wrong-bytes", "a read through the kept handle for file {} gives other bytes", x.file);
                    break;
                }
                case 2:
                {
                    if (W.held[me].empty()) break;
                    c.note("client {} drops a handle", me);
                    W.held[me].erase(W.held[me].begin() + static_cast<ptrdiff_t>(c.draw(W.held[me].size())));
                    break;
                }
                case 3:
                {
                    const size_t f = c.draw(W.versions.size() + 1);  // may be unknown
                    c.note("client {} removes file {} from the cache", me, f);
                    W.cache->remove(f);
                    std::erase(W.lru, f);
                    break;
                }
                case 4:  // the file is replaced or goes away, the cache is told
                {
                    const size_t f = c.draw(W.versions.size());
                    const bool there = c.chance(3, 4);
                    c.note("client {} {} file {}", me, there ? "replaces" : "deletes", f);
                    write_version(W, f, there);
                    W.cache->remove(f);
                    std::erase(W.lru, f);
                    W.replaced++;
                    break;
                }
                case 5: co_await w.async_sleep(std::chrono::milliseconds(c.draw(3))); break;
                default:
                    c.note("client {} clears the cache", me);
                    W.cache->clear();
                    W.lru.clear();
                    CREQUIRE(W.cache->size() == 0, "clear", "a cleared cache holds {} files", W.cache->size());
                    break;
            }
            bound(W, "after an operation");
        }
        if (--W.running == 0)
        {
            auto& s = W.cache->get_stats();
            CREQUIRE(s.hits + s.misses == W.lookups, "stats", "{} hits and {} misses for {} lookups", s.hits, s.misses, W.lookups);
            if (W.single && !W.faults) CREQUIRE(s.hits == W.hits, "stats", "{} hits instead of {}", s.hits, W.hits);
            // the cache goes, the handles stay
            const bool first = c.coin();
            if (first) for (auto& h: W.held) h.clear();
            else
            {
                W.cache->clear();
                for (auto& h: W.held)
                    for (auto& x: h) CREQUIRE(read_fd(x.h->get()) == x.content, "closed-in-use", "clearing the cache closed the descriptor of a handle in use");
                for (auto& h: W.held) h.clear();
            }
            CREQUIRE(sim::open_fds().size() == W.cache->size(), "leak", "{} descriptors are open at the end, {} are cached", sim::open_fds().size(), W.cache->size());
            W.cache.reset();
            CREQUIRE(sim::open_fds().empty(), "leak", "{} descriptors stay open after the cache", sim::open_fds().size());
            W.r->done = true;
        }
    }

    void prop(pbt::Case& c)
    {
        setup();
        trig::Dir d;
        World W{c};
        W.dir = d.path;
        W.limit = c.pick<size_t>({2, 0, 1, 1, 2, 3, 5, 100});
        W.versions.resize(1 + c.draw(7));
        for (size_t f = 0; f < W.versions.size(); ++f) write_version(W, f, !c.chance(1, 12));
        W.left.assign(c.chance(1, 3) ? 1 : 2 + c.draw(5), 0);
        W.single = W.left.size() == 1;
        for (auto& x: W.left) x = 1 + c.draw(W.single ? 40 : 12);
        W.held.resize(W.left.size());
        W.running = W.left.size();
        const unsigned fail = static_cast<unsigned>(c.pick({0, 0, 150}));
        W.faults = fail > 0;
        c.note("limit {}, {} files, {} clients", W.limit, W.versions.size(), W.left.size());
        Rig r{c};
        W.r = &r;
        sim::Config sc;
        sc.hold_files = true;
        sc.fresh_fds = c.chance(3, 4);
        sc.timers_compete = c.coin();
        sc.max_batch = static_cast<unsigned>(c.pick({1, 2, 16}));
        sc.fault = [&](sim::Op& o) {
            sim::Fault f;
            if (fail && !o.wakeup && o.opcode != IORING_OP_TIMEOUT && c.draw(1000) < fail) f.error = c.pick({EIO, EMFILE, ENOENT, EINTR});
            return f;
        };
        sc.submitted = [&](const sim::Op& o) { W.opens += o.opcode == IORING_OP_OPENAT; };
        r.run(sc, worker_config(c), [&](Worker& w) {
            W.cache = std::make_unique<FDCache>(w, W.limit);
            for (size_t i = 0, n = W.left.size(); i < n; ++i) client(W, w, i).detach();
        });
        const bool done = r.done;
        if (r.crashed || c.failed || !done)
        {
            (void) W.cache.release();
            for (auto& h: W.held)
                for (auto& x: h) (void) new Handle(x.h);
        }
        r.finish();
        if (c.failed) return;
        REQUIRE(done, "stuck", "the history did not finish");
        REQUIRE(g_bad_close < 0, "closed-twice", "descriptor {} closed that was not open", g_bad_close.load());
        if (W.single) c.label("one client");
        if (W.replaced) c.label("replaced files");
        if (W.overlaps) c.label("overlapping lookups");
        if (W.lookups > 4 && (W.single ? W.evictions > 0 : W.overlaps > 0)) c.nontrivial();
    }
}  // namespace
PBT_MAIN(prop)
