// C20: the file manager against plain system calls on a second directory tree.
#include <cstdint>
#include <syscall.h>
#include <array>
#include <atomic>
#include <fcntl.h>
#include <filesystem>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <sys/stat.h>
#include <thread>
#include "pbt/pbt.h"
#include "sim/simuring.h"
#include "checks/threaded_rig.h"
#include "kio/fs/fs.h"
#include "kio/sync/sync_wait.h"

using namespace kio;

namespace
{
    constexpr size_t kRegion = 3000;  // each driver's part of the shared file
    struct Place  // a file, with the ways to name it (relative to the tree's root)
    {
        std::vector<std::string> names;
    };
    struct Tree
    {
        trig::Dir dir;
        std::string rel;  // the same directory relative to the working directory
        Tree() { rel = std::filesystem::relative(dir.path).string(); }
        std::string at(const std::string& name, bool relative) const { return (relative ? rel : dir.path) + "/" + name; }
    };

    void lay_out(const Tree& t, size_t files)
    {
        auto mk = [&](const char* d) { ::mkdir((t.dir.path + "/" + d).c_str(), 0700); };
        mk("a");
        mk("a/b");
        mk("c");
        auto ln = [&](const char* to, const char* name) { return ::symlink(to, (t.dir.path + "/" + name).c_str()); };
        (void) ln("a", "la");
        (void) ln("../a/b", "c/lb");
        (void) ln("loop2", "loop1");
        (void) ln("loop1", "loop2");
        for (size_t i = 0; i < files; ++i)
            (void) ::symlink(("a/b/f" + std::to_string(i)).c_str(), (t.dir.path + "/lf" + std::to_string(i)).c_str());
        (void) ::symlink("lf0", (t.dir.path + "/llf0").c_str());
    }
    std::vector<std::string> spellings(size_t i)
    {
        std::string f = "f" + std::to_string(i);
        std::vector<std::string> v = {"a/b/" + f, "./a/./b/" + f, "a//b///" + f, "a/b/../b/" + f, "c/../a/b/" + f, "la/b/" + f, "c/lb/" + f, "lf" + std::to_string(i), "a/../lf" + std::to_string(i)};
        if (i == 0) v.push_back("llf0");
        return v;
    }

    struct Watch  // which thread submits the operations on each file
    {
        std::mutex mu;
        std::map<std::string, size_t> names;      // full spelling -> file
        std::map<int, size_t> fds;                // descriptor -> file
        std::map<std::pair<int, size_t>, std::set<pid_t>> ran;  // manager, file -> threads
        std::map<int, int> fd_mgr;
        std::map<pid_t, int> mgr_of;              // worker thread -> manager
        std::set<uint64_t> cut;
        void submitted(const sim::Op& o)
        {
            std::lock_guard g(mu);
            pid_t t = gettid();
            auto m = mgr_of.find(t);
            if (o.opcode == IORING_OP_OPENAT)
            {
                auto it = names.find(o.path);
                if (it != names.end() && m != mgr_of.end()) ran[{m->second, it->second}].insert(t);
            }
            else if (o.is_transfer())
            {
                auto it = fds.find(o.fd);
                if (it != fds.end()) ran[{fd_mgr[o.fd], it->second}].insert(t);
            }
        }
    };

    struct Step
    {
        unsigned kind;
        size_t slot, slot2, file, spell;
        bool rel;
        int flags;
        mode_t mode;
        uint64_t off;
        size_t len;
        int mgr;
        unsigned odd;
    };
    struct Handle
    {
        std::optional<File> f;
        int plain = -1;
        size_t file = 0;
        int mgr = 0;
        bool odd = false;  // a directory or the like
    };

    struct Ctx
    {
        pbt::Case& c;
        Tree &real, &model;
        std::vector<std::unique_ptr<FileManager>>& mgrs;
        Watch& w;
        std::atomic<unsigned>& nread;
        std::atomic<unsigned>& nwrite;
        std::atomic<unsigned>& nopen;
        bool shorten;
    };
    struct Bad { std::string tag, msg; };

    std::string odd_name(unsigned k)
    {
        switch (k)
        {
            case 0: return "a";                         // a directory
            case 1: return "la/";                       // a directory through a link
            case 2: return "nowhere/f";                 // no such directory
            case 3: return "loop1";                     // endless links
            case 4: return "a/b/" + std::string(300, 'n');
            case 5: return "a/b/f0/x";                  // below a file
            case 6: return "a/b/nof";
            default: return "";
        }
    }

    Task<void> run_step(Ctx& x, std::vector<Handle>& h, const Step& s, size_t me, std::optional<Bad>& bad, bool slot_sync)
    {
        (void) slot_sync;
        Handle& a = h[s.slot];
        auto wrong = [&](const char* tag, std::string m) { if (!bad) bad = Bad{tag, std::move(m)}; };
        switch (s.kind)
        {
            case 0:  // open
            {
                if (a.plain >= 0) break;
                const bool odd = s.odd < 8;
                std::string name = odd ? odd_name(s.odd) : spellings(s.file)[s.spell];
                const bool empty = odd && name.empty();
                std::string p = empty ? "" : x.real.at(name, s.rel), q = empty ? "" : x.model.at(name, s.rel);
                int flags = odd ? (s.flags & ~(O_CREAT | O_EXCL)) : s.flags;
                auto r = co_await x.mgrs[static_cast<size_t>(s.mgr)]->async_open(p, flags, s.mode);
                int pf = ::open(q.c_str(), flags, s.mode);
                int e = errno;
                x.nopen++;
                if (r.has_value() != (pf >= 0) || (!r && r.error().value != e))
                {
                    wrong("open-differs", std::format("open({}, {:#o}) gives {} but the plain call gives {}", name, flags, r ? "a file" : std::string(strerror(r.error().value)), pf >= 0 ? "a file" : strerror(e)));
                    if (pf >= 0) ::close(pf);
                    break;
                }
                if (!r) break;
                if ((::fcntl(r->fd(), F_GETFL) & ~O_CLOEXEC) != (::fcntl(pf, F_GETFL) & ~O_CLOEXEC))
                    wrong("open-flags", std::format("open({}, {:#o}) gives status flags {:#o}, the plain call {:#o}", name, flags, ::fcntl(r->fd(), F_GETFL), ::fcntl(pf, F_GETFL)));
                a.plain = pf;
                a.file = s.file;
                a.mgr = s.mgr;
                a.odd = odd;
                {
                    std::lock_guard g(x.w.mu);
                    if (!odd)
                    {
                        x.w.fds[r->fd()] = s.file;
                        x.w.fd_mgr[r->fd()] = s.mgr;
                    }
                    else x.w.fds.erase(r->fd());
                }
                a.f.emplace(std::move(*r));
                break;
            }
            case 1:  // read
            case 2:  // write
            {
                if (!a.f) break;
                uint64_t off = s.off;
                size_t len = s.len;
                if (a.file == 0 && !a.odd)
                {
                    off = me * kRegion + off % kRegion;
                    len = std::min<size_t>(len, me * kRegion + kRegion - off);
                }
                std::string buf(len, '?'), ref(len, '?');
                if (s.kind == 1)
                {
                    auto r = co_await a.f->async_read(std::span(buf.data(), len), off);
                    ssize_t pr = ::pread(a.plain, ref.data(), len, static_cast<off_t>(off));
                    int e = errno;
                    x.nread++;
                    if (!r && pr >= 0) wrong("read-differs", std::format("reading {} bytes at {} fails with {}, the plain call reads {}", len, off, std::string(strerror(r.error().value)), pr));
                    else if (!r && r.error().value != e) wrong("read-differs", std::format("reading fails with {}, the plain call with {}", std::string(strerror(r.error().value)), strerror(e)));
                    else if (r && pr < 0) wrong("read-differs", std::format("reading {} bytes at {} gives {}, the plain call fails with {}", len, off, *r, strerror(e)));
                    else if (r)
                    {
                        size_t n = *r, want = static_cast<size_t>(pr);
                        if (n > want || (!x.shorten && n != want) || (want && !n)) wrong("read-count", std::format("reading {} bytes at {} gives {}, the plain call {}", len, off, n, want));
                        else if (buf.substr(0, n) != ref.substr(0, n)) wrong("read-content", std::format("reading {} bytes at {} gives other bytes than the plain call", len, off));
                        else if (buf.find_first_not_of('?', n) != std::string::npos) wrong("read-content", "bytes behind the reported count were changed");
                    }
                    break;
                }
                for (size_t i = 0; i < len; ++i) buf[i] = static_cast<char>('A' + (s.off + i * 7 + s.spell + me * 3) % 26);
                auto r = co_await a.f->async_write(std::span<const char>(buf.data(), len), off);
                x.nwrite++;
                if (r)
                {
                    if (*r > len || (!x.shorten && *r != len) || (len && !*r)) { wrong("write-count", std::format("writing {} bytes at {} gives {}", len, off, *r)); break; }
                    ssize_t pr = ::pwrite(a.plain, buf.data(), *r, static_cast<off_t>(off));
                    if (pr != static_cast<ssize_t>(*r)) wrong("write-differs", std::format("writing {} bytes at {} gives {}, the plain call {} ({})", len, off, *r, pr, strerror(errno)));
                }
                else
                {
                    ssize_t pr = ::pwrite(a.plain, buf.data(), len, static_cast<off_t>(off));
                    int e = errno;
                    if (pr >= 0 || r.error().value != e) wrong("write-differs", std::format("writing {} bytes at {} fails with {}, the plain call gives {} ({})", len, off, std::string(strerror(r.error().value)), pr, pr < 0 ? strerror(e) : "success"));
                }
                break;
            }
            case 3:  // close (explicitly or by destruction)
                if (!a.f) break;
                {
                    std::lock_guard g(x.w.mu);
                    x.w.fds.erase(a.f->fd());
                }
                if (s.spell % 2)
                {
                    a.f->close();
                    char b[2];
                    auto r = co_await a.f->async_read(std::span(b, 2), 0);
                    if (r || r.error().value != EBADF) wrong("closed-read", "reading a closed file does not fail with EBADF");
                }
                a.f.reset();
                ::close(a.plain);
                a.plain = -1;
                break;
            case 4:  // move into another slot, closing what was there
            {
                Handle& b = h[s.slot2];
                if (&a == &b || !a.f) break;
                if (b.f)
                {
                    {
                        std::lock_guard g(x.w.mu);
                        x.w.fds.erase(b.f->fd());
                    }
                    *b.f = std::move(*a.f);
                    ::close(b.plain);
                }
                else b.f.emplace(std::move(*a.f));
                a.f.reset();
                b.plain = a.plain;
                a.plain = -1;
                b.file = a.file;
                b.mgr = a.mgr;
                b.odd = a.odd;
                break;
            }
            case 5:  // remove the file by plain means
            {
                if (s.file == 0) break;
                std::string n = spellings(s.file)[0];
                ::unlink(x.real.at(n, false).c_str());
                ::unlink(x.model.at(n, false).c_str());
                break;
            }
            default:
                co_await io::SwitchToWorker(*x.mgrs[static_cast<size_t>(s.mgr)]->pool().get_worker(s.spell % x.mgrs[static_cast<size_t>(s.mgr)]->pool().num_workers()));
                break;
        }
    }
    Task<void> drive(Ctx& x, std::vector<Handle>& h, const std::vector<Step>& st, size_t me, std::optional<Bad>& bad)
    {
        for (auto& s: st)
        {
            if (bad) co_return;
            co_await run_step(x, h, s, me, bad, false);
        }
    }

    std::string slurp(const std::string& p)
    {
        int fd = ::open(p.c_str(), O_RDONLY);
        if (fd < 0) return "<none>";
        struct stat s{};
        ::fstat(fd, &s);
        std::string o(static_cast<size_t>(s.st_size), 0);
        ssize_t n = ::pread(fd, o.data(), o.size(), 0);
        o.resize(static_cast<size_t>(std::max<ssize_t>(0, n)));
        ::close(fd);
        return o;
    }

    void prop(pbt::Case& c)
    {
        trig::quiet();
        Tree real, model;
        const size_t drivers = 1 + c.draw(4);
        const size_t own = 1 + c.draw(3);  // files of each driver
        const size_t files = 1 + drivers * own;
        lay_out(real, files);
        lay_out(model, files);
        for (auto* t: {&real, &model})
        {
            int fd = ::open(t->at("a/b/f0", false).c_str(), O_RDWR | O_CREAT, 0600);
            (void) !::ftruncate(fd, static_cast<off_t>(drivers * kRegion));
            ::close(fd);
        }
        sim::Config sc;
        sc.threaded = true;
        sc.seed = c.draw(1u << 30);
        sc.delay_us = c.pick({0u, 0u, 60u});
        const bool shorten = c.chance(1, 3);
        trig::Shorten sh(sc.seed);
        if (shorten) sc.fault = [&](sim::Op& o) { return sh(o); };
        Watch w;
        sc.submitted = [&](const sim::Op& o) { w.submitted(o); };
        for (size_t i = 0; i < files; ++i)
            for (auto& s: spellings(i))
                for (bool r: {false, true}) w.names[real.at(s, r)] = i;
        const size_t nm = c.chance(1, 4) ? 2 : 1;
        std::vector<size_t> workers;
        for (size_t m = 0; m < nm; ++m) workers.push_back(1 + c.draw(5));
        std::vector<std::vector<Step>> plan(drivers);
        std::vector<bool> whole(drivers);
        size_t total = 0;
        for (size_t d = 0; d < drivers; ++d)
        {
            whole[d] = c.coin();
            size_t n = c.steps(30);
            total += n;
            for (size_t i = 0; i < n; ++i)
            {
                Step s{};
                s.kind = static_cast<unsigned>(c.weighted({6, 6, 7, 3, 2, 1, 1}));
                s.slot = c.draw(4);
                s.slot2 = c.draw(4);
                s.file = c.chance(1, 5) ? 0 : 1 + d * own + c.draw(own);
                s.spell = c.draw(spellings(s.file).size());
                s.rel = c.coin();
                s.flags = c.pick({O_RDWR, O_RDWR, O_RDONLY, O_WRONLY});
                if (s.file && c.chance(2, 3)) s.flags |= O_CREAT;
                if (s.file && c.chance(1, 6)) s.flags |= O_EXCL;
                if (s.file && c.chance(1, 6)) s.flags |= O_TRUNC;
                if (s.file && c.chance(1, 8)) s.flags |= O_APPEND;
                if ((s.flags & O_EXCL) && !(s.flags & O_CREAT)) s.flags &= ~O_EXCL;
                s.mode = c.pick<mode_t>({0600, 0644, 0777, 0640, 0400});
                s.off = c.weighted({5, 5, 1, 1}) == 0 ? 0 : 0;
                switch (c.weighted({4, 4, 2, 1}))
                {
                    case 0: s.off = c.draw(64); break;
                    case 1: s.off = c.draw(8000); break;
                    case 2: s.off = static_cast<uint64_t>(c.range(4094, 4098)); break;
                    default: s.off = c.pick<uint64_t>({100000, 1ull << 20, INT64_MAX, 1ull << 63, (1ull << 63) + 5}); break;
                }
                s.len = c.small(6000);
                s.mgr = static_cast<int>(c.draw(nm));
                s.odd = c.chance(1, 10) ? static_cast<unsigned>(c.draw(8)) : 99;
                plan[d].push_back(s);
            }
        }
        c.note("{} drivers, {} files, {} managers, {} steps{}", drivers, files, nm, total, shorten ? ", short transfers" : "");
        for (size_t d = 0; d < drivers; ++d)
            for (auto& s: plan[d])
                c.note("  driver {}: {} slot {} file {} spelling {}{} flags {:#o} off {} len {} manager {}", d, (const char*[]){"open", "read", "write", "close", "move", "unlink", "switch"}[s.kind], s.slot, s.file, s.odd < 8 ? "odd " + odd_name(s.odd).substr(0, 20) : spellings(s.file)[s.spell], s.rel ? " (relative)" : "", s.flags, s.off, s.len, s.mgr);
        sim::begin(sc);
        std::vector<std::optional<Bad>> bad(drivers);
        std::atomic<unsigned> nread{0}, nwrite{0}, nopen{0};
        {
            std::vector<std::unique_ptr<FileManager>> mgrs;
            for (size_t m = 0; m < nm; ++m) mgrs.push_back(std::make_unique<FileManager>(workers[m], io::WorkerConfig{}));
            for (size_t m = 0; m < nm; ++m)
                for (size_t i = 0; i < workers[m]; ++i)
                {
                    pid_t t = SyncWait([](io::Worker& k) -> Task<pid_t> {
                        co_await io::SwitchToWorker(k);
                        co_return gettid();
                    }(*mgrs[m]->pool().get_worker(i)));
                    w.mgr_of[t] = static_cast<int>(m);
                }
            Ctx x{c, real, model, mgrs, w, nread, nwrite, nopen, shorten};
            std::vector<std::vector<Handle>> hs(drivers);
            for (auto& h: hs) h.resize(4);
            std::vector<std::thread> th;
            for (size_t d = 0; d < drivers; ++d)
                th.emplace_back([&, d] {
                    try
                    {
                        if (whole[d]) SyncWait(drive(x, hs[d], plan[d], d, bad[d]));
                        else
                            for (auto& s: plan[d])
                            {
                                if (bad[d]) break;
                                SyncWait(run_step(x, hs[d], s, d, bad[d], true));
                            }
                    }
                    catch (const std::exception& e)
                    {
                        if (!bad[d]) bad[d] = Bad{"exception", std::string("an operation threw: ") + e.what()};
                    }
                    for (auto& h: hs[d])
                    {
                        h.f.reset();
                        if (h.plain >= 0) ::close(h.plain);
                    }
                });
            for (auto& t: th) t.join();
        }
        sim::end();
        for (auto& b: bad)
            if (b) pbt::fail(b->tag, b->msg);
        for (size_t i = 0; i < files; ++i)
        {
            std::string n = spellings(i)[0];
            std::string p = real.at(n, false), q = model.at(n, false);
            struct stat s{}, t{};
            int rs = ::stat(p.c_str(), &s), rt = ::stat(q.c_str(), &t);
            REQUIRE(rs == rt, "existence", "file {} {} but should{} exist", i, rs ? "does not exist" : "exists", rt ? " not" : "");
            if (rs) continue;
            REQUIRE(s.st_mode == t.st_mode, "mode", "file {} has mode {:#o}, plain calls give {:#o}", i, s.st_mode, t.st_mode);
            REQUIRE(s.st_size == t.st_size, "content", "file {} has {} bytes, plain calls give {}", i, s.st_size, t.st_size);
            if (s.st_size < (4 << 20)) REQUIRE(slurp(p) == slurp(q), "content", "file {} differs from what plain calls give", i);
        }
        size_t busy = 0;
        std::set<pid_t> used;
        for (auto& [k, v]: w.ran)
        {
            REQUIRE(v.size() <= 1, "affinity", "operations on file {} of manager {} were submitted by {} workers", k.second, k.first, v.size());
            if (w.mgr_of.size()) for (auto t: v) REQUIRE(w.mgr_of.count(t) && w.mgr_of[t] == k.first, "affinity", "an operation on file {} ran outside its manager's workers", k.second);
            ++busy;
            used.insert(v.begin(), v.end());
        }
        if (used.size() > 1) c.label("several-workers");
        if (shorten) c.label("short-transfers");
        if (nm > 1) c.label("two-managers");
        if (busy > 1 && workers[0] > 1 && nread && nwrite && nopen > 2) c.nontrivial();
    }
}  // namespace
PBT_MAIN(prop)
