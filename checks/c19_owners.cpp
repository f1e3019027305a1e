// C19: descriptor owners under move/release/close histories; close() is recorded.
#include <cstdint>
#include <syscall.h>
#include <filesystem>
#include "kio/net/net.h"
#include "kio/net/socket.h"
#include "kio/fs/fs.h"
#include "bitcask/include/file_handle.h"
#include "pbt.h"
#include <map>
#include <optional>
#include <set>

namespace
{
    constexpr int kBase = 1000000;  // fake descriptors: closing them reaches nothing real
    std::map<int, int> closes;
}
extern "C" int close(int fd)
{
    if (fd >= kBase)
    {
        closes[fd]++;
        return 0;
    }
    return static_cast<int>(syscall(SYS_close, fd));
}

namespace
{
    kio::io::IOPool& pool()
    {
        alignas(64) static char mem[sizeof(kio::io::IOPool)];  // only referred to, never used
        return *reinterpret_cast<kio::io::IOPool*>(mem);
    }
    struct SocketT
    {
        using T = kio::net::Socket;
        static constexpr bool assign = true, rel = true, empty = true;
        static T make(int fd) { return T(fd); }
        static T none() { return T(); }
        static int get(const T& t) { return t.get(); }
        static bool valid(const T& t) { return t.is_valid() && static_cast<bool>(t); }
        static int release(T& t) { return t.release(); }
        static bool close(T&) { return false; }
        static bool reset(T&, int) { return false; }
        static const char* name() { return "Socket"; }
    };
    struct GuardT
    {
        using T = kio::net::FDGuard;
        static constexpr bool assign = false, rel = false, empty = true;
        static T make(int fd) { return T(fd); }
        static T none() { return T(-1); }
        static int get(const T& t) { return t.get(); }
        static bool valid(const T& t) { return t.get() >= 0; }
        static int release(T&) { return -1; }
        static bool close(T&) { return false; }
        static bool reset(T&, int) { return false; }
        static const char* name() { return "FDGuard"; }
    };
    struct FileT
    {
        using T = kio::File;
        static constexpr bool assign = true, rel = false, empty = false;
        static T make(int fd) { return T(fd, pool(), static_cast<size_t>(fd % 3)); }
        static T none() { return T(kBase + 900000, pool(), 0); }
        static int get(const T& t) { return t.fd(); }
        static bool valid(const T& t) { return t.fd() >= 0; }
        static int release(T&) { return -1; }
        static bool close(T& t) { t.close(); return true; }
        static bool reset(T&, int) { return false; }
        static const char* name() { return "File"; }
    };
    struct HandleT
    {
        using T = bitcask::FileHandle;
        static constexpr bool assign = true, rel = true, empty = true;
        static T make(int fd) { return T(fd); }
        static T none() { return T(); }
        static int get(const T& t) { return t.get(); }
        static bool valid(const T& t) { return t.is_valid(); }
        static int release(T& t) { return t.release(); }
        static bool close(T& t) { t.reset(); return true; }
        static bool reset(T& t, int fd) { t.reset(fd); return true; }
        static const char* name() { return "FileHandle"; }
    };

    template<typename A>
    void run(pbt::Case& c)
    {
        using T = typename A::T;
        closes.clear();
        const int first = kBase + (c.coin() ? 0 : 17);
        int next = first;
        std::set<int> owned, released;
        {
            std::vector<std::optional<T>> slot(4);
            std::vector<int> model(4, -2);  // -2: no object, -1: owns nothing
            std::map<int, int> expected;
            size_t moves = 0, n = c.steps(40);
            c.note("{} with {} steps", A::name(), n);
            auto lose = [&](int fd) { if (fd >= 0) expected[fd]++; };
            for (size_t i = 0; i < n; ++i)
            {
                size_t a = c.draw(4), b = c.draw(4);
                switch (c.weighted({4, 3, 4, 2, 2, 2, 1}))
                {
                    case 0:  // new owner
                        if (model[a] != -2) { lose(model[a]); slot[a].reset(); }
                        slot[a].emplace(A::make(next));
                        model[a] = next++;
                        c.note("slot {} owns {}", a, model[a]);
                        break;
                    case 1:  // move construction
                        if (a == b || model[b] == -2) break;
                        if (model[a] != -2) { lose(model[a]); slot[a].reset(); }
                        slot[a].emplace(std::move(*slot[b]));
                        model[a] = model[b];
                        model[b] = -1;
                        ++moves;
                        c.note("slot {} constructed from {}", a, b);
                        break;
                    case 2:  // move assignment, self included
                        if constexpr (A::assign)
                        {
                            if (model[a] == -2 || model[b] == -2) break;
                            c.note("slot {} = move(slot {})", a, b);
                            T& src = *slot[b];
                            *slot[a] = std::move(src);
                            if (a != b)
                            {
                                lose(model[a]);
                                model[a] = model[b];
                                model[b] = -1;
                                ++moves;
                            }
                        }
                        break;
                    case 3:
                        if constexpr (A::rel)
                        {
                            if (model[a] == -2) break;
                            int fd = A::release(*slot[a]);
                            REQUIRE(fd == model[a], "release", "{}: release gave {} expected {}", A::name(), fd, model[a]);
                            if (fd >= 0) released.insert(fd);
                            model[a] = -1;
                            c.note("slot {} released {}", a, fd);
                        }
                        break;
                    case 4:
                        if (model[a] == -2) break;
                        if (A::close(*slot[a])) { lose(model[a]); model[a] = -1; c.note("slot {} closed", a); }
                        break;
                    case 5:
                        if (model[a] == -2) break;
                        lose(model[a]);
                        slot[a].reset();
                        model[a] = -2;
                        c.note("slot {} destroyed", a);
                        break;
                    default:
                        if (model[a] == -2) break;
                        if (A::reset(*slot[a], next)) { lose(model[a]); model[a] = next++; c.note("slot {} reset to {}", a, model[a]); }
                }
                for (size_t s = 0; s < 4; ++s)
                    if (model[s] != -2)
                    {
                        REQUIRE(A::get(*slot[s]) == model[s], "owner", "{}: slot {} holds {} expected {}", A::name(), s, A::get(*slot[s]), model[s]);
                        REQUIRE(A::valid(*slot[s]) == (model[s] >= 0), "validity", "{}: slot {}", A::name(), s);
                    }
                for (auto& [fd, k]: closes) REQUIRE(k == 1 && expected.count(fd), k > 1 ? "double-close" : "closed-while-owned", "{}: {} closed {} times, expected {}", A::name(), fd, k, expected.count(fd) ? 1 : 0);
                for (auto& [fd, k]: expected) REQUIRE(closes.count(fd), "not-closed", "{}: {} should have been closed", A::name(), fd);
            }
            if (moves > 1) c.nontrivial();
            c.label(A::name());
        }
        for (int fd = first; fd < next; ++fd)
        {
            REQUIRE(closes[fd] == (released.count(fd) ? 0 : 1), released.count(fd) ? "closed-after-release" : closes[fd] ? "double-close" : "leak", "{}: {} closed {} times at the end", A::name(), fd, closes[fd]);
        }
    }
}  // namespace

static void prop(pbt::Case& c)
{
    switch (c.draw(4))
    {
        case 0: run<SocketT>(c); break;
        case 1: run<GuardT>(c); break;
        case 2: run<FileT>(c); break;
        default: run<HandleT>(c); break;
    }
}
PBT_MAIN(prop)
