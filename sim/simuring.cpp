#include "sim/simuring.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <condition_variable>
#include <csetjmp>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <mutex>
#include <poll.h>
#include <sys/eventfd.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/statfs.h>
#include <sys/uio.h>
#include <sys/utsname.h>
#include <unistd.h>
#include "pbt/pbt.h"

namespace sim
{
    struct Ring
    {
        unsigned sq_khead = 0, sq_ktail = 0, sq_mask = 0, sq_entries = 0, sq_flags = 0, sq_dropped = 0;
        unsigned cq_khead = 0, cq_ktail = 0, cq_mask = 0, cq_entries = 0, cq_flags = 0, cq_overflow = 0;
        std::vector<unsigned> array;
        std::vector<io_uring_sqe> sqes;
        std::vector<io_uring_cqe> cqes;
        std::vector<std::unique_ptr<Op>> pend;
        std::deque<io_uring_cqe> backlog;
        uint64_t cqes_posted = 0;
        uint64_t rng = 0;
        std::thread::id owner;
        bool single_issuer = false;
        int fd = -1;
        int index = 0;
        unsigned enters = 0;
    };

    namespace
    {
        Config g_cfg;
        std::recursive_mutex g_mu;  // rings, descriptors, storage
        std::vector<std::unique_ptr<Ring>> g_rings;
        std::atomic<size_t> g_created{0};
        std::atomic<uint64_t> g_opid{0};
        std::atomic<bool> g_bad_exit{false}, g_foreign{false};
        std::atomic<int> g_bad_fd{-1};
        uint64_t g_now = 1'000'000'000;
        std::set<int> g_fds;
        jmp_buf g_jmp;
        bool g_can_jump = false;

        // ---- storage ----
        struct Storage
        {
            bool on = false;
            std::string root;
            std::map<std::string, FileState> files;     // present names
            std::vector<std::pair<std::string, FileState>> gone;  // unlinked, in order
            std::map<int, std::string> fd_path;
        } g_st;

        std::string read_file(const std::string& p)
        {
            std::string s;
            int fd = ::open(p.c_str(), O_RDONLY | O_CLOEXEC);
            if (fd < 0) return s;
            char buf[65536];
            ssize_t n;
            while ((n = ::read(fd, buf, sizeof buf)) > 0) s.append(buf, static_cast<size_t>(n));
            ::close(fd);
            return s;
        }
        void write_file(const std::string& p, const std::string& s)
        {
            int fd = ::open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
            if (fd < 0) return;
            size_t o = 0;
            while (o < s.size())
            {
                ssize_t n = ::write(fd, s.data() + o, s.size() - o);
                if (n <= 0) break;
                o += static_cast<size_t>(n);
            }
            ::close(fd);
        }

        bool is_eventfd(int fd)
        {
            char lnk[64], buf[64];
            snprintf(lnk, sizeof lnk, "/proc/self/fd/%d", fd);
            ssize_t n = ::readlink(lnk, buf, sizeof buf - 1);
            if (n <= 0) return false;
            buf[n] = 0;
            return strcmp(buf, "anon_inode:[eventfd]") == 0;
        }

        uint64_t real_ns()
        {
            return static_cast<uint64_t>(std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count());
        }
        uint64_t time_now() { return g_cfg.threaded ? real_ns() : g_now; }

        uint64_t choose(Ring* r, uint64_t n)
        {
            if (n <= 1) return 0;
            if (g_cfg.c && !g_cfg.threaded) return g_cfg.c->draw(n);
            uint64_t v = pbt::splitmix(r->rng);
            return static_cast<uint64_t>((static_cast<unsigned __int128>(v) * n) >> 64);
        }

        Ring* ring_of(io_uring* ring) { return static_cast<Ring*>(ring->sq.ring_ptr); }

        void hold_file(Op& o)
        {
            switch (o.opcode)
            {
                case IORING_OP_READ: case IORING_OP_WRITE: case IORING_OP_READV: case IORING_OP_WRITEV: case IORING_OP_FSYNC: case IORING_OP_FALLOCATE: case 55: break;
                default: return;
            }
            struct stat st;
            if (::fstat(o.fd, &st) != 0) { o.bad_fd = true; return; }
            if (!S_ISREG(st.st_mode)) return;
            int d = ::fcntl(o.fd, F_DUPFD_CLOEXEC, 2048);
            if (d < 0) return;
            // a raw call: harnesses watch close()
            o.held = std::shared_ptr<int>(new int(d), [](int* p) { ::syscall(SYS_close, *p); delete p; });
            std::lock_guard g(g_mu);
            auto it = g_st.fd_path.find(o.fd);
            if (it != g_st.fd_path.end()) o.file_path = it->second;
        }

        std::unique_ptr<Op> make_op(Ring* r, const io_uring_sqe& s)
        {
            auto o = std::make_unique<Op>();
            o->id = g_opid++;
            o->ring = r;
            o->opcode = s.opcode;
            o->sqe_flags = s.flags;
            o->fd = s.fd;
            o->off = s.off;
            o->addr = s.addr;
            o->addr3 = s.addr3;
            o->len = s.len;
            o->op_flags = s.rw_flags;
            o->splice_fd_in = s.splice_fd_in;
            o->user_data = s.user_data;
            o->cqe_mark = r->cqes_posted;
            if (g_cfg.hold_files) hold_file(*o);
            switch (s.opcode)
            {
                case IORING_OP_OPENAT:
                case IORING_OP_UNLINKAT:
                case IORING_OP_MKDIRAT:
                case IORING_OP_RENAMEAT:
                case IORING_OP_STATX: o->path = reinterpret_cast<const char*>(s.addr); break;
                case IORING_OP_CONNECT: o->sockaddr_copy.assign(reinterpret_cast<const char*>(s.addr), static_cast<size_t>(s.off)); break;
                case IORING_OP_READV:
                case IORING_OP_WRITEV:
                {
                    auto* v = reinterpret_cast<const iovec*>(s.addr);
                    o->iov.assign(v, v + s.len);
                    break;
                }
                case IORING_OP_TIMEOUT:
                {
                    __kernel_timespec ts = *reinterpret_cast<const __kernel_timespec*>(s.addr);
                    if (ts.tv_sec < 0 || ts.tv_nsec < 0) { o->deadline = 0; o->invalid_time = true; break; }
                    uint64_t d = static_cast<uint64_t>(ts.tv_sec) * 1'000'000'000ULL + static_cast<uint64_t>(ts.tv_nsec);
                    if (static_cast<uint64_t>(ts.tv_sec) > 9'000'000'000ULL) d = 9'000'000'000'000'000'000ULL;
                    o->deadline = (s.timeout_flags & IORING_TIMEOUT_ABS) ? d : time_now() + d;
                    break;
                }
                case IORING_OP_SENDMSG:
                {
                    auto* m = reinterpret_cast<const msghdr*>(s.addr);
                    o->iov.assign(m->msg_iov, m->msg_iov + m->msg_iovlen);
                    break;
                }
                case IORING_OP_READ: o->wakeup = s.len == 8 && (!g_cfg.synthetic || s.fd < 4096) && is_eventfd(s.fd); break;
                case IORING_OP_POLL_ADD: o->wakeup = !g_cfg.synthetic && is_eventfd(s.fd); break;
                default: break;
            }
            if (g_cfg.threaded && g_cfg.delay_us) o->ready_at = real_ns() + 1000 * choose(r, g_cfg.delay_us + 1);
            return o;
        }

        short poll_events(const Op& o)
        {
            switch (o.opcode)
            {
                case IORING_OP_READ:
                case IORING_OP_READV:
                case IORING_OP_RECV:
                case IORING_OP_RECVMSG:
                case IORING_OP_ACCEPT: return POLLIN;
                case IORING_OP_WRITE:
                case IORING_OP_WRITEV:
                case IORING_OP_SEND:
                case IORING_OP_SENDMSG: return POLLOUT;
                case IORING_OP_SPLICE: return POLLOUT;
                case IORING_OP_POLL_ADD: return static_cast<short>(o.op_flags);
                case IORING_OP_CONNECT: return o.connect_started ? POLLOUT : 0;
                default: return 0;
            }
        }
        bool needs_poll(const Op& o) { return poll_events(o) != 0; }

        void post_cqe(Ring* r, uint64_t ud, int res)
        {
            io_uring_cqe e{};
            e.user_data = ud;
            e.res = res;
            r->backlog.push_back(e);
            ++r->cqes_posted;
        }
        void flush_backlog(Ring* r)
        {
            unsigned head = io_uring_smp_load_acquire(&r->cq_khead);
            while (!r->backlog.empty() && r->cq_ktail - head < r->cq_entries)
            {
                r->cqes[r->cq_ktail & r->cq_mask] = r->backlog.front();
                r->backlog.pop_front();
                io_uring_smp_store_release(&r->cq_ktail, r->cq_ktail + 1);
            }
        }
        unsigned cq_ready(Ring* r) { return r->cq_ktail - io_uring_smp_load_acquire(&r->cq_khead); }

        struct NonBlock
        {
            int fd, fl;
            explicit NonBlock(int f) : fd(f), fl(::fcntl(f, F_GETFL))
            {
                if (fl >= 0 && !(fl & O_NONBLOCK)) ::fcntl(fd, F_SETFL, fl | O_NONBLOCK);
            }
            ~NonBlock()
            {
                int e = errno;
                if (fl >= 0 && !(fl & O_NONBLOCK)) ::fcntl(fd, F_SETFL, fl);
                errno = e;
            }
        };
        bool is_reg(int fd)
        {
            struct stat st;
            return ::fstat(fd, &st) == 0 && S_ISREG(st.st_mode);
        }

        std::vector<iovec> cut(std::vector<iovec> v, size_t limit)
        {
            std::vector<iovec> o;
            for (auto& x: v)
            {
                if (limit == 0) break;
                iovec y = x;
                y.iov_len = std::min(y.iov_len, limit);
                limit -= y.iov_len;
                o.push_back(y);
            }
            return o;
        }

        std::string path_of(int fd)
        {
            std::lock_guard g(g_mu);
            auto it = g_st.fd_path.find(fd);
            return it == g_st.fd_path.end() ? std::string() : it->second;
        }
        std::string op_path(const Op& o) { return o.held ? o.file_path : path_of(o.fd); }
        void storage_mut(const Op& o, int kind, uint64_t off, std::string data)
        {
            if (!g_st.on) return;
            std::lock_guard g(g_mu);
            auto f = g_st.files.find(op_path(o));
            if (f == g_st.files.end()) return;
            f->second.pending.push_back({kind, off, std::move(data)});
        }
        void storage_sync(const Op& o)
        {
            if (!g_st.on) return;
            std::string p = op_path(o);
            if (p.empty()) return;
            std::lock_guard g(g_mu);
            auto f = g_st.files.find(p);
            if (f == g_st.files.end()) return;
            std::string s = read_file(p);
            f->second.durable = std::move(s);
            f->second.pending.clear();
            f->second.created_durable = true;
        }

        // Carries the operation out. Returns its result, or -EAGAIN when it has to wait.
        int execute(Op& o, const Fault& f)
        {
            if (o.bad_fd) return -EBADF;
            const int fd = o.real_fd();
            const size_t lim = f.limit;
            auto err = [](ssize_t r) { return r < 0 ? -errno : static_cast<int>(r); };
            switch (o.opcode)
            {
                case IORING_OP_NOP: return 0;
                case IORING_OP_READ:
                case IORING_OP_RECV:
                {
                    size_t n = std::min<size_t>({o.len, lim, 0x7ffff000});
                    auto* b = reinterpret_cast<char*>(o.addr);
                    if (o.opcode == IORING_OP_RECV) return err(::recv(fd, b, n, static_cast<int>(o.op_flags) | MSG_DONTWAIT));
                    if (static_cast<int64_t>(o.off) != -1)
                    {
                        ssize_t r = ::pread(fd, b, n, static_cast<off_t>(o.off));
                        if (r >= 0 || errno != ESPIPE) return err(r);
                    }
                    NonBlock nb(fd);
                    return err(::read(fd, b, n));
                }
                case IORING_OP_WRITE:
                case IORING_OP_SEND:
                {
                    size_t n = std::min<size_t>({o.len, lim, 0x7ffff000});
                    auto* b = reinterpret_cast<const char*>(o.addr);
                    if (o.opcode == IORING_OP_SEND) return err(::send(fd, b, n, static_cast<int>(o.op_flags) | MSG_DONTWAIT | MSG_NOSIGNAL));
                    if (static_cast<int64_t>(o.off) != -1)
                    {
                        ssize_t r = ::pwrite(fd, b, n, static_cast<off_t>(o.off));
                        if (r > 0) storage_mut(o, 0, o.off, std::string(b, static_cast<size_t>(r)));
                        if (r >= 0 || errno != ESPIPE) return err(r);
                    }
                    uint64_t pos = g_st.on && is_reg(fd) ? static_cast<uint64_t>(::lseek(fd, 0, (::fcntl(fd, F_GETFL) & O_APPEND) ? SEEK_END : SEEK_CUR)) : 0;
                    NonBlock nb(fd);
                    ssize_t r = ::write(fd, b, n);
                    if (r > 0 && g_st.on) storage_mut(o, 0, pos, std::string(b, static_cast<size_t>(r)));
                    return err(r);
                }
                case IORING_OP_READV:
                {
                    auto v = cut(o.iov, lim);
                    if (static_cast<int64_t>(o.off) != -1)
                    {
                        ssize_t r = ::preadv(fd, v.data(), static_cast<int>(v.size()), static_cast<off_t>(o.off));
                        if (r >= 0 || errno != ESPIPE) return err(r);
                    }
                    NonBlock nb(fd);
                    return err(::readv(fd, v.data(), static_cast<int>(v.size())));
                }
                case IORING_OP_WRITEV:
                {
                    auto v = cut(o.iov, lim);
                    auto gather = [&](ssize_t r) {
                        std::string s;
                        for (auto& x: v) s.append(static_cast<const char*>(x.iov_base), x.iov_len);
                        s.resize(static_cast<size_t>(std::max<ssize_t>(0, r)));
                        return s;
                    };
                    if (static_cast<int64_t>(o.off) != -1)
                    {
                        ssize_t r = ::pwritev(fd, v.data(), static_cast<int>(v.size()), static_cast<off_t>(o.off));
                        if (r > 0 && g_st.on) storage_mut(o, 0, o.off, gather(r));
                        if (r >= 0 || errno != ESPIPE) return err(r);
                    }
                    uint64_t pos = g_st.on && is_reg(fd) ? static_cast<uint64_t>(::lseek(fd, 0, SEEK_CUR)) : 0;
                    NonBlock nb(fd);
                    ssize_t r = ::writev(fd, v.data(), static_cast<int>(v.size()));
                    if (r > 0 && g_st.on) storage_mut(o, 0, pos, gather(r));
                    return err(r);
                }
                case IORING_OP_FSYNC:
                {
                    // nothing is flushed for real: the storage model decides what power loss keeps
                    if (::fcntl(fd, F_GETFD) < 0) return -EBADF;
                    struct stat st;
                    if (::fstat(fd, &st) == 0 && !S_ISREG(st.st_mode) && !S_ISDIR(st.st_mode)) return -EINVAL;
                    storage_sync(o);
                    return 0;
                }
                case IORING_OP_SENDMSG:
                {
                    auto* m = reinterpret_cast<const msghdr*>(o.addr);
                    msghdr mm = *m;
                    auto v = cut(o.iov, lim);
                    mm.msg_iov = v.data();
                    mm.msg_iovlen = v.size();
                    return err(::sendmsg(o.fd, &mm, static_cast<int>(o.op_flags) | MSG_DONTWAIT | MSG_NOSIGNAL));
                }
                case IORING_OP_RECVMSG: return err(::recvmsg(o.fd, reinterpret_cast<msghdr*>(o.addr), static_cast<int>(o.op_flags) | MSG_DONTWAIT));
                case IORING_OP_ACCEPT:
                {
                    NonBlock nb(o.fd);
                    int r = ::accept4(o.fd, reinterpret_cast<sockaddr*>(o.addr), reinterpret_cast<socklen_t*>(o.off), static_cast<int>(o.op_flags));
                    if (r >= 0)
                    {
                        std::lock_guard g(g_mu);
                        g_fds.insert(r);
                    }
                    return err(r);
                }
                case IORING_OP_CONNECT:
                {
                    if (!o.connect_started)
                    {
                        NonBlock nb(o.fd);
                        int r = ::connect(o.fd, reinterpret_cast<const sockaddr*>(o.sockaddr_copy.data()), static_cast<socklen_t>(o.sockaddr_copy.size()));
                        if (r == 0) return 0;
                        if (errno == EINPROGRESS)
                        {
                            o.connect_started = true;
                            return -EAGAIN;
                        }
                        return -errno;
                    }
                    int e = 0;
                    socklen_t l = sizeof e;
                    if (::getsockopt(o.fd, SOL_SOCKET, SO_ERROR, &e, &l) != 0) return -errno;
                    return -e;
                }
                case IORING_OP_FALLOCATE:
                {
                    int mode = static_cast<int>(o.len);
                    auto off = static_cast<off_t>(o.off), len = static_cast<off_t>(o.addr);
                    int r = ::fallocate(fd, mode, off, len);
                    if (r == 0 && g_st.on && mode == 0) storage_mut(o, 2, o.off + o.addr, "");
                    return r < 0 ? -errno : 0;
                }
                case 55 /* FTRUNCATE */:
                {
                    int r = ::ftruncate(fd, static_cast<off_t>(o.off));
                    if (r == 0) storage_mut(o, 1, o.off, "");
                    return r < 0 ? -errno : 0;
                }
                case IORING_OP_OPENAT:
                {
                    struct stat st;
                    bool existed = ::fstatat(o.fd, o.path.c_str(), &st, 0) == 0;
                    int r = ::openat(o.fd, o.path.c_str(), static_cast<int>(o.op_flags), static_cast<mode_t>(o.len));
                    if (r < 0) return -errno;
                    std::lock_guard g(g_mu);
                    if (g_cfg.fresh_fds)
                    {
                        // numbers are not reused soon: an operation on a closed descriptor does not hit another file
                        static int next = 512;
                        if (next >= 2000) next = 512;
                        int n = ::fcntl(r, F_DUPFD_CLOEXEC, next);
                        if (n >= 0)
                        {
                            next = n + 1;
                            ::syscall(SYS_close, r);
                            r = n;
                        }
                    }
                    g_fds.insert(r);
                    if (g_st.on && o.path.compare(0, g_st.root.size(), g_st.root) == 0 && is_reg(r))
                    {
                        g_st.fd_path[r] = o.path;
                        auto& fs = g_st.files[o.path];
                        if (!existed) fs = FileState{};
                        else if ((o.op_flags & O_TRUNC) && (o.op_flags & O_ACCMODE) != O_RDONLY) fs.pending.push_back({1, 0, ""});
                    }
                    return r;
                }
                case IORING_OP_CLOSE:
                {
                    {
                        std::lock_guard g(g_mu);
                        g_fds.erase(o.fd);
                        g_st.fd_path.erase(o.fd);
                    }
                    return ::close(o.fd) < 0 ? -errno : 0;
                }
                case IORING_OP_UNLINKAT:
                {
                    int r = ::unlinkat(o.fd, o.path.c_str(), static_cast<int>(o.op_flags));
                    if (r < 0) return -errno;
                    if (g_st.on)
                    {
                        std::lock_guard g(g_mu);
                        auto it = g_st.files.find(o.path);
                        if (it != g_st.files.end())
                        {
                            if (it->second.created_durable) g_st.gone.emplace_back(o.path, it->second);
                            g_st.files.erase(it);
                        }
                    }
                    return 0;
                }
                case IORING_OP_MKDIRAT: return ::mkdirat(o.fd, o.path.c_str(), static_cast<mode_t>(o.len)) < 0 ? -errno : 0;
                case IORING_OP_SHUTDOWN: return ::shutdown(o.fd, static_cast<int>(o.len)) < 0 ? -errno : 0;
                case IORING_OP_SPLICE:
                {
                    // wait until the target takes data; both ends are used without blocking
                    off_t oi = static_cast<off_t>(o.addr), oo = static_cast<off_t>(o.off);
                    size_t n = std::min<size_t>(o.len, lim);
                    NonBlock nb(o.fd);
                    ssize_t r = ::splice(o.splice_fd_in, oi == -1 ? nullptr : &oi, o.fd, oo == -1 ? nullptr : &oo, n, o.op_flags | SPLICE_F_NONBLOCK);
                    return err(r);
                }
                case IORING_OP_STATX: return ::statx(o.fd, o.path.c_str(), static_cast<int>(o.op_flags), o.len, reinterpret_cast<struct statx*>(o.off)) < 0 ? -errno : 0;
                case IORING_OP_TIMEOUT: return -ETIME;
                default: return -EINVAL;
            }
        }

        void in_flight_at_crash();

        void finish(Ring* r, size_t i, int res)
        {
            std::unique_ptr<Op> o = std::move(r->pend[i]);
            r->pend.erase(r->pend.begin() + static_cast<ptrdiff_t>(i));
            o->res = res;
            post_cqe(r, o->user_data, res);
            if (g_cfg.done) g_cfg.done(*o);
        }

        // cancel and timeout-remove act at submission
        bool control_op(Ring* r, Op& o, int& res)
        {
            if (o.opcode == IORING_OP_ASYNC_CANCEL || o.opcode == IORING_OP_TIMEOUT_REMOVE || o.opcode == IORING_OP_POLL_REMOVE)
            {
                res = -ENOENT;
                for (size_t i = 0; i < r->pend.size(); ++i)
                {
                    Op& t = *r->pend[i];
                    bool match;
                    if (o.opcode == IORING_OP_ASYNC_CANCEL && (o.op_flags & IORING_ASYNC_CANCEL_ANY)) match = true;
                    else if (o.opcode == IORING_OP_ASYNC_CANCEL && (o.op_flags & IORING_ASYNC_CANCEL_FD)) match = t.fd == o.fd;
                    else match = t.user_data == o.addr;
                    if (o.opcode == IORING_OP_TIMEOUT_REMOVE && t.opcode != IORING_OP_TIMEOUT) match = false;
                    if (o.opcode == IORING_OP_POLL_REMOVE && t.opcode != IORING_OP_POLL_ADD) match = false;
                    if (match)
                    {
                        finish(r, i, -ECANCELED);
                        res = 0;
                        break;
                    }
                }
                return true;
            }
            return false;
        }

        // indices of pending operations that could complete now
        std::vector<size_t> runnable(Ring* r)
        {
            std::vector<size_t> out;
            std::vector<pollfd> pf;
            std::vector<size_t> pi;
            uint64_t now = time_now();
            for (size_t i = 0; i < r->pend.size(); ++i)
            {
                Op& o = *r->pend[i];
                if (g_cfg.hold && g_cfg.hold(o)) continue;
                if (o.ready_at > now) continue;
                if (o.opcode == IORING_OP_TIMEOUT)
                {
                    if (o.invalid_time || o.deadline <= now || (o.off > 0 && r->cqes_posted - o.cqe_mark >= o.off)) out.push_back(i);
                    continue;
                }
                if (!o.held && !o.bad_fd && needs_poll(o) && (o.wakeup || !g_cfg.synthetic))
                {
                    pf.push_back({o.fd, poll_events(o), 0});
                    pi.push_back(i);
                }
                else out.push_back(i);
            }
            if (!pf.empty())
            {
                ::poll(pf.data(), pf.size(), 0);
                for (size_t k = 0; k < pf.size(); ++k)
                    if (pf[k].revents || pf[k].fd < 0) out.push_back(pi[k]);
                std::sort(out.begin(), out.end());
            }
            return out;
        }

        // completes the operation; false: it turned out to have to wait
        bool run_op(Ring* r, size_t i)
        {
            Op& o = *r->pend[i];
            if (o.opcode == IORING_OP_TIMEOUT)
            {
                int res = o.invalid_time ? -EINVAL : (o.deadline <= time_now() ? -ETIME : 0);
                finish(r, i, res);
                return true;
            }
            Fault f;
            if (!o.wakeup && g_cfg.fault) f = g_cfg.fault(o);
            if (f.crash)
            {
                if (f.limit > 0 && !f.error)
                {
                    if (f.limit == SIZE_MAX || o.is_transfer()) execute(o, f);
                }
                r->pend.erase(r->pend.begin() + static_cast<ptrdiff_t>(i));
                crash();
            }
            int res;
            if (f.error) res = -f.error;
            else if (f.use_override) res = f.override_res;
            else if (o.opcode == IORING_OP_POLL_ADD)
            {
                pollfd p{o.fd, static_cast<short>(o.op_flags), 0};
                ::poll(&p, 1, 0);
                if (o.fd < 0 || (p.revents & POLLNVAL)) res = -EBADF;
                else if (!p.revents) return false;
                else res = p.revents;
            }
            else
            {
                if (f.limit == 0 && o.is_transfer()) f.limit = 1;
                res = execute(o, f);
                if (res == -EAGAIN && (needs_poll(o) || o.connect_started) && !(o.opcode == IORING_OP_SPLICE && o.off != static_cast<uint64_t>(-1)))
                {
                    // nothing there after all (another operation took it): wait on
                    return false;
                }
            }
            finish(r, i, res);
            return true;
        }

        uint64_t next_deadline(Ring* r)
        {
            uint64_t d = UINT64_MAX;
            for (auto& o: r->pend)
            {
                if (g_cfg.hold && g_cfg.hold(*o)) continue;
                if (o->opcode == IORING_OP_TIMEOUT) d = std::min(d, o->deadline);
                if (o->ready_at > time_now()) d = std::min(d, o->ready_at);
            }
            return d;
        }

        int enter(io_uring* ur, unsigned wait_nr)
        {
            Ring* r = ring_of(ur);
            if (r->single_issuer && std::this_thread::get_id() != r->owner)
            {
                g_foreign = true;
                return -EEXIST;
            }
            if (g_cfg.enter_fault)
                if (int e = g_cfg.enter_fault(r->index, r->enters++); e < 0) return e;
            // publish the queued entries, as liburing does
            unsigned tail = ur->sq.sqe_tail;
            ur->sq.sqe_head = tail;
            unsigned n = 0;
            std::vector<std::unique_ptr<Op>> fresh;
            while (r->sq_khead != tail)
            {
                const io_uring_sqe& s = r->sqes[r->sq_khead & r->sq_mask];
                fresh.push_back(make_op(r, s));
                io_uring_smp_store_release(&r->sq_khead, r->sq_khead + 1);
                ++n;
            }
            r->sq_ktail = tail;
            for (auto& o: fresh)
            {
                if (g_cfg.submitted) g_cfg.submitted(*o);
                int res;
                if (control_op(r, *o, res))
                {
                    o->res = res;
                    post_cqe(r, o->user_data, res);
                    if (g_cfg.done) g_cfg.done(*o);
                }
                else r->pend.push_back(std::move(o));
            }
            flush_backlog(r);
            if (!g_cfg.threaded && n && g_cfg.inline_completions && g_cfg.c && choose(r, 8) == 7)
            {
                auto ru = runnable(r);
                if (!ru.empty() && run_op(r, ru[choose(r, ru.size())])) flush_backlog(r);
            }
            if (wait_nr == 0) return static_cast<int>(n);
            wait_nr = std::min(wait_nr, r->cq_entries);

            if (!g_cfg.threaded)
            {
                unsigned spins = 0;
                while (cq_ready(r) < wait_nr)
                {
                    if (n == 0 && g_cfg.eintr_per_mille && choose(r, 1000) >= 1000 - g_cfg.eintr_per_mille) return -EINTR;
                    if (g_cfg.tick) g_cfg.tick();
                    auto ru = runnable(r);
                    if (ru.empty() || (g_cfg.timers_compete && next_deadline(r) != UINT64_MAX && choose(r, 16) == 15))
                    {
                        if (ru.empty() && g_cfg.idle)
                        {
                            if (!g_cfg.idle())
                                abort_case("stall", std::format("the worker sleeps for ever: {} operations pending, none can complete", r->pend.size()));
                            if (++spins > 100000) abort_case("stall", "the worker never gets anything to do");
                            continue;
                        }
                        uint64_t d = next_deadline(r);
                        if (d == UINT64_MAX)
                        {
                            if (ru.empty()) abort_case("stall", std::format("the worker sleeps for ever: {} operations pending, none can complete", r->pend.size()));
                        }
                        else
                        {
                            if (d > g_now) g_now = d;
                            ru = runnable(r);
                        }
                    }
                    if (ru.empty()) continue;
                    unsigned batch = 1;
                    if (g_cfg.max_batch > 1) batch = 1 + static_cast<unsigned>(choose(r, std::min<uint64_t>(g_cfg.max_batch, ru.size())));
                    for (unsigned b = 0; b < batch && !ru.empty(); ++b)
                    {
                        size_t k = g_cfg.reorder ? choose(r, ru.size()) : 0;
                        size_t idx = ru[k];
                        size_t before = r->pend.size();
                        if (run_op(r, idx))
                        {
                            (void) before;
                            ru.erase(ru.begin() + static_cast<ptrdiff_t>(k));
                            for (auto& x: ru)
                                if (x > idx) --x;
                        }
                        else ru.erase(ru.begin() + static_cast<ptrdiff_t>(k));
                    }
                    flush_backlog(r);
                }
                return static_cast<int>(n);
            }

            // threaded: block for real
            while (cq_ready(r) < wait_nr)
            {
                auto ru = runnable(r);
                if (!ru.empty())
                {
                    unsigned batch = 1 + static_cast<unsigned>(choose(r, std::min<uint64_t>(g_cfg.max_batch, ru.size())));
                    bool any = false;
                    for (unsigned b = 0; b < batch && !ru.empty(); ++b)
                    {
                        size_t k = g_cfg.reorder ? choose(r, ru.size()) : 0;
                        size_t idx = ru[k];
                        if (run_op(r, idx))
                        {
                            any = true;
                            for (auto& x: ru)
                                if (x > idx) --x;
                        }
                        ru.erase(ru.begin() + static_cast<ptrdiff_t>(k));
                    }
                    flush_backlog(r);
                    if (!any) std::this_thread::yield();
                    continue;
                }
                if (n == 0 && g_cfg.eintr_per_mille && choose(r, 1000) < g_cfg.eintr_per_mille) return -EINTR;
                std::vector<pollfd> pf;
                uint64_t now = real_ns();
                uint64_t d = next_deadline(r);
                for (auto& o: r->pend)
                {
                    if (o->ready_at > now) d = std::min(d, o->ready_at);
                    else if (needs_poll(*o)) pf.push_back({o->fd, poll_events(*o), 0});
                }
                timespec ts{0, 50'000'000};
                if (d != UINT64_MAX)
                {
                    uint64_t w = d > now ? d - now : 0;
                    w = std::min<uint64_t>(w, 50'000'000);
                    ts.tv_nsec = static_cast<long>(w);
                }
                ::ppoll(pf.data(), pf.size(), &ts, nullptr);
            }
            return static_cast<int>(n);
        }

        // ---- helper thread ----
        struct Helper
        {
            std::mutex m;
            std::condition_variable cv;
            const std::function<void()>* job = nullptr;
            bool started = false;
            void run()
            {
                std::unique_lock l(m);
                for (;;)
                {
                    cv.wait(l, [&] { return job != nullptr; });
                    (*job)();
                    job = nullptr;
                    cv.notify_all();
                }
            }
        };
        Helper& helper()
        {
            static Helper* h = new Helper;
            return *h;
        }
    }  // namespace

    size_t Op::bytes() const
    {
        if (opcode == IORING_OP_READV || opcode == IORING_OP_WRITEV || opcode == IORING_OP_SENDMSG)
        {
            size_t n = 0;
            for (auto& v: iov) n += v.iov_len;
            return n;
        }
        return len;
    }
    std::string Op::gather() const
    {
        if (opcode == IORING_OP_WRITE || opcode == IORING_OP_SEND) return std::string(reinterpret_cast<const char*>(addr), len);
        std::string s;
        for (auto& v: iov) s.append(static_cast<const char*>(v.iov_base), v.iov_len);
        return s;
    }
    const char* opname(uint8_t op)
    {
        switch (op)
        {
            case IORING_OP_NOP: return "nop";
            case IORING_OP_READ: return "read";
            case IORING_OP_WRITE: return "write";
            case IORING_OP_READV: return "readv";
            case IORING_OP_WRITEV: return "writev";
            case IORING_OP_FSYNC: return "fsync";
            case IORING_OP_POLL_ADD: return "poll";
            case IORING_OP_SENDMSG: return "sendmsg";
            case IORING_OP_TIMEOUT: return "timeout";
            case IORING_OP_ACCEPT: return "accept";
            case IORING_OP_CONNECT: return "connect";
            case IORING_OP_FALLOCATE: return "fallocate";
            case IORING_OP_OPENAT: return "openat";
            case IORING_OP_CLOSE: return "close";
            case IORING_OP_UNLINKAT: return "unlinkat";
            case IORING_OP_SPLICE: return "splice";
            case 55: return "ftruncate";
            default: return "op";
        }
    }

    void begin(const Config& cfg)
    {
        std::lock_guard g(g_mu);
        g_rings.clear();
        g_cfg = cfg;
        g_created = 0;
        g_opid = 0;
        g_bad_exit = false;
        g_bad_fd = -1;
        g_foreign = false;
        g_now = 1'000'000'000;
        g_fds.clear();
        g_st = Storage{};
        g_can_jump = false;
    }
    void end()
    {
        std::lock_guard g(g_mu);
        for (auto& r: g_rings)
            if (r->fd >= 0) ::close(r->fd);
        g_rings.clear();
        g_cfg = Config{};
        g_st = Storage{};
    }
    Config& config() { return g_cfg; }
    uint64_t now_ns() { return time_now(); }
    void advance_ns(uint64_t d) { g_now += d; }
    bool advance_to_next_timer()
    {
        uint64_t d = UINT64_MAX;
        for (auto& r: g_rings) d = std::min(d, next_deadline(r.get()));
        if (d == UINT64_MAX) return false;
        if (d > g_now) g_now = d;
        return true;
    }
    size_t rings_alive()
    {
        std::lock_guard g(g_mu);
        return g_rings.size();
    }
    size_t rings_created() { return g_created; }
    size_t pending(bool inc)
    {
        size_t n = 0;
        for (auto& r: g_rings)
            for (auto& o: r->pend) n += inc || !o->wakeup;
        return n;
    }
    std::vector<const Op*> pending_ops()
    {
        std::vector<const Op*> v;
        for (auto& r: g_rings)
            for (auto& o: r->pend) v.push_back(o.get());
        return v;
    }
    bool bad_exit() { return g_bad_exit; }
    int bad_exit_fd() { return g_bad_fd; }
    bool foreign_submit() { return g_foreign; }
    bool is_worker_eventfd(int fd) { return is_eventfd(fd); }

    bool run_until_crash(const std::function<void()>& f)
    {
        g_can_jump = true;
        if (setjmp(g_jmp) == 0)
        {
            f();
            g_can_jump = false;
            return false;
        }
        g_can_jump = false;
        return true;
    }
    void crash()
    {
        in_flight_at_crash();
        if (!g_can_jump)
        {
            fprintf(stderr, "simuring: crash outside run_until_crash\n");
            _exit(97);
        }
        longjmp(g_jmp, 1);
    }
    void abort_case(const std::string& tag, const std::string& msg)
    {
        if (g_cfg.c) g_cfg.c->soft_fail(tag, msg);
        if (!g_can_jump)
        {
            fprintf(stderr, "simuring: %s: %s\n", tag.c_str(), msg.c_str());
            _exit(97);
        }
        longjmp(g_jmp, 1);
    }
    void on_helper(const std::function<void()>& f)
    {
        Helper& h = helper();
        std::unique_lock l(h.m);
        if (!h.started)
        {
            h.started = true;
            std::thread([&h] { h.run(); }).detach();
        }
        h.job = &f;
        h.cv.notify_all();
        h.cv.wait(l, [&] { return h.job == nullptr; });
    }

    const std::set<int>& open_fds() { return g_fds; }
    void forget_fd(int fd)
    {
        std::lock_guard g(g_mu);
        g_fds.erase(fd);
        g_st.fd_path.erase(fd);
    }
    void close_open_fds()
    {
        for (int fd: g_fds) ::syscall(SYS_close, fd);
        g_fds.clear();
        g_st.fd_path.clear();
    }

    namespace
    {
        // operations the kernel had accepted: each was carried out, partly or not at all
        void in_flight_at_crash()
        {
            if (!g_cfg.c || g_cfg.threaded) return;
            for (auto& r: g_rings)
                for (auto& o: r->pend)
                {
                    bool storage = o->is_write() ? is_reg(o->real_fd())
                                                 : (o->opcode == IORING_OP_OPENAT || o->opcode == IORING_OP_UNLINKAT || o->opcode == 55 || o->opcode == IORING_OP_FALLOCATE || o->opcode == IORING_OP_FSYNC);
                    if (!storage) continue;
                    switch (g_cfg.c->draw(3))
                    {
                        case 0: break;
                        case 1: execute(*o, Fault{}); break;
                        default:
                            if (o->is_write() && o->bytes() > 0)
                            {
                                Fault f;
                                f.limit = g_cfg.c->draw(o->bytes());
                                if (f.limit) execute(*o, f);
                            }
                            break;
                    }
                }
        }
    }

    void track_storage(const std::string& root)
    {
        std::lock_guard g(g_mu);
        g_st = Storage{};
        g_st.on = true;
        g_st.root = root;
    }
    void untrack_storage() { g_st.on = false; }
    void storage_adopt(const std::string& path)
    {
        std::string s = read_file(path);
        std::lock_guard g(g_mu);
        auto& f = g_st.files[path];
        f.durable = std::move(s);
        f.created_durable = true;
        f.pending.clear();
    }
    void power_loss(pbt::Case& c)
    {
        std::map<std::string, FileState> files = g_st.files;
        // the removals from here on were not flushed
        for (size_t i = g_st.gone.size() - c.draw(g_st.gone.size() + 1); i < g_st.gone.size(); ++i)
        {
            auto& [p, f] = g_st.gone[i];
            if (!files.count(p)) files[p] = f;
        }
        for (auto& [p, f]: files)
        {
            if (!f.created_durable && c.coin())
            {
                ::unlink(p.c_str());
                continue;
            }
            std::string s = f.durable;
            // each change since the last flush reached the disk, reached it partly, or not
            for (auto& m: f.pending)
            {
                uint64_t k = c.draw(4);
                if (k == 0) continue;
                if (m.kind == 1) s.resize(m.off);
                else if (m.kind == 2)
                {
                    if (s.size() < m.off) s.resize(m.off);
                }
                else
                {
                    std::string d = m.data;
                    if (k == 3 && !d.empty()) d.resize(c.draw(d.size()));
                    if (d.empty()) continue;
                    if (s.size() < m.off + d.size()) s.resize(m.off + d.size());
                    s.replace(m.off, d.size(), d);
                }
            }
            write_file(p, s);
        }
    }
}  // namespace sim

using sim::Ring;

static int sim_init(unsigned entries, io_uring* ring, io_uring_params* p)
{
    int index = static_cast<int>(sim::g_created++);
    int e = sim::g_cfg.init_fault ? sim::g_cfg.init_fault(index) : 0;
    if (!e) e = sim::g_cfg.init_error;
    memset(ring, 0, sizeof *ring);
    ring->ring_fd = ring->enter_ring_fd = 0;
    if (e) return -e;
    if (entries == 0 || entries > 32768) return -EINVAL;
    auto r = std::make_unique<Ring>();
    unsigned n = 1;
    while (n < entries) n *= 2;
    unsigned cn = 2 * n;
    if (p && (p->flags & IORING_SETUP_CQSIZE)) { cn = 1; while (cn < p->cq_entries) cn *= 2; }
    r->index = index;
    r->sq_entries = n;
    r->sq_mask = n - 1;
    r->cq_entries = cn;
    r->cq_mask = cn - 1;
    r->array.resize(n);
    for (unsigned i = 0; i < n; ++i) r->array[i] = i;
    r->sqes.resize(n);
    r->cqes.resize(cn);
    r->owner = std::this_thread::get_id();
    r->single_issuer = p && (p->flags & IORING_SETUP_SINGLE_ISSUER);
    r->rng = sim::g_cfg.seed * 0x9E3779B97F4A7C15ULL + static_cast<uint64_t>(index) * 77777 + 1;
    r->fd = ::eventfd(0, EFD_CLOEXEC);
    if (r->fd < 0) return -errno;
    ring->sq.khead = &r->sq_khead;
    ring->sq.ktail = &r->sq_ktail;
    ring->sq.kring_mask = &r->sq_mask;
    ring->sq.kring_entries = &r->sq_entries;
    ring->sq.kflags = &r->sq_flags;
    ring->sq.kdropped = &r->sq_dropped;
    ring->sq.array = r->array.data();
    ring->sq.sqes = r->sqes.data();
    ring->sq.ring_ptr = r.get();
    ring->sq.ring_mask = r->sq_mask;
    ring->sq.ring_entries = n;
    ring->cq.khead = &r->cq_khead;
    ring->cq.ktail = &r->cq_ktail;
    ring->cq.kring_mask = &r->cq_mask;
    ring->cq.kring_entries = &r->cq_entries;
    ring->cq.kflags = &r->cq_flags;
    ring->cq.koverflow = &r->cq_overflow;
    ring->cq.cqes = r->cqes.data();
    ring->cq.ring_ptr = r.get();
    ring->cq.ring_mask = r->cq_mask;
    ring->cq.ring_entries = cn;
    ring->flags = p ? p->flags : 0;
    ring->ring_fd = ring->enter_ring_fd = r->fd;
    ring->features = IORING_FEAT_SINGLE_MMAP | IORING_FEAT_NODROP | IORING_FEAT_SUBMIT_STABLE | IORING_FEAT_RW_CUR_POS | IORING_FEAT_FAST_POLL | IORING_FEAT_EXT_ARG;
    if (p)
    {
        p->sq_entries = n;
        p->cq_entries = cn;
        p->features = ring->features;
    }
    std::lock_guard g(sim::g_mu);
    sim::g_rings.push_back(std::move(r));
    return 0;
}

extern "C"
{
    int io_uring_queue_init_params(unsigned entries, struct io_uring* ring, struct io_uring_params* p) { return sim_init(entries, ring, p); }
    int io_uring_queue_init(unsigned entries, struct io_uring* ring, unsigned flags)
    {
        io_uring_params p{};
        p.flags = flags;
        return sim_init(entries, ring, &p);
    }
    void io_uring_queue_exit(struct io_uring* ring)
    {
        std::unique_ptr<Ring> r;
        {
            std::lock_guard g(sim::g_mu);
            for (auto it = sim::g_rings.begin(); it != sim::g_rings.end(); ++it)
                if (it->get() == ring->sq.ring_ptr)
                {
                    r = std::move(*it);
                    sim::g_rings.erase(it);
                    break;
                }
        }
        if (!r)
        {
            sim::g_bad_fd = ring->ring_fd;
            sim::g_bad_exit = true;
            return;
        }
        ::close(r->fd);
        r->fd = -1;
    }
    int io_uring_submit(struct io_uring* ring) { return sim::enter(ring, 0); }
    int io_uring_submit_and_wait(struct io_uring* ring, unsigned n) { return sim::enter(ring, n); }
    int io_uring_get_events(struct io_uring* ring)
    {
        sim::flush_backlog(sim::ring_of(ring));
        return 0;
    }
    int io_uring_submit_and_get_events(struct io_uring* ring) { return sim::enter(ring, 0); }
    unsigned io_uring_peek_batch_cqe(struct io_uring* ring, struct io_uring_cqe** cqes, unsigned count)
    {
        Ring* r = sim::ring_of(ring);
        sim::flush_backlog(r);
        unsigned n = std::min(count, sim::cq_ready(r));
        for (unsigned i = 0; i < n; ++i) cqes[i] = &r->cqes[(r->cq_khead + i) & r->cq_mask];
        return n;
    }
    int __io_uring_get_cqe(struct io_uring* ring, struct io_uring_cqe** cqe_ptr, unsigned, unsigned wait_nr, sigset_t*)
    {
        Ring* r = sim::ring_of(ring);
        sim::flush_backlog(r);
        if (sim::cq_ready(r) == 0)
        {
            if (wait_nr == 0)
            {
                *cqe_ptr = nullptr;
                return -EAGAIN;
            }
            int e = sim::enter(ring, wait_nr);
            if (e < 0)
            {
                *cqe_ptr = nullptr;
                return e;
            }
        }
        *cqe_ptr = &r->cqes[r->cq_khead & r->cq_mask];
        return 0;
    }
    int io_uring_wait_cqes(struct io_uring* ring, struct io_uring_cqe** cqe_ptr, unsigned wait_nr, struct __kernel_timespec*, sigset_t* s) { return __io_uring_get_cqe(ring, cqe_ptr, 0, wait_nr, s); }
    int io_uring_wait_cqe_timeout(struct io_uring* ring, struct io_uring_cqe** cqe_ptr, struct __kernel_timespec*) { return __io_uring_get_cqe(ring, cqe_ptr, 0, 1, nullptr); }
    int io_uring_submit_and_wait_timeout(struct io_uring* ring, struct io_uring_cqe** cqe_ptr, unsigned wait_nr, struct __kernel_timespec*, sigset_t*)
    {
        int e = sim::enter(ring, wait_nr);
        if (e >= 0 && cqe_ptr) io_uring_peek_batch_cqe(ring, cqe_ptr, 1);
        return e;
    }
    int io_uring_register_iowq_aff(struct io_uring*, size_t, const cpu_set_t*) { return 0; }
    int io_uring_unregister_iowq_aff(struct io_uring*) { return 0; }
    int io_uring_register_iowq_max_workers(struct io_uring*, unsigned*) { return 0; }
    int io_uring_register_ring_fd(struct io_uring*) { return 1; }
    int io_uring_enable_rings(struct io_uring*) { return 0; }
    int io_uring_register_files(struct io_uring*, const int*, unsigned) { return 0; }
    int io_uring_register_buffers(struct io_uring*, const struct iovec*, unsigned) { return 0; }
    int __io_uring_sqring_wait(struct io_uring*) { return 0; }

    // Worker ids pin threads to processors: keep the sandbox's scheduling
    int pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t*) { return 0; }
    // A check may run under any kernel
    char sim_uname_release[65] = "6.8.0-sim";
    int uname(struct utsname* u)
    {
        memset(u, 0, sizeof *u);
        strcpy(u->sysname, "Linux");
        strncpy(u->release, sim_uname_release, sizeof u->release - 1);
        strcpy(u->machine, "x86_64");
        return 0;
    }
}
