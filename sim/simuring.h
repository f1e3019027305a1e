// A simulated io_uring: replaces liburing's functions at link time so that the
// order of completions, short transfers, errors, time and crashes are decided
// by the test. Operations act on real descriptors of this process.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include <liburing.h>
#include <sys/socket.h>

namespace pbt { class Case; }

namespace sim
{
    struct Ring;

    // One submitted operation, as the kernel saw it.
    struct Op
    {
        uint64_t id = 0;            // submission order over all rings
        Ring* ring = nullptr;
        uint8_t opcode = 0;
        uint8_t sqe_flags = 0;
        int fd = -1;
        uint64_t off = 0, addr = 0, addr3 = 0;
        uint32_t len = 0, op_flags = 0;
        int splice_fd_in = -1;
        uint64_t user_data = 0;
        std::string path;           // OPENAT, UNLINKAT, ... (copied at submission, as the kernel does)
        std::string sockaddr_copy;  // CONNECT
        std::vector<iovec> iov;     // READV, WRITEV (copied at submission)
        uint64_t deadline = 0;      // TIMEOUT
        bool connect_started = false;
        bool invalid_time = false;
        bool wakeup = false;        // a read of an eventfd
        uint64_t cqe_mark = 0;      // completions posted by the ring at submission (counted TIMEOUT)
        uint64_t ready_at = 0;      // threaded: not before this time
        // filled at completion
        int res = 0;
        std::shared_ptr<int> held;  // hold_files: the open file as of submission
        bool bad_fd = false;        // hold_files: there was none
        std::string file_path;      // hold_files, storage model: its name
        int real_fd() const { return held ? *held : fd; }
        bool is_transfer() const { return opcode == IORING_OP_READ || opcode == IORING_OP_WRITE || opcode == IORING_OP_READV || opcode == IORING_OP_WRITEV || opcode == IORING_OP_SPLICE || opcode == IORING_OP_SEND || opcode == IORING_OP_RECV || opcode == IORING_OP_SENDMSG; }
        bool is_write() const { return opcode == IORING_OP_WRITE || opcode == IORING_OP_WRITEV; }
        size_t bytes() const;       // length asked for
        std::string gather() const; // bytes of a WRITE/WRITEV
    };
    const char* opname(uint8_t op);

    struct Fault
    {
        int error = 0;              // complete with -error, no effect
        size_t limit = SIZE_MAX;    // transfer at most this many bytes
        bool crash = false;         // stop the process here (after transferring at most `limit` bytes; 0: no effect)
        int override_res = 0;       // complete with this result and no effect (when use_override)
        bool use_override = false;
    };

    struct Config
    {
        pbt::Case* c = nullptr;     // lockstep mode: every decision is a choice of this case
        uint64_t seed = 1;          // threaded mode: decisions come from this seed
        bool threaded = false;
        bool reorder = true;        // completions in any order
        bool inline_completions = true;  // submit may complete operations at once
        unsigned max_batch = 16;    // completions delivered by one wait
        unsigned eintr_per_mille = 0;    // waits that return -EINTR
        int init_error = 0;         // io_uring_queue_init fails
        std::function<int(int ring_index)> init_fault;
        std::function<int(int ring_index, unsigned call)> enter_fault;  // the call-th entry of a ring fails with this negative error
        std::function<Fault(Op&)> fault;
        std::function<void(const Op&)> submitted;
        std::function<void(const Op&)> done;
        // lockstep: nothing can complete; return true after making something possible
        std::function<bool()> idle;
        // lockstep: called before each decision; may do anything to the outside world
        std::function<void()> tick;
        // lockstep: operations the simulation keeps pending although they could complete
        std::function<bool(const Op&)> hold;
        bool timers_compete = true;      // lockstep: time may jump to the next timer although other work is possible
        bool hold_files = false;         // operations keep the file their descriptor named at submission, as the kernel's do
        bool fresh_fds = false;          // descriptor numbers are not reused soon
        bool synthetic = false;          // descriptors are not real: everything but timers and wake-ups can complete (give results with overrides)
        // threaded: longest random delay before a completion, in microseconds
        unsigned delay_us = 0;
    };

    void begin(const Config& cfg);   // forgets every ring of the previous case
    void end();
    Config& config();

    // virtual time (lockstep)
    uint64_t now_ns();
    void advance_ns(uint64_t d);
    bool advance_to_next_timer();    // false: no timer pending

    // facts
    size_t rings_alive();
    size_t rings_created();
    size_t pending(bool include_wakeups = true);  // operations not completed (eventfd reads are wake-ups)
    std::vector<const Op*> pending_ops();
    bool bad_exit();                 // queue_exit on a ring that was never created
    int bad_exit_fd();
    bool foreign_submit();           // a submission from a thread that does not own the ring
    bool is_worker_eventfd(int fd);

    // leaves the worker loop running inside `f` when a fault asks for a crash or `crash()` is called
    bool run_until_crash(const std::function<void()>& f);  // true: it crashed
    [[noreturn]] void crash();
    // lockstep: records a failure of the case and leaves run_until_crash (exceptions would be swallowed by the loop)
    [[noreturn]] void abort_case(const std::string& tag, const std::string& msg);
    // runs f on another thread and waits for it
    void on_helper(const std::function<void()>& f);

    extern "C" char sim_uname_release[65];  // what uname() reports

    // descriptors opened by simulated openat and not closed by simulated close
    const std::set<int>& open_fds();
    void close_open_fds();
    void forget_fd(int fd);          // closed by other means

    // ----- storage model: what is on disk if power is lost -----
    struct FileState
    {
        std::string durable;                 // content as of the last flush
        struct Mut { int kind; uint64_t off; std::string data; };  // 0 write, 1 truncate to off, 2 allocate to off
        std::vector<Mut> pending;
        bool created_durable = false;        // the name survives
    };
    void track_storage(const std::string& root);   // starts tracking files under root
    void untrack_storage();
    void storage_adopt(const std::string& path);   // the file's present content is durable
    // rewrites root to a state that power loss could leave; choices from the case. Names are removed in order:
    // if a removal was not durable, neither were later ones.
    void power_loss(pbt::Case& c);
}
