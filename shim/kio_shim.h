// Force-included in every translation unit of the checks.
// liburing 2.5 (installed here) lacks io_uring_prep_ftruncate (added in 2.6).
#pragma once
#if __has_include(<liburing.h>) && defined(__cplusplus)
#include <liburing.h>
#if !defined(IO_URING_VERSION_MINOR) || IO_URING_VERSION_MAJOR < 2 || (IO_URING_VERSION_MAJOR == 2 && IO_URING_VERSION_MINOR < 6)
static inline void io_uring_prep_ftruncate(struct io_uring_sqe* sqe, int fd, loff_t len)
{
    io_uring_prep_rw(55 /* IORING_OP_FTRUNCATE */, sqe, fd, nullptr, 0, static_cast<__u64>(len));
}
#endif
#endif
