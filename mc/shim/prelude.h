// Force-included in every instrumented translation unit.
#pragma once
#include <liburing.h>
#ifndef IORING_OP_FTRUNCATE_SHIM
#define IORING_OP_FTRUNCATE_SHIM 55
// liburing 2.5 (installed here) predates io_uring_prep_ftruncate, which kio uses.
static inline void mc_prep_ftruncate(struct io_uring_sqe* sqe, int fd, long long len)
{
    io_uring_prep_rw(IORING_OP_FTRUNCATE_SHIM, sqe, fd, 0, 0, len);
}
#define io_uring_prep_ftruncate mc_prep_ftruncate
#endif
