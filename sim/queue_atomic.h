// Force-included (-include): every translation unit sees the hand-off queue
// with scheduling points at its atomic accesses.
#pragma once
#include "sim/fiber_sched.h"
#include <cassert>
#include <cstdint>
#include <new>
#include <type_traits>
#include <utility>
#define atomic sched_atomic
#include "kio/sync/mpsc_queue.h"
#undef atomic
