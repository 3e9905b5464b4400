// Interface between the TBB stand-in (include/simtbb.h) and the simulator runtime.
#ifndef SIMRT_H
#define SIMRT_H
#include <cstddef>
#include <cstdint>

extern "C" {
// ---- used by the TBB stand-in --------------------------------------------
// Begin a parallel region: draws the worker count and policies. Returns 1 when
// the region is nested in a running task.
int sim_region_begin(size_t work);
// May this range be split? 0: keep whole. v in 1..15: split at v/16.
uint32_t sim_split_choice(size_t size, int depth);
// Run n tasks in the region; fn(ctx, i) runs task i. Rethrows the first failure.
void sim_region_run(void (*fn)(void*, size_t), void* ctx, size_t n);
void sim_region_abandon();
// Identity of the simulated thread that is executing.
int sim_worker_id();
int sim_slot_id();
int sim_max_parallelism();
void* sim_gc_push(size_t n);
void sim_gc_pop(void*);
size_t sim_gc_active();
// A seed for permuting what an unstable sort may permute (0: leave as is).
uint32_t sim_sort_seed();
// An allocation made inside TBB itself; may throw std::bad_alloc.
void sim_tbb_alloc_point();
// Locks and happens-before edges.
void sim_mutex_lock(void* m);
int sim_mutex_trylock(void* m);
void sim_mutex_unlock(void* m);
void sim_acquire(void* a);
void sim_release(void* a);
void sim_yield_point();
// Accesses between these two are neither interleaved nor race-checked.
void sim_ignore_begin();
void sim_ignore_end();
int sim_hw_threads();
// Allocations between +1 and -1 are not failed.
void sim_nofail(int d);
}

struct sim_nofail_guard
{
    sim_nofail_guard() { sim_nofail(1); }
    ~sim_nofail_guard() { sim_nofail(-1); }
    sim_nofail_guard(const sim_nofail_guard&) = delete;
    sim_nofail_guard& operator=(const sim_nofail_guard&) = delete;
};

namespace simtbb_detail {
struct Ignore
{
    Ignore() { sim_ignore_begin(); }
    ~Ignore() { sim_ignore_end(); }
    Ignore(const Ignore&) = delete;
    Ignore& operator=(const Ignore&) = delete;
};
} // namespace simtbb_detail
#endif
