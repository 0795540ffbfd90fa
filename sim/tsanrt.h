// Threads under the simulated scheduler (variants VT and VU). The library is compiled with -fsanitize=thread, but
// the instrumentation calls below, not libtsan: each instrumented access is a point at which the scheduler may
// switch threads, and is checked against the happens-before order of everything before it.
#ifndef SIM_TSANRT_H
#define SIM_TSANRT_H
#include "core.h"
#include <functional>
#ifdef SIM_THREADS
struct ThreadRun {
    u64 steps = 0;           // scheduling points passed
    u64 switches = 0;
    u64 accesses = 0;        // accesses checked
    u64 hash = 0;            // of the interleaving: every switch that took place
    std::string race;        // first unsynchronised conflict, "" if none
};
// Runs bodies[i] as simulated thread i+1 under the schedule: flattened pairs (step, thread).
ThreadRun runThreads(const std::vector<std::function<void()>> &bodies, const std::vector<u32> &schedule);
void schedPoint();                       // an explicit scheduling point
void shadowAlloc(void *p, size_t n);     // a block handed out: belongs to the running thread
void shadowFree(void *p, size_t n);      // a block given back: counts as a write to all of it
void shadowTouch(const void *p, size_t n, bool write, void *pc);
#else
inline void schedPoint() {}
inline void shadowAlloc(void *, size_t) {}
inline void shadowFree(void *, size_t) {}
#endif
#endif
