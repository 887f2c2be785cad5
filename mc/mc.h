// Interface between the harnesses (instrumented) and the model-checking runtime (libmcrt.so).
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
// Enumerated nondeterminism: the explorer runs the scenario once for every value in [0,n).
int  mc_choose(int n);
// A new thread under the controlled scheduler. Returns its id.
int  mc_spawn(void (*fn)(void*), void* arg);
void mc_join(int id);
// Virtual time. One tick is a millisecond.
void mc_advance(int64_t ns);
int64_t mc_now(void);
// Explicit scheduling point (a place where every other thread may be run).
void mc_point(void);
// Oracle state, kept outside the modelled memory. Every use orders the calling threads in the
// explored histories (so caching never merges histories the oracle would tell apart).
int64_t mc_cell_add(int cell, int64_t d);	// returns the new value
int64_t mc_cell_get(int cell);
void mc_cell_set(int cell, int64_t v);
int  mc_log(int64_t a, int64_t b, int64_t c);	// appends to the history, returns the position
int  mc_log_size(void);
int64_t mc_log_get(int i, int field);
// Verdicts.
void mc_fail(const char* fmt, ...) __attribute__((format(printf,1,2), noreturn));
void mc_note(const char* fmt, ...) __attribute__((format(printf,1,2)));
// Live allocations made in this execution.
int64_t mc_live(void);
// The calling thread's loop is not a polling loop (it ends by itself).
void mc_progress(void);
void mc_spin(int n);	// let this thread go round its polling loops for n more events before it is parked there
// Identity of the running (controlled) thread.
int  mc_self(void);
// true when the calling thread would be the only one able to run
int mc_is_replay(void);
// registers a scenario
void mc_register(const char* prop, const char* name, void (*fn)(int), int arg,
                 int preempt_quick, int preempt_thorough, int flags);
}
// linearizability of the logged history (mc/oracle.cpp); 1 explained, 0 not, -1 too large
extern "C" int mc_lin(const int* init_counts, const int* final_counts, int nobj, const int* caps, int flags);
enum { LOG_CALL = 10, LOG_RET = 11, LOG_QUIET = 12 };
enum { OP_SIGNAL = 1, OP_SIGNAL_ALL, OP_RESET, OP_WAIT, OP_LOCK, OP_UNLOCK, OP_TRY, OP_PLOCK, OP_WRITE, OP_PWRITE, OP_READ, OP_PREAD };
enum { MCF_NOLEAK = 1,	// do not check for leaked memory at the end
       MCF_THOROUGH = 2,	// only in the thorough tier
       MCF_RACE = 4,	// accesses that the C++ memory model does not order are violations
       MCF_LONG = 8 };	// a long execution (capacities, counters, queues beyond small sizes)
