// Stateless model checker runtime: a controlled scheduler of fibers, driven by the callbacks that
// -fsanitize=thread puts in front of every memory access, with depth-first exploration of all
// schedules and environment choices (within a preemption bound), happens-before history caching,
// virtual time, a checked heap, and deadlock/livelock detection.
// Built as a shared library of its own: it shares no code or data with what it checks.
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <cxxabi.h>
#include <exception>
#include <new>
#include <link.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <chrono>
#include "mc.h"

typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef unsigned __int128 u128;
#define EXPORT extern "C" __attribute__((visibility("default")))
#define LIKELY(x) __builtin_expect(!!(x),1)
#define UNLIKELY(x) __builtin_expect(!!(x),0)
#define PC() ((u64)__builtin_return_address(0))

enum { MAXF = 8, MAXCELL = 256, MAXLOG = 4096 };
static const u64 STK = 1ull << 18, ARENA = 1ull << 28;
static const u64 ARENA_BASE = 0x600000000000ull, STK_BASE = 0x610000000000ull, SHADOW_BASE = 0x500000000000ull;
static const u64 NARENA = MAXF + 1;
static const u64 ASZ = NARENA * ARENA, SSZ = MAXF * STK;
static const u64 TICK = 1000000;

static inline u64 mix(u64 a, u64 b)
{
	u64 x = a * 0x9E3779B97F4A7C15ull + b + 0x632BE59BD9B4E019ull;
	x ^= x >> 32; x *= 0xD6E8FEB86659FD93ull; x ^= x >> 29; x *= 0xA0761D6478BD642Full; x ^= x >> 32;
	return x;
}

struct Gran
{
	u64 whash;		// identity of the last write in this execution, 0 = initial
	u32 exec;		// execution the entry belongs to
	u32 wclk; u8 wfib; u8 shared; u8 wmask, wat, rplain; u8 pad[3];	// wmask, wat: bytes of the last write and whether it was atomic; rplain: who read non-atomically
	u32 rclk[MAXF];
	u8 rmask[MAXF];	// bytes read at rclk
};
static_assert(sizeof(Gran) == 64, "one cache line");
struct Rel { u32 exec; u32 vc[MAXF]; };	// clock released into an atomic location
// index space: data segment | stacks | arenas | pseudo locations
static const u64 DMAX = 1ull << 20;		// bytes of .data/.bss at most
static const u64 IDX_S = DMAX / 8, IDX_A = IDX_S + SSZ / 8, IDX_P = IDX_A + ASZ / 8, NPSEUDO = 1024, NIDX = IDX_P + NPSEUDO;
enum { P_CLOCK = 0, P_LOG = 1, P_RAND = 2, P_FIBER = 8, P_CELL = 32 };
static Gran* shadow; static Rel* relshadow; static u8* vis_active; static u8* vis_next; static u8* ast;	// ast: 0 none 1 live 2 freed, per arena granule
static u64 D0, D1;		// exe writable data

struct SpinEv { u64 key; u64 addr; u32 size; u32 idx; u64 val; u64 wprev, wnew; u64 th, n; u32 wclkprev; u8 wmaskprev, watprev; u8 wfibprev; u8 kind; bool atomic; };
enum { RING = 2048 };
struct Wait { u64 addr; u32 size; u64 val; };
enum FStat { F_NONE, F_READY, F_PARKED, F_MUTEX, F_JOIN, F_DONE };
struct Fiber
{
	void* rsp; FStat st; void (*fn)(void*); void* arg;
	u64 th, n; u32 vc[MAXF], vcacq[MAXF], vcrel[MAXF];	// clock; what relaxed loads saw; clock of the last release fence
	u64 alloc_brk;
	// blocking
	u64 blk; int nwait; Wait wait[256]; bool clockwait; u64 clockval;
	u64 parkpc; u64 loophash; bool kicked; bool kickmode; u64 kick_th, kick_n; u64 suppress_until; u64 period; u64 nextfair;
	// spin detection
	u64 evn; u64 evbase; SpinEv ring[RING]; u64 pref[RING]; u64 last[512]; u64 lastkey[512];
	u8* tls; u8 ehg[16];
	u64 forced;
};
static Fiber* fib; static int nfib, cur;
static bool running;	// inside an execution
static u32 execid = 0;
static u64 gstep, memhash;
static int64_t vclock; static int nadv; static int maxadv = 200; static int rotations, kicks; static const int MAXROT = 16;
// the last resort before a deadlock is reported: everybody runs in turn, see enter_fair
static bool fairmode; static u64 fair_end, fair_turns; static u32 fair_seed; static int fair_q; static char fair_msg[512];
static int64_t cells[MAXCELL]; static int64_t (*logv)[3]; static int nlog;
static int64_t live_allocs, base_live;
static u64 arena_brk[NARENA]; static u64 base_brk0; static u8* base_mem0; static u8* base_ast0;
static u8* data_snap; static size_t tlssz; static u8* tlsaddr; static u8* tlsinit; static size_t tlsinitsz;
static void* main_rsp;
static u64 scen_steplimit = 4000000;

// ---------------------------------------------------------------- exploration state
struct Node { u8 kind, nopt, cur, budget; u8 opt[MAXF]; u64 hash; };
static Node* nodes; static size_t nnodes, capnodes, depth;	// depth: nodes consumed in this execution
static int preempt_bound, preempt_used;
struct Sw { u64 step; int to; };	// to + 16: the switch follows from the thread blocking, not from a choice to preempt it
static Sw* sw; static size_t nsw, capsw; static int* chs; static size_t nch, capch;	// schedule of this execution
static bool replay; static Sw* rsw; static size_t nrsw, irsw; static int* rch; static size_t nrch, irch;
static bool verbose;
static u64* vt; static u8* vtb; static size_t vtcap, vtn;
static u64 stat_exec, stat_trans, stat_pruned, stat_cut, stat_steps, stat_maxsteps, stat_terminal, stat_fair; static int stat_threads = 1; static bool vdirty; static u64 stat_vis;
enum End { E_OK, E_VIOL, E_PRUNE, E_INTERNAL };
static End endk; static char vmsg[4096]; static char vkind[64]; static u64 vpcs[24]; static int nvpcs;

struct Scen { const char* prop; const char* name; void (*fn)(int); int arg, pq, pt, flags; };
static Scen scens[4096]; static int nscens; static Scen* scen;

extern "C" void mc_switch_asm(void** save, void* to);
asm(R"(
.text
.globl mc_switch_asm
.hidden mc_switch_asm
.type mc_switch_asm,@function
mc_switch_asm:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.globl mc_tramp_asm
.hidden mc_tramp_asm
mc_tramp_asm:
	xorl %ebp, %ebp
	pushq $0
	call mc_fiber_main
	ud2
)");
extern "C" void mc_tramp_asm();

static void tls_swap(int from, int to)
{
	u8* eg = (u8*)abi::__cxa_get_globals();
	if (from >= 0) { memcpy(fib[from].tls, tlsaddr, tlssz); memcpy(fib[from].ehg, eg, 16); }
	if (to >= 0) { memcpy(tlsaddr, fib[to].tls, tlssz); memcpy(eg, fib[to].ehg, 16); }
}
static void go_main()	// leave the running fiber for good
{
	void* dummy; running = false;
	mc_switch_asm(&dummy, main_rsp);
	__builtin_unreachable();
}
static void backtrace_fp(u64 pc)
{
	nvpcs = 0; if (pc) vpcs[nvpcs++] = pc;
	u64* fp = (u64*)__builtin_frame_address(0);
	u64 lo = STK_BASE, hi = STK_BASE + SSZ;
	while ((u64)fp >= lo && (u64)fp + 16 <= hi && nvpcs < 24)
	{
		u64 r = fp[1]; if (!r) break;
		if (r >= 0x400000 && r < 0x10000000) vpcs[nvpcs++] = r;
		u64* nf = (u64*)fp[0]; if (nf <= fp) break; fp = nf;
	}
}
static void violation(const char* kind, const char* fmt, ...)
{
	va_list ap; va_start(ap, fmt); vsnprintf(vmsg, sizeof vmsg, fmt, ap); va_end(ap);
	snprintf(vkind, sizeof vkind, "%s", kind);
	backtrace_fp(0);
	endk = E_VIOL; go_main();
}
static void internal(const char* msg) { snprintf(vmsg, sizeof vmsg, "%s", msg); endk = E_INTERNAL; go_main(); }

// ---------------------------------------------------------------- memory -> index
static inline int64_t idx_of(u64 a)
{
	if (LIKELY(a - ARENA_BASE < ASZ)) return IDX_A + ((a - ARENA_BASE) >> 3);
	if (a - STK_BASE < SSZ) return IDX_S + ((a - STK_BASE) >> 3);
	if (a - D0 < D1 - D0) return (a - D0) >> 3;
	return -1;
}
static inline Gran* gran(u64 idx)
{
	Gran* g = &shadow[idx];
	if (UNLIKELY(g->exec != execid))
	{
		memset(g, 0, sizeof *g); g->exec = execid; g->wfib = 255;
	}
	return g;
}
static inline Rel* rel(u64 idx)
{
	Rel* r = &relshadow[idx];
	if (r->exec != execid) { memset(r, 0, sizeof *r); r->exec = execid; }
	return r;
}
static inline u64 evkey(u64 pc, u64 a, u64 v, u64 kind) { u64 h = pc * 0x9E3779B97F4A7C15ull ^ (a + kind) * 0xD6E8FEB86659FD93ull ^ (v + 1) * 0xA0761D6478BD642Full; return h ^ (h >> 29); }
static inline void see_race(u64 idx) { if (!vis_next[idx]) { vis_next[idx] = 1; vdirty = true; stat_vis++; } }
static inline u64 loadval(u64 a, u32 size)
{
	switch (size) {
	case 1: return *(volatile u8*)a; case 2: return *(volatile uint16_t*)a; case 4: return *(volatile u32*)a; case 8: return *(volatile u64*)a;
	case 16: return ((volatile u64*)a)[0] * 31 + ((volatile u64*)a)[1];
	default: { u64 h = 0; for (u32 i = 0; i < size && i < 64; ++i) h = h * 131 + ((volatile u8*)a)[i]; return h; }
	}
}
static inline u64 mh(u64 idx, u64 w) { return w ? mix(idx * 0x1000193, w) : 0; }

// Data races (scenarios with MCF_RACE): two accesses to the same byte of which one writes and one is not
// atomic, and that the C++ memory model does not order, whatever order this schedule gave them.
static bool racemode; static u32* lastwpc;
static __attribute__((noinline)) void data_race(u64 idx, const char* what, u64 other, u64 pc);
static inline u8 bytemask(u64 a, u32 size, u64 k, u64 x)	// the bytes of granule k that an access at a, whose first granule is x, covers
{
	u32 lo = k == x ? (u32)(a & 7) : 0; u64 end = (a & 7) + size - 8 * (k - x); u32 hi = end < 8 ? (u32)end : 8;
	return (u8)(((1u << hi) - 1) & ~((1u << lo) - 1));
}
static inline void do_read(u64 idx, Gran* g, u8 mask, bool at, u64 pc)
{
	Fiber& f = fib[cur];
	if (g->wfib != 255)
	{
		if (g->wfib != cur)
		{
			if (g->wclk > f.vc[g->wfib]) { see_race(idx); if (UNLIKELY(racemode) && (g->wmask & mask) && !(at && g->wat)) data_race(idx, "a read and a write before it", lastwpc[idx], pc); }
			if (LIKELY(!f.kickmode)) f.th = mix(f.th, mix(idx, g->whash));
		}
	}
	if (g->rclk[cur] != f.vc[cur]) { g->rclk[cur] = f.vc[cur]; g->rmask[cur] = 0; g->rplain &= ~(1 << cur); }
	if (!at) { if (!(g->rplain >> cur & 1)) { g->rmask[cur] = 0; g->rplain |= 1 << cur; } g->rmask[cur] |= mask; } else if (!(g->rplain >> cur & 1)) g->rmask[cur] |= mask;
}
// The identity of a write is (history of the writer, its step count). Who wrote a location last is
// part of the state's hash only for locations that more than one thread wrote: otherwise the
// writer's own history tells.
static inline void do_write(u64 idx, Gran* g, u8 mask, bool at, u64 pc)
{
	Fiber& f = fib[cur];
	if (g->wfib != 255 && g->wfib != cur) { if (g->wclk > f.vc[g->wfib]) { see_race(idx); if (UNLIKELY(racemode) && (g->wmask & mask) && !(at && g->wat)) data_race(idx, "a write and a write before it", lastwpc[idx], pc); } g->shared = 1; }
	for (int i = 0; i < nfib; ++i) if (i != cur && g->rclk[i] > f.vc[i]) { see_race(idx); if (UNLIKELY(racemode) && (g->rmask[i] & mask) && !(at && !(g->rplain >> i & 1))) data_race(idx, "a write and a read before it", 0, pc); }
	if (UNLIKELY(racemode)) lastwpc[idx] = (u32)pc;
	if (g->wfib == cur && g->wclk == f.vc[cur] && g->wat == at) g->wmask |= mask; else { g->wmask = mask; g->wat = at; }
	if (LIKELY(!f.kickmode))
	{
		u64 w = (f.th + f.n * 0x9E3779B97F4A7C15ull) | 1;
		if (UNLIKELY(g->shared)) { if (g->shared & 2) memhash -= mh(idx, g->whash); memhash += mh(idx, w); g->shared = 3; }
		g->whash = w;
	}
	g->wfib = cur; g->wclk = f.vc[cur];
}
static void point(bool explicit_point);

// ---------------------------------------------------------------- spin detection
static void spin_reset(Fiber& f) { f.evbase = f.evn; }
static bool try_park(Fiber& f, u64 period, u64 pc, bool rotate = false);
static inline SpinEv& spin_ev(Fiber& f, u64 key, u64 addr, u32 size, u64 val, u8 kind)
{
	u64 i = f.evn++;
	SpinEv& e = f.ring[i % RING];
	e.key = key; e.addr = addr; e.size = size; e.val = val; e.kind = kind; e.atomic = kind >= 8; e.idx = 0; e.wnew = 0; e.th = f.th; e.n = f.n;
	f.pref[i % RING] = (i ? f.pref[(i - 1) % RING] : 0) * 0x9E3779B97F4A7C15ull + key;
	return e;
}
static u64 powtab[RING + 1]; static void rotate_check(Fiber& f, u64 pc);
static inline u64 blockhash(Fiber& f, u64 lo, u64 hi)	// events (lo, hi]
{
	return f.pref[hi % RING] - f.pref[lo % RING] * powtab[hi - lo];
}
static inline void spin_check(Fiber& f, u64 pc)	// called after an atomic/clock/yield event was appended
{
	u64 i = f.evn - 1; u64 key = f.ring[i % RING].key; u32 b = (key >> 20 & 127) * 4, v = b;
	// four places for every hash value: the events of one loop must not drive each other out
	for (u32 k = b; k < b + 4; ++k) { if (f.lastkey[k] == key) { v = k; break; } if (f.last[k] < f.last[v]) v = k; }
	b = v; u64 j = f.last[b]; bool same = f.lastkey[b] == key;
	f.last[b] = i; f.lastkey[b] = key;
	if (!same || j >= i) return;
	u64 p = i - j;
	if (2 * p + 1 >= RING || i < 2 * p + f.evbase + 1) return;
	if (f.n < f.suppress_until || UNLIKELY(fairmode)) return;
	if (blockhash(f, i - p, i) != blockhash(f, i - 2 * p, i - p)) return;
	// not right after a successful read-modify-write, which may have taken a lock, when the loop has
	// a quieter place
	if (f.ring[i % RING].kind == 3) for (u64 k = i - p + 1; k < i; ++k) { u8 kd = f.ring[k % RING].kind; if (f.ring[k % RING].atomic && kd != 3) return; }
	try_park(f, p, pc);
}

// ---------------------------------------------------------------- switching
static bool enabled(int i)
{
	Fiber& f = fib[i];
	switch (f.st)
	{
	case F_READY: return true;
	case F_PARKED:
		if (f.clockwait && (u64)vclock != f.clockval) return true;
		for (int k = 0; k < f.nwait; ++k) if (loadval(f.wait[k].addr, f.wait[k].size) != f.wait[k].val) return true;
		return false;
	case F_MUTEX: return *(int*)(f.blk + 8) == 0;	// __data.__owner, see pthread_mutex_lock below
	case F_JOIN: return fib[f.blk].st == F_DONE;
	default: return false;
	}
}
static void record_switch(int to, bool blk)
{
	if (nsw == capsw) { capsw = capsw ? capsw * 2 : 1024; sw = (Sw*)realloc(sw, capsw * sizeof(Sw)); }
	sw[nsw++] = Sw{ gstep, blk ? to + 16 : to };
}
static void kick_end(Fiber& f)	// a kicked fiber really left its loop
{
	f.kickmode = false; f.suppress_until = 0; f.th = mix(f.th, 0x41C4);
	for (int k = 0; k < nfib; ++k) fib[k].kicked = false;
}
static void switch_to(int to, bool blk, bool kick = false)
{
	if (verbose) fprintf(stderr, "  [%llu] thread %d -> thread %d\n", (unsigned long long)gstep, cur, to);
	int from = cur; stat_trans++;
	if (!fairmode) record_switch(to, blk);
	if (fib[to].st == F_PARKED) { fib[to].st = F_READY; fib[to].nwait = 0; if (!kick) for (int i = 0; i < nfib; ++i) fib[i].kicked = false; }
	if (fib[to].st == F_MUTEX || fib[to].st == F_JOIN) fib[to].st = F_READY;
	if (from == to) return;
	tls_swap(from, to);
	cur = to;
	mc_switch_asm(&fib[from].rsp, fib[to].rsp);
}
static u64 state_hash()
{
	u64 h = memhash;
	for (int i = 0; i < nfib; ++i) h += mix(mix(fib[i].th, fib[i].n), (i + 1) * 0x51ED27ull + fib[i].st * 977);
	h = mix(h, (u64)vclock);
	return mix(h, cur * 2 + (fib[cur].st == F_READY));
}
static bool visited(u64 h, int remaining)	// true: already explored with at least this budget
{
	if (!h) h = 1;
	if ((vtn + 1) * 10 > vtcap * 7)
	{
		size_t nc = vtcap ? vtcap * 2 : 1 << 16; u64* nt = (u64*)calloc(nc, 8); u8* nb = (u8*)calloc(nc, 1);
		for (size_t i = 0; i < vtcap; ++i) if (vt[i]) { size_t k = (vt[i] * 0x9E3779B97F4A7C15ull >> 20) & (nc - 1); while (nt[k]) k = (k + 1) & (nc - 1); nt[k] = vt[i]; nb[k] = vtb[i]; }
		free(vt); free(vtb); vt = nt; vtb = nb; vtcap = nc;
	}
	size_t k = (h * 0x9E3779B97F4A7C15ull >> 20) & (vtcap - 1);
	while (vt[k] && vt[k] != h) k = (k + 1) & (vtcap - 1);
	if (vt[k]) { if (vtb[k] > remaining) return true; vtb[k] = remaining + 1; return false; }
	vt[k] = h; vtb[k] = remaining + 1; ++vtn; return false;
}
static Node* new_node()
{
	if (nnodes == capnodes) { capnodes = capnodes ? capnodes * 2 : 4096; nodes = (Node*)realloc(nodes, capnodes * sizeof(Node)); }
	Node* nd = &nodes[nnodes++]; memset(nd, 0, sizeof *nd); return nd;
}
static void describe_stall(char* out, size_t n)
{
	size_t k = 0; out[0] = 0;
	for (int i = 0; i < nfib && k < n; ++i)
	{
		const char* s = fib[i].st == F_PARKED ? "waits in a loop" : fib[i].st == F_MUTEX ? "blocked on a mutex" : fib[i].st == F_JOIN ? "joining" : fib[i].st == F_DONE ? "done" : "?";
		k += snprintf(out + k, n - k, "%sthread %d %s", i ? "; " : "", i, s);
	}
}
// Nobody can go on as far as the exploration can tell. Polling threads may however have been run in
// an unfair order (each stopped while holding what the others poll for), so before it is called a
// deadlock everybody runs in turn, with changing time slices, for a long time.
static void fair_fail() { snprintf(vmsg, sizeof vmsg, "no thread can make progress: %s", fair_msg); snprintf(vkind, sizeof vkind, "deadlock"); endk = E_VIOL; go_main(); }
static void fair_next()
{
	fair_seed = fair_seed * 1664525 + 1013904223; fair_q = 5 + (fair_seed >> 8) % 300;
	if (++fair_turns % 500 == 0) { if (nadv < maxadv) { nadv++; vclock += TICK; } }
	for (int k = 1; k <= nfib; ++k) { int i = (cur + k) % nfib; if (enabled(i)) { switch_to(i, false); return; } }
	fair_fail();
}
static void enter_fair()
{
	describe_stall(fair_msg, sizeof fair_msg);
	if (fib[cur].st != F_DONE) backtrace_fp(0); else nvpcs = 0;
	fairmode = true; fair_end = gstep + (scen_steplimit > 4000000 ? scen_steplimit / 10 : 1000000); fair_turns = 0; fair_seed = 12345; stat_fair++;
	for (int i = 0; i < nfib; ++i) { fib[i].kicked = fib[i].kickmode = false; if (fib[i].st == F_PARKED) { fib[i].st = F_READY; fib[i].nwait = 0; } }
	fair_next();
}
// the current fiber cannot continue (parked, blocked or finished): pick another
static void block_current()
{
	if (fairmode) { fair_next(); return; }
	if (fib[cur].kickmode) kick_end(fib[cur]);
	for (;;)
	{
		int en[MAXF], m = 0;
		for (int i = 0; i < nfib; ++i) if (enabled(i)) en[m++] = i;
		if (m == 0)
		{
			bool clk = false;
			for (int i = 0; i < nfib; ++i) if (fib[i].st == F_PARKED && fib[i].clockwait) clk = true;
			if (clk && nadv < maxadv) { nadv++; vclock += TICK; continue; }
			int k = -1;
			for (int j = 1; j <= nfib && k < 0; ++j) { int i = (cur + j) % nfib; if (fib[i].st == F_PARKED && !fib[i].kicked) k = i; }
			if (k < 0 || ++kicks > 60) { enter_fair(); return; }
			// before calling it a deadlock, let every polling thread go round its loop many more
			// times: a loop that gives up after a number of rounds is not a deadlock
			fib[k].kicked = fib[k].kickmode = true; fib[k].kick_th = fib[k].th; fib[k].kick_n = fib[k].n;
			fib[k].suppress_until = fib[k].n + 20000;
			spin_reset(fib[k]);
			if (replay && irsw < nrsw && rsw[irsw].step == gstep && rsw[irsw].to >= 16) irsw++;
			switch_to(k, true, true); return;
		}
		int to;
		if (replay)
		{
			if (irsw < nrsw && rsw[irsw].step == gstep && rsw[irsw].to >= 16) to = rsw[irsw++].to - 16;
			else to = en[0];
			if (!enabled(to)) internal("replay diverged (target not enabled)");
		}
		else if (m == 1) to = en[0];
		else
		{
			u64 h = state_hash();
			if (depth < nnodes)
			{
				Node& nd = nodes[depth];
				if (nd.kind != 0 || nd.hash != h || nd.nopt != m) internal("nondeterminism at a blocking point");
				to = nd.opt[nd.cur]; depth++;
			}
			else
			{
				if (visited(h, preempt_bound - preempt_used)) { stat_pruned++; endk = E_PRUNE; go_main(); }
				Node* nd = new_node(); nd->kind = 0; nd->nopt = m; nd->hash = h;
				for (int i = 0; i < m; ++i) nd->opt[i] = en[i];
				depth++; to = en[0];
			}
		}
		switch_to(to, true);
		return;
	}
}
static void point(bool yielding)
{
	if (UNLIKELY(fairmode)) { if (gstep > fair_end) fair_fail(); if (yielding || fair_q-- <= 0) fair_next(); return; }
	if (UNLIKELY(fib[cur].kickmode)) { if (fib[cur].n < fib[cur].suppress_until) return; }
	if (replay)
	{
		if (irsw < nrsw && rsw[irsw].step == gstep && rsw[irsw].to < 16) { int to = rsw[irsw++].to; if (!enabled(to)) internal("replay diverged"); switch_to(to, false); }
		return;
	}
	int en[MAXF], m = 0; en[m++] = cur;
	for (int i = 0; i < nfib; ++i) if (i != cur && enabled(i)) en[m++] = i;
	if (m == 1) return;
	u64 h = state_hash();
	if (depth < nnodes)
	{
		Node& nd = nodes[depth];
		if (nd.kind != 1 || nd.hash != h || nd.nopt != (preempt_used < preempt_bound ? m : 1)) internal("nondeterminism at a scheduling point");
		int to = nd.opt[nd.cur]; depth++;
		if (to != cur) { preempt_used++; switch_to(to, false); }
		return;
	}
	int remaining = preempt_bound - preempt_used;
	if (visited(h, remaining)) { stat_pruned++; endk = E_PRUNE; go_main(); }
	if (remaining <= 0) { stat_cut++; Node* nd = new_node(); nd->kind = 1; nd->nopt = 1; nd->hash = h; nd->opt[0] = cur; depth++; return; }
	Node* nd = new_node(); nd->kind = 1; nd->nopt = m; nd->hash = h;
	for (int i = 0; i < m; ++i) nd->opt[i] = en[i];
	depth++;
}
static void fair_switch()
{
	fib[cur].nextfair = fib[cur].n + 6000;
	if (fairmode) return;
	if (replay) { point(true); return; }
	for (int k = 1; k < nfib; ++k) { int i = (cur + k) % nfib; if (enabled(i)) { switch_to(i, false); return; } }
}
static bool try_park(Fiber& f, u64 period, u64 pc, bool rotate)
{
	u64 i = f.evn - 1;
	// wait set: locations whose first access in the period is a read
	int nw = 0; bool clk = false; bool ok = true; u64 written[256]; int nwr = 0; u64 lh = 0;
	for (u64 k = i - period + 1; k <= i && ok; ++k)
	{
		SpinEv& e = f.ring[k % RING]; lh += mix(e.addr, e.kind);
		if (e.kind == 9) { clk = true; continue; }
		if (e.kind == 8) continue;
		if (e.kind & 1) // reads
		{
			bool seen = false;
			for (int q = 0; q < nw; ++q) if (f.wait[q].addr == e.addr && f.wait[q].size == e.size) seen = true;
			for (int q = 0; q < nwr && !seen; ++q) if (written[q] == e.addr) seen = true;
			if (!seen) { if (nw == 256) ok = false; else f.wait[nw++] = Wait{ e.addr, e.size, 0 }; }
		}
		if ((e.kind & 2) && !(e.kind & 1)) { if (nwr < 256) written[nwr++] = e.addr; else ok = false; }
	}
	if (!ok) return false;
	// undo the identity effects of the last two periods
	for (u64 k = i; k > i - 2 * period; --k)
	{
		SpinEv& e = f.ring[k % RING];
		if (e.wnew) { Gran* g = gran(e.idx); if (g->whash == e.wnew) { if (g->shared & 2) memhash -= mh(e.idx, g->whash); g->whash = e.wprev; g->wfib = e.wfibprev; g->wclk = e.wclkprev; g->wmask = e.wmaskprev; g->wat = e.watprev; if (g->shared & 2) { if (e.wprev) memhash += mh(e.idx, e.wprev); else g->shared = 1; } } }
		f.th = e.th; f.n = e.n;
	}
	for (int q = 0; q < nw; ++q) f.wait[q].val = loadval(f.wait[q].addr, f.wait[q].size);
	f.nwait = nw; f.clockwait = clk; f.clockval = vclock; f.parkpc = pc; f.st = F_PARKED;
	f.period = period;
	if (rotate) { f.th = mix(f.kick_th, f.ring[i % RING].key); f.n = f.kick_n; f.kickmode = false; rotations++; }
	else if (f.kickmode)
	{
		if (lh == f.loophash) { f.th = f.kick_th; f.n = f.kick_n; f.kickmode = false; }
		else kick_end(f);
	}
	f.loophash = lh; f.suppress_until = 0;
	spin_reset(f);
	block_current();
	return true;
}

// A polling thread may have been parked at a place of its loop where it holds a lock others wait
// for. While it goes round its loop again, stop it where somebody else can run.
static void rotate_check(Fiber& f, u64 pc)
{
	u64 i = f.evn - 1, p = f.period;
	if (rotations >= MAXROT || !p || i < f.evbase + 2 * p + 1 || 2 * p + 1 >= RING) return;
	bool any = false; for (int k = 0; k < nfib && !any; ++k) any = k != cur && enabled(k);
	if (!any) return;
	if (blockhash(f, i - p, i) != blockhash(f, i - 2 * p, i - p)) return;
	try_park(f, p, pc, true);
}

// ---------------------------------------------------------------- accesses
static void data_race(u64 idx, const char* what, u64 other, u64 pc)
{
	static const char* col = getenv("MC_RACES");
	if (col) { fprintf(stderr, "RACE %llx %llx %s\n", (unsigned long long)pc, (unsigned long long)other, what); return; }
	backtrace_fp(pc); if (other && nvpcs < 24) vpcs[nvpcs++] = other;
	violation("data-race", "%s are not ordered by the memory model", what);
}
static inline void bad_access(u64 a, u64 size, int st, bool wr, u64 pc)
{
	backtrace_fp(pc);
	violation(st == 2 ? "use-after-free" : "heap-out-of-bounds", "%s of %llu bytes at %s", wr ? "write" : "read", (unsigned long long)size, st == 2 ? "freed memory" : "memory that is not allocated");
}
static inline void check_mem(u64 a, u64 size, bool wr, u64 pc)
{
	if (a - ARENA_BASE < ASZ)
	{
		u64 g = (a - ARENA_BASE) >> 3, e = (a + size - 1 - ARENA_BASE) >> 3;
		for (; g <= e; ++g) if (UNLIKELY(ast[g] != 1)) bad_access(a, size, ast[g], wr, pc);
	}
}
static inline void tick_event(u64 pc)
{
	gstep++; fib[cur].n++;
	if (UNLIKELY(gstep > scen_steplimit && !fairmode)) enter_fair();
}
// plain access
static inline void plain(u64 a, u32 size, bool wr, u64 pc)
{
	if (UNLIKELY(!running)) return;
	int64_t x = idx_of(a); if (x < 0) return;
	tick_event(pc);
	u64 x2 = idx_of(a + size - 1); if ((int64_t)x2 < x) x2 = x;
	if (UNLIKELY(replay || fairmode || vis_active[x] || (x2 != (u64)x && vis_active[x2]))) point(false);
	check_mem(a, size, wr, pc);
	Fiber& f = fib[cur];
	if (UNLIKELY(f.n >= f.nextfair)) fair_switch();
	if (!(a - (STK_BASE + cur * STK) < STK))
	{
		u64 v = wr ? 0 : loadval(a, size);
		SpinEv& e = spin_ev(f, evkey(pc, a, v, wr ? 2 : 1), a, size, v, wr ? 2 : 1);
		if (wr) { Gran* g = gran(x); e.idx = x; e.wprev = g->whash; e.wfibprev = g->wfib; e.wclkprev = g->wclk; e.wmaskprev = g->wmask; e.watprev = g->wat; }
		for (u64 k = x; k <= x2; ++k) { Gran* g = gran(k); u8 m = bytemask(a, size, k, x); if (wr) do_write(k, g, m, false, pc); else do_read(k, g, m, false, pc); }
		if (wr) e.wnew = gran(x)->whash;
	}
	else for (u64 k = x; k <= x2; ++k) { Gran* g = gran(k); u8 m = bytemask(a, size, k, x); if (wr) do_write(k, g, m, false, pc); else do_read(k, g, m, false, pc); }
}
static void range(u64 a, u64 size, bool wr, u64 pc)
{
	if (UNLIKELY(!running) || !size) return;
	if (idx_of(a) < 0) return;
	while (size > 0) { u32 s = 8 - (a & 7); if (s > size) s = size; plain(a, s, wr, pc); a += s; size -= s; }
}
enum { MO_RELAXED, MO_CONSUME, MO_ACQUIRE, MO_RELEASE, MO_ACQ_REL, MO_SEQ_CST };
static inline bool atomic_begin(u64 a, u32 size, u64 pc)	// scheduling point before an atomic access
{
	if (UNLIKELY(!running)) return false;
	int64_t x = idx_of(a); if (x < 0) return false;
	tick_event(pc);
	if (replay || fairmode || vis_active[x]) point(false);
	check_mem(a, size, false, pc);
	if (UNLIKELY(fib[cur].n >= fib[cur].nextfair)) fair_switch();
	return true;
}
// kind: 1 load, 2 store, 3 rmw; val: value read (or stored)
static inline void atomic_end(u64 a, u32 size, int kind, int mo, u64 val, u64 pc)
{
	u64 x = idx_of(a); Fiber& f = fib[cur]; Gran* g = gran(x);
	bool own = a - (STK_BASE + cur * STK) < STK;
	SpinEv* e = own ? nullptr : &spin_ev(f, evkey(pc, a, val, kind), a, size, val, kind);
	if (e) { e->atomic = true; e->idx = x; e->wprev = g->whash; e->wfibprev = g->wfib; e->wclkprev = g->wclk; e->wmaskprev = g->wmask; e->watprev = g->wat; }
	u8 m = bytemask(a, size, x, x);
	if (kind & 1) do_read(x, g, m, true, pc);
	if (kind & 2) do_write(x, g, m, true, pc);
	if (e && (kind & 2)) e->wnew = g->whash;
	if (kind & 1) { Rel* r = rel(x); u32* to = mo != MO_RELAXED && mo != MO_RELEASE ? f.vc : f.vcacq; for (int i = 0; i < nfib; ++i) if (r->vc[i] > to[i]) to[i] = r->vc[i]; }
	if (kind & 2)
	{
		bool rls = mo == MO_RELEASE || mo == MO_ACQ_REL || mo == MO_SEQ_CST;
		Rel* r = rel(x);
		if (kind == 2) { memcpy(r->vc, rls ? f.vc : f.vcrel, sizeof r->vc); }
		else { u32* from = rls ? f.vc : f.vcrel; for (int i = 0; i < nfib; ++i) if (from[i] > r->vc[i]) r->vc[i] = from[i]; }
		if (rls) f.vc[cur]++;
	}
	if (e) { if (UNLIKELY(f.kickmode)) rotate_check(f, pc); spin_check(f, pc); }
}
static void pseudo_rw(u64 p, bool wr)
{
	u64 x = IDX_P + p; Gran* g = gran(x); Fiber& f = fib[cur];
	tick_event(0);
	if (g->wfib != 255 && g->wfib != cur) f.th = mix(f.th, mix(x, g->whash));
	if (wr)
	{
		u64 w = (f.th + f.n * 0x9E3779B97F4A7C15ull) | 1;
		if (g->wfib != 255 && g->wfib != cur) g->shared |= 1;
		if (g->shared) { if (g->shared & 2) memhash -= mh(x, g->whash); memhash += mh(x, w); g->shared |= 2; }
		g->whash = w; g->wfib = cur;
	}
}

#define RW(N, T) \
EXPORT void __tsan_read##N(void* a) { plain((u64)a, N, false, PC()); } \
EXPORT void __tsan_write##N(void* a) { plain((u64)a, N, true, PC()); } \
EXPORT void __tsan_unaligned_read##N(void* a) { plain((u64)a, N, false, PC()); } \
EXPORT void __tsan_unaligned_write##N(void* a) { plain((u64)a, N, true, PC()); } \
EXPORT void __tsan_read_write##N(void* a) { plain((u64)a, N, false, PC()); plain((u64)a, N, true, PC()); } \
EXPORT void __tsan_unaligned_read_write##N(void* a) { plain((u64)a, N, false, PC()); plain((u64)a, N, true, PC()); } \
EXPORT void __tsan_volatile_read##N(void* a) { plain((u64)a, N, false, PC()); } \
EXPORT void __tsan_volatile_write##N(void* a) { plain((u64)a, N, true, PC()); }
RW(1, u8) RW(2, uint16_t) RW(4, u32) RW(8, u64) RW(16, u128)
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void*) {}
EXPORT void __tsan_func_exit() {}
EXPORT void __tsan_vptr_read(void** a) { plain((u64)a, 8, false, PC()); }
EXPORT void __tsan_vptr_update(void** a, void*) { plain((u64)a, 8, true, PC()); }
EXPORT void __tsan_read_range(void* a, u64 n) { range((u64)a, n, false, PC()); }
EXPORT void __tsan_write_range(void* a, u64 n) { range((u64)a, n, true, PC()); }
EXPORT void* __tsan_memcpy(void* d, const void* s, u64 n) { range((u64)s, n, false, PC()); range((u64)d, n, true, PC()); return memcpy(d, s, n); }
EXPORT void* __tsan_memmove(void* d, const void* s, u64 n) { range((u64)s, n, false, PC()); range((u64)d, n, true, PC()); return memmove(d, s, n); }
EXPORT void* __tsan_memset(void* d, int c, u64 n) { range((u64)d, n, true, PC()); return memset(d, c, n); }
EXPORT void __tsan_ignore_thread_begin() {}
EXPORT void __tsan_ignore_thread_end() {}

#define ATOM(B, T) \
EXPORT T __tsan_atomic##B##_load(const volatile T* a, int mo) { bool m = atomic_begin((u64)a, sizeof(T), PC()); T v = *a; if (m) atomic_end((u64)a, sizeof(T), 1, mo, (u64)v, PC()); return v; } \
EXPORT void __tsan_atomic##B##_store(volatile T* a, T v, int mo) { bool m = atomic_begin((u64)a, sizeof(T), PC()); *a = v; if (m) atomic_end((u64)a, sizeof(T), 2, mo, (u64)v, PC()); } \
EXPORT T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) { bool m = atomic_begin((u64)a, sizeof(T), PC()); T o = *a; *a = v; if (m) atomic_end((u64)a, sizeof(T), 3, mo, (u64)o, PC()); return o; } \
EXPORT T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int mo) { bool m = atomic_begin((u64)a, sizeof(T), PC()); T o = *a; *a = o + v; if (m) atomic_end((u64)a, sizeof(T), 3, mo, (u64)o, PC()); return o; } \
EXPORT T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int mo) { bool m = atomic_begin((u64)a, sizeof(T), PC()); T o = *a; *a = o - v; if (m) atomic_end((u64)a, sizeof(T), 3, mo, (u64)o, PC()); return o; } \
EXPORT T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int mo) { bool m = atomic_begin((u64)a, sizeof(T), PC()); T o = *a; *a = o & v; if (m) atomic_end((u64)a, sizeof(T), 3, mo, (u64)o, PC()); return o; } \
EXPORT T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int mo) { bool m = atomic_begin((u64)a, sizeof(T), PC()); T o = *a; *a = o | v; if (m) atomic_end((u64)a, sizeof(T), 3, mo, (u64)o, PC()); return o; } \
EXPORT T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int mo) { bool m = atomic_begin((u64)a, sizeof(T), PC()); T o = *a; *a = o ^ v; if (m) atomic_end((u64)a, sizeof(T), 3, mo, (u64)o, PC()); return o; } \
EXPORT T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int mo) { bool m = atomic_begin((u64)a, sizeof(T), PC()); T o = *a; *a = ~(o & v); if (m) atomic_end((u64)a, sizeof(T), 3, mo, (u64)o, PC()); return o; } \
EXPORT T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { bool m = atomic_begin((u64)a, sizeof(T), PC()); T o = *a; bool s = o == c; if (s) *a = v; if (m) atomic_end((u64)a, sizeof(T), s ? 3 : 1, s ? mo : fmo, (u64)o, PC()); return o; } \
EXPORT int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { bool m = atomic_begin((u64)a, sizeof(T), PC()); T o = *a; bool s = o == *c; if (s) *a = v; else *c = o; if (m) atomic_end((u64)a, sizeof(T), s ? 3 : 1, s ? mo : fmo, (u64)o, PC()); return s; } \
EXPORT int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { bool m = atomic_begin((u64)a, sizeof(T), PC()); T o = *a; bool s = o == *c; if (s) *a = v; else *c = o; if (m) atomic_end((u64)a, sizeof(T), s ? 3 : 1, s ? mo : fmo, (u64)o, PC()); return s; }
ATOM(8, u8) ATOM(16, uint16_t) ATOM(32, u32) ATOM(64, u64) ATOM(128, u128)
static void yield_event(u64 pc);
// function-local statics: byte 0 of the guard says initialised, byte 1 says somebody is at it
EXPORT int __cxa_guard_acquire(__cxxabiv1::__guard* g)
{
	u8* b = (u8*)g;
	if (!running) { if (b[0]) return 0; b[1] = 1; return 1; }
	for (;;)
	{
		if (__tsan_atomic8_load(b, __ATOMIC_ACQUIRE)) return 0;
		if (__tsan_atomic8_exchange(b + 1, 1, __ATOMIC_ACQUIRE) == 0) { if (__tsan_atomic8_load(b, __ATOMIC_ACQUIRE)) { __tsan_atomic8_store(b + 1, 0, __ATOMIC_RELEASE); return 0; } return 1; }
		yield_event(PC());
	}
}
EXPORT void __cxa_guard_release(__cxxabiv1::__guard* g) noexcept { u8* b = (u8*)g; if (!running) { b[1] = 0; b[0] = 1; return; } __tsan_atomic8_store(b, 1, __ATOMIC_RELEASE); __tsan_atomic8_store(b + 1, 0, __ATOMIC_RELEASE); }
EXPORT void __cxa_guard_abort(__cxxabiv1::__guard* g) noexcept { u8* b = (u8*)g; if (!running) { b[1] = 0; return; } __tsan_atomic8_store(b + 1, 0, __ATOMIC_RELEASE); }
EXPORT void __tsan_atomic_thread_fence(int mo)
{
	if (!running) return;
	tick_event(PC()); point(false); Fiber& f = fib[cur];
	if (mo != MO_RELAXED && mo != MO_RELEASE) for (int i = 0; i < nfib; ++i) if (f.vcacq[i] > f.vc[i]) f.vc[i] = f.vcacq[i];
	if (mo == MO_RELEASE || mo == MO_ACQ_REL || mo == MO_SEQ_CST) { memcpy(f.vcrel, f.vc, sizeof f.vcrel); f.vc[cur]++; }
}
EXPORT void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- heap
static void rt_init();
struct Hdr { u64 size; u64 pc; u64 magic; u64 pad; };
static void* heap_alloc(u64 n, u64 align, u64 pc)
{
	if (UNLIKELY(!shadow)) rt_init();
	int ar = running ? cur + 1 : 0;
	u64 b = arena_brk[ar] + sizeof(Hdr);
	if (align < 16) align = 16;
	b = (b + align - 1) & ~(align - 1);
	u64 end = (b + (n ? n : 1) + 15 + 16) & ~15ull;
	if (end > ARENA_BASE + (ar + 1) * ARENA) { if (running) violation("out-of-memory", "allocation of %llu bytes", (unsigned long long)n); abort(); }
	Hdr* h = (Hdr*)(b - sizeof(Hdr)); h->size = n; h->pc = pc; h->magic = 0xA110CA7EDull;
	arena_brk[ar] = end;
	memset(ast + ((b - ARENA_BASE) >> 3), 1, ((n ? n : 1) + 7) / 8);
	live_allocs++;
	return (void*)b;
}
static void heap_free(void* p, u64 pc)
{
	if (!p) return;
	u64 a = (u64)p;
	if (!(a - ARENA_BASE < ASZ)) { if (running) violation("bad-free", "free of a pointer that was never allocated"); return; }
	Hdr* h = (Hdr*)(a - sizeof(Hdr)); u64 g = (a - ARENA_BASE) >> 3;
	if (ast[g] == 2) { if (running) { backtrace_fp(pc); violation("double-free", "memory freed twice"); } return; }
	if (ast[g] != 1 || h->magic != 0xA110CA7EDull) { if (running) { backtrace_fp(pc); violation("bad-free", "free of a pointer that was never allocated"); } return; }
	u64 ng = ((h->size ? h->size : 1) + 7) / 8;
	if (running)
	{
		tick_event(pc);
		bool v = replay; for (u64 k = 0; k < ng && !v; ++k) v = vis_active[IDX_A + g + k];
		if (v) { point(false); if (ast[g] == 2) violation("double-free", "memory freed twice"); }
		for (u64 k = 0; k < ng; ++k)
		{
			Gran* gr = gran(IDX_A + g + k); do_write(IDX_A + g + k, gr, 255, false, pc);
			if (gr->shared & 2) memhash -= mh(IDX_A + g + k, gr->whash); gr->shared = 0; gr->whash = 0;
		}
		memhash += mix(IDX_A + g, 0xF4EEull);
		spin_reset(fib[cur]);
		if (h->size <= 8192) memset(p, 0xDD, h->size);
	}
	memset(ast + g, 2, ng);
	live_allocs--; rotations = kicks = 0;
}
#define NEWX __attribute__((visibility("default")))
NEWX void* operator new(size_t n) { return heap_alloc(n, 16, PC()); }
NEWX void* operator new[](size_t n) { return heap_alloc(n, 16, PC()); }
NEWX void* operator new(size_t n, const std::nothrow_t&) noexcept { return heap_alloc(n, 16, PC()); }
NEWX void* operator new[](size_t n, const std::nothrow_t&) noexcept { return heap_alloc(n, 16, PC()); }
NEWX void* operator new(size_t n, std::align_val_t a) { return heap_alloc(n, (u64)a, PC()); }
NEWX void* operator new[](size_t n, std::align_val_t a) { return heap_alloc(n, (u64)a, PC()); }
NEWX void operator delete(void* p) noexcept { heap_free(p, PC()); }
NEWX void operator delete[](void* p) noexcept { heap_free(p, PC()); }
NEWX void operator delete(void* p, size_t) noexcept { heap_free(p, PC()); }
NEWX void operator delete[](void* p, size_t) noexcept { heap_free(p, PC()); }
NEWX void operator delete(void* p, std::align_val_t) noexcept { heap_free(p, PC()); }
NEWX void operator delete[](void* p, std::align_val_t) noexcept { heap_free(p, PC()); }
NEWX void operator delete(void* p, size_t, std::align_val_t) noexcept { heap_free(p, PC()); }
NEWX void operator delete[](void* p, size_t, std::align_val_t) noexcept { heap_free(p, PC()); }
NEWX void operator delete(void* p, const std::nothrow_t&) noexcept { heap_free(p, PC()); }
NEWX void operator delete[](void* p, const std::nothrow_t&) noexcept { heap_free(p, PC()); }
// exception objects, so that their addresses are deterministic and their release is checked
// The counts of references to exceptions live in libstdc++, which is not instrumented: what they order is added here.
static void (*next_eptr_release)(void**); static void (*next_end_catch)();
static void eh_sync(void* obj)
{
	if (!running || !obj) return;
	int64_t x = idx_of((u64)obj - 8); if (x < 0) return; Fiber& f = fib[cur]; Rel* r = rel(x);
	for (int i = 0; i < nfib; ++i) { if (r->vc[i] > f.vc[i]) f.vc[i] = r->vc[i]; if (f.vc[i] > r->vc[i]) r->vc[i] = f.vc[i]; }
	f.vc[cur]++;
}
EXPORT void mc_eptr_release(void** self) noexcept __asm__("_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv");
EXPORT void mc_eptr_release(void** self) noexcept { if (!next_eptr_release) next_eptr_release = (void (*)(void**))dlsym(RTLD_NEXT, "_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv"); if (racemode) eh_sync(*self); next_eptr_release(self); }
EXPORT void __cxa_end_catch() { if (!next_end_catch) next_end_catch = (void (*)())dlsym(RTLD_NEXT, "__cxa_end_catch"); if (racemode && running) { std::exception_ptr p = std::current_exception(); } next_end_catch(); }
EXPORT void* __cxa_allocate_exception(size_t n) noexcept { char* p = (char*)heap_alloc(n + 128, 16, PC()); memset(p, 0, 128); return p + 128; }
EXPORT void __cxa_free_exception(void* p) noexcept { heap_free((char*)p - 128, PC()); }
EXPORT void* mc_cxa_alloc_dep() noexcept __asm__("__cxa_allocate_dependent_exception");
EXPORT void mc_cxa_free_dep(void* p) noexcept __asm__("__cxa_free_dependent_exception");
EXPORT void* mc_cxa_alloc_dep() noexcept { char* p = (char*)heap_alloc(112, 16, PC()); memset(p, 0, 112); return p; }
EXPORT void mc_cxa_free_dep(void* p) noexcept { heap_free(p, PC()); }

// ---------------------------------------------------------------- environment
static void clock_event(u64 pc)
{
	Fiber& f = fib[cur]; pseudo_rw(P_CLOCK, false);
	f.th = mix(f.th, (u64)vclock);
	spin_ev(f, mix(pc, (u64)vclock), 1, 8, vclock, 9); spin_check(f, pc);
}
namespace std { namespace chrono { inline namespace _V2 {
__attribute__((visibility("default"))) system_clock::time_point system_clock::now() noexcept { if (running) clock_event(PC()); return time_point(duration(1600000000000000000ll + vclock)); }
__attribute__((visibility("default"))) steady_clock::time_point steady_clock::now() noexcept { if (running) clock_event(PC()); return time_point(duration(1000000000000ll + vclock)); }
} } }
static int real_clock(timespec* t) { return clock_gettime(CLOCK_MONOTONIC, t); }
static void yield_event(u64 pc) { Fiber& f = fib[cur]; tick_event(pc); point(true); spin_ev(fib[cur], mix(pc, 77), 2, 8, 0, 8); spin_check(f, pc); }
EXPORT int sched_yield(void) noexcept { if (running) yield_event(PC()); return 0; }
EXPORT int nanosleep(const timespec*, timespec*) { if (running) { clock_event(PC()); yield_event(PC()); } return 0; }
EXPORT int clock_nanosleep(clockid_t, int, const timespec*, timespec*) { if (running) { clock_event(PC()); yield_event(PC()); } return 0; }
EXPORT pthread_t pthread_self(void) noexcept { return running ? (pthread_t)(0x1000 + cur) : (pthread_t)0x1000; }
// mutexes: __data.__lock = recursion depth, __data.__owner = owner+1
static u64 mutex_acq(pthread_mutex_t* m, bool tr, u64 pc)
{
	int* owner = &m->__data.__owner; u32* cnt = (u32*)&m->__data.__count;
	u64 a = (u64)m;
	for (;;)
	{
		bool md = atomic_begin(a, 8, pc);
		if (*owner == 0) { *owner = cur + 1; *cnt = 1; if (md) atomic_end(a, 8, 3, MO_ACQUIRE, 0, pc); return 0; }
		if (*owner == cur + 1 && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { ++*cnt; if (md) atomic_end(a, 8, 3, MO_RELAXED, *cnt, pc); return 0; }
		if (tr) { if (md) atomic_end(a, 8, 1, MO_RELAXED, 1, pc); return EBUSY; }
		if (md) atomic_end(a, 8, 1, MO_RELAXED, 1, pc);
		if (fib[cur].kickmode) kick_end(fib[cur]); fib[cur].st = F_MUTEX; fib[cur].blk = (u64)m;
		block_current();
	}
}
EXPORT int pthread_mutex_lock(pthread_mutex_t* m) noexcept { if (!running) return 0; return mutex_acq(m, false, PC()); }
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { if (!running) return 0; return mutex_acq(m, true, PC()); }
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
	if (!running) return 0;
	bool md = atomic_begin((u64)m, 8, PC());
	if (m->__data.__owner != cur + 1) violation("mutex-misuse", "unlock of a mutex that the thread does not hold");
	if (--m->__data.__count == 0) m->__data.__owner = 0;
	if (md) atomic_end((u64)m, 8, m->__data.__owner ? 3 : 2, m->__data.__owner ? MO_RELAXED : MO_RELEASE, m->__data.__count, PC());
	return 0;
}
EXPORT void __assert_fail(const char* e, const char* file, unsigned line, const char* fn) noexcept
{
	const char* b = strrchr(file, '/'); b = b ? b + 1 : file;
	if (running) violation("assertion", "assertion failed: %s (%s)", e, b);
	fprintf(stderr, "assert outside an execution: %s %s:%u\n", e, file, line); _exit(2);
}
static void on_terminate()
{
	if (!running) { fprintf(stderr, "terminate outside an execution\n"); _exit(2); }
	const char* tn = "";
	std::type_info* ti = abi::__cxa_current_exception_type(); if (ti) tn = ti->name();
	violation("terminate", "std::terminate called%s%s", ti ? ", exception type " : "", tn);
}
EXPORT void abort(void) noexcept { if (running) violation("abort", "abort called"); signal(SIGABRT, SIG_DFL); raise(SIGABRT); _exit(134); }
static void on_segv(int sig, siginfo_t* si, void* uc)
{
	if (!running) { signal(sig, SIG_DFL); raise(sig); return; }
	ucontext_t* u = (ucontext_t*)uc; u64 rip = u->uc_mcontext.gregs[REG_RIP];
	endk = E_VIOL; snprintf(vkind, sizeof vkind, "crash"); snprintf(vmsg, sizeof vmsg, "signal %d in library or harness code", sig);
	nvpcs = 0; vpcs[nvpcs++] = rip;
	u64* fp = (u64*)u->uc_mcontext.gregs[REG_RBP];
	while ((u64)fp >= STK_BASE && (u64)fp + 16 <= STK_BASE + SSZ && nvpcs < 24) { u64 r = fp[1]; if (!r) break; if (r >= 0x400000 && r < 0x10000000) vpcs[nvpcs++] = r; u64* nf = (u64*)fp[0]; if (nf <= fp) break; fp = nf; }
	go_main();
}

// a loop without any memory access never reaches the runtime: notice it by CPU time
static u64 wd_step = ~0ull, wd_exec; static int wd_n;
static void on_vtalrm(int)
{
	if (!running) { wd_n = 0; return; }
	if (wd_step == gstep && wd_exec == stat_exec) wd_n++; else wd_n = 0;
	wd_step = gstep; wd_exec = stat_exec;
	if (wd_n >= 8) { nvpcs = 0; endk = E_VIOL; snprintf(vkind, sizeof vkind, "hang"); snprintf(vmsg, sizeof vmsg, "a thread loops without making any step"); go_main(); }
}
// ---------------------------------------------------------------- harness API
extern "C" void mc_fiber_main()
{
	Fiber& f = fib[cur];
	f.fn(f.arg);
	f.st = F_DONE; f.vc[cur]++; rotations = kicks = 0;
	pseudo_rw(P_FIBER + cur, true);
	if (cur == 0) { endk = E_OK; go_main(); }
	block_current();
	__builtin_unreachable();
}
static int new_fiber(void (*fn)(void*), void* arg)
{
	if (nfib >= MAXF) internal("too many threads");
	int i = nfib++; Fiber& f = fib[i]; if (nfib > stat_threads) stat_threads = nfib;
	u8* t = f.tls; SpinEv* keep = nullptr; (void)keep;
	f.st = F_READY; f.fn = fn; f.arg = arg; f.th = mix(0x1234, i); f.n = 0; memset(f.vc, 0, sizeof f.vc); memset(f.vcacq, 0, sizeof f.vcacq); memset(f.vcrel, 0, sizeof f.vcrel); f.vc[i] = 1;
	f.nwait = 0; f.clockwait = false; f.kicked = f.kickmode = false; f.suppress_until = 0; f.period = 0; f.nextfair = 6000; f.evn = 1; f.evbase = 1; f.pref[0] = 0; memset(f.lastkey, 0, sizeof f.lastkey); memset(f.last, 0, sizeof f.last);
	memset(t, 0, tlssz); memcpy(t, tlsinit, tlsinitsz); memset(f.ehg, 0, 16);
	u64* sp = (u64*)(STK_BASE + (i + 1) * STK - 64);
	*--sp = 0; *--sp = (u64)&mc_tramp_asm; for (int k = 0; k < 6; ++k) *--sp = 0;
	f.rsp = sp;
	return i;
}
EXPORT int mc_spawn(void (*fn)(void*), void* arg)
{
	int i = new_fiber(fn, arg);
	for (int k = 0; k < MAXF; ++k) if (fib[cur].vc[k] > fib[i].vc[k]) fib[i].vc[k] = fib[cur].vc[k];
	fib[i].th = mix(fib[i].th, mix(fib[cur].th, fib[cur].n));
	fib[cur].vc[cur]++;
	tick_event(0);
	return i;
}
EXPORT void mc_join(int id)
{
	tick_event(0);
	while (fib[id].st != F_DONE) { fib[cur].st = F_JOIN; fib[cur].blk = id; block_current(); }
	pseudo_rw(P_FIBER + id, false);
	for (int k = 0; k < MAXF; ++k) if (fib[id].vc[k] > fib[cur].vc[k]) fib[cur].vc[k] = fib[id].vc[k];
}
EXPORT void mc_advance(int64_t ns) { tick_event(0); point(true); pseudo_rw(P_CLOCK, true); vclock += ns; if (verbose) fprintf(stderr, "  [%llu] thread %d: time +%lld us\n", (unsigned long long)gstep, cur, (long long)ns / 1000); }
EXPORT int64_t mc_now(void) { if (running) { pseudo_rw(P_CLOCK, false); fib[cur].th = mix(fib[cur].th, vclock); } return vclock; }
EXPORT void mc_point(void) { tick_event(0); point(true); }
EXPORT void mc_progress(void) { spin_reset(fib[cur]); }
EXPORT void mc_spin(int n) { spin_reset(fib[cur]); fib[cur].suppress_until = fib[cur].n + n; }
EXPORT int mc_self(void) { return cur; }
EXPORT int64_t mc_cell_add(int c, int64_t d) { pseudo_rw(P_CELL + c, true); rotations = 0; spin_reset(fib[cur]); return cells[c] += d; }
EXPORT int64_t mc_cell_get(int c) { pseudo_rw(P_CELL + c, false); return cells[c]; }
EXPORT void mc_cell_set(int c, int64_t v) { pseudo_rw(P_CELL + c, true); cells[c] = v; }
EXPORT int mc_log(int64_t a, int64_t b, int64_t c)
{
	pseudo_rw(P_LOG, true); if (nlog >= MAXLOG) internal("log full");
	logv[nlog][0] = a; logv[nlog][1] = b; logv[nlog][2] = c;
	if (verbose) fprintf(stderr, "  [%llu] thread %d: log %lld %lld %lld\n", (unsigned long long)gstep, cur, (long long)a, (long long)b, (long long)c);
	rotations = 0; spin_reset(fib[cur]); return nlog++;
}
EXPORT int mc_log_size(void) { pseudo_rw(P_LOG, false); return nlog; }
EXPORT int64_t mc_log_get(int i, int k) { return logv[i][k]; }
EXPORT int64_t mc_live(void) { return live_allocs - base_live; }
EXPORT int mc_is_replay(void) { return verbose; }
// rand: the first two values of an execution are enumerated (0, 1), the others are a fixed sequence
// (retry loops that rely on rand to get out of step need changing values)
static u32 rand_state; static int rand_n;
EXPORT int mc_choose(int n);
EXPORT int rand(void) noexcept
{
	if (!running) return 4;
	pseudo_rw(P_RAND, true);
	if (rand_n++ < 2) return mc_choose(2);
	rand_state = rand_state * 1664525 + 1013904223; return rand_state >> 16 & 0x7fff;
}
EXPORT void mc_fail(const char* fmt, ...)
{
	char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	violation("property", "%s", b); __builtin_unreachable();
}
EXPORT void mc_note(const char* fmt, ...)
{
	if (!verbose) return;
	fprintf(stderr, "  [%llu] thread %d: ", (unsigned long long)gstep, cur);
	va_list ap; va_start(ap, fmt); vfprintf(stderr, fmt, ap); va_end(ap); fputc('\n', stderr);
}
EXPORT int mc_choose(int n)
{
	int v; tick_event(0);
	if (n <= 0) internal("choose of nothing");
	if (n == 1) return 0;
	if (n > 255) internal("choose too wide");
	if (replay) { v = irch < nrch ? rch[irch++] : 0; if (v >= n) internal("replay diverged (choice)"); }
	else if (depth < nnodes)
	{
		Node& nd = nodes[depth++]; if (nd.kind != 2 || nd.nopt != n) internal("nondeterminism at a choice"); v = nd.cur;
	}
	else { Node* nd = new_node(); nd->kind = 2; nd->nopt = n; nd->cur = 0; depth++; v = 0; }
	if (nch == capch) { capch = capch ? capch * 2 : 256; chs = (int*)realloc(chs, capch * sizeof(int)); }
	chs[nch++] = v; stat_trans++;
	fib[cur].th = mix(fib[cur].th, v + 100);
	if (verbose) fprintf(stderr, "  [%llu] thread %d: choice %d of %d\n", (unsigned long long)gstep, cur, v, n);
	return v;
}
EXPORT void mc_register(const char* prop, const char* name, void (*fn)(int), int arg, int pq, int pt, int flags)
{
	if (nscens < 4096) scens[nscens++] = Scen{ prop, name, fn, arg, pq, pt, flags };
}

// ---------------------------------------------------------------- set-up and exploration
static void rt_init()
{
	size_t sz = NIDX * sizeof(Gran);
	shadow = (Gran*)mmap((void*)SHADOW_BASE, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
	void* a = mmap((void*)ARENA_BASE, ASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
	void* s = mmap((void*)STK_BASE, SSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
	lastwpc = (u32*)mmap(0, NIDX * sizeof(u32), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	relshadow = (Rel*)mmap(0, NIDX * sizeof(Rel), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	vis_active = (u8*)mmap(0, NIDX, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	vis_next = (u8*)mmap(0, NIDX, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	ast = (u8*)mmap(0, ASZ / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	fib = (Fiber*)mmap(0, sizeof(Fiber) * MAXF, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	logv = (int64_t(*)[3])mmap(0, sizeof(int64_t) * 3 * MAXLOG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (shadow == MAP_FAILED || a == MAP_FAILED || s == MAP_FAILED || vis_active == MAP_FAILED || vis_next == MAP_FAILED || ast == MAP_FAILED) { const char* m = "mcrt: cannot map memory\n"; (void)!write(2, m, strlen(m)); _exit(2); }
	for (u64 i = 0; i < NARENA; ++i) arena_brk[i] = ARENA_BASE + i * ARENA + 64;
	powtab[0] = 1; for (int i = 1; i <= RING; ++i) powtab[i] = powtab[i - 1] * 0x9E3779B97F4A7C15ull;
}
static int phdr_cb(dl_phdr_info* info, size_t, void*)
{
	if (info->dlpi_name && info->dlpi_name[0]) return 0;
	u64 relro0 = 0, relro1 = 0;
	for (int i = 0; i < info->dlpi_phnum; ++i)
	{
		const ElfW(Phdr)& p = info->dlpi_phdr[i];
		if (p.p_type == PT_GNU_RELRO) { relro0 = info->dlpi_addr + p.p_vaddr; relro1 = relro0 + p.p_memsz; }
	}
	(void)relro0; relro1 = (relro1 + 4095) & ~4095ull;
	for (int i = 0; i < info->dlpi_phnum; ++i)
	{
		const ElfW(Phdr)& p = info->dlpi_phdr[i];
		if (p.p_type == PT_LOAD && (p.p_flags & PF_W)) { D0 = info->dlpi_addr + p.p_vaddr; D1 = D0 + p.p_memsz; if (relro1 > D0) D0 = relro1; D0 &= ~7ull; }
		if (p.p_type == PT_TLS) { tlssz = p.p_memsz; tlsaddr = (u8*)info->dlpi_tls_data; tlsinit = (u8*)(info->dlpi_addr + p.p_vaddr); tlsinitsz = p.p_filesz; }
	}
	return 1;
}
extern "C" char __libc_single_threaded;
static void snapshot()
{
	dl_iterate_phdr(phdr_cb, nullptr);
	if (D1 - D0 > DMAX) { fprintf(stderr, "mcrt: data segment too large\n"); _exit(2); }
	__libc_single_threaded = 0;
	data_snap = (u8*)malloc(D1 - D0); memcpy(data_snap, (void*)D0, D1 - D0);
	base_brk0 = arena_brk[0]; size_t n = base_brk0 - ARENA_BASE;
	base_mem0 = (u8*)malloc(n); memcpy(base_mem0, (void*)ARENA_BASE, n);
	base_ast0 = (u8*)malloc(n / 8 + 1); memcpy(base_ast0, ast, n / 8 + 1);
	base_live = live_allocs;
	for (int i = 0; i < MAXF; ++i) fib[i].tls = (u8*)calloc(1, tlssz + 64);
	stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_size = 1 << 16; ss.ss_sp = malloc(ss.ss_size); sigaltstack(&ss, nullptr);
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
	for (int sg : { SIGSEGV, SIGBUS, SIGILL, SIGFPE }) sigaction(sg, &sa, nullptr);
	std::set_terminate(on_terminate);
	sa.sa_sigaction = nullptr; sa.sa_handler = on_vtalrm; sa.sa_flags = SA_ONSTACK | SA_NODEFER | SA_RESTART; sigaction(SIGVTALRM, &sa, nullptr);
	itimerval itv; itv.it_interval.tv_sec = itv.it_value.tv_sec = 1; itv.it_interval.tv_usec = itv.it_value.tv_usec = 0; setitimer(ITIMER_VIRTUAL, &itv, nullptr);
}
static void scen_entry(void*) { scen->fn(scen->arg); }
static void leak_check()
{
	if (scen->flags & MCF_NOLEAK) return;
	if (live_allocs == base_live) return;
	endk = E_VIOL; snprintf(vkind, sizeof vkind, "leak"); nvpcs = 0; int cnt = 0; u64 first = 0;
	for (u64 ar = 0; ar < NARENA; ++ar)
	{
		u64 b = ARENA_BASE + ar * ARENA; u64 lo = ar == 0 ? base_brk0 : b + 64;
		for (u64 p = lo; p < arena_brk[ar]; p += 16)
		{
			Hdr* h = (Hdr*)p; if (h->magic != 0xA110CA7EDull) continue;
			u64 g = (p + sizeof(Hdr) - ARENA_BASE) >> 3;
			if (ast[g] == 1 && ast[g - 1] == 0) { cnt++; if (!first) first = h->size; if (nvpcs < 24) vpcs[nvpcs++] = h->pc; }
		}
	}
	snprintf(vmsg, sizeof vmsg, "memory not released at the end of the scenario");
	if (verbose) fprintf(stderr, "  %d blocks (first of %llu bytes)\n", cnt, (unsigned long long)first);
}
static void run_one()
{
	// reset the world
	execid++; memcpy((void*)D0, data_snap, D1 - D0);
	size_t n0 = base_brk0 - ARENA_BASE;
	memcpy((void*)ARENA_BASE, base_mem0, n0);
	for (u64 i = 0; i < NARENA; ++i)
	{
		u64 b = ARENA_BASE + i * ARENA; u64 used = arena_brk[i] - b;
		memset(ast + ((b - ARENA_BASE) >> 3), 0, used / 8 + 1);
		if (i) { memset((void*)b, 0, used); arena_brk[i] = b + 64; }
		else { if (used > n0) memset((void*)(ARENA_BASE + n0), 0, used - n0); arena_brk[0] = base_brk0; }
	}
	memcpy(ast, base_ast0, n0 / 8 + 1);
	live_allocs = base_live; gstep = 0; rotations = kicks = 0; fairmode = false; rand_n = 0; rand_state = 7; memhash = 0; vclock = 0; nadv = 0; nlog = 0; memset(cells, 0, sizeof cells);
	nfib = 0; nsw = 0; nch = 0; depth = 0; preempt_used = 0; irsw = irch = 0; endk = E_OK; vmsg[0] = vkind[0] = 0; nvpcs = 0;
	u8 ehsave[16]; u8* eg = (u8*)abi::__cxa_get_globals(); memcpy(ehsave, eg, 16);
	u8* tlssave = (u8*)alloca(tlssz + 1); memcpy(tlssave, tlsaddr, tlssz);
	cur = 0; new_fiber(scen_entry, nullptr); tls_swap(-1, 0);
	running = true;
	mc_switch_asm(&main_rsp, fib[0].rsp);
	running = false;
	memcpy(tlsaddr, tlssave, tlssz); memcpy(eg, ehsave, 16);
	if (endk == E_OK)
	{
		stat_terminal++;
		for (int i = 1; i < nfib; ++i) if (fib[i].st != F_DONE) { endk = E_INTERNAL; snprintf(vmsg, sizeof vmsg, "scenario ended with thread %d not joined", i); return; }
		leak_check();
	}
	stat_exec++; stat_steps += gstep; if (gstep > stat_maxsteps) stat_maxsteps = gstep;
}
static double now_s() { timespec t; real_clock(&t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void jstr(FILE* f, const char* s) { fputc('"', f); for (; *s; ++s) { if (*s == '"' || *s == '\\') fputc('\\', f), fputc(*s, f); else if ((u8)*s < 32) fprintf(f, "\\u%04x", *s); else fputc(*s, f); } fputc('"', f); }
static void print_schedule(FILE* f)
{
	fprintf(f, "\"choices\":["); for (size_t i = 0; i < nch; ++i) fprintf(f, "%s%d", i ? "," : "", chs[i]);
	fprintf(f, "],\"switches\":["); for (size_t i = 0; i < nsw; ++i) fprintf(f, "%s[%llu,%d]", i ? "," : "", (unsigned long long)sw[i].step, sw[i].to); fprintf(f, "]");
}
static void print_viol(FILE* f)
{
	fprintf(f, "\"kind\":"); jstr(f, vkind); fprintf(f, ",\"message\":"); jstr(f, vmsg); fprintf(f, ",\"pcs\":[");
	for (int i = 0; i < nvpcs; ++i) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)vpcs[i]); fprintf(f, "],");
	print_schedule(f);
}
// signatures of known findings: "kind|message prefix"; matching violations are counted, not fatal
static char known[64][512]; static int nknown; static u64 known_hits[64];
static int is_known()
{
	char sig[4600]; snprintf(sig, sizeof sig, "%s|%s", vkind, vmsg);
	for (int i = 0; i < nknown; ++i) if (!strncmp(sig, known[i], strlen(known[i]))) return i;
	return -1;
}
EXPORT int mc_main(int argc, char** argv)
{
	const char* name = nullptr; const char* prop = nullptr; int bound = -1; double tl = 1e9; const char* rfile = nullptr; bool list = false, thorough = false; u64 maxexec = ~0ull;
	for (int i = 1; i < argc; ++i)
	{
		if (!strcmp(argv[i], "--list")) list = true;
		else if (!strcmp(argv[i], "--scenario")) name = argv[++i];
		else if (!strcmp(argv[i], "--prop")) prop = argv[++i];
		else if (!strcmp(argv[i], "--bound")) bound = atoi(argv[++i]);
		else if (!strcmp(argv[i], "--time")) tl = atof(argv[++i]);
		else if (!strcmp(argv[i], "--max")) maxexec = strtoull(argv[++i], 0, 10);
		else if (!strcmp(argv[i], "--thorough")) thorough = true;
		else if (!strcmp(argv[i], "--replay")) rfile = argv[++i];
		else if (!strcmp(argv[i], "--verbose")) verbose = true;
		else if (!strcmp(argv[i], "--known")) { if (nknown < 64) snprintf(known[nknown++], 512, "%s", argv[++i]); }
		else { fprintf(stderr, "unknown option %s\n", argv[i]); return 2; }
	}
	if (list)
	{
		for (int i = 0; i < nscens; ++i) printf("%s %s %d %d %d\n", scens[i].prop, scens[i].name, scens[i].pq, scens[i].pt, scens[i].flags);
		return 0;
	}
	for (int i = 0; i < nscens; ++i) if (name && !strcmp(scens[i].name, name) && (!prop || !strcmp(prop, scens[i].prop))) scen = &scens[i];
	if (scen && scen->flags & MCF_LONG) scen_steplimit = 400000000;
	racemode = (scen && scen->flags & MCF_RACE) || getenv("MC_RACES");
	if (!scen) { fprintf(stderr, "no such scenario\n"); return 2; }
	snapshot();
	if (rfile)
	{
		// replay file: first line "choices n v..", second "switches n step to .."
		FILE* f = fopen(rfile, "r"); if (!f) { perror(rfile); return 2; }
		size_t n; if (fscanf(f, " choices %zu", &n) != 1) return 2; rch = (int*)malloc((n + 1) * sizeof(int)); nrch = n; for (size_t i = 0; i < n; ++i) if (fscanf(f, "%d", &rch[i]) != 1) return 2;
		if (fscanf(f, " switches %zu", &n) != 1) return 2; rsw = (Sw*)malloc((n + 1) * sizeof(Sw)); nrsw = n;
		for (size_t i = 0; i < n; ++i) { unsigned long long s; int t; if (fscanf(f, "%llu %d", &s, &t) != 2) return 2; rsw[i].step = s; rsw[i].to = t; }
		fclose(f); replay = true; preempt_bound = 1 << 20;
		run_one();
		printf("{\"scenario\":"); jstr(stdout, scen->name); printf(",\"end\":%d,", endk); print_viol(stdout); printf("}\n");
		return endk == E_VIOL ? 1 : endk == E_OK ? 0 : 2;
	}
	// preemption bounds 0, 1, 2, .. up to the scenario's: each is explored completely before the next
	int maxbound = bound >= 0 ? bound : thorough ? scen->pt : scen->pq, done_bound = -1;
	preempt_bound = 0;
	double t0 = now_s(); int rounds = 0; bool complete = false, viol = false, internal_err = false; u64 round_exec = 0, total_exec = 0;
	for (;;)
	{
		rounds++; nnodes = 0; round_exec = 0; stat_terminal = stat_pruned = stat_cut = stat_trans = 0; vdirty = false;
		if (vt) { memset(vt, 0, vtcap * 8); memset(vtb, 0, vtcap); } vtn = 0;
		memcpy(vis_active, vis_next, IDX_A);
		for (u64 i = 0; i < NARENA; ++i) memcpy(vis_active + IDX_A + i * ARENA / 8, vis_next + IDX_A + i * ARENA / 8, 1 << 17);
		bool restart = false;
		for (;;)
		{
			run_one(); round_exec++; total_exec++;
			if (endk == E_INTERNAL) { internal_err = true; break; }
			if (endk == E_VIOL)
			{
				int k = is_known();
				if (k >= 0) known_hits[k]++;
				else { viol = true; break; }
			}
			if (vdirty && round_exec >= 64 * (u64)rounds) { restart = true; break; }
			// next
			while (nnodes && nodes[nnodes - 1].cur + 1 >= nodes[nnodes - 1].nopt) nnodes--;
			if (!nnodes)
			{
				if (vdirty) { restart = true; break; }
				done_bound = preempt_bound;
				if (preempt_bound >= maxbound || stat_cut == 0) { complete = true; break; }
				preempt_bound++; restart = true; break;
			}
			nodes[nnodes - 1].cur++;
			if (round_exec % 64 == 0 && now_s() - t0 > tl) break;
			if (total_exec >= maxexec) break;
		}
		if (!restart || (now_s() - t0 > tl)) break;
	}
	printf("{\"scenario\":"); jstr(stdout, scen->name); printf(",\"prop\":"); jstr(stdout, scen->prop);
	printf(",\"executions\":%llu,\"all_executions\":%llu,\"terminal\":%llu,\"states\":%llu,\"transitions\":%llu,\"pruned\":%llu,\"bound_cuts\":%llu,\"rounds\":%d,\"visible\":%llu,\"threads\":%d,\"max_steps\":%llu,\"steps\":%llu,\"bound\":%d,\"done_bound\":%d,\"complete\":%s,\"wall\":%.2f",
		(unsigned long long)round_exec, (unsigned long long)total_exec, (unsigned long long)stat_terminal, (unsigned long long)(vtn + stat_terminal), (unsigned long long)stat_trans, (unsigned long long)stat_pruned, (unsigned long long)stat_cut, rounds, (unsigned long long)stat_vis,
		stat_threads, (unsigned long long)stat_maxsteps, (unsigned long long)stat_steps, complete ? done_bound : preempt_bound, done_bound, complete ? "true" : "false", now_s() - t0);
	printf(",\"known\":["); for (int i = 0; i < nknown; ++i) printf("%s%llu", i ? "," : "", (unsigned long long)known_hits[i]); printf("]");
	if (internal_err) { printf(",\"internal\":"); jstr(stdout, vmsg); }
	if (viol) { printf(",\"violation\":{"); print_viol(stdout); printf("}"); }
	else { printf(",\"last\":{"); print_schedule(stdout); printf("}"); }
	printf("}\n");
	return viol ? 1 : internal_err ? 2 : 0;
}
