// Linearizability oracle: decides whether a recorded history of operations on events, mutexes and
// channels can be explained by their sequential meaning. Not instrumented; exhaustive search over
// the points at which each operation may have taken effect.
#include <cstdint>
#include <cstring>
#include <cstdio>
#include "mc.h"
#define EXPORT extern "C" __attribute__((visibility("default")))
namespace {
enum { MAXOP = 48, NOBJ = 4, QN = 24 };
struct Op { int8_t code; uint8_t obj, mask, owner; bool timed; int64_t val; int call, ret; int64_t res; };
// per-operation state in the search
enum { NOTCALLED, CALLED, QUEUED, GRANTED, RETURNED };
struct St
{
	uint8_t st[MAXOP], got[MAXOP], out[MAXOP];	// out: 1 true, 2 timed out
	int8_t count[NOBJ]; uint8_t q[NOBJ][QN], qn[NOBJ];
	uint8_t own[NOBJ], depth[NOBJ], mq[NOBJ][QN], mn[NOBJ];
	int16_t buf[NOBJ][QN]; uint8_t bn[NOBJ], rq[NOBJ][QN], rn[NOBJ], wq[NOBJ][QN], wn[NOBJ]; int16_t rv[MAXOP];
};
static Op ops[MAXOP]; static int nops; struct Ev { int kind, op; }; static Ev evs[512]; static int nev;
static int fin[NOBJ], cap[NOBJ]; static int nobjs_final; static bool pending_ok;
static uint64_t memo[1 << 16]; static int memo_n; static long nodes;
static uint64_t hash_of(const St& s, int pos)
{
	uint64_t h = 1469598103934665603ull + pos * 77777; const unsigned char* p = (const unsigned char*)&s;
	for (size_t i = 0; i < sizeof(St); ++i) { h ^= p[i]; h *= 1099511628211ull; } return h ? h : 1;
}
static bool memo_add(uint64_t h)
{
	if (memo_n > 50000) return true;
	size_t k = h & 0xffff; while (memo[k] && memo[k] != h) k = (k + 1) & 0xffff;
	if (memo[k]) return false; memo[k] = h; memo_n++; return true;
}
static uint8_t qpop(uint8_t* q, uint8_t& n) { uint8_t r = q[0]; memmove(q, q + 1, n - 1); q[--n] = 0; return r; }
static void qdel(uint8_t* q, uint8_t& n, uint8_t v) { int k = 0; for (int i = 0; i < n; ++i) if (q[i] != v) q[k++] = q[i]; for (int i = k; i < n; ++i) q[i] = 0; n = k; }
static void grant(St& s, int o, int ev)
{
	s.got[o] |= 1 << ev;
	if (s.got[o] == ops[o].mask) { s.st[o] = GRANTED; s.out[o] = 1; }
}
// what happens when operation o takes effect now; false: it cannot
static bool apply(St& s, int o)
{
	const Op& p = ops[o]; int b = p.obj;
	switch (p.code)
	{
	case OP_SIGNAL: if (s.qn[b]) grant(s, qpop(s.q[b], s.qn[b]), b); else s.count[b]++; s.st[o] = GRANTED; return true;
	case OP_SIGNAL_ALL: while (s.qn[b]) grant(s, qpop(s.q[b], s.qn[b]), b); s.st[o] = GRANTED; return true;
	case OP_RESET: s.count[b] = 0; s.st[o] = GRANTED; return true;
	case OP_WAIT:
		s.st[o] = QUEUED;
		for (int e = 0; e < NOBJ; ++e) if (p.mask >> e & 1) { if (s.count[e] > 0) { s.count[e]--; grant(s, o, e); } else s.q[e][s.qn[e]++] = o; }
		return true;
	case OP_LOCK: case OP_TRY: case OP_PLOCK:
		if (s.depth[b] == 0 || s.own[b] == p.owner) { s.own[b] = p.owner; s.depth[b]++; s.st[o] = GRANTED; s.out[o] = 1; return p.ret < 0 || p.res == 1; }
		if (p.code == OP_LOCK) { s.mq[b][s.mn[b]++] = o; s.st[o] = QUEUED; return true; }
		if (p.ret >= 0 && p.res == 0) { s.st[o] = GRANTED; s.out[o] = 2; return true; }
		return false;
	case OP_UNLOCK:
		if (s.depth[b] == 0 || s.own[b] != p.owner) return false;
		if (--s.depth[b] == 0) { s.own[b] = 0; if (s.mn[b]) { int w = qpop(s.mq[b], s.mn[b]); s.own[b] = ops[w].owner; s.depth[b] = 1; s.st[w] = GRANTED; s.out[w] = 1; } }
		s.st[o] = GRANTED; return true;
	case OP_WRITE: case OP_PWRITE:
		if (s.rn[b]) { int r = qpop(s.rq[b], s.rn[b]); s.rv[r] = (int16_t)p.val; s.st[r] = GRANTED; s.st[o] = GRANTED; return true; }
		if (s.bn[b] < cap[b]) { s.buf[b][s.bn[b]++] = (int16_t)p.val; s.st[o] = GRANTED; return true; }
		if (p.code == OP_PWRITE) return false;
		s.wq[b][s.wn[b]++] = o; s.st[o] = QUEUED; return true;
	case OP_READ: case OP_PREAD:
		if (s.bn[b])
		{
			s.rv[o] = s.buf[b][0]; memmove(s.buf[b], s.buf[b] + 1, 2 * (s.bn[b] - 1)); s.buf[b][--s.bn[b]] = 0; s.st[o] = GRANTED;
			if (s.wn[b]) { int w = qpop(s.wq[b], s.wn[b]); s.buf[b][s.bn[b]++] = (int16_t)ops[w].val; s.st[w] = GRANTED; }
			return p.ret < 0 || p.res == -1 || p.res == s.rv[o];
		}
		if (s.wn[b]) { int w = qpop(s.wq[b], s.wn[b]); s.rv[o] = (int16_t)ops[w].val; s.st[w] = GRANTED; s.st[o] = GRANTED; return p.ret < 0 || p.res == -1 || p.res == s.rv[o]; }
		if (p.code == OP_PREAD) return false;
		s.rq[b][s.rn[b]++] = o; s.st[o] = QUEUED; return true;
	}
	return false;
}
static bool result_ok(const St& s, int o)
{
	const Op& p = ops[o]; if (s.st[o] != GRANTED) return false;
	switch (p.code)
	{
	case OP_WAIT: case OP_LOCK: case OP_TRY: case OP_PLOCK: return p.res == (s.out[o] == 1);
	case OP_READ: case OP_PREAD: return p.res == -1 || p.res == s.rv[o];
	}
	return true;
}
static bool dfs(const St& s, int pos)
{
	nodes++;
	if (pos < nev)
	{
		// the log goes on, if it can
		const Ev& e = evs[pos]; bool can = false; St t = s;
		if (e.kind == LOG_CALL) { t.st[e.op] = CALLED; can = true; }
		else if (e.kind == LOG_RET) { if (result_ok(s, e.op)) { t.st[e.op] = RETURNED; can = true; } }
		else	// quiescent: everything that could go on has returned
		{
			can = true; for (int o = 0; o < nops; ++o) if (s.st[o] == GRANTED || s.st[o] == CALLED) can = false;
		}
		if (can && memo_add(hash_of(t, pos + 1)) && dfs(t, pos + 1)) return true;
	}
	else
	{
		bool ok = true;
		for (int o = 0; o < nops && ok; ++o) if (s.st[o] != RETURNED && !(s.st[o] == QUEUED && pending_ok)) ok = false;
		for (int e = 0; e < nobjs_final && ok; ++e) if (fin[e] >= 0 && fin[e] != s.count[e]) ok = false;
		if (ok) return true;
	}
	for (int o = 0; o < nops; ++o)
	{
		const Op& p = ops[o];
		if (s.st[o] == CALLED) { St t = s; if (apply(t, o) && memo_add(hash_of(t, pos)) && dfs(t, pos)) return true; }
		else if (s.st[o] == QUEUED && p.timed && p.ret >= 0 && p.res == 0)
		{
			St t = s;
			if (p.code == OP_WAIT) { for (int e = 0; e < NOBJ; ++e) if (p.mask >> e & 1) qdel(t.q[e], t.qn[e], o); }
			else qdel(t.mq[p.obj], t.mn[p.obj], o);
			t.st[o] = GRANTED; t.out[o] = 2;
			if (memo_add(hash_of(t, pos)) && dfs(t, pos)) return true;
		}
	}
	return false;
}
}
EXPORT int mc_lin(const int* init_counts, const int* final_counts, int nobj, const int* caps, int flags)
{
	nops = nev = 0; memset(ops, 0, sizeof ops); memset(memo, 0, sizeof memo); memo_n = 0; nodes = 0; pending_ok = flags & 1; nobjs_final = 0;
	int ids[MAXOP]; int n = mc_log_size(); St s; memset(&s, 0, sizeof s);
	for (int i = 0; i < NOBJ; ++i) { cap[i] = caps && i < nobj ? caps[i] : 0; fin[i] = -1; }
	for (int i = 0; i < nobj && i < NOBJ; ++i) { if (init_counts) s.count[i] = init_counts[i]; if (final_counts) { fin[i] = final_counts[i]; nobjs_final = i + 1; } }
	for (int i = 0; i < n; ++i)
	{
		int k = (int)mc_log_get(i, 0), id = (int)mc_log_get(i, 1); int64_t a = mc_log_get(i, 2);
		if (k == LOG_CALL)
		{
			if (nops == MAXOP) return -1;
			Op& p = ops[nops]; ids[nops] = id; p.code = a & 255; p.obj = a >> 8 & 255; p.mask = a >> 16 & 255; p.owner = a >> 24 & 255; p.timed = a >> 32 & 1; p.val = a >> 40; p.call = i; p.ret = -1;
			evs[nev].kind = LOG_CALL; evs[nev++].op = nops++;
		}
		else if (k == LOG_RET)
		{
			int o = -1; for (int j = 0; j < nops; ++j) if (ids[j] == id && ops[j].ret < 0) o = j;
			if (o < 0) return 0;
			ops[o].ret = i; ops[o].res = a; evs[nev].kind = LOG_RET; evs[nev++].op = o;
		}
		else if (k == LOG_QUIET) { evs[nev].kind = LOG_QUIET; evs[nev++].op = 0; }
		if (nev >= 510) return -1;
	}
	return dfs(s, 0) ? 1 : 0;
}
