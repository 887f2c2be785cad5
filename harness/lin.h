// Brute-force linearizability of a history against a blocking FIFO queue.
#pragma once
#include "mc.h"
struct LinOp { int kind; int64_t val; int start, end; };	// kind 0 write, 1 read
inline __attribute__((no_sanitize("thread"))) bool lin_rec(const LinOp* o, int n, unsigned done, int64_t* q, int h, int t)
{
	if (done == (1u << n) - 1) return true;
	for (int i = 0; i < n; ++i)
	{
		if (done >> i & 1) continue;
		bool ok = true;	// everything that ended before i started must be done
		for (int j = 0; j < n && ok; ++j) if (!(done >> j & 1) && j != i && o[j].end >= 0 && o[j].end < o[i].start) ok = false;
		if (!ok) continue;
		if (o[i].kind == 0) { q[t] = o[i].val; if (lin_rec(o, n, done | 1u << i, q, h, t + 1)) return true; }
		else if (h < t && q[h] == o[i].val) { int64_t keep = q[h]; if (lin_rec(o, n, done | 1u << i, q, h + 1, t)) return true; q[h] = keep; }
	}
	return false;
}
// history in the log: (kind*2+phase, id, value); id unique per operation
inline __attribute__((no_sanitize("thread"))) bool lin_check()
{
	LinOp o[16]; int n = 0; int64_t ids[16]; int m = mc_log_size();
	for (int i = 0; i < m; ++i)
	{
		int k = (int)mc_log_get(i, 0); int64_t id = mc_log_get(i, 1), v = mc_log_get(i, 2);
		if (k & 1) { for (int j = 0; j < n; ++j) if (ids[j] == id) { o[j].end = i; if (o[j].kind == 1) o[j].val = v; } }
		else { ids[n] = id; o[n].kind = k / 2; o[n].val = v; o[n].start = i; o[n].end = -1; n++; }
	}
	int64_t q[32];
	return lin_rec(o, n, 0, q, 0, 0);
}
