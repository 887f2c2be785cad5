// A small interpreter: a scenario is a text naming threads and what each of them does with the
// shared primitives. Every operation is recorded in the history that the oracle judges.
//   "S:w0 y,w0|P:s0 s0|F:s0"   S: a thread with its own scheduler running the listed coroutines,
//   P: a plain thread, F: operations of the main thread after the P threads ended,
//   I:10 initially signalled events, C:01 capacities of the channels, D drive schedulers until all
//   coroutines are done (needed when they switch)
// coroutine operations: w0 wait, w01 wait_all, t0.5 wait_for 5 ms, t01.5 wait_all_for, L0 U0 lock/
//   unlock, G0 g0 guard, K0 try_lock (U0 when owned), k0 the same, unlocked later only if owned,
//   l0.5 try_lock_for, >0 <0 channel write/read, y yield, z5 sleep_for, v1 via scheduler of thread 1,
//   (..) the same in an awaited child coroutine, {..} in a separately launched coroutine
// both: s0 a0 r0 signal, signal_all, reset, +5 advance the clock, plain threads: L0 U0 K0 l0.5 > <
#pragma once
#include "hx.h"
#include <string>
#include <cstring>
enum { CELL_OWN = 0, CELL_DEPTH = 4, CELL_DONE = 200 };
struct World
{
	event_t ev[4] { event_t(false), event_t(false), event_t(false), event_t(false) };
	mutex_t mx[3];
	std::unique_ptr<channel_t<int>> ch[2];
	std::atomic<scheduler_t*> sch[6]; int thread_of[6];
	std::atomic<int> done { 0 }; std::atomic<int> total { 0 }; std::atomic<int> started { 0 };
	int nsched = 0; bool drive = false; int init[4] = { 0, 0, 0, 0 }; int caps[4] = { 0, 1, 0, 0 };
	bool used_ev[4] = { false, false, false, false };
	std::atomic<int> nextid { 1 };
};
static World* W;
struct Who { int id; int n; int next() { return id * 64 + n++; } };
inline int call(Who& w, int code, int obj, int mask = 0, bool timed = false, int64_t val = 0)
{
	int op = w.next();
	mc_log(LOG_CALL, op, code | obj << 8 | mask << 16 | (int64_t)w.id << 24 | (int64_t)timed << 32 | val << 40);
	return op;
}
inline void ret(int op, int64_t r) { mc_log(LOG_RET, op, r); }
// exclusion, observed directly
inline void acquired(int m, int id)
{
	int64_t o = mc_cell_get(CELL_OWN + m);
	REQUIRE(o == 0 || o == id, "two owners hold the mutex");
	mc_cell_set(CELL_OWN + m, id); mc_cell_add(CELL_DEPTH + m, 1);
	mc_point();	// others may run while the mutex is owned
}
inline void releasing(int m) { if (mc_cell_add(CELL_DEPTH + m, -1) == 0) mc_cell_set(CELL_OWN + m, 0); }
inline int num(const char*& s) { int v = 0; while (*s >= '0' && *s <= '9') v = v * 10 + (*s++ - '0'); return v; }
inline int mask_of(const char*& s, int* first, int* cnt) { int m = 0; *cnt = 0; while (*s >= '0' && *s <= '3') { if (!*cnt) *first = *s - '0'; m |= 1 << (*s++ - '0'); ++*cnt; } return m; }
inline void* key(int id) { return (void*)(uintptr_t)(0x1000 + id * 16); }
// operations that plain threads and coroutines share; false: not one of them
inline bool plain_op(Who& me, const char*& s)
{
	char c = *s;
	if (c == 's') { s++; int e = *s++ - '0'; int o = call(me, OP_SIGNAL, e); W->ev[e].signal(); ret(o, 0); return true; }
	if (c == 'a') { s++; int e = *s++ - '0'; int o = call(me, OP_SIGNAL_ALL, e); W->ev[e].signal_all(); ret(o, 0); return true; }
	if (c == 'r') { s++; int e = *s++ - '0'; int o = call(me, OP_RESET, e); W->ev[e].reset(); ret(o, 0); return true; }
	if (c == '+') { s++; mc_advance(num(s) * MS); return true; }
	return false;
}
inline void plain_script(Who me, const char* s)
{
	bool held[3] = { false, false, false };
	while (*s)
	{
		if (*s == ' ') { s++; continue; }
		if (plain_op(me, s)) continue;
		char c = *s++; int b = *s++ - '0';
		if (c == 'L') { int o = call(me, OP_PLOCK, b); W->mx[b].lock(key(me.id)); ret(o, 1); acquired(b, me.id); }
		else if (c == 'U') { releasing(b); int o = call(me, OP_UNLOCK, b); W->mx[b].unlock(key(me.id)); ret(o, 0); }
		else if (c == 'K' || c == 'k') { int o = call(me, OP_TRY, b); bool r = W->mx[b].try_lock(key(me.id)); ret(o, r); if (r) { acquired(b, me.id); if (c == 'K') { releasing(b); int o = call(me, OP_UNLOCK, b); W->mx[b].unlock(key(me.id)); ret(o, 0); } else held[b] = true; } }
		else if (c == 'u') { if (held[b]) { held[b] = false; releasing(b); int o = call(me, OP_UNLOCK, b); W->mx[b].unlock(key(me.id)); ret(o, 0); } }
		else if (c == 'l') { s++; int ms = num(s); int64_t t0 = mc_now(); int o = call(me, OP_PLOCK, b, 0, true); bool r = W->mx[b].try_lock_for(std::chrono::milliseconds(ms), key(me.id)); ret(o, r); if (r) { acquired(b, me.id); releasing(b); int o = call(me, OP_UNLOCK, b); W->mx[b].unlock(key(me.id)); ret(o, 0); } else REQUIRE(mc_now() >= t0 + ms * MS, "timed lock gave up before its deadline"); }
		else if (c == '>') { int v = me.id * 10 + me.n; int o = call(me, OP_PWRITE, b, 0, false, v); (void)W->ch[b]->write(v); ret(o, 0); }
		else if (c == '<') { int o = call(me, OP_PREAD, b); (void)W->ch[b]->read(); ret(o, -1); }
		else mc_fail("bad plain script at %c", c);
	}
}
inline future_t<> co_script(Who& me, int th, const char* s, const char* e);
inline future_t<> co_root(int id, int th, const char* s, const char* e)
{
	Who me{ id, 0 };
	co_await co_script(me, th, s, e);
	W->done.fetch_add(1);
}
inline future_t<> co_script(Who& me, int th, const char* s, const char* e)
{
	std::optional<batch_unlock_t<mutex_t>> guard[3]; bool held[3] = { false, false, false };
	while (s < e)
	{
		if (*s == ' ') { s++; continue; }
		int at = mc_self();
		REQUIRE(W->thread_of[th] == at, "a coroutine of the scheduler of thread %d runs on thread %d", W->thread_of[th], at);
		REQUIRE(this_scheduler() == W->sch[th].load(), "the current scheduler is not the one that runs the coroutine");
		if (plain_op(me, s)) continue;
		char c = *s++;
		if (c == 'w' || c == 't')
		{
			int e0 = 0, cnt, m = mask_of(s, &e0, &cnt); int ms = 0; if (c == 't') { s++; ms = num(s); }
			int64_t t0 = mc_now(); int o = call(me, OP_WAIT, e0, m, c == 't'); bool r;
			if (cnt == 1) { if (c == 'w') r = co_await W->ev[e0].wait(); else r = co_await W->ev[e0].wait_for(std::chrono::milliseconds(ms)); }
			else
			{
				std::vector<event_t> v; for (int i = 0; i < 4; ++i) if (m >> i & 1) v.push_back(W->ev[i]);
				if (c == 'w') r = co_await event_t::wait_all(v); else r = co_await event_t::wait_all_for(std::chrono::milliseconds(ms), v);
			}
			ret(o, r);
			REQUIRE(r || c == 't', "a wait without deadline returned false");
			REQUIRE(r || mc_now() >= t0 + ms * MS, "a timed wait gave up before its deadline");
			continue;
		}
		if (c == 'y') { co_await yield(); continue; }
		if (c == 'z') { int ms = num(s); int64_t t0 = mc_now(); co_await sleep_for(std::chrono::milliseconds(ms)); REQUIRE(mc_now() >= t0 + ms * MS, "a sleep ended early"); continue; }
		if (c == '(' || c == '{')
		{
			int d = 1; const char* q = s; while (d) { if (*q == '(' || *q == '{') d++; if (*q == ')' || *q == '}') d--; q++; }
			if (c == '(') { co_await co_script(me, th, s, q - 1); }
			else { W->total.fetch_add(1); go co_root(W->nextid++, th, s, q - 1); }
			s = q; continue;
		}
		int b = *s++ - '0';
		if (c == 'v') { scheduler_t* t; while ((t = W->sch[b].load()) == nullptr) co_await yield(); co_await via(t); th = b; }
		else if (c == 'L') { int o = call(me, OP_LOCK, b); co_await W->mx[b].lock(adopt_manual_unlock); ret(o, 1); acquired(b, me.id); }
		else if (c == 'U') { releasing(b); int o = call(me, OP_UNLOCK, b); co_await W->mx[b].unlock(); ret(o, 0); }
		else if (c == 'G') { int o = call(me, OP_LOCK, b); guard[b].emplace(co_await W->mx[b].lock()); ret(o, 1); acquired(b, me.id); }
		else if (c == 'g') { releasing(b); int o = call(me, OP_UNLOCK, b); guard[b].reset(); ret(o, 0); }
		else if (c == 'h') { releasing(b); int o = call(me, OP_UNLOCK, b); guard[b]->unlock(); ret(o, 0); }
		else if (c == 'K' || c == 'k')
		{
			int o = call(me, OP_TRY, b); bool r = co_await W->mx[b].try_lock(); ret(o, r);
			if (r) { acquired(b, me.id); if (c == 'K') { releasing(b); int o = call(me, OP_UNLOCK, b); co_await W->mx[b].unlock(); ret(o, 0); } else held[b] = true; }
		}
		else if (c == 'l' || c == 'm')
		{
			s++; int ms = num(s); int64_t t0 = mc_now(); int o = call(me, OP_LOCK, b, 0, true);
			bool r = co_await W->mx[b].try_lock_for(std::chrono::milliseconds(ms)); ret(o, r);
			if (r) { acquired(b, me.id); if (c == 'l') { releasing(b); int o = call(me, OP_UNLOCK, b); co_await W->mx[b].unlock(); ret(o, 0); } else held[b] = true; }
			else REQUIRE(mc_now() >= t0 + ms * MS, "a timed lock gave up before its deadline");
		}
		else if (c == 'u') { if (held[b]) { held[b] = false; releasing(b); int o = call(me, OP_UNLOCK, b); co_await W->mx[b].unlock(); ret(o, 0); } }
		else if (c == '>') { int v = me.id * 10 + me.n; int o = call(me, OP_WRITE, b, 0, false, v); co_await (*W->ch[b] << v); ret(o, 0); }
		else if (c == '<') { int o = call(me, OP_READ, b); int v = co_await *W->ch[b]; ret(o, v); }
		else mc_fail("bad script at %c", c);
	}
}
inline future_t<> co_probe(int e, int* n) { (void)co_await W->ev[e].wait(); ++*n; }
// how many signals an event has stored, measured with waits that are then released
inline int stored(int e)
{
	local_scheduler_t ls; int n = 0; const int K = 4;
	for (int i = 0; i < K; ++i) go co_probe(e, &n);
	batches(4); int r = n;
	for (int i = r; i < K; ++i) W->ev[e].signal();
	drain(); REQUIRE(n == K, "a signal sent to a waiting coroutine did not resume it");
	return r;
}
inline void no_coroutine_left() {}
// runs the scenario and judges its history
inline void run_prog(const char* text)
{
	World w; W = &w;
	for (int i = 0; i < 6; ++i) w.sch[i].store(nullptr);
	std::vector<std::string> parts; { std::string cur; for (const char* s = text;; ++s) { if (*s == '|' || !*s) { parts.push_back(cur); cur.clear(); if (!*s) break; } else cur += *s; } }
	std::string fin; std::vector<std::pair<char, std::string>> thr_;
	for (auto& p : parts)
	{
		if (p[0] == 'I') { for (size_t i = 2; i < p.size(); ++i) if (p[i] == '1') { w.init[i - 2] = 1; w.ev[i - 2] = event_t(true); } }
		else if (p[0] == 'C') { for (size_t i = 2; i < p.size(); ++i) w.caps[i - 2] = p[i] - '0'; }
		else if (p[0] == 'D') w.drive = true;
		else if (p[0] == 'F') fin = p.substr(2);
		else thr_.push_back({ p[0], p.substr(2) });
		for (size_t i = 0; i + 1 < p.size(); ++i) if (strchr("swtar", p[i]) && (p[0] == 'S' || p[0] == 'P' || p[0] == 'F')) for (size_t k = i + 1; k < p.size() && p[k] >= '0' && p[k] <= '3'; ++k) w.used_ev[p[k] - '0'] = true;
	}
	for (int i = 0; i < 2; ++i) w.ch[i] = std::make_unique<channel_t<int>>(w.caps[i]);
	int tid[8], n = 0; bool isp[8];
	int si = 0;
	for (auto& t : thr_)
	{
		isp[n] = t.first == 'P';
		if (t.first == 'P') { Who me{ w.nextid++, 0 }; const char* s = t.second.c_str(); tid[n++] = thr([me, s] { plain_script(me, s); }); }
		else
		{
			int k = si++; int ids[8], c = 0; const char* b[8]; const char* e[8];
			const char* s = t.second.c_str(); b[0] = s; int depth = 0;
			for (;; ++s) { if (*s == '(' || *s == '{') depth++; if (*s == ')' || *s == '}') depth--; if ((*s == ',' && !depth) || !*s) { e[c] = s; ids[c] = w.nextid++; c++; if (!*s) break; b[c] = s + 1; } }
			w.total.fetch_add(c); w.nsched++;
			struct Arg { int k, c; int ids[8]; const char* b[8]; const char* e[8]; };
			auto a = std::make_shared<Arg>(); a->k = k; a->c = c; for (int i = 0; i < c; ++i) { a->ids[i] = ids[i]; a->b[i] = b[i]; a->e[i] = e[i]; }
			tid[n++] = thr([a] {
				local_scheduler_t ls; W->thread_of[a->k] = mc_self(); W->sch[a->k].store(this_scheduler());
				for (int i = 0; i < a->c; ++i) go co_root(a->ids[i], a->k, a->b[i], a->e[i]);
				if (W->drive) { while (W->done.load() < W->total.load() || !this_scheduler()->empty()) this_scheduler()->run_one_batch(); }
				else this_scheduler()->run_until_notask();
				REQUIRE(this_scheduler()->empty(), "the scheduler stopped but is not empty");
			});
		}
	}
	for (int i = 0; i < n; ++i) if (isp[i]) mc_join(tid[i]);
	if (!fin.empty()) plain_script(Who{ w.nextid++, 0 }, fin.c_str());
	for (int i = 0; i < n; ++i) if (!isp[i]) mc_join(tid[i]);
	REQUIRE(w.done.load() == w.total.load(), "%d of %d coroutines finished", w.done.load(), w.total.load());
	int left[4]; for (int i = 0; i < 4; ++i) left[i] = w.used_ev[i] ? stored(i) : w.init[i];
	for (int i = 0; i < 3; ++i) REQUIRE(rests_free(w.mx[i]), "mutex %d is still locked", i);
	int r = mc_lin(w.init, left, 4, w.caps, 0);
	REQUIRE(r >= 0, "harness: history too large");
	REQUIRE(r, "the history is not one of counted signals / a FIFO mutex / a FIFO channel");
	W = nullptr;
}
struct ProgTab { static std::vector<const char*>& v() { static std::vector<const char*> x; return x; } };
inline void run_prog_i(int i) { run_prog(ProgTab::v()[i]); }
inline int reg_prog(const char* prop, const char* name, const char* text, int pq, int pt, int flags) { int i = (int)ProgTab::v().size(); ProgTab::v().push_back(text); mc_register(prop, name, run_prog_i, i, pq, pt, flags); return 0; }
#define PROG(prop, name, text, pq, pt, flags) static int MC_CAT(mc_prog_, __COUNTER__) = reg_prog(prop, name, text, pq, pt, flags);
