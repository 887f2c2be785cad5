#include "prog.h"
#include "endure.h"
// two and three contenders, coroutines and plain threads
PROG("C08", "2-locks", "S:L0 U0|S:L0 U0", 4, 6, 0)
PROG("C08", "2-guards", "S:G0 g0|S:G0 h0", 3, 5, 0)
PROG("C08", "co-vs-plain", "S:L0 U0|P:L0 U0", 3, 5, 0)
PROG("C08", "co-vs-plain-try", "S:L0 y U0|P:K0 K0", 3, 5, 0)
PROG("C08", "plain-vs-plain", "P:L0 L0 U0 U0|P:L0 U0|P:K0", 1, 3, 0)
PROG("C08", "try-vs-handoff", "S:L0 U0|S:L0 U0|P:K0", 2, 4, 0)
PROG("C08", "co-try-vs-handoff", "S:L0 U0|S:L0 U0|S:K0 K0", 2, 3, 0)
PROG("C08", "recursive", "S:L0 L0 U0 U0|S:L0 U0|P:K0", 1, 3, 0)
PROG("C08", "recursive-try", "S:L0 K0 U0 K0|S:K0 L0 U0", 2, 4, 0)
PROG("C08", "recursive-child", "S:L0 (L0 (k0 u0) U0) U0|S:L0 U0", 2, 4, 0)
PROG("C08", "recursive-child-suspended", "S:L0 (y L0 y U0 y) U0,L0 U0|P:K0", 2, 4, 0)
PROG("C08", "recursive-guards", "S:G0 (G0 y g0) g0|P:K0 K0", 3, 5, 0)
PROG("C08", "first-lock-in-child", "S:(L0 y) y U0|S:K0 L0 U0", 2, 4, 0)
PROG("C08", "launched-is-other-owner", "S:L0 {K0 L0 U0} y U0|P:K0", 2, 4, 0)
PROG("C08", "same-scheduler-3", "S:L0 y U0,L0 y U0,K0 L0 U0", 0, 0, 0)
PROG("C08", "same-scheduler-3-and-plain", "S:L0 y U0,L0 U0,L0 U0|P:L0 U0", 2, 3, 0)
PROG("C08", "two-mutexes", "S:L0 L1 U1 U0|S:L0 L1 U0 U1|P:K0 K1", 1, 2, 0)
PROG("C08", "timed-and-plain", "S:L0 z2 U0|S:l0.1|P:l0.1", 2, 4, 0)
PROG("C08", "keep-try", "S:k0 y u0|S:k0 y u0|P:k0 u0", 2, 4, 0)
// every program of three steps for each of two or three coroutines on one scheduler
static const char* OPSX[] = { "L", "U", "T", "y", "C" };
static future_t<> child_of(Who& me, int* depth, mutex_t m)
{
	int o = call(me, OP_LOCK, 0); co_await m.lock(adopt_manual_unlock); ret(o, 1); acquired(0, me.id); ++*depth;
	if (mc_choose(2)) co_await yield();
	if (mc_choose(2)) { --*depth; releasing(0); o = call(me, OP_UNLOCK, 0); co_await m.unlock(); ret(o, 0); }
}
static future_t<> actor(int id, int steps, mutex_t m, int* fin)
{
	Who me{ id, 0 }; int depth = 0;
	for (int i = 0; i < steps; ++i)
	{
		int c = mc_choose(5); int o;
		if (c == 0) { o = call(me, OP_LOCK, 0); co_await m.lock(adopt_manual_unlock); ret(o, 1); acquired(0, id); depth++; }
		else if (c == 1) { if (!depth) continue; depth--; releasing(0); o = call(me, OP_UNLOCK, 0); if (id & 1) co_await m.unlock(); else m.unlock(librf_root_state()); ret(o, 0); }
		else if (c == 2) { o = call(me, OP_TRY, 0); bool r = co_await m.try_lock(); ret(o, r); if (r) { acquired(0, id); depth++; } else REQUIRE(!depth, "try_lock by the owner failed"); }
		else if (c == 3) co_await yield();
		else co_await child_of(me, &depth, m);
		REQUIRE(!depth || m.is_locked(), "is_locked is false while the mutex is held");
	}
	while (depth) { depth--; releasing(0); int o = call(me, OP_UNLOCK, 0); co_await m.unlock(); ret(o, 0); }
	++*fin;
}
static void seq(int arg)
{
	int n = arg / 10, steps = arg % 10; local_scheduler_t ls; mutex_t m; int fin = 0;
	for (int i = 0; i < n; ++i) go actor(i + 1, steps, m, &fin);
	drain(); REQUIRE(fin == n, "a coroutine waits for ever"); REQUIRE(rests_free(m), "the mutex is still locked");
	int z[1] = { 0 }; REQUIRE(mc_lin(z, nullptr, 1, nullptr, 0) == 1, "the history is not one of a FIFO recursive mutex");
}
MC_REG("C08", "programs-2x2", seq, 22, 0, 0, 0) MC_REG("C08", "programs-2x3", seq, 23, 0, 0, 0) MC_REG("C08", "programs-3x2", seq, 32, 0, 0, MCF_THOROUGH)
// every sequence of operations on guards of two mutexes; a guard holds what it was given until destroyed, unlocked or moved over
struct Model { int held[3]; };
using guard_t = batch_unlock_t<mutex_t>;
static void count_free(mutex_t& m, int want, void* me, const char* w)
{
	// the number of levels held by `me`: visible to another owner as locked or free
	int other; bool r = m.try_lock(&other); if (r) m.unlock(&other);
	REQUIRE(r == (want == 0), "%s: the mutex is %s", w, r ? "free although a guard holds it" : "locked although no guard holds it");
	REQUIRE(m.is_locked() == (want != 0), "is_locked is wrong"); (void)me;
}
static future_t<> guards(int len, mutex_t a, mutex_t b, bool* fin)
{
	mutex_t* mx[2] = { &a, &b }; int lv[2] = { 0, 0 };
	std::optional<guard_t> g[2]; int h[2] = { -1, -1 };	// which mutex each guard holds
	auto drop = [&](int i) { if (h[i] >= 0) lv[h[i]]--; h[i] = -1; };
	for (int s = 0; s < len; ++s)
	{
		int i = mc_choose(2);
		switch (mc_choose(6))
		{
		case 0: { int k = mc_choose(2); drop(i); g[i].reset(); g[i].emplace(co_await mx[k]->lock()); h[i] = k; lv[k]++; break; }
		case 1: if (!g[i]) { g[i].emplace(); h[i] = -1; } g[i]->unlock(); drop(i); break;
		case 2: g[i].reset(); drop(i); break;
		case 3: { int k = mc_choose(2); if (!g[i]) { g[i].emplace(); h[i] = -1; } *g[i] = co_await mx[k]->lock(); drop(i); h[i] = k; lv[k]++; break; }	// move over
		case 4: if (g[i] && g[1 - i]) { *g[i] = std::move(*g[1 - i]); drop(i); h[i] = h[1 - i]; h[1 - i] = -1; } break;
		case 5: if (g[i]) { guard_t n(std::move(*g[i])); int t = h[i]; h[i] = -1; count_free(*mx[0], lv[0], nullptr, "moved to a temporary"); if (t >= 0) lv[t]--; } break;
		}
		for (int k = 0; k < 2; ++k) count_free(*mx[k], lv[k], nullptr, "after a step");
	}
	for (int i = 0; i < 2; ++i) { drop(i); g[i].reset(); }
	for (int k = 0; k < 2; ++k) count_free(*mx[k], 0, nullptr, "after all guards are gone");
	*fin = true;
}
static void guards_seq(int len) { local_scheduler_t ls; mutex_t a, b; bool fin = false; go guards(len, a, b, &fin); drain(); REQUIRE(fin, "a coroutine waits for ever"); }
MC_REG("C08", "guards-3", guards_seq, 3, 0, 0, 0) MC_REG("C08", "guards-4", guards_seq, 4, 0, 0, 0) MC_REG("C08", "guards-5", guards_seq, 5, 0, 0, MCF_THOROUGH)
// plain owners: every sequence of lock / try_lock / unlock by two addresses on one thread
static void plain_seq(int len)
{
	mutex_t m; mutex_t c = m; int own = 0, depth = 0; int a[3];
	for (int i = 0; i < len; ++i)
	{
		int w = 1 + mc_choose(2);
		switch (mc_choose(4))
		{
		case 0: if (own == 0 || own == w) { m.lock(&a[w]); own = w; depth++; } else { bool r = c.try_lock_for(0ms, &a[w]); REQUIRE(!r, "a second owner was admitted"); } break;
		case 1: { bool r = c.try_lock(&a[w]); REQUIRE(r == (own == 0 || own == w), "try_lock returned %d", r); if (r) { own = w; depth++; } break; }
		case 2: if (own == w) { c.unlock(&a[w]); if (--depth == 0) own = 0; } break;
		case 3: if (own != w) m.unlock(&a[w]); break;	// not the owner: nothing happens
		}
		REQUIRE(m.is_locked() == (own != 0), "is_locked is wrong");
	}
	while (depth--) m.unlock(&a[own]);
	REQUIRE(rests_free(m), "still locked after as many unlocks as locks");
}
MC_REG("C08", "plain-5", plain_seq, 5, 0, 0, 0) MC_REG("C08", "plain-7", plain_seq, 7, 0, 0, MCF_THOROUGH)
// deep recursion, by one coroutine, by nested coroutines and by plain code
static future_t<> nest(mutex_t m, int n, int* in) { auto g = co_await m.lock(); ++*in; if (n) co_await nest(m, n - 1, in); mc_progress(); REQUIRE(m.is_locked(), "is_locked is false while the mutex is held"); }
static void recursion(int n)
{
	local_scheduler_t ls; mutex_t m; int a, b, in = 0; bool fin = false;
	for (int i = 0; i < n; ++i) { mc_progress(); if (i % 2) m.lock(&a); else REQUIRE(m.try_lock(&a), "try_lock by the owner failed"); }
	for (int i = 0; i < n; ++i) { mc_progress(); if (i < 3 || i > n - 3 || i % 100 == 0) { REQUIRE(m.is_locked(), "free after %d unlocks of %d locks", i, n); REQUIRE(!m.try_lock(&b), "a second owner after %d unlocks of %d locks", i, n); } m.unlock(&a); }
	REQUIRE(!m.is_locked() && m.try_lock(&b), "not free after as many unlocks as locks"); m.unlock(&b);
	auto co = [&]() -> future_t<> { for (int i = 0; i < n; ++i) { mc_progress(); co_await m.lock(adopt_manual_unlock); } for (int i = 0; i < n; ++i) { mc_progress(); REQUIRE(m.is_locked(), "free after %d unlocks of %d locks", i, n); co_await m.unlock(); } REQUIRE(!m.is_locked(), "not free after as many unlocks as locks"); fin = true; };
	go co(); drain(); REQUIRE(fin, "a coroutine waits for ever"); if (n < 500) { go nest(m, n, &in); drain(); REQUIRE(in == n + 1 && rests_free(m), "not free after as many unlocks as locks"); }
}
MC_REG("C08", "recursion-130", recursion, 130, 0, 0, MCF_LONG) MC_REG("C08", "recursion-300", recursion, 300, 0, 0, MCF_LONG) MC_REG("C08", "recursion-70000", recursion, 70000, 0, 0, MCF_LONG)
// a mutex held for long: a plain waiter goes on waiting, and try_lock goes on failing
static void held_long(int kind)
{
	mutex_t m; char a, b;
	long_wait([&] { m.lock(&a); }, [&] {
		if (kind == 0) m.lock(&b); else if (kind == 1) { while (!m.try_lock(&b)) mc_point(); } else { local_scheduler_t ls; auto f = [&]() -> future_t<> { if (kind == 2) { auto g = co_await m.lock(); } else { while (!co_await m.try_lock()) co_await yield(); co_await m.unlock(); } }; go f(); drain(); return; }
		REQUIRE(!m.try_lock(&a), "two owners"); m.unlock(&b); }, [&] { REQUIRE(!m.try_lock(&b), "two owners"); m.unlock(&a); });
	REQUIRE(rests_free(m), "the mutex is not free at the end");
}
MC_REG("C08", "held-long-plain", held_long, 0, 0, 0, MCF_LONG) MC_REG("C08", "held-long-try", held_long, 1, 0, 0, MCF_LONG) MC_REG("C08", "held-long-co", held_long, 2, 0, 0, MCF_LONG) MC_REG("C08", "held-long-co-try", held_long, 3, 0, 0, MCF_LONG)
MC_REG("C08", "again-33000", endure::mutexes, 33000, 0, 0, MCF_LONG)
MC_REG("C08", "deep-70000", endure::deep_mutex, 70000, 0, 0, MCF_LONG)
