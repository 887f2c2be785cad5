#include "prog.h"
#include "endure.h"
PROG("C09", "2-locks", "S:L0 U0|S:L0 U0", 4, 7, 0)
PROG("C09", "2-guards", "S:G0 g0|S:G0 g0", 3, 6, 0)
PROG("C09", "3-locks", "S:L0 U0|S:L0 U0|S:L0 U0", 2, 3, 0)
PROG("C09", "queue-of-2", "S:L0 y U0,L0 U0|S:L0 U0", 2, 4, 0)
PROG("C09", "queue-of-3-one-thread", "S:L0 y y U0,L0 U0,L0 U0,L0 U0", 0, 0, 0)
PROG("C09", "queue-of-2-and-plain-owner", "S:L0 U0|S:L0 U0|P:L0 U0", 2, 3, 0)
PROG("C09", "plain-owner-unlocks", "S:L0 U0,L0 U0|P:L0 U0 L0 U0", 2, 4, 0)
PROG("C09", "plain-waits", "S:L0 y U0 L0 U0|P:L0 U0", 3, 4, 0)
PROG("C09", "2-plain-1-co", "S:L0 U0|P:L0 U0|P:L0 U0", 1, 3, 0)
PROG("C09", "relock", "S:L0 U0 L0 U0|S:L0 U0 L0 U0", 2, 4, 0)
PROG("C09", "recursive-owner", "S:L0 L0 U0 U0|S:L0 U0|P:L0 U0", 1, 3, 0)
PROG("C09", "recursive-waiter", "S:L0 (L0 U0) U0|S:L0 (L0 U0) U0", 3, 5, 0)
PROG("C09", "waits-in-child", "S:L0 y U0|S:(L0 U0) (L0 U0)", 3, 5, 0)
PROG("C09", "timed-in-the-queue", "S:L0 z2 U0|S:l0.1 L0 U0|S:L0 U0|P:+3", 1, 2, 0)
PROG("C09", "timed-in-the-queue-one-thread", "S:L0 z3 U0,l0.1,L0 U0,l0.2,L0 U0|P:+2 +2", 1, 3, 0)
PROG("C09", "timed-waiter-gets-it", "S:L0 y U0,l0.9,L0 U0|P:K0", 2, 3, 0)
PROG("C09", "trying-does-not-strand", "S:L0 U0|S:L0 U0|P:K0 K0", 2, 4, 0)
PROG("C09", "unlock-from-child", "S:L0 (y U0)|S:L0 (U0)", 3, 5, 0)
PROG("C09", "guard-from-child", "S:(G0 g0) L0 U0|S:(G0 (y g0) y)", 2, 4, 0)
PROG("C09", "two-mutexes", "S:L0 L1 U0 U1|S:L1 U1 L0 U0|P:L0 U0", 1, 2, 0)
PROG("C09", "four", "S:L0 U0|S:L0 U0|P:L0 U0|P:L0 U0", 1, 2, MCF_THOROUGH)
// one scheduler: every order in which owners and waiters of mixed kinds arrive and release
static future_t<> user(int id, int kind, mutex_t m, int* live, int* seqno)
{
	Who me{ id, 0 }; ++*live;
	int o = call(me, OP_LOCK, 0, 0, kind == 2); bool got = true;
	if (kind == 0) { co_await m.lock(adopt_manual_unlock); }
	else if (kind == 1)
	{
		auto g = co_await m.lock(); ret(o, 1); acquired(0, id); ++*seqno;
		if (mc_choose(2)) co_await yield();
		releasing(0); o = call(me, OP_UNLOCK, 0); g.unlock(); ret(o, 0); --*live; co_return;
	}
	else got = co_await m.try_lock_for(3ms);
	ret(o, got);
	if (got)
	{
		acquired(0, id); ++*seqno;
		int y = mc_choose(3); if (y == 1) co_await yield(); if (y == 2) co_await sleep_for(2ms);
		releasing(0); o = call(me, OP_UNLOCK, 0); co_await m.unlock(); ret(o, 0);
	}
	--*live;
}
static void orders(int n)
{
	local_scheduler_t ls; mutex_t m; int live = 0, got = 0; int addr; Who me{ 60, 0 };
	bool first = mc_choose(2);
	if (first) { int o = call(me, OP_PLOCK, 0); m.lock(&addr); ret(o, 1); acquired(0, 60); }
	for (int i = 0; i < n; ++i) { go user(i + 1, mc_choose(3), m, &live, &got); if (mc_choose(2)) { batches(9); mc_log(LOG_QUIET, 0, 0); } }
	if (first) { batches(2); if (mc_choose(2)) { mc_advance(4 * MS); batches(2); } releasing(0); int o = call(me, OP_UNLOCK, 0); m.unlock(&addr); ret(o, 0); }
	drain(); mc_log(LOG_QUIET, 0, 0);
	REQUIRE(live == 0, "a waiter is stranded"); REQUIRE(rests_free(m), "the mutex is still locked");
	int z[1] = { 0 }; REQUIRE(mc_lin(z, nullptr, 1, nullptr, 0) == 1, "the history is not one of a FIFO mutex");
}
MC_REG("C09", "orders-3", orders, 3, 0, 0, 0) MC_REG("C09", "orders-4", orders, 4, 0, 0, MCF_THOROUGH)
// a long queue of waiters, served in the order of their arrival, also from a plain owner
static void queue(int n)
{
	local_scheduler_t ls; mutex_t m; int a, next = 0, own = 0; m.lock(&a);
	auto u = [&](int i) -> future_t<> { if (i % 3 == 0) { auto g = co_await m.lock(); REQUIRE(own++ == 0, "two owners"); REQUIRE(next == i, "waiter %d got the mutex as number %d", i, next); next++; co_await yield(); own--; } else { if (i % 3 == 1) co_await m.lock(adopt_manual_unlock); else REQUIRE(co_await m.try_lock_for(100ms), "a timed lock gave up before its deadline"); REQUIRE(own++ == 0, "two owners"); REQUIRE(next == i, "waiter %d got the mutex as number %d", i, next); next++; own--; co_await m.unlock(); } };
	for (int i = 0; i < n; ++i) { mc_progress(); go u(i); } batches(2); REQUIRE(next == 0, "a second owner was admitted");
	m.unlock(&a); REQUIRE(m.is_locked(), "the mutex is free although coroutines wait"); for (int i = 0; i < 6 * n && next < n; ++i) batches(1); batches(4); REQUIRE(next == n, "%d of %d waiters got the mutex", next, n); REQUIRE(rests_free(m), "the mutex is still locked"); drain();
}
MC_REG("C09", "queue-10", queue, 10, 0, 0, MCF_LONG) MC_REG("C09", "queue-300", queue, 300, 0, 0, MCF_LONG)
MC_REG("C09", "again-66000", endure::queues, 66000, 0, 0, MCF_LONG)
MC_REG("C09", "wide-70000", endure::wide_mutex, 70000, 0, 0, MCF_LONG)
