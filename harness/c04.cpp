#include "prog.h"
#include "endure.h"
PROG("C04", "1sig-1wait", "S:w0|P:s0", 4, 6, 0)
PROG("C04", "2sig-1wait", "S:w0|P:s0|P:s0", 2, 4, 0)
PROG("C04", "2waiters-2signallers", "S:w0|S:w0|P:s0|P:s0", 1, 3, 0)
PROG("C04", "2waiters-1signaller", "S:w0|S:w0|P:s0 s0", 2, 4, 0)
PROG("C04", "1waiter-twice-2signallers", "S:w0 w0|P:s0|P:s0", 2, 4, 0)
PROG("C04", "initially-signalled", "I:1|S:w0|S:w0|P:s0", 2, 4, 0)
PROG("C04", "initially-signalled-2", "I:1|S:w0 w0|P:s0", 3, 5, 0)
PROG("C04", "same-scheduler", "S:w0,w0,s0 y s0", 0, 0, 0)
PROG("C04", "same-scheduler-and-thread", "S:w0,w0 w0|P:s0 s0 s0", 3, 4, 0)
PROG("C04", "co-signals", "S:w0 s1|S:s0 w1", 3, 4, 0)
PROG("C04", "ping-pong", "S:w0 s1 w0 s1|S:s0 w1 s0 w1", 1, 3, 0)
PROG("C04", "relay", "S:w0 s1|S:w1 s2|S:w2|P:s0", 1, 3, 0)
PROG("C04", "3waiters", "S:w0,w0|S:w0|P:s0 s0|P:s0", 1, 2, 0)
PROG("C04", "3waiters-fifo", "S:w0,w0,w0|P:s0 s0 s0", 2, 4, 0)
PROG("C04", "extra-signals", "S:w0,w0|P:s0 s0|P:s0 s0", 2, 3, 0)
PROG("C04", "child-waits", "S:(w0) w0|P:s0 s0", 3, 4, 0)
PROG("C04", "four", "S:w0|S:w0|S:w0|P:s0|P:s0 s0", 1, 2, MCF_THOROUGH)
// every sequence of operations on one scheduler; a quiescent mark after each step
static future_t<> waiter(int id, event_t e, bool plain_await) { Who me{ id, 0 }; int o = call(me, OP_WAIT, 0, 1); bool r; if (plain_await) r = co_await e; else r = co_await e.wait(); ret(o, r); }
static void seq(int len)
{
	local_scheduler_t ls; bool ini = mc_choose(2); event_t e(ini); event_t copy = e; int id = 1; Who me{ 60, 0 }; int nw = 0, ns = ini;
	for (int i = 0; i < len; ++i)
		switch (mc_choose(3))
		{
		case 0: { ns++; int o = call(me, OP_SIGNAL, 0); (i & 1 ? copy : e).signal(); ret(o, 0); if (mc_choose(2)) break; batches(3); mc_log(LOG_QUIET, 0, 0); break; }
		case 1: nw++; go waiter(id++, e, i & 1); batches(3); mc_log(LOG_QUIET, 0, 0); break;
		case 2: nw++; go waiter(id++, copy, i & 1); break;
		}
	batches(4); mc_log(LOG_QUIET, 0, 0);
	while (ns < nw) { int o = call(me, OP_SIGNAL, 0); e.signal(); ret(o, 0); ns++; }
	drain();
	World w; W = &w; w.ev[0] = e; int init[1] = { ini }, left[1] = { stored(0) };
	REQUIRE(left[0] == (ns - nw > 4 ? 4 : ns - nw), "%d signals stored, %d expected", left[0], ns - nw);
	REQUIRE(mc_lin(init, nullptr, 1, nullptr, 0) == 1, "the history is not one of counted signals"); W = nullptr;
}
MC_REG("C04", "sequences-4", seq, 4, 0, 0, 0) MC_REG("C04", "sequences-6", seq, 6, 0, 0, 0) MC_REG("C04", "sequences-8", seq, 8, 0, 0, MCF_THOROUGH)
// large counts: n stored signals release n waits, n waits are released in order
static void many(int n)
{
	local_scheduler_t ls; event_t e(false); int got = 0;
	for (int i = 0; i < n; ++i) { mc_progress(); e.signal(); }
	auto eat = [&](int k) -> future_t<> { for (int i = 0; i < k; ++i) { mc_progress(); bool r = co_await e.wait(); REQUIRE(r, "wait returned false"); got++; } };
	go eat(n + 1); batches(3); REQUIRE(got == n, "%d signals released %d waits", n, got); e.signal(); batches(3); REQUIRE(got == n + 1, "a signal did not release the waiting coroutine");
	if (n > 2000) { drain(); return; }
	int next = 0; auto w = [&](int i) -> future_t<> { (void)co_await e.wait(); REQUIRE(next == i, "waiter %d was released as number %d", i, next); next++; };
	for (int i = 0; i < n; ++i) { mc_progress(); go w(i); } batches(2); REQUIRE(next == 0, "a wait returned without signal");
	for (int i = 0; i < n / 2; ++i) e.signal(); batches(3); REQUIRE(next == n / 2, "%d signals released %d waits", n / 2, next); for (int i = n / 2; i < n; ++i) e.signal(); batches(3); REQUIRE(next == n, "%d signals released %d waits", n, next); drain();
}
MC_REG("C04", "many-3", many, 3, 0, 0, MCF_LONG) MC_REG("C04", "many-130", many, 130, 0, 0, MCF_LONG) MC_REG("C04", "many-300", many, 300, 0, 0, MCF_LONG) MC_REG("C04", "many-70000", many, 70000, 0, 0, MCF_LONG)
// a default event holds no signal, an initially signalled one exactly one; an empty event takes over another one
static void fresh(int)
{
	local_scheduler_t ls; event_t d; event_t s(true); event_t empty(std::adopt_lock); empty = d; int gd = 0, gs = 0, ge = 0;
	auto eat = [&](event_t e, int& g) -> future_t<> { for (int i = 0; i < 2; ++i) { bool r = co_await e; REQUIRE(r, "wait returned false"); g++; } };
	go eat(d, gd); go eat(s, gs); batches(3); REQUIRE(gd == 0, "a default event was signalled"); REQUIRE(gs == 1, "an initially signalled event released %d waits", gs);
	empty.signal(); batches(3); REQUIRE(gd == 1, "a signal on a copy did not reach the waiter"); s.signal(); d.signal(); batches(3); REQUIRE(gd == 2 && gs == 2, "%d and %d waits returned", gd, gs);
	go eat(empty, ge); batches(3); REQUIRE(ge == 0, "a wait returned without a signal"); d.signal(); d.signal(); batches(4); REQUIRE(ge == 2, "%d of 2 waits returned", ge); drain();
}
MC_REG("C04", "constructors", fresh, 0, 0, 0, 0)
MC_REG("C04", "wide-70000", endure::wide_waiters, 70000, 0, 0, MCF_LONG)
