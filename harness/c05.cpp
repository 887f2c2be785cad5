#include "prog.h"
#include "endure.h"
// F signals afterwards, so that whoever is still (rightly) waiting ends
PROG("C05", "all-vs-1wait", "S:w0|P:a0|F:s0", 4, 6, 0)
PROG("C05", "all-vs-2wait", "S:w0|S:w0|P:a0|F:s0 s0", 2, 4, 0)
PROG("C05", "all-vs-2wait-one-thread", "S:w0,w0|P:a0|F:s0 s0", 3, 5, 0)
PROG("C05", "all-vs-rewait", "S:w0 w0|P:a0|F:s0 s0", 3, 5, 0)
PROG("C05", "all-and-signal", "S:w0,w0|P:a0|P:s0|F:s0 s0", 2, 3, 0)
PROG("C05", "all-and-signal-rewait", "S:w0 w0|P:a0|P:s0|F:s0", 2, 4, 0)
PROG("C05", "all-twice", "S:w0,w0|P:a0|P:a0|F:s0 s0", 2, 3, 0)
PROG("C05", "all-all-in-turn", "S:w0 w0,w0|P:a0 a0|F:s0 s0 s0", 2, 4, 0)
PROG("C05", "reset-vs-signal-wait", "S:w0|P:s0|P:r0|F:s0", 2, 4, 0)
PROG("C05", "reset-vs-initial-wait", "I:1|S:w0|P:r0|F:s0", 4, 6, 0)
PROG("C05", "reset-vs-initial-2wait", "I:1|S:w0|S:w0|P:r0|F:s0 s0", 2, 4, 0)
PROG("C05", "reset-vs-initial-wait-wait", "I:1|S:w0 w0|P:r0|F:s0 s0", 3, 5, 0)
PROG("C05", "reset-vs-two-waits", "S:w0,w0|P:s0 s0 r0|F:s0 s0", 2, 4, 0)
PROG("C05", "reset-signal-in-turn", "S:w0|P:s0 r0 s0|F:s0", 3, 5, 0)
PROG("C05", "reset-by-coroutine", "I:1|S:r0 t0.2|S:s0", 3, 5, 0)
PROG("C05", "reset-reset", "I:1|S:w0|P:r0|P:r0|F:s0", 3, 4, 0)
PROG("C05", "reset-twice-then-wait", "I:1|S:w0|S:r0 r0 t0.2 s0", 4, 5, 0)
PROG("C05", "reset-vs-timed", "I:1|S:t0.2|P:r0", 3, 5, 0)
PROG("C05", "all-vs-timed", "S:t0.2|P:a0|P:+3", 2, 4, 0)
PROG("C05", "reset-all-signal", "I:1|S:w0|P:r0 a0|P:s0|F:s0", 1, 3, 0)
PROG("C05", "all-by-woken", "S:w0 a1|S:w1|P:a0|F:s0 s1", 1, 3, 0)
PROG("C05", "two-events", "S:w0 w1|P:a0 a1|P:s1 r1|F:s0 s1", 1, 3, 0)
static future_t<> waiter(int id, event_t e) { Who me{ id, 0 }; int o = call(me, OP_WAIT, 0, 1); bool r = co_await e; ret(o, r); }
// every sequence on one scheduler, with a quiescent mark wherever the batch is run
static void seq(int len)
{
	local_scheduler_t ls; bool ini = mc_choose(2); event_t e(ini); int id = 1; Who me{ 60, 0 }; int nw = 0;
	for (int i = 0; i < len; ++i)
		switch (mc_choose(5))
		{
		case 0: { int o = call(me, OP_SIGNAL, 0); e.signal(); ret(o, 0); break; }
		case 1: { int o = call(me, OP_SIGNAL_ALL, 0); e.signal_all(); ret(o, 0); break; }
		case 2: { int o = call(me, OP_RESET, 0); e.reset(); ret(o, 0); break; }
		case 3: nw++; go waiter(id++, e); batches(3); mc_log(LOG_QUIET, 0, 0); break;
		case 4: batches(3); mc_log(LOG_QUIET, 0, 0); break;
		}
	batches(4); mc_log(LOG_QUIET, 0, 0);
	for (int i = 0; i < nw; ++i) { int o = call(me, OP_SIGNAL, 0); e.signal(); ret(o, 0); }
	drain(); mc_log(LOG_QUIET, 0, 0);
	World w; W = &w; w.ev[0] = e; e.reset(); { int o = call(me, OP_RESET, 0); e.reset(); ret(o, 0); }
	int init[1] = { ini }, left[1] = { stored(0) }; REQUIRE(left[0] == 0, "reset left %d signals", left[0]);
	REQUIRE(mc_lin(init, left, 1, nullptr, 0) == 1, "the history is not one of counted signals with reset and signal-all"); W = nullptr;
}
MC_REG("C05", "sequences-4", seq, 4, 0, 0, 0) MC_REG("C05", "sequences-5", seq, 5, 0, 0, 0) MC_REG("C05", "sequences-7", seq, 7, 0, 0, MCF_THOROUGH)
// large numbers of waiters and of stored signals; timed ones and wait_all among them
static void many(int n)
{
	local_scheduler_t ls; event_t e(false), e2(false); int got = 0; auto w = [&](int i) -> future_t<> { bool r; if (i % 3 == 0) r = co_await e.wait_for(100ms); else if (i % 3 == 1) r = co_await e.wait(); else { e2.signal(); r = co_await event_t::wait_all(std::vector<event_t>{ e, e2 }); } REQUIRE(r, "a wait returned false"); got++; };
	for (int i = 0; i < n; ++i) { mc_progress(); go w(i); } batches(3); REQUIRE(got == 0, "a wait returned without signal");
	e.signal_all(); go w(1); batches(4); REQUIRE(got == n, "signal_all released %d of %d waiters", got, n); e.signal(); batches(3); REQUIRE(got == n + 1, "a signal did not release the waiter");
	e.signal_all(); go w(1); batches(3); REQUIRE(got == n + 1, "signal_all without waiters was remembered");
	e.signal(); batches(3); for (int i = 0; i < n; ++i) e.signal(); e.reset(); go w(1); batches(3); REQUIRE(got == n + 2, "reset left signals"); e.signal(); drain(); REQUIRE(got == n + 3, "a signal did not release the waiter");
}
MC_REG("C05", "many-3", many, 3, 0, 0, MCF_LONG) MC_REG("C05", "many-300", many, 300, 0, 0, MCF_LONG)
MC_REG("C05", "again-66000", endure::broadcasts, 66000, 0, 0, MCF_LONG)
MC_REG("C05", "wide-70000", endure::wide_broadcast, 70000, 0, 0, MCF_LONG)
