#include "prog.h"
#include "endure.h"
PROG("C06", "expiry-vs-signal", "S:t0.2|P:s0", 4, 6, 0)
PROG("C06", "expiry-vs-signal-clock", "S:t0.2|P:s0|P:+3", 3, 4, 0)
PROG("C06", "expiry-vs-signal-next", "S:t0.2 t0.2|P:s0|P:+2 +2", 2, 3, 0)
PROG("C06", "two-timed", "S:t0.2,t0.4|P:s0|P:+3", 2, 3, 0)
PROG("C06", "two-timed-two-threads", "S:t0.2|S:t0.2|P:s0", 2, 3, 0)
PROG("C06", "timed-and-plain", "S:t0.2,w0|P:s0 +3 s0", 3, 4, 0)
PROG("C06", "timed-and-plain-2", "S:w0,t0.2|P:s0 +3 s0", 3, 4, 0)
PROG("C06", "timed-and-plain-threads", "S:t0.2|S:w0|P:s0 +3|F:s0", 2, 3, 0)
PROG("C06", "signal-all", "S:t0.2,t0.3|P:a0 +3", 3, 5, 0)
PROG("C06", "initially", "I:1|S:t0.2,t0.2|P:+3", 3, 5, 0)
PROG("C06", "two-signals", "S:t0.2,t0.2|P:s0|P:+3 s0", 2, 3, 0)
PROG("C06", "zero", "S:t0.0|P:s0", 4, 6, 0)
PROG("C06", "then-wait", "S:t0.2 w0|P:s0|P:+3|F:s0", 2, 3, 0)
PROG("C06", "in-child", "S:(t0.2) t0.1|P:s0|P:+3", 2, 4, 0)
PROG("C06", "co-signaller", "S:t0.3,z2 s0|P:+2 +2", 2, 4, 0)
PROG("C06", "three-timed", "S:t0.1,t0.3,t0.2|P:+2 s0|P:s0", 1, 3, 0)
PROG("C06", "same-deadline-order", "S:t0.2,t0.2,w0|P:+2 s0|F:s0 s0 s0", 1, 3, 0)
// every sequence of clock steps, signals and batches on one scheduler
static future_t<> timed(int id, event_t e, int ms, bool until, int* live)
{
	Who me{ id, 0 }; int64_t t0 = mc_now(); int o = call(me, OP_WAIT, 0, 1, true); ++*live;
	bool r; if (until) r = co_await e.wait_until(std::chrono::system_clock::now() + std::chrono::milliseconds(ms)); else r = co_await e.wait_for(std::chrono::milliseconds(ms));
	ret(o, r); --*live;
	REQUIRE(r || mc_now() >= t0 + ms * MS, "a timed wait gave up before its deadline");
	if (!r) mc_cell_set(100, 1);
}
static void seq(int len)
{
	local_scheduler_t ls; bool ini = mc_choose(2); event_t e(ini); int id = 1; Who me{ 60, 0 }; int live = 0; int64_t maxdl = 0; int sig = 0;
	bool other = mc_choose(2);	// a second event is unaffected
	for (int i = 0; i < len; ++i)
		switch (mc_choose(4))
		{
		case 0: { sig++; int o = call(me, OP_SIGNAL, 0); e.signal(); ret(o, 0); break; }
		case 1: { int ms = 2 + 2 * mc_choose(2); if (mc_now() + ms * MS > maxdl) maxdl = mc_now() + ms * MS; go timed(id++, e, ms, other, &live); batches(1); break; }
		case 2: mc_advance(2 * MS); break;
		case 3: batches(3); if (mc_now() >= maxdl) REQUIRE(live == 0, "a timed wait goes on after its deadline"); mc_log(LOG_QUIET, 0, 0); break;
		}
	mc_advance(10 * MS); batches(3); REQUIRE(live == 0, "a timed wait goes on after its deadline"); mc_log(LOG_QUIET, 0, 0);
	REQUIRE(this_scheduler()->empty(), "timers or tasks are left"); drain();
	World w; W = &w; w.ev[0] = e; int init[1] = { ini }, left[1] = { stored(0) };
	if (left[0] < 4) REQUIRE(mc_lin(init, left, 1, nullptr, 0) == 1, "the history is not one of counted signals with deadlines"); W = nullptr;
}
MC_REG("C06", "sequences-4", seq, 4, 0, 0, 0) MC_REG("C06", "sequences-5", seq, 5, 0, 0, 0) MC_REG("C06", "sequences-7", seq, 7, 0, 0, MCF_THOROUGH)
// odd durations, in every form
static future_t<> odd(event_t e, int64_t dt, int form, bool* done)
{
	bool r = true;
	switch (form)
	{
	case 0: r = co_await e.wait_for(std::chrono::nanoseconds(dt)); break;
	case 1: r = co_await e.wait_for(std::chrono::duration<double, std::milli>(dt / 1e6)); break;
	case 2: r = co_await e.wait_for(std::chrono::duration<double>(dt / 1e9)); break;
	case 3: r = co_await e.wait_until(std::chrono::system_clock::now() + std::chrono::nanoseconds(dt)); break;
	case 4: r = co_await e.wait_until(std::chrono::time_point_cast<std::chrono::duration<double, std::micro>>(std::chrono::system_clock::now() + std::chrono::nanoseconds(dt))); break;
	}
	REQUIRE(!r, "a wait that nobody signalled returned true"); *done = true;
}
static void odd_all(int) { event_t e(false); odd_durations(4, [=](int64_t dt, int form, bool* done) { go odd(e, dt, form, done); }); }
MC_REG("C06", "odd-durations", odd_all, 0, 0, 0, 0)
// n timed waits at once, some signalled, the others expire; afterwards as many signals as were not used are left
static future_t<> many_wait(event_t e, int ms, int* t, int* f) { bool r = co_await e.wait_for(std::chrono::milliseconds(ms)); ++*(r ? t : f); }
static void many(int n)
{
	local_scheduler_t ls; event_t e(false); int t = 0, f = 0, sig = n / 3;
	for (int i = 0; i < n; ++i) { mc_progress(); go many_wait(e, 1 + i % 5, &t, &f); }
	batches(2); for (int i = 0; i < sig; ++i) e.signal(); batches(3); REQUIRE(t == sig && f == 0, "%d signals released %d of %d timed waits, %d gave up", sig, t, n, f);
	mc_advance(3 * MS); batches(3); for (int i = 0; i < sig; ++i) e.signal(); mc_advance(3 * MS); batches(4);
	REQUIRE(t + f == n, "%d of %d timed waits are left", n - t - f, n); int left = 2 * sig - t;
	int got = 0; auto one = [&]() -> future_t<> { (void)co_await e.wait(); got++; }; for (int i = 0; i <= left; ++i) { mc_progress(); go one(); } batches(3);
	REQUIRE(got == left, "%d signals were sent, %d waits returned true, then %d more", 2 * sig, t, got); e.signal(); drain();
}
MC_REG("C06", "many-300", many, 300, 0, 0, MCF_LONG)
MC_REG("C06", "again-33000", endure::timed_waits, 33000, 0, 0, MCF_LONG)
