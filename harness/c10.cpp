#include "prog.h"
#include "endure.h"
PROG("C10", "expiry-vs-unlock", "S:L0 z2 U0|S:l0.2", 1, 3, 0)
PROG("C10", "expiry-vs-unlock-by-clock", "S:L0 y U0|S:l0.2|P:+3", 2, 3, 0)
PROG("C10", "expiry-vs-plain-unlock", "S:l0.2|P:L0 +3 U0", 3, 5, 0)
PROG("C10", "expiry-vs-plain-unlock-clock", "S:l0.2|P:L0 U0|P:+3", 2, 4, 0)
PROG("C10", "one-scheduler", "S:L0 z3 U0,l0.2,l0.4|P:+2 +2", 2, 3, 0)
PROG("C10", "one-scheduler-equal", "S:L0 z2 U0,l0.2,l0.2|P:+2 +2", 2, 3, 0)
PROG("C10", "two-timed", "S:l0.1|S:l0.3|P:L0 +2 U0", 1, 2, 0)
PROG("C10", "two-timed-one-thread", "S:l0.1,l0.3|P:L0 +2 U0", 2, 4, 0)
PROG("C10", "timed-then-plain", "S:l0.1 L0 U0|P:L0 +2 U0", 2, 4, 0)
PROG("C10", "timed-then-waiter", "S:l0.1,L0 U0|P:L0 +2 U0", 2, 4, 0)
PROG("C10", "timed-twice", "S:l0.1 l0.1|P:L0 +1 U0 +1", 2, 4, 0)
PROG("C10", "timed-kept", "S:m0.2 y u0|P:L0 U0 K0 +3", 2, 4, 0)
PROG("C10", "free-mutex", "S:l0.0|S:l0.1", 2, 4, 0)
PROG("C10", "zero", "S:l0.0|P:L0 U0", 3, 5, 0)
PROG("C10", "in-child", "S:(l0.2) (l0.1)|P:L0 +2 U0", 2, 4, 0)
PROG("C10", "recursive", "S:L0 l0.1 U0|P:K0|P:+2", 2, 4, 0)
PROG("C10", "plain-timed", "P:L0 +2 U0|P:l0.1|P:l0.3", 1, 3, 0)
PROG("C10", "plain-timed-vs-co", "S:L0 z2 U0|P:l0.1|P:+3", 2, 3, 0)
PROG("C10", "the-root-ends", "S:l0.1,L0 z4 U0,z2 L0 U0|P:+2 +2", 2, 3, 0)
PROG("C10", "two-mutexes", "S:l0.2 l1.2|P:L0 L1 +1 U1 U0 +2", 2, 3, 0)
// every sequence of clock steps, unlocks and batches on one scheduler, with for and until
static future_t<> timed(int id, mutex_t m, int ms, bool until, int* live, int* own)
{
	Who me{ id, 0 }; int64_t t0 = mc_now(); int o = call(me, OP_LOCK, 0, 0, true); ++*live; bool r;
	if (until) r = co_await m.try_lock_until(std::chrono::system_clock::now() + std::chrono::milliseconds(ms)); else r = co_await m.try_lock_for(std::chrono::milliseconds(ms));
	ret(o, r); --*live;
	if (r) { REQUIRE(*own == 0, "two owners hold the mutex"); *own = id; acquired(0, id); if (mc_choose(2)) co_await yield(); *own = 0; releasing(0); o = call(me, OP_UNLOCK, 0); co_await m.unlock(); ret(o, 0); }
	else REQUIRE(mc_now() >= t0 + ms * MS, "a timed lock gave up before its deadline");
}
static future_t<> patient(int id, mutex_t m, int* own)
{
	Who me{ id, 0 }; int o = call(me, OP_LOCK, 0); co_await m.lock(adopt_manual_unlock); ret(o, 1); acquired(0, id); REQUIRE(*own == 0, "two owners hold the mutex");
	releasing(0); o = call(me, OP_UNLOCK, 0); co_await m.unlock(); ret(o, 0);
}
static void seq(int len)
{
	local_scheduler_t ls; mutex_t m; int id = 1, live = 0, own = 0, addr, p = 0; Who me{ 60, 0 }; int64_t maxdl = 0; bool held = false;
	bool until = mc_choose(2);
	auto toggle = [&] {
		if (held) { held = false; own = 0; releasing(0); int o = call(me, OP_UNLOCK, 0); m.unlock(&addr); ret(o, 0); }
		else { int o = call(me, OP_TRY, 0); bool r = m.try_lock(&addr); ret(o, r); if (r) { REQUIRE(own == 0, "two owners hold the mutex"); own = 60; acquired(0, 60); held = true; } }
	};
	toggle();
	for (int i = 0; i < len; ++i)
		switch (mc_choose(5))
		{
		case 0: toggle(); break;
		case 1: { int ms = 2 + 2 * mc_choose(2); if (mc_now() + ms * MS > maxdl) maxdl = mc_now() + ms * MS; go timed(id++, m, ms, until, &live, &own); batches(1); break; }
		case 2: mc_advance(2 * MS); break;
		case 3: batches(3); if (mc_now() >= maxdl) { batches(6); REQUIRE(live == 0, "a timed lock goes on after its deadline"); } break;
		case 4: if (p++ == 0) { go patient(id++, m, &own); batches(1); } break;
		}
	mc_advance(10 * MS); batches(12); REQUIRE(live == 0, "a timed lock goes on after its deadline");
	if (held) toggle();
	batches(9); REQUIRE(this_scheduler()->empty(), "timers or tasks are left"); drain(); mc_log(LOG_QUIET, 0, 0);
	REQUIRE(rests_free(m), "the mutex is owned by nobody's code");
	int z[1] = { 0 }; REQUIRE(mc_lin(z, nullptr, 1, nullptr, 0) == 1, "the history is not one of a mutex with deadlines");
}
MC_REG("C10", "sequences-4", seq, 4, 0, 0, 0) MC_REG("C10", "sequences-5", seq, 5, 0, 0, 0) MC_REG("C10", "sequences-6", seq, 6, 0, 0, MCF_THOROUGH)
// the mutex is dropped by everybody else while a timed-out waiter is still recorded in it
static void dropped(int)
{
	local_scheduler_t ls; int live = 0, own = 0, addr;
	{
		mutex_t m; m.lock(&addr); go timed(1, m, 1, false, &live, &own); batches(1); mc_advance(2 * MS); batches(2);
		REQUIRE(live == 0, "a timed lock goes on after its deadline");
		if (mc_choose(2)) m.unlock(&addr);
	}
	drain();
}
MC_REG("C10", "dropped", dropped, 0, 0, 0, 0)
// plain code: both forms of the timed lock, against every moment of an unlock by another thread or nobody
static void plain_until(int)
{
	mutex_t m; int a, b; bool held = mc_choose(2); int ms = mc_choose(3); if (held) m.lock(&a);
	bool other = mc_choose(2); int t = -1;
	if (other) t = thr([&] { mc_advance(2 * MS); if (held) m.unlock(&a); mc_advance(2 * MS); });
	int64_t t0 = mc_now(); bool r = m.try_lock_until(std::chrono::system_clock::now() + std::chrono::milliseconds(ms), &b);
	REQUIRE(r || mc_now() >= t0 + ms * MS, "a timed lock gave up before its deadline");
	REQUIRE(held || r, "a free mutex was not locked"); REQUIRE(!(held && !other) || !r, "a second owner was admitted");
	if (r) m.unlock(&b);
	if (other) mc_join(t); else if (held) m.unlock(&a);
	REQUIRE(rests_free(m), "the mutex is still locked");
}
MC_REG("C10", "plain-until", plain_until, 0, 2, 4, 0)
// odd durations, in every form, for coroutines and plain code
static future_t<> odd(mutex_t m, int64_t dt, int form, bool* done)
{
	bool r = true;
	switch (form)
	{
	case 0: r = co_await m.try_lock_for(std::chrono::nanoseconds(dt)); break;
	case 1: r = co_await m.try_lock_for(std::chrono::duration<double, std::milli>(dt / 1e6)); break;
	case 2: r = co_await m.try_lock_until(std::chrono::system_clock::now() + std::chrono::nanoseconds(dt)); break;
	}
	REQUIRE(!r, "a second owner was admitted"); *done = true;
}
static void odd_all(int) { mutex_t m; int a; m.lock(&a); odd_durations(3, [=](int64_t dt, int form, bool* done) { go odd(m, dt, form, done); }); m.unlock(&a); REQUIRE(rests_free(m), "the mutex is still locked"); }
MC_REG("C10", "odd-durations", odd_all, 0, 0, 0, 0)
static void odd_plain(int)
{
	static const int64_t D[] = { -1, 0, 1, 400000, 999999, 1000001, 2500000, 7000000 };
	mutex_t m; int a, b; m.lock(&a); int64_t dt = D[mc_choose(8)], t0 = mc_now(); int form = mc_choose(3); bool r = true;
	if (form == 0) r = m.try_lock_for(std::chrono::nanoseconds(dt), &b); else if (form == 1) r = m.try_lock_for(std::chrono::duration<double, std::milli>(dt / 1e6), &b); else r = m.try_lock_until(std::chrono::system_clock::now() + std::chrono::nanoseconds(dt), &b);
	REQUIRE(!r, "a second owner was admitted"); REQUIRE(mc_now() >= t0 + dt - (form == 1 ? 2 : 0), "a timed lock gave up before its deadline"); m.unlock(&a); REQUIRE(rests_free(m), "still locked");
}
MC_REG("C10", "odd-plain", odd_plain, 0, 0, 0, 0)
// many timed waiters; those that are not served expire, the others own it one after the other
static void many(int n)
{
	local_scheduler_t ls; mutex_t m; int a, yes = 0, no = 0; m.lock(&a); int own = 0;
	auto w = [&](int i) -> future_t<> { bool r = co_await m.try_lock_for(std::chrono::milliseconds(1 + i % 4)); if (r) { REQUIRE(own++ == 0, "two owners hold the mutex"); co_await yield(); own--; yes++; co_await m.unlock(); } else no++; };
	for (int i = 0; i < n; ++i) { mc_progress(); go w(i); }
	batches(2); mc_advance(2 * MS); batches(3); int expired = 0; for (int i = 0; i < n; ++i) expired += 1 + i % 4 <= 2; REQUIRE(no == expired && yes == 0, "%d of %d timed waiters expired, %d expected", no, n, expired);
	m.unlock(&a); for (int i = 0; i < 4 * n && yes + no < n; ++i) { batches(1); } REQUIRE(yes == n - expired, "%d of %d waiters got the mutex", yes, n - expired); drain(); REQUIRE(rests_free(m), "still locked");
}
MC_REG("C10", "many-200", many, 200, 0, 0, MCF_LONG)
// a mutex held for long, but not past the deadline
static void held_long(int kind)
{
	mutex_t m; char a, b;
	long_wait([&] { m.lock(&a); }, [&] {
		if (kind < 2) { bool r = kind ? m.try_lock_until(std::chrono::system_clock::now() + 1h, &b) : m.try_lock_for(1h, &b); REQUIRE(r, "the wait ended an hour early"); m.unlock(&b); }
		else { local_scheduler_t ls; int n = 0; auto f = [&]() -> future_t<> { bool r = co_await m.try_lock_for(1h); REQUIRE(r, "the wait ended an hour early"); n++; co_await m.unlock(); }; go f(); while (!n) this_scheduler()->run_one_batch(); mc_advance(2 * 3600000 * MS); drain(); }
	}, [&] { m.unlock(&a); });
	REQUIRE(rests_free(m), "the mutex is not free at the end");
}
MC_REG("C10", "held-long-plain", held_long, 0, 0, 0, MCF_LONG) MC_REG("C10", "held-long-plain-until", held_long, 1, 0, 0, MCF_LONG) MC_REG("C10", "held-long-co", held_long, 2, 0, 0, MCF_LONG)
MC_REG("C10", "again-33000", endure::timed_mutexes, 33000, 0, 0, MCF_LONG)
