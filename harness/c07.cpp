#include "prog.h"
#include "endure.h"
PROG("C07", "all-2-one-signaller", "S:w01|P:s0 s1", 3, 5, 0)
PROG("C07", "all-2-two-signallers", "S:w01|P:s0|P:s1", 2, 4, 0)
PROG("C07", "all-presignalled", "I:11|S:w01", 3, 5, 0)
PROG("C07", "all-presignalled-thread", "I:11|S:w01|P:s0", 2, 4, 0)
PROG("C07", "all-half-presignalled", "I:10|S:w01|P:s1", 3, 5, 0)
PROG("C07", "all-half-presignalled-2", "I:01|S:w01|P:s0 s1", 3, 4, 0)
PROG("C07", "all-3", "I:010|S:w012|P:s0|P:s2", 2, 3, 0)
PROG("C07", "all-and-single", "S:w01,w0|P:s0 s0 s1", 2, 4, 0)
PROG("C07", "single-and-all", "S:w0,w01|P:s0 s1 s0", 2, 4, 0)
PROG("C07", "two-alls", "S:w01,w01|P:s0 s1 s0 s1", 2, 3, 0)
PROG("C07", "two-alls-crossed-threads", "S:w01|S:w01|P:s0 s1|P:s1 s0", 1, 2, 0)
PROG("C07", "twice", "S:w01 w01|P:s0 s1|P:s0 s1", 1, 3, 0)
PROG("C07", "all-signal-all", "S:w01|P:a0 s1|F:s0 s1", 2, 4, 0)
PROG("C07", "for-signalled", "S:t01.5|P:s0 s1", 3, 4, 0)
PROG("C07", "for-expiry-race-1", "S:t01.2|P:s0 s1|P:+3", 2, 3, 0)
PROG("C07", "for-expiry-race-2", "S:t01.2|P:s0|P:s1", 2, 3, 0)
PROG("C07", "for-expires", "S:t01.2|P:s0 +3", 3, 5, 0)
PROG("C07", "for-expires-late-signal", "S:t01.2|P:s0 +3 s1", 3, 4, 0)
PROG("C07", "for-presignalled", "I:11|S:t01.2|P:+3", 3, 4, 0)
PROG("C07", "for-then-wait", "S:t01.2 w1|P:s1 +3 s1|F:s1", 2, 3, 0)
PROG("C07", "for-and-single", "S:t01.2,w0|P:s0 +3 s0", 2, 3, 0)
PROG("C07", "child", "S:(w01) w0|P:s0 s1 s0", 2, 4, 0)
static future_t<> none(int* n) { std::vector<event_t> v; bool r = co_await event_t::wait_all(v); REQUIRE(r, "wait_all of nothing returned false"); r = co_await event_t::wait_all(v.begin(), v.end()); REQUIRE(r, "wait_all of nothing returned false"); ++*n; }
static void empty_list(int) { local_scheduler_t ls; int n = 0; go none(&n); batches(2); REQUIRE(n == 1, "wait_all of an empty list did not return"); drain(); }
MC_REG("C07", "empty-list", empty_list, 0, 0, 0, 0)
// all sequences of signals, waits, clock steps on one scheduler, 1..3 events
static future_t<> all(int id, std::vector<event_t> v, int mask, int ms, int* live)
{
	Who me{ id, 0 }; int64_t t0 = mc_now(); ++*live; int o = call(me, OP_WAIT, 0, mask, ms > 0); bool r;
	if (ms) r = co_await event_t::wait_all_for(std::chrono::milliseconds(ms), v.begin(), v.end()); else r = co_await event_t::wait_all(v.begin(), v.end());
	ret(o, r); --*live; REQUIRE(r || (ms && mc_now() >= t0 + ms * MS), "wait_all gave up early");
}
static void seq(int len)
{
	local_scheduler_t ls; int n = 1 + mc_choose(3); std::vector<event_t> v; int init[4] = { 0 }; int id = 1, live = 0; Who me{ 60, 0 };
	for (int i = 0; i < n; ++i) { init[i] = mc_choose(2); v.push_back(event_t(init[i])); }
	int timed = mc_choose(2); go all(id++, v, (1 << n) - 1, timed ? 3 : 0, &live); if (mc_choose(2)) batches(1);
	bool second = false;
	for (int i = 0; i < len; ++i)
	{
		int c = mc_choose(n + 3);
		if (c < n) { int o = call(me, OP_SIGNAL, c); v[c].signal(); ret(o, 0); }
		else if (c == n) { batches(3); mc_log(LOG_QUIET, 0, 0); }
		else if (c == n + 1) mc_advance(2 * MS);
		else if (!second) { second = true; go all(id++, std::vector<event_t>(v.begin(), v.begin() + 1), 1, 0, &live); batches(1); }
	}
	batches(3); mc_log(LOG_QUIET, 0, 0); mc_advance(10 * MS); batches(3); mc_log(LOG_QUIET, 0, 0);
	for (int k = 0; k < 2; ++k) for (int i = 0; i < n; ++i) { int o = call(me, OP_SIGNAL, i); v[i].signal(); ret(o, 0); }
	drain(); REQUIRE(live == 0, "a wait_all is left"); mc_log(LOG_QUIET, 0, 0);
	REQUIRE(mc_lin(init, nullptr, n, nullptr, 0) == 1, "the history is not one of counted signals with wait_all");
}
MC_REG("C07", "sequences-3", seq, 3, 0, 0, 0) MC_REG("C07", "sequences-4", seq, 4, 0, 0, 0) MC_REG("C07", "sequences-5", seq, 5, 0, 0, MCF_THOROUGH)
// odd durations, in every form
static future_t<> odd(std::vector<event_t> v, int64_t dt, int form, bool* done)
{
	bool r = true;
	switch (form)
	{
	case 0: r = co_await event_t::wait_all_for(std::chrono::nanoseconds(dt), v); break;
	case 1: r = co_await event_t::wait_all_for(std::chrono::duration<double, std::milli>(dt / 1e6), v); break;
	case 2: r = co_await event_t::wait_all_for(std::chrono::duration<double>(dt / 1e9), v.begin(), v.end()); break;
	case 3: r = co_await event_t::wait_all_for(std::chrono::duration<double, std::micro>(dt / 1e3), std::initializer_list<event_t>{ v[0], v[1] }); break;
	}
	REQUIRE(!r, "a wait_all of events without signal returned true"); *done = true;
}
static void odd_all(int) { std::vector<event_t> v; for (int i = 0; i < 2; ++i) v.push_back(event_t(false)); if (mc_choose(2)) v[0].signal(); odd_durations(4, [=](int64_t dt, int form, bool* done) { go odd(v, dt, form, done); }); }
MC_REG("C07", "odd-durations", odd_all, 0, 0, 0, 0)
// long lists and other containers
static void many(int n)
{
	local_scheduler_t ls; std::vector<event_t> v; for (int i = 0; i < n; ++i) v.push_back(event_t(i % 3 == 0)); std::list<event_t> l(v.begin(), v.end()); int got = 0; int how = mc_choose(4);
	auto w = [&]() -> future_t<> {
		bool r; if (how == 0) r = co_await event_t::wait_all(v); else if (how == 1) r = co_await event_t::wait_all(l.begin(), l.end()); else if (how == 2) r = co_await event_t::wait_all_for(5ms, l); else r = co_await event_t::wait_all_for(5ms, v.begin(), v.end());
		REQUIRE(r, "wait_all returned false"); got++; };
	go w(); batches(2);
	for (int i = 0; i < n; ++i) if (i % 3) { REQUIRE(got == 0, "wait_all returned before every event was signalled"); v[i].signal(); if (i % 7 == 0) batches(1); }
	batches(4); REQUIRE(got == 1, "wait_all did not return although every event was signalled");
	// every signal was consumed: nothing is left
	int again = 0; auto one = [&](event_t e) -> future_t<> { (void)co_await e.wait(); again++; };
	for (auto& e : v) { mc_progress(); go one(e); } batches(3); REQUIRE(again == 0, "%d signals were left by wait_all", again); for (auto& e : v) e.signal(); drain();
}
MC_REG("C07", "many-40", many, 40, 0, 0, MCF_LONG) MC_REG("C07", "many-300", many, 300, 0, 0, MCF_LONG)
MC_REG("C07", "again-20000", endure::wait_alls, 20000, 0, 0, MCF_LONG)
MC_REG("C07", "wide-70000", endure::wide_events, 70000, 0, 0, MCF_LONG)
