#include "hx.h"
#include "endure.h"
// what is known of every sleeper
struct S { int64_t deadline = 0; bool asleep = false; int woke = 0, canceled = 0; bool fin = false; };
static S* Z; static int NZ; static int64_t last_wake[3];	// the order is checked among sleepers that use the same nesting of awaits
enum { FORMS = 6, ANY = -1 };
static future_t<> nap(int64_t dt, int form, scheduler_t* other)
{
	switch (form)
	{
	case 0: co_await sleep_for(std::chrono::nanoseconds(dt)); break;
	case 1: co_await sleep_until(std::chrono::system_clock::now() + std::chrono::nanoseconds(dt)); break;
	case 2: co_await std::chrono::nanoseconds(dt); break;
	case 3: co_await sleep_for(std::chrono::microseconds(dt / 1000), other ? *other : *librf_current_scheduler()); break;
	case 4: co_await sleep_until(std::chrono::system_clock::now() + std::chrono::nanoseconds(dt), other ? *other : *librf_current_scheduler()); break;
	case 5: { auto f = sleep_for_(std::chrono::nanoseconds(dt), *librf_current_scheduler()); co_await yield(); co_await f; break; }	// started, awaited later
	}
}
// sleeps for every given time, one after the other
struct Plan { int n; int64_t dt[2]; int form[2]; bool again; scheduler_t* other = nullptr; };
static future_t<> sleeper(int id, Plan p)
{
	S& s = Z[id]; Probe l(1);
	for (int i = 0; i < p.n; ++i)
	{
		s.deadline = mc_now() + p.dt[i]; s.asleep = true; int before = s.woke;
		try { co_await nap(p.dt[i], p.form[i], p.other); REQUIRE(mc_now() >= s.deadline, "a sleeper woke %d us early", (int)((s.deadline - mc_now()) / 1000)); }
		catch (canceled_exception& e) { REQUIRE(e._error == error_code::timer_canceled, "another error arrived"); s.canceled++; s.deadline = INT64_MAX; }
		REQUIRE(s.woke == before && s.asleep, "a sleeper woke twice"); s.woke++; s.asleep = false;
		int g = p.form[i] < 3 ? 0 : p.form[i] < 5 ? 1 : 2;
		if (s.deadline != INT64_MAX && last_wake[0] != INT64_MIN + 1 && g < 2 && p.dt[i] > 0) { REQUIRE(s.deadline >= last_wake[g], "a sleeper woke before another one that was due earlier"); last_wake[g] = s.deadline; }
	}
	s.fin = true;
}
// n sleepers with all durations; the clock goes on in steps; at rest everybody who is due is awake and nobody else
static void sleepers(int arg)
{
	int n = arg / 10, per = arg % 10; S z[4]; Z = z; NZ = n; for (auto& w : last_wake) w = per == 1 ? INT64_MIN : INT64_MIN + 1; Plan p[4];
	{
		local_scheduler_t ls; scheduler_t* s = this_scheduler();
		for (int i = 0; i < n; ++i) { p[i].n = per; for (int k = 0; k < per; ++k) { p[i].dt[k] = (n == 3 ? mc_choose(3) : mc_choose(5) - 1) * MS; p[i].form[k] = n == 1 ? mc_choose(FORMS) : n == 2 && per == 1 ? mc_choose(FORMS) : (i + k) % FORMS; } }
		for (int i = 0; i < n; ++i) go sleeper(i, p[i]);
		int step = mc_choose(2);	// steps of 1 ms or 3 ms
		for (int t = 0; t < 8 * per; ++t)
		{
			batches(16);
			for (int i = 0; i < n; ++i) if (!z[i].fin) { REQUIRE(z[i].asleep && z[i].deadline > mc_now(), "a sleeper is still asleep %d us after its time", (int)((mc_now() - z[i].deadline) / 1000)); REQUIRE(!s->empty(), "empty() although somebody sleeps"); }
			mc_advance(step ? 3 * MS : MS);
		}
		for (int i = 0; i < n; ++i) REQUIRE(z[i].fin && z[i].woke == per && !z[i].canceled, "a sleeper never woke");
		drain();
	}
	Probe::check("locals"); Z = nullptr;
}
MC_REG("C19", "one", sleepers, 11, 0, 0, 0) MC_REG("C19", "one-twice", sleepers, 12, 0, 0, 0) MC_REG("C19", "two", sleepers, 21, 0, 0, 0) MC_REG("C19", "three", sleepers, 31, 0, 0, 0) MC_REG("C19", "two-twice", sleepers, 22, 0, 0, 0)
// cancellation at every point: everybody who sleeps is woken with the exception, once; one that goes to sleep again sleeps
static future_t<> canceler(int at, int how) { for (int i = 0; i < at; ++i) co_await yield(); if (how) librf_current_scheduler()->timer()->clear(); else this_scheduler()->request_stop_all_if_possible(); }
static void cancel(int arg)
{
	int n = arg; S z[4]; Z = z; NZ = n; last_wake[0] = INT64_MIN + 1; Plan p[4];
	{
		local_scheduler_t ls; scheduler_t* s = this_scheduler(); int at = mc_choose(8), from = mc_choose(3), adv = mc_choose(3); bool cl[4] = {}; int was[4] = {}, twice = mc_choose(2); (void)cl;
		for (int i = 0; i < n; ++i) { p[i].n = 1 + twice; for (int k = 0; k < 2; ++k) { p[i].dt[k] = (1 + mc_choose(2)) * MS; p[i].form[k] = (i * 2 + k) % 5; } }
		for (int i = 0; i < n; ++i) go sleeper(i, p[i]);
		if (from) go canceler(at, from - 1);
		if (!from) { batches(at); mc_advance(adv * MS); for (int i = 0; i < n; ++i) was[i] = z[i].asleep; s->timer()->clear(); batches(16); if (at > 5) for (int i = 0; i < n; ++i) REQUIRE(!was[i] || z[i].canceled, "a sleeper was not woken by the cancellation"); }
		for (int i = 0; i < 8; ++i) { batches(16); mc_advance(MS); }
		for (int i = 0; i < n; ++i) { REQUIRE(z[i].fin && z[i].woke == p[i].n, "a sleeper never woke"); REQUIRE(z[i].canceled <= 1, "cancelled %d times by one cancellation", z[i].canceled); if (from && at >= 6) REQUIRE(z[i].canceled == 1, "a sleeper was not woken by the cancellation"); }
		drain();
	}
	Probe::check("locals"); Z = nullptr;
}
MC_REG("C19", "cancel-1", cancel, 1, 0, 0, 0) MC_REG("C19", "cancel-2", cancel, 2, 0, 0, 0) MC_REG("C19", "cancel-3", cancel, 3, 0, 0, MCF_THOROUGH)
// run_until_notask waits for the sleepers
static void until(int n)
{
	S z[4]; Z = z; NZ = n; last_wake[0] = INT64_MIN + 1; Plan p[4];
	{ local_scheduler_t ls; for (int i = 0; i < n; ++i) { p[i].n = 1; p[i].dt[0] = (mc_choose(4) - 1) * MS; p[i].form[0] = mc_choose(FORMS); go sleeper(i, p[i]); } drain(); for (int i = 0; i < n; ++i) REQUIRE(z[i].fin, "run_until_notask returned although somebody sleeps"); }
	Probe::check("locals"); Z = nullptr;
}
MC_REG("C19", "until-1", until, 1, 0, 0, 0) MC_REG("C19", "until-2", until, 2, 0, 0, 0)
// sleepers on two threads; the clock moves at any moment; one of them uses the timers of the other's scheduler
static void threads(int arg)
{
	S z[4]; Z = z; NZ = 2; last_wake[0] = INT64_MIN + 1; scheduler_t* s[2] = {}; std::atomic<int> up { 0 }, out { 0 };
	auto body = [&](int k) {
		local_scheduler_t ls; s[k] = this_scheduler(); up.fetch_add(1); while (up.load() < 2) mc_point();
		Plan p; p.n = 1; p.dt[0] = (k + 1) * MS; p.form[0] = arg == 1 && k == 0 ? 3 : arg == 2 && k == 0 ? 4 : k; if (arg && k == 0) p.other = s[1]; go sleeper(k, p);
		// as the timers of thread 1 may serve thread 0, thread 1 goes on till both are done
		while (!z[k].fin || !this_scheduler()->empty()) this_scheduler()->run_one_batch();
		out.fetch_add(1); while (out.load() < 2) this_scheduler()->run_one_batch();
	};
	int a = thr([&] { body(0); }), b = thr([&] { body(1); });
	join_all(a, b); REQUIRE(z[0].fin && z[1].fin, "a sleeper never woke"); Probe::check("locals"); Z = nullptr;
}
MC_REG("C19", "threads", threads, 0, 1, 2, 0) MC_REG("C19", "threads-foreign-timer", threads, 1, 2, 3, 0) MC_REG("C19", "threads-foreign-timer-until", threads, 2, 2, 3, 0)
// odd durations, in every form
static future_t<> odd(int64_t dt, int form, bool* done)
{
	switch (form)
	{
	case 0: co_await sleep_for(std::chrono::nanoseconds(dt)); break;
	case 1: co_await sleep_for(std::chrono::duration<double, std::milli>(dt / 1e6)); break;
	case 2: co_await std::chrono::duration<double>(dt / 1e9); break;
	case 3: co_await sleep_for(std::chrono::duration<double, std::micro>(dt / 1e3), *this_scheduler()); break;
	case 4: co_await std::chrono::nanoseconds(dt); break;
	case 5: co_await sleep_until(std::chrono::system_clock::now() + std::chrono::nanoseconds(dt)); break;
	case 6: co_await sleep_until(std::chrono::system_clock::now() + std::chrono::nanoseconds(dt), *this_scheduler()); break;
	case 7: co_await sleep_for_(std::chrono::nanoseconds(dt), *this_scheduler()); break;
	case 8: co_await sleep_until_(std::chrono::system_clock::now() + std::chrono::nanoseconds(dt), *this_scheduler()); break;
	}
	*done = true;
}
static void odd_all(int) { odd_durations(9, [=](int64_t dt, int form, bool* done) { go odd(dt, form, done); }); }
MC_REG("C19", "odd-durations", odd_all, 0, 0, 0, 0)
// many sleepers with many deadlines, woken in deadline order
static void many(int n)
{
	local_scheduler_t ls; int woke = 0; int64_t last = 0;
	auto z = [&](int64_t dt) -> future_t<> { int64_t dl = mc_now() + dt; co_await sleep_for(std::chrono::nanoseconds(dt)); REQUIRE(mc_now() >= dl, "a sleeper woke early"); REQUIRE(dl >= last, "a sleeper woke before another one that was due earlier"); last = dl; woke++; };
	for (int i = 0; i < n; ++i) { mc_progress(); go z((1 + i * 7 % 50) * MS / 4); }
	int half = 0; for (int i = 0; i < n; ++i) half += (1 + i * 7 % 50) * MS / 4 <= 5 * MS; batches(3);
	mc_advance(5 * MS); batches(5); REQUIRE(woke == half, "%d of %d sleepers woke after 5 ms, %d are due", woke, n, half); mc_advance(20 * MS); batches(5); REQUIRE(woke == n, "%d of %d sleepers woke", woke, n); drain();
}
MC_REG("C19", "many-300", many, 300, 0, 0, MCF_LONG) MC_REG("C19", "many-2000", many, 2000, 0, 0, MCF_LONG)
MC_REG("C19", "again-66000", endure::sleeps, 66000, 0, 0, MCF_LONG)
