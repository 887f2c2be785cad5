// Helpers shared by the harnesses. Harness code is instrumented like the library.
#pragma once
#include "librf/librf.h"
#include "mc.h"
#include <memory>
#include <optional>
using namespace librf;
using namespace std::chrono_literals;

#define MC_CAT2(a,b) a##b
#define MC_CAT(a,b) MC_CAT2(a,b)
#define MC_REG(prop,name,fn,arg,pq,pt,flags) \
	static int MC_CAT(mc_reg_,__COUNTER__) = (mc_register(prop,name,fn,arg,pq,pt,flags), 0);
#define REQUIRE(c, ...) do { if (!(c)) mc_fail(__VA_ARGS__); } while (0)

// a controlled thread running a callable
template<class F> int thr(F f)
{
	F* p = new F(std::move(f));
	return mc_spawn([](void* v) { std::unique_ptr<F> q((F*)v); (*q)(); }, p);
}
// a controlled thread with its own scheduler, running a callable and then everything launched
template<class F> int sched_thr(F f)
{
	return thr([f]() mutable { local_scheduler_t ls; f(); this_scheduler()->run_until_notask(); });
}
template<class... T> void join_all(T... t) { (mc_join(t), ...); }
// runs batches until the flag is set and everything is done
inline void drive_until(std::atomic<int>& flag, int want)
{
	while (flag.load() < want || !this_scheduler()->empty()) this_scheduler()->run_one_batch();
}
// free, and a mutex like any other: one owner at a time, one level, free again after one unlock
inline bool rests_free(librf::mutex_t m)
{
	char a, b; if (m.is_locked() || !m.try_lock(&a)) return false;
	bool ok = m.is_locked() && !m.try_lock(&b) && m.try_lock(&a); m.unlock(&b); m.unlock(&a); ok = ok && !m.try_lock(&b); m.unlock(&a);
	return ok && !m.is_locked();
}
// Waiting that takes long: what one thread holds (take .. release), another asks for (get) and goes round its polling
// loop thousands of times. It must not end before the release and must end after it.
template<class Take, class Get, class Release> void long_wait(Take take, Get get, Release release, int rounds = 24000)
{
	std::atomic<int> held { 0 }, trying { 0 }, got { 0 };
	int a = thr([&] { take(); held.store(1); while (!trying.load()) mc_point(); for (int i = 0; i < 3; ++i) mc_point(); REQUIRE(!got.load(), "a wait ended although what it waits for had not happened"); release(); });
	int b = thr([&] { while (!held.load()) mc_point(); trying.store(1); mc_spin(rounds); get(); got.store(1); });
	mc_join(a); mc_join(b); REQUIRE(got.load(), "the wait did not end");
}
inline void drain() { this_scheduler()->run_until_notask(); }
// one or more batches until n batches ran
inline void batches(int n) { for (int i = 0; i < n; ++i) { mc_progress(); this_scheduler()->run_one_batch(); } mc_progress(); }
constexpr int64_t MS = 1000000;
// counts constructions and destructions; every live object must be destroyed exactly once
struct Probe
{
	static const int MAGIC = 0x50524f42;
	int magic = MAGIC; int v = 0;
	Probe(int x) : v(x) { mc_cell_add(250, 1); }
	Probe(const Probe& o) : v(o.v) { REQUIRE(o.magic == MAGIC, "a destroyed value is copied"); mc_cell_add(250, 1); }
	Probe(Probe&& o) noexcept : v(o.v) { if (o.magic != MAGIC) mc_fail("a destroyed value is moved"); o.v = -1; mc_cell_add(250, 1); }
	Probe& operator=(const Probe& o) { REQUIRE(magic == MAGIC && o.magic == MAGIC, "assignment with a destroyed value"); v = o.v; return *this; }
	Probe& operator=(Probe&& o) noexcept { if (magic != MAGIC || o.magic != MAGIC) mc_fail("assignment with a destroyed value"); v = o.v; if (this != &o) o.v = -1; return *this; }
	~Probe() { if (magic != MAGIC) mc_fail("a value is destroyed twice"); magic = 0; mc_cell_add(250, -1); }
	static void check(const char* what = "values") { REQUIRE(mc_cell_get(250) == 0, "%s: %d still alive", what, (int)mc_cell_get(250)); }
};
struct MoveOnly : Probe { using Probe::Probe; MoveOnly(MoveOnly&&) = default; MoveOnly& operator=(MoveOnly&&) = default; MoveOnly(const MoveOnly&) = delete; MoveOnly& operator=(const MoveOnly&) = delete; };
// Durations that are not whole milliseconds, are not positive or are very long: what `start(dt, form, done)`
// launches must set done at the first batches at or after the deadline and never before.
template<class F> void with_duration(int64_t dt, int form, F f)
{
	switch (form)
	{
	case 0: f(std::chrono::nanoseconds(dt)); break;
	case 1: f(std::chrono::duration<double, std::milli>(dt / 1e6)); break;
	case 2: f(std::chrono::duration<double>(dt / 1e9)); break;
	case 3: f(std::chrono::duration<int64_t, std::pico>(dt % 1000000000 == dt ? dt * 1000 : dt)); break;
	}
}
template<class Start> void odd_durations(int forms, Start start)
{
	static const int64_t D[] = { -5000000, -1, 0, 1, 999, 400000, 999999, 1000001, 1900000, 2500000, 3600ll * 1000 * MS, 24ll * 40 * 3600 * 1000 * MS };
	local_scheduler_t ls; mc_advance(mc_choose(2) * 300000); int64_t dt = D[mc_choose(sizeof D / sizeof *D)]; int form = mc_choose(forms); bool done = false;
	int64_t dl = mc_now() + (dt > 0 ? dt : 0), slack = form ? 64 : 0, step = dt > 100 * MS ? dt / 16 : 100000;
	start(dt, form, &done);
	for (int i = 0; i < 40 && !done; ++i)
	{
		batches(6);
		REQUIRE(!done || mc_now() >= dl - slack, "it ended %lld ns before the deadline (duration %lld ns, form %d)", (long long)(dl - mc_now()), (long long)dt, form);
		REQUIRE(done || mc_now() < dl, "it did not end %lld ns after the deadline (duration %lld ns, form %d)", (long long)(mc_now() - dl), (long long)dt, form);
		mc_advance(step); if (!done && mc_now() < dl && mc_now() + step > dl) mc_advance(dl - 1 - mc_now());	// just before the deadline
		if (!done && mc_now() == dl - 1) { batches(6); REQUIRE(!done || slack, "it ended 1 ns before the deadline (duration %lld ns, form %d)", (long long)dt, form); mc_advance(1); }
	}
	REQUIRE(done, "it never ended (duration %lld ns, form %d)", (long long)dt, form);
	drain();
}
