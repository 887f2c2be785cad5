#include "hx.h"
#include "endure.h"
#include <string>
// LAUNCHED / FINISHED coroutines; STEP+id: steps made by coroutine id
enum { LAUNCHED = 10, FINISHED = 11, IDS = 12, STEP = 20 };
static int fresh() { mc_cell_add(LAUNCHED, 1); int id = (int)mc_cell_add(IDS, 1); REQUIRE(id < 60, "harness: too many coroutines"); return id; }
static void step(int id, int n) { REQUIRE(mc_cell_add(STEP + id, 1) == n, "step %d of a coroutine was made as number %d", n, (int)mc_cell_get(STEP + id)); mc_progress(); }
static void fin() { mc_cell_add(FINISHED, 1); }
struct Pending { std::vector<awaitable_t<int>> aw; event_t ev { 0 }; int sig = 0; };
static Pending* P;
static future_t<int> child(int id, int yields) { Probe l(1); step(id, 2); for (int i = 0; i < yields; ++i) co_await yield(); step(id, 3); co_return 5; }
static generator_t<int> gen(int id, int n) { Probe l(1); for (int i = 1; i <= n; ++i) { step(id, i); co_yield i; } step(id, n + 1); fin(); co_return 0; }
static future_t<> co(int id, int shape);
enum { SHAPES = 13 };
static void launch(scheduler_t& s, int shape)
{
	int id = fresh();
	switch (shape)
	{
	case 7: s + gen(id, 2); break;
	case 8: { Probe cap(3); s + [cap, id]() -> future_t<> { REQUIRE(cap.magic == Probe::MAGIC, "the captures of the lambda are gone"); step(id, 1); co_await yield(); REQUIRE(cap.magic == Probe::MAGIC && cap.v == 3, "the captures of the lambda are gone"); step(id, 2); fin(); }; break; }
	case 9: { awaitable_t<int> aw; P->aw.push_back(aw); s + aw.get_future(); break; }	// the future itself: finished when set
	case 10: { awaitable_t<int> aw; auto f = aw.get_future(); aw.set_value(1); s + f; fin(); break; }	// finished before it is launched
	case 11: { Probe cap(4); s + [cap, id]() -> generator_t<int> { step(id, 1); co_yield 1; REQUIRE(cap.magic == Probe::MAGIC && cap.v == 4, "the captures of the lambda are gone"); step(id, 2); fin(); co_return 0; }; break; }
	case 12: { awaitable_t<int> aw; P->aw.push_back(aw); s + [aw]() mutable { return aw.get_future(); }; break; }
	default: s + co(id, shape); break;
	}
}
static future_t<> co(int id, int shape)
{
	Probe l(2); step(id, 1);
	switch (shape)
	{
	case 0: break;
	case 1: co_await yield(); step(id, 2); co_await yield(); step(id, 3); break;
	case 2: { int r = co_await child(id, 1); REQUIRE(r == 5, "wrong result"); step(id, 4); break; }
	case 3: launch(*librf_current_scheduler(), 1); launch(*librf_current_scheduler(), 0); step(id, 2); break;
	case 4: co_await sleep_for(2ms); step(id, 2); break;
	case 5: P->sig++; co_await P->ev; step(id, 2); break;
	case 6: { awaitable_t<int> aw; P->aw.push_back(aw); int v = co_await aw.get_future(); REQUIRE(v == 9, "wrong result"); step(id, 2); break; }
	}
	fin();
	if (shape == 2) throw std::logic_error("nobody catches this");
}
// gives what the coroutines are waiting for
static bool serve() { bool any = false; auto aws = std::move(P->aw); P->aw.clear(); for (auto& a : aws) { any = true; a.set_value(9); } while (P->sig) { P->sig--; P->ev.signal(); any = true; } return any; }
static int finished_awaitables;	// futures launched directly have no body to say so
static void all_done(scheduler_t* s, const char* w)
{
	REQUIRE(s->empty(), "%s: the scheduler is not empty", w);
	REQUIRE(mc_cell_get(FINISHED) + finished_awaitables == mc_cell_get(LAUNCHED), "%s: %d of %d coroutines finished", w, (int)mc_cell_get(FINISHED) + finished_awaitables, (int)mc_cell_get(LAUNCHED));
}
// every program of n coroutines out of all shapes, driven batch by batch; some of them launched later
static void programs(int n)
{
	local_scheduler_t ls; scheduler_t* s = this_scheduler(); Pending p; P = &p; finished_awaitables = 0; int shapes[3], late = mc_choose(2);
	REQUIRE(s->empty() && !s->run_one_batch(), "a new scheduler has work");
	for (int i = 0; i < n; ++i)
	{
		shapes[i] = mc_choose(SHAPES); if (shapes[i] == 9 || shapes[i] == 12) finished_awaitables++;
		if (late && i) { batches(i); }
		launch(*s, shapes[i]); if (shapes[i] != 10) REQUIRE(!s->empty(), "empty() although a coroutine was just launched");
	}
	for (int i = 0; i < 30; ++i)
	{
		mc_progress(); bool more = s->run_one_batch();
		if (!more && !s->empty()) { bool waits = !p.aw.empty() || p.sig; if (waits) { REQUIRE(!s->empty(), "empty() although coroutines wait"); serve(); } else mc_advance(MS); }
		if (mc_cell_get(FINISHED) + finished_awaitables < mc_cell_get(LAUNCHED)) REQUIRE(!s->empty(), "empty() although %d coroutines have not finished", (int)(mc_cell_get(LAUNCHED) - mc_cell_get(FINISHED)));
	}
	all_done(s, "after enough batches"); REQUIRE(!s->run_one_batch(), "a batch was run without work");
	p.ev.reset(); p.ev = event_t(0);
	Probe::check("locals and captures of finished coroutines"); P = nullptr;
}
MC_REG("C15", "programs-1", programs, 1, 0, 0, 0) MC_REG("C15", "programs-2", programs, 2, 0, 0, 0) MC_REG("C15", "programs-3", programs, 3, 0, 0, 0)
// run_until_notask returns when everything is finished, not before; what is waited for comes from another thread
static void until(int n)
{
	Pending p; P = &p; finished_awaitables = 0; std::atomic<int> up { 0 }; int shapes[2]; static const int SH[] = { 0, 1, 4, 5, 6, 8, 9, 12 };
	for (int i = 0; i < n; ++i) { shapes[i] = SH[mc_choose(8)]; if (shapes[i] == 9 || shapes[i] == 12) finished_awaitables++; }
	int a = thr([&] {
		local_scheduler_t ls; scheduler_t* s = this_scheduler();
		for (int i = 0; i < n; ++i) launch(*s, shapes[i]);
		s->run_one_batch(); up.store(1);
		s->run_until_notask(); all_done(s, "run_until_notask returned");
	});
	int b = thr([&] { while (!up.load()) mc_point(); serve(); });
	join_all(a, b); REQUIRE(p.aw.empty() && !p.sig, "somebody is still waiting"); p.ev = event_t(0);
	Probe::check("locals and captures of finished coroutines"); P = nullptr;
}
MC_REG("C15", "run-until-1", until, 1, 3, 5, 0) MC_REG("C15", "run-until-2", until, 2, 2, 3, 0)
// launches from other threads while the scheduler runs
struct Remote { scheduler_t* s = nullptr; std::atomic<int> ready { 0 }, launched { 0 }; };
static void drive(Remote& r, int want)
{
	local_scheduler_t ls; r.s = this_scheduler(); r.ready.store(1);
	while (r.launched.load() < want || !r.s->empty()) r.s->run_one_batch();
	all_done(r.s, "after all launches");
}
static void remote(int arg)
{
	static const int SH[] = { 0, 1, 4, 7, 8, 10, 3 };
	int threads = arg / 10, per = arg % 10; Pending p; P = &p; finished_awaitables = 0; Remote r; std::vector<int> t; int sh[4];
	for (int i = 0; i < threads * per; ++i) sh[i] = SH[mc_choose(i ? 3 : 7)];
	t.push_back(thr([&] { drive(r, threads * per); }));
	for (int k = 0; k < threads; ++k) t.push_back(thr([&, k] { while (!r.ready.load()) mc_point(); for (int i = 0; i < per; ++i) { launch(*r.s, sh[k * per + i]); r.launched.fetch_add(1); } }));
	for (int i : t) mc_join(i);
	Probe::check("locals and captures of finished coroutines"); P = nullptr; p.ev = event_t(0);
}
MC_REG("C15", "remote-launch-1", remote, 11, 3, 4, 0) MC_REG("C15", "remote-launch-2", remote, 12, 2, 3, 0) MC_REG("C15", "remote-launch-2-threads", remote, 21, 1, 2, 0)
// one that is launched and another one that is woken, from two other threads
static future_t<> await_one(awaitable_t<int> aw, int id) { step(id, 1); auto f = aw.get_future(); int v = co_await f; REQUIRE(v == 9, "wrong result"); step(id, 2); co_await yield(); step(id, 3); fin(); }
static void wake_and_launch(int waiters)
{
	finished_awaitables = 0; Remote r; awaitable_t<int> aw[2]; int ids[2]; for (int i = 0; i < waiters; ++i) ids[i] = fresh();
	std::vector<int> t; std::vector<awaitable_t<int>> cp; for (int i = 0; i < waiters; ++i) cp.push_back(aw[i]);
	t.push_back(thr([&] { local_scheduler_t ls; r.s = this_scheduler(); for (int i = 0; i < waiters; ++i) go await_one(std::move(cp[i]), ids[i]); r.ready.store(1); while (r.launched.load() < 1 || !r.s->empty()) r.s->run_one_batch(); all_done(r.s, "after all launches"); }));
	for (int i = 0; i < waiters; ++i) t.push_back(thr([&, i] { aw[i].set_value(9); }));
	if (waiters < 2) t.push_back(thr([&] { while (!r.ready.load()) mc_point(); launch(*r.s, 0); r.launched.fetch_add(1); })); else r.launched.store(1);
	for (int i : t) mc_join(i);
	Probe::check("locals and captures of finished coroutines");
}
MC_REG("C15", "wake-and-launch", wake_and_launch, 1, 2, 3, 0) MC_REG("C15", "wake-2", wake_and_launch, 2, 2, 3, 0)
// a launched future whose result is set by another thread at any moment, also while it is being launched
static void future_task(int lambda)
{
	std::atomic<int> set { 0 };
	{
		awaitable_t<int> aw; bool err = mc_choose(2);
		int b = thr([aw, err, &set]() mutable { set.store(1); if (err) aw.throw_exception(1); else aw.set_value(1); });
		int a = thr([f = std::make_shared<future_t<int>>(aw.get_future()), &set, lambda]() mutable {
			local_scheduler_t ls; scheduler_t* s = this_scheduler();
			if (lambda) go [f]() { return std::move(*f); }; else { go *f; f.reset(); }
			s->run_until_notask(); REQUIRE(set.load() == 1, "run_until_notask returned before the result was set"); REQUIRE(s->empty(), "the scheduler is not empty"); });
		aw._state = nullptr; join_all(a, b);
	}
}
MC_REG("C15", "future-task", future_task, 0, 4, 6, 0) MC_REG("C15", "future-task-lambda", future_task, 1, 4, 6, 0)
static void future_task_void(int)
{
	awaitable_t<> aw; auto f = aw.get_future(); int when = mc_choose(3); local_scheduler_t ls; scheduler_t* s = this_scheduler();
	if (when == 0) aw.set_value(); else if (when == 1) aw.throw_exception(3);
	go f; if (when == 2) { s->run_one_batch(); REQUIRE(!s->empty(), "empty() although the future is not set"); aw.set_value(); }
	s->run_until_notask(); REQUIRE(s->empty(), "the scheduler is not empty");
}
MC_REG("C15", "future-task-void", future_task_void, 0, 0, 0, 0)
// what another thread is told by empty(): never true while a coroutine has not finished
static void watcher(int shape_set)
{
	Pending p; P = &p; finished_awaitables = 0; Remote r; int sh = shape_set ? mc_choose(2) * 2 : 1;
	int a = thr([&] { local_scheduler_t ls; r.s = this_scheduler(); launch(*r.s, sh); launch(*r.s, 0); r.launched.store(1); r.s->run_until_notask(); while (r.ready.load() < 1) mc_point(); });
	int b = thr([&] { while (!r.launched.load()) mc_point(); for (int i = 0; i < 2; ++i) { int64_t m = 0; bool e = r.s->empty(); m = mc_cell_get(FINISHED); if (e) REQUIRE(m == mc_cell_get(LAUNCHED), "empty() although %d of %d coroutines finished", (int)m, (int)mc_cell_get(LAUNCHED)); mc_point(); } r.ready.fetch_add(1); });
	join_all(a, b); Probe::check("locals"); P = nullptr; p.ev = event_t(0);
}
MC_REG("C15", "watcher", watcher, 0, 3, 4, 0) MC_REG("C15", "watcher-child", watcher, 1, 2, 3, 0)
// two schedulers on two threads, launching on each other
static void mutual(int)
{
	Pending p; P = &p; finished_awaitables = 0; Remote r[2];
	auto body = [&](int k) {
		local_scheduler_t ls; r[k].s = this_scheduler(); r[k].ready.store(1); while (!r[1 - k].ready.load()) mc_point();
		launch(*r[1 - k].s, k ? 0 : 1); r[1 - k].launched.fetch_add(1); launch(*r[k].s, 0);
		while (!r[k].launched.load() || !r[k].s->empty()) r[k].s->run_one_batch();
		r[k].ready.store(2); while (r[1 - k].ready.load() < 2) mc_point();
	};
	int a = thr([&] { body(0); }), b = thr([&] { body(1); }); join_all(a, b);
	REQUIRE(mc_cell_get(FINISHED) == 4, "%d of 4 coroutines finished", (int)mc_cell_get(FINISHED)); Probe::check("locals"); P = nullptr; p.ev = event_t(0);
}
MC_REG("C15", "mutual", mutual, 0, 1, 2, 0)
// work that consists of timers only: pending from the moment it is added until it fired, also when callbacks add the next one or start coroutines
static void timers_only(int len)
{
	local_scheduler_t ls; scheduler_t* s = this_scheduler(); int pending = 0, fired = 0, co = 0, added = 0; std::function<void(int)> add; if (mc_choose(2)) s->run_until_notask();
	add = [&](int depth) {
		int dt = mc_choose(3) - 1, what = mc_choose(3); pending++; added++;
		s->timer()->add(std::chrono::milliseconds(dt), [&, depth, what](bool c) {
			REQUIRE(!c, "a timer is cancelled that nobody stopped"); pending--; fired++;
			if (depth < len && what == 1) add(depth + 1);
			if (what == 2) { pending++; go [&]() -> future_t<> { co_await yield(); co++; pending--; }; }
			if (pending) REQUIRE(!s->empty(), "empty() although work is pending (in a timer callback)"); });
		REQUIRE(!s->empty(), "empty() although a timer is pending");
	};
	add(1); if (mc_choose(2)) add(len);
	if (mc_choose(2)) s->run_until_notask();
	else for (int i = 0; i < 16; ++i) { mc_progress(); s->run_one_batch(); if (!pending) batches(2); REQUIRE(s->empty() == (pending == 0), pending ? "empty() although work is pending" : "empty() is false although nothing is pending"); if (i % 3 == 2) mc_advance(MS); }
	REQUIRE(pending == 0 && fired == added, "run_until_notask returned with %d timers and coroutines pending", pending); REQUIRE(s->empty(), "not empty at the end");
}
MC_REG("C15", "timers-only-2", timers_only, 2, 0, 0, 0) MC_REG("C15", "timers-only-3", timers_only, 3, 0, 0, 0)
// many coroutines: ready at once, started by one another, waiting at once, nested deeply
static future_t<int> deep(int n) { Probe l(n); if (n == 0) { co_await yield(); co_return 1; } int r = co_await deep(n - 1); mc_progress(); if (n % 16 == 0) co_await yield(); co_return r + 1; }
static void crowd(int n)
{
	{
		local_scheduler_t ls; scheduler_t* s = this_scheduler(); int fin = 0, started = 0; std::vector<int> steps(n); event_t e(false); std::vector<awaitable_t<int>> aw(n);
		auto a = [&](int i) -> future_t<> { Probe l(1); started++; for (int k = 0; k < 3; ++k) { REQUIRE(steps[i] == k, "a step was made twice"); steps[i]++; co_await yield(); } fin++; };
		for (int i = 0; i < n; ++i) { mc_progress(); *s + a(i); REQUIRE(!s->empty(), "empty() although a coroutine was just launched"); }
		s->run_until_notask(); REQUIRE(s->empty() && fin == n && started == n, "%d of %d coroutines finished, %d started", fin, n, started);
		// one starts all others
		fin = 0; started = 0; std::fill(steps.begin(), steps.end(), 0); auto b = [&]() -> future_t<> { for (int i = 0; i < n; ++i) { mc_progress(); go a(i); } co_return; }; go b(); s->run_until_notask(); REQUIRE(fin == n && s->empty(), "%d of %d coroutines finished", fin, n);
		// everybody waits; woken in one go
		fin = 0; auto w = [&](int i) -> future_t<> { Probe l(1); if (i % 2) co_await e.wait(); else { int v = co_await aw[i].get_future(); REQUIRE(v == i, "another value arrived"); } fin++; };
		for (int i = 0; i < n; ++i) { mc_progress(); *s + w(i); } batches(3); REQUIRE(fin == 0 && !s->empty() && !s->run_one_batch(), "waiting coroutines are not counted");
		for (int i = 0; i < n; ++i) { mc_progress(); if (i % 2) e.signal(); else aw[i].set_value(i); } s->run_until_notask(); REQUIRE(fin == n && s->empty(), "%d of %d coroutines finished", fin, n);
		int r = 0; go [&]() -> future_t<> { r = co_await deep(120); }; s->run_until_notask(); REQUIRE(r == 121, "the result of 121 nested coroutines is %d", r);
	}
	Probe::check("locals of finished coroutines");
}
MC_REG("C15", "crowd-100", crowd, 100, 0, 0, MCF_LONG) MC_REG("C15", "crowd-1500", crowd, 1500, 0, 0, MCF_LONG)
// several schedulers' worth of launches from other threads, in one schedule each
static void many_remote(int n)
{
	Remote r; std::atomic<int> fin { 0 };
	int a = thr([&] { local_scheduler_t ls; r.s = this_scheduler(); r.ready.store(1); while (r.launched.load() < 2 || !r.s->empty()) r.s->run_one_batch(); });
	auto l = [&](int k) { while (!r.ready.load()) mc_point(); for (int i = 0; i < n; ++i) { mc_progress(); *r.s + [&]() -> future_t<> { co_await yield(); fin.fetch_add(1); }; } r.launched.fetch_add(1); (void)k; };
	int b = thr([&] { l(0); }), c = thr([&] { l(1); }); join_all(a, b, c); REQUIRE(fin.load() == 2 * n, "%d of %d coroutines finished", fin.load(), 2 * n);
}
MC_REG("C15", "many-remote", many_remote, 12, 0, 0, MCF_LONG)
// a scheduler idles for long: what its task waits for comes from another thread
static void idle_long(int kind)
{
	awaitable_t<int> aw; auto f = aw.get_future(); event_t e; int n = 0; scheduler_t* s = nullptr;
	auto one = [&]() -> future_t<> { int v = co_await f; REQUIRE(v == 7, "another value"); n++; }; auto two = [&]() -> future_t<> { bool r = co_await e.wait(); REQUIRE(r, "no signal"); n++; }; auto three = [&]() -> future_t<> { bool r = co_await e.wait_for(1h); REQUIRE(r, "no signal"); n++; };
	long_wait([] {}, [&] { local_scheduler_t ls; s = this_scheduler(); if (kind == 0) go one(); else if (kind == 1) go two(); else go three(); if (kind < 2) { REQUIRE(!s->empty(), "a scheduler with a task says it is empty"); s->run_until_notask(); REQUIRE(n == 1, "run_until_notask returned before the task was done"); REQUIRE(s->empty(), "not empty"); } else { while (!n) s->run_one_batch(); s->timer()->clear(); drain(); } },
		[&] { if (kind == 0) aw.set_value(7); else e.signal(); });
	REQUIRE(n == 1, "the task did not end");
}
MC_REG("C15", "idle-long-future", idle_long, 0, 0, 0, MCF_LONG) MC_REG("C15", "idle-long-event", idle_long, 1, 0, 0, MCF_LONG) MC_REG("C15", "idle-long-timer", idle_long, 2, 0, 0, MCF_LONG)
MC_REG("C15", "again-66000", endure::launches, 66000, 0, 0, MCF_LONG)
