#include "hx.h"
#include "endure.h"
// the reference: what is known about every timer
struct T { int64_t deadline; int action; bool stopped = false, called = false, cleared = false, canceled = false; detail::timer_target_ptr ptr; timer_handler h; bool by_handler = false; int64_t key = 0; };
struct World
{
	std::shared_ptr<timer_manager> m = std::make_shared<timer_manager>(); std::vector<std::unique_ptr<T>> t; int64_t t0; bool in_update = false, in_clear = false; int64_t last = 0; int depth = 0; bool cleared_now = false;
	int64_t now() { return mc_now() - t0; }
};
static World* W; static int g_max = 6, g_actions = 7;
static void do_stop(int k);
static void do_clear();
static void add(int64_t in, int action);
static void fire(T* t, bool canceled)
{
	REQUIRE(!t->called, "a timer fires twice"); t->called = true; t->canceled = canceled;
	if (!canceled)
	{
		REQUIRE(W->in_update, "a timer fires outside update"); REQUIRE(!t->stopped, "a timer that was stopped fires as if it were not");
		REQUIRE(W->now() >= t->deadline, "a timer fires before its deadline");
		REQUIRE(t->deadline >= W->last, "timers fire in the wrong order"); W->last = t->deadline;
	}
	else REQUIRE(t->stopped || W->in_clear, "a timer is cancelled that nobody stopped");
	switch (W->m ? t->action : 0)	// a manager that is being destroyed is not used
	{
	case 0: break;
	case 1: if ((int)W->t.size() < g_max) add(0, 0); break;
	case 2: if ((int)W->t.size() < g_max) add(MS, 0); break;
	case 3: if (W->t.size() > 1) do_stop(W->t[0].get() == t ? (int)W->t.size() - 1 : 0); break;	// another one
	case 4: for (size_t i = 0; i < W->t.size(); ++i) if (W->t[i].get() == t) { bool r = W->t[i]->by_handler ? false : W->m->stop(t->ptr); REQUIRE(!r, "a timer that fires was stopped in time"); } break;
	case 5: do_clear(); break;
	case 6: if ((int)W->t.size() < g_max) { add(0, 0); do_stop((int)W->t.size() - 1); } break;
	}
}
static void add(int64_t in, int action)
{
	W->t.emplace_back(new T); T* t = W->t.back().get(); t->action = action; t->deadline = W->now() + in; int how = (int)W->t.size() % 4;
	auto cb = [t](bool c) { fire(t, c); }; auto tp = std::chrono::system_clock::now() + std::chrono::nanoseconds(in);
	switch (how)
	{
	case 0: t->ptr = W->m->add(std::chrono::nanoseconds(in), cb); break;
	case 1: t->ptr = W->m->add(tp, cb); break;
	case 2: t->h = W->m->add_handler(std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::nanoseconds(in)), cb); t->by_handler = true; break;
	case 3: t->h = W->m->add_handler(tp, cb); t->by_handler = true; break;
	}
	REQUIRE(!t->called, "a timer fires while it is added"); REQUIRE(!W->m->empty(), "empty() although a timer was just added");
}
static void do_stop(int k)
{
	if (k >= (int)W->t.size()) return; T* t = W->t[k].get(); bool intime = !t->called && !t->stopped, r;
	if (t->by_handler) { r = t->h.stop(); REQUIRE(t->h.expired(), "a handler refers to a timer that it stopped"); } else r = W->m->stop(t->ptr);
	REQUIRE(r == intime || (t->cleared && !t->called), "stop returned %d for a timer that %s", r, t->called ? "had fired" : t->stopped ? "was stopped" : "was pending");
	if (intime) t->stopped = true;
}
static void do_clear()
{
	bool outer = W->in_clear; std::vector<T*> before; for (auto& t : W->t) if (!t->called) before.push_back(t.get());
	W->in_clear = true; W->m->clear(); W->in_clear = outer;
	// within another clear, the outer one has taken them over; one that was stopped may be reported later
	if (!outer) for (T* t : before) REQUIRE(t->called || t->stopped, "clear left a timer out");
	for (T* t : before) if (!t->called) t->stopped = t->cleared = true;	// cancelled in any case
}
static void check_empty(const char* w)
{
	bool pending = false, any = false; for (auto& t : W->t) { if (!t->called) any = true; if (!t->called && !t->stopped) pending = true; }
	bool e = W->m->empty(); if (pending) REQUIRE(!e, "%s: empty() although a timer is pending", w); if (!any) REQUIRE(e, "%s: empty() is false although nothing is pending", w);
}
static void update()
{
	std::vector<T*> due; for (auto& t : W->t) if (!t->called && !t->stopped && t->deadline <= W->now()) due.push_back(t.get());
	W->in_update = true; W->last = INT64_MIN; W->m->update(); W->in_update = false;
	for (T* t : due) REQUIRE(t->called, "update left a due timer out");
	for (T* t : due) if (!t->stopped) REQUIRE(!t->canceled || t->called, "a due timer was lost");
}
static void finish(int how)
{
	if (how == 0) { for (int i = 0; i < 4; ++i) { mc_advance(4 * MS); update(); } check_empty("after all deadlines"); }
	else if (how == 1) { do_clear(); do_clear(); update(); }
	else { W->in_clear = true; auto keep = std::move(W->m); keep.reset(); W->in_clear = false; }
	for (auto& t : W->t) REQUIRE(t->called || how == 1, "a timer never fires");
	if (how == 1) for (int i = 0; i < 3; ++i) { mc_advance(4 * MS); update(); }
	for (auto& t : W->t) REQUIRE(t->called, "a timer never fires");
	for (auto& t : W->t) if (t->by_handler) { REQUIRE(t->h.expired(), "a handler refers to a timer that is gone"); REQUIRE(!t->h.stop(), "stop() of a timer that is gone reports success"); } else if (W->m) REQUIRE(!W->m->stop(t->ptr), "stop() of a timer that fired reports success");
}
// every sequence of operations
static void sequences(int arg)
{
	int len = arg % 10; g_actions = arg >= 10 ? 7 : 3; World w; W = &w; w.t0 = mc_now(); w.m = std::make_shared<timer_manager>();
	for (int i = 0; i < len; ++i)
	{
		switch (mc_choose(6))
		{
		case 0: case 5: { int d = i ? mc_choose(3) : 2; int a = mc_choose(g_actions); if ((int)w.t.size() < g_max) add((d == 0 ? -1 : d) * MS, a); break; }
		case 1: if (!w.t.empty()) do_stop(mc_choose((int)w.t.size())); break;
		case 2: do_clear(); break;
		case 3: update(); break;
		case 4: mc_advance(MS); update(); break;
		}
		check_empty("after a step");
	}
	finish(mc_choose(3)); w.t.clear(); W = nullptr;
}
MC_REG("C18", "sequences-3", sequences, 3, 0, 0, 0) MC_REG("C18", "sequences-4", sequences, 4, 0, 0, 0) MC_REG("C18", "callbacks-3", sequences, 13, 0, 0, 0) MC_REG("C18", "callbacks-4", sequences, 14, 0, 0, MCF_THOROUGH) MC_REG("C18", "sequences-5", sequences, 5, 0, 0, MCF_THOROUGH)
// n timers whose callbacks do something, all deadlines and orders; one stopped or not; updates at every tick
static void crowd(int arg)
{
	int n = arg % 10; g_actions = 7; World w; W = &w; w.t0 = mc_now();
	int full = arg / 10;
	for (int i = 0; i < n; ++i) { int d = mc_choose(3); int a = full ? mc_choose(7) : (i == 0 ? mc_choose(7) : mc_choose(2) * 5); add(d * MS, a); if (i == 0 && mc_choose(2)) update(); }
	int st = mc_choose(n + 1); if (st < n) do_stop(st);
	for (int i = 0; i < 3; ++i) { update(); check_empty("after an update"); mc_advance(MS); }
	finish(0); w.t.clear(); W = nullptr;
}
MC_REG("C18", "crowd-2", crowd, 12, 0, 0, 0) MC_REG("C18", "crowd-3", crowd, 3, 0, 0, 0) MC_REG("C18", "crowd-3-full", crowd, 13, 0, 0, MCF_THOROUGH) MC_REG("C18", "crowd-4", crowd, 4, 0, 0, 0)
// one update late: many deadlines have passed; they run in order
static void late(int n)
{
	World w; W = &w; w.t0 = mc_now(); int perm = 0; (void)perm; std::vector<int> d;
	for (int i = 0; i < n; ++i) { add((mc_choose(4)) * MS, 0); if (mc_choose(2)) update(); }
	mc_advance(2 * MS); update(); mc_advance(5 * MS); update(); check_empty("after all deadlines"); for (auto& t : w.t) REQUIRE(t->called && !t->canceled, "a timer never fires"); w.t.clear(); W = nullptr;
}
MC_REG("C18", "late-3", late, 3, 0, 0, 0) MC_REG("C18", "late-4", late, 4, 0, 0, 0)
// other threads add while one updates
struct Shared { std::atomic<int> fired { 0 }, added { 0 }; int64_t deadline[4]; };
static void foreign(int arg)
{
	int threads = arg / 10, per = arg % 10; auto m = std::make_shared<timer_manager>(); Shared s; std::vector<int> t; int64_t last = INT64_MIN; int own = mc_choose(2);
	for (int k = 0; k < threads; ++k) t.push_back(thr([&, k] { for (int i = 0; i < per; ++i) { int id = k * per + i; s.deadline[id] = mc_now() + (i ? 0 : MS); m->add(std::chrono::nanoseconds(i ? 0 : MS), [&, id](bool c) { REQUIRE(!c, "a timer is cancelled that nobody stopped"); REQUIRE(mc_now() >= s.deadline[id], "a timer fires before its deadline"); REQUIRE(mc_cell_add(20 + id, 1) == 1, "a timer fires twice"); s.fired.fetch_add(1); }); s.added.fetch_add(1); } }));
	t.push_back(thr([&] {
		if (own) m->add(0ms, [&](bool) { m->add(0ms, [&](bool) { mc_cell_add(30, 1); }); });
		while (s.fired.load() < threads * per || (own && mc_cell_get(30) == 0)) { last = INT64_MIN; if (s.added.load() == threads * per) mc_advance(MS); else mc_point(); m->update(); if (s.fired.load() < s.added.load()) REQUIRE(!m->empty() || s.fired.load() == s.added.load(), "empty() although a timer is pending"); }
		REQUIRE(m->empty(), "empty() is false although nothing is pending"); }));
	for (int i : t) mc_join(i);
	for (int i = 0; i < threads * per; ++i) REQUIRE(mc_cell_get(20 + i) == 1, "a timer never fires"); REQUIRE(!own || mc_cell_get(30) == 1, "a timer never fires");
	(void)last;
}
MC_REG("C18", "foreign-add-1", foreign, 11, 3, 5, 0) MC_REG("C18", "foreign-add-2", foreign, 12, 2, 4, 0) MC_REG("C18", "foreign-add-2-threads", foreign, 21, 2, 3, 0)
// clear while another thread adds: the timer is cancelled or it fires later, once
static void foreign_clear(int)
{
	auto m = std::make_shared<timer_manager>(); std::atomic<int> state { 0 };
	m->add(MS * 1ns, [&](bool c) { REQUIRE(c, "cleared"); REQUIRE(mc_cell_add(21, 1) == 1, "a timer fires twice"); });
	int a = thr([&] { m->add(0ms, [&](bool c) { REQUIRE(mc_cell_add(20, 1) == 1, "a timer fires twice"); state.store(c ? 1 : 2); }); });
	int b = thr([&] { m->clear(); });
	join_all(a, b); REQUIRE(mc_cell_get(21) == 1, "clear left a timer out"); if (!state.load()) { m->update(); REQUIRE(state.load() == 2, "a timer never fires"); } REQUIRE(m->empty(), "empty() is false although nothing is pending");
}
MC_REG("C18", "foreign-clear", foreign_clear, 0, 4, 6, 0)
// other threads stop a timer while one updates (or clears): the one stop that succeeds decides, and the callback hears of it
static void foreign_stop(int arg)
{
	int threads = arg % 10, how = arg / 10; auto m = std::make_shared<timer_manager>(); std::atomic<int> fired { 0 }, stopped { 0 }; std::vector<int> t;
	auto cb = [&](bool c) { REQUIRE(fired.exchange(c ? 2 : 1) == 0, "a timer fires twice"); };
	detail::timer_target_ptr p; timer_handler h; bool due = mc_choose(2), early = mc_choose(2); int64_t dt = due ? 0 : MS;
	if (mc_choose(2)) p = m->add(std::chrono::nanoseconds(dt), cb); else h = m->add_handler(std::chrono::nanoseconds(dt), cb);
	if (early && !due) m->update();
	for (int k = 0; k < threads; ++k) t.push_back(thr([&, h, p]() mutable { if (p ? m->stop(p) : h.stop()) REQUIRE(stopped.fetch_add(1) == 0, "two calls stopped the same timer"); }));
	t.push_back(thr([&] { if (how == 1) { m->clear(); REQUIRE(fired.load() == 2, "clear left a timer out"); return; } m->update(); if (due) REQUIRE(fired.load() != 0, "update left a due timer out"); if (mc_choose(2)) { mc_advance(MS); m->update(); REQUIRE(fired.load() != 0, "update left a due timer out"); } }));
	for (int i : t) mc_join(i);
	if (!fired.load()) { mc_advance(MS); m->update(); }
	REQUIRE(fired.load() != 0, "a timer never fires"); REQUIRE(m->empty(), "empty() is false although nothing is pending");
	if (stopped.load()) REQUIRE(fired.load() == 2, "a timer that was stopped fires as if it were not"); else if (!how) REQUIRE(fired.load() == 1, "a timer is cancelled that nobody stopped");
}
MC_REG("C18", "foreign-stop-1", foreign_stop, 1, 4, 6, 0) MC_REG("C18", "foreign-stop-2", foreign_stop, 2, 3, 4, 0) MC_REG("C18", "foreign-stop-clear", foreign_stop, 11, 4, 6, 0)
// through a scheduler: the batch runs the timers, run_until_notask waits for them
static void scheduled(int n)
{
	local_scheduler_t ls; scheduler_t* s = this_scheduler(); int fired = 0; std::vector<int64_t> at; int64_t t0 = mc_now();
	for (int i = 0; i < n; ++i) { int d = mc_choose(3); s->timer()->add(d * 1ms, [&, d, t0](bool c) { REQUIRE(!c && mc_now() >= t0 + d * MS, "a timer fires before its deadline"); ++fired; }); }
	REQUIRE(!s->empty(), "empty() although a timer is pending");
	if (mc_choose(2)) s->run_until_notask(); else while (!s->empty()) { s->run_one_batch(); mc_advance(MS); }
	REQUIRE(fired == n, "run_until_notask returned although a timer is pending"); REQUIRE(s->empty(), "empty() is false although nothing is pending");
}
MC_REG("C18", "scheduled-2", scheduled, 2, 0, 0, 0) MC_REG("C18", "scheduled-3", scheduled, 3, 0, 0, 0)
// durations and time points that are not whole milliseconds, in every form
static void odd(int)
{
	static const int64_t D[] = { -5000000, -1, 0, 1, 999, 400000, 999999, 1000001, 1900000, 2500000, 3600ll * 1000 * MS, 24ll * 40 * 3600 * 1000 * MS };
	auto m = std::make_shared<timer_manager>(); mc_advance(mc_choose(2) * 300000); int64_t dt = D[mc_choose(12)], dl = mc_now() + dt; int form = mc_choose(5); int fired = 0; int64_t slack = form == 1 || form == 2 ? 64 : 0; timer_handler h; bool early = mc_choose(2);
	auto cb = [&](bool c) { REQUIRE(!c, "a timer is cancelled that nobody stopped"); REQUIRE(mc_now() >= dl - slack, "a timer fires %lld ns before its deadline (%lld ns, form %d)", (long long)(dl - mc_now()), (long long)dt, form); fired++; };
	switch (form)
	{
	case 0: m->add(std::chrono::nanoseconds(dt), cb); break;
	case 1: m->add(std::chrono::duration<double, std::milli>(dt / 1e6), cb); break;
	case 2: h = m->add_handler(std::chrono::duration<double>(dt / 1e9), cb); break;
	case 3: m->add(std::chrono::system_clock::now() + std::chrono::nanoseconds(dt), cb); break;
	case 4: h = m->add_handler(std::chrono::system_clock::now() + std::chrono::nanoseconds(dt), cb); break;
	}
	if (early) m->update();
	if (dt > 0) { if (dt > 1) { mc_advance(dt / 2); m->update(); mc_advance(dl - 1 - mc_now()); } m->update(); REQUIRE(fired == 0 || slack, "a timer fires before its deadline"); REQUIRE(fired || !m->empty(), "empty() although a timer is pending"); mc_advance(1); }
	m->update(); REQUIRE(fired == 1, "a due timer did not fire (%lld ns, form %d)", (long long)dt, form); REQUIRE(m->empty(), "empty() is false although nothing is pending");
}
MC_REG("C18", "odd-durations", odd, 0, 0, 0, 0)
// many timers: added in two lots, some stopped, fire in order; each once
static void many(int n)
{
	auto m = std::make_shared<timer_manager>(); std::vector<int> fired(n), canceled(n); std::vector<detail::timer_target_ptr> p(n); std::vector<timer_handler> h(n); int64_t last = INT64_MIN, t0 = mc_now(); auto dl = [&](int i) { return t0 + (i * 37 % 101) * MS / 3; }; int nested = 0;
	for (int i = 0; i < n; ++i)
	{
		mc_progress(); if (i == n / 2) m->update();
		auto cb = [&, i](bool c) { (c ? canceled : fired)[i]++; if (!c) { REQUIRE(mc_now() >= dl(i), "a timer fires before its deadline"); REQUIRE(dl(i) >= last, "timers fire in the wrong order"); last = dl(i); if (i % 10 == 0) m->add(100ms, [&](bool c) { REQUIRE(!c, "cancelled"); nested++; }); } };
		auto tp = std::chrono::system_clock::now() + std::chrono::nanoseconds(dl(i) - mc_now());
		if (i % 2) p[i] = m->add(tp, cb); else h[i] = m->add_handler(tp, cb);
	}
	for (int i = 3; i < n; i += 5) { bool r = i % 2 ? m->stop(p[i]) : h[i].stop(); REQUIRE(r == (fired[i] == 0), "stop of a %s timer returned %d", fired[i] ? "fired" : "pending", r); }
	for (int s = 0; s < 6; ++s)
	{
		last = INT64_MIN; m->update();
		for (int i = 0; i < n; ++i) { bool stopped = i % 5 == 3 && !(i < n / 2 && dl(i) <= t0); REQUIRE(fired[i] + canceled[i] <= 1, "timer %d fired %d times", i, fired[i] + canceled[i]); if (dl(i) <= mc_now()) REQUIRE(fired[i] == !stopped && canceled[i] == stopped, "timer %d of %d %s", i, n, stopped ? "was stopped but not reported" : "did not fire"); else REQUIRE(!fired[i], "a timer fires before its deadline"); }
		mc_advance(10 * MS);
	}
	int late = 0; for (int i = 0; i < n; ++i) late += i % 10 == 0 && fired[i];
	mc_advance(200 * MS); last = INT64_MIN; m->update(); REQUIRE(nested == late, "%d of %d timers added by callbacks fired", nested, late); REQUIRE(m->empty(), "empty() is false although nothing is pending");
}
MC_REG("C18", "many-129", many, 129, 0, 0, MCF_LONG) MC_REG("C18", "many-1000", many, 1000, 0, 0, MCF_LONG)
MC_REG("C18", "again-66000", endure::timers, 66000, 0, 0, MCF_LONG)
MC_REG("C18", "wide-70000", endure::wide_timers, 70000, 0, 0, MCF_LONG)
