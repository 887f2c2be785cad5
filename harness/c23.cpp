#include "hx.h"
#include "endure.h"
#include <functional>
#include <vector>
// what is known of every task
struct T { task_t* task = nullptr; bool asked = false, requested = false, fin = false, canceled = false; int runs = 0, cbs = 0, live_cb = 0; std::optional<stop_source> src; std::optional<stop_token> first; std::optional<awaitable_t<>> aw; bool waiting = false, woken = false, due = false; };
static T* Z; static int NZ, extra_runs, act_kind; static scheduler_t* S[2];
static void act(int id);
// nested coroutines follow the script of their root
static future_t<> body(const char*& p, int id)
{
	Probe l(1); T& t = Z[id]; std::vector<std::unique_ptr<stop_callback<std::function<void()>>>> cb; int mine = 0;
	struct Un { T& t; int& n; ~Un() { t.live_cb -= n; } } un { t, mine };
	for (;;)
	{
		char c = *p; if (!c) break; ++p; if (c == ')') break;
		task_t* task = librf_current_task(); REQUIRE(task == t.task, "the current task is not the task of the root coroutine");
		switch (c)
		{
		case 'k': { stop_token k = task->get_stop_token(); REQUIRE(k.stop_possible(), "the token of a task cannot be stopped"); if (t.first) REQUIRE(*t.first == k, "a task has two stop states"); else { REQUIRE(!t.asked || t.requested == k.stop_requested(), "the token is wrong"); t.first = k; } t.asked = true; if (!t.src) t.src = task->get_stop_source(); break; }
		case 'c': { stop_token k = task->get_stop_token(); t.asked = true; if (!t.first) { t.first = k; t.src = task->get_stop_source(); } ++mine; ++t.live_cb; if (t.requested) --t.live_cb, --mine; cb.push_back(make_stop_callback(k, std::function<void()>([id] { Z[id].cbs++; act(id); }))); break; }
		case 'd': if (!cb.empty()) { bool out = t.requested; cb.pop_back(); if (!out) { --mine; --t.live_cb; } } break;
		case 'y': co_await yield(); break;
		case 's': try { co_await sleep_for(2ms); } catch (canceled_exception&) { t.canceled = true; } break;
		case 'w': for (;;) { REQUIRE(t.first && t.first->stop_requested() == t.requested, t.requested ? "the request is not seen by task %d" : "task %d sees a request that nobody made", id); if (t.requested) break; t.waiting = true; co_await yield(); } t.waiting = false; break;
		case 'a': { t.aw.emplace(); auto f = t.aw->get_future(); try { t.waiting = true; co_await f; } catch (canceled_exception& e) { REQUIRE(e._error == error_code::stop_requested, "another error arrived"); t.woken = true; } t.waiting = false; break; }
		case 'x': { bool want = !t.requested; t.asked = t.requested = true; REQUIRE(task->request_stop() == want, "request_stop() returned %d", !want); break; }
		case '(': co_await body(p, id); break;
		case '1': co_await via(S[1]); break;
		case '0': co_await via(S[0]); break;
		}
		if (t.first) REQUIRE(t.first->stop_requested() == t.requested, t.requested ? "the request is not seen by task %d" : "task %d sees a request that nobody made", id);
		REQUIRE(librf_current_task() == t.task, "the task of a coroutine changed");
	}
}
static future_t<> root(const char* s, int id) { Probe l(2); const char* p = s; Z[id].task = librf_current_task(); REQUIRE(Z[id].task, "there is no current task"); co_await body(p, id); REQUIRE(librf_current_task() == Z[id].task, "the task of a coroutine changed"); Z[id].fin = true; Z[id].runs++; }
// what a callback does besides
static void all_asked(bool r) { for (int i = 0; i < NZ; ++i) if (Z[i].asked && !Z[i].fin && Z[i].task) Z[i].requested = r; }
static void act(int id)
{
	T& t = Z[id]; (void)t;
	switch (act_kind)
	{
	case 1: go [&]() -> future_t<> { extra_runs++; co_return; }; break;
	case 2: REQUIRE(!S[0]->empty(), "empty() in a stop callback of a task that runs"); break;
	case 3: all_asked(true); S[0]->request_stop_all_if_possible(); break;
	case 4: for (int i = 0; i < NZ; ++i) if (Z[i].aw) { auto a = std::move(*Z[i].aw); Z[i].aw.reset(); Z[i].due = true; a.throw_exception(canceled_exception { error_code::stop_requested }); } break;
	case 5: for (int i = 0; i < NZ; ++i) if (i != id && !Z[i].fin && Z[i].task && Z[i].asked) { Z[i].requested = true; Z[i].task->request_stop(); } break;
	case 6: { auto tm = S[0]->timer()->add(1ms, [](bool) { extra_runs++; }); break; }
	}
}
enum { NONE, TASK, TASKIF, SOURCE, ALL, FROMCO, FROMCO_ALL, HOWS };
static void stop(int how, int who)
{
	T& t = Z[who];
	switch (how)
	{
	case TASK: if (!t.fin && t.task) { bool want = !t.requested; t.requested = t.asked = true; bool r = t.task->request_stop(); REQUIRE(r == want, "request_stop() returned %d", r); } break;
	case TASKIF: if (!t.fin && t.task) { bool want = !t.requested && t.asked; if (want) t.requested = true; bool r = t.task->request_stop_if_possible(); REQUIRE(r == want, "request_stop_if_possible() returned %d", r); } break;
	case SOURCE: if (t.src) { bool want = !t.requested; t.requested = true; bool r = t.src->request_stop(); REQUIRE(r == want, "request_stop() returned %d", r); } break;
	case ALL: all_asked(true); S[0]->request_stop_all_if_possible(); break;
	}
}
// every script ends by itself, or when it is stopped
static const char* SCR[] = { "y", "ky(y)y", "kcyw", "k(cyw)y", "cya", "(k(y)cy)s", "cdyys", "yykx(y)w", "kx(w)c", "kcs" };
struct End { int n; };
static void check_end(int n) { for (int i = 0; i < n; ++i) { REQUIRE(Z[i].fin && Z[i].runs == 1, "task %d never finished", i); if (Z[i].first) REQUIRE(Z[i].first->stop_requested() == Z[i].requested, "the request is forgotten"); } }
static void programs(int arg)
{
	int n = arg % 10, kinds = arg / 10 ? 7 : 1; T z[4]; Z = z; NZ = n; extra_runs = 0;
	{
		local_scheduler_t ls; S[0] = this_scheduler(); S[1] = nullptr; constexpr int NS = sizeof SCR / sizeof *SCR; int sc[4];
		for (int i = 0; i < n; ++i) sc[i] = kinds == 1 || n == 1 ? mc_choose(NS) : (int[]) { 0, 2, 3, 4, 9 }[mc_choose(5)];
		act_kind = kinds == 1 ? 0 : mc_choose(kinds); int how = kinds == 1 ? 1 + mc_choose(HOWS - 1) : (int[]) { TASK, ALL, FROMCO_ALL }[mc_choose(3)], who = n > 1 ? mc_choose(n) : 0, at = mc_choose(7);
		for (int i = 0; i < n; ++i) { task_t* t = go root(SCR[sc[i]], i); REQUIRE(t, "no task"); z[i].task = t; }
		if (how >= FROMCO) go [&]() -> future_t<> { for (int i = 0; i < at; ++i) co_await yield(); stop(how == FROMCO ? TASK : ALL, who); };
		else { batches(at); stop(how, who); }
		batches(24); mc_advance(3 * MS); batches(24);
		for (int i = 0; i < n; ++i) if (z[i].due) REQUIRE(z[i].woken, "the callback did not wake the coroutine"); else if (z[i].waiting) { if (!z[i].aw) REQUIRE(!z[i].requested, "task %d waits although it was stopped", i); }
		// what still waits is stopped one by one
		act_kind = 4; for (int i = 0; i < n; ++i) { if (!z[i].fin) stop(TASK, i); if (z[i].aw) { auto a = std::move(*z[i].aw); z[i].aw.reset(); a.throw_exception(canceled_exception { error_code::stop_requested }); } batches(24); }
		mc_advance(3 * MS); batches(24); for (int i = 0; i < n; ++i) if (z[i].aw) { auto a = std::move(*z[i].aw); z[i].aw.reset(); a.throw_exception(canceled_exception { error_code::stop_requested }); batches(16); }
		check_end(n); drain();
	}
	Probe::check("locals"); Z = nullptr;
}
MC_REG("C23", "programs-1", programs, 1, 0, 0, 0) MC_REG("C23", "programs-2", programs, 2, 0, 0, 0) MC_REG("C23", "programs-3", programs, 3, 0, 0, MCF_THOROUGH)
MC_REG("C23", "callbacks-1", programs, 11, 0, 0, 0) MC_REG("C23", "callbacks-2", programs, 12, 0, 0, 0) MC_REG("C23", "callbacks-3", programs, 13, 0, 0, MCF_THOROUGH)
// how often the callbacks run: every registered one, once, when its own task is stopped
static void count(int arg)
{
	T z[4]; Z = z; NZ = 3; extra_runs = 0; act_kind = arg;
	{
		local_scheduler_t ls; S[0] = this_scheduler(); int k[3]; for (int& x : k) x = mc_choose(3);	// 0 no token, 1 one callback, 2 two (one in a child)
		static const char* P[] = { "yyyyyyyy", "kcw", "kc(cw)yy" };
		for (int i = 0; i < 3; ++i) z[i].task = go root(P[k[i]], i);
		batches(4); int how = mc_choose(2), who = mc_choose(3); if (how) stop(ALL, 0); else if (k[who]) stop(TASK, who);
		bool chain = arg == 3 || arg == 5;	// a callback that stops the others too
		for (int i = 0; i < 3; ++i) { bool stopped = k[i] && (how || i == who || (chain && k[who])); if (arg == 3 && stopped) z[i].requested = true; REQUIRE(z[i].cbs == (stopped ? k[i] : 0), "%d of %d callbacks of task %d ran", z[i].cbs, stopped ? k[i] : 0, i); }
		batches(24); for (int i = 0; i < 3; ++i) if (!z[i].fin) { REQUIRE(!z[i].requested, "task %d waits although it was stopped", i); act_kind = 0; stop(TASK, i); batches(16); }
		check_end(3); mc_advance(2 * MS); drain(); if (arg == 1 || arg == 6) REQUIRE(extra_runs == 0 || extra_runs > 0, "?");
	}
	Probe::check("locals"); Z = nullptr;
}
MC_REG("C23", "count-record", count, 0, 0, 0, 0) MC_REG("C23", "count-launch", count, 1, 0, 0, 0) MC_REG("C23", "count-empty", count, 2, 0, 0, 0) MC_REG("C23", "count-again", count, 3, 0, 0, 0) MC_REG("C23", "count-others", count, 5, 0, 0, 0) MC_REG("C23", "count-timer", count, 6, 0, 0, 0)
// stop-all with timers of every kind pending, also ones whose callbacks use the scheduler
static void timers(int)
{
	{
		local_scheduler_t ls; scheduler_t* s = this_scheduler(); event_t e { false }; mutex_t m; int kind = mc_choose(7), at = mc_choose(4); bool done = false; int n = 0;
		switch (kind)
		{
		case 0: go sleep_for_(5ms, *s); break;	// a sleep that nobody awaits
		case 1: go [&]() -> future_t<> { Probe l(1); try { co_await sleep_for(5ms); } catch (canceled_exception&) { n++; } done = true; }; break;
		case 2: go [&]() -> future_t<> { Probe l(1); bool r = co_await e.wait_for(5ms); REQUIRE(r, "wait_for returned false"); done = true; }; break;	// its timer is gone, the wait stays
		case 3: s->timer()->add(5ms, [&](bool c) { REQUIRE(c, "not cancelled"); n++; go [&]() -> future_t<> { Probe l(1); done = true; co_return; }; }); break;
		case 4: s->timer()->add(5ms, [&](bool) { n++; s->empty(); s->request_stop_all_if_possible(); }); break;
		case 5: go [&]() -> future_t<> { Probe l(1); auto f = sleep_for_(5ms, *s); co_await yield(); (void)f; done = true; }; break;
		case 6: m.try_lock(&e); go [&]() -> future_t<> { Probe l(1); bool r = co_await m.try_lock_for(5ms); REQUIRE(r, "try_lock_for returned false"); m.unlock(librf_root_state()); done = true; }; break;
		}
		batches(at); s->request_stop_all_if_possible(); batches(16); e.signal(); if (kind == 6) m.unlock(&e); batches(16); mc_advance(6 * MS); batches(16);
		if (kind && kind != 4) REQUIRE(done, "the coroutine never finished");
		drain();
	}
	Probe::check("locals");
}
MC_REG("C23", "timers", timers, 0, 0, 0, 0)
// a source or a token is used from another thread at any moment of the task's life
static void threads(int arg)
{
	T z[4]; Z = z; NZ = 2; extra_runs = 0; act_kind = arg == 2 ? 4 : 0;
	{
		std::atomic<int> up { 0 }; std::optional<stop_source> src; std::optional<stop_token> tk; std::atomic<int> req { 0 }, seen { 0 };
		int a = thr([&] {
			local_scheduler_t ls; S[0] = this_scheduler();
			go [&]() -> future_t<> {
				Probe l(1); task_t* t = librf_current_task(); src = t->get_stop_source(); auto k = t->get_stop_token();
				awaitable_t<> aw; auto f = aw.get_future(); std::atomic<int> once { 0 }; int cbs = 0; (void)cbs;
				auto cb = make_stop_callback(k, [&] { seen.fetch_add(1); if (arg == 1 && once.fetch_add(1) == 0) aw.set_value(); });
				up.store(1);
				if (arg == 0) { while (!k.stop_requested()) co_await yield(); }
				else if (arg == 1) { co_await f; REQUIRE(k.stop_requested(), "woken although nobody stopped the task"); }
				else { for (int i = 0; i < 2; ++i) co_await yield(); }
				cb.reset(); int s = seen.load(); mc_point(); REQUIRE(s == seen.load(), "a callback ran after its destruction"); if (arg < 2) REQUIRE(s == 1, "the callback ran %d times", s);
			};
			go [&]() -> future_t<> { Probe l(1); for (int i = 0; i < 2; ++i) { REQUIRE(!librf_current_task()->get_stop_token().stop_requested(), "another task sees the request"); co_await yield(); } };
			drain();
		});
		int b = thr([&] { while (!up.load()) mc_point(); stop_source s = *src; bool r = s.request_stop(); REQUIRE(r && s.stop_requested(), "request_stop() returned false"); });
		join_all(a, b);
	}
	Probe::check("locals"); Z = nullptr;
}
MC_REG("C23", "thread-poll", threads, 0, 3, 5, 0) MC_REG("C23", "thread-wake", threads, 1, 3, 5, 0) MC_REG("C23", "thread-late", threads, 2, 3, 5, 0)
// the token goes with the task to another scheduler; stop-all there and here
static void moved(int arg)
{
	T z[4]; Z = z; NZ = 2; std::atomic<int> up { 0 }, done { 0 }, out { 0 };
	{
		act_kind = 0;
		auto drive = [&](int k) {
			local_scheduler_t ls; S[k] = this_scheduler(); up.fetch_add(1); while (up.load() < 2) mc_point();
			if (k == 0) go [&]() -> future_t<> {
				Probe l(1); task_t* t = librf_current_task(); auto tk = t->get_stop_token(); co_await via(S[1]); REQUIRE(librf_current_task() == t, "the task changed with the scheduler"); REQUIRE(librf_current_task()->get_stop_token() == tk, "the token changed with the scheduler");
				if (arg == 1) S[1]->request_stop_all_if_possible(); if (arg == 2) co_await via(S[0]); if (arg == 2) S[0]->request_stop_all_if_possible(); if (arg == 3) t->request_stop();
				REQUIRE(tk.stop_requested() == (arg > 0), "stop_requested() is %d", (int)tk.stop_requested()); done.fetch_add(1); };
			if (k == 0) go [&]() -> future_t<> { Probe l(1); auto tk = librf_current_task()->get_stop_token(); co_await yield(); if (arg != 2) REQUIRE(!tk.stop_requested(), "another task sees the request"); done.fetch_add(1); };
			while (done.load() < 2 || !this_scheduler()->empty()) this_scheduler()->run_one_batch(); out.fetch_add(1); while (out.load() < 2) this_scheduler()->run_one_batch(); };
		int a = thr([&] { drive(0); }), b = thr([&] { drive(1); }); join_all(a, b);
	}
	Probe::check("locals"); Z = nullptr;
}
MC_REG("C23", "moved", moved, 0, 3, 4, 0) MC_REG("C23", "moved-all-there", moved, 1, 3, 4, 0) MC_REG("C23", "moved-all-back", moved, 2, 3, 4, 0) MC_REG("C23", "moved-self", moved, 3, 3, 4, 0)
// hundreds of tasks; stop-all, with stops and ends before
static void many(int n)
{
	{
		local_scheduler_t ls; scheduler_t* s = this_scheduler(); std::vector<int> state(n, 0), cbs(n, 0); int pat = mc_choose(3), at = mc_choose(4), how = mc_choose(3);
		auto work = [&](int i) -> future_t<> {
			Probe l(1); if (i % 4 == 3 && pat) { state[i] = 1; co_return; } stop_token k = librf_current_task()->get_stop_token(); REQUIRE(!k.stop_requested(), "task %d sees a request that nobody made", i); auto cb = make_stop_callback(k, [&, i] { cbs[i]++; });
			while (!k.stop_requested()) { if (pat == 2 && i % 5 == 2) { try { co_await sleep_for(1ms); } catch (canceled_exception&) { } } else co_await yield(); } state[i] = 2; };
		std::vector<task_t*> t(n); for (int i = 0; i < n; ++i) t[i] = go work(i);
		batches(1 + at); if (how == 1) for (int i = 0; i < n; i += 3) if (state[i] == 0) t[i]->request_stop();
		if (how == 2) { for (int i = n - 1; i >= 0; --i) if (state[i] == 0) t[i]->request_stop(); } else s->request_stop_all_if_possible();
		for (int i = 0; i < 3; ++i) { batches(12); mc_advance(MS); }
		for (int i = 0; i < n; ++i) { int want = i % 4 == 3 && pat ? 1 : 2; REQUIRE(state[i] == want, state[i] ? "a task ended in the wrong way" : "task %d waits although it was stopped", i); REQUIRE(cbs[i] == (want == 2), "the callback of task %d ran %d times", i, cbs[i]); }
		int fresh = 0; go [&]() -> future_t<> { stop_token k = librf_current_task()->get_stop_token(); co_await yield(); REQUIRE(!k.stop_requested(), "a task launched after stop-all is stopped"); fresh = 1; }; drain(); REQUIRE(fresh, "a coroutine never ran");
	}
	Probe::check("locals");
}
MC_REG("C23", "many-40", many, 40, 0, 0, MCF_LONG) MC_REG("C23", "many-300", many, 300, 0, 0, MCF_LONG)
// a request through the task before anybody asked for a token: it is seen later
static void before(int)
{
	{
		local_scheduler_t ls; int how = mc_choose(4), when = mc_choose(3), child = mc_choose(2), fin = 0; bool want = how == 0 || how == 3;
		auto inner = [&](task_t* t) -> future_t<> { stop_token k = t->get_stop_token(); REQUIRE(k.stop_requested() == want, want ? "the request is not seen" : "a request is seen that nobody made"); int n = 0; auto cb = make_stop_callback(k, [&] { n++; }); REQUIRE(n == want, "the callback ran %d times", n); co_await yield(); REQUIRE(t->get_stop_source().stop_requested() == want, "the request is forgotten"); };
		auto work = [&]() -> future_t<> { Probe l(1); for (int i = 0; i < 2; ++i) co_await yield(); task_t* t = librf_current_task(); if (child) co_await inner(t); else { stop_token k = t->get_stop_token(); REQUIRE(k.stop_requested() == want, want ? "the request is not seen" : "a request is seen that nobody made"); } fin++; };
		task_t* t = go work(); batches(when);
		switch (how) { case 0: REQUIRE(t->request_stop() && !t->request_stop(), "request_stop() is wrong"); break; case 1: REQUIRE(!t->request_stop_if_possible(), "request_stop_if_possible() without a state returned true"); break; case 2: this_scheduler()->request_stop_all_if_possible(); break; case 3: { stop_source s = t->get_stop_source(); REQUIRE(s.request_stop(), "request_stop() returned false"); break; } }
		drain(); REQUIRE(fin == 1, "a coroutine never finished");
	}
	Probe::check("locals");
}
MC_REG("C23", "before-the-token", before, 0, 0, 0, 0)
MC_REG("C23", "again-33000", endure::tasks, 33000, 0, 0, MCF_LONG)
