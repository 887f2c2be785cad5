// The same thing over and over: every round must go as the first one did, however many went before.
#pragma once
namespace endure
{
	template<class C> void settle(C c) { for (int j = 0; !c() && j < 12; ++j) batches(1); }	// a wake-up may take a few batches
	inline void drive(const bool& stop) { while (!stop) { mc_progress(); this_scheduler()->run_one_batch(); } }
	inline void yields(int n)
	{
		local_scheduler_t ls; int at[3] = {};
		auto f = [&](int k) -> future_t<> { for (int i = 0; i < n; ++i) { mc_progress(); at[k]++; for (int j = 0; j < 3; ++j) REQUIRE(at[j] == at[k] || at[j] == at[k] - (j > k ? 1 : 0), "coroutine %d made %d steps and coroutine %d made %d", k, at[k], j, at[j]); co_await yield(); } };
		for (int k = 0; k < 3; ++k) go f(k); drain(); for (int k = 0; k < 3; ++k) REQUIRE(at[k] == n, "coroutine %d made %d of %d steps", k, at[k], n);
	}
	inline void launches(int n)
	{
		local_scheduler_t ls; int ran = 0; auto f = [&](int i) -> future_t<> { REQUIRE(ran == i, "coroutine %d ran as number %d", i, ran); ran++; if (i % 3 == 0) co_await yield(); };
		for (int i = 0; i < n; ++i) { mc_progress(); go f(i); REQUIRE(!this_scheduler()->empty(), "a scheduler with a task says it is empty"); drain(); REQUIRE(ran == i + 1, "%d coroutines ran after %d launches", ran, i + 1); REQUIRE(this_scheduler()->empty(), "not empty after everything ended"); }
	}
	inline void mutexes(int n)
	{
		local_scheduler_t ls; mutex_t m; int turn = 0, in = 0; bool over = false; int left = 3;
		auto f = [&](int k) -> future_t<> { for (int i = 0; i < n; ++i) { mc_progress(); { auto g = co_await m.lock(); REQUIRE(in++ == 0, "two owners"); REQUIRE(turn % 3 == k, "coroutine %d has its turn before coroutine %d", k, turn % 3); turn++; co_await yield(); in--; } } if (--left == 0) over = true; };
		for (int k = 0; k < 3; ++k) go f(k); drive(over); drain(); REQUIRE(turn == 3 * n, "%d of %d turns", turn, 3 * n); REQUIRE(rests_free(m), "the mutex is not free at the end");
	}
	inline void timed_mutexes(int n)
	{
		local_scheduler_t ls; mutex_t m; char a; int last = -1, at = 0;
		auto f = [&]() -> future_t<> { for (int i = 0; i < n; ++i) { bool r = co_await m.try_lock_for(1ms); if (r) co_await m.unlock(); last = r; at = i + 1; co_await yield(); } };
		REQUIRE(m.try_lock(&a), "the mutex is not free at first"); go f(); batches(4);
		for (int i = 0; i < n; ++i)
		{
			mc_progress(); batches(3); REQUIRE(at == i, "round %d: %d waits ended", i, at);
			if (i % 2) m.unlock(&a); else mc_advance(MS);
			settle([&] { return at > i; });
			REQUIRE(at == i + 1 && last == i % 2, "round %d: %s", i, at == i ? "the wait did not end" : "the wait ended with the other result");
			if (i % 2) REQUIRE(m.try_lock(&a), "round %d: the mutex was not released", i);
		}
		m.unlock(&a); drain(); REQUIRE(rests_free(m), "the mutex is not free at the end");
	}
	inline void futures(int n)
	{
		local_scheduler_t ls; int got = 0; auto f = [&](future_t<int> u, int i) -> future_t<> { int v = co_await u; REQUIRE(v == i && got == i, "round %d brought %d", i, v); got++; };
		for (int i = 0; i < n; ++i) { mc_progress(); awaitable_t<int> aw; auto u = aw.get_future(); if (i % 2) aw.set_value(i); go f(std::move(u), i); if (i % 2 == 0) { batches(1); REQUIRE(got == i, "resumed without a result"); aw.set_value(i); } drain(); REQUIRE(got == i + 1, "round %d: not resumed", i); }
	}
	inline void exceptions(int n)
	{
		local_scheduler_t ls; int got = 0; auto t = [](int i) -> future_t<int> { if (i % 2) co_await yield(); if (i % 3 != 2) throw i; co_return i; };
		auto f = [&]() -> future_t<> { for (int i = 0; i < n; ++i) { mc_progress(); int v = -1; bool ex = false; try { v = co_await t(i); } catch (int x) { v = x; ex = true; } REQUIRE(v == i && ex == (i % 3 != 2), "round %d brought %s %d", i, ex ? "exception" : "value", v); got++; } };
		go f(); drain(); REQUIRE(got == n, "%d of %d rounds", got, n);
	}
	inline void timed_waits(int n)
	{
		local_scheduler_t ls; event_t e; int at = 0, last = -1; auto f = [&]() -> future_t<> { for (int i = 0; i < n; ++i) { bool r = co_await e.wait_for(1ms); last = r; at = i + 1; } };
		go f(); batches(4);
		for (int i = 0; i < n; ++i) { mc_progress(); batches(3); REQUIRE(at == i, "round %d: %d waits ended", i, at); if (i % 3 == 1) e.signal(); else mc_advance(MS); settle([&] { return at == i + 1; }); REQUIRE(at == i + 1 && last == (i % 3 == 1), "round %d: the wait %s", i, at != i + 1 ? "did not end" : "ended with the other result"); }
		mc_advance(2 * MS); drain();
	}
	inline void broadcasts(int n)
	{
		local_scheduler_t ls; event_t e; int at[2] = {}; auto f = [&](int k) -> future_t<> { for (int i = 0; i < n; ++i) { bool r = co_await e; REQUIRE(r, "wait returned false"); at[k]++; } }; for (int k = 0; k < 2; ++k) go f(k); batches(4);
		for (int i = 0; i < n; ++i) { mc_progress(); batches(2); REQUIRE(at[0] == i && at[1] == i, "round %d: %d and %d waits ended", i, at[0], at[1]); e.signal_all(); settle([&] { return at[0] == i + 1 && at[1] == i + 1; }); if (i % 5 == 4) e.reset(); }
		drain(); REQUIRE(at[0] == n && at[1] == n, "%d and %d waits ended", at[0], at[1]);
		for (int i = 0; i < n; ++i) { mc_progress(); e.signal(); if (i % 7 == 0) { e.signal(); } e.reset(); } int x = 0; auto g = [&]() -> future_t<> { (void)co_await e; x++; }; go g(); batches(3); REQUIRE(x == 0, "a signal survived reset()"); e.signal(); drain(); REQUIRE(x == 1, "not released");
	}
	inline void wait_alls(int n)
	{
		local_scheduler_t ls; event_t e[2]; int at = 0; auto f = [&]() -> future_t<> { for (int i = 0; i < n; ++i) { std::vector<event_t> v { e[0], e[1] }; bool r = co_await event_t::wait_all(v); REQUIRE(r, "wait_all returned false"); at++; } };
		go f(); batches(4); for (int i = 0; i < n; ++i) { mc_progress(); batches(2); e[i % 2].signal(); batches(2); REQUIRE(at == i, "round %d: ended with one signal of two", i); e[1 - i % 2].signal(); settle([&] { return at == i + 1; }); REQUIRE(at == i + 1, "round %d: did not end", i); } drain();
	}
	inline void sleeps(int n)
	{
		local_scheduler_t ls; int at = 0; auto f = [&]() -> future_t<> { for (int i = 0; i < n; ++i) { co_await sleep_for(1ms); at++; } };
		go f(); batches(4); for (int i = 0; i < n; ++i) { mc_progress(); batches(3); mc_advance(MS - 1); batches(1); REQUIRE(at == i, "round %d: woke early", i); mc_advance(1); settle([&] { return at == i + 1; }); REQUIRE(at == i + 1, "round %d: did not wake", i); } drain();
	}
	inline void timers(int n)
	{
		auto tm = std::make_shared<timer_manager>(); int fired = 0, cancelled = 0;
		for (int i = 0; i < n; ++i)
		{
			mc_progress(); auto h = tm->add_handler(std::chrono::milliseconds(1), [&](bool c) { (c ? cancelled : fired)++; }); REQUIRE(!tm->empty(), "empty with a timer");
			bool stop = i % 3 == 1; if (i % 2) tm->update(); if (stop) REQUIRE(h.stop(), "round %d: stop() refused", i); mc_advance(MS); tm->update(); REQUIRE(fired + cancelled == i + 1 && cancelled == (i + 2) / 3, "round %d: %d fired, %d cancelled", i, fired, cancelled); REQUIRE(tm->empty(), "round %d: not empty", i); REQUIRE(!h.stop(), "round %d: stopped after the end", i);
		}
	}
	inline void all_of(int n)
	{
		local_scheduler_t ls; int at = 0; auto one = [](int i, int k) -> future_t<int> { if ((i + k) % 2) co_await yield(); co_return 2 * i + k; };
		auto f = [&]() -> future_t<> { for (int i = 0; i < n; ++i) { mc_progress(); auto [a, b] = co_await when_all(one(i, 0), one(i, 1)); REQUIRE(a == 2 * i && b == 2 * i + 1, "round %d brought %d and %d", i, a, b); at++; } }; go f(); drain(); REQUIRE(at == n, "%d of %d rounds", at, n);
	}
	inline void any_of(int n)
	{
		local_scheduler_t ls; int at = 0; auto one = [](int i, int k) -> future_t<int> { if ((i + k) % 2) { co_await yield(); co_await yield(); co_await yield(); } co_return 2 * i + k; };
		auto f = [&]() -> future_t<> { for (int i = 0; i < n; ++i) { mc_progress(); auto [x, v] = co_await when_any(one(i, 0), one(i, 1)); REQUIRE(x == i % 2 && std::any_cast<int>(v) == 2 * i + i % 2, "round %d: number %d came first", i, (int)x); at++; } }; go f(); drain(); REQUIRE(at == n, "%d of %d rounds", at, n);
	}
	inline void callbacks(int n)
	{
		stop_source src; int ran = 0; auto body = [&] { ran++; }; typedef stop_callback<decltype(body)> CB;
		for (int i = 0; i < n; ++i) { mc_progress(); CB a(src.get_token(), body); if (i % 2) { CB b(src.get_token(), body); } stop_token t = src.get_token(); REQUIRE(t.stop_possible() && !t.stop_requested(), "round %d: the token is wrong", i); }
		{ CB a(src.get_token(), body); REQUIRE(ran == 0, "a callback ran without a request"); REQUIRE(src.request_stop(), "the first request was refused"); REQUIRE(ran == 1, "%d callbacks ran", ran); }
		for (int i = 0; i < n; ++i) { mc_progress(); REQUIRE(!src.request_stop(), "a second request was accepted"); CB a(src.get_token(), body); REQUIRE(ran == i + 2, "round %d: a late callback did not run at once", i); }
	}
	inline void tasks(int n)
	{
		local_scheduler_t ls; int ended = 0, seen = 0; auto f = [&](int i) -> future_t<> { auto t = librf_current_task()->get_stop_token(); REQUIRE(!t.stop_requested(), "task %d is stopped from the start", i); co_await yield(); REQUIRE(t.stop_requested() == (i % 3 == 0), "task %d: the stop request of another task, or none", i); seen += t.stop_requested(); ended++; };
		for (int i = 0; i < n; ++i) { mc_progress(); task_t* t = go f(i); batches(1); if (i % 3 == 0) { if (i % 2) (void)t->request_stop(); else this_scheduler()->request_stop_all_if_possible(); } drain(); REQUIRE(ended == i + 1, "task %d did not end", i); }
	}
	inline void many_locks(int n)
	{
		local_scheduler_t ls; mutex_t a, b; int in = 0, done = 0; auto f = [&](int k) -> future_t<> { for (int i = 0; i < n; ++i) { mc_progress(); if (k) { auto g = co_await mutex_t::lock(a, b); REQUIRE(in++ == 0, "two owners"); co_await yield(); in--; } else { auto g = co_await mutex_t::lock(b, a); REQUIRE(in++ == 0, "two owners"); co_await yield(); in--; } } done++; };
		go f(0); go f(1); while (done < 2) { mc_progress(); this_scheduler()->run_one_batch(); } drain(); REQUIRE(rests_free(a) && rests_free(b), "a mutex is not free at the end");
	}
	inline void spins(int n) { spinlock s; for (int i = 0; i < n; ++i) { mc_progress(); if (i % 2) s.lock(); else REQUIRE(s.try_lock(), "round %d: try_lock failed on a free lock", i); REQUIRE(!s.try_lock(), "round %d: locked twice", i); s.unlock(); } }
	inline void queues(int n)
	{
		local_scheduler_t ls; event_t e; mutex_t m; int at = 0; bool over = false; (void)e;
		auto f = [&](int k) -> future_t<> { for (int i = 0; i < n; ++i) { mc_progress(); auto g = co_await m.lock(); at++; co_await yield(); } if (k == 0) over = true; }; go f(0); go f(1); drive(over); drain(); REQUIRE(at == 2 * n, "%d of %d turns", at, 2 * n); REQUIRE(rests_free(m), "the mutex is not free at the end");
	}
	// ------------------------------------------------------------------------------------------------ very many at once
	inline void wide_all(int n)
	{
		local_scheduler_t ls; int at = 0; auto one = [](int i) -> future_t<int> { mc_progress(); if (i % 3 == 0) co_await yield(); co_return i + 1; };
		auto f = [&]() -> future_t<> { std::vector<future_t<int>> v; v.reserve(n); for (int i = 0; i < n; ++i) { mc_progress(); v.push_back(one(i)); } auto r = co_await when_all(v); REQUIRE((int)r.size() == n, "%d results instead of %d", (int)r.size(), n); for (int i = 0; i < n; ++i) { mc_progress(); REQUIRE(r[i] == i + 1, "result %d is %d", i, r[i]); } at++; };
		go f(); drain(); REQUIRE(at == 1, "the caller was not resumed");
	}
	inline void wide_any(int n)
	{
		local_scheduler_t ls; int at = 0, ended = 0; event_t e(false); const int win = n - 3; auto one = [&](int i) -> future_t<int> { mc_progress(); if (i != win) (void)co_await e; ended++; co_return i + 1; };
		auto f = [&]() -> future_t<> { std::vector<future_t<int>> v; v.reserve(n); for (int i = 0; i < n; ++i) { mc_progress(); v.push_back(one(i)); } auto [x, r] = co_await when_any(v); REQUIRE(x == win && std::any_cast<int>(r) == win + 1, "number %d came first", (int)x); at++; };
		go f(); settle([&] { return at == 1; }); REQUIRE(at == 1, "the caller was not resumed"); for (int i = 0; i < n; ++i) { mc_progress(); e.signal(); } drain(); REQUIRE(ended == n, "%d of %d ended", ended, n);
	}
	inline void wide_events(int n)
	{
		local_scheduler_t ls; int at = 0; std::vector<event_t> v; v.reserve(n); for (int i = 0; i < n; ++i) { mc_progress(); v.emplace_back(i % 2 == 0); }
		auto f = [&]() -> future_t<> { bool r = co_await event_t::wait_all(v); REQUIRE(r, "wait_all returned false"); at++; }; go f(); batches(3);
		for (int i = 1; i < n; i += 2) { mc_progress(); REQUIRE(at == 0, "ended before every event was signalled"); v[i].signal(); } settle([&] { return at == 1; }); REQUIRE(at == 1, "did not end"); drain();
	}
	inline void wide_waiters(int n)
	{
		local_scheduler_t ls; event_t e(false); int at = 0; auto f = [&](int i) -> future_t<> { mc_progress(); bool r = co_await e; REQUIRE(r, "wait returned false"); REQUIRE(at == i, "waiter %d came as number %d", i, at); at++; };
		for (int i = 0; i < n; ++i) { mc_progress(); go f(i); } batches(3); REQUIRE(at == 0, "%d waits ended without a signal", at);
		for (int i = 0; i < n - 5; ++i) { mc_progress(); e.signal(); } batches(4); REQUIRE(at == n - 5, "%d waits ended after %d signals", at, n - 5); e.signal_all(); drain(); REQUIRE(at == n, "%d of %d waits ended", at, n);
	}
	inline void wide_broadcast(int n)
	{
		local_scheduler_t ls; event_t e(false); int at = 0; auto f = [&]() -> future_t<> { mc_progress(); bool r = co_await e; REQUIRE(r, "wait returned false"); at++; };
		for (int i = 0; i < n; ++i) { mc_progress(); go f(); } batches(3); REQUIRE(at == 0, "%d waits ended without a signal", at); mc_progress(); mc_spin(100 * n); e.signal_all(); drain(); REQUIRE(at == n, "%d of %d waits ended", at, n);
	}
	inline void wide_mutex(int n)
	{
		local_scheduler_t ls; mutex_t m; char a; int at = 0; auto f = [&](int i) -> future_t<> { mc_progress(); auto g = co_await m.lock(); REQUIRE(at == i, "waiter %d came as number %d", i, at); at++; };
		REQUIRE(m.try_lock(&a), "the mutex is not free at first"); for (int i = 0; i < n; ++i) { mc_progress(); go f(i); } batches(3); REQUIRE(at == 0, "the mutex was given away twice"); m.unlock(&a); drain(); REQUIRE(at == n, "%d of %d waits ended", at, n); REQUIRE(rests_free(m), "the mutex is not free at the end");
	}
	inline void deep_mutex(int n)	// the same owner again and again
	{
		local_scheduler_t ls; mutex_t m; char a, b; for (int i = 0; i < n; ++i) { mc_progress(); REQUIRE(m.try_lock(&a), "level %d was refused to the owner", i); } REQUIRE(!m.try_lock(&b), "given away twice");
		for (int i = 0; i < n; ++i) { mc_progress(); REQUIRE(m.is_locked() && (i % 64 || !m.try_lock(&b)), "free with %d levels left", n - i); m.unlock(&a); } REQUIRE(rests_free(m), "the mutex is not free at the end");
	}
	inline void wide_timers(int n)
	{
		auto tm = std::make_shared<timer_manager>(); int fired = 0; int64_t t0 = mc_now(); (void)t0; std::vector<detail::timer_target_ptr> v; int64_t last = -1;
		for (int i = 0; i < n; ++i) { mc_progress(); int64_t d = (int64_t)i * 7919 % n + 1; v.push_back(tm->add(std::chrono::nanoseconds(d), [&, d](bool c) { mc_progress(); REQUIRE(!c && d > last, "timer %lld fired after timer %lld", (long long)d, (long long)last); last = d; fired++; })); }
		mc_spin(100 * n); tm->update(); REQUIRE(fired == 0, "early"); mc_advance(n / 2); tm->update(); REQUIRE(fired == n / 2, "%d of %d timers fired", fired, n / 2); mc_advance(n); tm->update(); REQUIRE(fired == n && tm->empty(), "%d of %d timers fired", fired, n);
	}
	inline void wide_callbacks(int n)
	{
		stop_source src; int ran = 0; auto body = [&] { mc_progress(); ran++; }; typedef stop_callback<decltype(body)> CB; std::vector<std::unique_ptr<CB>> v; std::vector<stop_token> t;
		for (int i = 0; i < n; ++i) { mc_progress(); v.emplace_back(new CB(src.get_token(), body)); t.push_back(src.get_token()); } for (int i = 0; i < n; i += 3) { mc_progress(); v[i].reset(); }
		REQUIRE(src.request_stop(), "refused"); int want = n - (n + 2) / 3; REQUIRE(ran == want, "%d of %d callbacks ran", ran, want); for (auto& x : t) { mc_progress(); REQUIRE(x.stop_requested(), "a token does not show the request"); }
	}
	inline void wide_locks(int n)
	{
		std::vector<spinlock> v(n); { mc_spin(1 << 30); batch_lock_t<spinlock> g(v); mc_progress(); for (auto& s : v) { mc_progress(); REQUIRE(!s.try_lock(), "not locked"); } } for (auto& s : v) { mc_progress(); REQUIRE(s.try_lock(), "not unlocked"); }
	}
	inline void wide_channel(int n)	// as many blocked writers as there are values
	{
		local_scheduler_t ls; channel_t<int> c(3); int at = 0; auto w = [&](int i) -> future_t<> { mc_progress(); co_await c.write(i); }; auto r = [&]() -> future_t<> { for (int i = 0; i < n; ++i) { mc_progress(); int v = co_await c.read(); REQUIRE(v == i, "value %d came as number %d", v, i); at++; } };
		for (int i = 0; i < n; ++i) { mc_progress(); go w(i); } batches(3); go r(); drain(); REQUIRE(at == n, "%d of %d values", at, n);
	}
	inline void wide_buffer(int n)	// a buffer of n places, filled, emptied and filled again
	{
		local_scheduler_t ls; channel_t<int> c(n); int at = 0, done = 0; bool full = false; auto w = [&]() -> future_t<> { for (int i = 0; i < 2 * n; ++i) { mc_progress(); co_await c.write(i); done++; } }; go w(); batches(3);
		REQUIRE(done == n, "%d writes into a buffer of %d ended", done, n); (void)full; auto r = [&]() -> future_t<> { for (int i = 0; i < 2 * n; ++i) { mc_progress(); int v = co_await c.read(); REQUIRE(v == i, "value %d came as number %d", v, i); at++; } }; go r(); drain(); REQUIRE(at == 2 * n && done == 2 * n, "%d of %d values", at, 2 * n);
	}
}
