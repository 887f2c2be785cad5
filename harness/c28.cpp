#include "hx.h"
#include <any>
#include <mutex>
// Everything here is flagged MCF_RACE: two accesses to the same byte, one of them a write and one not atomic, that the
// C++ memory model leaves unordered are a violation, be they the harness's (the payload) or the library's own.
#define R28(name, fn, arg, pq, pt) MC_REG("C28", name, fn, arg, pq, pt, MCF_RACE)
#define R28T(name, fn, arg, pq, pt) MC_REG("C28", name, fn, arg, pq, pt, MCF_RACE | MCF_THOROUGH)
// the payload: ordinary memory, written before a hand-over and read after it
struct Data { int d[24] = {}; };
static Data* D;
static void put(int i) { D->d[i] = 100 + i; }
static void got(int i) { REQUIRE(D->d[i] == 100 + i, "what was written before the hand-over (%d) is not there", i); }
static void bump(int i) { int v = D->d[i]; D->d[i] = v + 1; }
struct Payload { Data data; Payload() { D = &data; } ~Payload() { D = nullptr; } };
// ---- events: signals by plain threads and coroutines, waits of every kind
static future_t<> w1(event_t e, int kind, int n, int base)
{
	for (int i = 0; i < n; ++i)
	{
		bool r = true;
		switch (kind)
		{
		case 0: r = co_await e.wait(); break;
		case 1: r = co_await e.wait_for(50ms); break;
		case 2: r = co_await e; break;
		case 3: r = co_await event_t::wait_all(std::vector<event_t> { e }); break;
		case 4: r = co_await e.wait_until(std::chrono::system_clock::now() + 50ms); break;
		case 5: r = co_await event_t::wait_all_for(50ms, std::vector<event_t> { e }); break;
		}
		if (r) got(base + i);
	}
}
static future_t<> s1(event_t e, int n, bool all, int base) { for (int i = 0; i < n; ++i) { put(base + i); if (all) e.signal_all(); else e.signal(); co_await yield(); } }
static future_t<> par(event_t e, int kind, int n) { co_await w1(e, kind, n, 0); }
// arg: kind of wait, + 10 two rounds, + 100 the waiter is a child, + 1000 a coroutine signals
static void ev(int arg)
{
	{
		Payload p; event_t e { false }; int kind = arg % 10, n = 1 + arg / 10 % 10; bool child = arg / 100 % 10;
		int a = sched_thr([=] { if (child) go par(e, kind, n); else go w1(e, kind, n, 0); });
		int b = arg >= 1000 ? sched_thr([=] { go s1(e, n, false, 0); }) : thr([=] { event_t x = e; for (int i = 0; i < n; ++i) { put(i); x.signal(); } });
		e = event_t { false };	// everybody has his own handle; the last one frees it
		join_all(a, b);
	}
}
R28("event-wait", ev, 0, 4, 6) R28("event-wait-2", ev, 10, 3, 4) R28("event-wait-child", ev, 110, 3, 4) R28("event-wait-for", ev, 1, 3, 4) R28("event-wait-for-2", ev, 11, 2, 3) R28("event-co-await", ev, 12, 3, 4) R28("event-all-1", ev, 3, 3, 5) R28("event-until", ev, 4, 3, 4) R28("event-all-for", ev, 5, 3, 4) R28("event-co-signal", ev, 1010, 2, 3) R28("event-co-signal-for", ev, 1001, 2, 3)
// two waiters on two threads, signal_all when both wait or one signal each
static void ev_two(int all)
{
	Payload p; event_t e { false }; auto wt = [=](int) { return sched_thr([=] { go [=]() -> future_t<> { event_t x = e; bool r = all ? co_await x.wait_for(5ms) : co_await x.wait(); if (r) { got(0); } }; }); };
	int a = wt(0), b = wt(1); int c = thr([=] { event_t x = e; put(0); if (all) x.signal_all(); else { x.signal(); x.signal(); } });
	join_all(a, b, c);
}
R28("event-signal-2", ev_two, 0, 2, 3) R28("event-signal-all", ev_two, 1, 1, 3)
// wait_all: everything that any of the signalling threads did
static void ev_all(int timed)
{
	Payload p; event_t e[2] { event_t { false }, event_t { false } };
	int a = sched_thr([=] { go [=]() -> future_t<> { std::vector<event_t> v { e[0], e[1] }; bool r = timed ? co_await event_t::wait_all_for(50ms, v) : co_await event_t::wait_all(v); if (r) { got(0); got(1); } }; });
	int b = thr([=] { event_t x = e[0]; put(0); x.signal(); }), c = thr([=] { event_t x = e[1]; put(1); x.signal(); });
	join_all(a, b, c);
}
R28("event-all-2", ev_all, 0, 2, 3) R28("event-all-for-2", ev_all, 1, 2, 3)
// reset: a signal that was reset is not seen; the one after it carries its own data
static void ev_reset(int)
{
	Payload p; event_t e { false };
	int a = sched_thr([=] { go [=]() -> future_t<> { event_t x = e; bool r = co_await x.wait_for(50ms); if (r) got(0); }; });
	int b = thr([=] { event_t x = e; put(0); x.signal(); x.reset(); x.signal(); });
	join_all(a, b);
}
R28("event-reset", ev_reset, 0, 3, 4)
// ---- channels: the value and what was written before it
struct Msg { int id = -1; int* body = nullptr; };
// arg: capacity, + 10 * writers, + 100 coroutines of one scheduler read twice, + 1000 plain writers
static void ch(int arg)
{
	int cap = arg % 10, nw = arg / 10 % 10; bool plain = arg >= 1000; int per = arg / 100 % 10 ? 2 : 1;
	{
		Payload p; std::vector<int> t;
		{
			channel_t<Msg> c(cap);
			t.push_back(sched_thr([=] { go [=]() -> future_t<> { channel_t<Msg> x = c; for (int i = 0; i < nw * per; ++i) { Msg m = co_await x; got(m.id); REQUIRE(*m.body == m.id, "the message is not what was sent"); delete m.body; } }; }));
			for (int w = 0; w < nw; ++w)
			{
				if (plain) t.push_back(thr([=] { channel_t<Msg> x = c; for (int i = 0; i < per; ++i) { int id = w * per + i; put(id); Msg m; m.id = id; m.body = new int(id); (void)x.write(m); } }));
				else t.push_back(sched_thr([=] { go [=]() -> future_t<> { channel_t<Msg> x = c; for (int i = 0; i < per; ++i) { int id = w * per + i; put(id); Msg m; m.id = id; m.body = new int(id); co_await (x << m); } }; }));
			}
		}
		for (int i : t) mc_join(i);
	}
}
R28("channel-0", ch, 10, 3, 5) R28("channel-1", ch, 11, 3, 5) R28("channel-2", ch, 112, 3, 4) R28("channel-1-twice", ch, 111, 3, 4) R28("channel-0-twice", ch, 110, 3, 4) R28("channel-1-two", ch, 21, 1, 3) R28("channel-0-two", ch, 20, 1, 3) R28("channel-plain", ch, 1111, 3, 4)
static void ch_readers(int cap)
{
	Payload p; std::vector<int> t;
	{
		channel_t<int> c(cap);
		for (int k = 0; k < 2; ++k) t.push_back(sched_thr([=] { go [=]() -> future_t<> { channel_t<int> x = c; int v = co_await x; got(v); bump(v); }; }));
		t.push_back(sched_thr([=] { go [=]() -> future_t<> { channel_t<int> x = c; for (int i = 0; i < 2; ++i) { put(i); co_await (x << i); } }; }));
	}
	for (int i : t) mc_join(i);
}
R28("channel-0-readers", ch_readers, 0, 1, 3) R28("channel-1-readers", ch_readers, 1, 1, 3)
static void ch_void(int cap)
{
	Payload p; int a, b;
	{
		channel_t<> c(cap);
		a = sched_thr([=] { go [=]() -> future_t<> { channel_t<> x = c; co_await x.read(); got(0); co_await x.read(); got(1); }; });
		b = sched_thr([=] { go [=]() -> future_t<> { channel_t<> x = c; put(0); co_await x.write(true); put(1); co_await x.write(true); }; });
	}
	join_all(a, b);
}
R28("channel-void-0", ch_void, 0, 3, 4) R28("channel-void-1", ch_void, 1, 3, 4)
// there and back: the answer
static void ch_pingpong(int cap)
{
	Payload p; int a, b;
	{
		channel_t<int> c(cap), r(cap);
		a = sched_thr([=] { go [=]() -> future_t<> { channel_t<int> x = c, y = r; for (int i = 0; i < 2; ++i) { bump(0); co_await (x << i); co_await y; } bump(0); REQUIRE(D->d[0] == 5, "%d", D->d[0]); }; });
		b = sched_thr([=] { go [=]() -> future_t<> { channel_t<int> x = c, y = r; for (int i = 0; i < 2; ++i) { co_await x; bump(0); co_await (y << i); } }; });
	}
	join_all(a, b);
}
R28("channel-ping-pong-0", ch_pingpong, 0, 2, 3) R28("channel-ping-pong-1", ch_pingpong, 1, 2, 3)
// ---- mutexes: what is guarded by nothing else
// a contender: g guard, m manual, t try_lock, l try_lock_for, r recursive, G plain thread with a guard, L plain, T plain try, F plain timed
static future_t<> mx_co(mutex_t m, char how)
{
	switch (how)
	{
	case 'g': { auto g = co_await m.lock(); bump(0); break; }
	case 'h': { auto g = co_await m.lock(); bump(0); co_await yield(); bump(0); g.unlock(); break; }
	case 'm': co_await m.lock(adopt_manual_unlock); bump(0); co_await m.unlock(); break;
	case 't': if (co_await m.try_lock()) { bump(0); co_await m.unlock(); } break;
	case 'l': if (co_await m.try_lock_for(5ms)) { bump(0); co_await m.unlock(); } break;
	case 'r': { auto g = co_await m.lock(); bump(0); { auto h = co_await m.lock(); bump(0); } bump(0); break; }
	}
}
static void mx_plain(mutex_t m, char how, int id)
{
	void* me = (void*)(uintptr_t)(0x1000 + id * 16);
	switch (how)
	{
	case 'G': { m.lock(me); batch_unlock_t<mutex_t> g { std::adopt_lock, me, m }; bump(0); break; }
	case 'L': m.lock(me); bump(0); m.unlock(me); break;
	case 'T': if (m.try_lock(me)) { bump(0); m.unlock(me); } break;
	case 'F': if (m.try_lock_for(5ms, me)) { bump(0); m.unlock(me); } break;
	}
}
static const char* MX[] = { "g|g", "m|m", "g|t", "m|l", "r|g", "h|g", "g|G", "m|T", "m|F", "L|L", "T|L", "T|T", "gg|g", "lg|m", "g|g|g", "m|L|T", "l|l", "F|F", "h|l" };
static void mx(int k)
{
	Payload p; std::vector<int> t;
	{
		mutex_t m; std::vector<std::string> th(1); for (const char* s = MX[k]; *s; ++s) if (*s == '|') th.emplace_back(); else th.back() += *s;
		int id = 1;
		for (auto& s : th) { int i0 = id; id += (int)s.size(); if (s[0] < 'a') t.push_back(thr([=] { int i = i0; for (char c : s) mx_plain(m, c, i++); })); else t.push_back(sched_thr([=] { for (char c : s) go mx_co(m, c); })); }
	}
	for (int i : t) mc_join(i);
}
#define MXR(name, k, pq, pt) R28("mutex-" name, mx, k, pq, pt)
MXR("guards", 0, 3, 5) MXR("manual", 1, 3, 5) MXR("try", 2, 4, 5) MXR("timed", 3, 3, 4) MXR("recursive", 4, 3, 4) MXR("yield", 5, 3, 4) MXR("plain", 6, 3, 5) MXR("plain-try", 7, 4, 5) MXR("plain-timed", 8, 3, 4) MXR("plain-plain", 9, 4, 6) MXR("plain-try-lock", 10, 4, 6) MXR("plain-try-try", 11, 4, 6) MXR("three", 12, 2, 3) MXR("timed-three", 13, 2, 3) MXR("three-threads", 14, 2, 3) MXR("mixed", 15, 2, 3) MXR("timed-timed", 16, 2, 4) MXR("plain-timed-timed", 17, 3, 4) MXR("yield-timed", 18, 2, 3)
// several mutexes at once
static void mx_multi(int k)
{
	Payload p; std::vector<int> t;
	{
		mutex_t a, b;
		auto one = [=](bool swap_) -> future_t<> { mutex_t x = swap_ ? b : a, y = swap_ ? a : b; if (swap_ || !k) { auto g = co_await mutex_t::lock(x, y); bump(0); bump(1); } else { co_await x.lock(adopt_manual_unlock); bump(0); co_await x.unlock(); co_await y.lock(adopt_manual_unlock); bump(1); co_await y.unlock(); } };
		t.push_back(sched_thr([=] { go one(false); }));
		if (k == 2) t.push_back(thr([=] { mutex_t x = b, y = a; batch_unlock_t<mutex_t, mutex_t> g = mutex_t::lock((void*)0x1234, x, y); bump(0); bump(1); }));
		else t.push_back(sched_thr([=] { go one(true); }));
	}
	for (int i : t) mc_join(i);
}
R28("mutex-both", mx_multi, 0, 2, 3) R28("mutex-both-each", mx_multi, 1, 2, 3) R28("mutex-both-plain", mx_multi, 2, 2, 3)
// ---- spinlock and batch_lock_t
static void spin(int k)
{
	Payload p; spinlock l, m; std::vector<int> t;
	for (int i = 0; i < (k == 2 ? 3 : 2); ++i) t.push_back(thr([&, i] {
		switch (k == 3 ? 3 + i : k)
		{
		case 0: case 2: for (int j = 0; j < 3 - k; ++j) { l.lock(); bump(0); l.unlock(); } break;
		case 1: if (l.try_lock()) { bump(0); l.unlock(); } if (i) { l.lock(); bump(0); l.unlock(); } break;
		case 3: { scoped_lock<spinlock, spinlock> g(l, m); bump(0); bump(1); break; }
		case 4: { std::vector<std::reference_wrapper<spinlock>> v { std::ref(m), std::ref(l) }; batch_lock_t<std::reference_wrapper<spinlock>> g(v); bump(0); bump(1); break; }
		case 5: { scoped_lock<spinlock> g(l); bump(0); break; }
		}
	}));
	for (int i : t) mc_join(i);
}
R28("spinlock", spin, 0, 4, 8) R28("spinlock-try", spin, 1, 4, 8) R28("spinlock-3", spin, 2, 3, 4) R28("batch-lock", spin, 3, 4, 6) R28("scoped-lock", spin, 5, 4, 8)
// a waiter that has to go through all phases of waiting
static void spin_long(int)
{
	Payload p; spinlock l; l.lock(); int t = thr([&] { l.lock(); got(0); put(1); l.unlock(); });
	for (int i = 0; i < 3; ++i) { mc_point(); mc_advance(5 * MS); } put(0); l.unlock(); mc_join(t); got(1);
}
R28("spinlock-long", spin_long, 0, 2, 3)
// ---- futures
template<class T> static T mkv(int i) { if constexpr (std::is_same_v<T, std::string>) return std::string(40, 'a' + i); else if constexpr (std::is_lvalue_reference_v<T>) return D->d[i]; else return T(i); }
// arg: 0 value, 1 exception, 2 either; + 10 the awaiting coroutine waits in a child; + 20 the future is awaited late
template<class T> static void fut(int arg)
{
	{
		Payload p; awaitable_t<T> aw; auto f = std::make_shared<future_t<T>>(aw.get_future()); bool err = arg % 10 == 1 || (arg % 10 == 2 && mc_choose(2)); bool child = arg / 10 & 1, late = arg / 20 & 1;
		int b = thr([aw, err]() mutable { put(0); if (err) aw.throw_exception(std::string(30, 'x')); else if constexpr (std::is_void_v<T>) aw.set_value(); else aw.set_value(mkv<T>(3)); });
		int a = sched_thr([f, child, late]() mutable {
			auto body = [](std::shared_ptr<future_t<T>> f, bool late) -> future_t<> {
				if (late) co_await yield();
				try { if constexpr (std::is_void_v<T>) co_await *f; else { auto&& v = co_await *f; (void)v; if constexpr (std::is_same_v<T, std::string>) REQUIRE(v == std::string(40, 'd'), "another value arrived"); else if constexpr (std::is_lvalue_reference_v<T>) v = 5; } } catch (std::string& s) { REQUIRE(s == std::string(30, 'x'), "another exception arrived"); }
				got(0); };
			if (child) { auto top = [body](std::shared_ptr<future_t<T>> f, bool late) -> future_t<> { co_await body(f, late); }; go top(f, late); } else go body(f, late); });
		f.reset(); { awaitable_t<T> gone(std::move(aw)); }
		join_all(a, b);
	}
}
R28("future-int", fut<int>, 2, 4, 6) R28("future-void", fut<void>, 2, 4, 6) R28("future-string", fut<std::string>, 2, 4, 6) R28("future-ref", fut<int&>, 2, 4, 6) R28("future-child", fut<int>, 12, 3, 5) R28("future-late", fut<std::string>, 22, 3, 5) R28("future-late-void", fut<void>, 32, 3, 4)
// a future launched as a task: the scheduler's end tells of the result
static void fut_task(int lambda)
{
	{
		Payload p; awaitable_t<int> aw; auto f = std::make_shared<future_t<int>>(aw.get_future());
		int b = thr([aw]() mutable { put(0); aw.set_value(1); });
		int a = thr([f, lambda]() mutable { local_scheduler_t ls; if (lambda) { go [f]() { return std::move(*f); }; f.reset(); } else { go *f; f.reset(); } this_scheduler()->run_until_notask(); got(0); });
		f.reset(); { awaitable_t<int> gone(std::move(aw)); } join_all(a, b);
	}
}
R28("future-task", fut_task, 0, 3, 5) R28("future-task-lambda", fut_task, 1, 3, 5)
// ---- several schedulers: launching from another thread, switching, combinators, the end of it
struct Two { std::atomic<scheduler_t*> s[2] = { nullptr, nullptr }; std::atomic<int> over { 0 }; };
static Two* T2;
static void other(int want) { local_scheduler_t ls; T2->s[1].store(this_scheduler(), std::memory_order_release); while (T2->over.load(std::memory_order_relaxed) < want || !this_scheduler()->empty()) this_scheduler()->run_one_batch(); T2->over.fetch_add(100, std::memory_order_release); }
static scheduler_t* peer() { scheduler_t* s; while (!(s = T2->s[1].load(std::memory_order_acquire))) mc_point(); return s; }
static void over(int n = 1) { T2->over.fetch_add(n, std::memory_order_relaxed); }
// nobody goes before the other has left his loop
static void wait_other() { while (T2->over.load(std::memory_order_acquire) < 100) mc_point(); }
static void launch(int k)
{
	Payload p; Two t2; T2 = &t2; int want = k == 2 ? 2 : 1;
	int b = thr([want] { other(want); }); std::vector<int> t;
	for (int i = 0; i < want; ++i) t.push_back(thr([k, i] {
		scheduler_t* s = peer(); put(i); auto m = std::make_unique<int>(7); int* raw = m.release();
		auto body = [raw, i]() -> future_t<> { std::unique_ptr<int> m(raw); REQUIRE(*m == 7, "lost"); got(i); bump(i); co_await yield(); bump(i); over(); };
		if (k == 1) { task_t* x = *s + std::move(body); (void)x; } else *s + body();
		wait_other(); }));
	for (int i : t) mc_join(i); mc_join(b); T2 = nullptr;
}
R28("launch", launch, 0, 3, 4) R28("launch-lambda", launch, 1, 3, 4) R28("launch-two", launch, 2, 2, 3)
// via: the coroutine goes on with its own data, wherever it is
static future_t<> hop(int n, scheduler_t* home) { for (int i = 0; i < n; ++i) { bump(0); co_await via(peer()); bump(0); co_await yield(); bump(0); co_await via(home); } bump(0); }
static void via_(int k)
{
	Payload p; Two t2; T2 = &t2; int n = k % 10; bool child = k / 10;
	int b = thr([] { other(1); });
	int a = thr([=] { local_scheduler_t ls; scheduler_t* home = this_scheduler(); int local = 0; std::atomic<int> done { 0 };
		auto top = [&]() -> future_t<> { local++; if (child) { co_await hop(n, home); } else { for (int i = 0; i < n; ++i) { local++; co_await via(peer()); local++; co_await via(home); } } local++; done.store(1, std::memory_order_relaxed); };
		go top(); while (!done.load(std::memory_order_relaxed) || !home->empty()) home->run_one_batch(); REQUIRE(local == (child ? 2 : 2 + 2 * n), "%d", local); over(); wait_other(); });
	join_all(a, b); T2 = nullptr;
}
R28("via", via_, 1, 3, 4) R28("via-2", via_, 2, 2, 3) R28("via-child", via_, 11, 2, 3)
// when_all / when_any over children that end elsewhere
struct Val { std::string s; Val() = default; Val(int i) : s(30, 'a' + i) {} };
static future_t<Val> kid(int i, bool away, bool bad) { if (away) co_await via(peer()); put(i); if (bad) throw std::string(30, 'z'); co_return Val(i); }
static future_t<> vkid(int i, bool away) { if (away) co_await via(peer()); put(i); }
static void whens(int k)
{
	Payload p; Two t2; T2 = &t2; int b = thr([] { other(1); });
	int a = thr([=] { local_scheduler_t ls; scheduler_t* home = this_scheduler(); std::atomic<int> done { 0 };
		auto top = [&]() -> future_t<> {
			int late = k >= 10 ? 4 : 0; auto chk = [](const Val& v, int i) { REQUIRE(v.s == std::string(30, 'a' + i), "another value arrived"); };
			switch (k % 10)
			{
			case 0: { auto f = when_all(*home, kid(0, true, false), kid(1, false, false), vkid(2, true)); for (int i = 0; i < late; ++i) co_await yield(); auto r = co_await f; chk(std::get<0>(r), 0); chk(std::get<1>(r), 1); got(0); got(1); got(2); break; }
			case 1: { std::vector<future_t<Val>> v; v.push_back(kid(0, true, false)); v.push_back(kid(1, true, false)); auto f = when_all(*home, v); for (int i = 0; i < late; ++i) co_await yield(); auto r = co_await f; chk(r[0], 0); chk(r[1], 1); got(0); got(1); break; }
			case 2: { auto f = when_any(*home, kid(0, true, false), vkid(1, true)); for (int i = 0; i < late; ++i) co_await yield(); auto r = co_await f; got((int)r.first); if (r.first == 0) chk(std::any_cast<const Val&>(r.second), 0); break; }
			case 3: { auto f = when_all(*home, kid(0, true, true), kid(1, true, false)); for (int i = 0; i < late; ++i) co_await yield(); try { co_await f; mc_fail("no exception"); } catch (std::string& s) { REQUIRE(s == std::string(30, 'z'), "another exception arrived"); } got(0); got(1); break; }
			case 4: { auto f = when_any(*home, kid(0, true, true)); for (int i = 0; i < late; ++i) co_await yield(); try { co_await f; mc_fail("no exception"); } catch (std::string& s) { REQUIRE(s == std::string(30, 'z'), "another exception arrived"); } got(0); break; }
			case 5: { std::vector<future_t<>> v; v.push_back(vkid(0, true)); v.push_back(vkid(1, true)); auto f = when_any(*home, v); for (int i = 0; i < late; ++i) co_await yield(); auto r = co_await f; got((int)r.first); break; }
			}
			done.store(1, std::memory_order_relaxed); };
		go top(); while (!done.load(std::memory_order_relaxed) || !home->empty()) home->run_one_batch(); over(); wait_other(); });
	join_all(a, b); T2 = nullptr;
}
R28("when-all", whens, 0, 2, 3) R28("when-all-range", whens, 1, 2, 3) R28("when-any", whens, 2, 2, 3) R28("when-all-throws", whens, 3, 2, 3) R28("when-any-throws", whens, 4, 2, 3) R28("when-any-range", whens, 5, 2, 3) R28("when-all-late", whens, 10, 2, 3) R28("when-all-range-late", whens, 11, 2, 3) R28("when-any-late", whens, 12, 2, 3) R28("when-any-throws-late", whens, 14, 2, 3)
// empty() is true: whoever asked sees what the coroutines did
static void watch(int)
{
	Payload p; Two t2; T2 = &t2;
	int a = thr([] { local_scheduler_t ls; go []() -> future_t<> { co_await yield(); put(0); }; T2->s[1].store(this_scheduler(), std::memory_order_release); this_scheduler()->run_until_notask(); while (T2->over.load(std::memory_order_acquire) < 1) mc_point(); });
	int b = thr([] { scheduler_t* s = peer(); for (int i = 0; i < 3; ++i) if (s->empty()) { got(0); break; } else mc_point(); T2->over.fetch_add(1, std::memory_order_release); });
	join_all(a, b); T2 = nullptr;
}
R28("empty", watch, 0, 3, 5)
// ---- stop tokens
static void stop_(int k)
{
	Payload p; std::vector<int> t;
	{
		stop_source src; stop_token tok = src.get_token();
		switch (k)
		{
		case 0:	// stop_requested()
			t.push_back(thr([src]() mutable { put(0); src.request_stop(); })); t.push_back(thr([tok] { if (tok.stop_requested()) got(0); })); break;
		case 1:	// a callback registered at any time
			t.push_back(thr([src]() mutable { put(0); src.request_stop(); })); t.push_back(thr([tok] { bool ran = false; { auto f = [&] { got(0); ran = true; put(1); }; stop_callback<decltype(f)> cb(tok, f); } if (ran) got(1); })); break;
		case 2:	// two of them, destroyed while the request runs
			t.push_back(thr([src]() mutable { put(0); src.request_stop(); }));
			for (int i = 1; i < 3; ++i) t.push_back(thr([tok, i] { auto f = [i] { got(0); put(i); }; stop_callback<decltype(f)> cb(tok, f); bump(i + 4); })); break;
		case 3:	// whoever asks second sees what the first did
			for (int i = 0; i < 2; ++i) t.push_back(thr([src, i]() mutable { put(i); if (!src.request_stop()) got(!i); })); break;
		case 4:	// handles come and go
			t.push_back(thr([src]() mutable { stop_source s2 = src; put(0); s2.request_stop(); })); t.push_back(thr([tok] { stop_token t2 = tok; stop_token t3(std::move(t2)); if (t3.stop_requested()) got(0); if (t3.stop_possible()) bump(3); })); break;
		case 5:	// the callback's frame dies on one thread, what it did is known there
			t.push_back(thr([src]() mutable { src.request_stop(); }));
			t.push_back(thr([tok] { auto n = std::make_unique<int>(0); auto f = [q = n.get()] { ++*q; }; auto cb = std::make_unique<stop_callback<decltype(f)>>(tok, f); mc_point(); cb.reset(); n.reset(); })); break;
		case 6: case 7:	// made when it is needed, by two threads
			{ auto lazy = std::make_shared<stop_source>(nostopstate); for (int i = 0; i < 2; ++i) t.push_back(thr([lazy, i] { lazy->make_sure_possible(); put(i); if (i == 0) lazy->request_stop(); else if (lazy->get_token().stop_requested()) got(0); })); }
			break;
		case 8:	// the callback is the last thing that refers to the state, or the source is
			{
				struct H { std::unique_ptr<stop_source> s; stop_token t; }; auto h = std::make_shared<H>(); h->s = std::make_unique<stop_source>(); h->t = h->s->get_token();
				t.push_back(thr([h] { put(0); h->s.reset(); })); t.push_back(thr([h] { auto f = [] {}; { stop_callback<decltype(f)> cb(std::move(h->t), f); mc_point(); } }));
			}
			break;
		case 9:	// two requests and a callback that comes and goes
			for (int i = 0; i < 2; ++i) t.push_back(thr([src, i]() mutable { put(i); if (!src.request_stop()) got(!i); }));
			t.push_back(thr([tok] { auto f = [] {}; stop_callback<decltype(f)> cb(tok, f); })); break;
		case 10:	// a token is assigned over while the source asks and goes
			t.push_back(thr([src]() mutable { put(0); src.request_stop(); src = stop_source(nostopstate); })); t.push_back(thr([tok]() mutable { stop_source other; if (tok.stop_requested()) got(0); stop_token u = tok; tok = other.get_token(); if (u.stop_requested()) got(0); })); break;
		}
	}
	for (int i : t) mc_join(i);
}
R28("stop-last-callback", stop_, 8, 5, 8) R28("stop-twice-callback", stop_, 9, 2, 3) R28("stop-token-assign", stop_, 10, 4, 6)
R28("stop-requested", stop_, 0, 6, 8) R28("stop-callback", stop_, 1, 5, 8) R28("stop-callbacks-2", stop_, 2, 3, 4) R28("stop-twice", stop_, 3, 6, 8) R28("stop-handles", stop_, 4, 5, 8) R28("stop-frame", stop_, 5, 5, 8) R28("stop-lazy", stop_, 6, 5, 8)
// a task is asked to stop by another thread
static void stop_task(int all)
{
	Payload p; Two t2; T2 = &t2; std::atomic<task_t*> task { nullptr };
	int a = thr([&] { local_scheduler_t ls; task_t* t = go []() -> future_t<> { stop_token tok = librf_current_task()->get_stop_token(); for (int i = 0; i < 3; ++i) { if (tok.stop_requested()) { got(0); break; } co_await yield(); } while (T2->over.load(std::memory_order_relaxed) < 1) co_await yield(); }; (void)t->get_stop_source(); task.store(t, std::memory_order_release); T2->s[1].store(this_scheduler(), std::memory_order_release); this_scheduler()->run_until_notask(); });
	int b = thr([&] { scheduler_t* s = peer(); put(0); if (all) s->request_stop_all_if_possible(); else task.load(std::memory_order_acquire)->request_stop(); over(); });
	join_all(a, b); T2 = nullptr;
}
R28("stop-task", stop_task, 0, 3, 4)
// ---- timers
static void timers(int k)
{
	Payload p; auto m = std::make_shared<timer_manager>(); Data* d = D; std::atomic<int> fired { 0 };
	auto cb = [&, d](bool c) { if (k == 0) got(0); if (k == 1 && c) got(1); (void)d; fired.fetch_add(1, std::memory_order_relaxed); };
	detail::timer_target_ptr own; if (k == 1) own = m->add(1ms, cb);
	int a = thr([&, own] { if (k == 0) { put(0); m->add(0ms, cb); } else { put(1); m->stop(own); } });
	int b = thr([&, m] { for (int i = 0; i < 2; ++i) { m->update(); volatile bool none = m->empty(); (void)none; mc_advance(MS); } });
	own.reset(); join_all(a, b); m->update(); mc_advance(2 * MS); m->update(); REQUIRE(fired.load() == 1, "the timer fired %d times", fired.load());
}
R28("timer-add", timers, 0, 4, 6) R28("timer-stop", timers, 1, 4, 6)
// ---- the last handle goes on some thread: what the others did with it comes before
static void last(int k)
{
	Payload p; std::vector<int> t;
	{
		event_t e { true }; mutex_t m; channel_t<std::string> c(2); awaitable_t<std::string> aw; auto f = std::make_shared<future_t<std::string>>(aw.get_future()); auto m2 = std::make_shared<timer_manager>();
		for (int i = 0; i < 2 + (k >= 4); ++i) switch (k)
		{
		case 0: t.push_back(thr([e]() mutable { e.signal(); event_t x = e; e.reset(); })); break;
		case 1: t.push_back(thr([m, i]() mutable { if (m.try_lock((void*)(uintptr_t)(64 + i))) m.unlock((void*)(uintptr_t)(64 + i)); mutex_t x = m; })); break;
		case 2: t.push_back(thr([c, i]() mutable { (void)c.write(std::string(30, 'a' + i)); })); break;
		case 3: t.push_back(i ? thr([aw]() mutable { aw.set_value(std::string(30, 'x')); }) : thr([f]() mutable { f.reset(); })); break;
		}
	}
	for (int i : t) mc_join(i);
}
R28("last-event", last, 0, 4, 6) R28("last-mutex", last, 1, 4, 6) R28("last-channel", last, 2, 4, 6) R28("last-future", last, 3, 5, 8)
