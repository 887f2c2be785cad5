#include "when.h"
#define COMMA ,
// Everything is held by something the engine or a Probe watches: freed memory that is touched, memory never freed,
// a value destroyed twice or not at all, and (Loc) a callable that is gone while the coroutine's locals still are there.
struct Cap { Probe p { 7 }; std::string s = std::string(40, 'x'); bool ok() const { return p.magic == Probe::MAGIC && p.v == 7 && s[39] == 'x'; } };
struct Loc
{
	const Cap* c; Probe own { 3 }; explicit Loc(const Cap* c) : c(c) {} Loc(const Loc&) = delete;
	~Loc() { if (!c->ok()) mc_fail("the callable is destroyed before the locals of its coroutine"); }
};
struct Boom { Probe p; Boom() : p(9) {} };
enum { BODY = 10, REST = 11 };
struct Env { event_t ev { false }; mutex_t mx; channel_t<Probe> ch { 1 }; awaitable_t<Probe> aw; future_t<Probe> fu; event_t e2[2] = { event_t { false }, event_t { false } }; Env() : fu(aw.get_future()) {} };
static future_t<Probe> leaf(const Cap* c, Probe a, int k) { Loc l(c); if (k & 1) co_await yield(); if (k & 2) throw Boom(); co_return std::move(a); }
// ---- one coroutine: what it waits for, how it ends, who owns it
enum { S_YIELD, S_SLEEP, S_EVENT, S_TEVENT, S_LEAF, S_LEAFTHROW, S_MUTEX, S_READ, S_AWAIT, S_ALL, S_TLOCK, S_WHEN, S_KINDS };

static int g_int;
template<class T> static future_t<T> body(const Cap* c, Probe arg, const int* step, int n, bool fail, Env* e)
{
	Loc l(c); std::optional<batch_unlock_t<mutex_t>> held; Loc l2(c);
	for (int i = 0; i < n; ++i)
	{
		Probe turn(i);
		switch (step[i])
		{
		case S_YIELD: co_await yield(); break;
		case S_SLEEP: co_await sleep_for(1ms); break;
		case S_EVENT: co_await e->ev.wait(); break;
		case S_TEVENT: co_await e->ev.wait_for(2ms); break;
		case S_LEAF: { Probe r = co_await leaf(c, Probe(4), (i + 1) & 1); REQUIRE(r.magic == Probe::MAGIC && r.v == 4, "another value arrived"); break; }
		case S_LEAFTHROW: try { (void)co_await leaf(c, Probe(4), 2 + (i & 1)); mc_fail("no exception"); } catch (Boom& b) { REQUIRE(b.p.magic == Probe::MAGIC, "a destroyed exception arrived"); } break;
		case S_MUTEX: held.reset(); held.emplace(co_await e->mx.lock()); break;
		case S_READ: { Probe r = co_await e->ch; REQUIRE(r.magic == Probe::MAGIC && r.v == 6, "another value arrived"); break; }
		case S_AWAIT: { Probe r = co_await e->fu; REQUIRE(r.magic == Probe::MAGIC, "a destroyed value arrived"); break; }
		case S_ALL: co_await event_t::wait_all_for(2ms, e->e2, e->e2 + 2); break;
		case S_TLOCK: if (!held && co_await e->mx.try_lock_for(1ms)) co_await e->mx.unlock(); break;
		case S_WHEN: { auto r = co_await when_any(leaf(c, Probe(4), 0), leaf(c, Probe(5), 1)); REQUIRE(r.first == 0 || r.first == 1, "when_any"); break; }
		}
	}
	mc_cell_add(BODY, 1);
	if (fail) throw Boom();
	if constexpr (std::is_void_v<T>) co_return; else if constexpr (std::is_lvalue_reference_v<T>) co_return g_int; else co_return T(5);
}
template<class T> static future_t<> parent(const int* step, int n, bool fail, Env* e)
{
	Cap c; Loc l(&c);
	try { if constexpr (std::is_void_v<T>) co_await body<T>(&c, Probe(1), step, n, fail, e); else { auto&& r = co_await body<T>(&c, Probe(1), step, n, fail, e); (void)r; } REQUIRE(!fail, "no exception"); }
	catch (Boom& b) { REQUIRE(fail && b.p.magic == Probe::MAGIC, "a destroyed exception arrived"); }
	mc_cell_add(REST, 1);
}
// the other side: brings what is waited for, before, in between, or late
static future_t<> peer(Env* e, int lag)
{
	std::optional<batch_unlock_t<mutex_t>> g; if (lag == 1) g.emplace(co_await e->mx.lock()); if (lag) { for (int i = 0; i < lag; ++i) co_await yield(); co_await sleep_for(1ms); g.reset(); }
	e->ev.signal(); e->e2[0].signal(); e->aw.set_value(Probe(8)); co_await (e->ch << Probe(6));
	co_await yield(); e->ev.signal(); e->e2[1].signal(); if (e->ch.capacity() > 1) co_await (e->ch << Probe(6));
}
template<class T> static void shapes(int n)
{
	int step[4]; bool reads = false, awaits = false; for (int i = 0; i < n; ++i)
	{
		step[i] = mc_choose(S_KINDS); if ((step[i] == S_READ && reads) || (step[i] == S_AWAIT && awaits)) return; reads |= step[i] == S_READ; awaits |= step[i] == S_AWAIT;
	}
	bool fail = mc_choose(2); int how = mc_choose(5), lag = mc_choose(3);
	if (how == 0 && std::is_void_v<T> == false && n > 2) return;
	{
		local_scheduler_t ls; Env env; Env* e = &env; env.ch = channel_t<Probe>(2); Cap out; std::optional<future_t<T>> keep;
		if (lag < 2) go peer(e, lag);
		switch (how)
		{
		case 0: go [c = Cap(), e, &step, n, fail]() { return body<T>(&c, Probe(1), step, n, fail, e); }; break;
		case 1: go parent<T>(step, n, fail, e); break;
		case 2: go body<T>(&out, Probe(1), step, n, fail, e); break;
		case 3: { keep.emplace(body<T>(&out, Probe(1), step, n, fail, e)); go *keep; break; }
		case 4: { Cap mine; go [c = mine, e, &step, n, fail]() -> future_t<T> { Loc l(&c); if constexpr (std::is_void_v<T>) co_await body<T>(&c, Probe(1), step, n, fail, e); else { auto&& r = co_await body<T>(&c, Probe(1), step, n, fail, e); if constexpr (std::is_lvalue_reference_v<T>) co_return g_int; else co_return std::move(r); } }; break; }
		}
		if (lag == 2) go peer(e, 2);
		drain(); REQUIRE(mc_cell_get(BODY) == 1, "the body ran %d times to its end", (int)mc_cell_get(BODY)); if (how == 1) REQUIRE(mc_cell_get(REST) == 1, "the parent did not go on");
		if (keep && mc_choose(2)) { future_t<T> two = *keep; keep.reset(); }
	}
	Probe::check("locals, parameters, captures or results");
}
MC_REG("C24", "shapes-0-void", shapes<void>, 0, 0, 0, 0) MC_REG("C24", "shapes-0-int", shapes<int>, 0, 0, 0, 0) MC_REG("C24", "shapes-0-probe", shapes<Probe>, 0, 0, 0, 0) MC_REG("C24", "shapes-0-ref", shapes<int&>, 0, 0, 0, 0)
MC_REG("C24", "shapes-1-void", shapes<void>, 1, 0, 0, 0) MC_REG("C24", "shapes-1-int", shapes<int>, 1, 0, 0, 0) MC_REG("C24", "shapes-1-probe", shapes<Probe>, 1, 0, 0, 0) MC_REG("C24", "shapes-1-ref", shapes<int&>, 1, 0, 0, 0)
MC_REG("C24", "shapes-2-void", shapes<void>, 2, 0, 0, 0) MC_REG("C24", "shapes-2-int", shapes<int>, 2, 0, 0, 0) MC_REG("C24", "shapes-2-probe", shapes<Probe>, 2, 0, 0, 0) MC_REG("C24", "shapes-2-ref", shapes<int&>, 2, 0, 0, 0) MC_REG("C24", "shapes-2-moveonly", shapes<MoveOnly>, 2, 0, 0, 0)
MC_REG("C24", "shapes-3-void", shapes<void>, 3, 0, 0, MCF_THOROUGH) MC_REG("C24", "shapes-3-probe", shapes<Probe>, 3, 0, 0, MCF_THOROUGH) MC_REG("C24", "shapes-3-ref", shapes<int&>, 3, 0, 0, MCF_THOROUGH)
// ---- last owners on several threads: every thread has its own handle and drops it as soon as it is done
template<class F> static int sched_once(F f)	// the callable, and the handles in it, are gone before the coroutines run
{
	return thr([f = std::make_unique<F>(std::move(f))]() mutable { local_scheduler_t ls; (*f)(); f.reset(); this_scheduler()->run_until_notask(); });
}
static void fin() { mc_cell_add(REST, 1); }
static future_t<> co_wait(event_t e, int ms) { Cap c; Loc l(&c); if (ms) co_await e.wait_for(std::chrono::milliseconds(ms)); else { bool r = co_await e.wait(); REQUIRE(r, "wait returned false"); } fin(); }
static future_t<> co_all(std::vector<event_t> v, int ms) { Cap c; Loc l(&c); if (ms) co_await event_t::wait_all_for(std::chrono::milliseconds(ms), v); else co_await event_t::wait_all(v); fin(); }
static future_t<> co_lock(mutex_t m, int how)
{
	Cap c; Loc l(&c);
	if (how == 0) { auto g = co_await m.lock(); }
	else if (how == 1) { co_await m.lock(adopt_manual_unlock); co_await m.unlock(); }
	else if (how == 2) { if (co_await m.try_lock_for(1ms)) co_await m.unlock(); }
	else { if (co_await m.try_lock()) co_await m.unlock(); }
	fin();
}
static future_t<> co_read(channel_t<Probe> ch) { Cap c; Loc l(&c); Probe r = co_await ch; REQUIRE(r.magic == Probe::MAGIC && r.v == 4, "another value arrived"); fin(); }
static future_t<> co_write(channel_t<Probe> ch) { Cap c; Loc l(&c); co_await (ch << Probe(4)); fin(); }
static future_t<> co_fut(future_t<Probe> f) { Cap c; Loc l(&c); Probe r = co_await f; REQUIRE(r.magic == Probe::MAGIC && r.v == 4, "another value arrived"); fin(); }
enum { O_EVENT, O_TEVENT, O_EVENT2, O_ALL, O_TALL, O_LOCK, O_LOCKMAN, O_LOCKCO, O_TLOCK, O_CHAN, O_CHAN0, O_CHANCO, O_AW, O_AWCO, O_STOP, O_WHENALL, O_WHENANY };
struct StopCb { Probe p { 1 }; void operator()() { REQUIRE(p.magic == Probe::MAGIC, "a destroyed callback runs"); } };
static void owners(int k)
{
	int want = 1;
	switch (k)
	{
	case O_EVENT: case O_TEVENT: case O_EVENT2:
	{
		event_t e{ false }; event_t f = e, g = e; int ms = k == O_TEVENT ? 1 : 0;
		int a = sched_once([e = std::move(f), ms]() mutable { go co_wait(std::move(e), ms); }); int c = -1;
		if (k == O_EVENT2) { event_t h = e; want = 2; c = sched_once([e = std::move(h)]() mutable { go co_wait(std::move(e), 0); }); }
		int b = thr([e = std::move(g), k]() mutable { event_t x = std::move(e); if (k == O_EVENT2) x.signal_all(); x.signal(); if (k == O_EVENT2) x.signal(); });
		e = event_t{ false }; join_all(a, b); if (c >= 0) mc_join(c); break;
	}
	case O_ALL: case O_TALL:
	{
		std::vector<event_t> v{ event_t{ false }, event_t{ false } }; int ms = k == O_TALL ? 1 : 0; event_t x = v[0], y = v[1];
		int a = sched_once([v = std::move(v), ms]() mutable { go co_all(std::move(v), ms); });
		int b = thr([x = std::move(x)]() mutable { event_t e = std::move(x); e.signal(); }), c = thr([x = std::move(y)]() mutable { event_t e = std::move(x); e.signal(); });
		join_all(a, b, c); break;
	}
	case O_LOCK: case O_LOCKMAN: case O_LOCKCO: case O_TLOCK:
	{
		mutex_t m, n = m, o = m; int how = k == O_LOCK ? 0 : k == O_TLOCK ? 2 : 1;
		int a = sched_once([m = std::move(n), how]() mutable { go co_lock(std::move(m), how); }), b;
		if (k == O_LOCKCO) { want = 2; b = sched_once([m = std::move(o)]() mutable { go co_lock(std::move(m), 0); }); }
		else b = thr([m = std::move(o)]() mutable { mutex_t x = std::move(m); int me; x.lock(&me); x.unlock(&me); });
		m = mutex_t(); join_all(a, b); break;
	}
	case O_CHAN: case O_CHAN0: case O_CHANCO:
	{
		channel_t<Probe> m(k == O_CHAN0 ? 0 : 1), n = m, o = m;
		int a = sched_once([m = std::move(n)]() mutable { go co_read(std::move(m)); }), b;
		if (k != O_CHAN) { want = 2; b = sched_once([m = std::move(o)]() mutable { go co_write(std::move(m)); }); }
		else b = thr([m = std::move(o)]() mutable { channel_t<Probe> x = std::move(m); (void)x.write(Probe(4)); });
		m = channel_t<Probe>(1); join_all(a, b); break;
	}
	case O_AW: case O_AWCO:
	{
		awaitable_t<Probe> m; future_t<Probe> f = m.get_future();
		int a = sched_once([f = std::move(f), k]() mutable { if (k == O_AW) go co_fut(std::move(f)); else { mc_cell_add(REST, 1); go std::move(f); } });
		int b = thr([m = std::move(m)]() mutable { awaitable_t<Probe> x = std::move(m); x.set_value(Probe(4)); });
		join_all(a, b); break;
	}
	case O_STOP:
	{
		stop_source s; s.make_sure_possible(); stop_token t = s.get_token(); want = 1; event_t e{ false };
		int a = sched_once([t = std::move(t)]() mutable { go [t = std::move(t)]() -> future_t<> { Cap c; { stop_callback<StopCb> cb(t, StopCb()); co_await yield(); } Loc l(&c); fin(); }; });
		int b = thr([s = std::move(s)]() mutable { stop_source x = std::move(s); x.request_stop(); });
		join_all(a, b); break;
	}
	case O_WHENALL: case O_WHENANY:
	{
		awaitable_t<Val> m, n; future_t<Val> f = m.get_future(), g = n.get_future();
		int a = sched_once([f = std::move(f), g = std::move(g), k]() mutable { go [f = std::move(f), g = std::move(g), k]() mutable -> future_t<> { Cap c; Loc l(&c); if (k == O_WHENALL) { auto r = co_await when_all(f, g); (void)r; } else { auto r = co_await when_any(f, g); (void)r; } fin(); }; });
		int b = thr([m = std::move(m)]() mutable { awaitable_t<Val> x = std::move(m); x.set_value(Val(4)); }), c = thr([m = std::move(n)]() mutable { awaitable_t<Val> x = std::move(m); x.set_value(Val(5)); });
		join_all(a, b, c); break;
	}
	}
	REQUIRE(mc_cell_get(REST) == want, "%d of %d coroutines came to an end", (int)mc_cell_get(REST), want);
	Probe::check("locals, parameters, captures or values");
}
#define OWN(n, k, q, t) MC_REG("C24", "owners-" n, owners, k, q, t, 0)
OWN("event", O_EVENT, 3, 6) OWN("timed-event", O_TEVENT, 3, 5) OWN("event-two", O_EVENT2, 2, 3) OWN("wait-all", O_ALL, 2, 3) OWN("timed-wait-all", O_TALL, 2, 3) OWN("lock", O_LOCK, 3, 5) OWN("lock-manual", O_LOCKMAN, 3, 5) OWN("lock-two", O_LOCKCO, 2, 4) OWN("timed-lock", O_TLOCK, 2, 4)
OWN("channel", O_CHAN, 3, 5) OWN("channel-0", O_CHAN0, 3, 5) OWN("channel-two", O_CHANCO, 3, 5) OWN("awaitable", O_AW, 4, 8) OWN("awaitable-go", O_AWCO, 4, 8) OWN("stop", O_STOP, 3, 5) OWN("when-all", O_WHENALL, 2, 3) OWN("when-any", O_WHENANY, 2, 3)
// the operation on a channel keeps it alive; so does a guard its mutex
static void last(int k)
{
	{
		local_scheduler_t ls;
		switch (k)
		{
		case 0: go []() -> future_t<> { channel_t<Probe> ch(1); co_await (ch << Probe(4)); auto rd = ch.read(); ch = channel_t<Probe>(0); Probe r = co_await rd; REQUIRE(r.v == 4 && r.magic == Probe::MAGIC, "another value arrived"); fin(); }; break;
		case 1: go []() -> future_t<> { channel_t<Probe> ch(1); auto wr = (ch << Probe(4)); ch = channel_t<Probe>(0); co_await wr; fin(); }; break;
		case 2: go []() -> future_t<> { typedef channel_t<Val, false, true> C; C ch(1); co_await (ch << Val(4)); auto rd = ch.read(); ch = C(0); Val r = co_await rd; REQUIRE(r.v == 4 && r.magic == Probe::MAGIC, "another value arrived"); fin(); }; break;
		case 3: go []() -> future_t<> { typedef channel_t<Val, false, true> C; C ch(1); auto wr = (ch << Val(4)); ch = C(0); co_await wr; fin(); }; break;
		case 7: go []() -> future_t<> { mutex_t m; { auto g = co_await m.lock(); m = mutex_t(); } fin(); }; break;
		}
		drain();
	}
	REQUIRE(mc_cell_get(REST) == 1, "the coroutine did not come to its end"); Probe::check("values");
}
MC_REG("C24", "last-read", last, 0, 0, 0, 0) MC_REG("C24", "last-write", last, 1, 0, 0, 0) MC_REG("C24", "last-read-mt", last, 2, 0, 0, 0) MC_REG("C24", "last-write-mt", last, 3, 0, 0, 0) MC_REG("C24", "last-guard", last, 7, 0, 0, 0)
// ---- copies of a future on another thread, dropped while the coroutine comes to its end
template<class T> static future_t<T> job(const Cap* c, Probe a, int n, bool fail) { Loc l(c); for (int i = 0; i < n; ++i) co_await yield(); fin(); if (fail) throw Boom(); if constexpr (std::is_void_v<T>) co_return; else if constexpr (std::is_lvalue_reference_v<T>) co_return g_int; else co_return std::move(a); }
template<class T> static void copies(int n)
{
	{
		bool fail = mc_choose(2), late = mc_choose(2); Cap cap; std::atomic<int> up { 0 };
		future_t<T> f = job<T>(&cap, Probe(4), n, fail), g = f;
		int a = sched_once([f = std::move(f)]() mutable { go std::move(f); });
		int b = thr([g = std::move(g)]() mutable { future_t<T> x = std::move(g), y = x; x = std::move(y); });
		if (late) { join_all(a, b); } else join_all(b, a);
	}
	REQUIRE(mc_cell_get(REST) == 1, "the coroutine did not come to its end"); Probe::check("parameters or results");
}
MC_REG("C24", "copies-void", copies<void>, 1, 4, 8, 0) MC_REG("C24", "copies-probe", copies<Probe>, 1, 4, 8, 0) MC_REG("C24", "copies-ref", copies<int&>, 0, 4, 8, 0)
// a future that is awaited after its coroutine was launched on its own
template<class T> static void launched(int)
{
	{
		local_scheduler_t ls; Cap cap; int n = mc_choose(3), when = mc_choose(4); bool fail = mc_choose(2), two = mc_choose(2), first = mc_choose(2);
		future_t<T> f = job<T>(&cap, Probe(4), n, fail);
		auto awaits = [](future_t<T> f, int when, bool fail) -> future_t<> {
			Cap c; Loc l(&c); for (int i = 0; i < when; ++i) co_await yield();
			try { if constexpr (std::is_void_v<T>) co_await f; else if constexpr (std::is_lvalue_reference_v<T>) { int& r = co_await f; REQUIRE(&r == &g_int, "another object"); } else { T r = co_await f; REQUIRE(r.magic == Probe::MAGIC && r.v == 4, "another value arrived"); } REQUIRE(!fail, "no exception"); }
			catch (Boom& b) { REQUIRE(fail && b.p.magic == Probe::MAGIC, "a destroyed exception arrived"); } fin(); };
		if (first) go f; else two = true;
		if (two) go awaits(f, when, fail); else { go awaits(std::move(f), when, fail); }
		if (!first) go f;
		drain();
	}
	REQUIRE(mc_cell_get(REST) == 2, "%d of 2 coroutines came to an end", (int)mc_cell_get(REST)); Probe::check("parameters or results");
}
MC_REG("C24", "launched-void", launched<void>, 0, 0, 0, 0) MC_REG("C24", "launched-probe", launched<Probe>, 0, 0, 0, 0) MC_REG("C24", "launched-ref", launched<int&>, 0, 0, 0, 0)
// ---- values that stay in a channel, and channels that are replaced
template<class C> static void stays(int)
{
	typedef typename C::value_type V;
	{
		local_scheduler_t ls; int cap = 1 + mc_choose(3), w = mc_choose(cap + 1), r = mc_choose(w + 1), more = mc_choose(cap - (w - r) + 1), how = mc_choose(3);
		C ch(cap);
		go [&]() -> future_t<> { for (int i = 0; i < w; ++i) co_await (ch << V(i)); for (int i = 0; i < r; ++i) { V x = co_await ch; REQUIRE(x.magic == Probe::MAGIC && x.v == i, "another value arrived"); } for (int i = 0; i < more; ++i) co_await (ch << V(i)); };
		drain();
		if (how == 1) { C two = ch; ch = C(1); } else if (how == 2) { C two = std::move(ch); ch = two; }
	}
	Probe::check("values in a channel");
}
MC_REG("C24", "stays", stays<channel_t<Val>>, 0, 0, 0, 0) MC_REG("C24", "stays-opt", stays<channel_t<Probe>>, 0, 0, 0, 0) MC_REG("C24", "stays-mt", stays<channel_t<Val COMMA false COMMA true>>, 0, 0, 0, 0) MC_REG("C24", "stays-moveonly", stays<channel_t<MoveVal>>, 0, 0, 0, 0)
// ---- timers and their callbacks: fired, stopped, cleared, or left when the scheduler goes; handles live shorter or longer
static void timer_life(int n)
{
	{
		timer_handler keep[4]; detail::timer_target_ptr ptr[4];
		{
			local_scheduler_t ls; auto* m = this_scheduler()->timer();
			for (int i = 0; i < n; ++i)
			{
				auto cb = [p = Probe(i), c = Cap()](bool) mutable { REQUIRE(c.ok() && p.magic == Probe::MAGIC, "a destroyed callback is called"); };
				if (mc_choose(2)) keep[i] = m->add_handler(std::chrono::milliseconds(i), cb); else ptr[i] = m->add(std::chrono::milliseconds(i), cb);
			}
			int run = mc_choose(n + 1); for (int i = 0; i < run; ++i) { batches(2); mc_advance(MS); } batches(1);
			for (int i = 0; i < n; ++i) switch (mc_choose(4)) { case 1: if (ptr[i]) m->stop(ptr[i]); else keep[i].stop(); break; case 2: ptr[i].reset(); keep[i].reset(); break; case 3: if (i == 0) m->clear(); break; }
			if (mc_choose(2)) drain();
		}
		for (int i = 0; i < n; ++i) if (!ptr[i]) keep[i].stop();
	}
	Probe::check("callbacks");
}
MC_REG("C24", "timers-1", timer_life, 1, 0, 0, 0) MC_REG("C24", "timers-2", timer_life, 2, 0, 0, 0) MC_REG("C24", "timers-3", timer_life, 3, 0, 0, MCF_THOROUGH)
// ---- a coroutine that is never launched nor awaited
static void abandoned(int k)
{
	{
		local_scheduler_t ls; Cap c;
		if (k == 0) { future_t<Probe> f = job<Probe>(&c, Probe(4), 0, false); (void)f; }
		else if (k == 2) { go job<void>(&c, Probe(4), 0, false); go [c = Cap()]() { return job<Probe>(&c, Probe(4), 0, false); }; go [c = Cap()]() -> future_t<> { Loc l(&c); co_return; }; }	// the scheduler goes before it ran
		else if (k == 3) { future_t<Probe> f = job<Probe>(&c, Probe(4), 0, false), g = f, h = job<Probe>(&c, Probe(5), 0, false); f = h; g = std::move(h); }
		else if (k == 4) { go [&c]() -> future_t<> { auto f = job<Probe>(&c, Probe(4), 0, false); co_await yield(); }; drain(); }
		else { std::vector<future_t<>> v; for (int i = 0; i < 2; ++i) v.push_back(job<void>(&c, Probe(4), 0, false)); go std::move(v[0]); drain(); }
	}
	Probe::check("parameters of a coroutine nobody started");
}
MC_REG("C24", "abandoned", abandoned, 0, 0, 0, 0) MC_REG("C24", "abandoned-sibling", abandoned, 1, 0, 0, 0) MC_REG("C24", "abandoned-scheduler", abandoned, 2, 0, 0, 0) MC_REG("C24", "abandoned-copies", abandoned, 3, 0, 0, 0) MC_REG("C24", "abandoned-local", abandoned, 4, 0, 0, 0)
// many of everything, over and over: what is alive at rest does not grow
static future_t<int> small(int i) { Probe l(1); if (i & 1) co_await yield(); co_return i; }
static void rounds(int n)
{
	{
		local_scheduler_t ls; event_t e { false }; mutex_t m; channel_t<Val> ch { 2 }; int what = mc_choose(8), many = mc_choose(2) ? 9 : 1, fin = 0, alive = -1;
		for (int r = 0; r < n / many; ++r)
		{
			for (int k = 0; k < many; ++k) switch (what)
			{
			case 0: go [&, r]() -> future_t<> { Probe l(1); int x = co_await small(r); REQUIRE(x == r, "another value"); fin++; }; break;
			case 1: go [&]() -> future_t<> { Probe l(1); co_await e.wait(); fin++; }; break;
			case 2: go [&]() -> future_t<> { Probe l(1); bool t = co_await e.wait_for(1ms); (void)t; fin++; }; break;
			case 3: go [&]() -> future_t<> { Probe l(1); { auto g = co_await m.lock(); co_await yield(); } fin++; }; break;
			case 4: go [&]() -> future_t<> { Probe l(1); co_await ch.write(Val(3)); fin++; }; go [&]() -> future_t<> { Probe l(1); Val v = co_await ch; REQUIRE(v.v == 3, "another value"); fin++; }; break;
			case 5: go [&]() -> future_t<> { Probe l(1); std::vector<future_t<int>> v; for (int i = 0; i < 3; ++i) v.push_back(small(i)); auto x = co_await when_all(v); auto y = co_await when_any(small(1), small(2)); (void)y; REQUIRE(x[2] == 2, "another value"); fin++; }; break;
			case 6: go [&]() -> future_t<> { Probe l(1); co_await sleep_for(1ms); fin++; }; break;
			case 7: go [&]() -> future_t<> { Probe l(1); awaitable_t<Val> a; auto f = a.get_future(); { a.set_value(Val(4)); } Val v = co_await f; REQUIRE(v.v == 4, "another value"); fin++; }; break;
			}
			batches(4); e.signal_all(); if (what == 2 || what == 6) { mc_advance(2 * MS); } batches(2); drain();
			if (what == 1 || what == 2) e.reset();
			int a = (int)mc_cell_get(250); if (alive < 0) alive = a; REQUIRE(a == alive, "%d objects alive after round %d, %d before", a, r, alive);
		}
		REQUIRE(fin > 0, "nothing ran");
	}
	Probe::check("locals and values");
}
MC_REG("C24", "rounds-40", rounds, 40, 0, 0, MCF_LONG) MC_REG("C24", "rounds-3000", rounds, 3000, 0, 0, MCF_LONG)
// the counting handle itself: every sequence of operations on three handles, against the pointers they should hold
struct Counted
{
	int n = 0; bool dead = false; static std::vector<Counted*> all; Counted() { all.push_back(this); }
	void lock() { REQUIRE(!dead, "a destroyed state is referred to"); n++; } void unlock() { REQUIRE(n > 0 && !dead, "a state is released too often"); if (--n == 0) dead = true; }
};
std::vector<Counted*> Counted::all;
static void handles(int len)
{
	Counted::all.clear();
	{
		typedef counted_ptr<Counted> P; P p[3]; Counted* m[3] = {}; p[0] = m[0] = new Counted; if (mc_choose(2)) { p[1] = p[0]; m[1] = m[0]; } else p[1] = P(m[1] = new Counted);
		for (int s = 0; s < len; ++s)
		{
			int op = mc_choose(9), i = mc_choose(3), j = op < 5 ? (int)mc_choose(3) : i;
			switch (op)
			{
			case 0: p[i] = p[j]; m[i] = m[j]; break;
			case 1: { P& r = p[j]; p[i] = std::move(r); if (i != j) { m[i] = m[j]; m[j] = nullptr; } break; }
			case 2: p[i].swap(p[j]); std::swap(m[i], m[j]); break;
			case 3: std::swap(p[i], p[j]); std::swap(m[i], m[j]); break;
			case 4: { P t(std::move(p[i])); REQUIRE(!p[i] && t.get() == m[i], "a move left something behind"); p[i] = std::move(t); REQUIRE((p[i] == p[j]) == (m[i] == m[j]), "== is wrong"); break; }
			case 5: p[i].reset(); m[i] = nullptr; break;
			case 6: p[i] = m[i] = new Counted; break;
			case 7: { P t(p[i]); P u; u = t; REQUIRE(u.get() == m[i] && t.get() == m[i], "a copy refers to something else"); break; }
			case 8: p[i] = P(p[i].get()); break;
			}
			for (int k = 0; k < 3; ++k) REQUIRE(p[k].get() == m[k] && (Counted*)p[k] == m[k] && p[k].operator->() == m[k] && (p[k] == nullptr) == !m[k] && (nullptr == p[k]) == !m[k] && (p[k] != nullptr) == !!m[k] && (nullptr != p[k]) == !!m[k], "a handle refers to something else");
			for (Counted* c : Counted::all) { int n = (m[0] == c) + (m[1] == c) + (m[2] == c); REQUIRE(c->n == n, "%d references are counted, %d handles exist", c->n, n); REQUIRE(c->dead == (n == 0), c->dead ? "destroyed while referred to" : "not destroyed"); }
		}
	}
	for (Counted* c : Counted::all) { REQUIRE(c->dead, "a state was not destroyed"); delete c; } Counted::all.clear(); Counted::all.shrink_to_fit();
}
MC_REG("C24", "handles-3", handles, 3, 0, 0, 0) MC_REG("C24", "handles-4", handles, 4, 0, 0, MCF_THOROUGH)
