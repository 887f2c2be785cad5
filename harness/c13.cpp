#include "hx.h"
#include "endure.h"
#include <string>
// result kinds
static int g_refs[4];
struct Fat { Probe p; double pad[6]; alignas(32) char c[32]; Fat(int v) : p(v) {} Fat(Fat&&) = default; Fat& operator=(Fat&&) = default; };
struct NoDefault { Probe p; NoDefault(int v, int w) : p(v + w) {} NoDefault(const NoDefault&) = default; };
template<class T> struct K
{
	static T make(int v) { if constexpr (std::is_same_v<T, std::string>) return std::string(30, (char)('a' + v)); else if constexpr (std::is_same_v<T, NoDefault>) return NoDefault(v, 0); else if constexpr (std::is_same_v<T, std::unique_ptr<Probe>>) return std::make_unique<Probe>(v); else return T(v); }
	static int get(T& x)
	{
		if constexpr (std::is_same_v<T, std::string>) { REQUIRE(x.size() == 30, "a string of %d characters arrived", (int)x.size()); return x[29] - 'a'; }
		else if constexpr (std::is_same_v<T, int> || std::is_same_v<T, char> || std::is_same_v<T, int64_t>) return (int)x;
		else if constexpr (std::is_same_v<T, bool>) return x;
		else if constexpr (std::is_same_v<T, std::unique_ptr<Probe>>) { REQUIRE(x && x->magic == Probe::MAGIC, "the pointer is gone"); return x->v; }
		else if constexpr (std::is_same_v<T, Fat> || std::is_same_v<T, NoDefault>) { REQUIRE(x.p.magic == Probe::MAGIC, "a destroyed value arrived"); return x.p.v; }
		else { REQUIRE(x.magic == Probe::MAGIC, "a destroyed value arrived"); return x.v; }
	}
};
struct Err { Probe p; int v; Err(int x) : p(x), v(x) {} };
enum { RESUMED = 20, GOT = 30, SETC = 40 };
// how the result is handed over
template<class T> static void set(awaitable_t<T>& aw, int v, bool err)
{
	mc_cell_set(SETC + v, 1);
	if (err) { aw.set_exception(std::make_exception_ptr(Err(v))); return; }
	if constexpr (std::is_void_v<T>) aw.set_value();
	else if constexpr (std::is_lvalue_reference_v<T>) aw.set_value(g_refs[v]);
	else aw.set_value(K<T>::make(v));
}
// awaits one future and checks that it brings exactly (v, err), once
template<class T> static future_t<> consume(future_t<T> f, int v, bool err, bool after_yield = false)
{
	if (after_yield) co_await yield();
	int got = -1; bool failed = false;
	try
	{
		if constexpr (std::is_void_v<T>) { co_await f; got = v; }
		else if constexpr (std::is_lvalue_reference_v<T>) { int& r = co_await f; got = (int)(&r - g_refs); }
		else { T x = co_await f; got = K<T>::get(x); }
	}
	catch (Err& e) { failed = true; got = e.v; REQUIRE(e.p.magic == Probe::MAGIC, "a destroyed exception arrived"); }
	REQUIRE(mc_cell_add(RESUMED + v, 1) == 1, "the awaiting coroutine was resumed twice");
	REQUIRE(mc_cell_get(SETC + v) == 1, "the coroutine was resumed before the result was set");
	REQUIRE(failed == err, failed ? "an exception arrived instead of the value" : "a value arrived instead of the exception");
	REQUIRE(got == v, "result %d arrived instead of %d", got, v);
}
static void done(int v) { REQUIRE(mc_cell_get(RESUMED + v) == 1, "the awaiting coroutine was never resumed"); Probe::check("result values"); }
// ---- one awaitable, awaited on one thread, set from another
// where the awaiting coroutine runs; setter on its own thread
template<class T> static void race(int)
{
	{
		bool err = mc_choose(2), dly = mc_choose(2); awaitable_t<T> aw; auto f = aw.get_future();
		int a = sched_thr([&, dly] { go consume<T>(std::move(f), 1, err, dly); });
		int b = thr([&] { set(aw, 1, err); REQUIRE(!aw, "a used awaitable still refers to its state"); });
		join_all(a, b);
	}
	done(1);
}
MC_REG("C13", "race-int", race<int>, 0, 5, 8, 0) MC_REG("C13", "race-void", race<void>, 0, 5, 8, 0) MC_REG("C13", "race-ref", race<int&>, 0, 5, 8, 0) MC_REG("C13", "race-probe", race<Probe>, 0, 5, 8, 0)
MC_REG("C13", "race-moveonly", race<MoveOnly>, 0, 5, 8, 0) MC_REG("C13", "race-string", race<std::string>, 0, 5, 8, 0) MC_REG("C13", "race-fat", race<Fat>, 0, 5, 8, 0) MC_REG("C13", "race-nodefault", race<NoDefault>, 0, 5, 8, 0) MC_REG("C13", "race-uptr", race<std::unique_ptr<Probe>>, 0, 5, 8, 0)
MC_REG("C13", "race-bool", race<bool>, 0, 5, 8, 0)
// ---- an awaitable function started by the coroutine itself: the setter runs while the co_await is on its way
template<class T> static future_t<T> async_op(int v, bool err, int* tid)
{
	awaitable_t<T> aw; *tid = thr([aw, v, err]() mutable { set(aw, v, err); });
	return aw.get_future();
}
template<class T> static future_t<> caller(int n, bool err, int* tid) { for (int i = 0; i < n; ++i) co_await consume<T>(async_op<T>(i, err && i == 0, tid + i), i, err && i == 0); }
template<class T> static void started(int n)
{
	{ bool err = mc_choose(2); int tid[3] = {}; local_scheduler_t ls; go caller<T>(n, err, tid); drain(); for (int i = 0; i < n; ++i) mc_join(tid[i]); }
	for (int i = 0; i < n; ++i) done(i);
}
MC_REG("C13", "started-int", started<int>, 1, 5, 8, 0) MC_REG("C13", "started-void", started<void>, 1, 5, 8, 0) MC_REG("C13", "started-ref", started<int&>, 1, 5, 8, 0) MC_REG("C13", "started-moveonly", started<MoveOnly>, 1, 5, 8, 0) MC_REG("C13", "started-2", started<Probe>, 2, 3, 5, 0) MC_REG("C13", "started-void-2", started<void>, 2, 3, 5, 0)
// the coroutine awaits the operation directly, and returns what it got
template<class T> static future_t<T> direct(int v, bool err, int* tid)
{
	if constexpr (std::is_void_v<T>) co_await async_op<T>(v, err, tid);
	else if constexpr (std::is_lvalue_reference_v<T>) { T r = co_await async_op<T>(v, err, tid); co_return r; }
	else co_return co_await async_op<T>(v, err, tid);
}
template<class T> static future_t<T> nest(int depth, int v, bool err, int* tid)
{
	if (depth == 0)
	{
		if constexpr (std::is_void_v<T>) co_await direct<T>(v, err, tid);
		else if constexpr (std::is_lvalue_reference_v<T>) { T r = co_await direct<T>(v, err, tid); co_return r; }
		else co_return co_await direct<T>(v, err, tid);
	}
	else
	{
		if constexpr (std::is_void_v<T>) co_await nest<T>(depth - 1, v, err, tid);
		else if constexpr (std::is_lvalue_reference_v<T>) { T r = co_await nest<T>(depth - 1, v, err, tid); co_return r; }
		else co_return co_await nest<T>(depth - 1, v, err, tid);
	}
}
template<class T> static void nested(int depth)
{
	{ bool err = mc_choose(2); int tid = 0; local_scheduler_t ls; go consume<T>(nest<T>(depth, 1, err, &tid), 1, err); drain(); mc_join(tid); }
	done(1);
}
MC_REG("C13", "nested-int", nested<int>, 1, 4, 6, 0) MC_REG("C13", "nested-void", nested<void>, 1, 4, 6, 0) MC_REG("C13", "nested-probe", nested<Probe>, 2, 3, 5, 0) MC_REG("C13", "nested-ref", nested<int&>, 2, 3, 5, 0) MC_REG("C13", "nested-moveonly", nested<MoveOnly>, 1, 3, 5, 0)
// ---- two futures of one coroutine, set by two threads in any order; two coroutines
template<class T> static future_t<> consume2(future_t<T> f, future_t<T> g, bool swap) { co_await consume<T>(swap ? std::move(g) : std::move(f), swap ? 2 : 1, false); co_await consume<T>(swap ? std::move(f) : std::move(g), swap ? 1 : 2, false); }
template<class T> static void two(int same_setter)
{
	{
		bool swap = mc_choose(2); awaitable_t<T> x, y; auto f = x.get_future(), g = y.get_future();
		int a = sched_thr([&, swap] { go consume2<T>(std::move(f), std::move(g), swap); });
		if (same_setter) { int b = thr([&] { set(x, 1, false); set(y, 2, false); }); join_all(a, b); }
		else { int b = thr([&] { set(x, 1, false); }), c = thr([&] { set(y, 2, false); }); join_all(a, b, c); }
	}
	done(1); done(2);
}
MC_REG("C13", "two-futures-int", two<int>, 1, 3, 6, 0) MC_REG("C13", "two-futures-void", two<void>, 1, 3, 6, 0) MC_REG("C13", "two-setters-probe", two<Probe>, 0, 3, 5, 0) MC_REG("C13", "two-setters-ref", two<int&>, 0, 2, 4, 0)
// two coroutines on two schedulers, each awaits what the other's thread sets
template<class T> static void crossed(int)
{
	{
		awaitable_t<T> x, y; auto f = x.get_future(), g = y.get_future();
		int a = sched_thr([&] { go consume<T>(std::move(f), 1, false); set(y, 2, false); });
		int b = sched_thr([&] { go consume<T>(std::move(g), 2, false); this_scheduler()->run_one_batch(); set(x, 1, false); });
		join_all(a, b);
	}
	done(1); done(2);
}
MC_REG("C13", "crossed-int", crossed<int>, 0, 3, 6, 0) MC_REG("C13", "crossed-void", crossed<void>, 0, 3, 6, 0)
// ---- one thread: every order of creating, setting and awaiting; the result may never be awaited
template<class T> static void order(int)
{
	bool err = mc_choose(2); int when = mc_choose(7);
	bool awaited = true;
	{
		local_scheduler_t ls; awaitable_t<T> aw; mc_progress();
		switch (when)
		{
		case 0: { set(aw, 1, err); awaited = false; break; }	// too late for get_future
		case 1: { auto f = aw.get_future(); set(aw, 1, err); go consume<T>(std::move(f), 1, err); break; }
		case 2: { go consume<T>(aw.get_future(), 1, err); set(aw, 1, err); break; }
		case 3: { go consume<T>(aw.get_future(), 1, err); batches(2); REQUIRE(mc_cell_get(RESUMED + 1) == 0, "resumed without a result"); set(aw, 1, err); break; }
		case 4: { auto f = aw.get_future(); awaitable_t<T> c = aw; set(c, 1, err); go consume<T>(f, 1, err); break; }	// through a copy
		case 5: { auto f = aw.get_future(); set(aw, 1, err); awaited = false; break; }	// nobody asks
		case 6: { go consume<T>(aw.get_future(), 1, err, true); batches(1); set(aw, 1, err); break; }
		}
		drain();
	}
	if (awaited) done(1); else Probe::check("result values");
}
MC_REG("C13", "order-int", order<int>, 0, 0, 0, 0) MC_REG("C13", "order-void", order<void>, 0, 0, 0, 0) MC_REG("C13", "order-ref", order<int&>, 0, 0, 0, 0) MC_REG("C13", "order-probe", order<Probe>, 0, 0, 0, 0)
MC_REG("C13", "order-moveonly", order<MoveOnly>, 0, 0, 0, 0) MC_REG("C13", "order-fat", order<Fat>, 0, 0, 0, 0) MC_REG("C13", "order-string", order<std::string>, 0, 0, 0, 0) MC_REG("C13", "order-char", order<char>, 0, 0, 0, 0) MC_REG("C13", "order-i64", order<int64_t>, 0, 0, 0, 0) MC_REG("C13", "order-bool", order<bool>, 0, 0, 0, 0) MC_REG("C13", "order-nodefault", order<NoDefault>, 0, 0, 0, 0) MC_REG("C13", "order-uptr", order<std::unique_ptr<Probe>>, 0, 0, 0, 0)
// ---- results of coroutines: finished or not when awaited, suspended or not on the way
template<class T> static future_t<T> produce(int v, bool err, int yields)
{
	Probe local(77); for (int i = 0; i < yields; ++i) co_await yield();
	mc_cell_set(SETC + v, 1);
	if (err) throw Err(v);
	if constexpr (std::is_void_v<T>) co_return;
	else if constexpr (std::is_lvalue_reference_v<T>) co_return g_refs[v];
	else if constexpr (std::is_same_v<T, Probe>) { Probe r(v); co_return r; }
	else co_return K<T>::make(v);
}
template<class T> static future_t<> several(int n, int mode, bool err)
{
	// 0: in order, at once; 1: created all first, awaited in reverse order
	if (mode == 0) { for (int i = 0; i < n; ++i) co_await consume<T>(produce<T>(i, err && i == 1, i), i, err && i == 1, i & 1); }
	else
	{
		auto a = produce<T>(0, false, 1); auto b = produce<T>(1, err, 0); co_await consume<T>(std::move(b), 1, err); co_await consume<T>(std::move(a), 0, false);
		for (int i = 2; i < n; ++i) co_await consume<T>(produce<T>(i, false, 0), i, false);
	}
}
template<class T> static void coroutines(int)
{
	{ local_scheduler_t ls; int n = 2 + mc_choose(2), mode = mc_choose(2); bool err = mc_choose(2); go several<T>(n, mode, err); drain(); for (int i = 0; i < n; ++i) done(i); }
	Probe::check();
}
MC_REG("C13", "coroutine-int", coroutines<int>, 0, 0, 0, 0) MC_REG("C13", "coroutine-void", coroutines<void>, 0, 0, 0, 0) MC_REG("C13", "coroutine-ref", coroutines<int&>, 0, 0, 0, 0) MC_REG("C13", "coroutine-probe", coroutines<Probe>, 0, 0, 0, 0) MC_REG("C13", "coroutine-moveonly", coroutines<MoveOnly>, 0, 0, 0, 0)
MC_REG("C13", "coroutine-string", coroutines<std::string>, 0, 0, 0, 0) MC_REG("C13", "coroutine-fat", coroutines<Fat>, 0, 0, 0, 0) MC_REG("C13", "coroutine-uptr", coroutines<std::unique_ptr<Probe>>, 0, 0, 0, 0)
// a result of one coroutine awaited by another one that was launched separately, on the same scheduler or another
template<class T> static future_t<> handover(awaitable_t<T> aw, int v, bool err, int yields) { for (int i = 0; i < yields; ++i) co_await yield(); set(aw, v, err); co_await yield(); }
template<class T> static void pipe(int other)
{
	{
		bool err = mc_choose(2); int y = mc_choose(3); awaitable_t<T> aw; auto f = aw.get_future();
		int a = sched_thr([&, y] { if (!other) { if (mc_choose(2)) { go handover<T>(aw, 1, err, y); go consume<T>(std::move(f), 1, err); } else { go consume<T>(std::move(f), 1, err); go handover<T>(aw, 1, err, y); } } else go consume<T>(std::move(f), 1, err); });
		if (other) { int b = sched_thr([&, y] { go handover<T>(std::move(aw), 1, err, y); }); join_all(a, b); } else mc_join(a);
	}
	done(1);
}
MC_REG("C13", "pipe-int", pipe<int>, 0, 2, 4, 0) MC_REG("C13", "pipe-void", pipe<void>, 0, 2, 4, 0) MC_REG("C13", "pipe-other-int", pipe<int>, 1, 3, 5, 0) MC_REG("C13", "pipe-other-void", pipe<void>, 1, 3, 5, 0) MC_REG("C13", "pipe-other-probe", pipe<Probe>, 1, 3, 5, 0)
// a failed await leaves the future usable: `throw_exception`, and exceptions of other types
static future_t<> typed(int kind, awaitable_t<int> aw, awaitable_t<void> av)
{
	int seen = 0; auto f = aw.get_future(); auto g = av.get_future();
	switch (kind)
	{
	case 0: aw.throw_exception(std::logic_error("x")); break;
	case 1: aw.throw_exception(7); break;
	case 2: aw.throw_exception(channel_exception{ error_code::read_before_write }); break;
	case 3: av.throw_exception(std::logic_error("x")); break;
	}
	try { if (kind < 3) (void)co_await f; else co_await g; }
	catch (std::logic_error& e) { seen = (e.what() == std::string("x")) ? 1 : 0; if (dynamic_cast<channel_exception*>(&e)) seen = 3; }
	catch (int i) { seen = i == 7 ? 2 : 0; }
	catch (std::exception&) { seen = 3; }
	REQUIRE(seen == (kind == 0 || kind == 3 ? 1 : kind + 1), "exception kind %d arrived as %d", kind, seen);
	mc_cell_set(60, 1);
}
static void types(int) { { local_scheduler_t ls; go typed(mc_choose(4), {}, {}); drain(); } REQUIRE(mc_cell_get(60) == 1, "the awaiting coroutine was never resumed"); }
MC_REG("C13", "exception-types", types, 0, 0, 0, 0)
// ---- a coroutine that was launched on its own and is awaited as well: before it starts, while it runs, after it ended
template<class T> static future_t<T> runs(int v, bool err, int n)
{
	for (int i = 0; i < n; ++i) co_await yield();
	mc_cell_set(SETC + v, 1); if (err) throw Err(v);
	if constexpr (std::is_void_v<T>) co_return; else if constexpr (std::is_lvalue_reference_v<T>) co_return g_refs[v]; else co_return K<T>::make(v);
}
template<class T> static future_t<> later(future_t<T> f, int v, bool err, int n) { for (int i = 0; i < n; ++i) co_await yield(); co_await consume<T>(std::move(f), v, err); }
template<class T> static void launched(int)
{
	{
		local_scheduler_t ls; bool err = mc_choose(2), first = mc_choose(2); int n = mc_choose(4), when = mc_choose(5);
		future_t<T> f = runs<T>(1, err, n); if (first) go f; go later<T>(f, 1, err, when); if (!first) go f; drain();
	}
	done(1);
}
MC_REG("C13", "launched-int", launched<int>, 0, 0, 0, 0) MC_REG("C13", "launched-void", launched<void>, 0, 0, 0, 0) MC_REG("C13", "launched-ref", launched<int&>, 0, 0, 0, 0) MC_REG("C13", "launched-moveonly", launched<MoveOnly>, 0, 0, 0, 0)
// hundreds of results, set and awaited in different orders, by one coroutine or by one for each
template<class T> static future_t<> one_of(future_t<T> f, int i, std::vector<int>* got)
{
	int v = -1; try { if constexpr (std::is_void_v<T>) { co_await f; v = i; } else { T x = co_await f; v = (int)x; } } catch (Err& e) { v = ~e.v; }
	REQUIRE((*got)[i] == -1000000, "a coroutine was resumed twice"); (*got)[i] = v;
}
template<class T> static void many(int n)
{
	{
		local_scheduler_t ls; std::vector<awaitable_t<T>> aw(n); std::vector<future_t<T>> fu; std::vector<int> got(n, -1000000); int order = mc_choose(3), each = mc_choose(2), part = mc_choose(3);
		for (auto& a : aw) fu.push_back(a.get_future());
		auto at = [&](int k) { return order == 0 ? k : order == 1 ? n - 1 - k : (int)((k * 7919ll) % n); };
		auto setk = [&](int i) { if (i % 5 == 3) aw[i].set_exception(std::make_exception_ptr(Err(i))); else if constexpr (std::is_void_v<T>) aw[i].set_value(); else aw[i].set_value(i); };
		int k = 0; if (part == 1) for (; k < n / 3; ++k) setk(at(k));
		if (each) for (int i = 0; i < n; ++i) go one_of<T>(fu[i], i, &got); else go [&]() -> future_t<> { for (int i = 0; i < n; ++i) co_await one_of<T>(fu[i], i, &got); };
		if (each) fu.clear();
		if (!each) { for (; k < n; ++k) { setk(at(k)); if (part == 2 && k % 50 == 0) batches(2); } }
		else { for (; k < n; ++k) { setk(at(k)); if (part == 2 && k % 50 == 0) { batches(2); REQUIRE(got[at(k)] != -1000000, "the awaiting coroutine was not resumed"); } } }
		drain(); for (int i = 0; i < n; ++i) REQUIRE(got[i] == (i % 5 == 3 ? ~i : i), "result %d of %d arrived as %d", i, n, got[i]);
	}
	Probe::check();
}
MC_REG("C13", "many-int-40", many<int>, 40, 0, 0, MCF_LONG) MC_REG("C13", "many-int-600", many<int>, 600, 0, 0, MCF_LONG) MC_REG("C13", "many-void-300", many<void>, 300, 0, 0, MCF_LONG)
// through deep chains of awaits, finished at once or later
static future_t<int> chain(int n, int y, bool err) { Probe l(1); if (n == 0) { for (int i = 0; i < y; ++i) co_await yield(); if (err) throw Err(5); co_return 1; } int r = co_await chain(n - 1, y, err); co_return r + 1; }
static void chains(int n)
{
	{
		local_scheduler_t ls; int y = mc_choose(3), two = mc_choose(2); bool err = mc_choose(2), early = mc_choose(2); int fin = 0;
		auto top = [&](int d) -> future_t<> { try { if (early) { auto f = chain(d, y, err); co_await yield(); int r = co_await f; REQUIRE(r == d + 1 && !err, "result %d arrived", r); } else { int r = co_await chain(d, y, err); REQUIRE(r == d + 1 && !err, "result %d arrived", r); } } catch (Err& e) { REQUIRE(err && e.v == 5 && e.p.magic == Probe::MAGIC, "another exception"); } fin++; };
		go top(n); if (two) go top(n / 2 + 1); drain(); REQUIRE(fin == 1 + two, "the awaiting coroutine was never resumed");
	}
	Probe::check();
}
MC_REG("C13", "chain-30", chains, 30, 0, 0, MCF_LONG) MC_REG("C13", "chain-120", chains, 120, 0, 0, MCF_LONG)
MC_REG("C13", "again-66000", endure::futures, 66000, 0, 0, MCF_LONG)
