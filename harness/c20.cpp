#include "when.h"
#include "endure.h"
#include <vector>
// the caller: awaits and checks the results
static void resumed(const int* kind, int n) { REQUIRE(mc_cell_add(RES, 1) == 1, "the caller was resumed twice"); for (int i = 0; i < n; ++i) REQUIRE(mc_cell_get(FIN + i) == 1, "the caller was resumed before child %d had finished", i); (void)kind; }
template<class T> static void eq(const T& x, int i) { REQUIRE(same(x, i), "result %d is not in its place", i); }
static void eq(const std::remove_const_t<decltype(std::ignore)>&, int) {}
template<class R> static void check_tuple(const R& r) { [&]<size_t... I>(std::index_sequence<I...>) { (eq(std::get<I>(r), (int)I), ...); }(std::make_index_sequence<std::tuple_size_v<R>>()); }
template<class R> static void check_vec(const R& r, int n) { REQUIRE((int)r.size() == n, "%d results instead of %d", (int)r.size(), n); if constexpr (std::is_same_v<typename R::value_type, bool>) { for (int i = 0; i < n; ++i) REQUIRE(r[i], "result %d is not in its place", i); } else for (int i = 0; i < n; ++i) eq(r[i], i); }
static void end_ok(const int* kind, int n) { for (int i = 0; i < n; ++i) REQUIRE(!throws(kind[i]), "a listed awaitable failed and the caller was not told"); }
static void end_bad(const int* kind, Bad& e) { REQUIRE(e.p.magic == Probe::MAGIC && e.p.v == e.v && throws(kind[e.v]), "another exception arrived"); }
#define CALLER(expr, chk) try { auto r = co_await expr; resumed(kind, n); end_ok(kind, n); chk; } catch (Bad& e) { resumed(kind, n); end_bad(kind, e); }
enum { F_SCH, F_LATER, F_LATER2, F_CUR, F_CALL, F_LVALUE, FORMS };
template<class... T, size_t... I> static future_t<> caller_i(const int* kind, int form, std::index_sequence<I...>)
{
	constexpr int n = sizeof...(T); Probe local(3); scheduler_t* sch = librf_current_scheduler();
	if (form == F_SCH) { CALLER((when_all(*sch, child<T>((int)I, kind[I])...)), check_tuple(r)) }
	else if (form == F_LATER || form == F_LATER2) { auto f = when_all(*sch, child<T>((int)I, kind[I])...); for (int k = 0; k < (form == F_LATER ? 1 : 8); ++k) co_await yield(); if (form == F_LATER2) co_await sleep_for(1ms); CALLER(f, check_tuple(r)) }
	else if (form == F_CUR) { CALLER((when_all(child<T>((int)I, kind[I])...)), check_tuple(r)) }
	else if (form == F_CALL) { CALLER((when_all(*sch, [kind]() -> future_t<T> { return child<T>((int)I, kind[I]); }...)), check_tuple(r)) }
	else { std::tuple<future_t<T>...> fs { child<T>((int)I, kind[I])... }; CALLER((std::apply([&](auto&... f) { return when_all(*sch, f...); }, fs)), check_tuple(r)) }
	co_await yield(); if (W2) W2->done.fetch_add(1);
}
template<class... T> static future_t<> caller(const int* kind, int form) { return caller_i<T...>(kind, form, std::index_sequence_for<T...>()); }
template<class T> static future_t<> caller_range(const int* kind, int n, int form)
{
	Probe local(3); scheduler_t* sch = librf_current_scheduler(); std::vector<future_t<T>> v; if (form != F_CALL) for (int i = 0; i < n; ++i) v.push_back(child<T>(i, kind[i]));
	if (form == F_SCH) { CALLER((when_all(*sch, v.begin(), v.end())), check_vec(r, n)) }
	else if (form == F_LATER || form == F_LATER2) { auto f = when_all(*sch, v); v.clear(); for (int k = 0; k < (form == F_LATER ? 1 : 8); ++k) co_await yield(); if (form == F_LATER2) co_await sleep_for(1ms); CALLER(f, check_vec(r, n)) }
	else if (form == F_CUR) { CALLER((when_all(v.begin(), v.end())), check_vec(r, n)) }
	else if (form == F_LVALUE) { CALLER((when_all(v)), check_vec(r, n)) }
	else { std::vector<std::function<future_t<T>()>> c; for (int i = 0; i < n; ++i) c.push_back([i, kind] { return child<T>(i, kind[i]); }); CALLER((when_all(*sch, c)), check_vec(r, n)) }
	co_await yield(); if (W2) W2->done.fetch_add(1);
}
template<class F> static void scenario(int n, bool few, F start)
{
	{ Stage st; local_scheduler_t ls; int kind[4]; for (int i = 0; i < n; ++i) { static const int FEW[] = { NOW, YIELD1, EVENT, YTHROW, SLEEP1 }; kind[i] = few ? FEW[mc_choose(5)] : mc_choose(KINDS); } int form = mc_choose(FORMS); start(kind, form); play(kind, n); REQUIRE(mc_cell_get(RES) == 1, "the caller was never resumed"); for (int i = 0; i < n; ++i) REQUIRE(mc_cell_get(FIN + i) == 1, "child %d never finished", i); drain(); }
	Probe::check("values");
}
template<class... T> static void var(int few) { scenario((int)sizeof...(T), few, [](const int* k, int f) { go caller<T...>(k, f); }); }
template<class T> static void range(int n) { scenario(n % 10, n >= 10, [n](const int* k, int f) { go caller_range<T>(k, n % 10, f); }); }
MC_REG("C20", "none", var<>, 0, 0, 0, 0)
MC_REG("C20", "void", var<void>, 0, 0, 0, 0) MC_REG("C20", "int", var<int>, 0, 0, 0, 0) MC_REG("C20", "string", var<std::string>, 0, 0, 0, 0) MC_REG("C20", "move", var<MoveVal>, 0, 0, 0, 0) MC_REG("C20", "bool", var<bool>, 0, 0, 0, 0)
MC_REG("C20", "int-void", (var<int, void>), 0, 0, 0, 0) MC_REG("C20", "val-string", (var<Val, std::string>), 0, 0, 0, 0) MC_REG("C20", "move-void-val", (var<MoveVal, void, Val>), 1, 0, 0, 0) MC_REG("C20", "bool-int-string-all", (var<bool, int, std::string>), 0, 0, 0, MCF_THOROUGH)
MC_REG("C20", "range-0", range<int>, 0, 0, 0, 0) MC_REG("C20", "range-1", range<Val>, 1, 0, 0, 0) MC_REG("C20", "range-void-2", range<void>, 2, 0, 0, 0) MC_REG("C20", "range-int-2", range<int>, 2, 0, 0, 0) MC_REG("C20", "range-move-2", range<MoveVal>, 2, 0, 0, 0) MC_REG("C20", "range-bool-2", range<bool>, 2, 0, 0, 0) MC_REG("C20", "range-string-3", range<std::string>, 13, 0, 0, 0) MC_REG("C20", "range-val-3-all", range<Val>, 3, 0, 0, MCF_THOROUGH) MC_REG("C20", "range-void-3", range<void>, 13, 0, 0, MCF_THOROUGH)
// children that end on another thread
struct TP { int n; int kind[3]; int form; };
static const TP TPS[] = {
	{ 1, { VIA }, F_SCH }, { 1, { VIA }, F_LATER }, { 2, { VIA, VIA }, F_SCH }, { 2, { VIA, NOW }, F_SCH }, { 2, { VIA, YIELD1 }, F_LATER }, { 2, { NOW, VIA }, F_CUR }, { 2, { VIAYIELD, YIELD2 }, F_SCH }, { 2, { VIATHROW, NOW }, F_SCH },	// 0..7
	{ 2, { VIA, VIABACK }, F_SCH }, { 2, { VIATHROW, YTHROW }, F_LATER }, { 3, { VIA, VIAYIELD, NOW }, F_SCH }, { 3, { VIA, YIELD1, VIA }, F_LATER2 } };	// 8..11
static void cross(int i)
{
	const TP& t = TPS[i]; first_fin = -1;
	two_threads([&] { if (t.n == 1) go caller<Val>(t.kind, t.form); else if (t.n == 2) go caller<Val, int>(t.kind, t.form); else go caller<Val, int, void>(t.kind, t.form); }, 1 + t.n);
	Probe::check("values");
}
static void cross_range(int i)
{
	const TP& t = TPS[i]; first_fin = -1;
	two_threads([&] { go caller_range<bool>(t.kind, t.n, t.form); }, 1 + t.n);
	Probe::check("values");
}
static void cross_range_val(int i) { const TP& t = TPS[i]; first_fin = -1; two_threads([&] { go caller_range<Val>(t.kind, t.n, t.form); }, 1 + t.n); Probe::check("values"); }
#define CR(k, pq, pt, fl) MC_REG("C20", "cross-" #k, cross, k, pq, pt, fl)
CR(0, 3, 5, 0) CR(1, 3, 5, 0) CR(2, 3, 4, 0) CR(3, 3, 4, 0) CR(4, 2, 4, 0) CR(5, 2, 4, 0) CR(6, 2, 4, 0) CR(7, 2, 4, 0) CR(8, 3, 4, 0) CR(9, 2, 4, 0) CR(10, 2, 3, 0) CR(11, 2, 3, 0)
MC_REG("C20", "cross-range-val-2", cross_range_val, 2, 2, 4, 0) MC_REG("C20", "cross-range-val-4", cross_range_val, 4, 2, 4, 0) MC_REG("C20", "cross-range-bool-3", cross_range, 3, 2, 4, 0) MC_REG("C20", "cross-range-bool-4", cross_range, 4, 2, 4, 0)
// the caller gives up: nobody awaits the result
static void dropped(int later)
{
	{
		Stage st; local_scheduler_t ls; int kind[4]; for (int i = 0; i < 2; ++i) kind[i] = mc_choose(KINDS); int range_ = mc_choose(2);
		go [&]() -> future_t<> { Probe l(1); scheduler_t* sch = librf_current_scheduler(); if (range_) { std::vector<future_t<Val>> v; for (int i = 0; i < 2; ++i) v.push_back(child<Val>(i, kind[i])); auto f = when_all(*sch, v); if (later) co_await yield(); (void)f; } else { auto f = when_all(*sch, child<Val>(0, kind[0]), child<void>(1, kind[1])); if (later) co_await yield(); (void)f; } };
		play(kind, 2); for (int i = 0; i < 2; ++i) REQUIRE(mc_cell_get(FIN + i) == 1, "child %d never finished", i); drain();
	}
	Probe::check("values");
}
MC_REG("C20", "dropped", dropped, 0, 0, 0, 0) MC_REG("C20", "dropped-later", dropped, 1, 0, 0, 0)
// the library's own awaiters as children
static void mix(int)
{
	{
		local_scheduler_t ls; event_t e { false }; channel_t<int> c { 1 }; int ord[3] = { 0, 1, 2 }; for (int i = 0; i < 3; ++i) { int k = i + (i < 2 ? mc_choose(3 - i) : 0); std::swap(ord[i], ord[k]); } bool settle = mc_choose(2);
		go [&]() -> future_t<> { Probe l(1); auto r = co_await when_all(e.wait(), c.read(), sleep_for(1ms), e.wait_for(50ms)); REQUIRE(std::get<0>(r) && std::get<1>(r) == 7 && std::get<3>(r), "a result is not in its place"); mc_cell_add(RES, 1); };
		if (settle) batches(16);
		for (int i : ord) { REQUIRE(mc_cell_get(RES) == 0, "the caller was resumed before all children had finished"); if (i == 0) e.signal(); else if (i == 1) go [&]() -> future_t<> { co_await c.write(7); }; else mc_advance(MS); batches(16); }
		REQUIRE(mc_cell_get(RES) == 0, "the caller was resumed before all children had finished"); e.signal(); batches(16); if (!settle) { mc_advance(2 * MS); batches(16); }
		REQUIRE(mc_cell_get(RES) == 1, "the caller was never resumed"); drain();
	}
	Probe::check("locals");
}
MC_REG("C20", "mix", mix, 0, 0, 0, 0)
// hundreds of them
template<class T> static future_t<T> nth(int i, int kind, std::vector<int>* fin)
{
	Probe l(1); switch (kind) { case 1: co_await yield(); break; case 2: co_await sleep_for(std::chrono::milliseconds(i % 7)); break; case 3: for (int k = 0; k < i % 11; ++k) co_await yield(); break; case 4: (*fin)[i]++; throw Bad(i); }
	REQUIRE(++(*fin)[i] == 1, "child %d finished twice", i); if constexpr (std::is_void_v<T>) co_return; else if constexpr (std::is_same_v<T, bool>) co_return (i * 5 % 3) == 0; else co_return T(i);
}
template<class T> static void many(int n)
{
	{
		local_scheduler_t ls; std::vector<int> fin(n, 0); int pat = mc_choose(5), bad = mc_choose(4), later = mc_choose(2); bool back = false;
		auto kind = [&](int i) { if (bad == 1 && i == 0) return 4; if (bad == 2 && i == n - 1) return 4; if (bad == 3 && i % 9 == 4) return 4; return pat < 4 ? pat : i % 4; };
		auto all = [&] { for (int i = 0; i < n; ++i) REQUIRE(fin[i] == 1, "the caller was resumed before child %d had finished", i); back = true; };
		auto top = [&]() -> future_t<> {
			Probe l(1); std::vector<future_t<T>> v; for (int i = 0; i < n; ++i) v.push_back(nth<T>(i, kind(i), &fin)); scheduler_t* sch = librf_current_scheduler();
			try {
				auto f = when_all(*sch, v); v.clear(); if (later) for (int i = 0; i < 5; ++i) co_await yield();
				auto r = co_await f; all(); REQUIRE(!bad, "a listed awaitable failed and the caller was not told");
				REQUIRE((int)r.size() == n, "%d results instead of %d", (int)r.size(), n);
				if constexpr (std::is_same_v<T, Val>) for (int i = 0; i < n; ++i) REQUIRE(r[i].v == i, "result %d is not in its place", i); else if constexpr (std::is_same_v<T, bool>) for (int i = 0; i < n; ++i) REQUIRE(r[i] == ((i * 5 % 3) == 0), "result %d is not in its place", i);
			} catch (Bad& e) { all(); REQUIRE(bad && kind(e.v) == 4 && e.p.magic == Probe::MAGIC, "another exception arrived"); } };
		go top(); for (int i = 0; i < 8; ++i) { batches(20); mc_advance(MS); } batches(20); REQUIRE(back, "the caller was never resumed"); drain();
	}
	Probe::check("values");
}
MC_REG("C20", "many-val-40", many<Val>, 40, 0, 0, MCF_LONG) MC_REG("C20", "many-bool-300", many<bool>, 300, 0, 0, MCF_LONG) MC_REG("C20", "many-void-70", many<void>, 70, 0, 0, MCF_LONG) MC_REG("C20", "many-val-300", many<Val>, 300, 0, 0, MCF_LONG)
// several at once, one inside the other
static future_t<int> nest(int depth, int y) { Probe l(1); if (depth == 0) { for (int i = 0; i < y; ++i) co_await yield(); co_return 1; } std::vector<future_t<int>> v; v.push_back(nest(depth - 1, y)); v.push_back(nest(depth - 1, 1 - y)); auto [a, b] = co_await when_all(nest(depth - 1, y), when_all(v)); co_return a + b[0] + b[1]; }
static void nested_all(int d) { { local_scheduler_t ls; int got = -1, y = mc_choose(2), two = mc_choose(2), want = 1; for (int i = 0; i < d; ++i) want *= 3; auto top = [&]() -> future_t<> { int r = co_await nest(d, y); REQUIRE(r == want, "%d instead of %d", r, want); got = r; }; go top(); if (two) go top(); drain(); REQUIRE(got == want, "the caller was never resumed"); } Probe::check("values"); }
MC_REG("C20", "nested-2", nested_all, 2, 0, 0, MCF_LONG) MC_REG("C20", "nested-4", nested_all, 4, 0, 0, MCF_LONG)
MC_REG("C20", "again-20000", endure::all_of, 20000, 0, 0, MCF_LONG)
MC_REG("C20", "wide-70000", endure::wide_all, 70000, 0, 0, MCF_LONG)
