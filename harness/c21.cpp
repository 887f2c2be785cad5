#include "when.h"
#include "endure.h"
#include <vector>
static std::string STR[4];
template<class T> static future_t<T> kid(int id, int kind) { return child<T>(id, kind); }
template<> future_t<std::string&> kid<std::string&>(int id, int kind) { co_await child<void>(id, kind); co_return STR[id]; }
// what came out
struct Out { int idx = -2; };
static Out* O; static bool order_known; static int batch_no;
template<class T> static void check_val(const std::any& a, int i)
{
	if constexpr (std::is_void_v<T>) REQUIRE(!a.has_value(), "a value arrived although there is none");
	else { using V = std::remove_cvref_t<T>; auto* v = std::any_cast<V>(&a); REQUIRE(v, "the value has another type"); REQUIRE(same(*v, i), "another value arrived than the one of awaitable %d", i); }
}
template<class... T> static void check_any(const when_any_pair& r)
{
	int n = sizeof...(T); REQUIRE(r.first >= 0 && r.first < n, "index %d", (int)r.first); int k = 0; (((k == r.first ? check_val<T>(r.second, k) : (void)0), ++k), ...);
}
static void resumed(const int* kind, int n, int idx)
{
	REQUIRE(mc_cell_add(RES, 1) == 1, "the caller was resumed twice"); O->idx = idx; (void)kind; (void)n;
	REQUIRE(mc_cell_get(FIN + idx) == 1, "the caller was resumed with awaitable %d, which had not finished", idx);
	if (order_known) REQUIRE(idx == first_fin, "awaitable %d finished first, but the caller got %d", first_fin, idx);
}
#define CALLER(expr, ...) try { auto r = co_await expr; REQUIRE(r.first >= 0 && r.first < n && !throws(kind[r.first]), "index %d", (int)r.first); resumed(kind, n, (int)r.first); __VA_ARGS__; } catch (Bad& e) { REQUIRE(e.p.magic == Probe::MAGIC && e.p.v == e.v && throws(kind[e.v]), "another exception arrived"); resumed(kind, n, e.v); }
enum { F_SCH, F_LATER, F_LATER2, F_CUR, F_CALL, F_LVALUE, FORMS };
template<class... T, size_t... I> static future_t<> caller_i(const int* kind, int form, std::index_sequence<I...>)
{
	constexpr int n = sizeof...(T); Probe local(3); scheduler_t* sch = librf_current_scheduler();
	if (form == F_SCH) { CALLER((when_any(*sch, kid<T>((int)I, kind[I])...)), check_any<T...>(r)) }
	else if (form == F_LATER || form == F_LATER2) { auto f = when_any(*sch, kid<T>((int)I, kind[I])...); for (int k = 0; k < (form == F_LATER ? 1 : 8); ++k) co_await yield(); if (form == F_LATER2) co_await sleep_for(1ms); CALLER(f, check_any<T...>(r)) }
	else if (form == F_CUR) { CALLER((when_any(kid<T>((int)I, kind[I])...)), check_any<T...>(r)) }
	else if (form == F_CALL) { CALLER((when_any(*sch, [kind]() -> future_t<T> { return kid<T>((int)I, kind[I]); }...)), check_any<T...>(r)) }
	else { std::tuple<future_t<T>...> fs { kid<T>((int)I, kind[I])... }; CALLER((std::apply([&](auto&... f) { return when_any(*sch, f...); }, fs)), check_any<T...>(r)) }
	co_await yield(); if (W2) W2->done.fetch_add(1);
}
template<class... T> static future_t<> caller(const int* kind, int form) { return caller_i<T...>(kind, form, std::index_sequence_for<T...>()); }
template<class T> static future_t<> caller_range(const int* kind, int n, int form)
{
	Probe local(3); scheduler_t* sch = librf_current_scheduler(); std::vector<future_t<T>> v; if (form != F_CALL) for (int i = 0; i < n; ++i) v.push_back(kid<T>(i, kind[i]));
	if (form == F_SCH) { CALLER((when_any(*sch, v.begin(), v.end())), check_val<T>(r.second, (int)r.first)) }
	else if (form == F_LATER || form == F_LATER2) { auto f = when_any(*sch, v); v.clear(); for (int k = 0; k < (form == F_LATER ? 1 : 8); ++k) co_await yield(); if (form == F_LATER2) co_await sleep_for(1ms); CALLER(f, check_val<T>(r.second, (int)r.first)) }
	else if (form == F_CUR) { CALLER((when_any(v.begin(), v.end())), check_val<T>(r.second, (int)r.first)) }
	else if (form == F_LVALUE) { CALLER((when_any(v)), check_val<T>(r.second, (int)r.first)) }
	else { std::vector<std::function<future_t<T>()>> c; for (int i = 0; i < n; ++i) c.push_back([i, kind] { return kid<T>(i, kind[i]); }); CALLER((when_any(*sch, c)), check_val<T>(r.second, (int)r.first)) }
	co_await yield(); if (W2) W2->done.fetch_add(1);
}
template<class F> static void scenario(int n, int few, F start)
{
	for (int i = 0; i < 4; ++i) STR[i] = mk<std::string>(i);
	{
		Stage st; Out o; O = &o; local_scheduler_t ls; int kind[4]; static const int FEW[2][5] = { { NOW, YIELD1, EVENT, YTHROW, SLEEP1 }, { NOW, YIELD1, SLEEP1, SLEEP2, YIELD2 } };
		for (int i = 0; i < n; ++i) kind[i] = few ? FEW[few - 1][mc_choose(5)] : mc_choose(KINDS);
		order_known = few == 2;	// all awaitables are as deeply nested
		int form = mc_choose(FORMS); start(kind, form); play(kind, n);
		REQUIRE(mc_cell_get(RES) == 1, "the caller was never resumed"); for (int i = 0; i < n; ++i) REQUIRE(mc_cell_get(FIN + i) == 1, "child %d never finished", i); drain(); O = nullptr;
	}
	for (int i = 0; i < 4; ++i) { REQUIRE(STR[i] == mk<std::string>(i), "a string that an awaitable referred to was changed"); STR[i] = {}; STR[i].shrink_to_fit(); }
	Probe::check("values");
}
template<class... T> static void var(int few) { scenario((int)sizeof...(T), few, [](const int* k, int f) { go caller<T...>(k, f); }); }
template<class T> static void range(int n) { scenario(n % 10, n / 10, [n](const int* k, int f) { go caller_range<T>(k, n % 10, f); }); }
static void none(int)
{
	{
		local_scheduler_t ls; int form = mc_choose(5); bool was = false;
		go [&]() -> future_t<> {
			Probe l(1); scheduler_t* sch = librf_current_scheduler(); std::vector<future_t<int>> v; when_any_pair r { 5, {} };
			switch (form) { case 0: r = co_await when_any(); break; case 1: r = co_await when_any(*sch); break; case 2: r = co_await when_any(*sch, v); break; case 3: r = co_await when_any(v); break; case 4: r = co_await when_any(v.begin(), v.end()); break; }
			REQUIRE(r.first == -1 && !r.second.has_value(), "an empty list gave index %d", (int)r.first); was = true;
		};
		batches(16); REQUIRE(was, "the caller was never resumed"); drain();
	}
	Probe::check("values");
}
MC_REG("C21", "none", none, 0, 0, 0, 0)
MC_REG("C21", "void", var<void>, 0, 0, 0, 0) MC_REG("C21", "int", var<int>, 0, 0, 0, 0) MC_REG("C21", "string", var<std::string>, 0, 0, 0, 0) MC_REG("C21", "ref", var<std::string&>, 0, 0, 0, 0) MC_REG("C21", "bool", var<bool>, 0, 0, 0, 0)
MC_REG("C21", "int-void", (var<int, void>), 0, 0, 0, 0) MC_REG("C21", "val-ref", (var<Val, std::string&>), 0, 0, 0, 0) MC_REG("C21", "string-void-val", (var<std::string, void, Val>), 1, 0, 0, 0) MC_REG("C21", "bool-int-string-all", (var<bool, int, std::string>), 0, 0, 0, MCF_THOROUGH)
MC_REG("C21", "order-2", (var<Val, int>), 2, 0, 0, 0) MC_REG("C21", "order-3", (var<Val, int, std::string>), 2, 0, 0, 0) MC_REG("C21", "order-range-2", range<Val>, 22, 0, 0, 0) MC_REG("C21", "order-range-3", range<std::string>, 23, 0, 0, 0)
MC_REG("C21", "range-1", range<Val>, 1, 0, 0, 0) MC_REG("C21", "range-void-2", range<void>, 2, 0, 0, 0) MC_REG("C21", "range-int-2", range<int>, 2, 0, 0, 0) MC_REG("C21", "range-ref-2", range<std::string&>, 2, 0, 0, 0) MC_REG("C21", "range-string-3", range<std::string>, 13, 0, 0, 0) MC_REG("C21", "range-val-3-all", range<Val>, 3, 0, 0, MCF_THOROUGH)
// children that end on another thread
struct TP { int n; int kind[3]; int form; };
static const TP TPS[] = {
	{ 1, { VIA }, F_SCH }, { 1, { VIA }, F_LATER }, { 2, { VIA, VIA }, F_SCH }, { 2, { VIA, NOW }, F_SCH }, { 2, { VIA, YIELD1 }, F_LATER }, { 2, { YIELD2, VIA }, F_CUR }, { 2, { VIAYIELD, YIELD2 }, F_SCH }, { 2, { VIATHROW, YIELD2 }, F_SCH },	// 0..7
	{ 2, { VIA, VIABACK }, F_SCH }, { 2, { VIATHROW, YTHROW }, F_LATER }, { 3, { VIA, VIAYIELD, YIELD2 }, F_SCH }, { 3, { VIA, YIELD1, VIA }, F_LATER2 } };	// 8..11
template<class F> static void crossing(int n, F start) { Out o; O = &o; first_fin = -1; order_known = false; two_threads(start, 1 + n); REQUIRE(mc_cell_get(RES) == 1, "the caller was never resumed"); Probe::check("values"); O = nullptr; }
static void cross(int i) { const TP& t = TPS[i]; crossing(t.n, [&] { if (t.n == 1) go caller<Val>(t.kind, t.form); else if (t.n == 2) go caller<Val, int>(t.kind, t.form); else go caller<Val, int, void>(t.kind, t.form); }); for (int k = 0; k < t.n; ++k) REQUIRE(mc_cell_get(FIN + k) == 1, "child %d never finished", k); }
static void cross_range(int i) { const TP& t = TPS[i]; crossing(t.n, [&] { go caller_range<Val>(t.kind, t.n, t.form); }); for (int k = 0; k < t.n; ++k) REQUIRE(mc_cell_get(FIN + k) == 1, "child %d never finished", k); }
#define CR(k, pq, pt, fl) MC_REG("C21", "cross-" #k, cross, k, pq, pt, fl)
CR(0, 3, 5, 0) CR(1, 3, 5, 0) CR(2, 3, 4, 0) CR(3, 3, 4, 0) CR(4, 2, 4, 0) CR(5, 2, 4, 0) CR(6, 2, 4, 0) CR(7, 2, 4, 0) CR(8, 3, 4, 0) CR(9, 2, 4, 0) CR(10, 2, 3, 0) CR(11, 2, 3, 0)
MC_REG("C21", "cross-range-2", cross_range, 2, 2, 4, 0) MC_REG("C21", "cross-range-4", cross_range, 4, 2, 4, 0) MC_REG("C21", "cross-range-10", cross_range, 10, 2, 3, 0)
// nobody awaits the result
static void dropped(int later)
{
	{
		Stage st; local_scheduler_t ls; int kind[4]; for (int i = 0; i < 2; ++i) kind[i] = mc_choose(KINDS); int range_ = mc_choose(2);
		go [&]() -> future_t<> { Probe l(1); scheduler_t* sch = librf_current_scheduler(); if (range_) { std::vector<future_t<Val>> v; for (int i = 0; i < 2; ++i) v.push_back(child<Val>(i, kind[i])); auto f = when_any(*sch, v); if (later) co_await yield(); (void)f; } else { auto f = when_any(*sch, child<Val>(0, kind[0]), child<void>(1, kind[1])); if (later) co_await yield(); (void)f; } };
		play(kind, 2); for (int i = 0; i < 2; ++i) REQUIRE(mc_cell_get(FIN + i) == 1, "child %d never finished", i); drain();
	}
	Probe::check("values");
}
MC_REG("C21", "dropped", dropped, 0, 0, 0, 0) MC_REG("C21", "dropped-later", dropped, 1, 0, 0, 0)
// the library's own awaiters as children; the others go on and take what comes later
static void mix(int)
{
	{
		local_scheduler_t ls; event_t e { false }; channel_t<int> c { 1 }; int ord[3] = { 0, 1, 2 }, got = -1; for (int i = 0; i < 3; ++i) { int k = i + (i < 2 ? mc_choose(3 - i) : 0); std::swap(ord[i], ord[k]); }
		go [&]() -> future_t<> { Probe l(1); auto r = co_await when_any(e.wait(), c.read(), sleep_for(1ms)); REQUIRE(got == -1, "the caller was resumed twice"); got = (int)r.first; if (got == 0) REQUIRE(std::any_cast<bool>(r.second), "wait returned false"); if (got == 1) REQUIRE(std::any_cast<int>(r.second) == 7, "another value arrived"); mc_cell_add(RES, 1); };
		batches(16); REQUIRE(got == -1, "the caller was resumed before any child had finished");
		for (int i : ord) { if (i == 0) e.signal(); else if (i == 1) go [&]() -> future_t<> { co_await c.write(7); }; else mc_advance(MS); batches(16); REQUIRE(got == ord[0], "the first was %d, but the caller got %d", ord[0], got); }
		drain();
	}
	Probe::check("locals");
}
MC_REG("C21", "mix", mix, 0, 0, 0, 0)
// select between two channels: the one that loses still takes its value, nothing is lost
static void select(int)
{
	{
		local_scheduler_t ls; channel_t<int> c[2] = { channel_t<int> { 1 }, channel_t<int> { 1 } }; int got = -1, val = -1, first = mc_choose(2), t = mc_choose(3); bool pre = mc_choose(2);
		auto w = [&](int k) { go [&, k]() -> future_t<> { co_await c[k].write(10 + k); }; };
		if (pre) { w(first); batches(8); }
		go [&]() -> future_t<> { auto r = co_await when_any(sleep_for(std::chrono::milliseconds(t + 1)), [&]() -> future_t<int> { int v = co_await c[0]; co_return v; }, [&]() -> future_t<int> { int v = co_await c[1]; co_return v; }); got = (int)r.first; if (got) val = std::any_cast<int>(r.second); mc_cell_add(RES, 1); };
		for (int i = 0; i < 2; ++i) { batches(16); mc_advance(MS); }
		if (!pre) w(first); batches(16); w(!first); batches(16); for (int i = 0; i < 3; ++i) { batches(16); mc_advance(MS); }
		REQUIRE(mc_cell_get(RES) == 1, "the caller was resumed %d times", (int)mc_cell_get(RES)); if (pre || t == 2) REQUIRE(got == 1 + first && val == 10 + first, "the caller got %d with %d", got, val); else if (t == 0) REQUIRE(got == 0, "the caller got %d although it was timed out", got);
		drain();
	}
}
MC_REG("C21", "select", select, 0, 0, 0, 0)
// hundreds of them: the first by time wins, the others go on
static future_t<Val> nth(int i, int ms, bool bad, std::vector<int>* fin) { Probe l(1); co_await sleep_for(std::chrono::milliseconds(ms)); REQUIRE(++(*fin)[i] == 1, "child %d finished twice", i); if (bad) throw Bad(i); co_return Val(i); }
static void many(int n)
{
	{
		local_scheduler_t ls; std::vector<int> fin(n, 0); int win = (int[]) { 0, 1, n / 2, n - 1 }[mc_choose(4)], later = mc_choose(2), got = -1; bool bad = mc_choose(2);
		auto top = [&]() -> future_t<> {
			Probe l(1); std::vector<future_t<Val>> v; for (int i = 0; i < n; ++i) v.push_back(nth(i, i == win ? 2 : 4 + i % 5, bad ? i == win : i % 3 == 1 && i != win, &fin)); scheduler_t* sch = librf_current_scheduler();
			auto f = when_any(*sch, v); v.clear(); if (later) co_await sleep_for(6ms);
			try { auto r = co_await f; REQUIRE(!bad && r.first == win, "awaitable %d finished first, but the caller got %d", win, (int)r.first); auto* x = std::any_cast<Val>(&r.second); REQUIRE(x && x->v == win && x->magic == Probe::MAGIC, "another value arrived"); got = win; }
			catch (Bad& e) { REQUIRE(bad && e.v == win && e.p.magic == Probe::MAGIC, "another exception arrived"); got = win; } };
		go top(); for (int i = 0; i < 12; ++i) { batches(12); mc_advance(MS); if (i == 1 && !later) { batches(12); REQUIRE(got == win, "the caller was not resumed by the first"); } } batches(12);
		REQUIRE(got == win, "the caller was never resumed"); for (int i = 0; i < n; ++i) REQUIRE(fin[i] == 1, "child %d never finished", i); drain();
	}
	Probe::check("values");
}
MC_REG("C21", "many-40", many, 40, 0, 0, MCF_LONG) MC_REG("C21", "many-300", many, 300, 0, 0, MCF_LONG)
MC_REG("C21", "again-20000", endure::any_of, 20000, 0, 0, MCF_LONG)
MC_REG("C21", "wide-70000", endure::wide_any, 70000, 0, 0, MCF_LONG)
