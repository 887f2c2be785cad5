#include "hx.h"
#include "endure.h"
#include <cstring>
#include <string>
// FLY: the exception on its way (0: none); LIVE: coroutine frames whose locals are alive; NEXT: numbers for exceptions; CAUGHT
enum { FLY = 20, LIVE = 21, NEXT = 22, CAUGHT = 23, THROWN = 24, FIN = 25 };
struct Exc { Probe p; int64_t id; int depth; Exc(int64_t i, int d) : p((int)i), id(i), depth(d) {} };
struct Exc2 : std::runtime_error { int64_t id; Exc2(int64_t i) : std::runtime_error("E" + std::to_string(i)), id(i) {} };
struct Local { Probe p; Local() : p(1) { mc_cell_add(LIVE, 1); } ~Local() { mc_cell_add(LIVE, -1); } Local(const Local&) = delete; };
static int64_t fly() { int64_t id = mc_cell_add(NEXT, 1); REQUIRE(mc_cell_get(FLY) == 0, "harness: two exceptions"); mc_cell_set(FLY, id); mc_cell_add(THROWN, 1); return id; }
[[noreturn]] static void do_throw(int depth) { int64_t id = fly(); if (id & 1) throw Exc(id, depth); throw Exc2(id); }
static std::exception_ptr make_eptr(int depth) { int64_t id = fly(); if (id & 1) return std::make_exception_ptr(Exc(id, depth)); return std::make_exception_ptr(Exc2(id)); }
static void landed(int64_t id, int64_t live)
{
	REQUIRE(mc_cell_get(FLY) == id, "exception %d arrived, %d was on its way", (int)id, (int)mc_cell_get(FLY));
	mc_cell_set(FLY, 0); mc_cell_add(CAUGHT, 1);
	REQUIRE(mc_cell_get(LIVE) == live, "the exception arrived while %d frames were alive instead of %d", (int)mc_cell_get(LIVE), (int)live);
}
static int g_ref[8];
template<class T> struct V { static T make(int v) { if constexpr (std::is_same_v<T, int&>) return g_ref[v]; else return T(v); } };
template<> struct V<void> { static void make(int) {} };
template<class T> static future_t<> setter(awaitable_t<T> aw, int depth, int yields) { for (int i = 0; i < yields; ++i) co_await yield(); aw.set_exception(make_eptr(depth)); }
template<int D> struct Ty { using type = int; };
template<> struct Ty<1> { using type = void; }; template<> struct Ty<2> { using type = int&; }; template<> struct Ty<3> { using type = MoveOnly; };
static int g_kinds = 4, g_rounds = 1;
// a coroutine of depth D: awaits things that may fail, catches or lets pass, throws itself or returns D
template<int D> static future_t<typename Ty<D>::type> level()
{
	using T = typename Ty<D>::type; Local local; int64_t live = mc_cell_get(LIVE);
	if (mc_choose(2)) co_await yield();
	for (int round = 0; round < g_rounds; ++round)
	{
		int kind = mc_choose(D > 0 ? g_kinds : g_kinds - 1), pass = 0;
		if (kind == g_kinds - 1 && D > 0) kind = 9;
		int64_t caught = 0;
		if (kind != 0) pass = mc_choose(2);
		auto body = [&]() -> future_t<> { co_return; }; (void)body;
		try
		{
			if (kind == 1) { awaitable_t<void> aw; auto f = aw.get_future(); aw.set_exception(make_eptr(D)); co_await f; mc_fail("the await returned although the awaitable had failed"); }
			else if (kind == 2) { awaitable_t<T> aw; go setter<T>(aw, D, mc_choose(2)); (void)co_await aw.get_future(); mc_fail("the await returned although the awaitable had failed"); }
			else if (kind == 3) { awaitable_t<int&> aw; auto f = aw.get_future(); aw.set_exception(make_eptr(D)); (void)co_await f; mc_fail("the await returned although the awaitable had failed"); }
			else if (kind == 9)
			{
				if constexpr (D > 0)
				{
					using C = typename Ty<D - 1>::type;
					if constexpr (std::is_void_v<C>) co_await level<D - 1>();
					else { decltype(auto) r = co_await level<D - 1>(); int v; if constexpr (std::is_same_v<C, MoveOnly>) v = r.v; else v = r; REQUIRE(v == D - 1, "the child returned %d instead of %d", v, D - 1); }
					REQUIRE(mc_cell_get(FLY) == 0, "the child returned although exception %d left it", (int)mc_cell_get(FLY));
					REQUIRE(mc_cell_get(LIVE) == live, "the locals of the child are still alive");
				}
			}
		}
		catch (Exc& e) { REQUIRE(e.p.magic == Probe::MAGIC && e.p.v == (int)e.id && e.depth <= D, "the exception object is damaged"); if (pass) { REQUIRE(mc_cell_get(FLY) == e.id, "a wrong exception"); throw; } caught = e.id; landed(e.id, live); }
		catch (Exc2& e) { REQUIRE(e.what() == "E" + std::to_string(e.id), "the exception object is damaged"); if (pass) throw; caught = e.id; landed(e.id, live); }
		// whoever caught one goes on
		if (caught) co_await yield();
	}
	if (mc_choose(2)) do_throw(D);
	if constexpr (std::is_same_v<T, int&>) { g_ref[D] = D; co_return g_ref[D]; } else if constexpr (std::is_void_v<T>) co_return; else co_return V<T>::make(D);
}
template<int D> static future_t<> top()
{
	Local local; bool failed = false; int v = -1;
	try
	{
		using T = typename Ty<D>::type;
		if constexpr (std::is_void_v<T>) { co_await level<D>(); v = D; } else { decltype(auto) r = co_await level<D>(); if constexpr (std::is_same_v<T, MoveOnly>) v = r.v; else v = r; }
		REQUIRE(mc_cell_get(FLY) == 0, "the child returned although exception %d left it", (int)mc_cell_get(FLY));
	}
	catch (Exc& e) { landed(e.id, 1); failed = true; }
	catch (Exc2& e) { landed(e.id, 1); failed = true; }
	REQUIRE(failed || v == D, "the child returned %d instead of %d", v, D);
	co_await yield();
	mc_cell_add(FIN, 1);
}
static future_t<> bystander(int* n) { for (int i = 0; i < 3; ++i) { try { co_await yield(); ++*n; } catch (...) { mc_fail("a coroutine saw the exception of another one"); } } }
template<int D> static void nest(int rk)
{
	g_kinds = rk % 10; g_rounds = rk / 10;
	{ local_scheduler_t ls; int n = 0; go top<D>(); go bystander(&n); drain(); REQUIRE(n == 3, "a bystander stopped"); }
	REQUIRE(mc_cell_get(FIN) == 1, "the awaiting coroutine did not go on");
	REQUIRE(mc_cell_get(CAUGHT) == mc_cell_get(THROWN), "%d thrown, %d caught", (int)mc_cell_get(THROWN), (int)mc_cell_get(CAUGHT));
	REQUIRE(mc_cell_get(LIVE) == 0, "locals are still alive"); Probe::check("locals and exceptions");
}
MC_REG("C14", "depth-0", nest<0>, 15, 0, 0, 0) MC_REG("C14", "depth-1", nest<1>, 15, 0, 0, 0) MC_REG("C14", "depth-2", nest<2>, 15, 0, 0, 0) MC_REG("C14", "depth-3", nest<3>, 15, 0, 0, 0)
MC_REG("C14", "depth-1-two-rounds", nest<1>, 24, 0, 0, 0) MC_REG("C14", "depth-2-two-rounds", nest<2>, 22, 0, 0, MCF_THOROUGH) MC_REG("C14", "depth-1-two-rounds-more", nest<1>, 25, 0, 0, MCF_THOROUGH) MC_REG("C14", "depth-2-two-rounds-more", nest<2>, 23, 0, 0, MCF_THOROUGH) MC_REG("C14", "depth-2-three-rounds", nest<2>, 33, 0, 0, MCF_THOROUGH) MC_REG("C14", "depth-4", nest<4>, 15, 0, 0, MCF_THOROUGH)
// an exception that leaves a launched coroutine is nobody's: the others go on, nothing is kept
template<class T> static future_t<T> lonely(int yields) { Local l; for (int i = 0; i < yields; ++i) co_await yield(); mc_cell_add(THROWN, 1); throw Exc(1, 0); if constexpr (!std::is_void_v<T>) co_return V<T>::make(0); }
static void root_throws(int)
{
	{
		local_scheduler_t ls; int n = 0, y = mc_choose(3); int w = mc_choose(2); if (w) go bystander(&n);
		switch (mc_choose(3)) { case 0: go lonely<void>(y); break; case 1: go lonely<int>(y); break; case 2: go lonely<MoveOnly>(y); break; }
		if (!w) go bystander(&n);
		drain(); REQUIRE(n == 3, "a bystander stopped");
	}
	REQUIRE(mc_cell_get(THROWN) == 1, "the coroutine threw %d times", (int)mc_cell_get(THROWN)); REQUIRE(mc_cell_get(LIVE) == 0, "locals are still alive"); Probe::check("locals and exceptions");
}
MC_REG("C14", "root-throws", root_throws, 0, 0, 0, 0)
// a future that failed but is never awaited
template<class T> static future_t<> drops(int how)
{
	Local l;
	{
		if (how == 0) { awaitable_t<T> aw; auto f = aw.get_future(); aw.set_exception(std::make_exception_ptr(Exc(1, 0))); }
		else if (how == 1) { awaitable_t<T> aw; aw.throw_exception(Exc(1, 0)); }
		else { awaitable_t<T> aw; auto f = aw.get_future(); auto g = f; aw.set_exception(std::make_exception_ptr(Exc(1, 0))); try { (void)co_await g; mc_fail("lost"); } catch (Exc&) { mc_cell_add(CAUGHT, 1); } co_await yield(); }
	}
	co_await yield(); mc_cell_add(FIN, 1);
}
static void dropped(int)
{
	{ local_scheduler_t ls; int how = mc_choose(3); switch (mc_choose(4)) { case 0: go drops<void>(how); break; case 1: go drops<int>(how); break; case 2: go drops<int&>(how); break; case 3: go drops<MoveOnly>(how); break; } drain(); }
	REQUIRE(mc_cell_get(FIN) == 1, "the coroutine did not go on"); Probe::check("exceptions");
}
MC_REG("C14", "dropped", dropped, 0, 0, 0, 0)
// failure from another thread, through two levels of coroutines
template<class T> static future_t<T> pass_on(future_t<T> f, bool rethrow) { Local l; if (!rethrow) { if constexpr (std::is_void_v<T>) { co_await f; co_return; } else { decltype(auto) r = co_await f; co_return r; } } try { (void)co_await f; } catch (Exc&) { throw; } mc_fail("the await returned although the awaitable had failed"); }
template<class T> static future_t<> at_top(future_t<T> f, bool re)
{
	Local l; try { (void)co_await pass_on<T>(std::move(f), re); mc_fail("the await returned although the awaitable had failed"); } catch (Exc& e) { landed(e.id, 1); }
	co_await yield(); mc_cell_add(FIN, 1);
}
template<class T> static void threads(int)
{
	{
		bool re = mc_choose(2); awaitable_t<T> aw; auto f = aw.get_future(); int64_t id = fly();
		int a = sched_thr([&, re] { go at_top<T>(std::move(f), re); }); int b = thr([&, id] { aw.set_exception(std::make_exception_ptr(Exc(id, 0))); });
		join_all(a, b);
	}
	REQUIRE(mc_cell_get(FIN) == 1, "the awaiting coroutine did not go on"); Probe::check("exceptions");
}
MC_REG("C14", "threads-void", threads<void>, 0, 4, 6, 0) MC_REG("C14", "threads-int", threads<int>, 0, 4, 6, 0) MC_REG("C14", "threads-ref", threads<int&>, 0, 4, 6, 0)
// a local's destructor throws: after the result was given, while the body goes on, after a suspension; a value whose copy throws
struct Bomb { bool armed; ~Bomb() noexcept(false) { if (armed) throw Exc2(77); } };
struct Brittle : Probe { static int fuse; Brittle(int v) : Probe(v) {} Brittle(const Brittle& o) : Probe(o) { if (fuse && --fuse == 0) { throw Exc2(78); } } Brittle(Brittle&& o) : Probe(std::move(o)) { if (fuse && --fuse == 0) { throw Exc2(78); } } Brittle& operator=(const Brittle&) = default; };
int Brittle::fuse = 0;
template<class T> static future_t<T> bomb(int where, int suspend)
{
	Local local; if (suspend & 1) co_await yield();
	if (where == 1) { Bomb b { true }; if (suspend & 2) co_await yield(); }
	Bomb b { where == 2 }; Bomb c { false }; if (suspend & 2) co_await yield();
	if constexpr (std::is_void_v<T>) co_return; else if constexpr (std::is_same_v<T, int&>) co_return g_ref[3]; else if constexpr (std::is_same_v<T, MoveOnly>) co_return MoveOnly(3); else { T x(3); co_return x; }
}
template<class T> static future_t<> bomb_top(int where, int suspend, bool later, int* fin)
{
	bool caught = false; Local local;
	try
	{
		auto f = bomb<T>(where, suspend); if (later) co_await yield();
		if constexpr (std::is_void_v<T>) co_await f; else { decltype(auto) r = co_await f; (void)r; }
	}
	catch (Exc2& e) { caught = true; REQUIRE(e.id == 77 && !strcmp(e.what(), "E77"), "another exception arrived"); }
	REQUIRE(caught == (where != 0), where ? "the coroutine returned although an exception left it" : "an exception arrived that nobody threw"); if (!fin) co_return; REQUIRE(mc_cell_get(LIVE) == *fin / 10, "the locals of the child are still alive");
	co_await yield(); ++*fin;
}
template<class T> static void bombs(int) { g_ref[3] = 3; { local_scheduler_t ls; int fin = 10; int where = mc_choose(3), s = mc_choose(4); bool later = mc_choose(2); go bomb_top<T>(where, s, later, &fin); drain(); go bomb_top<T>(0, s, later, &fin); drain(); REQUIRE(fin == 12, "a coroutine was never resumed"); go bomb_top<T>(where, s, later, nullptr); go bomb_top<T>(2, 3, false, nullptr); drain(); } Probe::check("values"); }
MC_REG("C14", "destructor-int", bombs<int>, 0, 0, 0, 0) MC_REG("C14", "destructor-void", bombs<void>, 0, 0, 0, 0) MC_REG("C14", "destructor-ref", bombs<int&>, 0, 0, 0, 0) MC_REG("C14", "destructor-probe", bombs<Probe>, 0, 0, 0, 0) MC_REG("C14", "destructor-move", bombs<MoveOnly>, 0, 0, 0, 0)
static future_t<Brittle> brittle(int y) { Local local; Brittle b(4); if (y) co_await yield(); co_return b; }
static void brittle_all(int)
{
	{
		local_scheduler_t ls; int fin = 0, y = mc_choose(2), fuse = mc_choose(5);
		auto top = [&]() -> future_t<> { Brittle::fuse = fuse; try { auto v = co_await brittle(y); int left = Brittle::fuse; Brittle::fuse = 0; REQUIRE(v.v == 4 && (fuse == 0 || left > 0), "a copy failed and the value arrived"); } catch (Exc2& e) { REQUIRE(e.id == 78 && fuse, "another exception arrived"); } Brittle::fuse = 0; fin++; };
		go top(); drain(); REQUIRE(fin == 1, "a coroutine was never resumed");
	}
	Probe::check("values");
}
MC_REG("C14", "throwing-copy", brittle_all, 0, 0, 0, 0)
// through 60 nested coroutines, suspended or not, with the locals of all of them
static future_t<int> deep_throw(int n, int y) { Local local; if (n == 0) { if (y) co_await yield(); do_throw(0); } int r = co_await deep_throw(n - 1, y); mc_fail("the await returned although the coroutine had failed"); co_return r; }
static void deep_all(int n)
{
	{
		local_scheduler_t ls; int fin = 0; auto top = [&](int y) -> future_t<> { Local l; try { co_await deep_throw(n, y); mc_fail("the await returned although the coroutine had failed"); } catch (Exc& e) { landed(e.id, 1); } catch (Exc2& e) { landed(e.id, 1); } fin++; };
		go top(mc_choose(2)); drain(); go top(0); drain(); REQUIRE(fin == 2, "a coroutine was never resumed");
	}
	Probe::check("locals");
}
MC_REG("C14", "deep-60", deep_all, 60, 0, 0, MCF_LONG)
MC_REG("C14", "again-66000", endure::exceptions, 66000, 0, 0, MCF_LONG)
