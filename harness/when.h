// Children and drivers for when_all / when_any.
#pragma once
#include "hx.h"
#include <string>
#include <list>
#include <any>
struct Bad { Probe p; int v; Bad(int x) : p(x), v(x) {} };
enum { FIN = 40, RES = 60 };	// cells: child finished, caller resumed
struct World2 { scheduler_t* s[2] = {}; int tid[2] = {}; std::atomic<int> up { 0 }, done { 0 }, out { 0 }; };
static World2* W2; static event_t* EV; static awaitable_t<int>* AW; static std::vector<future_t<int>>* FU; static int first_fin;
template<class T> static T mk(int v) { if constexpr (std::is_same_v<T, std::string>) return std::string(30, (char)('a' + v)); else if constexpr (std::is_same_v<T, bool>) return true; else return T(v); }
template<class T> static bool same(const T& x, int v)
{
	if constexpr (std::is_same_v<T, std::string>) return x == std::string(30, (char)('a' + v)); else if constexpr (std::is_same_v<T, bool>) return x;
	else if constexpr (std::is_same_v<T, int>) return x == v; else return x.magic == Probe::MAGIC && x.v == v;
}
struct Val : Probe { Val() : Probe(-7) {} Val(int v) : Probe(v) {} };	// default constructible
struct MoveVal : MoveOnly { MoveVal() : MoveOnly(-7) {} MoveVal(int v) : MoveOnly(v) {} MoveVal(MoveVal&&) = default; MoveVal& operator=(MoveVal&&) = default; };
enum { NOW, YIELD1, YIELD2, SLEEP1, SLEEP2, EVENT, AWAIT, THROW, YTHROW, STHROW, KINDS, VIA = 20, VIAYIELD, VIATHROW, VIABACK };
static void fin(int id) { REQUIRE(mc_cell_add(FIN + id, 1) == 1, "child %d finished twice", id); if (!W2 && first_fin < 0) first_fin = id; if (W2) W2->done.fetch_add(1); }
template<class T> static future_t<T> child(int id, int kind)
{
	Probe local(1);
	switch (kind)
	{
	case NOW: break;
	case YIELD2: co_await yield(); [[fallthrough]];
	case YIELD1: co_await yield(); break;
	case SLEEP1: co_await sleep_for(1ms); break;
	case SLEEP2: co_await sleep_for(2ms); break;
	case EVENT: { bool r = co_await EV[id].wait(); REQUIRE(r, "wait returned false"); break; }
	case AWAIT: { int r = co_await (*FU)[id]; REQUIRE(r == id, "another value arrived"); break; }
	case THROW: fin(id); throw Bad(id);
	case YTHROW: co_await yield(); fin(id); throw Bad(id);
	case STHROW: co_await sleep_for(1ms); fin(id); throw Bad(id);
	case VIA: co_await via(W2->s[1]); break;
	case VIAYIELD: co_await via(W2->s[1]); co_await yield(); break;
	case VIATHROW: co_await via(W2->s[1]); fin(id); throw Bad(id);
	case VIABACK: co_await via(W2->s[1]); co_await via(W2->s[0]); break;
	}
	fin(id);
	if constexpr (std::is_void_v<T>) co_return; else co_return mk<T>(id);
}
static bool throws(int kind) { return kind == THROW || kind == YTHROW || kind == STHROW || kind == VIATHROW; }
// lets the children come to an end: signals, sets, and the clock goes on; in every order
struct Stage { event_t ev[4] = { event_t { false }, event_t { false }, event_t { false }, event_t { false } }; awaitable_t<int> aw[4]; std::vector<future_t<int>> fu; Stage() { EV = ev; AW = aw; FU = &fu; for (auto& a : aw) fu.push_back(a.get_future()); first_fin = -1; } ~Stage() { EV = nullptr; AW = nullptr; FU = nullptr; } };
static void play(const int* kind, int n)
{
	int ext[4], ne = 0; for (int i = 0; i < n; ++i) if (kind[i] == EVENT || kind[i] == AWAIT) ext[ne++] = i;
	int early = ne ? mc_choose(2) : 0;	// before anything ran, or when everything waits
	if (!early) batches(16);
	while (ne)
	{
		int k = ne > 1 ? mc_choose(ne) : 0, i = ext[k]; ext[k] = ext[--ne];
		if (kind[i] == EVENT) EV[i].signal(); else AW[i].set_value(i);
		if (ne && mc_choose(2)) batches(16);
	}
	for (int t = 0; t < 4; ++t) { batches(16); mc_advance(MS); }
	batches(16);
}
// two threads, each with a scheduler
template<class F> static void two_threads(F start, int want, bool plain = false)
{
	World2 w; W2 = &w;
	auto body = [&](int k) {
		local_scheduler_t ls; w.s[k] = this_scheduler(); w.tid[k] = mc_self(); w.up.fetch_add(1); while (w.up.load() < 2) mc_point();
		if (k == 0) start();
		while (w.done.load() < want || !this_scheduler()->empty()) this_scheduler()->run_one_batch();
		w.out.fetch_add(1); while (w.out.load() < 2) this_scheduler()->run_one_batch();
	};
	int a = thr([&] { body(0); }), b = thr([&] { body(1); });
	join_all(a, b); W2 = nullptr; (void)plain;
}
