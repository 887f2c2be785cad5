#include "prog.h"
#include <algorithm>
#include "endure.h"
// contenders lock lists of mutexes: a text such as "01|10" gives the lists; capitals: how
struct Ctx { mutex_t m[4]; std::atomic<int> done { 0 }; };
static Ctx* X;
static void enter(const char* list, int id) { for (const char* s = list; *s; ++s) acquired(*s - '0', id); }
static void leave(const char* list) { for (const char* s = list; *s; ++s) releasing(*s - '0'); }
static void all_free(const char* list) { for (const char* s = list; *s; ++s) if (mc_cell_get(CELL_OWN + *s - '0') == 0) { } }
template<class F> static void with(const char* l, F f)
{
	mutex_t* q[3] = {}; int n = 0; for (const char* s = l; *s; ++s) q[n++] = &X->m[*s - '0'];
	if (n == 2) f(*q[0], *q[1]); else f(*q[0], *q[1], *q[2]);
}
// how: g guard, h guard unlocked by hand, m manual with co_await unlock, a manual with unlock(address), v guard moved
static future_t<> body2(int id, const char* l, char how, int pause)
{
	mutex_t& a = X->m[l[0] - '0']; mutex_t& b = X->m[l[1] - '0'];
	if (how == 'm' || how == 'a')
	{
		co_await mutex_t::lock(adopt_manual_unlock, a, b); enter(l, id);
		if (pause) co_await yield();
		leave(l);
		if (how == 'm') co_await mutex_t::unlock(a, b); else mutex_t::unlock(librf_root_state(), a, b);
	}
	else
	{
		auto g = co_await mutex_t::lock(a, b); enter(l, id);
		if (pause) co_await yield();
		if (how == 'v') { auto g2 = std::move(g); REQUIRE(a.is_locked() && b.is_locked(), "moving the guard released a mutex"); leave(l); }
		else { leave(l); if (how == 'h') g.unlock(); }
	}
	X->done.fetch_add(1);
}
static future_t<> body3(int id, const char* l, char how, int pause)
{
	mutex_t& a = X->m[l[0] - '0']; mutex_t& b = X->m[l[1] - '0']; mutex_t& c = X->m[l[2] - '0'];
	if (how == 'm' || how == 'a')
	{
		co_await mutex_t::lock(adopt_manual_unlock, a, b, c); enter(l, id);
		if (pause) co_await yield();
		leave(l);
		if (how == 'm') co_await mutex_t::unlock(a, b, c); else mutex_t::unlock(librf_root_state(), a, b, c);
	}
	else { auto g = co_await mutex_t::lock(a, b, c); enter(l, id); if (pause) co_await yield(); leave(l); if (how == 'h') g.unlock(); }
	X->done.fetch_add(1);
}
static future_t<> body1(int id, const char* l, char, int pause)
{
	mutex_t& a = X->m[l[0] - '0'];
	co_await a.lock(adopt_manual_unlock); enter(l, id); if (pause) co_await yield(); leave(l); co_await a.unlock();
	X->done.fetch_add(1);
}
static future_t<> bodyn(int id, const char* l, char how, int pause) { if (strlen(l) == 3) co_await body3(id, l, how, pause); else if (strlen(l) == 2) co_await body2(id, l, how, pause); else co_await body1(id, l, how, pause); }
static void plain_body(int id, const char* l, char how)
{
	void* me = key(id);
	if (strlen(l) == 1) { X->m[l[0] - '0'].lock(me); enter(l, id); leave(l); X->m[l[0] - '0'].unlock(me); X->done.fetch_add(1); return; }
	with(l, [&](auto&... m) {
		if (how == 'G' || how == 'H') { auto g = mutex_t::lock(me, m...); enter(l, id); leave(l); if (how == 'H') g.unlock(); }
		else { mutex_t::lock(adopt_manual_unlock, me, m...); enter(l, id); leave(l); mutex_t::unlock(me, m...); }
	});
	X->done.fetch_add(1);
}
// "g01 m10,h12|G21": contenders separated by ',' on one scheduler, threads by '|'; capital: plain
struct Sc { const char* text; int pause; };
static Sc scs[64]; static int nscs;
static void run(int k)
{
	Ctx c; X = &c; Sc s = scs[k]; int want = 0, id = 1;
	std::vector<std::vector<std::string>> th(1); std::string cur;
	for (const char* p = s.text;; ++p) { if (*p == ',' || *p == '|' || !*p) { th.back().push_back(cur); cur.clear(); want++; if (*p == '|') th.emplace_back(); if (!*p) break; } else cur += *p; }
	std::vector<int> t;
	for (auto& v : th)
	{
		int id0 = id; id += (int)v.size(); auto* pv = &v;
		if (v[0][0] < 'a') t.push_back(thr([pv, id0] { int i = id0; for (auto& x : *pv) plain_body(i++, x.c_str() + 1, x[0]); }));
		else t.push_back(sched_thr([pv, id0, s] { int i = id0; for (auto& x : *pv) go bodyn(i++, x.c_str() + 1, x[0], s.pause); }));
	}
	for (int i : t) mc_join(i);
	REQUIRE(c.done.load() == want, "%d of %d contenders got through", c.done.load(), want);
	for (int i = 0; i < 4; ++i) REQUIRE(rests_free(c.m[i]), "mutex %d is still locked", i);
	X = nullptr;
}
static int reg(const char* name, const char* text, int pause, int pq, int pt, int flags) { scs[nscs] = Sc{ text, pause }; mc_register("C11", name, run, nscs++, pq, pt, flags); return 0; }
#define SC(name, text, pause, pq, pt, flags) static int MC_CAT(sc_, __COUNTER__) = reg(name, text, pause, pq, pt, flags);
SC("co-same-order", "g01|h01", 0, 2, 3, 0)
SC("co-crossed", "g01|m10", 0, 2, 3, 0)
SC("co-crossed-holding", "h01|a10", 1, 1, 2, 0)
SC("co-crossed-one-thread", "v01,m10", 1, 0, 0, 0)
SC("co-crossed-one-thread-3", "g01,m10,h01", 1, 0, 0, 0)
SC("co-3-locks-one-thread", "g012,m210,h102", 1, 0, 0, 0)
SC("co-chain-one-thread", "g01,m12,h20", 1, 0, 0, 0)
SC("co-3-locks", "h012|m210", 0, 1, 2, 0)
SC("co-3-vs-2", "g012|h21", 0, 1, 2, 0)
SC("plain-same-order", "G01|M01", 0, 3, 4, 0)
SC("plain-crossed", "G01|H10", 0, 3, 4, 0)
SC("plain-crossed-manual", "M01|M10", 0, 3, 4, 0)
SC("plain-3-locks", "G012|M210", 0, 2, 3, 0)
SC("plain-3-vs-1", "G012|M1|M2", 0, 1, 2, 0)
SC("plain-3-vs-2", "H012|M21|M0", 0, 1, 2, 0)
SC("plain-chain", "G01|G12|G20", 0, 1, 2, 0)
SC("mixed-crossed", "g01|M10", 0, 2, 3, 0)
SC("mixed-3", "m012|G20", 0, 1, 2, 0)
SC("mixed-single", "g01|M0|M1", 0, 1, 2, 0)
SC("co-single", "g01|m0,m1", 1, 1, 2, 0)
SC("co-3-single", "g012|m1,m2,m0", 1, 1, 2, 0)
SC("three-threads", "g01|m12|h20", 0, 1, 1, MCF_THOROUGH)
// a guard moved over another releases what it held; moving keeps what is held
static future_t<> guards(int len, bool* fin)
{
	using G = batch_unlock_t<mutex_t, mutex_t>; mutex_t m[4]; std::optional<G> g[2]; int h[2] = { -1, -1 }, lv[2] = { 0, 0 };
	auto drop = [&](int i) { if (h[i] >= 0) lv[h[i]]--; h[i] = -1; };
	for (int s = 0; s < len; ++s)
	{
		int i = mc_choose(2);
		switch (mc_choose(5))
		{
		case 0: { int k = mc_choose(2); drop(i); g[i].reset(); g[i].emplace(co_await mutex_t::lock(m[2 * k], m[2 * k + 1])); h[i] = k; lv[k]++; break; }
		case 1: if (g[i]) g[i]->unlock(); drop(i); break;
		case 2: g[i].reset(); drop(i); break;
		case 3: { if (!g[i]) break; int k = mc_choose(2); *g[i] = co_await mutex_t::lock(m[2 * k], m[2 * k + 1]); drop(i); h[i] = k; lv[k]++; break; }
		case 4: if (g[i] && g[1 - i]) { *g[i] = std::move(*g[1 - i]); drop(i); h[i] = h[1 - i]; h[1 - i] = -1; } break;
		}
		for (int k = 0; k < 4; ++k) REQUIRE(m[k].is_locked() == (lv[k / 2] > 0), "mutex %d is %s", k, lv[k / 2] > 0 ? "free although a guard holds it" : "locked although no guard holds it");
	}
	for (int i = 0; i < 2; ++i) { drop(i); g[i].reset(); }
	for (int k = 0; k < 4; ++k) REQUIRE(rests_free(m[k]), "mutex %d is locked although no guard holds it", k);
	*fin = true;
}
static void guards_seq(int len) { local_scheduler_t ls; bool fin = false; go guards(len, &fin); drain(); REQUIRE(fin, "a coroutine waits for ever"); }
MC_REG("C11", "guards-3", guards_seq, 3, 0, 0, 0) MC_REG("C11", "guards-4", guards_seq, 4, 0, 0, 0)
// the list is taken as a whole: while one of it is held by somebody else nothing of it stays locked at rest
static future_t<> want_all(const char* l, bool* got) { if (strlen(l) == 2) { auto g = co_await mutex_t::lock(X->m[l[0] - '0'], X->m[l[1] - '0']); *got = true; } else { auto g = co_await mutex_t::lock(X->m[l[0] - '0'], X->m[l[1] - '0'], X->m[l[2] - '0']); *got = true; } }
static void held_by_other(int)
{
	static const char* lists[] = { "01", "10", "012", "120", "201", "210" };
	Ctx c; X = &c; local_scheduler_t ls; int addr; const char* l = lists[mc_choose(6)]; int n = (int)strlen(l); int mask = mc_choose(1 << n); bool got = false;
	for (int i = 0; i < n; ++i) if (mask >> i & 1) c.m[l[i] - '0'].lock(&addr);
	go want_all(l, &got); batches(24);
	REQUIRE(got == (mask == 0), got ? "a list was locked although another owner holds part of it" : "a free list was not locked");
	for (int i = 0; i < n; ++i) if (mask >> i & 1) { REQUIRE(!got, "locked too early"); c.m[l[i] - '0'].unlock(&addr); batches(24); mask &= ~(1 << i); }
	drain(); REQUIRE(got, "the list was never locked");
	for (int i = 0; i < 3; ++i) REQUIRE(rests_free(c.m[i]), "mutex %d is still locked", i);
	X = nullptr;
}
MC_REG("C11", "held-by-other", held_by_other, 0, 0, 0, 0)
// another owner takes and releases single mutexes of the list in any order while the list is being locked
template<class L> static future_t<> taker(mutex_t* m, int n, int form, bool* got, bool* let, L own)
{
	auto use = [&](auto&... x) -> future_t<>
	{
		if (form == 0) { auto g = co_await mutex_t::lock(x...); own(); *got = true; while (!*let) co_await yield(); }
		else { co_await mutex_t::lock(adopt_manual_unlock, x...); own(); *got = true; while (!*let) co_await yield(); if (form == 1) co_await mutex_t::unlock(x...); else mutex_t::unlock(librf_root_state(), x...); }
	};
	if (n == 2) co_await use(m[0], m[1]); else if (n == 3) co_await use(m[0], m[1], m[2]); else if (n == 4) co_await use(m[0], m[1], m[2], m[3]); else co_await use(m[0], m[1], m[2], m[3], m[4]);
}
static void toggled(int arg)
{
	int n = arg / 10, len = arg % 10; mutex_t m[5]; bool held[5] = {}, got = false, let = false; char other, third;
	{
		local_scheduler_t ls; int form = mc_choose(3), first = mc_choose(1 << n);
		for (int i = 0; i < n; ++i) if (first >> i & 1) { m[i].lock(&other); held[i] = true; }
		auto own = [&] { for (int i = 0; i < n; ++i) REQUIRE(!held[i], "the list was locked although another owner holds mutex %d", i); };
		auto owned = [&] { for (int i = 0; i < n; ++i) REQUIRE(m[i].is_locked() && !m[i].try_lock(&third), "mutex %d is not owned", i); };
		auto f = [&]() -> future_t<> { co_await taker(m, n, form, &got, &let, own); }; go f();
		for (int s = 0; s < len && !got; ++s)
		{
			batches(1 + 5 * mc_choose(2)); if (got) break;
			int i = mc_choose(n);
			if (held[i]) { m[i].unlock(&other); held[i] = false; } else if (m[i].try_lock(&other)) held[i] = true;
		}
		if (!got) for (int i = 0; i < n; ++i) if (held[i]) { held[i] = false; m[i].unlock(&other); batches(8); REQUIRE(!got || i == n - 1 || std::count(held, held + n, true) == 0, "locked too early"); }
		for (int i = 0; i < 60 && !got; ++i) batches(1);
		REQUIRE(got, "the list was not locked although all of it is free"); owned(); batches(2); owned(); let = true; batches(4);
		for (int i = 0; i < n; ++i) REQUIRE(!m[i].is_locked() && m[i].try_lock(&third), "mutex %d is still locked", i);
		for (int i = 0; i < n; ++i) m[i].unlock(&third);
		drain();
	}
}
MC_REG("C11", "toggled-2", toggled, 24, 0, 0, 0) MC_REG("C11", "toggled-3", toggled, 34, 0, 0, 0) MC_REG("C11", "toggled-4", toggled, 43, 0, 0, 0) MC_REG("C11", "toggled-5", toggled, 52, 0, 0, 0) MC_REG("C11", "toggled-4-long", toggled, 44, 0, 0, MCF_THOROUGH) MC_REG("C11", "toggled-5-long", toggled, 53, 0, 0, MCF_THOROUGH)
// one of the mutexes held for long
static void held_long(int kind)
{
	mutex_t m[3]; char a, b; int at = mc_choose(3);
	long_wait([&] { m[at].lock(&a); }, [&] {
		if (kind == 0) { auto g = mutex_t::lock(&b, m[0], m[1], m[2]); for (auto& x : m) REQUIRE(!x.try_lock(&a), "not every mutex is owned"); }
		else { local_scheduler_t ls; int n = 0; auto f = [&]() -> future_t<> { { auto g = co_await mutex_t::lock(m[0], m[1], m[2]); for (auto& x : m) REQUIRE(!x.try_lock(&a), "not every mutex is owned"); } n++; }; go f(); drain(); REQUIRE(n == 1, "the coroutine did not end"); }
	}, [&] { m[at].unlock(&a); });
	for (auto& x : m) REQUIRE(rests_free(x), "a mutex is not free at the end");
}
MC_REG("C11", "held-long-plain", held_long, 0, 0, 0, MCF_LONG) MC_REG("C11", "held-long-co", held_long, 1, 0, 0, MCF_LONG)
MC_REG("C11", "again-10000", endure::many_locks, 10000, 0, 0, MCF_LONG)
