// User-defined awaitors in the library's coroutines; launched futures that use co_yield
#include "hx.h"
#include <vector>
#include <string>
#include <functional>
using librf::coroutine_handle;
enum { STEP = 0, LIVE = 20, READYS = 30, SUSP = 40, RESUMES = 50, RESULT = 60 };	// cells, + id
enum { K_READY, K_SUSPEND, K_NOT, K_SELF, K_TREADY, K_TSUSP, K_TRES, KINDS };	// K_NOT, K_SELF: await_suspend decides otherwise
static bool fails(int k) { return k >= K_TREADY; }
static bool waits(int k) { return k == K_SUSPEND || k == K_TRES; }
struct Bad { int id; Probe p; Bad(int i) : id(i), p(i) {} };
struct Slot { coroutine_handle<> h; int id = 0, kind = 0; std::string text; std::atomic<int> set { 0 }; };
struct Live { int id; Probe p { 9 }; Live(int i) : id(i) { mc_cell_add(LIVE + i, 1); } ~Live() { mc_cell_add(LIVE + id, -1); } };
template<class R> struct Val;
template<> struct Val<int> { static int make(Slot* s) { return 70 + s->id; } static bool good(int v, Slot* s) { return v == 70 + s->id; } };
template<> struct Val<std::string&> { static std::string& make(Slot* s) { return s->text; } static bool good(std::string& v, Slot* s) { return &v == &s->text; } };
template<> struct Val<MoveOnly> { static MoveOnly make(Slot* s) { return MoveOnly(70 + s->id); } static bool good(MoveOnly v, Slot* s) { return v.v == 70 + s->id && v.magic == Probe::MAGIC; } };
template<> struct Val<void> { static void make(Slot*) {} };
// what await_suspend returns
template<int RET> struct Ret; template<> struct Ret<0> { using type = void; }; template<> struct Ret<1> { using type = bool; }; template<> struct Ret<2> { using type = coroutine_handle<>; };
template<class R, int RET> struct Aw
{
	Slot* s; Probe p { 4 }; int ended = 0;	// await_resume leaves its mark in the awaitor itself
	Aw(Slot* s) : s(s) {}
	void alive() { REQUIRE(p.magic == Probe::MAGIC, "the awaitor does not live any more"); }
	bool await_ready() { alive(); REQUIRE(mc_cell_add(READYS + s->id, 1) == 1, "await_ready was called twice"); if (s->kind == K_TREADY) throw Bad(s->id); return s->kind == K_READY; }
	typename Ret<RET>::type await_suspend(coroutine_handle<> h)
	{
		alive(); REQUIRE(mc_cell_add(SUSP + s->id, 1) == 1, "await_suspend was called twice"); REQUIRE(!h.done(), "the coroutine is done");
		if (s->kind == K_TSUSP) throw Bad(s->id);
		s->h = h; int k = s->kind; if (waits(k)) s->set.store(1);	// from here on another thread may resume it
		if constexpr (RET == 1) return k != K_NOT;
		else if constexpr (RET == 2) return h;
	}
	R await_resume() { alive(); REQUIRE(mc_cell_add(RESUMES + s->id, 1) == 1, "await_resume was called twice"); ++ended; if (s->kind == K_TRES) throw Bad(s->id); return Val<R>::make(s); }
};
template<class R, int RET> struct Member { Slot* s; Aw<R, RET> operator co_await() const { return Aw<R, RET>(s); } };
template<class R, int RET> struct Free { Slot* s; };
template<class R, int RET> Aw<R, RET> operator co_await(const Free<R, RET>& f) { return Aw<R, RET>(f.s); }
static void step(int id, int n) { REQUIRE(mc_cell_add(STEP + id, 1) == n, "coroutine %d: step %d comes as number %d", id, n, (int)mc_cell_get(STEP + id)); }
#define TAKE(expr) do { if constexpr (std::is_void_v<R>) co_await expr; else { R r = co_await expr; REQUIRE(Val<R>::good(std::forward<R>(r), s), "co_await did not give what await_resume returned"); } } while (0)
enum { FORM_RV, FORM_LV, FORM_MEMBER, FORM_FREE, FORMS };
template<class R, int RET> static future_t<int> leaf(Slot* s, int form)
{
	int id = s->id; Live l(id); step(id, 1); scheduler_t* sch = librf_current_scheduler(); auto* root = librf_root_state(); task_t* task = librf_current_task(); bool threw = false;
	try
	{
		if (form == FORM_RV) TAKE((Aw<R, RET>(s)));
		else if (form == FORM_LV) { Aw<R, RET> a(s); try { TAKE(a); } catch (...) { REQUIRE(a.ended == (s->kind == K_TRES), "another awaitor was used"); throw; } REQUIRE(a.ended == 1, "the awaitor itself was not used"); }
		else if (form == FORM_MEMBER) TAKE((Member<R, RET>{ s }));
		else { Free<R, RET> f { s }; TAKE(f); }
	}
	catch (Bad& b) { REQUIRE(b.id == id && b.p.magic == Probe::MAGIC, "another exception"); threw = true; }
	REQUIRE(threw == fails(s->kind), "the exception of the awaitor %s", threw ? "came from nowhere" : "was lost");
	step(id, 2);
	REQUIRE(librf_current_scheduler() == sch && librf_root_state() == root && librf_current_task() == task, "scheduler, root or task changed");
	co_await yield(); step(id, 3); REQUIRE(this_scheduler() == sch, "after yield() the coroutine runs under another scheduler"); co_return 100 + id;
}
static std::function<future_t<int>(Slot*, int)> LEAF[] = { leaf<int, 0>, leaf<void, 0>, leaf<std::string&, 1>, leaf<MoveOnly, 1>, leaf<void, 1>, leaf<int, 2>, leaf<MoveOnly, 2>, leaf<std::string&, 2> };
enum { LEAVES = sizeof LEAF / sizeof *LEAF };
static int ret_of(int t) { return t < 2 ? 0 : t < 5 ? 1 : 2; }
static future_t<int> parent(Slot* s, int type, int form, int depth) { Live l(s->id); if (depth) { int v = co_await parent(s, type, form, depth - 1); co_return v; } int v = co_await LEAF[type](s, form); co_return v; }
static future_t<> root(Slot* s, int type, int form, int depth) { Live l(s->id); int v = co_await parent(s, type, form, depth); REQUIRE(v == 100 + s->id, "the parent got %d", v); mc_cell_add(RESULT + s->id, 1); }
// The kind of waiting, the type, the form, the depth and who resumes when are free choices
static int choose_kind(int type) { static const int N[][6] = { { K_READY, K_SUSPEND, K_TREADY, K_TSUSP, K_TRES, -1 }, { K_READY, K_SUSPEND, K_NOT, K_TREADY, K_TSUSP, K_TRES }, { K_READY, K_SELF, K_TREADY, K_TSUSP, -1, -1 } }; const int* k = N[ret_of(type)]; int n = 0; while (n < 6 && k[n] >= 0) ++n; return k[mc_choose(n)]; }
enum { BY_CODE, BY_TIMER, BY_COROUTINE, BY_OTHER_SCHEDULED, RESUMERS };
static void resume(Slot& s, int by)
{
	REQUIRE(s.set.load() == 1, "not suspended"); s.set.store(2);
	auto go_on = [&s] { REQUIRE(mc_cell_get(STEP + s.id) == 1, "it ran on although nobody resumed it"); s.h.resume(); REQUIRE(mc_cell_get(STEP + s.id) >= 2, "it was resumed and did not run"); };
	switch (by)
	{
	case BY_CODE: go_on(); break;
	case BY_TIMER: this_scheduler()->timer()->add(0ms, [go_on](bool) { go_on(); }); break;
	case BY_COROUTINE: go [go_on]() -> future_t<> { go_on(); co_return; }; break;
	case BY_OTHER_SCHEDULED: go [go_on]() -> future_t<> { co_await yield(); go_on(); co_await yield(); }; break;
	}
}
static void one(int)
{
	{
		local_scheduler_t ls; Slot s; s.id = 0; s.text = "text of the slot"; int type = mc_choose(LEAVES), form = mc_choose(FORMS), depth = mc_choose(3); s.kind = choose_kind(type); int wait = waits(s.kind) ? mc_choose(3) : 0, by = waits(s.kind) ? mc_choose(RESUMERS) : 0;
		if (depth) go root(&s, type, form, depth - 1); else go LEAF[type](&s, form);
		batches(4 + wait);
		REQUIRE(s.set.load() == waits(s.kind), "suspended although the awaitor did not ask for it, or the reverse");
		if (waits(s.kind)) { REQUIRE(mc_cell_get(STEP) == 1 && mc_cell_get(LIVE) == (depth ? depth + 2 : 1), "it did not wait"); REQUIRE(!this_scheduler()->empty(), "the scheduler is empty although a coroutine waits"); resume(s, by); batches(6 + depth); }
		else batches(6 + depth);
		REQUIRE(mc_cell_get(STEP) == 3, "the coroutine ended at step %d", (int)mc_cell_get(STEP)); REQUIRE(!depth || mc_cell_get(RESULT) == 1, "the parent was resumed %d times", (int)mc_cell_get(RESULT));
		REQUIRE(mc_cell_get(LIVE) == 0, "locals are left"); REQUIRE(this_scheduler()->empty(), "the scheduler is not empty"); drain();
	}
	Probe::check("values, awaitors, exceptions or locals");
}
MC_REG("C31", "one", one, 0, 0, 0, 0)
// several at once, resumed in any order
static void several(int n)
{
	{
		local_scheduler_t ls; Slot s[3]; bool done[3] = {}; int left = 0;
		for (int i = 0; i < n; ++i) { s[i].id = i; s[i].text = "slot"; int type = mc_choose(LEAVES); s[i].kind = ret_of(type) == 2 ? K_SELF : mc_choose(2) ? K_TRES : K_SUSPEND; go root(&s[i], type, i % FORMS, 0); }
		batches(5);
		for (int i = 0; i < n; ++i) { done[i] = !waits(s[i].kind); left += !done[i]; }
		while (left) { int k = mc_choose(left), i = 0; while (done[i] || k--) ++i; done[i] = true; --left; resume(s[i], mc_choose(3)); if (mc_choose(2)) { batches(5); REQUIRE(mc_cell_get(RESULT + i) == 1, "coroutine %d did not end", i); } for (int q = 0; q < n; ++q) REQUIRE(done[q] || mc_cell_get(STEP + q) == 1, "coroutine %d ran on", q); }
		batches(8); for (int i = 0; i < n; ++i) REQUIRE(mc_cell_get(RESULT + i) == 1 && mc_cell_get(LIVE + i) == 0, "coroutine %d did not end", i); REQUIRE(this_scheduler()->empty(), "not empty"); drain();
	}
	Probe::check("values, awaitors or locals");
}
MC_REG("C31", "several-2", several, 2, 0, 0, 0) MC_REG("C31", "several-3", several, 3, 0, 0, MCF_THOROUGH)
// awaitors as members of when_all and when_any, given as they are and by callables
template<int RET, class W> static future_t<> caller(Slot* a, Slot* b, int form, bool any, W) 
{
	scheduler_t* sch = librf_current_scheduler(); int n = 0; Live l(5); bool threw = false; (void)n;
	try
	{
		if (!any)
		{
			auto chk = [&](auto&& r) { REQUIRE(std::get<0>(r) == 70 + a->id && std::get<1>(r) == 70 + b->id, "the results are not in their places"); };
			if (form == 0) { auto r = co_await when_all(*sch, Aw<int, RET>(a), Aw<int, RET>(b)); chk(r); }
			else if (form == 1) { auto r = co_await when_all(*sch, Member<int, RET>{ a }, Free<int, RET>{ b }); chk(r); }
			else { auto r = co_await when_all(*sch, [a] { return Aw<int, RET>(a); }, [b] { return Member<int, RET>{ b }; }); chk(r); }
		}
		else
		{
			auto chk = [&](auto&& r) { REQUIRE(r.first == 0 || r.first == 1, "index"); Slot* s = r.first ? b : a; REQUIRE(!fails(s->kind) && std::any_cast<int>(r.second) == 70 + s->id && mc_cell_get(RESUMES + s->id) == 1, "the result is not that of the member"); };
			if (form == 0) { auto r = co_await when_any(*sch, Aw<int, RET>(a), Aw<int, RET>(b)); chk(r); }
			else if (form == 1) { auto r = co_await when_any(*sch, Member<int, RET>{ a }, Free<int, RET>{ b }); chk(r); }
			else { auto r = co_await when_any(*sch, [a] { return Aw<int, RET>(a); }, [b] { return Member<int, RET>{ b }; }); chk(r); }
		}
	}
	catch (Bad& e) { threw = true; REQUIRE(e.p.magic == Probe::MAGIC && fails((e.id == a->id ? a : b)->kind), "another exception"); }
	if (!any) REQUIRE(threw == (fails(a->kind) || fails(b->kind)), "failure is not reported");
	if (any && fails(a->kind) && fails(b->kind)) REQUIRE(threw, "failure is not reported");
	mc_cell_add(RESULT + 5, 1);
}
static void members(int any)
{
	{
		local_scheduler_t ls; Slot s[2]; int form = mc_choose(3), ret = mc_choose(2); static const int K[] = { K_READY, K_SUSPEND, K_TRES, K_TSUSP, K_NOT }; for (int i = 0; i < 2; ++i) { s[i].id = i; s[i].kind = K[mc_choose(4 + ret)]; }
		if (ret) go caller<1>(&s[0], &s[1], form, any, 0); else go caller<0>(&s[0], &s[1], form, any, 0);
		batches(8); bool now[2] = { !waits(s[0].kind), !waits(s[1].kind) }; int fin = now[0] + now[1];
		auto look = [&] { REQUIRE(mc_cell_get(RESULT + 5) == (any ? fin > 0 : fin == 2), "the caller was resumed %d times after %d members had finished", (int)mc_cell_get(RESULT + 5), fin); };
		look(); int first = mc_choose(2);
		for (int q = 0; q < 2; ++q) { int i = q ? 1 - first : first; if (now[i]) continue; REQUIRE(s[i].set.load() == 1, "not suspended"); s[i].set.store(2); if (mc_choose(2)) s[i].h.resume(); else { go [h = s[i].h]() -> future_t<> { auto g = h; g.resume(); co_return; }; batches(2); } ++fin; batches(6); look(); }
		REQUIRE(mc_cell_get(RESULT + 5) == 1 && mc_cell_get(LIVE + 5) == 0, "the caller"); REQUIRE(this_scheduler()->empty(), "not empty"); drain();
	}
	Probe::check("values, awaitors or locals");
}
MC_REG("C31", "when-all", members, 0, 0, 0, 0) MC_REG("C31", "when-any", members, 1, 0, 0, 0)
// resumed by another thread while its own scheduler runs
static void foreign(int arg)
{
	{
		static const int D[] = { 0, 1, 2, 0, 1, 1 }; int depth = D[arg]; bool two = arg == 3 || arg == 4, thrown = arg == 5; auto s = std::make_unique<Slot[]>(2); int plain = 0;
		for (int i = 0; i < 2; ++i) { s[i].id = i; s[i].kind = thrown ? K_TRES : K_SUSPEND; s[i].text = "slot"; }
		int a = thr([&] {
			local_scheduler_t ls; int n = two ? 2 : 1; for (int i = 0; i < n; ++i) if (depth) go root(&s[i], i ? 4 : 0, FORM_RV, depth - 1); else go LEAF[i ? 3 : 0](&s[i], FORM_LV);
			drain(); REQUIRE(mc_cell_get(STEP) == 3 && (!depth || mc_cell_get(RESULT) == 1), "the coroutine did not end"); if (two) REQUIRE(mc_cell_get(STEP + 1) == 3, "the second one did not end"); REQUIRE(!plain || plain == 1, "plain");
		});
		auto wake = [&](int i) { while (s[i].set.load() != 1) mc_point(); if (i == 0) plain = 1; s[i].set.store(2); s[i].h.resume(); };
		int b = thr([&] { wake(0); if (two && arg == 4) wake(1); }); int c = two && arg == 3 ? thr([&] { wake(1); }) : -1;
		mc_join(b); if (c >= 0) mc_join(c); mc_join(a);
		for (int i = 0; i < (two ? 2 : 1); ++i) REQUIRE(mc_cell_get(LIVE + i) == 0 && mc_cell_get(RESUMES + i) == 1, "locals");
	}
	Probe::check("values, awaitors or locals");
}
#define FO(k, pq, pt) MC_REG("C31", "foreign-" #k, foreign, k, pq, pt, 0)
FO(0, 3, 6) FO(1, 3, 5) FO(2, 3, 5) FO(3, 2, 3) FO(4, 2, 3) FO(5, 3, 5)
// launched coroutines that use co_yield: continued by their scheduler, a step per batch
template<class T> struct Y; template<> struct Y<int> { static int v(int i) { return i; } }; template<> struct Y<Probe> { static Probe v(int i) { return Probe(i); } };
static std::string TXT[8];
template<class T> static future_t<T> yields(int id, int n, int end, Probe par)
{
	Live l(id);
	for (int i = 0; i < n; ++i) { step(id, i + 1); if constexpr (std::is_reference_v<T>) co_yield TXT[i]; else co_yield Y<T>::v(i); REQUIRE(par.magic == Probe::MAGIC && par.v == 6, "the parameter"); }
	step(id, n + 1); if (end == 1) throw Bad(id);
	if (end == 2) { co_await yield(); step(id, n + 2); }
	if constexpr (std::is_reference_v<T>) co_return TXT[7]; else co_return Y<T>::v(n);
}
template<class T> static void launched(int m)
{
	{
		local_scheduler_t ls; int n[3], end[3], how = mc_choose(3), top = 0;
		for (int i = 0; i < m; ++i) { n[i] = mc_choose(4); end[i] = mc_choose(3); top = std::max(top, n[i]); }
		for (int i = 0; i < m; ++i) { int k = n[i], e = end[i]; if (how == 0) go yields<T>(i, k, e, Probe(6)); else if (how == 1) go [i, k, e] { return yields<T>(i, k, e, Probe(6)); }; else { auto f = yields<T>(i, k, e, Probe(6)); go std::move(f); } }
		for (int r = 1; r <= top + 3; ++r)
		{
			batches(1);
			for (int i = 0; i < m; ++i) { int want = std::min(r, n[i] + 1 + (end[i] == 2)); REQUIRE(mc_cell_get(STEP + i) == want, "coroutine %d is at step %d after %d batches", i, (int)mc_cell_get(STEP + i), r); if (want <= n[i]) REQUIRE(mc_cell_get(LIVE + i) == 1, "its locals"); }
		}
		batches(2); for (int i = 0; i < m; ++i) REQUIRE(mc_cell_get(LIVE + i) == 0, "its locals are left"); REQUIRE(this_scheduler()->empty(), "not empty although all ended"); drain();
	}
	Probe::check("values, locals or parameters");
}
MC_REG("C31", "yields-int", launched<int>, 2, 0, 0, 0) MC_REG("C31", "yields-probe", launched<Probe>, 2, 0, 0, 0) MC_REG("C31", "yields-ref", launched<std::string&>, 2, 0, 0, 0) MC_REG("C31", "yields-3", launched<Probe>, 3, 0, 0, MCF_THOROUGH)
