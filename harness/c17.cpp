#include "hx.h"
// threads 0..n-1, each drives a scheduler; coroutines switch between them
struct World { int n; scheduler_t* s[3] = {}; int tid[3] = {}; std::atomic<int> up { 0 }, done { 0 }; std::atomic<int> at[4]; std::atomic<int> out { 0 }; World(int k) : n(k) { for (auto& a : at) a.store(-1); } };
static World* W;
enum { STEPS = 20, TOOK = 30 };
static void here(int k) { REQUIRE(mc_self() == W->tid[k], "the coroutine runs on a thread that does not drive its scheduler"); REQUIRE(this_scheduler() == W->s[k], "the thread has another scheduler"); }
#define CHECK_AT(k) do { here(k); REQUIRE(librf_current_scheduler() == W->s[k], "the coroutine names another scheduler than the one it is on"); } while (0)
// script: digits switch, y yields, ( ) an awaited child, s sleeps, f starts and awaits something set by a plain thread
static future_t<> run(const char*& p, int& cur, int id)
{
	Probe local(1); int mine = 0;
	for (;; )
	{
		char c = *p; if (!c) co_return; ++p;
		if (c == ')') co_return;
		int before = (int)mc_cell_add(STEPS + id, 1); ++mine;
		if (c >= '0' && c <= '9')
		{
			int k = c - '0'; if (k == cur) { int64_t x = mc_cell_get(TOOK); co_await via(W->s[k]); REQUIRE(x == mc_cell_get(TOOK) || W->n > 1, "via to the current scheduler suspended"); }
			else { if (id < 4) W->at[id].store(-1); if (before & 1) co_await via(W->s[k]); else co_await via(*W->s[k]); cur = k; if (id < 4) W->at[id].store(k); }
		}
		else if (c == 'y') co_await yield();
		else if (c == 's') co_await sleep_for(1ms);
		else if (c == '(') co_await run(p, cur, id);
		CHECK_AT(cur);
		REQUIRE(mc_cell_get(STEPS + id) >= before, "a step was made twice");
	}
}
static future_t<> root(const char* p, int cur, int id)
{
	Probe local(2); CHECK_AT(cur); if (id < 4) W->at[id].store(cur);
	const char* end = p; while (*end) ++end;
	co_await run(p, cur, id);
	REQUIRE(p == end, "the coroutine ended before the end of its program"); CHECK_AT(cur);
	if (id < 4) W->at[id].store(-1);
	REQUIRE(mc_cell_add(10 + id, 1) == 1, "a coroutine finished twice"); W->done.fetch_add(1);
}
static void drive(int k, int want, const std::function<void()>& start)
{
	local_scheduler_t ls; W->s[k] = this_scheduler(); W->tid[k] = mc_self(); W->up.fetch_add(1); while (W->up.load() < W->n) mc_point();
	start();
	while (W->done.load() < want || !this_scheduler()->empty())
	{
		this_scheduler()->run_one_batch();
		for (int i = 0; i < 4; ++i) if (W->at[i].load() == k) REQUIRE(!this_scheduler()->empty(), "empty() although coroutine %d runs here", i);
	}
	W->out.fetch_add(1); while (W->out.load() < W->n) mc_point();	// nobody goes before everybody is done
}
// the texts: one per coroutine, "thread:script"
static void go_all(int n, std::vector<std::string> progs)
{
	World w(n); W = &w; std::vector<int> t; int want = (int)progs.size();
	for (int k = 0; k < n; ++k) t.push_back(thr([&, k] { drive(k, want, [&, k] { for (size_t i = 0; i < progs.size(); ++i) if (progs[i][0] - '0' == k) go root(progs[i].c_str() + 2, k, (int)i); }); }));
	for (int i : t) mc_join(i);
	for (int i = 0; i < want; ++i) REQUIRE(mc_cell_get(10 + i) == 1, "coroutine %d never finished", i);
	Probe::check("locals"); W = nullptr;
}
struct Fx { int n; std::vector<std::string> p; };
static const Fx FX[] = {
	{ 2, { "0:1" } }, { 2, { "0:10" } }, { 2, { "0:1010" } }, { 2, { "0:(1)" } }, { 2, { "0:(1)0" } }, { 2, { "0:((1)0)1" } }, { 2, { "0:1(0(1))0" } },	// 0..6
	{ 2, { "0:1", "1:0" } }, { 2, { "0:10", "1:01" } }, { 2, { "0:1y0y", "0:y1" } }, { 3, { "0:12" } }, { 3, { "0:120" } }, { 3, { "0:(1(2))0" } }, { 2, { "0:0y1y1y0" } }, // 7..13
	{ 2, { "0:1s0" } }, { 2, { "0:(1s)", "1:s" } }, { 3, { "0:1", "1:2", "2:0" } }, { 2, { "0:y(y1y)y", "0:y" } }, { 2, { "0:(((1)))0" } }, { 2, { "0:1", "0:1", "0:1" } }, { 2, { "0:1", "1:y0", "1:0" } } }; // 14..20
static void fixed(int i) { go_all(FX[i].n, FX[i].p); }
#define FIX(name, i, pq, pt) MC_REG("C17", name, fixed, i, pq, pt, 0)
FIX("away", 0, 4, 6) FIX("away-and-back", 1, 3, 5) FIX("ping-pong", 2, 2, 4) FIX("child", 3, 3, 5) FIX("child-and-back", 4, 3, 5) FIX("nested", 5, 2, 4) FIX("nested-2", 6, 2, 4)
FIX("opposite", 7, 2, 3) FIX("opposite-and-back", 8, 1, 2) FIX("with-yields", 9, 2, 3) FIX("three", 10, 1, 2) FIX("three-round", 11, 1, 2) FIX("three-nested", 12, 1, 2) FIX("to-itself", 13, 2, 4)
FIX("sleeping", 14, 2, 3) FIX("child-sleeping", 15, 2, 3) FIX("rotate", 16, 0, 1) FIX("yields-and-child", 17, 2, 3) FIX("depth-3", 18, 2, 4) FIX("three-at-once", 19, 2, 3) FIX("crowd", 20, 1, 2)
// every program of the given length for one coroutine between two threads
static void all_programs(int len)
{
	std::string s = "0:"; int depth = 0; static const char OPS[] = "01y()";
	for (int i = 0; i < len; ++i) { int c = mc_choose(depth ? 5 : 4); s += OPS[c]; if (c == 3) depth++; if (c == 4) depth--; }
	while (depth--) s += ")";
	go_all(2, { s });
}
MC_REG("C17", "all-3", all_programs, 3, 0, 1, 0) MC_REG("C17", "all-4", all_programs, 4, 0, 0, 0) MC_REG("C17", "all-5", all_programs, 5, 0, 0, MCF_THOROUGH)
static void all_pairs(int len)
{
	std::string s[2]; for (int k = 0; k < 2; ++k) { s[k] = k ? "1:" : "0:"; for (int i = 0; i < len; ++i) s[k] += "01y"[mc_choose(3)]; }
	go_all(2, { s[0], s[1] });
}
MC_REG("C17", "pairs-2", all_pairs, 2, 0, 1, 0) MC_REG("C17", "pairs-3", all_pairs, 3, 0, 0, MCF_THOROUGH)
// all on one thread: two schedulers driven in turn show exactly where the task is counted
struct Sched : scheduler_t { Sched() {} };
static future_t<> wander(scheduler_t* a, scheduler_t* b, int len, int* at, bool* fin)
{
	scheduler_t* s[2] = { a, b }; *at = 0;
	for (int i = 0; i < len; ++i)
	{
		int k = mc_choose(3); if (k == 2) co_await yield(); else { *at = k; co_await via(*s[k]); }
		REQUIRE(librf_current_scheduler() == s[*at], "the coroutine names another scheduler than the one it is on");
	}
	*fin = true;
}
static future_t<> wander_child(scheduler_t* a, scheduler_t* b, int len, int* at, bool* fin) { bool f = false; co_await wander(a, b, len, at, &f); REQUIRE(f, "returned early"); scheduler_t* s[2] = { a, b }; REQUIRE(librf_current_scheduler() == s[*at], "the caller did not follow"); *fin = true; }
static void in_turn(int arg)
{
	Sched a, b; scheduler_t* s[2] = { &a, &b }; int at = 0; bool fin = false;
	if (arg >= 10) a + wander_child(&a, &b, arg % 10, &at, &fin); else a + wander(&a, &b, arg, &at, &fin);
	for (int i = 0; i < 40; ++i)
	{
		mc_progress(); int k = (i >> 1) & 1; int was = at; s[k]->run_one_batch();
		if (!fin) { REQUIRE(!s[at]->empty(), "the scheduler that has the coroutine is empty"); if (was == at && k == at) REQUIRE(s[1 - at]->empty(), "the scheduler it left still counts it"); }
	}
	REQUIRE(fin, "the coroutine never finished"); REQUIRE(a.empty() && b.empty(), "a scheduler still counts a finished task");
}
MC_REG("C17", "in-turn-3", in_turn, 3, 0, 0, 0) MC_REG("C17", "in-turn-5", in_turn, 5, 0, 0, 0) MC_REG("C17", "in-turn-child-3", in_turn, 13, 0, 0, 0) MC_REG("C17", "in-turn-7", in_turn, 7, 0, 0, MCF_THOROUGH)
// via to the scheduler it is on does not suspend: nobody else runs meanwhile
static future_t<> other(int* n) { ++*n; co_await yield(); ++*n; }
static future_t<> stay(int* n, int depth) { if (depth) { co_await stay(n, depth - 1); } int x = *n; co_await via(this_scheduler()); REQUIRE(x == *n, "via to the current scheduler suspended"); co_await via(*librf_current_scheduler()); REQUIRE(x == *n, "via to the current scheduler suspended"); }
static void staying(int) { local_scheduler_t ls; int n = 0, d = mc_choose(3); go stay(&n, d); go other(&n); drain(); }
MC_REG("C17", "stay", staying, 0, 0, 0, 0)
// the thread it leaves has nothing more to do and ends; the other one drives it to the end
static future_t<> leave(scheduler_t* to, int* tid, std::atomic<int>* fin) { Probe l(1); co_await via(to); REQUIRE(mc_self() == *tid, "the coroutine runs on a thread that does not drive its scheduler"); co_await yield(); fin->store(1); }
static future_t<> leave_nested(scheduler_t* to, int* tid, std::atomic<int>* fin) { Probe l(1); std::atomic<int> f { 0 }; co_await leave(to, tid, &f); REQUIRE(mc_self() == *tid, "the caller did not follow"); fin->store(1); }
static void emigrate(int kind)
{
	std::atomic<int> up { 0 }, fin { 0 }; scheduler_t* to = nullptr; int tid = 0;
	int b = thr([&] { local_scheduler_t ls; to = this_scheduler(); tid = mc_self(); up.store(1); while (!fin.load() || !to->empty()) to->run_one_batch(); });
	int a = thr([&] {
		while (!up.load()) mc_point(); local_scheduler_t ls;
		if (kind == 0) go leave(to, &tid, &fin); else if (kind == 1) go leave_nested(to, &tid, &fin);
		else { Probe cap(5); go [cap, to, &tid, &fin]() -> future_t<> { co_await leave(to, &tid, &fin); REQUIRE(cap.magic == Probe::MAGIC && cap.v == 5, "the captures of the lambda are gone"); }; }
		this_scheduler()->run_until_notask();
		REQUIRE(this_scheduler()->empty(), "the scheduler it left is not empty"); });
	join_all(a, b); Probe::check("locals");
}
MC_REG("C17", "emigrate", emigrate, 0, 4, 5, 0) MC_REG("C17", "emigrate-nested", emigrate, 1, 3, 5, 0) MC_REG("C17", "emigrate-lambda", emigrate, 2, 3, 4, 0)
// a third thread launches on both while the switch goes on
static future_t<> brief(std::atomic<int>* n) { n->fetch_add(1); co_return; }
static void launching(int)
{
	World w(2); W = &w; std::atomic<int> n { 0 }; std::vector<int> t;
	for (int k = 0; k < 2; ++k) t.push_back(thr([&, k] { drive(k, 2, [&, k] { if (!k) go root("10", 0, 0); }); }));
	t.push_back(thr([&] { while (w.up.load() < 2) mc_point(); *w.s[1] + brief(&n); *w.s[0] + brief(&n); w.done.fetch_add(1); }));
	for (int i : t) mc_join(i);
	REQUIRE(n.load() == 2, "a coroutine that was launched did not run"); Probe::check("locals"); W = nullptr;
}
MC_REG("C17", "launching", launching, 0, 1, 2, 0)
// long ways: many hops in one coroutine, deep nesting with the hop at the bottom, many coroutines at once
static void long_way(int k)
{
	std::string h; switch (k) { case 0: for (int i = 0; i < 40; ++i) h += "10"; break; case 1: for (int i = 0; i < 25; ++i) h += "("; h += "1"; for (int i = 0; i < 25; ++i) h += i % 7 == 3 ? (i & 1 ? "0)" : "1)") : ")"; break; case 2: for (int i = 0; i < 12; ++i) h += i % 2 ? "(0y)1" : "(1y)0"; break; }
	if (k < 3) { go_all(2, { "0:" + h }); return; }
	World w(2); W = &w; std::vector<int> t; int n = 60; std::atomic<int> fin { 0 };
	auto hop = [&](int id) -> future_t<> { Probe l(1); int from = mc_self() == w.tid[0] ? 0 : 1; for (int i = 0; i < 3; ++i) { int to = (id + i) & 1; co_await via(w.s[to]); REQUIRE(mc_self() == w.tid[to] && this_scheduler() == w.s[to], "the coroutine runs on a thread that does not drive its scheduler"); if (i == id % 3) co_await yield(); } (void)from; fin.fetch_add(1); w.done.fetch_add(1); };
	for (int q = 0; q < 2; ++q) t.push_back(thr([&, q] { drive(q, 2 * n, [&, q] { for (int i = 0; i < n; ++i) go hop(i); }); }));
	for (int i : t) mc_join(i);
	REQUIRE(fin.load() == 2 * n, "%d of %d coroutines finished", fin.load(), 2 * n); Probe::check("locals"); W = nullptr;
}
MC_REG("C17", "long-hops", long_way, 0, 0, 1, MCF_LONG) MC_REG("C17", "long-nested", long_way, 1, 0, 1, MCF_LONG) MC_REG("C17", "long-children", long_way, 2, 0, 1, MCF_LONG) MC_REG("C17", "long-crowd", long_way, 3, 0, 0, MCF_LONG)
