#include "hx.h"
#include "endure.h"
#include <deque>
// a program: root coroutines with a list of operations; sub-coroutines have fixed bodies
enum Op { YIELD, CHILD0, CHILD1, LAUNCH, SET, WAIT, GEN, FUN, NOPS };
struct Prog { int n, len; int ops[3][4]; };
static Prog* G; static std::vector<int> real;	// order of the steps as executed
static std::vector<awaitable_t<int>>* AW; static std::vector<future_t<int>>* FU; static bool* isset;
static int running;	// the coroutine between two suspension points; must be alone
static void mark(int who, int step) { REQUIRE(running == 0, "a coroutine that has not suspended is interleaved"); running = who + 1; mc_progress(); real.push_back(who * 100 + step); running = 0; }
static future_t<> child(int who, int y) { mark(who, 50); for (int i = 0; i < y; ++i) { co_await yield(); mark(who, 51 + i); } }
static future_t<> launched(int who) { mark(who, 60); co_await yield(); mark(who, 61); }
static generator_t<int> gen(int who) { mark(who, 70); co_yield 1; mark(who, 71); co_yield 2; mark(who, 72); co_return 0; }
static future_t<> root(int who)
{
	mark(who, 0);
	for (int i = 0; i < G->len; ++i)
	{
		switch (G->ops[who][i])
		{
		case YIELD: co_await yield(); break;
		case CHILD0: co_await child(who, 0); break;
		case CHILD1: co_await child(who, 1); break;
		case LAUNCH: go launched(who); break;
		case SET: if (!*isset) { *isset = true; (*AW)[0].set_value(1); } break;
		case WAIT: { auto f = (*FU)[0]; if (who == 0) (void)co_await f; else co_await yield(); break; }
		case GEN: go gen(who); break;
		case FUN: go [who]() -> future_t<> { mark(who, 80); co_return; }; break;
		}
		mark(who, i + 1);
	}
}
// the reference: one FIFO list of what is ready
struct Ctx { int kind, who, pc, y; Ctx* parent; bool started; };	// kind 0 root 1 child 2 launched 3 generator 4 function
static std::vector<int> model()
{
	std::vector<int> out; std::deque<Ctx*> q; std::vector<std::unique_ptr<Ctx>> all; Ctx* waiter = nullptr; bool set = false;
	auto mk = [&](int kind, int who, int y, Ctx* parent) { all.emplace_back(new Ctx{ kind, who, 0, y, parent, false }); q.push_back(all.back().get()); };
	for (int i = 0; i < G->n; ++i) mk(0, i, 0, nullptr);
	while (!q.empty())
	{
		Ctx* c = q.front(); q.pop_front(); int b = c->who * 100;
		if (c->kind == 1) { out.push_back(b + 50 + c->pc); if (c->pc++ < c->y) q.push_back(c); else q.push_back(c->parent); continue; }
		if (c->kind == 2) { out.push_back(b + 60 + c->pc); if (c->pc++ < 1) q.push_back(c); continue; }
		if (c->kind == 3) { out.push_back(b + 70 + c->pc); if (c->pc++ < 2) q.push_back(c); continue; }
		if (c->kind == 4) { out.push_back(b + 80); continue; }
		bool run = true;
		out.push_back(b + c->pc);
		while (run && c->pc < G->len)
		{
			int op = G->ops[c->who][c->pc++];
			switch (op)
			{
			case YIELD: q.push_back(c); run = false; break;
			case CHILD0: case CHILD1: mk(1, c->who, op - CHILD0, c); run = false; break;
			case LAUNCH: mk(2, c->who, 0, nullptr); break;
			case SET: if (!set) { set = true; if (waiter) q.push_back(waiter); } break;
			case WAIT: if (c->who) { q.push_back(c); run = false; } else if (!set) { waiter = c; run = false; } break;
			case GEN: mk(3, c->who, 0, nullptr); break;
			case FUN: mk(4, c->who, 0, nullptr); break;
			}
			if (run) out.push_back(b + c->pc);
		}
	}
	return out;
}
static void programs(int arg)
{
	Prog p; G = &p; p.n = arg / 10; p.len = arg % 10; bool waits = false; real.clear(); running = 0;
	for (int i = 0; i < p.n; ++i) for (int k = 0; k < p.len; ++k) { p.ops[i][k] = mc_choose(NOPS); if (!i && p.ops[i][k] == WAIT) { if (waits) return; waits = true; } }
	{
		std::vector<awaitable_t<int>> aw(1); std::vector<future_t<int>> fu; fu.push_back(aw[0].get_future()); bool s = false; AW = &aw; FU = &fu; isset = &s;
		auto want = model();
		local_scheduler_t ls; for (int i = 0; i < p.n; ++i) go root(i);
		for (int i = 0; i < 40; ++i) { mc_progress(); size_t n0 = real.size(); bool r = this_scheduler()->run_one_batch(); REQUIRE(r || real.size() == n0, "run_one_batch says that it ran nothing"); }
		for (size_t i = 0; i < want.size() || i < real.size(); ++i) REQUIRE(i < want.size() && i < real.size() && want[i] == real[i], "step %d is %d, in the order of readiness it is %d", (int)i, i < real.size() ? real[i] : -1, i < want.size() ? want[i] : -1);
		if (!s) { s = true; aw[0].set_value(1); }
		drain();
	}
	real.clear(); real.shrink_to_fit(); G = nullptr;
}
MC_REG("C16", "programs-1x3", programs, 13, 0, 0, 0) MC_REG("C16", "programs-2x2", programs, 22, 0, 0, 0) MC_REG("C16", "programs-3x1", programs, 31, 0, 0, 0) MC_REG("C16", "programs-1x4", programs, 14, 0, 0, 0) MC_REG("C16", "programs-2x3", programs, 23, 0, 0, 0) MC_REG("C16", "programs-3x2", programs, 32, 0, 0, MCF_THOROUGH)
// coroutines that only yield, in any number, with generators among them: between two steps of one every other makes one
struct Fair { int n; int at[5]; int len[5]; };
static Fair* F;
static void fair_step(int me)
{
	mc_progress(); F->at[me]++;
	for (int i = 0; i < F->n; ++i) if (i != me && F->at[i] < F->len[i] && F->at[me] < F->len[me]) { int d = F->at[me] - F->at[i]; REQUIRE(d >= -1 && d <= 1, "a coroutine that yields made %d steps while another one made %d", F->at[me], F->at[i]); }
}
static future_t<> yielder(int me) { for (int i = 0; i < F->len[me]; ++i) { fair_step(me); co_await yield(); } }
static future_t<> nested_yielder(int me) { for (int i = 0; i < F->len[me]; ++i) { fair_step(me); co_await yield(); } }
static generator_t<int> gen_yielder(int me) { for (int i = 0; i < F->len[me]; ++i) { fair_step(me); co_yield i; } co_return 0; }
static void fairness(int n)
{
	Fair f{}; F = &f; f.n = n; local_scheduler_t ls;
	for (int i = 0; i < n; ++i) f.len[i] = 2 + mc_choose(5);
	for (int i = 0; i < n; ++i) switch (mc_choose(3)) { case 0: go yielder(i); break; case 1: go nested_yielder(i); break; case 2: go gen_yielder(i); break; }
	drain(); for (int i = 0; i < n; ++i) REQUIRE(f.at[i] == f.len[i], "a coroutine made %d of %d steps", f.at[i], f.len[i]); F = nullptr;
}
MC_REG("C16", "fairness-2", fairness, 2, 0, 0, 0) MC_REG("C16", "fairness-3", fairness, 3, 0, 0, 0) MC_REG("C16", "fairness-4", fairness, 4, 0, 0, MCF_THOROUGH)
// what another thread makes ready is run in that order, whatever runs here at the same time
static future_t<> await_it(future_t<int> f, int id, std::vector<int>* order) { (void)co_await f; order->push_back(id); }
static future_t<> busy(int n) { for (int i = 0; i < n; ++i) co_await yield(); }
static void foreign(int n)
{
	std::vector<int> order; std::vector<awaitable_t<int>> aw(n); std::vector<future_t<int>> f; for (auto& a : aw) f.push_back(a.get_future());
	std::atomic<int> waiting { 0 }; int b1 = mc_choose(2); int rev = mc_choose(2);
	int a = thr([&] { local_scheduler_t ls; for (int i = 0; i < n; ++i) go await_it(f[i], i, &order); if (b1) go busy(3); this_scheduler()->run_one_batch(); waiting.store(1); drain(); });
	int b = thr([&] { while (!waiting.load()) mc_point(); for (int i = 0; i < n; ++i) aw[rev ? n - 1 - i : i].set_value(1); });
	join_all(a, b); REQUIRE((int)order.size() == n, "%d of %d woken coroutines ran", (int)order.size(), n);
	for (int i = 0; i < n; ++i) REQUIRE(order[i] == (rev ? n - 1 - i : i), "coroutine %d ran as number %d", order[i], i);
}
MC_REG("C16", "foreign-2", foreign, 2, 4, 5, 0) MC_REG("C16", "foreign-3", foreign, 3, 2, 4, 0)
static future_t<> note(int id, std::vector<int>* order) { order->push_back(id); co_await yield(); order->push_back(id + 10); }
static void foreign_launch(int n)
{
	std::vector<int> order; scheduler_t* s = nullptr; std::atomic<int> st { 0 };
	int a = thr([&] { local_scheduler_t ls; s = this_scheduler(); st.store(1); while (st.load() < 2 || !s->empty()) s->run_one_batch(); });
	int b = thr([&] { while (!st.load()) mc_point(); for (int i = 0; i < n; ++i) *s + note(i, &order); st.store(2); });
	join_all(a, b); REQUIRE((int)order.size() == 2 * n, "%d of %d steps were made", (int)order.size(), 2 * n);
	int last[2] = { -1, -1 }; for (int v : order) { int& l = last[v / 10]; REQUIRE(v % 10 == l + 1, "coroutine %d ran before one that was launched earlier", v % 10); l = v % 10; }
}
MC_REG("C16", "foreign-launch-2", foreign_launch, 2, 3, 4, 0) MC_REG("C16", "foreign-launch-3", foreign_launch, 3, 2, 3, 0)
// many at once: rounds of all of them in the order of launching, whatever their number
static void crowd(int n)
{
	local_scheduler_t ls; scheduler_t* s = this_scheduler(); std::vector<int> order; order.reserve(8 * n); std::vector<awaitable_t<int>> aw(n); event_t e(false); int base = 0;
	auto y = [&](int i, int k) -> future_t<> { for (int r = 0; r < k; ++r) { order.push_back(i); co_await yield(); } order.push_back(i); };
	auto rounds = [&](int k, const char* w) { mc_progress(); for (int r = 0; r < k; ++r) for (int i = 0; i < n; ++i) REQUIRE((int)order.size() > r * n + i && order[r * n + i] == i, "%s: step %d of round %d was made by coroutine %d of %d", w, i, r, (int)order.size() > r * n + i ? order[r * n + i] : -1, n); REQUIRE((int)order.size() == k * n, "%s: %d steps instead of %d", w, (int)order.size(), k * n); order.clear(); };
	for (int i = 0; i < n; ++i) { mc_progress(); go y(i, 3); } s->run_until_notask(); rounds(4, "launched");
	auto spawn = [&]() -> future_t<> { for (int i = 0; i < n; ++i) { mc_progress(); go y(i, 2); } co_return; }; go spawn(); s->run_until_notask(); rounds(3, "launched by a coroutine");
	auto w = [&](int i) -> future_t<> { if (i & 1) (void)co_await e.wait(); else (void)co_await aw[i].get_future(); order.push_back(i); co_await yield(); order.push_back(i); };
	for (int i = 0; i < n; ++i) { mc_progress(); go w(i); } batches(3); for (int i = 0; i < n; ++i) { mc_progress(); if (i & 1) e.signal(); else aw[i].set_value(1); } s->run_until_notask(); rounds(2, "woken");
	// one that only yields while a crowd is ready makes one step per round
	int mine = 0; auto me = [&]() -> future_t<> { for (int r = 0; r < 6; ++r) { mine++; co_await yield(); } }; auto other = [&](int i) -> future_t<> { for (int r = 0; r < 6; ++r) { mc_progress(); REQUIRE(mine == r + 1, "coroutine %d of %d makes its step %d when the first one made %d", i, n, r, mine); co_await yield(); } };
	go me(); for (int i = 0; i < n; ++i) { mc_progress(); go other(i); } s->run_until_notask(); (void)base;
}
MC_REG("C16", "crowd-100", crowd, 100, 0, 0, MCF_LONG) MC_REG("C16", "crowd-300", crowd, 300, 0, 0, MCF_LONG) MC_REG("C16", "crowd-1500", crowd, 1500, 0, 0, MCF_LONG) MC_REG("C16", "crowd-5000", crowd, 5000, 0, 0, MCF_LONG)
MC_REG("C16", "again-70000", endure::yields, 70000, 0, 0, MCF_LONG)
