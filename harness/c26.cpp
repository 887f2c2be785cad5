#include "when.h"
#include "prog.h"
// Two threads drive a scheduler each, a plain thread wakes. At every step a coroutine looks at where it is:
// the running thread, that thread's scheduler, and what the three queries name.
enum { DONE = 10 };
struct Hub
{
	int n = 2; scheduler_t* s[2] = {}; int tid[2] = {}; std::atomic<int> up { 0 }, done { 0 }, out { 0 };
	event_t ev { false }; mutex_t mx; channel_t<int> ch { 1 }; awaitable_t<int> aw; future_t<int> fu; Hub() : fu(aw.get_future()) {}
};
static Hub* H;
struct Me { int id; int cur; std::atomic<task_t*> task { nullptr }; state_base_t* root = nullptr; task_t* seen = nullptr; };
static Me* ROOTS[16]; static std::atomic<int> nroots;
#define LOOK(me) do { \
	REQUIRE(mc_self() == H->tid[(me).cur], "a coroutine of scheduler %d runs on another thread", (me).cur); \
	REQUIRE(this_scheduler() == H->s[(me).cur], "the scheduler of this thread is another one"); \
	scheduler_t* s_ = librf_current_scheduler(); REQUIRE(s_ == H->s[(me).cur], "the current scheduler is not the one it runs on"); \
	state_base_t* r_ = librf_root_state(); REQUIRE(r_ != nullptr, "no root"); if (!(me).root) (me).root = r_; REQUIRE(r_ == (me).root, "another root than before"); \
	task_t* t_ = librf_current_task(); REQUIRE(t_ != nullptr, "no task"); if (!(me).seen) (me).seen = t_; REQUIRE(t_ == (me).seen, "another task than before"); \
	if ((me).task.load()) REQUIRE(t_ == (me).task.load(), "not the task it was launched as"); } while (0)
static future_t<> walk(const char*& p, Me& me);
static future_t<> launch_root(const char* p, Me* me, const char* e);
static const char* close(const char* q) { int d = 1; while (d) { if (*q == '(' || *q == '{') d++; if (*q == ')' || *q == '}') d--; q++; } return q; }
static future_t<int> val(const char*& p, Me& me) { LOOK(me); co_await walk(p, me); LOOK(me); co_return 3; }
static future_t<> walk(const char*& p, Me& me)
{
	LOOK(me);
	while (*p && *p != ')' && *p != '}')
	{
		char c = *p++;
		switch (c)
		{
		case 'y': co_await yield(); break;
		case 's': co_await sleep_for(1ms); break;
		case 'e': { bool r = co_await H->ev.wait(); REQUIRE(r, "wait returned false"); break; }
		case 't': co_await H->ev.wait_for(1ms); break;
		case 'm': { auto g = co_await H->mx.lock(); LOOK(me); break; }
		case 'l': if (co_await H->mx.try_lock_for(1ms)) { LOOK(me); co_await H->mx.unlock(); } break;
		case 'c': (void)co_await H->ch; break;
		case 'w': co_await (H->ch << 1); break;
		case 'a': (void)co_await H->fu; break;
		case '0': case '1': { int k = c - '0'; if (k != me.cur) { me.cur = k; co_await via(H->s[k]); } else co_await via(*H->s[k]); break; }
		case '(': co_await walk(p, me); p++; break;
		case '[': { int r = co_await val(p, me); REQUIRE(r == 3, "another value"); p++; break; }	// [..) a child with a result
		case '{': { const char* e = close(p); int i = nroots.fetch_add(1); Me* m = new Me{ i, me.cur }; ROOTS[i] = m; m->task = go launch_root(p, m, e - 1); p = e; break; }
		default: mc_fail("bad text");
		}
		LOOK(me);
	}
}
static future_t<> launch_root(const char* p, Me* me, const char* e)
{
	LOOK(*me); const char* q = p; if (q < e) co_await walk(q, *me); LOOK(*me); mc_cell_add(DONE, 1); H->done.fetch_add(1);
}
// text: "thread:script,script|thread:script|wakes"
static void run(const std::string& text)
{
	Hub h; H = &h; nroots = 0; std::vector<std::string> parts(1); for (char c : text) { if (c == '|') parts.emplace_back(); else parts.back() += c; }
	int want = 0; std::vector<int> t; std::vector<std::vector<std::string>> scr(2); std::string wakes;
	for (auto& p : parts)
	{
		if (p.empty()) continue;
		if (p[0] == 'P') { wakes = p.substr(2); continue; }
		int k = p[0] - '0'; std::string s; for (size_t i = 2; i <= p.size(); ++i) { if (i == p.size() || p[i] == ',') { scr[k].push_back(s); s.clear(); want++; } else { s += p[i]; if (p[i] == '{') want++; } }
	}
	auto body = [&](int k) {
		local_scheduler_t ls; h.s[k] = this_scheduler(); h.tid[k] = mc_self(); h.up.fetch_add(1); while (h.up.load() < 2) mc_point();
		for (auto& s : scr[k]) { int i = nroots.fetch_add(1); Me* m = new Me{ i, k }; ROOTS[i] = m; m->task = go launch_root(s.c_str(), m, s.c_str() + s.size()); }
		while (h.done.load() < want || !this_scheduler()->empty()) this_scheduler()->run_one_batch();
		h.out.fetch_add(1); while (h.out.load() < 2) mc_point();
	};
	for (int k = 0; k < 2; ++k) t.push_back(thr([&, k] { body(k); }));
	if (!wakes.empty()) t.push_back(thr([&] {
		while (h.up.load() < 2) mc_point();
		for (char c : wakes) switch (c) { case 'e': h.ev.signal(); break; case 'A': h.ev.signal_all(); break; case 'm': { int o; h.mx.lock(&o); mc_point(); h.mx.unlock(&o); break; } case 'w': (void)h.ch.write(2); break; case 'c': (void)h.ch.read(); break; case 'a': h.aw.set_value(3); break; }
		REQUIRE(this_scheduler() == &scheduler_t::g_scheduler, "a thread without a scheduler has one"); }));
	for (int i : t) mc_join(i);
	REQUIRE(mc_cell_get(DONE) == want, "%d of %d coroutines came to their end", (int)mc_cell_get(DONE), want);
	int all = nroots; for (int i = 0; i < all; ++i) for (int k = 0; k < i; ++k) { REQUIRE(ROOTS[i]->root != ROOTS[k]->root, "two coroutines name the same root"); REQUIRE(ROOTS[i]->seen != ROOTS[k]->seen, "two coroutines name the same task"); }
	for (int i = 0; i < all; ++i) delete ROOTS[i];
	H = nullptr;
}
static const char* TX[] = {
	"0:e|P:e", "0:e|1:e|P:ee", "0:(e)|P:e", "0:((e)y)|1:e|P:ee", "0:e,e|1:e|P:eee", "0:t|P:e", "0:t|1:e|P:ee", "0:c|P:w", "0:c|1:w", "0:c|1:c|P:ww",	// 0..9
	"0:w,w|P:cc", "0:m|P:m", "0:m|1:m", "0:m|1:m|P:m", "0:l|P:m", "0:l|1:m", "0:a|P:a", "0:([a))|P:a", "0:e1e|P:ee", "0:(e1)e0|P:ee",	// 10..19
	"0:1e|1:e|P:ee", "0:m1m0|1:m", "0:(y{e}y)|1:e|P:ee", "0:{e}{y}e|P:ee", "0:[1e)0|P:e", "0:s|1:s", "0:(s1s)|1:e|P:e", "0:1c|1:0w", "0:w1|1:c0", "0:a1|P:a", // 20..29
	"0:[e(1(e)))y|P:ee", "0:{1e}e|P:ee", "0:{[1y)0}1|1:0", "0:e|1:(e)|P:Aee" };
static void fixed(int i) { run(TX[i]); }
#define FX(i, pq, pt) MC_REG("C26", "text-" #i, fixed, i, pq, pt, 0)
FX(0, 3, 5) FX(1, 1, 2) FX(2, 2, 4) FX(3, 1, 2) FX(4, 1, 2) FX(5, 2, 4) FX(6, 1, 2) FX(7, 2, 4) FX(8, 2, 4) FX(9, 1, 2) FX(10, 1, 2) FX(11, 2, 4) FX(12, 2, 4) FX(13, 1, 2) FX(14, 2, 3) FX(15, 2, 3) FX(16, 2, 4) FX(17, 2, 4) FX(18, 2, 3) FX(19, 2, 3)
FX(20, 1, 2) FX(21, 1, 2) FX(22, 1, 2) FX(23, 2, 3) FX(24, 2, 3) FX(25, 2, 3) FX(26, 1, 2) FX(27, 1, 2) FX(28, 1, 2) FX(29, 2, 3) FX(30, 1, 2) FX(31, 1, 2) FX(32, 1, 2) FX(33, 1, 2)
// every text up to a length
static void all_texts(int len)
{
	std::string s = "0:", w; int depth = 0; bool a = false; static const char OPS[] = "ye1(){[";
	for (int i = 0; i < len; ++i) { int c = mc_choose(7); if (OPS[c] == ')' && !depth) return; if (OPS[c] == '{' || OPS[c] == '(' || OPS[c] == '[') depth++; if (OPS[c] == ')') depth--; if (OPS[c] == 'e') w += 'e'; (void)a; s += OPS[c]; }
	// close what is open, innermost first
	std::string st; std::string out = "0:"; for (size_t i = 2; i < s.size(); ++i) { if (s[i] == '(' || s[i] == '{' || s[i] == '[') st += s[i]; if (s[i] == ')') { char o = st.back(); st.pop_back(); out += o == '{' ? '}' : ')'; } else out += s[i]; }
	while (!st.empty()) { out += st.back() == '{' ? '}' : ')'; st.pop_back(); }
	run(out + (w.empty() ? "" : "|P:" + w));
}
MC_REG("C26", "all-3", all_texts, 3, 0, 1, 0) MC_REG("C26", "all-4", all_texts, 4, 0, 0, MCF_THOROUGH)
// ---- which scheduler a thread has
struct Sched : scheduler_t { Sched() {} };
static void binding(int len)
{
	auto body = [len] {
		std::vector<std::unique_ptr<local_scheduler_t>> st; scheduler_t* mine = nullptr;
		for (int i = 0; i < len; ++i)
		{
			switch (mc_choose(st.empty() ? 1 : 2))
			{
			case 0: st.push_back(std::make_unique<local_scheduler_t>()); if (st.size() == 1) { mine = this_scheduler(); REQUIRE(mine != &scheduler_t::g_scheduler, "a local scheduler creates none"); for (int k = 0; k < 2; ++k) REQUIRE(mc_cell_get(100 + k) != (int64_t)(intptr_t)mine, "two threads have the same scheduler"); mc_cell_set(100 + mc_self() % 2, (int64_t)(intptr_t)mine); } break;
			case 1: if (st.size() == 1) mc_cell_set(100 + mc_self() % 2, 0); st.pop_back(); if (st.empty()) mine = nullptr; break;
			}
			REQUIRE(this_scheduler() == (mine ? mine : &scheduler_t::g_scheduler), mine ? "a nested local scheduler changed the scheduler of the thread" : "a thread is still bound to a scheduler that is gone");
			if (mine) { bool ran = false; go [&]() -> future_t<> { scheduler_t* s = librf_current_scheduler(); REQUIRE(s == mine, "launched on another scheduler"); ran = true; }; drain(); REQUIRE(ran, "the coroutine did not run"); }
		}
		while (!st.empty()) { if (st.size() == 1) mc_cell_set(100 + mc_self() % 2, 0); st.pop_back(); }
		REQUIRE(this_scheduler() == &scheduler_t::g_scheduler, "a thread is still bound to a scheduler that is gone");
	};
	int a = thr(body), b = thr(body); join_all(a, b);
}
MC_REG("C26", "binding-3", binding, 3, 1, 2, 0) MC_REG("C26", "binding-5", binding, 5, 0, 1, 0)
// a thread bound to a scheduler that exists already; another thread keeps its own
static void given(int k)
{
	Sched* s; { s = new Sched; } REQUIRE(this_scheduler() == s, "the first scheduler is bound to its thread");
	int a = thr([&, k] {
		std::unique_ptr<local_scheduler_t> first; scheduler_t* mine = nullptr; if (k == 1) { first = std::make_unique<local_scheduler_t>(); mine = this_scheduler(); }
		{ local_scheduler_t ls(*s); REQUIRE(this_scheduler() == (k == 1 ? mine : s), "the scheduler of the thread"); local_scheduler_t in; REQUIRE(this_scheduler() == (k == 1 ? mine : s), "a nested local scheduler changed the scheduler of the thread");
		  int n = 0; if (k == 0) { go [&]() -> future_t<> { scheduler_t* c = librf_current_scheduler(); REQUIRE(c == s, "launched on another scheduler"); co_await yield(); ++n; }; drain(); REQUIRE(n == 1, "the coroutine did not run"); } }
		if (k == 1) { REQUIRE(this_scheduler() == mine, "the scheduler of the thread"); first.reset(); REQUIRE(this_scheduler() == &scheduler_t::g_scheduler, "a thread is still bound to a scheduler that is gone"); } });
	mc_join(a); REQUIRE(this_scheduler() == s, "the scheduler of another thread changed"); delete s; REQUIRE(this_scheduler() == &scheduler_t::g_scheduler, "a thread is still bound to a scheduler that is gone");
}
MC_REG("C26", "given", given, 0, 2, 3, 0) MC_REG("C26", "given-nested", given, 1, 2, 3, 0)
// deep chains, long lists
static future_t<int> down(int n, Me& me, int y) { LOOK(me); if (n == 0) { if (y & 1) co_await yield(); if (y & 2) { me.cur = 1 - me.cur; co_await via(H->s[me.cur]); } LOOK(me); co_return 0; } int r = co_await down(n - 1, me, y); LOOK(me); co_return r + 1; }
static future_t<> down_root(int n, Me* me, int y) { LOOK(*me); int r = co_await down(n, *me, y); REQUIRE(r == n, "depth %d", r); LOOK(*me); co_await yield(); LOOK(*me); H->done.fetch_add(1); }
static void deep(int n)
{
	Hub h; H = &h; int y = mc_choose(4), many = n < 0 ? -n : 1, d = n < 0 ? 2 : n; std::vector<int> t; std::vector<std::unique_ptr<Me>> me(2 * many);
	auto body = [&](int k) { local_scheduler_t ls; h.s[k] = this_scheduler(); h.tid[k] = mc_self(); h.up.fetch_add(1); while (h.up.load() < 2) mc_point(); for (int i = 0; i < many; ++i) { auto* m = new Me { i, k }; me[2 * i + k].reset(m); m->task = go down_root(d, m, n < 0 ? (y + i) & 3 : y); } while (h.done.load() < 2 * many || !this_scheduler()->empty()) this_scheduler()->run_one_batch(); h.out.fetch_add(1); while (h.out.load() < 2) mc_point(); };
	for (int k = 0; k < 2; ++k) t.push_back(thr([&, k] { body(k); })); for (int i : t) mc_join(i); H = nullptr;
}
MC_REG("C26", "deep-100", deep, 100, 0, 1, MCF_LONG) MC_REG("C26", "crowd-40", deep, -40, 0, 0, MCF_LONG)
