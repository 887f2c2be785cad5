#include "hx.h"
#include "endure.h"
#include <functional>
#include <memory>
#include <optional>
enum { RUNS = 10, ALIVE = 30, RUNNING = 50, TRUES = 70 };
// a callback that records itself; what it does besides is up to the scenario
struct Cb
{
	int id; std::function<void()>* act; Probe p;
	Cb(int i, std::function<void()>* a = nullptr) : id(i), act(a), p(i) { }
	void operator()()
	{
		int i = id; auto* a = act; REQUIRE(p.magic == Probe::MAGIC, "a destroyed callback is invoked");
		REQUIRE(mc_cell_add(RUNS + i, 1) == 1, "callback %d was invoked twice", i); mc_cell_set(RUNNING + i, 1); mc_point();
		if (a && *a) (*a)();
		mc_cell_set(RUNNING + i, 0);
	}
};
using CB = stop_callback<Cb>;
static void dead(int i, bool inside = false) { REQUIRE(inside || mc_cell_get(RUNNING + i) == 0, "the destructor of callback %d returned while it was running on another thread", i); mc_cell_set(ALIVE + i, 2); }
// ---- every sequence of operations on a few objects, against a reference
struct MS_ { bool req = false; int src = 0; };
struct World
{
	enum { NS = 2, NT = 2, NC = 2 };
	std::optional<stop_source> s[NS]; std::optional<stop_token> t[NT]; std::unique_ptr<CB> c[NC];
	MS_* ms[NS] = {}; MS_* mt[NT] = {}; MS_* mc[NC] = {}; int id[NC] = {}; int expect[16] = {}; int nid = 0; std::vector<std::unique_ptr<MS_>> all; std::function<void()> act[NC]; int mode = 0;
	// reference
	MS_* fresh() { all.push_back(std::make_unique<MS_>()); all.back()->src = 1; return all.back().get(); }
	void drop_s(int i) { if (ms[i]) ms[i]->src--; ms[i] = nullptr; }
	void verify()
	{
		for (int i = 0; i < NS; ++i) if (s[i]) { REQUIRE(s[i]->stop_possible() == (ms[i] != nullptr), "stop_possible() of a source is wrong"); REQUIRE(s[i]->stop_requested() == (ms[i] && ms[i]->req), "stop_requested() of a source is wrong"); }
		for (int i = 0; i < NT; ++i) if (t[i]) { REQUIRE(t[i]->stop_requested() == (mt[i] && mt[i]->req), "stop_requested() of a token is wrong"); REQUIRE(t[i]->stop_possible() == (mt[i] && (mt[i]->req || mt[i]->src > 0)), "stop_possible() of a token is wrong"); }
		for (int i = 0; i < NS; ++i) for (int k = 0; k < NS; ++k) if (s[i] && s[k]) REQUIRE((*s[i] == *s[k]) == (ms[i] == ms[k]) && (*s[i] != *s[k]) != (ms[i] == ms[k]), "comparison of sources is wrong");
		for (int i = 0; i < NT; ++i) for (int k = 0; k < NT; ++k) if (t[i] && t[k]) REQUIRE((*t[i] == *t[k]) == (mt[i] == mt[k]), "comparison of tokens is wrong");
		for (int i = 0; i < nid; ++i) REQUIRE(mc_cell_get(RUNS + i) == expect[i], "callback %d was invoked %d times instead of %d", i, (int)mc_cell_get(RUNS + i), expect[i]);
	}
	void request(int i)
	{
		bool want = ms[i] && !ms[i]->req;
		if (want) { ms[i]->req = true; for (int k = 0; k < NC; ++k) if (c[k] && mc[k] == ms[i] && !expect[id[k]]) expect[id[k]] = 1; }
		REQUIRE(s[i]->request_stop() == want, "request_stop() returned %d", !want);
	}
	void reg(int k, int ti, bool move)
	{
		c[k].reset(); id[k] = nid; MS_* m = mt[ti]; bool gone = m && !m->req && m->src == 0; if (m && m->req) expect[nid] = 1; nid++;
		bool taken = m && !m->req && !gone;
		if (move) { c[k] = std::make_unique<CB>(std::move(*t[ti]), Cb(id[k], &act[k])); if (taken) mt[ti] = nullptr; }
		else c[k] = std::make_unique<CB>(*t[ti], Cb(id[k], &act[k]));
		mc[k] = gone ? nullptr : m;
	}
	bool step(int op)
	{
		int a = op % 2, b = (op / 2) % 2; op /= 4;
		switch (op)
		{
		case 0: if (b) { if (s[a]) drop_s(a); s[a].emplace(); ms[a] = fresh(); } else { if (!s[a]) return false; drop_s(a); s[a].reset(); } break;
		case 1: if (b) { if (!s[!a]) return false; if (s[a]) { *s[a] = *s[!a]; if (ms[!a]) ms[!a]->src++; drop_s(a); ms[a] = ms[!a]; } else { s[a].emplace(*s[!a]); ms[a] = ms[!a]; if (ms[a]) ms[a]->src++; } } else { if (!s[!a]) return false; if (s[a]) { *s[a] = std::move(*s[!a]); drop_s(a); } else s[a].emplace(std::move(*s[!a])); ms[a] = ms[!a]; ms[!a] = nullptr; } break;
		case 2: if (!s[a]) return false; if (b) request(a); else { s[a]->make_sure_possible(); if (!ms[a]) ms[a] = fresh(); } break;
		case 3: if (!s[b]) return false; if (t[a]) *t[a] = s[b]->get_token(); else t[a].emplace(s[b]->get_token()); mt[a] = ms[b]; break;
		case 4: if (b) { if (!t[!a]) return false; if (t[a]) *t[a] = *t[!a]; else t[a].emplace(*t[!a]); mt[a] = mt[!a]; } else { if (!t[!a]) return false; if (t[a]) *t[a] = std::move(*t[!a]); else t[a].emplace(std::move(*t[!a])); mt[a] = mt[!a]; mt[!a] = nullptr; } break;
		case 5: if (!t[a]) return false; if (b) { t[a].reset(); mt[a] = nullptr; } else { if (!t[!a]) return false; t[a]->swap(*t[!a]); std::swap(mt[0], mt[1]); } break;
		case 6: if (!t[b]) return false; reg(a, b, false); break;
		case 7: if (!t[b]) return false; reg(a, b, true); break;
		case 8: if (!c[a]) return false; if (b) return false; c[a].reset(); mc[a] = nullptr; break;
		default: return false;
		}
		verify(); return true;
	}
	enum { OPS = 36 };
	~World() { for (auto& x : c) x.reset(); }
};
// depth operations from one of a few starting points
static void sequences(int arg)
{
	{
		int depth = arg % 10, start = arg / 10; World w;
		if (start >= 1) { w.step(2); w.step(12 + 0); }	// a source and a token
		if (start >= 2) { w.step(24); w.step(12 + 1); w.step(24 + 1); }	// two callbacks, two tokens
		if (start >= 3) w.step(4 + 1 + 2);	// the source is shared
		w.verify();
		for (int i = 0; i < depth; ++i) { static const int LIVE[] = { 0,1,2,3, 4,5,6,7, 8,9,10,11, 12,13,14,15, 16,17,18,19, 20,21,22,23, 24,25,26,27, 28,29,30,31, 32,33 }; if (!w.step(LIVE[mc_choose(34)])) return; }
	}
	Probe::check("callbacks");
}
MC_REG("C22", "sequences-empty-4", sequences, 4, 0, 0, 0) MC_REG("C22", "sequences-token-3", sequences, 13, 0, 0, 0) MC_REG("C22", "sequences-callbacks-3", sequences, 23, 0, 0, 0) MC_REG("C22", "sequences-shared-3", sequences, 33, 0, 0, 0)
MC_REG("C22", "sequences-token-4", sequences, 14, 0, 0, MCF_THOROUGH) MC_REG("C22", "sequences-callbacks-4", sequences, 24, 0, 0, 0) MC_REG("C22", "sequences-shared-4", sequences, 34, 0, 0, MCF_THOROUGH) MC_REG("C22", "sequences-empty-5", sequences, 5, 0, 0, MCF_THOROUGH)
// what a callback may do itself
static void inside(int n)
{
	{
		std::optional<stop_source> s; s.emplace(); std::optional<stop_source> keep; std::unique_ptr<CB> c[4]; std::function<void()> act[4]; int what = mc_choose(9), who = mc_choose(n), other = n > 1 ? mc_choose(n) : 0; bool moved = mc_choose(2); int want[5]; for (int i = 0; i < 5; ++i) want[i] = i < n;
		for (int i = 0; i < n; ++i) { stop_token t = s->get_token(); if (moved) c[i] = std::make_unique<CB>(std::move(t), Cb(i, &act[i])); else c[i] = std::make_unique<CB>(t, Cb(i, &act[i])); }
		std::optional<stop_token> tk { s->get_token() }; bool inner = true; bool spare = false; int order[4], no = 0;
		for (int i = 0; i < n; ++i) act[i] = [&, i] { order[no++] = i; if (i != who) return; switch (what) {
			case 0: break;
			case 1: c[who].reset(); break;
			case 2: if (other != who) { spare = mc_cell_get(RUNS + other) == 0; if (spare) want[other] = 0; } c[other].reset(); break;
			case 3: inner = s->request_stop(); REQUIRE(!inner, "request_stop() inside a callback returned true"); break;
			case 4: c[3] = std::make_unique<CB>(*tk, Cb(4)); want[4] = 1; REQUIRE(mc_cell_get(RUNS + 4) == 1, "a callback registered inside a callback was not invoked at once"); break;
			case 5: tk.reset(); break;
			case 6: REQUIRE(s->stop_requested() && tk->stop_requested() && tk->stop_possible(), "the request is not seen inside a callback"); break;
			case 7: for (int k = 0; k < n; ++k) { if (k != who && mc_cell_get(RUNS + k) == 0) want[k] = 0; c[k].reset(); } break;
			case 8: { CB tmp(*tk, Cb(4)); want[4] = 1; keep = *s; } break;
			} };
		REQUIRE(s->request_stop(), "the first request_stop() returned false"); REQUIRE(!s->request_stop(), "the second request_stop() returned true");
		for (int i = 0; i < 5; ++i) REQUIRE(mc_cell_get(RUNS + i) == want[i], "callback %d was invoked %d times instead of %d", i, (int)mc_cell_get(RUNS + i), want[i]);
		if (mc_choose(2)) s.reset();
		for (auto& x : c) x.reset();
		if (tk && (s || keep)) REQUIRE(tk->stop_requested(), "the request is forgotten");
	}
	Probe::check("callbacks");
}
MC_REG("C22", "inside-1", inside, 1, 0, 0, 0) MC_REG("C22", "inside-2", inside, 2, 0, 0, 0) MC_REG("C22", "inside-3", inside, 3, 0, 0, 0)
// ---- threads
static bool ask(stop_source& s) { bool r = s.request_stop(); if (r) REQUIRE(mc_cell_add(TRUES, 1) == 1, "two request_stop() calls returned true"); REQUIRE(s.stop_requested(), "stop_requested() is false after request_stop()"); return r; }
// requesters; n callbacks stand before
static void requests(int arg)
{
	{
		int nt = arg / 10, nc = arg % 10; stop_source s; std::vector<std::unique_ptr<CB>> c; for (int i = 0; i < nc; ++i) c.push_back(std::make_unique<CB>(s.get_token(), Cb(i)));
		std::vector<int> t; for (int i = 0; i < nt; ++i) t.push_back(thr([&] { stop_source mine(s); ask(mine); })); for (int x : t) mc_join(x);
		REQUIRE(mc_cell_get(TRUES) == 1, "%d request_stop() calls returned true", (int)mc_cell_get(TRUES)); for (int i = 0; i < nc; ++i) REQUIRE(mc_cell_get(RUNS + i) == 1, "callback %d was never invoked", i);
	}
	Probe::check("callbacks");
}
MC_REG("C22", "request-2-0", requests, 20, 3, 9, 0) MC_REG("C22", "request-2-1", requests, 21, 3, 6, 0) MC_REG("C22", "request-2-2", requests, 22, 3, 5, 0) MC_REG("C22", "request-3-1", requests, 31, 2, 3, 0)
// one requests, another registers and deregisters, perhaps a third too
static void race(int arg)
{
	{
		int h1 = arg % 10, h2 = arg / 10 % 10; bool two = arg >= 100; stop_source s; std::atomic<int> fin { 0 }; std::vector<std::unique_ptr<CB>> kept;
		auto reg = [&](int id, int how) { stop_source mine(s); stop_token t = mine.get_token(); auto c = how & 2 ? std::make_unique<CB>(std::move(t), Cb(id)) : std::make_unique<CB>(t, Cb(id)); if (how & 1) { c.reset(); dead(id); int runs = (int)mc_cell_get(RUNS + id); mc_point(); REQUIRE(runs == mc_cell_get(RUNS + id), "callback %d ran after its destruction", id); } else kept[id] = std::move(c); };
		kept.resize(2);
		int a = thr([&] { reg(0, h1); }), b = thr([&] { ask(s); }), c = two ? thr([&] { reg(1, h2); }) : 0;
		join_all(a, b); if (two) mc_join(c);
		REQUIRE(mc_cell_get(TRUES) == 1, "request_stop() returned false"); if (!(h1 & 1)) REQUIRE(mc_cell_get(RUNS + 0) == 1, "callback 0 was never invoked"); if (two && !(h2 & 1)) REQUIRE(mc_cell_get(RUNS + 1) == 1, "callback 1 was never invoked");
	}
	Probe::check("callbacks");
}
MC_REG("C22", "race-keep", race, 0, 4, 9, 0) MC_REG("C22", "race-drop", race, 1, 4, 9, 0) MC_REG("C22", "race-move-keep", race, 2, 4, 9, 0) MC_REG("C22", "race-move-drop", race, 3, 4, 9, 0)
MC_REG("C22", "race2-keep-keep", race, 100, 3, 4, 0) MC_REG("C22", "race2-drop-keep", race, 101, 3, 4, 0) MC_REG("C22", "race2-drop-drop", race, 111, 3, 4, 0) MC_REG("C22", "race2-mdrop-drop", race, 113, 3, 4, 0) MC_REG("C22", "race2-mdrop-mkeep", race, 123, 3, 4, 0)
// callbacks that stand before are taken away by another thread while they run; one of them takes the others away from inside
static void taken(int arg)
{
	{
		int n = 1 + arg % 10, in = arg / 10; std::optional<stop_source> s; s.emplace(); std::unique_ptr<CB> c[4]; std::function<void()> act[4]; int want[4] = { -1, -1, -1, -1 };
		for (int i = 0; i < n; ++i) c[i] = std::make_unique<CB>(s->get_token(), Cb(i, &act[i]));
		if (in == 1) act[n - 1] = [&] { c[n - 1].reset(); };	// itself (the other thread takes the rest)
		if (in == 2) act[n - 1] = [&] { mc_point(); mc_point(); };
		if (in == 3) act[0] = [&] { for (int i = 1; i < n; ++i) { if (!mc_cell_get(RUNS + i)) want[i] = 0; c[i].reset(); } };	// the first takes the others, which have been called or not
		if (in == 4) act[n - 1] = [&] { if (n > 1) { if (!mc_cell_get(RUNS + 0)) want[0] = 0; c[0].reset(); } };
		if (in == 5) act[0] = [&] { CB tmp(s->get_token(), Cb(5)); };
		if (in == 6) act[0] = [&] { { CB tmp(s->get_token(), Cb(5)); } for (int i = 1; i < n; ++i) { if (!mc_cell_get(RUNS + i)) want[i] = 0; c[i].reset(); } s->request_stop(); };
		int b0 = in == 4 ? 1 : 0, b1 = in == 3 || in == 6 ? 1 : in == 1 ? n - 1 : n;
		stop_token tk = s->get_token(); bool lone = mc_choose(2);	// the requester gives its source up right afterwards
		int a = thr([&] { stop_source mine(*s); ask(mine); }), b = thr([&] { for (int i = b0; i < b1; ++i) { c[i].reset(); dead(i); } });
		if (lone) { s.reset(); }
		join_all(a, b);
		REQUIRE(mc_cell_get(TRUES) == 1, "request_stop() returned false"); REQUIRE(tk.stop_requested() && tk.stop_possible(), "the request is forgotten"); if (in == 1) REQUIRE(mc_cell_get(RUNS + n - 1) == 1, "a callback was never invoked"); for (int i = 0; i < n; ++i) if (want[i] == 0) REQUIRE(mc_cell_get(RUNS + i) == 0, "a callback ran after its destruction");
		for (auto& x : c) x.reset();
	}
	Probe::check("callbacks");
}
MC_REG("C22", "taken-1", taken, 0, 3, 6, 0) MC_REG("C22", "taken-2", taken, 1, 3, 5, 0) MC_REG("C22", "taken-1-slow", taken, 20, 3, 6, 0) MC_REG("C22", "taken-2-self", taken, 11, 3, 5, 0) MC_REG("C22", "taken-3-self", taken, 12, 3, 5, 0)
MC_REG("C22", "taken-2-by-0", taken, 31, 3, 5, 0) MC_REG("C22", "taken-3-by-0", taken, 32, 3, 4, 0) MC_REG("C22", "taken-2-by-last", taken, 41, 3, 5, 0) MC_REG("C22", "taken-3-by-last", taken, 42, 3, 4, 0) MC_REG("C22", "taken-1-nested", taken, 50, 3, 5, 0) MC_REG("C22", "taken-2-nested-by-0", taken, 61, 3, 5, 0)
// hundreds of callbacks, some taken away in various orders, before, inside and after the request
static void many(int n)
{
	{
		std::optional<stop_source> s; s.emplace(); int order = mc_choose(4), when = mc_choose(4), who = mc_choose(3); 
		auto at = [&](int k) { return order == 0 ? k : order == 1 ? n - 1 - k : order == 2 ? (k & 1 ? k / 2 : n - 1 - k / 2) : (int)((k * 7919ll) % n); };
		using CM = stop_callback<std::function<void()>>; std::vector<std::unique_ptr<CM>> m(n); std::vector<int> runs(n, 0), want(n, 1); int cnt = 0;
		int killer = who == 0 ? 0 : who == 1 ? n - 1 : n / 2;
		auto kill = [&](int inside) { for (int k = 0; k < n / 2; ++k) { int i = at(k); if (!m[i]) continue; if (i == killer && inside) continue; if (!runs[i]) want[i] = 0; m[i].reset(); } };
		for (int i = 0; i < n; ++i) { stop_token t = s->get_token(); auto f = [&, i] { runs[i]++; cnt++; if (when == 1 && i == killer) kill(1); }; if (i & 1) m[i] = std::make_unique<CM>(std::move(t), std::function<void()>(f)); else m[i] = std::make_unique<CM>(t, std::function<void()>(f)); }
		if (when == 0) kill(0);
		REQUIRE(s->request_stop() && !s->request_stop(), "request_stop() is wrong"); if (when == 2) s.reset(); if (when == 3) kill(0);
		for (int i = 0; i < n; ++i) { REQUIRE(runs[i] == want[i], "callback %d of %d was invoked %d times instead of %d", i, n, runs[i], want[i]); }
		for (int k = 0; k < n; ++k) m[at(k)].reset();
		int sum = 0; for (int r : want) sum += r; REQUIRE(cnt == sum, "a callback was invoked twice");
	}
}
MC_REG("C22", "many-40", many, 40, 0, 0, MCF_LONG) MC_REG("C22", "many-300", many, 300, 0, 0, MCF_LONG)
// hundreds of sources, tokens and callbacks of one state: counts do not wrap
static void copies(int n)
{
	std::vector<stop_source> s; std::vector<stop_token> t; s.emplace_back(); int del = mc_choose(2), ask = mc_choose(2);
	for (int i = 1; i < n; ++i) { s.push_back(s[i / 2]); t.push_back(s[i].get_token()); } stop_token last = t[n / 3];
	if (del) t.clear(); for (int i = n - 1; i > 0; --i) { s.pop_back(); REQUIRE(last.stop_possible(), "a source is forgotten after %d were dropped", n - i); }
	if (ask) REQUIRE(s[0].request_stop(), "request_stop() returned false"); s.clear(); REQUIRE(last.stop_possible() == (bool)ask && last.stop_requested() == (bool)ask, "the token is wrong when all sources are gone");
}
MC_REG("C22", "copies-300", copies, 300, 0, 0, MCF_LONG) MC_REG("C22", "copies-70000", copies, 70000, 0, 0, MCF_LONG)
// two requesters while the state is locked by one who registers or deregisters: only one of them wins
static void two_ask(int arg)
{
	{
		stop_source s; auto c = std::make_unique<CB>(s.get_token(), Cb(0)), d = arg == 2 ? std::make_unique<CB>(s.get_token(), Cb(1)) : nullptr; std::unique_ptr<CB> e;
		int a = thr([&] { if (arg == 0) e = std::make_unique<CB>(s.get_token(), Cb(2)); else { c.reset(); dead(0); } }), b = thr([&] { ask(s); }), f = thr([&] { ask(s); }); join_all(a, b); mc_join(f);
		REQUIRE(mc_cell_get(TRUES) == 1, "%d request_stop() calls returned true", (int)mc_cell_get(TRUES)); for (int i = 0; i < 3; ++i) if (i == 0 ? arg == 0 : i == 1 ? arg == 2 : arg == 0) REQUIRE(mc_cell_get(RUNS + i) == 1, "callback %d was never invoked", i);
	}
	Probe::check("callbacks");
}
MC_REG("C22", "two-ask-register", two_ask, 0, 5, 9, 0) MC_REG("C22", "two-ask-deregister", two_ask, 1, 5, 9, 0) MC_REG("C22", "two-ask-neighbour", two_ask, 2, 5, 9, 0)
// lifetime: threads share the state through whatever they hold and drop it in any order
static void life(int arg)
{
	{
		std::optional<stop_source> s0; s0.emplace(); stop_source src(*s0); stop_token tok = s0->get_token(); int x = mc_choose(2); if (x) s0.reset();
		static const char* SCR[][3] = { { "sS", "tT" }, { "tTtT", "tT" }, { "S", "T" }, { "ST", "tT" }, { "cC", "cC" }, { "cC", "SsT" }, { "cCT", "S" }, { "cSC", "T" }, { "cC", "rST" }, { "csCS", "T", "tT" }, { "cC", "cC", "S" }, { "mC", "T", "S" } };
		std::optional<stop_source> gs { std::move(src) }; std::optional<stop_token> gt { std::move(tok) }; s0.reset();
		std::vector<int> th; int id = 0;
		for (int k = 0; k < 3; ++k) if (const char* p = SCR[arg][k])
		{
			// every thread has its own copies
			auto ms = std::make_shared<std::optional<stop_source>>(*gs); auto mt = std::make_shared<std::optional<stop_token>>(*gt); int base = id; id += 4;
			th.push_back(thr([p, ms, mt, base]() mutable {
				std::optional<stop_source> s = std::move(*ms), s2; std::optional<stop_token> t = std::move(*mt), t2; ms.reset(); mt.reset(); std::unique_ptr<CB> c; int n = base;
				for (const char* q = p; *q; ++q) switch (*q) {
					case 's': s2.emplace(*s); break; case 'S': if (s2) s2.reset(); else s.reset(); break; case 't': t2.emplace(*t); break; case 'T': if (t2) t2.reset(); else t.reset(); break;
					case 'c': c = std::make_unique<CB>(*t, Cb(n)); break; case 'm': c = std::make_unique<CB>(std::move(*t), Cb(n)); break; case 'C': c.reset(); dead(n); ++n; break; case 'r': s->request_stop(); break; }
			}));
		}
		gs.reset(); if (mc_choose(2)) gt.reset();
		for (int i : th) mc_join(i);
		if (gt) { bool r = gt->stop_requested(); REQUIRE(r == (arg == 8), "stop_requested() is %d", r); REQUIRE(gt->stop_possible() == r, "stop_possible() is wrong"); }
	}
	Probe::check("callbacks");
}
#define LF(k, pq, pt) MC_REG("C22", "life-" #k, life, k, pq, pt, 0)
LF(0, 4, 6) LF(1, 4, 6) LF(2, 9, 9) LF(3, 4, 9) LF(4, 4, 6) LF(5, 4, 6) LF(6, 4, 7) LF(7, 4, 7) LF(8, 4, 6) LF(9, 3, 4) LF(10, 3, 4) LF(11, 3, 4)
// what a thread that only looks sees
static void look(int arg)
{
	{
		std::optional<stop_source> s; s.emplace(); stop_token t = s->get_token(); std::unique_ptr<CB> c = arg ? std::make_unique<CB>(t, Cb(0)) : nullptr;
		int a = thr([&] { ask(*s); s.reset(); }), b = thr([&] { bool r1 = t.stop_requested(), p1 = t.stop_possible(), r2 = t.stop_requested(), p2 = t.stop_possible(); REQUIRE(r2 >= r1 && p1 && p2, "what a token says went back"); if (arg && r1 == 0 && mc_cell_get(RUNS) == 1) REQUIRE(t.stop_requested(), "a callback ran although no stop is requested"); if (arg == 2) { stop_source none { nostopstate }; none.make_sure_possible(); REQUIRE(none.stop_possible() && !none.stop_requested(), "a new source is wrong"); } });
		join_all(a, b); REQUIRE(t.stop_requested() && t.stop_possible(), "the request is forgotten");
	}
	Probe::check("callbacks");
}
MC_REG("C22", "look", look, 0, 9, 9, 0) MC_REG("C22", "look-callback", look, 1, 5, 9, 0) MC_REG("C22", "look-new", look, 2, 5, 9, 0)
// the state of a source is made on demand, by several threads at once
static void demand(int n)
{
	{
		task_t* task = new task_t; std::vector<int> t; std::vector<std::optional<stop_token>> tk(n); for (int i = 0; i < n; ++i) t.push_back(thr([&, i] { tk[i].emplace(task->get_stop_token()); REQUIRE(tk[i]->stop_possible(), "the token of a task cannot be stopped"); })); for (int x : t) mc_join(x);
		for (int i = 1; i < n; ++i) REQUIRE(*tk[0] == *tk[i], "a task has two stop states"); bool r = task->request_stop(); REQUIRE(r && !task->request_stop_if_possible(), "request_stop() is wrong"); for (auto& x : tk) REQUIRE(x->stop_requested(), "the request is not seen"); delete task; for (auto& x : tk) REQUIRE(x->stop_requested(), "the request is forgotten");
	}
}
MC_REG("C22", "demand-2", demand, 2, 9, 9, 0) MC_REG("C22", "demand-3", demand, 3, 3, 9, 0)
// a callback that runs for long: its destructor, called from another thread, goes on waiting
static void runs_long(int)
{
	stop_source src; std::atomic<int> in { 0 }, leave { 0 }; std::atomic<bool> over { false };
	auto body = [&] { in.store(1); while (!leave.load()) mc_point(); for (int i = 0; i < 3; ++i) mc_point(); REQUIRE(!over.load(), "the callback still runs after its destruction"); };
	auto cb = std::make_unique<stop_callback<decltype(body)>>(src.get_token(), body);
	int a = thr([&] { REQUIRE(src.request_stop(), "the first request was refused"); });
	int b = thr([&] { while (!in.load()) mc_point(); leave.store(1); mc_spin(24000); cb.reset(); over.store(true); });
	join_all(a, b); REQUIRE(over.load(), "the destructor did not return");
}
MC_REG("C22", "runs-long", runs_long, 0, 0, 0, MCF_LONG)
MC_REG("C22", "again-66000", endure::callbacks, 66000, 0, 0, MCF_LONG)
MC_REG("C22", "wide-70000", endure::wide_callbacks, 70000, 0, 0, MCF_LONG)
