#include "hx.h"
#include <string>
#include <vector>
enum { STEP = 10, ALIVEB = 20, ENDED = 30 };
// one value type after the other
template<class T> struct V { static T make(int v) { return T(v); } static int get(const T& x) { REQUIRE(x.magic == Probe::MAGIC, "a destroyed value is yielded"); return x.v; } };
template<> struct V<int> { static int make(int v) { return v; } static int get(const int& x) { return x; } };
template<> struct V<std::string> { static std::string make(int v) { return std::string(30, (char)('a' + v)); } static int get(const std::string& x) { REQUIRE(x.size() == 30, "a string of %d characters", (int)x.size()); return x[29] - 'a'; } };
template<> struct V<std::nullptr_t> { static std::nullptr_t make(int) { return nullptr; } static int get(const std::nullptr_t&) { return 0; } };
// the body's locals and where it is
struct Here { int id; Probe p { 2 }; explicit Here(int id) : id(id) { mc_cell_add(ALIVEB + id, 1); } Here(const Here&) = delete; ~Here() { mc_cell_add(ALIVEB + id, -1); } };
static void at(int id, int n) { mc_cell_set(STEP + id, n); }
// shapes: what is yielded (a temporary, a local, a member of a container), nested blocks, loops, recursion into another generator
enum { TEMP, LOCAL, LOOP, VECTOR, NESTED, SHAPES };
template<class T> static generator_t<T> gen(int id, Probe arg, int shape, int n)
{
	Here h(id); at(id, 1); int s = 1;
	switch (shape)
	{
	case TEMP: for (int i = 0; i < n; ++i) { co_yield V<T>::make(i); at(id, ++s); } break;
	case LOCAL: { for (int i = 0; i < n; ++i) { Here h2(id); T x = V<T>::make(i); co_yield x; at(id, ++s); } break; }
	case LOOP: { int i = 0; while (true) { if (i == n) break; { Here a(id); if (i % 2) { co_yield V<T>::make(i); at(id, ++s); } else { Here b(id); T x = V<T>::make(i); co_yield x; at(id, ++s); } } ++i; } break; }
	case VECTOR: { std::vector<T> v; v.reserve(4); for (int i = 0; i < n; ++i) v.push_back(V<T>::make(i)); for (auto& x : v) { co_yield x; at(id, ++s); } break; }
	case NESTED: { if (n == 0) break; auto in = gen<T>(id, Probe(1), n > 2 ? NESTED : LOOP, n - 1); int i = 0; for (auto& x : in) { if (i == n - 1) break; co_yield x; at(id, ++s); ++i; } co_yield V<T>::make(n - 1); at(id, ++s); break; }
	}
	REQUIRE(arg.magic == Probe::MAGIC, "a parameter is gone"); mc_cell_add(ENDED + id, 1);
	co_return V<T>::make(n);
}
static bool runs(int id) { return mc_cell_get(ALIVEB + id) > 0; }
template<class T> static int val(int v) { if constexpr (std::is_same_v<T, std::nullptr_t>) return 0; else return v; }
// ---- a range-for over everything, or the first k
template<class T> static void range(int n)
{
	int shape = mc_choose(SHAPES); int stop = mc_choose(n + 3);
	{
		auto g = gen<T>(0, Probe(5), shape, n); REQUIRE(mc_cell_get(STEP) == 0 && !runs(0), "the body runs before anything is asked for");
		int i = 0; bool broke = false;
		for (auto& x : g)
		{
			REQUIRE(i <= n, "more values than the body yields"); REQUIRE(V<T>::get(x) == val<T>(i), "value %d is %d", i, V<T>::get(x));
			if (shape != NESTED) REQUIRE(i == n || mc_cell_get(STEP) == i + 1, "the body is at step %d, at value %d", (int)mc_cell_get(STEP), i);
			REQUIRE(i == n || mc_cell_get(ENDED) == 0 || shape == NESTED, "the body runs ahead");
			if (i == stop) { broke = true; break; }
			++i;
		}
		if (!broke) { REQUIRE(i == (n ? n + 1 : 0), "%d values instead of %d", i, n ? n + 1 : 0); REQUIRE(!runs(0), "the body ended but its locals are alive"); REQUIRE(mc_cell_get(ENDED) >= 1, "the body did not run to its end"); }
	}
	REQUIRE(mc_cell_get(ALIVEB) == 0, "locals of the body are left"); Probe::check("values, locals or parameters");
}
#define RNG(T, nm) MC_REG("C25", "range-0-" nm, range<T>, 0, 0, 0, 0) MC_REG("C25", "range-1-" nm, range<T>, 1, 0, 0, 0) MC_REG("C25", "range-2-" nm, range<T>, 2, 0, 0, 0) MC_REG("C25", "range-4-" nm, range<T>, 4, 0, 0, 0)
RNG(int, "int") RNG(std::string, "string") RNG(Probe, "probe")
// without values
static generator_t<> vgen(int n, Probe arg) { Here h(0); for (int i = 0; i < n; ++i) { at(0, i + 1); co_yield_void; } at(0, n + 1); mc_cell_add(ENDED, 1); co_return_void; }
static void range_void(int n)
{
	int stop = mc_choose(n + 3);
	{
		auto g = vgen(n, Probe(5)); REQUIRE(mc_cell_get(STEP) == 0 && !runs(0), "the body runs before anything is asked for"); int i = 0; bool broke = false;
		for (auto it = g.begin(); it != g.end(); ++it) { REQUIRE(i <= n && mc_cell_get(STEP) == i + 1, "the body is at step %d, at value %d", (int)mc_cell_get(STEP), i); if (i == stop) { broke = true; break; } ++i; }
		if (!broke) { REQUIRE(i == (n ? n + 1 : 0), "%d steps instead of %d", i, n ? n + 1 : 0); REQUIRE(!runs(0) && mc_cell_get(ENDED) == 1, "the body did not run to its end"); }
	}
	REQUIRE(!runs(0), "locals of the body are left"); Probe::check("locals or parameters");
}
MC_REG("C25", "range-0-void", range_void, 0, 0, 0, 0) MC_REG("C25", "range-1-void", range_void, 1, 0, 0, 0) MC_REG("C25", "range-3-void", range_void, 3, 0, 0, 0)

// ---- sequences of operations on a few generators, against a reference
struct Ref { int id = -1, n = 0, pos = -2, gone = false; };	// pos: -2 not begun, i: at value i, n+1: ended
template<class T> static void history(int len)
{
	typedef generator_t<T> G; typedef typename G::iterator It;
	{
		std::optional<G> g[2]; std::optional<It> it[4]; Ref r[4]; int in[2] = { -1, -1 }, made = 0;
		auto valid = [&](int k) { REQUIRE(r[k].gone == !(r[k].id >= 0 && (in[0] == k || in[1] == k)), "test"); };
		auto drop = [&](int k) { if (k >= 0) { r[k].gone = true; it[k].reset(); } };
		auto look = [&](int k) {
			bool end = r[k].pos > r[k].n; REQUIRE((*it[k] == (in[0] == k ? *g[0] : *g[1]).end()) == end, end ? "the generator goes on after its end" : "the generator ends early, at %d", r[k].pos);
			if (!end) { REQUIRE(V<T>::get(**it[k]) == val<T>(r[k].pos), "value %d is %d", r[k].pos, V<T>::get(**it[k])); REQUIRE(it[k]->operator->() == &**it[k], "-> and * differ"); }
		};
		for (int s = 0; s < len; ++s)
		{
			auto can = [&](int op) { int i = op & 1; switch (op >> 1) {
				case 0: return made < 4; case 1: return in[i] >= 0 && r[in[i]].pos == -2; case 2: return in[i] >= 0 && it[in[i]].has_value() && r[in[i]].pos <= r[in[i]].n;
				case 3: return g[!i].has_value(); case 4: return g[i].has_value(); default: return g[0].has_value(); } };
			int ops[11], no = 0; for (int o = 0; o < 11; ++o) if (can(o)) ops[no++] = o;
			int op = ops[mc_choose(no)], i = op & 1;
			switch (op >> 1)
			{
			case 0: { int n = mc_choose(3), sh = mc_choose(3); drop(in[i]); in[i] = made++; r[in[i]].id = in[i]; r[in[i]].n = n; if (g[i]) *g[i] = gen<T>(in[i], Probe(5), sh, n); else g[i].emplace(gen<T>(in[i], Probe(5), sh, n)); } break;
			case 1: { int k = in[i]; it[k] = g[i]->begin(); r[k].pos = r[k].n ? 0 : r[k].n + 1; look(k); } break;
			case 2: { int k = in[i]; if (s & 1) ++*it[k]; else (*it[k])++; r[k].pos++; look(k); } break;
			case 3: drop(in[i]); if (g[i]) *g[i] = std::move(*g[!i]); else g[i].emplace(std::move(*g[!i])); in[i] = in[!i]; in[!i] = -1; break;
			case 4: drop(in[i]); in[i] = -1; g[i].reset(); break;
			case 5: { G& a = *g[0]; *g[0] = std::move(a); } break;	// to itself
			}
			for (int k = 0; k < made; ++k) { valid(k); bool alive = !r[k].gone && r[k].pos >= 0 && r[k].pos < r[k].n; REQUIRE(runs(k) == alive, alive ? "the locals of a body are gone" : "the locals of a body are left"); }
		}
	}
	for (int k = 0; k < 4; ++k) REQUIRE(!runs(k), "the locals of a body are left"); Probe::check("values, locals or parameters");
}
MC_REG("C25", "history-4-int", history<int>, 4, 0, 0, 0) MC_REG("C25", "history-4-probe", history<Probe>, 4, 0, 0, 0) MC_REG("C25", "history-5-string", history<std::string>, 5, 0, 0, 0) MC_REG("C25", "history-6-string", history<std::string>, 6, 0, 0, MCF_THOROUGH) MC_REG("C25", "history-7-int", history<int>, 7, 0, 0, MCF_THOROUGH)
// ---- launched on a scheduler: one step per round, to the end, whatever else runs
struct Held { Probe p { 7 }; std::string s = std::string(40, 'x'); bool ok() const { return p.magic == Probe::MAGIC && s[39] == 'x'; } };
struct Uses { const Held* h; explicit Uses(const Held* h) : h(h) {} Uses(Uses&& o) : h(o.h) {} ~Uses() { if (!h->ok()) mc_fail("the callable is destroyed before the generator it launched"); } };
template<class T> static generator_t<T> work(int id, const Held* held, Probe arg, int n)
{
	Here h(id); Uses u(held); REQUIRE(arg.v == 5, "another parameter");
	for (int i = 0; i < n; ++i) { at(id, i + 1); co_yield V<T>::make(i); }
	at(id, n + 1); mc_cell_add(ENDED + id, 1); co_return V<T>::make(n);
}
static future_t<> steps(int id, int n) { Here h(id); for (int i = 0; i < n; ++i) { at(id, i + 1); co_await yield(); } at(id, n + 1); mc_cell_add(ENDED + id, 1); }
template<class T> static void launched(int n)
{
	{
		local_scheduler_t ls; int k[3], how[3], late = mc_choose(3), sum = 0; Held out;
		for (int i = 0; i < n; ++i) { k[i] = mc_choose(4); how[i] = mc_choose(4); sum = std::max(sum, k[i]); }
		auto start = [&](int i) {
			int m = k[i];
			switch (how[i])
			{
			case 0: go work<T>(i, &out, Probe(5), m); break;
			case 1: go [c = Held(), i, m]() { return work<T>(i, &c, Probe(5), m); }; break;
			case 2: { auto g = work<T>(i, &out, Probe(5), m); auto h = std::move(g); go std::move(h); break; }
			case 3: go steps(i, m); break;
			}
		};
		for (int i = 0; i < n; ++i) if (i != n - 1 || late == 0) start(i);
		int off = 0;
		for (int r = 1; r <= sum + late + 3; ++r)
		{
			if (late && r == late + 1) { start(n - 1); off = late; }
			batches(1);
			for (int i = 0; i < n; ++i)
			{
				int round = r - (i == n - 1 ? (late ? late : 0) : 0); if (i == n - 1 && late && !off) round = 0;
				int want = std::min(std::max(round, 0), k[i] + 1);
				REQUIRE(mc_cell_get(STEP + i) == want, "generator %d is at step %d after %d rounds", i, (int)mc_cell_get(STEP + i), round);
				REQUIRE(mc_cell_get(ENDED + i) == (want == k[i] + 1), "generator %d ended %d times", i, (int)mc_cell_get(ENDED + i));
				if (want) REQUIRE(runs(i) == (want <= k[i]), "locals of generator %d", i);
			}
		}
		REQUIRE(this_scheduler()->empty(), "the scheduler is not empty although everything ended"); drain();
	}
	Probe::check("values, locals, parameters or callables");
}
MC_REG("C25", "launched-1-int", launched<int>, 1, 0, 0, 0) MC_REG("C25", "launched-2-int", launched<int>, 2, 0, 0, 0) MC_REG("C25", "launched-2-probe", launched<Probe>, 2, 0, 0, 0) MC_REG("C25", "launched-2-string", launched<std::string>, 2, 0, 0, 0) MC_REG("C25", "launched-3-int", launched<int>, 3, 0, 0, 0)
// launched from another thread
static void remote(int n)
{
	{
		Held out; std::atomic<scheduler_t*> sch { nullptr }; std::atomic<int> up { 0 };
		int a = thr([&] { local_scheduler_t ls; sch = this_scheduler(); up = 1; while (mc_cell_get(ENDED) + mc_cell_get(ENDED + 1) < 2 || !this_scheduler()->empty()) { this_scheduler()->run_one_batch(); if (up.load() == 3 && this_scheduler()->empty()) break; } });
		auto f = [&](int i) { while (up.load() < 1) mc_point(); if (i) *sch.load() + [c = Held(), n, i]() { return work<int>(i, &c, Probe(5), n); }; else *sch.load() + work<int>(i, &out, Probe(5), n); up.fetch_add(1); };
		int b = thr([&] { f(0); }), c = thr([&] { f(1); });
		join_all(b, c, a);
	}
	REQUIRE(mc_cell_get(ENDED) == 1 && mc_cell_get(ENDED + 1) == 1, "a launched generator did not run to its end, once"); REQUIRE(mc_cell_get(STEP) == n + 1 && mc_cell_get(STEP + 1) == n + 1, "steps");
	Probe::check("locals, parameters or callables");
}
MC_REG("C25", "remote-0", remote, 0, 2, 4, 0) MC_REG("C25", "remote-1", remote, 1, 2, 4, 0)
// thousands of values; chains of generators; many launched ones
static generator_t<int> count(int id, int n) { Here h(id); for (int i = 0; i < n; ++i) { co_yield i; at(id, i + 1); } mc_cell_add(ENDED + id, 1); co_return n; }
static generator_t<int> relay(int depth, int n) { Here h(0); if (depth == 0) { for (int i = 0; i < n; ++i) co_yield i; co_return n; } auto in = relay(depth - 1, n); int last = -1; for (const int& x : in) { if (x == n) { last = x; break; } co_yield x; } REQUIRE(last == n, "the last value was lost"); co_return n; }
static void longer(int n)
{
	{
		int stop = (int[]) { 0, 1, n / 2, n - 1, n, n + 1 }[mc_choose(6)], kind = mc_choose(3); int i = 0;
		if (kind < 2) { auto g = kind ? relay(30, n / 30) : count(0, n); int m = kind ? n / 30 : n; for (const int& x : g) { REQUIRE(x == i && i <= m, "value %d is %d", i, x); if (i == stop) break; ++i; } REQUIRE(i == (stop <= m ? stop : m + 1), "%d values", i); }
		else
		{
			local_scheduler_t ls; int m = 200; std::vector<int> fin(m, 0); int y = mc_choose(2); auto job = [&](int k) -> generator_t<int> { Here h(1); for (int q = 0; q < (y ? k % 5 : 3); ++q) co_yield q; fin[k]++; co_return 0; };
			for (int k = 0; k < m; ++k) go job(k); if (stop == 1) batches(2); drain(); for (int k = 0; k < m; ++k) REQUIRE(fin[k] == 1, "launched generator %d ended %d times", k, fin[k]);
		}
	}
	REQUIRE(mc_cell_get(ALIVEB) == 0 && mc_cell_get(ALIVEB + 1) == 0, "locals of the body are left"); Probe::check("locals");
}
MC_REG("C25", "long-100", longer, 100, 0, 0, MCF_LONG) MC_REG("C25", "long-5000", longer, 5000, 0, 0, MCF_LONG)
