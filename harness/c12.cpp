#include "hx.h"
#include "endure.h"
#include <mutex>
// the lock admits one holder; everything below is judged by owner cells outside the modelled memory
static void in(int k) { REQUIRE(mc_cell_add(k, 1) == 1, "two holders of lock %d", k); }
static void out(int k) { REQUIRE(mc_cell_add(k, -1) == 0, "lock %d was not held", k); }
// a critical section guarded by nothing but the lock: a plain read-modify-write
static int shared_count;
static void bump() { int v = shared_count; shared_count = v + 1; }
// ---- spinlock: programs "LU" per thread: L lock, U unlock, T try (keep if granted, then U)
struct Sp { const char* text; };
static const char* SP[] = { "LU|LU", "LULU|LU", "LU|LU|LU", "T|LU", "T|T", "TT|LU", "LU|T|LU", "T|T|T", "LULU|LULU", "LT|LU", "LULU|LULU|T" };
static void spin(int k)
{
	spinlock l; shared_count = 0; std::vector<std::string> th(1); for (const char* p = SP[k]; *p; ++p) if (*p == '|') th.emplace_back(); else th.back() += *p;
	std::vector<int> t; mc_cell_set(10, 0);
	for (auto& s : th) t.push_back(thr([&l, &s] {
		for (size_t i = 0; i < s.size(); ++i)
		{
			if (s[i] == 'L')
			{
				l.lock(); in(0); bump(); mc_cell_add(10, 1);
				if (i + 1 < s.size() && s[i + 1] == 'T') { REQUIRE(!l.try_lock(), "try_lock succeeded on a lock that is held"); ++i; out(0); l.unlock(); }
			}
			else if (s[i] == 'U') { out(0); l.unlock(); }
			else
			{
				if (l.try_lock()) { in(0); bump(); mc_cell_add(10, 1); out(0); l.unlock(); }
			}
		}
	}));
	for (int i : t) mc_join(i);
	REQUIRE(shared_count == mc_cell_get(10), "updates made under the lock were lost: %d of %d", shared_count, (int)mc_cell_get(10));
	REQUIRE(l.try_lock(), "the lock is held although everybody released it"); l.unlock();
}
#define SPI(name, k, pq, pt) MC_REG("C12", "spin-" name, spin, k, pq, pt, 0)
SPI("2", 0, 4, 8) SPI("2-again", 1, 4, 6) SPI("3", 2, 3, 5) SPI("try-vs-lock", 3, 4, 8) SPI("try-try", 4, 4, 8) SPI("2try-vs-lock", 5, 4, 8) SPI("try-in-3", 6, 3, 5) SPI("try-3", 7, 4, 6) SPI("2x2", 8, 4, 6) SPI("try-held", 9, 4, 6) SPI("2x2-try", 10, 2, 4)
// a spinlock's try_lock succeeds exactly when the lock is free: all sequences on one thread
static void spin_seq(int len)
{
	spinlock l; bool held = false;
	for (int i = 0; i < len; ++i) switch (mc_choose(3))
	{
	case 0: if (!held) { l.lock(); held = true; } break;
	case 1: { bool r = l.try_lock(); REQUIRE(r == !held, "try_lock returned %d on a %s lock", r, held ? "held" : "free"); held = true; break; }
	case 2: if (held) { l.unlock(); held = false; } break;
	}
}
MC_REG("C12", "spin-sequences", spin_seq, 6, 0, 0, 0)
// a long holder: the waiter goes through all its waiting phases (spinning, yielding, sleeping) and gets the lock
static void long_hold(int ms)
{
	spinlock l; std::atomic<int> got { 0 }; l.lock(); in(0);
	int t = thr([&] { l.lock(); in(0); got.store(1); out(0); l.unlock(); });
	for (int i = 0; i < 4; ++i) { mc_point(); mc_advance((int64_t)ms * MS); REQUIRE(got.load() == 0, "the lock was granted while it was held"); }
	out(0); l.unlock(); mc_join(t); REQUIRE(got.load() == 1, "the waiter never got the lock");
}
MC_REG("C12", "spin-long-hold", long_hold, 5, 2, 3, 0)
// ---- batch_lock_t over spinlocks, std::mutex, mutex_t-like reference lists, in any order
// a lock whose operation number `budget` throws
struct TLock
{
	static int budget; int held = 0;
	bool other = false;	// somebody else holds it; he lets it go once we wait for it
	void lock() { if (--budget == 0) throw 7; if (other) { other = false; held = 0; } REQUIRE(!held, "a lock is taken twice"); held = 1; }
	bool try_lock() { if (--budget == 0) throw 7; if (held) return false; held = 1; return true; }
	void unlock() noexcept { if (!held) mc_fail("a lock is released that is not held"); held = 0; }
};
int TLock::budget;
template<class L> struct Refs { std::vector<std::reference_wrapper<L>> v; int idx[3]; int n; };
template<class L> static Refs<L> refs(L* all, const char* l) { Refs<L> r; r.n = 0; for (; *l; ++l) { r.v.push_back(std::ref(all[*l - '0'])); r.idx[r.n++] = *l - '0'; } return r; }
template<class L> using RG = batch_lock_t<std::reference_wrapper<L>>;
// how: d destroy, u unlock by hand, m move-construct, a adopt, o move-assign over an empty one, y mutual use with a plain lock of the first only
template<class L> static void contender(L* all, const char* prog)
{
	char how = prog[0]; Refs<L> r = refs(all, prog + 1);
	auto enter = [&] { for (int i = 0; i < r.n; ++i) in(r.idx[i]); };
	auto leave = [&] { for (int i = 0; i < r.n; ++i) out(r.idx[i]); };
	if (how == 'p') { for (int i = 0; i < r.n; ++i) r.v[i].get().lock(); enter(); leave(); for (int i = 0; i < r.n; ++i) r.v[i].get().unlock(); return; }
	if (how == 't') { if (r.v[0].get().try_lock()) { in(r.idx[0]); out(r.idx[0]); r.v[0].get().unlock(); } return; }
	if (how == 's')
	{
		if (r.n == 2) { scoped_lock<L, L> g(r.v[0].get(), r.v[1].get()); enter(); leave(); }
		else { scoped_lock<L, L, L> g(r.v[0].get(), r.v[1].get(), r.v[2].get()); enter(); leave(); }
		return;
	}
	if (how == 'a') for (int i = 0; i < r.n; ++i) r.v[i].get().lock();
	std::optional<RG<L>> g;
	if (how == 'a') g.emplace(std::adopt_lock, r.v); else g.emplace(r.v);
	enter();
	if (how == 'm') { RG<L> g2(std::move(*g)); g.reset(); for (int i = 0; i < r.n; ++i) REQUIRE(!r.v[i].get().try_lock(), "moving the guard released a lock"); leave(); g2.unlock(); return; }
	leave();
	if (how == 'u') g->unlock();
}
template<class L> static void contend(const char* text)
{
	L all[3]; std::vector<std::string> th(1); for (const char* p = text; *p; ++p) if (*p == '|') th.emplace_back(); else th.back() += *p;
	std::vector<int> t; for (auto& s : th) t.push_back(thr([&all, &s] { contender<L>(all, s.c_str()); }));
	for (int i : t) mc_join(i);
	for (int i = 0; i < 3; ++i) { REQUIRE(all[i].try_lock(), "lock %d is held although everybody released it", i); all[i].unlock(); }
}
static const char* BT[] = { "d01|d01", "d01|u10", "m01|d10", "d012|u210", "d012|d10", "d0|d012", "p1|d012", "t1|d01|t0", "d01|d12|d20", "a01|u10", "s01|d10", "d012|d120|d201", "p2|d210|t1", "d|d01", "d012|s210" };
static void bspin(int k) { contend<spinlock>(BT[k]); }
static void bmutex(int k) { contend<std::mutex>(BT[k]); }
#define BS(name, k, pq, pt) MC_REG("C12", "batch-spin-" name, bspin, k, pq, pt, 0)
#define BM(name, k, pq, pt) MC_REG("C12", "batch-mutex-" name, bmutex, k, pq, pt, 0)
BS("same-order", 0, 3, 5) BS("crossed", 1, 3, 5) BS("moved", 2, 3, 5) BS("3-reversed", 3, 2, 4) BS("3-vs-2", 4, 2, 4) BS("1-vs-3", 5, 3, 5) BS("plain-vs-3", 6, 3, 5) BS("tries-vs-2", 7, 2, 3) BS("chain", 8, 2, 3) BS("adopted", 9, 0, 0)
BS("scoped-vs-batch", 10, 3, 5) BS("3x3-rotated", 11, 1, 2) BS("3-and-tries", 12, 2, 3) BS("none", 13, 2, 3) BS("scoped-3", 14, 2, 4)
BM("crossed", 1, 3, 5) BM("3-reversed", 3, 2, 4) BM("chain", 8, 2, 3) BM("3-vs-2", 4, 2, 4) BM("plain-vs-3", 6, 3, 5)
// some of the locks are held by somebody else: every subset, every order; nothing stays locked while it cannot have them all,
// and it gets them when they are released
static void subsets(int n)
{
	static const char* P[] = { "", "0", "01", "10", "012", "021", "102", "120", "201", "210" };
	int first[] = { 0, 1, 2, 4 }, cnt[] = { 1, 1, 2, 6 };
	spinlock all[3]; const char* l = P[first[n] + (cnt[n] > 1 ? mc_choose(cnt[n]) : 0)]; int mask = mc_choose(1 << n); int order = mc_choose(2);
	for (int i = 0; i < n; ++i) if (mask >> i & 1) all[i].lock();
	std::atomic<int> got { 0 };
	int t = thr([&] { Refs<spinlock> r = refs(all, l); { RG<spinlock> g(r.v); got.store(1); for (int i = 0; i < n; ++i) REQUIRE(!all[i].try_lock(), "lock %d is free although a guard holds it", i); } });
	if (mask)
	{
		for (int i = 0; i < 2; ++i) { mc_point(); mc_advance(MS); }
		REQUIRE(got.load() == 0, "a list was locked although part of it is held");
	}
	for (int j = 0; j < n; ++j) { int i = order ? n - 1 - j : j; if (mask >> i & 1) { REQUIRE(!got.load(), "locked too early"); all[i].unlock(); } }
	mc_join(t); REQUIRE(got.load() == 1, "the list was never locked");
	for (int i = 0; i < n; ++i) { REQUIRE(all[i].try_lock(), "lock %d is still held", i); all[i].unlock(); }
}
MC_REG("C12", "held-by-other-1", subsets, 1, 2, 3, 0) MC_REG("C12", "held-by-other-2", subsets, 2, 2, 3, 0) MC_REG("C12", "held-by-other-3", subsets, 3, 1, 2, 0)
// the n-th operation on a lock throws: the exception leaves the constructor and nothing stays locked
static void throwing(int)
{
	int n = 1 + mc_choose(3); int held = mc_choose(n + 1); int at = 1 + mc_choose(10);	// held == n: none is held
	TLock all[3]; if (held < n) { all[held].held = 1; all[held].other = true; }
	std::vector<std::reference_wrapper<TLock>> v; int o = mc_choose(2); for (int i = 0; i < n; ++i) v.push_back(std::ref(all[o ? n - 1 - i : i]));
	bool thrown = false; TLock::budget = at;
	try { RG<TLock> g(v); for (int i = 0; i < n; ++i) REQUIRE(all[i].held && !all[i].other, "lock %d is not held although a guard holds it", i); } catch (int) { thrown = true; }
	for (int i = 0; i < n; ++i) REQUIRE(all[i].held == all[i].other, "after %s lock %d is %s", thrown ? "an exception" : "the guard is gone", i, all[i].held ? "held" : "free");
	REQUIRE(thrown == (TLock::budget <= 0), "the exception was lost");
}
// ---- all guard operation sequences: two guards, two lists of locks
using VG = batch_lock_t<spinlock>;
template<class G, class C> static void guards_on(int len)
{
	spinlock own[4]; std::vector<spinlock> raw[2] = { std::vector<spinlock>(1), std::vector<spinlock>(2) };
	C* lists[2]; C refl[2];
	if constexpr (std::is_same_v<C, std::vector<spinlock>>) { lists[0] = &raw[0]; lists[1] = &raw[1]; }
	else { for (auto& s : raw[0]) refl[0].push_back(std::ref(s)); for (auto& s : raw[1]) refl[1].push_back(std::ref(s)); lists[0] = &refl[0]; lists[1] = &refl[1]; }
	(void)own; std::optional<G> g[2]; int h[2] = { -1, -1 }; bool locked[2] = { false, false };
	auto drop = [&](int i) { if (h[i] >= 0) locked[h[i]] = false; h[i] = -1; };
	for (int s = 0; s < len; ++s)
	{
		int i = mc_choose(2);
		switch (mc_choose(7))
		{
		case 0: { int k = mc_choose(2); drop(i); g[i].reset(); if (!locked[k]) { g[i].emplace(*lists[k]); h[i] = k; locked[k] = true; } break; }
		case 1: { int k = mc_choose(2); drop(i); g[i].reset(); if (!locked[k]) { for (auto& x : raw[k]) x.lock(); g[i].emplace(std::adopt_lock, *lists[k]); h[i] = k; locked[k] = true; } break; }
		case 2: if (g[i]) g[i]->unlock(); drop(i); break;
		case 3: drop(i); g[i].reset(); break;
		case 4: if (g[i] && g[1 - i]) { G& r = (*g[i] = std::move(*g[1 - i])); REQUIRE(&r == &*g[i], "move assignment returned something else"); drop(i); h[i] = h[1 - i]; h[1 - i] = -1; } break;
		case 5: if (g[i]) { G n(std::move(*g[i])); g[i].emplace(std::move(n)); } break;
		case 6: if (g[i]) { G& r = *g[i]; r = std::move(r); } break;
		}
		for (int k = 0; k < 2; ++k) for (auto& x : raw[k]) { bool f = x.try_lock(); if (f) x.unlock(); REQUIRE(f == !locked[k], "after a step: a lock of list %d is %s", k, f ? "free although a guard holds it" : "held although no guard holds it"); }
	}
	for (int i = 0; i < 2; ++i) { drop(i); g[i].reset(); }
	for (int k = 0; k < 2; ++k) for (auto& x : raw[k]) REQUIRE(x.try_lock(), "a lock of list %d is held although no guard holds it", k);
}
static void guards_vec(int len) { guards_on<VG, std::vector<spinlock>>(len); }
static void guards_ref(int len) { guards_on<RG<spinlock>, std::vector<std::reference_wrapper<spinlock>>>(len); }
MC_REG("C12", "guards-3", guards_vec, 3, 0, 0, 0) MC_REG("C12", "guards-4", guards_vec, 4, 0, 0, 0) MC_REG("C12", "guards-5", guards_vec, 5, 0, 0, MCF_THOROUGH)
MC_REG("C12", "guards-ref-3", guards_ref, 3, 0, 0, 0) MC_REG("C12", "guards-ref-4", guards_ref, 4, 0, 0, 0)
MC_REG("C12", "throwing", throwing, 0, 0, 0, 0)
// a lock held for long: the waiter spins, yields and sleeps, and never takes it for free
static void held_long(int kind)
{
	spinlock s[3]; std::vector<spinlock> v(3); std::vector<std::reference_wrapper<spinlock>> r { s[0], s[1], s[2] }; int at = kind ? (int)mc_choose(3) : 0; spinlock& l = kind == 2 ? v[at] : s[at];
	long_wait([&] { l.lock(); }, [&] {
		switch (kind) { case 0: l.lock(); l.unlock(); break; case 1: { scoped_lock<spinlock, spinlock, spinlock> g(s[0], s[1], s[2]); break; } case 2: { VG g(v); break; } case 3: { RG<spinlock> g(r); break; } }
	}, [&] { l.unlock(); });
	for (int i = 0; i < 3; ++i) REQUIRE(s[i].try_lock() && v[i].try_lock(), "a lock is held although no guard holds it");
}
MC_REG("C12", "held-long", held_long, 0, 0, 0, MCF_LONG) MC_REG("C12", "held-long-batch", held_long, 1, 0, 0, MCF_LONG) MC_REG("C12", "held-long-vec", held_long, 2, 0, 0, MCF_LONG) MC_REG("C12", "held-long-refs", held_long, 3, 0, 0, MCF_LONG)
MC_REG("C12", "again-140000", endure::spins, 140000, 0, 0, MCF_LONG)
MC_REG("C12", "wide-70000", endure::wide_locks, 70000, 0, 0, MCF_LONG)
