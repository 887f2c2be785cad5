// Channel programs shared by C01..C03.
#pragma once
#include "hx.h"
#include "lin.h"
template<class T> struct Val { static T make(int v) { return T(v); } static int get(const T& t) { return (int)t; } };
template<> struct Val<Probe> { static Probe make(int v) { return Probe(v); } static int get(const Probe& t) { REQUIRE(t.magic == Probe::MAGIC, "a destroyed value was received"); return t.v; } };
template<> struct Val<MoveOnly> { static MoveOnly make(int v) { return MoveOnly(v); } static int get(const MoveOnly& t) { REQUIRE(t.magic == Probe::MAGIC, "a destroyed value was received"); return t.v; } };

template<class Ch> struct ChanProg
{
	using T = typename Ch::value_type;
	Ch ch;
	explicit ChanProg(size_t cap) : ch(cap) {}
	future_t<> writer(int base, int n)
	{
		for (int i = 0; i < n; ++i)
		{
			mc_log(0, base + i, base + i);
			co_await (ch << Val<T>::make(base + i));
			mc_log(1, base + i, base + i);
		}
	}
	future_t<> reader(int base, int n)
	{
		for (int i = 0; i < n; ++i)
		{
			mc_log(2, base + i, 0);
			T v = co_await ch;
			mc_log(3, base + i, Val<T>::get(v));
		}
	}
	// every written value read exactly once, nothing invented
	static void check_exactly_once()
	{
		int n = mc_log_size();
		for (int i = 0; i < n; ++i)
			if (mc_log_get(i, 0) == 3)
			{
				int64_t v = mc_log_get(i, 2); bool src = false;
				for (int j = 0; j < i; ++j)
				{
					if (mc_log_get(j, 0) == 0 && mc_log_get(j, 2) == v) src = true;
					REQUIRE(!(mc_log_get(j, 0) == 3 && mc_log_get(j, 2) == v), "value %d was received twice", (int)v);
				}
				REQUIRE(src, "value %d was received but never written", (int)v);
			}
	}
	static int count(int kind) { int c = 0, n = mc_log_size(); for (int i = 0; i < n; ++i) c += mc_log_get(i, 0) == kind; return c; }
};
// nw writer threads and nr reader threads, each with its own scheduler
struct ChanCfg { int cap, nw, wn, nr, rn; };
template<class Ch> void chan_threads(ChanCfg c)
{
	{
		auto p = std::make_unique<ChanProg<Ch>>(c.cap); auto* q = p.get(); int t[8], m = 0;
		for (int i = 0; i < c.nw; ++i) t[m++] = sched_thr([=] { go q->writer(100 * (i + 1), c.wn); });
		for (int i = 0; i < c.nr; ++i) t[m++] = sched_thr([=] { go q->reader(1000 * (i + 1), c.rn); });
		for (int i = 0; i < m; ++i) mc_join(t[i]);
		REQUIRE(q->count(1) == c.nw * c.wn && q->count(3) == c.nr * c.rn, "operations left over");
		int left = c.nw * c.wn - c.nr * c.rn;
		if (left > 0) { local_scheduler_t ls; go q->reader(9000, left); drain(); }
		q->check_exactly_once();
		REQUIRE(q->count(3) == c.nw * c.wn, "%d values written, %d received", c.nw * c.wn, q->count(3));
		REQUIRE(lin_check(), "the values were not received in first-in first-out order");
	}
	Probe::check("channel values");
}
// Reference: a bounded queue with first-come-first-served waiters on both sides.
struct ModelOp { int kind; int val; bool done; };
struct Model
{
	int cap; ModelOp op[24]; int n = 0; int buf[24], bh = 0, bt = 0; int wr[24], wh = 0, wt = 0; int rd[24], rh = 0, rt = 0;
	__attribute__((no_sanitize("thread"))) void start(int i)
	{
		ModelOp& o = op[i];
		if (o.kind == 0)
		{
			if (rh < rt) { ModelOp& r = op[rd[rh++]]; r.val = o.val; r.done = o.done = true; }
			else if (bt - bh < cap) { buf[bt++] = o.val; o.done = true; }
			else wr[wt++] = i;
		}
		else
		{
			if (bh < bt)
			{
				o.val = buf[bh++]; o.done = true;
				if (wh < wt) { ModelOp& w = op[wr[wh++]]; buf[bt++] = w.val; w.done = true; }
			}
			else if (wh < wt) { ModelOp& w = op[wr[wh++]]; o.val = w.val; o.done = w.done = true; }
			else rd[rt++] = i;
		}
	}
};
template<class Ch> struct Seq
{
	using T = typename Ch::value_type;
	Ch ch; int done[32] = {}; int got[32] = {};
	explicit Seq(int cap) : ch(cap) {}
	future_t<> wr(int i, int v) { co_await ch.write(Val<T>::make(v)); REQUIRE(!done[i], "a write completed twice"); done[i] = 1; }
	future_t<> rd(int i) { T v = co_await ch.read(); got[i] = Val<T>::get(v); REQUIRE(!done[i], "a read completed twice"); done[i] = 1; }
	void compare(Model& m)
	{
		for (int i = 0; i < m.n; ++i)
		{
			REQUIRE(done[i] == (int)m.op[i].done, "%s number %d %s, but must %s (capacity %d)", m.op[i].kind ? "read" : "write", i, done[i] ? "completed" : "is blocked", m.op[i].done ? "have completed" : "be blocked", m.cap);
			if (m.op[i].kind == 1 && done[i]) REQUIRE(got[i] == m.op[i].val, "read number %d returned %d instead of %d", i, got[i], m.op[i].val);
		}
	}
};
// arg = capacity*100 + depth ; every operation is followed by enough batches to settle when imm
template<class Ch, bool imm> static void seq(int arg)
{
	int cap = arg / 100, depth = arg % 100;
	{
		local_scheduler_t ls; Seq<Ch> s(cap); Model m; m.cap = cap; int pend[32], np = 0;
		REQUIRE(s.ch.capacity() == (size_t)cap, "capacity() is wrong");
		for (int d = 0; d < depth; ++d)
		{
			int c = mc_choose(imm ? 2 : 3);
			if (c < 2)
			{
				int i = m.n++; m.op[i] = ModelOp{ c, 10 + i, false };
				if (c == 0) go s.wr(i, 10 + i); else go s.rd(i);
				pend[np++] = i;
			}
			if (imm || c == 2 || d + 1 == depth) { for (int k = 0; k < np; ++k) m.start(pend[k]); np = 0; batches(3); s.compare(m); }
		}
		// let the blocked ones go
		int nr = m.rt - m.rh, nw = m.wt - m.wh;
		for (int k = 0; k < nr; ++k) { int i = m.n++; m.op[i] = ModelOp{ 0, 10 + i, false }; go s.wr(i, 10 + i); m.start(i); }
		for (int k = 0; k < nw; ++k) { int i = m.n++; m.op[i] = ModelOp{ 1, 0, false }; go s.rd(i); m.start(i); }
		drain(); s.compare(m);
	}
	Probe::check("channel values");
}
// large capacities: fill to the brim, the next write blocks, drain half, wrap around, drain
template<class Ch> static void big(int cap)
{
	{
		local_scheduler_t ls; using T = typename Ch::value_type; Ch ch(cap); int w = 0, r = 0, next = 0;
		REQUIRE(ch.capacity() == (size_t)cap, "capacity() is wrong");
		auto fill = [&](int n) -> future_t<> { for (int i = 0; i < n; ++i) { mc_progress(); co_await ch.write(Val<T>::make(next++)); w++; } };
		auto drain_ = [&](int n) -> future_t<> { for (int i = 0; i < n; ++i) { mc_progress(); T v = co_await ch.read(); REQUIRE(Val<T>::get(v) == r, "read %d returned %d (capacity %d)", r, (int)Val<T>::get(v), cap); r++; } };
		go fill(cap + 1); batches(3); REQUIRE(w == cap, "%d writes completed, capacity %d", w, cap);
		go drain_(1); batches(4); REQUIRE(r == 1 && w == cap + 1, "a blocked writer was not resumed (capacity %d)", cap);
		go drain_(cap / 2); batches(3); REQUIRE(r == 1 + cap / 2, "reads block although there are values");
		go fill(cap / 2 + 2); batches(3); REQUIRE(w == cap + 1 + cap / 2, "%d writes completed, %d read, capacity %d", w, r, cap);
		go drain_(cap + 2); batches(6); REQUIRE(w == next && r == next, "%d of %d values read, %d written", r, next, w);
		go drain_(2); batches(3); go fill(2); batches(6); REQUIRE(r == next && w == next, "readers are blocked although there are values");
	}
	Probe::check("channel values");
}
// many readers (or writers) blocked at once are served in the order of their arrival
template<class Ch> static void crowd(int n)
{
	{
		local_scheduler_t ls; using T = typename Ch::value_type; Ch ch(1); int served = 0, wdone = 0;
		auto rd = [&](int i) -> future_t<> { T v = co_await ch.read(); REQUIRE(Val<T>::get(v) == i, "blocked reader %d received %d", i, (int)Val<T>::get(v)); REQUIRE(served == i, "reader %d was served as number %d", i, served); served++; };
		auto wr = [&](int i) -> future_t<> { co_await ch.write(Val<T>::make(i)); wdone++; };
		for (int i = 0; i < n; ++i) { mc_progress(); go rd(i); }
		batches(2); for (int i = 0; i < n; ++i) { mc_progress(); go wr(i); } batches(4); REQUIRE(served == n && wdone == n, "%d of %d blocked readers served", served, n);
		served = wdone = 0; for (int i = 0; i < n; ++i) { mc_progress(); go wr(i); }
		batches(2); REQUIRE(wdone == 1, "%d writes completed, capacity 1", wdone); for (int i = 0; i < n; ++i) { mc_progress(); go rd(i); } batches(4); REQUIRE(served == n && wdone == n, "%d of %d blocked writers served", wdone, n);
	}
	Probe::check("channel values");
}
