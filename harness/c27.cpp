#include "prog.h"
// threads: what a coroutine waits for next against what still could wake it from before
PROG("C27", "timed-then-lock", "S:t0.1 G0 g0|P:L0 s0 +2 U0", 2, 3, 0)
PROG("C27", "timed-then-lock-2", "S:t0.1 l0.2|P:L0 +1 s0 +3 U0", 2, 3, 0)
PROG("C27", "lock-then-timed", "S:l0.1 t0.2|P:L0 +1 U0 s0 +2", 2, 3, 0)
PROG("C27", "timed-then-read", "C:1|S:t0.1 <0|P:+1 s0 >0", 2, 3, 0)
PROG("C27", "timed-then-write", "C:0|S:t0.1 >0,y <0|P:+1 s0", 2, 3, 0)
PROG("C27", "timed-then-sleep", "S:t0.1 z3|P:s0 +1 +3", 2, 3, 0)
PROG("C27", "all-then-lock", "S:t01.1 G0 g0|P:L0 s0 +1 s1 U0", 2, 3, 0)
PROG("C27", "all-then-one", "S:t01.1 w0|P:s0 +1 s1|F:s0 s1", 2, 3, 0)
PROG("C27", "all-then-read", "C:1|S:t01.2 <0|P:s0 s1 >0|P:+2", 1, 2, 0)
PROG("C27", "all-for-all", "S:t01.1 w01|P:s0 +1 s1|F:s0 s1 s0 s1", 2, 3, 0)
PROG("C27", "lock-then-read", "C:1|S:l0.1 <0|P:L0 +1 U0 >0", 2, 3, 0)
PROG("C27", "lock-then-event", "S:l0.1 w0 L0 U0|P:L0 +1 U0|F:s0", 2, 3, 0)
PROG("C27", "read-then-wait", "C:0|S:<0 t0.2|S:>0 s0|P:+2", 1, 2, 0)
PROG("C27", "guard-over-channel", "C:1|S:G0 >0 g0|S:G0 <0 g0|P:>0", 1, 2, MCF_THOROUGH)
PROG("C27", "guard-over-event", "S:G0 t0.1 g0,L0 s0 U0|P:+2", 2, 3, 0)
PROG("C27", "guard-over-event-2", "S:G0 t0.2 g0|S:l0.1 s0|P:+1 +2", 1, 2, 0)
PROG("C27", "via-while-timed", "D|S:t0.2 v1 L0 U0|S:L0 s0 U0", 1, 2, 0)
PROG("C27", "via-between", "D|S:t0.1 v1 w0|S:y s0 z1 s0", 1, 2, 0)
PROG("C27", "via-holding", "D|S:G0 v1 g0 w0|S:L0 U0 s0", 1, 2, 0)
PROG("C27", "pipeline", "C:11|S:>0 <1|S:<0 >1", 2, 3, 0)
PROG("C27", "pipeline-0", "C:00|S:>0 <1|S:<0 >1", 2, 3, 0)
PROG("C27", "event-mutex-channel", "C:1|S:w0 L0 >0 U0|S:L0 s0 U0 <0", 2, 3, 0)
PROG("C27", "children", "C:1|S:(t0.1) (l0.1) <0|P:L0 s0 +1 U0 >0|P:+1", 1, 2, 0)
PROG("C27", "launched", "C:1|S:{t0.1 <0} {w0} s0 l0.1|P:+1 >0|F:s0 s0", 1, 2, 0)
PROG("C27", "sleep-then-all", "S:z1 t01.1 t0.1 L0 U0|P:+1 s1 +1 s0 +1", 1, 2, 0)
PROG("C27", "plain-and-co", "C:1|S:l0.2 <0|P:L0 >0 +2 U0|P:<0|F:>0", 1, 2, MCF_THOROUGH)
// every program: coroutines whose every step, and a driver whose every action, is a free choice
struct Mix
{
	event_t e[2] { event_t(false), event_t(false) }; mutex_t m; channel_t<int> c { 1 };
	awaitable_t<int>* aw[16] = { nullptr };
	int kind[16] = { 0 }; bool owner = false; int live = 0, nid = 1, steps[16] = { 0 }; int addr;
};
enum { M_NONE, M_WAIT, M_TWAIT, M_TALL, M_TLOCK, M_LOCK, M_READ, M_WRITE, M_SLEEP, M_FUT, M_CHILD, M_ALL, M_N };
static future_t<> one(Mix& x, Who& me, int k);
static future_t<> child(Mix& x, Who& me) { co_await one(x, me, M_TWAIT); }
static future_t<> one(Mix& x, Who& me, int k)
{
	x.kind[me.id] = k; x.steps[me.id]++; int64_t t0 = mc_now();
	switch (k)
	{
	case M_WAIT: case M_TWAIT:
	{
		int o = call(me, OP_WAIT, 0, 1, k == M_TWAIT); bool r;
		if (k == M_WAIT) r = co_await x.e[0].wait(); else r = co_await x.e[0].wait_for(2ms);
		ret(o, r); REQUIRE(r || (k == M_TWAIT && mc_now() >= t0 + 2 * MS), "a wait ended without signal or deadline"); break;
	}
	case M_TALL: case M_ALL:
	{
		std::vector<event_t> v { x.e[0], x.e[1] }; int o = call(me, OP_WAIT, 0, 3, k == M_TALL); bool r;
		if (k == M_ALL) r = co_await event_t::wait_all(v); else r = co_await event_t::wait_all_for(2ms, v);
		ret(o, r); REQUIRE(r || (k == M_TALL && mc_now() >= t0 + 2 * MS), "a wait ended without signal or deadline"); break;
	}
	case M_TLOCK: case M_LOCK:
	{
		int o = call(me, OP_LOCK, 0, 0, k == M_TLOCK); bool r = true;
		if (k == M_LOCK) co_await x.m.lock(adopt_manual_unlock); else r = co_await x.m.try_lock_for(2ms);
		ret(o, r); REQUIRE(r || mc_now() >= t0 + 2 * MS, "a timed lock ended before its deadline");
		if (!r) break;
		REQUIRE(!x.owner, "two owners hold the mutex"); x.owner = true; co_await yield(); x.owner = false;
		o = call(me, OP_UNLOCK, 0); co_await x.m.unlock(); ret(o, 0); break;
	}
	case M_READ: { int o = call(me, OP_READ, 0); int v = co_await x.c; ret(o, v); break; }
	case M_WRITE: { int v = me.id * 10 + me.n; int o = call(me, OP_WRITE, 0, 0, false, v); co_await (x.c << v); ret(o, 0); break; }
	case M_SLEEP: co_await sleep_for(2ms); REQUIRE(mc_now() >= t0 + 2 * MS, "a sleep ended early"); break;
	case M_FUT: { awaitable_t<int> a; x.aw[me.id] = &a; int v = co_await a.get_future(); REQUIRE(v == 77 && x.aw[me.id] == nullptr, "a future delivered before it was set"); break; }
	case M_CHILD: co_await child(x, me); break;
	}
	x.kind[me.id] = 0;
}
static future_t<> actor(Mix& x, int n, int first)
{
	Who me{ x.nid++, 0 }; ++x.live;
	for (int i = 0; i < n; ++i) co_await one(x, me, i == 0 && first ? first : 1 + mc_choose(M_N - 1));
	--x.live;
}
static future_t<> helper(Mix& x, int k) { Who me{ x.nid++, 0 }; ++x.live; co_await one(x, me, k); --x.live; }
// steps of actor one, then of a second actor (0: none), then driver actions
static void mix(int cfg)
{
	int first = cfg & 15, n1 = cfg >> 4 & 15, n2 = cfg >> 8 & 15, len = cfg >> 12;
	auto xs = std::make_unique<Mix>(); Mix& x = *xs; Who me{ 60, 0 };
	{
	local_scheduler_t ls; bool held = false;
	auto toggle = [&] {
		if (held) { held = false; x.owner = false; int o = call(me, OP_UNLOCK, 0); x.m.unlock(&x.addr); ret(o, 0); }
		else { int o = call(me, OP_TRY, 0); bool r = x.m.try_lock(&x.addr); ret(o, r); if (r) { REQUIRE(!x.owner, "two owners hold the mutex"); x.owner = held = true; } }
	};
	auto sig = [&](int i) { int o = call(me, OP_SIGNAL, i); x.e[i].signal(); ret(o, 0); };
	auto setf = [&] { for (auto& a : x.aw) if (a) { auto p = a; a = nullptr; p->set_value(77); } };
	if (mc_choose(2)) toggle();
	go actor(x, n1, first); if (n2) go actor(x, n2, 0); batches(1);
	for (int i = 0; i < len; ++i)
		switch (mc_choose(7))
		{
		case 0: sig(0); break;
		case 1: sig(1); break;
		case 2: toggle(); break;
		case 3: mc_advance(2 * MS); break;
		case 4: batches(3); break;
		case 5: if (x.nid >= 7) break; go helper(x, x.kind[1] == M_READ || x.kind[2] == M_READ ? M_WRITE : M_READ); batches(1); break;
		case 6: setf(); break;
		}
	if (held) toggle();
	for (int i = 0; i < 12 && x.live; ++i)
	{
		batches(10); mc_log(LOG_QUIET, 0, 0); int r = 0, w = 0;
		for (int k = 1; k < 16; ++k)
		{
			int q = x.kind[k];
			if (q == M_WAIT) { sig(0); break; } if (q == M_ALL) { sig(0); sig(1); break; }
			if (q == M_READ) r++; if (q == M_WRITE) w++;
		}
		if (x.nid < 12) { if (r) go helper(x, M_WRITE); else if (w) go helper(x, M_READ); }
		setf(); mc_advance(2 * MS); batches(2);
	}
	REQUIRE(x.live == 0, "a coroutine is left waiting for something that happened");
	mc_advance(4 * MS); batches(6); REQUIRE(this_scheduler()->empty(), "timers or tasks are left"); drain();
	REQUIRE(rests_free(x.m), "the mutex is owned by nobody's code"); mc_log(LOG_QUIET, 0, 0);
	}
	World w; W = &w; w.ev[0] = x.e[0]; w.ev[1] = x.e[1]; int left[2] = { stored(0), stored(1) }, init[2] = { 0, 0 }, caps[2] = { 1, 1 };
	if (left[0] < 4 && left[1] < 4) { int r = mc_lin(init, left, 2, caps, 0); REQUIRE(r >= 0, "harness: history too large"); REQUIRE(r, "the history is not one of counted signals, a FIFO mutex and a FIFO channel"); }
	W = nullptr;
}
#define MIX(name, first, n1, n2, len, fl) MC_REG("C27", name, mix, (first) | (n1) << 4 | (n2) << 8 | (len) << 12, 0, 0, fl)
MIX("mix-solo-wait", M_WAIT, 2, 0, 3, 0) MIX("mix-solo-timed", M_TWAIT, 2, 0, 4, 0) MIX("mix-solo-timed-all", M_TALL, 2, 0, 4, 0) MIX("mix-solo-timed-lock", M_TLOCK, 2, 0, 4, 0)
MIX("mix-solo-lock", M_LOCK, 2, 0, 3, 0) MIX("mix-solo-read", M_READ, 2, 0, 3, 0) MIX("mix-solo-write", M_WRITE, 2, 0, 3, 0) MIX("mix-solo-sleep", M_SLEEP, 2, 0, 3, 0) MIX("mix-solo-future", M_FUT, 2, 0, 3, 0) MIX("mix-solo-child", M_CHILD, 2, 0, 4, 0) MIX("mix-solo-all", M_ALL, 2, 0, 4, 0)
MIX("mix-pair-wait", M_WAIT, 1, 1, 4, 0) MIX("mix-pair-wait-2", M_WAIT, 1, 2, 2, 0) MIX("mix-pair-all-2", M_ALL, 1, 2, 2, 0) MIX("mix-pair-lock-2", M_LOCK, 1, 2, 2, 0) MIX("mix-pair-wait-2-3", M_WAIT, 1, 2, 3, MCF_THOROUGH) MIX("mix-pair-all-2-3", M_ALL, 1, 2, 3, MCF_THOROUGH) MIX("mix-pair-lock-2-3", M_LOCK, 1, 2, 3, MCF_THOROUGH) MIX("mix-pair-timed", M_TWAIT, 1, 1, 3, 0) MIX("mix-pair-timed-2", M_TWAIT, 1, 2, 2, 0) MIX("mix-pair-timed-2-3", M_TWAIT, 1, 2, 3, MCF_THOROUGH) MIX("mix-pair-timed-all", M_TALL, 1, 1, 3, 0) MIX("mix-pair-timed-all-2", M_TALL, 1, 2, 2, 0) MIX("mix-pair-timed-all-2-3", M_TALL, 1, 2, 3, MCF_THOROUGH) MIX("mix-pair-timed-lock", M_TLOCK, 1, 1, 3, 0) MIX("mix-pair-timed-lock-2", M_TLOCK, 1, 2, 2, 0) MIX("mix-pair-timed-lock-2-3", M_TLOCK, 1, 2, 3, MCF_THOROUGH) MIX("mix-pair-read", M_READ, 1, 1, 4, 0) MIX("mix-pair-write", M_WRITE, 1, 1, 4, 0)
MIX("mix-deep-timed", M_TWAIT, 3, 0, 5, MCF_THOROUGH) MIX("mix-deep-timed-all", M_TALL, 3, 0, 5, MCF_THOROUGH) MIX("mix-deep-timed-lock", M_TLOCK, 3, 0, 5, MCF_THOROUGH)
MIX("mix-deep-pair-timed", M_TWAIT, 2, 2, 4, MCF_THOROUGH) MIX("mix-deep-pair-timed-all", M_TALL, 2, 2, 4, MCF_THOROUGH) MIX("mix-deep-pair-timed-lock", M_TLOCK, 2, 2, 4, MCF_THOROUGH)
