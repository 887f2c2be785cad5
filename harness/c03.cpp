#include "chan.h"
typedef channel_t<int> CI; typedef channel_t<int, false, true> CIM; typedef channel_t<int, true, false> CIO; typedef channel_t<MoveOnly> CM;
static const ChanCfg cfg[] = { { 0, 1, 2, 1, 2 }, { 1, 1, 3, 1, 3 }, { 0, 2, 1, 1, 2 }, { 0, 1, 2, 2, 1 }, { 1, 2, 2, 1, 4 }, { 1, 1, 4, 2, 2 }, { 1, 2, 1, 2, 1 }, { 2, 1, 3, 1, 1 }, { 2, 2, 2, 1, 2 }, { 2, 2, 2, 1, 3 }, { 3, 1, 4, 1, 2 } };
template<class C> static void coro(int i) { chan_threads<C>(cfg[i]); }
#define S(C, i, pq, pt, f) MC_REG("C03", "coro-" #C "-" #i, coro<C>, i, pq, pt, f)
S(CI, 0, 3, 4, 0) S(CI, 1, 2, 4, 0) S(CI, 2, 1, 3, 0) S(CI, 3, 1, 3, 0) S(CI, 4, 1, 2, 0) S(CI, 5, 1, 2, 0) S(CI, 6, 1, 2, 0) S(CIM, 0, 2, 3, 0) S(CIM, 1, 2, 3, 0) S(CIM, 3, 1, 2, 0) S(CIO, 1, 1, 3, 0)
// room is left in the buffer for every write: none of them may stay blocked
S(CI, 7, 3, 4, 0) S(CI, 8, 1, 2, 0) S(CI, 9, 1, 2, 0) S(CI, 10, 2, 3, 0) S(CIM, 7, 2, 3, 0) S(CIM, 10, 1, 2, 0) S(CM, 7, 2, 3, 0)
// every sequence of operations: nobody waits while it could go on
#define Q(C, imm, cap, d, f) MC_REG("C03", "seq-" #C "-" #imm "-cap" #cap "-len" #d, (seq<C, imm>), cap * 100 + d, 0, 0, f)
Q(CI, true, 0, 8, 0) Q(CI, true, 1, 9, 0) Q(CI, true, 2, 10, 0) Q(CI, true, 3, 10, 0) Q(CI, false, 2, 7, 0) Q(CIM, true, 2, 9, 0) Q(CIO, true, 2, 9, 0) Q(CM, true, 2, 9, 0) Q(CM, true, 0, 8, 0)
// plain threads on one side
template<class C> static void plain_writer(int cap)
{
	auto* p = new ChanProg<C>(cap);
	int a = sched_thr([=] { go p->reader(1000, 2); });
	int b = thr([=] { for (int i = 0; i < 2; ++i) { mc_log(0, 100 + i, 100 + i); (void)p->ch.write(100 + i); mc_log(1, 100 + i, 100 + i); } });
	join_all(a, b); p->check_exactly_once(); REQUIRE(p->count(3) == 2, "reads left"); REQUIRE(lin_check(), "order"); delete p;
}
template<class C> static void plain_reader(int cap)
{
	auto* p = new ChanProg<C>(cap);
	int a = sched_thr([=] { go p->writer(100, 2); });
	int b = thr([=] { for (int i = 0; i < 2; ++i) (void)p->ch.read(); });
	join_all(a, b); REQUIRE(p->count(1) == 2, "writes left"); delete p;
}
template<class C> static void plain_both(int cap)
{
	auto* p = new ChanProg<C>(cap);
	int a = thr([=] { for (int i = 0; i < 3; ++i) (void)p->ch.write(i); });
	int b = thr([=] { for (int i = 0; i < 3; ++i) (void)p->ch.read(); });
	join_all(a, b);
	delete p;
}
template<class C> static void plain_two_writers(int cap)
{
	auto* p = new ChanProg<C>(cap);
	auto w = [=](int base) { mc_log(0, base, base); (void)p->ch.write(base); mc_log(1, base, base); };
	int a = thr([=] { w(100); }), b = thr([=] { w(200); });
	int c = sched_thr([=] { go p->reader(1000, 2); });
	join_all(a, b, c); p->check_exactly_once(); REQUIRE(p->count(3) == 2, "reads left"); delete p;
}
#define P(fn, C, cap, pq, pt) MC_REG("C03", #fn "-" #C "-" #cap, fn<C>, cap, pq, pt, 0)
P(plain_writer, CI, 0, 3, 5) P(plain_writer, CI, 1, 3, 5) P(plain_writer, CIM, 0, 2, 4) P(plain_writer, CIM, 1, 2, 4) P(plain_writer, CIO, 0, 2, 3) P(plain_writer, CM, 1, 2, 3)
P(plain_reader, CI, 0, 3, 5) P(plain_reader, CI, 1, 3, 5) P(plain_reader, CIM, 0, 2, 4) P(plain_reader, CIM, 1, 2, 4) P(plain_reader, CIO, 0, 2, 3)
P(plain_both, CI, 1, 3, 6) P(plain_both, CI, 2, 3, 6) P(plain_both, CIM, 1, 3, 5) P(plain_both, CIM, 2, 3, 5)
P(plain_two_writers, CI, 0, 1, 3) P(plain_two_writers, CI, 1, 1, 3) P(plain_two_writers, CIM, 1, 1, 2)
// all on one scheduler: whoever arrives first is woken by whoever comes later, in every order of arrival
static void one_scheduler(int cap)
{
	local_scheduler_t ls; ChanProg<CI> p(cap); int w = 0, r = 0;
	for (int i = 0; i < 6; ++i)
	{
		bool wr = w == 3 ? false : r == 3 ? true : mc_choose(2);
		if (wr) go p.writer(100 * ++w, 1); else go p.reader(1000 * ++r, 1);
		int k = mc_choose(2); batches(k);
	}
	drain(); REQUIRE(p.count(1) == 3 && p.count(3) == 3, "operations left over"); p.check_exactly_once();
}
MC_REG("C03", "one-scheduler-0", one_scheduler, 0, 0, 0, 0) MC_REG("C03", "one-scheduler-1", one_scheduler, 1, 0, 0, 0) MC_REG("C03", "one-scheduler-2", one_scheduler, 2, 0, 0, 0)
// a plain thread waits for long, for a value or for room
static void waits_long(int cap)
{
	channel_t<int> ch(cap), full(cap ? cap : 1); int k = mc_choose(2); if (k && !cap) return;
	auto wr = [&](int v) -> future_t<> { co_await (ch << v); }; auto rd = [&]() -> future_t<> { int v = co_await full; REQUIRE(v == 0, "read %d first", v); };
	long_wait([&] { if (k) for (int i = 0; i < cap; ++i) (void)full.write(i); }, [&] { if (!k) { (void)ch.read(); } else (void)full.write(cap); },
		[&] { local_scheduler_t ls; if (!k) go wr(5); else go rd(); drain(); });
	local_scheduler_t ls; int n = 0; auto rest = [&]() -> future_t<> { for (int i = 1; i <= cap; ++i) { int v = co_await full; REQUIRE(v == i, "read %d instead of %d", v, i); n++; } }; if (k) { go rest(); drain(); REQUIRE(n == cap, "%d values are left", n); }
}
MC_REG("C03", "waits-long-0", waits_long, 0, 0, 0, MCF_LONG) MC_REG("C03", "waits-long-1", waits_long, 1, 0, 0, MCF_LONG) MC_REG("C03", "waits-long-3", waits_long, 3, 0, 0, MCF_LONG)
