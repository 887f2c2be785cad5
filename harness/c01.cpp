#include "chan.h"
typedef channel_t<int> CI; typedef channel_t<int, true, false> CIO; typedef channel_t<int, false, true> CIM; typedef channel_t<int, true, true> CIOM;
typedef channel_t<Probe> CP; typedef channel_t<MoveOnly> CM; typedef channel_t<MoveOnly, true, true> CMM;
static const ChanCfg cfg[] = {
	{ 0, 1, 2, 1, 2 }, { 1, 1, 2, 1, 2 }, { 2, 1, 3, 1, 3 }, { 1, 1, 3, 1, 3 },
	{ 0, 2, 1, 1, 2 }, { 1, 2, 1, 1, 2 }, { 0, 1, 2, 2, 1 }, { 1, 1, 2, 2, 1 },
	{ 1, 2, 1, 2, 1 }, { 0, 2, 1, 2, 1 }, { 1, 2, 2, 1, 3 }, { 2, 2, 2, 1, 3 }, { 1, 2, 2, 2, 2 }, { 2, 3, 1, 1, 3 }, { 2, 1, 3, 1, 1 }, { 2, 2, 2, 1, 2 } };
template<class Ch> static void prog(int i) { chan_threads<Ch>(cfg[i]); }
#define S(C, i, pq, pt, f) MC_REG("C01", #C "-" #i, prog<C>, i, pq, pt, f)
S(CI, 0, 3, 5, 0) S(CI, 1, 3, 5, 0) S(CI, 2, 2, 4, 0) S(CI, 3, 2, 4, 0) S(CI, 4, 2, 3, 0) S(CI, 5, 2, 3, 0) S(CI, 6, 2, 3, 0) S(CI, 7, 2, 3, 0) S(CI, 8, 1, 2, 0) S(CI, 9, 1, 2, 0) S(CI, 10, 1, 2, 0) S(CI, 11, 1, 2, 2) S(CI, 12, 1, 2, 2) S(CI, 13, 1, 2, 2)
S(CI, 14, 2, 3, 0) S(CI, 15, 1, 2, 0) S(CP, 14, 2, 3, 0)
S(CIO, 0, 2, 3, 0) S(CIO, 1, 2, 3, 0) S(CIO, 2, 2, 3, 0) S(CIO, 5, 1, 2, 0) S(CIO, 7, 1, 2, 0)
S(CIM, 0, 2, 3, 0) S(CIM, 1, 2, 3, 0) S(CIM, 2, 1, 3, 0) S(CIM, 5, 1, 2, 0) S(CIM, 7, 1, 2, 0) S(CIM, 8, 1, 2, 2)
S(CIOM, 1, 1, 3, 0) S(CIOM, 4, 1, 2, 0)
S(CP, 0, 2, 3, 0) S(CP, 1, 2, 3, 0) S(CP, 2, 1, 3, 0) S(CP, 5, 1, 2, 0) S(CP, 7, 1, 2, 0)
S(CM, 0, 2, 3, 0) S(CM, 1, 2, 3, 0) S(CM, 5, 1, 2, 0) S(CMM, 1, 2, 3, 0) S(CMM, 7, 1, 2, 0)
// two coroutines on one scheduler plus a writer on another thread
template<class Ch> static void mixed(int cap)
{
	{
		auto p = std::make_unique<ChanProg<Ch>>(cap); auto* q = p.get();
		int a = sched_thr([=] { go q->reader(1000, 1); go q->writer(100, 1); go q->reader(2000, 1); });
		int b = sched_thr([=] { go q->writer(200, 1); });
		join_all(a, b);
		q->check_exactly_once(); REQUIRE(q->count(3) == 2 && q->count(1) == 2, "operations left over"); REQUIRE(lin_check(), "order");
	}
	Probe::check();
}
#define M(C, cap, pq, pt) MC_REG("C01", "mixed-" #C "-" #cap, mixed<C>, cap, pq, pt, 0)
M(CI, 0, 2, 4) M(CI, 1, 2, 4) M(CM, 1, 2, 3) M(CIM, 0, 2, 3)
// what is left in the buffer when the channel goes is destroyed once; the awaiters keep the channel alive
static void leftover(int cap)
{
	{
		local_scheduler_t ls;
		{
			ChanProg<CP> p(cap); int n = mc_choose(cap + 1), r = mc_choose(n + 1);
			go p.writer(100, n); go p.reader(1000, r); drain();
			p.check_exactly_once(); REQUIRE(p.count(3) == r && p.count(1) == n, "operations left over");
		}
	}
	Probe::check("values left in the channel");
}
MC_REG("C01", "leftover-1", leftover, 1, 0, 0, 0) MC_REG("C01", "leftover-3", leftover, 3, 0, 0, 0)
#define B(C, cap) MC_REG("C01", "big-" #C "-" #cap, big<C>, cap, 0, 0, MCF_LONG)
B(CI, 300) B(CI, 65536) B(CIO, 256) B(CP, 300) B(CM, 256) B(CIM, 256)
MC_REG("C01", "crowd-CP-300", crowd<CP>, 300, 0, 0, MCF_LONG) MC_REG("C01", "crowd-CMM-300", crowd<CMM>, 300, 0, 0, MCF_LONG)
