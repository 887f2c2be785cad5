#include "chan.h"
#include "endure.h"
typedef channel_t<int> CI; typedef channel_t<int, true, false> CIO; typedef channel_t<int, false, true> CIM;
typedef channel_t<Probe> CP; typedef channel_t<MoveOnly, true, true> CMM;
#define Q(C, imm, cap, d, f) MC_REG("C02", "seq-" #C "-" #imm "-cap" #cap "-len" #d, (seq<C, imm>), cap * 100 + d, 0, 0, f)
Q(CI, true, 0, 10, 0) Q(CI, true, 1, 11, 0) Q(CI, true, 2, 12, 0) Q(CI, true, 3, 12, 0) Q(CI, false, 0, 8, 0) Q(CI, false, 1, 8, 0) Q(CI, false, 2, 8, 0)
Q(CIO, true, 0, 9, 0) Q(CIO, true, 1, 9, 0) Q(CIO, true, 2, 10, 0) Q(CIO, false, 1, 7, 0)
Q(CIM, true, 0, 9, 0) Q(CIM, true, 1, 9, 0) Q(CIM, true, 2, 10, 0) Q(CIM, false, 1, 7, 0)
Q(CP, true, 0, 9, 0) Q(CP, true, 1, 9, 0) Q(CP, true, 2, 10, 0) Q(CMM, true, 1, 9, 0)
Q(CI, true, 1, 15, 2) Q(CI, true, 2, 15, 2) Q(CI, true, 3, 15, 2) Q(CI, true, 0, 15, 2) Q(CI, false, 1, 10, 2) Q(CI, false, 2, 10, 2) Q(CIM, true, 2, 14, 2) Q(CP, true, 3, 14, 2) Q(CP, false, 1, 9, 2)
// threads: linearizable FIFO, and never more than capacity completed writes ahead of the reads
template<class Ch> static void thr_fifo(int i)
{
	static const ChanCfg cfg[] = { { 0, 1, 3, 1, 3 }, { 1, 1, 3, 1, 3 }, { 2, 1, 4, 1, 4 }, { 1, 2, 1, 1, 2 }, { 1, 1, 2, 2, 1 }, { 0, 2, 1, 1, 2 }, { 1, 1, 4, 1, 4 }, { 1, 2, 2, 1, 4 } };
	chan_threads<Ch>(cfg[i]);
	int w = 0, r = 0, n = mc_log_size();
	for (int k = 0; k < n; ++k) { int t = (int)mc_log_get(k, 0); w += t == 1; r += t == 2; REQUIRE(w - r <= cfg[i].cap, "%d writes completed with %d reads begun, capacity %d", w, r, cfg[i].cap); }
}
#define F(C, i, pq, pt) MC_REG("C02", "threads-" #C "-" #i, thr_fifo<C>, i, pq, pt, 0)
F(CI, 6, 2, 3) F(CIM, 6, 1, 3) F(CIM, 7, 1, 2) F(CI, 0, 2, 4) F(CI, 1, 2, 4) F(CI, 2, 2, 3) F(CI, 3, 1, 3) F(CI, 4, 1, 3) F(CI, 5, 1, 3) F(CIM, 1, 1, 3) F(CP, 1, 1, 3) F(CIO, 2, 1, 2)
#define B(C, cap) MC_REG("C02", "big-" #C "-" #cap, big<C>, cap, 0, 0, MCF_LONG)
B(CI, 4) B(CI, 255) B(CI, 256) B(CI, 300) B(CI, 65536) B(CI, 70000) B(CIM, 300) B(CP, 256) B(CMM, 300)
MC_REG("C02", "crowd-CI-300", crowd<CI>, 300, 0, 0, MCF_LONG) MC_REG("C02", "crowd-CIM-40", crowd<CIM>, 40, 0, 0, 0) MC_REG("C02", "crowd-CP-40", crowd<CP>, 40, 0, 0, 0)
// a default channel holds one value; channels are handles: a copy and an assigned channel are the same channel
static void fresh(int)
{
	local_scheduler_t ls; CI c; CI other(3); REQUIRE(c.capacity() == 1 && other.capacity() == 3, "capacity() is wrong"); int done = 0, got = 0;
	auto wr = [&](CI ch, int v) -> future_t<> { co_await (ch << v); done++; };
	go wr(c, 1); batches(3); REQUIRE(done == 1, "a write into an empty default channel did not complete"); go wr(c, 2); batches(3); REQUIRE(done == 1, "a default channel took two values");
	other = c; REQUIRE(other.capacity() == 1, "capacity() is wrong after an assignment");
	auto rd = [&](CI ch, int n) -> future_t<> { for (int i = 0; i < n; ++i) { int v = co_await ch; REQUIRE(v == ++got, "read %d, expected %d", v, got); } };
	go rd(other, 3); batches(4); REQUIRE(done == 2 && got == 2, "%d writes and %d reads completed", done, got); go wr(c, 3); batches(4); REQUIRE(got == 3 && done == 3, "%d reads completed", got); drain();
}
MC_REG("C02", "constructors", fresh, 0, 0, 0, 0)
MC_REG("C02", "wide-70000", endure::wide_channel, 70000, 0, 0, MCF_LONG)
MC_REG("C02", "buffer-70000", endure::wide_buffer, 70000, 0, 0, MCF_LONG)
