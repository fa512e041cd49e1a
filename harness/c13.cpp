// C13: the asynchronous writer survives transport failures and reconnects.
#include "iosim.hpp"
const PropInfo prop_info = {
	"C13",
	"A case is a generated I/O thread configuration, producer scripts over virtual time, a pattern of failing and slow transport operations or outage windows, and a schedule, run under deterministic simulation. Every connection's bytes, the open attempts and the fate of every accepted message are checked. Non-trivial: at least one operation failed and at least one message was accepted.",
	"fault_enumeration", 60000, 2000000, 700, 8, false, 30,
	{"Threads are interleaved at memory accesses of the queue and I/O thread code and at every lock, condition variable and transport call, under sequential consistency.", "Times are compared with a tolerance of one second plus the injected delays, because the library measures the reopen interval in whole seconds.",
	 "A message may be lost only if the transport was failing or being reopened between its submission and two flush timeouts later."}
};
void prop_setup() {}
void prop(Tape &t) {
	sim::Opts so = gen_sched(t);
	World W; W.cfg = gen_cfg(t);
	gen_faults(t, W);
	Workload wl = gen_work(t, W.cfg, 50);
	W.free_yields = t.flip(); W.tr.pipe = t.flip();
	describe(W.cfg.str() + strf(" mode=%d uptime=%lld", so.mode, (long long)so.uptime) + fault_str(W) + wl.str());
	heap_reset();
	sim::begin(&t, so);
	W.create();
	run_all(W, wl);
	W.destroy();
	W.finish();
	W.parse(false);
	W.check_order();
	auto &tr = W.tr;
	int64_t D = sim::SEC; for (auto &d : tr.delay) D += d.second;
	int64_t R = W.cfg.reopen * sim::SEC, T = W.cfg.T * sim::SEC;
	// open attempts: not too often
	for (size_t i = 1; i < tr.open_at.size(); i++)
		CHECK(tr.open_at[i] - tr.open_at[i - 1] >= R - sim::SEC, "open attempts %.3f s apart (at %.3f s); the reopen interval is %u s", (tr.open_at[i] - tr.open_at[i - 1]) / 1e9, tr.open_at[i] / 1e9, W.cfg.reopen);
	// ... but promptly after each failure
	CHECK(!tr.open_at.empty() && tr.open_at[0] <= T + D, "no open attempt at the start");
	for (int64_t f : tr.fault_at) {
		int64_t last = -1, next = -1;
		for (int64_t o : tr.open_at) { if (o <= f) last = o; if (o > f && next < 0) next = o; }
		int64_t due = std::max(f, last + R) + T + D;
		if (next >= 0 ? next > due : W.destroy_call > due)
			fail("after the failure at %.3f s the next open attempt %s; it was due by %.3f s", f / 1e9, next < 0 ? "was never made" : strf("was made at %.3f s", next / 1e9).c_str(), due / 1e9);
	}
	// losses
	bool lost = false;
	for (auto &m : W.msgs) if (m->submitted && m->res == fstrm_res_success && !m->delivered) {
		lost = true;
		int64_t a = m->t_call, b = std::min(W.destroy_ret, m->t_ret + 2 * T + D);
		bool excuse = tr.outage_start >= 0 && tr.outage_start <= b;
		for (auto &o : tr.outages) if (o.first <= b && o.second >= a) excuse = true;
		CHECK(excuse, "%s, accepted at %.6f s, was lost although the transport worked from then on until %.6f s", W.name(m.get()).c_str(), m->t_ret / 1e9, b / 1e9);
		// a message that found the transport down, but a new attempt due, waits for that attempt
		if (m->t_freed >= 0 && m->t_freed < W.destroy_call) {
			int64_t last = -1; bool fault = false;
			for (int64_t o : tr.open_at) if (o <= m->t_call) last = o;
			for (int64_t f : tr.fault_at) if (f + D - sim::SEC >= m->t_call && f <= m->t_freed) fault = true; // (the rest of a pass over the queues may go the way of the failed write)
			bool slow = m->stalled; for (int64_t o : tr.open_at) if (o >= m->t_call && o <= m->t_freed) slow = true;
			CHECK(last < 0 || m->t_call < last + R + sim::SEC || fault || slow, "%s, accepted at %.6f s while the transport worked and an open attempt was due (the last one was at %.3f s), was dropped at %.6f s without one", W.name(m.get()).c_str(), m->t_ret / 1e9, last / 1e9, m->t_freed / 1e9);
		}
	}
	if (tr.faults && W.accepted()) nontrivial();
	if (lost) label("messages lost in an outage");
	if (tr.conns.size() > 1) label("reconnected");
	if (tr.conns.size() > 3) label(">3 connections");
	if (tr.open_at.size() > tr.conns.size()) label("failed open attempts");
	for (auto &c : tr.conns) if (!c.marks.empty() && c.up < 0) { label("failed during the handshake"); break; }
	label(W.cfg.bidir ? "two-way" : "one-way");
	if (!W.order.empty() && W.order.back()->conn > 0) label("data on a later connection");
	static const char *modes[] = {"switch only on blocking", "preemption every 1-8 accesses", "preemption every 1-64 accesses", "preemption rare", "preemption very rare"};
	label(modes[so.mode]);
}
