// C11: the asynchronous writer delivers accepted messages once and in order.
#include "iosim.hpp"
const PropInfo prop_info = {
	"C11",
	"A case is a generated I/O thread configuration, a set of producer scripts (submissions, bursts, pauses, retries) and a schedule, run under deterministic simulation of threads and time with a transport that works. The bytes written are parsed and compared with the accepted submissions. Non-trivial: at least two messages were accepted and at least two thread switches happened.",
	"exploration", 60000, 2000000, 700, 8, false, 30,
	{"Threads are interleaved at memory accesses of the queue and I/O thread code and at every lock, condition variable and transport call, under sequential consistency.", "No submission overlaps or follows the call of fstrm_iothr_destroy."}
};
void prop_setup() {}
void prop(Tape &t) {
	sim::Opts so = gen_sched(t);
	World W; W.cfg = gen_cfg(t);
	bool wide = t.chance(2);     // very many input queues, all filled at once
	if (wide) { W.cfg.nq = 250 + t.range(0, 20) + (t.chance(60) ? 256 : 0); W.cfg.qsize = std::min(W.cfg.qsize, 16u); W.cfg.thr = 1; W.cfg.one_by_one = 1000; }
	Workload wl = gen_work(t, W.cfg, 60);
	if (wide) {
		wl.ps.clear(); wl.ps.emplace_back(); auto &p = wl.ps[0]; p.retry = 0;
		for (unsigned k = 1 + t.range(0, 2); k; k--) for (unsigned i = 0; i < W.cfg.nq; i++) p.steps.push_back({Step::SUBMIT, (int)i, 1 + t.range(0, 3) * (i & 1), 0, false});
	}
	W.free_yields = t.flip();
	if (t.chance(60)) for (int i = 0; i < 6; i++) W.tr.delay[t.range(0, 30)] = t.range(1, 255) * sim::MS * 20;
	describe(W.cfg.str() + strf(" mode=%d uptime=%lld", so.mode, (long long)so.uptime) + wl.str());
	heap_reset();
	sim::begin(&t, so);
	W.create();
	run_all(W, wl);
	W.destroy();
	uint64_t sw = sim::switches();
	W.finish();
	CHECK(W.tr.conns.size() == 1, "%zu connections were opened on a transport that never failed", W.tr.conns.size());
	W.parse(true);
	W.check_order();
	for (auto &m : W.msgs) if (m->submitted && m->res == fstrm_res_success)
		CHECK(m->delivered == 1, "%s was accepted, but is not in the output", W.name(m.get()).c_str());
	size_t n = W.accepted();
	if (n >= 2 && sw >= 2) nontrivial();
	label(W.cfg.model == FSTRM_IOTHR_QUEUE_MODEL_SPSC ? "spsc" : "mpsc");
	label(W.cfg.bidir ? "two-way" : "one-way");
	label(W.refused() ? "some submissions refused" : "none refused");
	label(n == 0 ? "0 messages" : n < 10 ? "1-9 messages" : n < 65 ? "10-64 messages" : ">64 messages");
	static const char *modes[] = {"switch only on blocking", "preemption every 1-8 accesses", "preemption every 1-64 accesses", "preemption rare", "preemption very rare"};
	label(modes[so.mode]);
	if (wide) label("more than 249 queues");
	if (wl.ps.size() > 1) label("several producers");
}
