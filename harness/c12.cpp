// C12: free callbacks: exactly once if accepted, never if refused.
#include "iosim.hpp"
const PropInfo prop_info = {
	"C12",
	"A case is a generated I/O thread configuration, producer scripts, transport faults and delays, refused submissions (full queue, zero or over-long length, NULL pointer, shutting down) and a schedule, run under deterministic simulation. Free callbacks are recorded, buffers are poisoned and released in them, and everything is accounted for when destroy returns. Non-trivial: at least one submission was accepted and one refused, or a fault was hit.",
	"fault_enumeration", 60000, 2000000, 700, 8, false, 30,
	{"Threads are interleaved at memory accesses of the queue and I/O thread code and at every lock, condition variable and transport call, under sequential consistency.", "Submissions during shutdown are made while destroy waits for a slow transport, so that they return before destroy does."}
};
void prop_setup() {}
// Submissions that must be refused.
static void bad_submits(World &W, Tape &t, unsigned n) {
	for (unsigned i = 0; i < n; i++) {
		Msg *m = W.make(t.range(0, W.cfg.nq - 1), 1 + t.range(0, 20));
		m->ptr = new uint8_t[m->data.size()]; memcpy(m->ptr, m->data.data(), m->data.size());
		m->submitted = true; m->res = fstrm_res_failure; m->s_call = m->s_ret = ++W.stamp;
		static const size_t lens[] = {0, (size_t)UINT32_MAX, (size_t)UINT32_MAX + 1, SIZE_MAX, 5};
		size_t k = t.range(0, 4);
		fstrm_res r = fstrm_iothr_submit(W.io, W.qs[m->q], k == 4 ? nullptr : m->ptr, lens[k], World::on_free, m);
		m->res = r;
		if (r != fstrm_res_success && r != fstrm_res_invalid) sim::error(strf("a submission of %zu bytes at %s was refused with %d, which does not say that it can never succeed", lens[k], k == 4 ? "NULL" : "a pointer", (int)r));
		if (r == fstrm_res_success) sim::error(strf("a submission of %zu bytes at %s was accepted", lens[k], k == 4 ? "NULL" : "a pointer"));
		if (r == fstrm_res_success) m->res = fstrm_res_failure;
		m->len = 1;
	}
}
void prop(Tape &t) {
	sim::Opts so = gen_sched(t);
	World W; W.cfg = gen_cfg(t);
	Workload wl = gen_work(t, W.cfg, 50, true);
	gen_faults(t, W);
	unsigned nbad = t.weighted({2, 1, 1}) * 2;
	std::string badbytes = t.bytes(nbad * 3); Tape bt((const uint8_t *)badbytes.data(), badbytes.size());
	bool late = t.chance(100); int64_t late_at = t.range(0, 40) * 100 * sim::MS; unsigned nlate = t.range(1, 4);
	bool race = !late && t.chance(60); if (race) { W.tr.fail_ops.clear(); W.tr.down.clear(); } unsigned nrace = 1 + t.range(0, 4); int stall = 1 + t.range(0, 40);
	W.free_yields = t.flip();
	describe(W.cfg.str() + strf(" mode=%d uptime=%lld", so.mode, (long long)so.uptime) + wl.str() + fault_str(W) + strf(" bad=%u late=%d race=%d", nbad, late, race ? (int)nrace : 0));
	heap_reset();
	sim::begin(&t, so);
	W.create();
	int late_id = -1; unsigned late_done = 0; bool all_done = false;
	if (late) {
		// One more thread, which submits while destroy is waiting for a slow operation.
		late_id = sim::spawn("late producer", [&] {
			while (!all_done) {
				sim::sleep_for(50 * sim::MS);
				if (W.destroy_call >= 0 && W.io && !all_done && sim::now() > W.destroy_call && W.tr.in_op_since >= 0 && W.tr.in_op_since + (W.tr.delay.count(W.tr.ops - 1) ? W.tr.delay[W.tr.ops - 1] : 0) > sim::now()) {
					for (; late_done < nlate; late_done++) {
						Msg *m = W.make(late_done % W.cfg.nq, 5 + late_done);
						sim::nopreempt(true); fstrm_res r = W.submit(m); sim::nopreempt(false);
						if (r == fstrm_res_success) sim::error("a submission made after fstrm_iothr_destroy was called was accepted");
					}
				}
			}
		});
		(void)late_at;
	}
	run_all(W, wl);
	bad_submits(W, bt, nbad);
	// One thread is about to submit, or in the middle of it, when destroy is called. (The
	// transport is not closed before that call has returned, so destroy returns after it.)
	bool racing = false, go = false, raced = false, inside = false; int race_id = -1;
	if (race && W.tr.is_open && !W.tr.busy) {
		W.tr.before_close = [&] { while (racing) sim::sleep_for(sim::MS); };
		race_id = sim::spawn("racing producer", [&] {
			for (unsigned i = 0; i < nrace; i++) {
				racing = true;
				if (W.destroy_call >= 0) { racing = false; break; }
				Msg *m = W.make(i % W.cfg.nq, 3 + i);
				if (i + 1 == nrace) { go = true; sim::stall_at(stall); }
				fstrm_res r = W.submit(m);
				sim::stall_at(0);
				if (W.destroy_call >= 0) raced |= r == fstrm_res_success;
				if (r != fstrm_res_success) { if (r != fstrm_res_again && W.destroy_call < 0) sim::error("a submission to a working queue was refused for good"); delete[] m->ptr; m->ptr = nullptr; }
				racing = false;
			}
			go = true;
		});
		for (int i = 0; i < 3000 && !go; i++) sim::yield();
		inside = racing;
	}
	W.destroy();
	all_done = true;
	if (race_id >= 0) sim::join(race_id);
	if (late_id >= 0) sim::join(late_id);
	W.finish();
	W.check_frees();
	W.check_heap();
	CHECK(!W.io, "not destroyed");
	size_t a = W.accepted(), r = W.refused();
	if ((a && r) || W.tr.faults) nontrivial();
	if (inside) label("destroy during a submission");
	if (raced) label("and it was accepted");
	if (late_done) label("submissions during shutdown");
	if (W.tr.faults) label("transport faults hit");
	if (nbad) label("invalid submissions");
	label(W.refused() ? "some submissions refused" : "none refused");
	bool unsent = false; for (auto &m : W.msgs) if (m->nofree && m->res == fstrm_res_success) label("NULL free function");
	(void)unsent;
	static const char *modes[] = {"switch only on blocking", "preemption every 1-8 accesses", "preemption every 1-64 accesses", "preemption rare", "preemption very rare"};
	label(modes[so.mode]);
}
