// C14: accepted messages are flushed within bounded time; submit never blocks.
#include "iosim.hpp"
const PropInfo prop_info = {
	"C14",
	"A case is a generated I/O thread configuration and one of four scenarios with generated details and schedule, run under deterministic simulation with a virtual clock: (a) producers submitting in arbitrary patterns over time with a transport that works instantly: every message must be out within two flush timeouts; (b) a queue filled until it is full: the I/O thread must drain it without the clock moving; (c) an I/O thread stuck in a slow transport operation: submissions must return at once and be refused exactly when the queue holds its capacity; (d) destroy in arbitrary states must not wait for the timeout. Non-trivial: at least one message was accepted.",
	"exploration", 60000, 2000000, 700, 8, false, 30,
	{"Threads are interleaved at memory accesses of the queue and I/O thread code and at every lock, condition variable and transport call, under sequential consistency.", "Computation takes no virtual time.", "Scenario (b) uses notify thresholds at least two below the queue capacity."}
};
void prop_setup() {}
void prop(Tape &t) {
	sim::Opts so = gen_sched(t);
	World W; W.cfg = gen_cfg(t); Cfg &c = W.cfg;
	W.free_yields = t.flip();
	int scen = t.weighted({4, 3, 3, 1});
	size_t len = gen_len(t);
	unsigned q = t.range(0, c.nq - 1), rounds = 1 + t.range(0, 3), pre = t.range(0, 5);
	int64_t gaps[4]; for (auto &g : gaps) { g = t.weighted({3, 2, 2, 1}); g = g == 0 ? 0 : g == 1 ? t.range(0, 255) * c.T * sim::SEC / 100 : g == 2 ? (int64_t)c.T * sim::SEC : t.range(0, 255) * sim::MS; }
	unsigned cap = 0;                       // determined from the first full queue
	Workload wl;
	if (scen == 1) {
		if (c.qsize < 4) c.qsize = 4;
		c.thr = 1 + t.range(0, std::min(255u, c.qsize - 4));
	}
	int slow_op = t.flip() ? t.range(0, 12) : c.bidir ? 5 + t.range(0, 1) : 2;
	if (scen == 2) { W.tr.delay[slow_op] = (50 + 2 * (int64_t)c.T) * sim::SEC; }
	if (scen == 0 || scen == 3) wl = gen_work(t, c, 60);
	describe(strf("scenario %c ", "abcd"[scen]) + c.str() + strf(" mode=%d uptime=%lld", so.mode, (long long)so.uptime) + (scen == 0 || scen == 3 ? wl.str() : strf(" queue=%u len=%zu rounds=%u pre=%u slow=op%d gaps=%.3f,%.3f,%.3f,%.3f", q, len, rounds, pre, scen == 2 ? slow_op : -1, gaps[0] / 1e9, gaps[1] / 1e9, gaps[2] / 1e9, gaps[3] / 1e9)));
	heap_reset();
	sim::begin(&t, so);
	W.create();
	int64_t T = c.T * sim::SEC, eps = 10 * sim::MS;
	auto burst = [&](unsigned max, unsigned &n) {      // submit until refused
		for (n = 0; n < max; n++) {
			Msg *m = W.make(q, len);
			fstrm_res r = W.submit(m);
			if (r == fstrm_res_again) { delete[] m->ptr; m->ptr = nullptr; return true; }
			if (r != fstrm_res_success) { sim::error(strf("submission returned %d", (int)r)); delete[] m->ptr; m->ptr = nullptr; return false; }
		}
		return false;
	};
	unsigned n = 0;
	if (scen == 0 || scen == 3) {
		run_all(W, wl);
	} else if (scen == 1) {
		for (unsigned r = 0; r < rounds; r++) {
			if (gaps[r]) sim::sleep_for(gaps[r]);
			for (unsigned i = 0; i < pre; i++) { unsigned k; burst(1, k); if (gaps[(r + i) % 4] % 3 == 1) sim::yield(); }
			// fill it; the I/O thread may drain concurrently, so this can take several capacities
			bool full = burst(4 * c.qsize + 8, n);
			if (full) {
				label("queue filled");
				sim::sleep_for(sim::MS);
				unsigned k; if (burst(1, k)) sim::error(strf("a full queue (size %u, notify threshold %u) was not drained without waiting for the flush timeout", c.qsize, c.thr));
			}
		}
	} else {
		// Let the I/O thread get into a slow write, then fill the queue.
		if (gaps[0] && gaps[0] < T) sim::sleep_for(gaps[0]);
		unsigned k;
		auto stuck = [&] { return W.tr.in_op_since >= 0 && W.tr.delay.count(W.tr.ops - 1); };
		for (int i = 0; i < 24 && !stuck(); i++) { if (i % 2 == 0) burst(1, k); sim::sleep_for(T / 2 + sim::MS); }
		for (unsigned r = 0; r < rounds; r++) {
			if (stuck() && W.tr.in_op_since + W.tr.delay[W.tr.ops - 1] > sim::now()) {
				label("transport stuck");
				int64_t t0 = sim::now(), b0 = sim::blocked();
				// (entries may already be in the queue)
				size_t before = 0; for (auto &m : W.msgs) before += m->q == (int)q && m->res == fstrm_res_success && m->submitted && !m->freed;
				bool full = burst(c.qsize + 2, n);
				if (!full) sim::error(strf("%u submissions to a queue of size %u were accepted while the I/O thread was stuck", n, c.qsize));
				if (sim::now() - t0 > eps || sim::blocked() - b0 > eps) sim::error(strf("submitting blocked for %.3f s while the transport was busy", (sim::now() - t0) / 1e9));
				if (n + before < c.qsize - 1) sim::error(strf("a queue of size %u refused a submission while holding at most %zu entries", c.qsize, n + before));
				sim::sleep_for(sim::MS);
			}
		}
		sim::sleep_for(60 * sim::SEC + 5 * T);
		// drained now, and the I/O thread is asleep: undisturbed, exactly the capacity fits
		for (unsigned r = 0; r < 2; r++) {
			sim::nopreempt(true);
			bool full = burst(c.qsize + 2, n);
			sim::nopreempt(false);
			if (!full || n < c.qsize - 1 || n > c.qsize) sim::error(strf("an empty queue of size %u took %u submissions before %s", c.qsize, n, full ? "refusing one" : "the test gave up"));
			else if (cap && n != cap) sim::error(strf("the same queue held %u entries once and %u another time", cap, n));
			cap = n;
			sim::sleep_for(3 * T + sim::MS);
		}
	}
	W.destroy();
	int64_t D = 0; for (auto &d : W.tr.delay) D += d.second;
	if (W.destroy_ret - W.destroy_call > eps + D) sim::error(strf("destroy took %.3f s", (W.destroy_ret - W.destroy_call) / 1e9));
	W.finish();
	W.parse(true);
	for (auto &m : W.msgs) if (m->submitted && m->res == fstrm_res_success) {
		CHECK(m->delivered, "%s was accepted but never written", W.name(m.get()).c_str());
		int64_t lat = m->t_out - m->t_ret, lim = 2 * T + D + eps;
		CHECK(lat <= lim, "%s was written %.3f s after it was accepted; the flush timeout is %u s", W.name(m.get()).c_str(), lat / 1e9, c.T);
		if (m->t_out > m->t_ret + T + eps) label("latency between one and two timeouts");
		else if (m->t_out > m->t_ret + T / 2) label("latency between half and one timeout");
	}
	for (auto &m : W.msgs) if (m->submitted) CHECK(m->blocked <= eps, "submission of message %d blocked for %.3f s", m->id, m->blocked / 1e9);
	if (W.accepted()) nontrivial();
	static const char *sc[] = {"a: traffic over time", "b: full queue wakes", "c: transport stuck", "d: destroy"};
	label(sc[scen]);
	static const char *modes[] = {"switch only on blocking", "preemption every 1-8 accesses", "preemption every 1-64 accesses", "preemption rare", "preemption very rare"};
	label(modes[so.mode]);
	label(c.model == FSTRM_IOTHR_QUEUE_MODEL_SPSC ? "spsc" : "mpsc");
}
