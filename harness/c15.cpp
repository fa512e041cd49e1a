// C15: I/O thread options accept exactly the documented values and are honoured.
#include "iosim.hpp"
#include <limits.h>
const PropInfo prop_info = {
	"C15",
	"A case is a random sequence of option setter calls with boundary, random and invalid values (a model predicts each result and the settings in force), followed by creating an I/O thread with them under deterministic simulation, obtaining its queues (also concurrently) and observing that the settings in force are the modelled ones: queue count and capacity, flush latency, output batching by bytes and count, reopen spacing. Non-trivial: a setter refused a value or a setting differs from its default.",
	"exploration", 40000, 1500000, 300, 8, false, 30,
	{"The queue model and the exact point of notification have no effect visible through the API and are not observed.", "Threads are interleaved at memory accesses of the queue and I/O thread code, under sequential consistency."}
};
void prop_setup() {}
static unsigned gen_val(Tape &t, unsigned lo, unsigned hi) {
	switch (t.weighted({3, 4, 3, 2, 1})) {
	case 0: { unsigned e[] = {lo, hi, lo + 1, hi - 1, lo * 2, hi / 2}; return e[t.range(0, 5)]; }
	case 1: return lo + t.raw(2) % (std::min(hi - lo, 60000u) + 1);
	case 2: { unsigned e[] = {lo - 1, hi + 1, 0, UINT_MAX, hi + lo, hi * 2, (unsigned)INT_MAX, 1u << 31}; return e[t.range(0, 7)]; }
	case 3: return 1u << t.range(0, 31);
	default: return (unsigned)t.raw(4);
	}
}
void prop(Tape &t) {
	sim::Opts so = gen_sched(t);
	World W; Cfg &c = W.cfg;
	heap_reset();
	auto *o = fstrm_iothr_options_init();
	struct Guard { struct fstrm_iothr_options **o; ~Guard() { if (*o) fstrm_iothr_options_destroy(o); } } guard{&o};
	unsigned n = t.range(0, 14); bool refusals = false;
	std::string d;
	auto expect = [&](const char *what, unsigned v, bool valid, fstrm_res r) {
		d += strf(" %s=%u%s", what, v, valid ? "" : "!");
		CHECK((r == fstrm_res_success) == valid, "set_%s(%u) returned %d; the documented range makes that value %s", what, v, (int)r, valid ? "valid" : "invalid");
		if (!valid) { refusals = true; CHECK(r == fstrm_res_failure, "set_%s(%u) returned %d", what, v, (int)r); }
	};
	for (unsigned i = 0; i < n; i++) {
		unsigned v; bool ok;
		switch (t.range(0, 7)) {
		case 0: v = gen_val(t, 1024, 65536); ok = v >= 1024 && v <= 65536; expect("buffer_hint", v, ok, fstrm_iothr_options_set_buffer_hint(o, v)); if (ok) c.hint = v; break;
		case 1: v = gen_val(t, 1, 600); ok = v >= 1 && v <= 600; expect("flush_timeout", v, ok, fstrm_iothr_options_set_flush_timeout(o, v)); if (ok) c.T = v; break;
		case 2: v = t.flip() ? 1u << t.range(1, 14) : gen_val(t, 2, 16384); ok = v >= 2 && v <= 16384 && (v & (v - 1)) == 0; expect("input_queue_size", v, ok, fstrm_iothr_options_set_input_queue_size(o, v)); if (ok) c.qsize = v; break;
		case 3: v = t.chance(40) ? 0 : 1 + t.range(0, 30); ok = v >= 1; expect("num_input_queues", v, ok, fstrm_iothr_options_set_num_input_queues(o, v)); if (ok) c.nq = v; break;
		case 4: v = gen_val(t, 2, 1024); ok = v >= 2 && v <= IOV_MAX; expect("output_queue_size", v, ok, fstrm_iothr_options_set_output_queue_size(o, v)); if (ok) c.oq = v; break;
		case 5: { int m = (int)t.range(0, 4) - 1; ok = m == FSTRM_IOTHR_QUEUE_MODEL_SPSC || m == FSTRM_IOTHR_QUEUE_MODEL_MPSC; expect("queue_model", (unsigned)m, ok, fstrm_iothr_options_set_queue_model(o, (fstrm_iothr_queue_model)m)); if (ok) c.model = (fstrm_iothr_queue_model)m; break; }
		case 6: v = gen_val(t, 1, 512); ok = v >= 1; expect("queue_notify_threshold", v, ok, fstrm_iothr_options_set_queue_notify_threshold(o, v)); if (ok) c.thr = v; break;
		default: v = gen_val(t, 1, 600); ok = v >= 1 && v <= 600; expect("reopen_interval", v, ok, fstrm_iothr_options_set_reopen_interval(o, v)); if (ok) c.reopen = v; break;
		}
	}
	int scen = t.range(0, 5);
	if (n == 0 && t.flip()) scen = 6;       // NULL options: the defaults
	size_t len = 1 + t.range(0, 300); unsigned q = t.range(0, c.nq - 1), threads = 1 + t.range(0, 4);
	if (scen == 2) len = t.range(0, 3) ? 100 + t.range(0, 900) : 1 + t.range(0, 3);
	int64_t at = t.range(0, 255) * c.T * sim::SEC / 200;
	describe(strf("scenario %d:", scen) + d + strf(" -> %s len=%zu queue=%u", c.str().c_str(), len, q));
	int64_t T = c.T * sim::SEC, eps = 10 * sim::MS;
	sim::begin(&t, so);
	if (scen == 4) { W.tr.down.push_back({0, INT64_MAX}); }
	auto *w = W.make_writer();
	W.io = fstrm_iothr_init(scen == 6 ? nullptr : o, &w);
	if (!W.io) { if (w) fstrm_writer_destroy(&w); sim::end(); fail("fstrm_iothr_init failed although every option setting was accepted"); }
	if (w) sim::error("fstrm_iothr_init left the writer with the caller");
	// queues, from several threads
	struct fstrm_iothr_queue *early = nullptr; unsigned eidx = 0;
	if (t.flip()) { eidx = t.range(0, c.nq - 1); early = fstrm_iothr_get_input_queue_idx(W.io, eidx); }   // takes nothing away from get_input_queue
	std::vector<struct fstrm_iothr_queue *> got;
	std::vector<int> ids;
	for (unsigned k = 0; k < threads; k++) ids.push_back(sim::spawn("queue getter", [&, k] {
		unsigned want = c.nq / threads + (k == 0 ? c.nq % threads : 0) + (k == threads - 1 ? 2 : 0);
		for (unsigned i = 0; i < want; i++) { auto *x = fstrm_iothr_get_input_queue(W.io); got.push_back(x); }
	}));
	for (int id : ids) sim::join(id);
	std::set<void *> distinct; unsigned nulls = 0;
	for (auto *x : got) if (x) distinct.insert(x); else nulls++;
	if (distinct.size() != c.nq || nulls != 2 || got.size() != c.nq + 2) sim::error(strf("%u input queues were configured; %zu requests gave %zu distinct queues and %u times none", c.nq, got.size(), distinct.size(), nulls));
	std::set<void *> byidx;
	for (unsigned i = 0; i < c.nq; i++) { auto *x = fstrm_iothr_get_input_queue_idx(W.io, i); if (!x) sim::error(strf("get_input_queue_idx(%u) of %u returned none", i, c.nq)); W.qs.push_back(x); byidx.insert(x); if (early && i == eidx && x != early) sim::error(strf("get_input_queue_idx(%u) gives another queue later", i)); }
	if (byidx != distinct) sim::error("get_input_queue and get_input_queue_idx give different sets of queues");
	for (size_t i : {(size_t)c.nq, (size_t)c.nq + 1, (size_t)UINT32_MAX, (size_t)1 << 32, SIZE_MAX}) if (fstrm_iothr_get_input_queue_idx(W.io, i)) sim::error(strf("get_input_queue_idx(%zu) of %u returned a queue", i, c.nq));
	auto sub = [&](size_t l) { Msg *m = W.make(q, l); fstrm_res r = W.submit(m); if (r != fstrm_res_success) { delete[] m->ptr; m->ptr = nullptr; } return r; };
	if (sim::first_error().empty()) switch (scen) {
	case 1: case 6: {      // input queue size
		if (scen == 6) break;
		sim::sleep_for(2 * T + sim::MS);
		unsigned k = 0;
		sim::nopreempt(true);
		while (k < c.qsize + 2 && sub(1 + k % 7) == fstrm_res_success) k++;
		sim::nopreempt(false);
		if (k != c.qsize - 1 && k != c.qsize) sim::error(strf("an empty input queue of configured size %u took %u submissions", c.qsize, k));
		label("input queue size observed");
		break;
	}
	case 2: {      // output buffering by bytes and count
		sim::sleep_for(sim::MS);
		unsigned tot = std::min<size_t>(2 * c.oq + c.hint / (len + 4) + 20, 1500);
		size_t bytes = 0; unsigned k;
		for (k = 0; k < tot; k++) {
			Msg *m = W.make(q, len); fstrm_res r = W.submit(m);
			if (r != fstrm_res_success) { delete[] m->ptr; m->ptr = nullptr; sim::sleep_for(sim::MS); if (sim::now() > T / 2) break; continue; }
			bytes += m->data.size() + 4;
		}
		// let the I/O thread take in everything (on its timeout), then look at what it holds back
		int64_t tick = T;                   // first timeout after the start
		if (sim::now() < tick / 2) {
			sim::sleep_until(tick + 20 * sim::MS);
			size_t held = 0, cnt = 0;
			for (auto &m : W.msgs) if (m->submitted && m->res == fstrm_res_success && !m->freed) { held += m->data.size() + 4; cnt++; }
			if (held >= c.hint + len + 64) sim::error(strf("%zu bytes are held back unflushed; buffer_hint is %u", held, c.hint));
			if (cnt > c.oq) sim::error(strf("%zu messages are held back unflushed; output_queue_size is %u", cnt, c.oq));
			label("output buffering observed");
		}
		break;
	}
	case 3:        // flush timeout
		sim::sleep_for(at);
		if (sub(len) != fstrm_res_success) { sim::error("a submission to an empty queue was refused"); break; }
		sim::sleep_for(2 * T + eps);
		if (!W.msgs[0]->freed) { sim::error(strf("a message was not flushed within two flush timeouts of %u s", c.T)); break; }
		{       // two flushes are at least one timeout apart, as nothing else calls for a flush
			sim::sleep_for(at % T);
			int64_t f[2] = {0, 0};
			// (batches that stay below every limit, submitted in one go)
			unsigned most = std::max<int64_t>(1, std::min<int64_t>({(int64_t)c.oq - 1, (int64_t)c.qsize - 1, ((int64_t)c.hint - 65) / (int64_t)(len + 4)}));
			unsigned batch = 1 + t.range(0, most - 1);
			if (batch > 1) label("batches below the buffer limits");
			for (int i = 0; i < 2 && sim::first_error().empty(); i++) {
				std::vector<Msg *> ms;
				sim::nopreempt(true);
				for (unsigned n = 0; n < batch; n++) {
					Msg *m = W.make(q, len); fstrm_res r = W.submit(m);
					if (r != fstrm_res_success) { delete[] m->ptr; m->ptr = nullptr; sim::error("a submission to a queue with room was refused"); break; }
					ms.push_back(m);
				}
				sim::nopreempt(false);
				if (ms.size() < batch) break;
				for (int k = 0; !std::all_of(ms.begin(), ms.end(), [](Msg *m) { return m->freed; }) && k < 150; k++) sim::sleep_for(T / 64);
				int64_t lo = INT64_MAX, hi = 0;
				for (Msg *m : ms) { if (!m->freed) { sim::error(strf("a message was not flushed within two flush timeouts of %u s", c.T)); break; } lo = std::min(lo, m->t_freed); hi = std::max(hi, m->t_freed); }
				if (hi - lo > T / 2) sim::error(strf("%u messages submitted together, of %zu bytes in all, were flushed up to %.3f s apart though the buffer limits were not reached", batch, batch * (len + 4), (hi - lo) / 1e9));
				f[i] = lo;
			}
			if (sim::first_error().empty() && f[1] - f[0] < T * 9 / 10) sim::error(strf("messages were flushed %.3f s apart, though the flush timeout is %u s and the buffer limits were not reached", (f[1] - f[0]) / 1e9, c.T));
		}
		label("flush timeout observed");
		break;
	case 4: {      // reopen interval
		int64_t R = c.reopen * sim::SEC;
		int64_t total = std::min<int64_t>(3 * R + 3 * T, 400 * T);
		sim::sleep_for(total);
		auto &a = W.tr.open_at;
		for (size_t i = 1; i < a.size(); i++) {
			if (a[i] - a[i - 1] < R - sim::SEC) sim::error(strf("open attempts %.3f s apart, reopen_interval is %u", (a[i] - a[i - 1]) / 1e9, c.reopen));
			if (a[i] - a[i - 1] > R + T + sim::SEC) sim::error(strf("open attempts %.3f s apart, reopen_interval is %u and flush_timeout %u", (a[i] - a[i - 1]) / 1e9, c.reopen, c.T));
		}
		if (total > R + T + sim::SEC && a.size() < 2) sim::error(strf("no second open attempt within %.3f s", total / 1e9));
		if (a.size() > 1) label("reopen interval observed");
		break;
	}
	default:       // traffic on every queue
		for (q = 0; q < c.nq; q++) if (sub(len) != fstrm_res_success) sim::error(strf("a submission to the empty queue %u was refused", q));
	}
	W.destroy();
	W.finish();
	if (scen != 4) {
		W.parse(true);
		for (auto &m : W.msgs) if (m->submitted && m->res == fstrm_res_success) CHECK(m->delivered, "%s was accepted but never written", W.name(m.get()).c_str());
	}
	fstrm_iothr_options_destroy(&o);
	CHECK(!o, "options_destroy did not clear the pointer");
	struct fstrm_iothr_options *none = nullptr; fstrm_iothr_options_destroy(&none);
	W.check_frees();
	size_t h = heap_live();
	CHECK(h == 0, "%zu block(s) allocated by the library were not freed", h);
	if (refusals || n) nontrivial();
	if (refusals) label("value refused");
	if (scen == 6) label("default options");
	if (threads > 1) label("queues obtained concurrently");
}
