// Common parts of the I/O thread checks: configuration, workload, a simulated
// transport with virtual latency and faults, and the record of what happened.
#pragma once
#include "mock.hpp"
#include "sim.hpp"
#include <algorithm>
#include <map>
#include <functional>
#include <signal.h>

struct Cfg {
	unsigned hint = 8192, T = 1, qsize = 512, nq = 1, oq = 64, thr = 32, reopen = 5;
	fstrm_iothr_queue_model model = FSTRM_IOTHR_QUEUE_MODEL_SPSC;
	bool bidir = false, defaults = false;
	unsigned one_by_one = 1000;     // queues taken with get_input_queue; the others are taken by index
	std::vector<std::string> cts;
	std::string str() const {
		return strf("%s%s nq=%u qsize=%u oq=%u hint=%u T=%u thr=%u reopen=%u%s", bidir ? "2way " : "1way ", model == FSTRM_IOTHR_QUEUE_MODEL_SPSC ? "SPSC" : "MPSC", nq, qsize, oq, hint, T, thr, reopen, one_by_one < nq ? strf(" (%u queues taken one by one)", one_by_one).c_str() : "");
	}
};
inline Cfg gen_cfg(Tape &t) {
	Cfg c;
	static const unsigned hints[] = {1024, 1024, 1025, 2048, 8192, 65536}, Ts[] = {1, 1, 2, 5, 30, 600}, qs[] = {4, 2, 8, 16, 64, 512}, oqs[] = {2, 3, 5, 16, 64, 1024}, ro[] = {1, 5, 2, 60, 600};
	c.hint = hints[t.range(0, 5)]; c.T = Ts[t.range(0, 5)]; c.qsize = qs[t.range(0, 5)];
	c.nq = 1 + t.weighted({5, 3, 2, 1, 1}); c.oq = oqs[t.range(0, 5)]; c.reopen = ro[t.range(0, 4)];
	if (t.chance(40)) c.oq = t.range(17, 150);
	switch (t.weighted({3, 3, 2, 1})) {
	case 0: c.thr = 1; break;
	case 1: c.thr = std::max(1u, c.qsize / 2); break;
	case 2: c.thr = t.range(1, std::max(1u, std::min(255u, c.qsize - 1))); break;
	default: c.thr = 32;
	}
	c.model = t.flip() ? FSTRM_IOTHR_QUEUE_MODEL_MPSC : FSTRM_IOTHR_QUEUE_MODEL_SPSC;
	c.bidir = t.chance(80);
	size_t n = t.weighted({3, 3, 1});
	for (size_t i = 0; i < n; i++) c.cts.push_back(i ? "other" : "text:sim");
	if (t.chance(90)) c.one_by_one = t.range(0, c.nq - 1);
	return c;
}
inline sim::Opts gen_sched(Tape &t) {
	sim::Opts o;
	o.mode = t.weighted({2, 3, 3, 3, 2});
	o.spurious = t.chance(60) ? (int)t.range(1, 3) : 0;
	o.frac = t.range(0, 255) * 3921568ll;
	if (t.chance(50)) o.uptime = t.weighted({1, 1, 1}) == 0 ? 0 : t.range(0, 700);   // started right after boot
	if (t.chance(50)) {   // the wall clock is set while it runs
		int64_t at = 0; int n = 1 + t.range(0, 2);
		for (int i = 0; i < n; i++) {
			at += (int64_t)t.range(0, 20000) * sim::MS;
			int64_t d = t.weighted({2, 2, 1}) == 0 ? t.range(0, 5000) * sim::MS : t.range(0, 100000) * sim::SEC;
			o.jumps.push_back({at, t.flip() ? d : -d});
		}
	}
	return o;
}

// ---- transport ----
struct SimTransport {
	struct Conn { std::string out; size_t consumed = 0; int64_t opened = 0, up = -1, down = -1; std::vector<std::pair<int64_t, size_t>> marks; bool closed = false; };
	bool bidir = false;
	std::vector<Conn> conns;
	std::vector<int64_t> open_at;          // times of open attempts
	std::vector<std::pair<int64_t, int64_t>> outages; // completed ones
	std::vector<int64_t> fault_at;         // times of failing operations (other than close)
	int64_t outage_start = 0;              // -1: up
	std::string expect_up;                 // everything written before data may flow
	// plan
	std::map<int, int64_t> delay;          // by operation index
	std::set<int> fail_ops;
	std::vector<std::pair<int64_t, int64_t>> down;  // operations starting in here fail
	std::map<int, unsigned> partial;       // bytes emitted by a failing write, by operation index (mod)
	unsigned def_partial = 0;
	bool pipe = false;                     // writing to it when it is down raises SIGPIPE
	std::string accept_frame, finish_frame;
	// state
	int ops = 0, n_destroy = 0, faults = 0; bool is_open = false, busy = false;
	std::string bad;
	int64_t in_op_since = -1;              // an operation is being delayed
	void oops(const std::string &s) { if (bad.empty()) bad = s; sim::error("transport misuse: " + s); }
	bool begin_op(const char *what) {
		if (busy) oops(std::string(what) + " while another operation is in progress");
		if (n_destroy) oops(std::string(what) + " after destroy");
		busy = true;
		int k = ops++;
		int64_t t0 = sim::now();
		bool f = fail_ops.count(k);
		for (auto &w : down) if (t0 >= w.first && t0 < w.second) f = true;
		in_op_since = t0;
		auto d = delay.find(k);
		if (d != delay.end()) sim::sleep_for(d->second); else sim::yield();
		in_op_since = -1;
		cur_op = k;
		if (f) { faults++; if (strcmp(what, "close")) { begin_outage(t0); fault_at.push_back(sim::now()); } }
		NOTE("  [%.6f] %s %s\n", sim::now() / 1e9, what, f ? "FAILS" : "");
		return f;
	}
	int cur_op = 0;
	void end_op() { busy = false; sim::yield(); }
	void begin_outage(int64_t t) { if (outage_start < 0) outage_start = t; }
	void end_outage() { if (outage_start >= 0) { outages.push_back({outage_start, sim::now()}); outage_start = -1; } }
	fstrm_res op_open() {
		open_at.push_back(sim::now());
		if (is_open) oops("open of an open transport");
		bool f = begin_op("open");
		if (!f) { is_open = true; conns.emplace_back(); conns.back().opened = sim::now(); }
		end_op();
		return f ? fstrm_res_failure : fstrm_res_success;
	}
	std::function<void()> before_close;
	fstrm_res op_close() {
		if (before_close) before_close();
		if (!is_open) oops("close of a closed transport");
		bool f = begin_op("close");
		is_open = false;
		if (!conns.empty()) { conns.back().closed = true; if (conns.back().down < 0) conns.back().down = sim::now(); }
		end_op();
		return f ? fstrm_res_failure : fstrm_res_success;
	}
	fstrm_res op_read(void *p, size_t n) {
		if (!is_open) { oops("read on a closed transport"); return fstrm_res_failure; }
		bool f = begin_op("read");
		fstrm_res r = fstrm_res_failure;
		if (!f) {
			auto &c = conns.back();
			std::string in = c.out.empty() ? "" : accept_frame;
			if (c.out.size() >= 12 && c.out.compare(c.out.size() - 12, 12, ref::encode({ref::STOP, {}})) == 0) in += finish_frame;
			if (in.size() - std::min(in.size(), c.consumed) >= n) { memcpy(p, in.data() + c.consumed, n); c.consumed += n; r = fstrm_res_success; }
			else { r = fstrm_res_stop; oops(strf("read of %zu bytes the peer never sends", n)); }
		}
		end_op();
		return r;
	}
	fstrm_res op_write(const struct iovec *iov, int cnt) {
		if (!is_open) { oops("write on a closed transport"); return fstrm_res_failure; }
		bool f = begin_op("write");
		auto &c = conns.back();
		size_t left = SIZE_MAX;
		if (f) { auto it = partial.find(cur_op); left = it != partial.end() ? it->second : def_partial; if (c.down < 0) c.down = sim::now(); if (pipe && !sim::stands(SIGPIPE)) oops("the broken pipe's signal (SIGPIPE) reaches the process"); }
		for (int i = 0; i < cnt && left; i++) { size_t k = std::min(left, iov[i].iov_len); c.out.append((const char *)iov[i].iov_base, k); left -= k; }
		c.marks.push_back({sim::now(), c.out.size()});
		if (!f && c.up < 0 && c.out.size() >= expect_up.size()) { c.up = sim::now(); end_outage(); }
		end_op();
		return f ? fstrm_res_failure : fstrm_res_success;
	}
	static SimTransport *self(void *o) { return (SimTransport *)o; }
	struct fstrm_rdwr *rdwr() {
		struct fstrm_rdwr *r = fstrm_rdwr_init(this);
		fstrm_rdwr_set_destroy(r, [](void *o) -> fstrm_res { auto m = self(o); if (m->n_destroy++) m->oops("destroyed twice"); if (m->is_open) m->oops("destroyed while open"); return fstrm_res_success; });
		fstrm_rdwr_set_open(r, [](void *o) -> fstrm_res { return self(o)->op_open(); });
		fstrm_rdwr_set_close(r, [](void *o) -> fstrm_res { return self(o)->op_close(); });
		if (bidir) fstrm_rdwr_set_read(r, [](void *o, void *p, size_t n) -> fstrm_res { return self(o)->op_read(p, n); });
		fstrm_rdwr_set_write(r, [](void *o, const struct iovec *v, int n) -> fstrm_res { return self(o)->op_write(v, n); });
		return r;
	}
};

// ---- messages ----
struct Msg {
	int id, q; std::string data; bool nofree = false;
	uint8_t *ptr = nullptr; size_t len = 0;
	bool submitted = false; fstrm_res res = fstrm_res_failure;
	uint64_t s_call = 0, s_ret = 0; int64_t t_call = 0, t_ret = 0, blocked = 0;
	int freed = 0; int64_t t_freed = -1;
	int delivered = 0, conn = -1; size_t pos = 0; int64_t t_out = -1;
	bool stalled = false;       // submitted while a transport operation was being delayed
	struct World *w = nullptr;
};
struct World {
	Cfg cfg; SimTransport tr;
	std::vector<std::unique_ptr<Msg>> msgs;
	std::map<std::string, Msg *> by_data;
	struct fstrm_iothr *io = nullptr;
	std::vector<struct fstrm_iothr_queue *> qs;
	uint64_t stamp = 0;
	int64_t destroy_call = -1, destroy_ret = -1;
	bool free_yields = false;
	size_t heap0 = 0;
	~World() { for (auto &m : msgs) delete[] m->ptr; }

	// Make a message of about this length with unique contents.
	Msg *make(int q, size_t len, bool nofree = false) {
		auto m = std::make_unique<Msg>();
		m->id = (int)msgs.size(); m->q = q; m->w = this; m->nofree = nofree;
		if (len < 1) len = 1;
		for (;; len++) {
			std::string s(len, 0); uint64_t x = (m->id + 1) * 0x9E3779B97F4A7C15ull;
			for (size_t i = 0; i < len; i++) { if (i < 2) s[i] = (char)(m->id >> (8 * i)); else { x = x * 6364136223846793005ull + 1442695040888963407ull; s[i] = (char)(x >> 56); } }
			if (!by_data.count(s)) { m->data = s; break; }
		}
		by_data[m->data] = m.get();
		msgs.push_back(std::move(m));
		return msgs.back().get();
	}
	static void on_free(void *data, void *arg) {
		Msg *m = (Msg *)arg;
		m->freed++;
		if (m->t_freed < 0) m->t_freed = sim::now();
		NOTE("  [%.6f] free m%d\n", sim::now() / 1e9, m->id);
		if (!m->submitted || m->res != fstrm_res_success) { if (m->s_ret) sim::error(strf("free callback called for message %d, whose submission was refused", m->id)); }
		if (m->freed > 1) { sim::error(strf("free callback called %d times for message %d", m->freed, m->id)); return; }
		if (data != m->ptr) { sim::error(strf("free callback for message %d got the wrong data pointer", m->id)); return; }
		memset(m->ptr, 0xDD, m->data.size());
		delete[] m->ptr; m->ptr = nullptr;
		if (m->w->free_yields) sim::yield();
	}
	fstrm_res submit(Msg *m) {
		if (!m->ptr) { m->ptr = new uint8_t[m->data.size()]; memcpy(m->ptr, m->data.data(), m->data.size()); }
		m->submitted = true; m->res = fstrm_res_success;   // (assumed by on_free while the call runs)
		m->s_ret = 0;
		m->stalled = tr.in_op_since >= 0;
		m->t_call = sim::now(); m->s_call = ++stamp;
		int64_t b = sim::blocked();
		fstrm_res r = fstrm_iothr_submit(io, qs[m->q], m->ptr, m->data.size(), m->nofree ? nullptr : on_free, m);
		m->blocked = sim::blocked() - b;
		m->res = r; m->s_ret = ++stamp; m->t_ret = sim::now();
		NOTE("  [%.6f] submit m%d (%zu bytes, queue %d) -> %d\n", sim::now() / 1e9, m->id, m->data.size(), m->q, (int)r);
		if (r != fstrm_res_success && m->freed) sim::error(strf("free callback called for message %d, whose submission was refused", m->id));
		if (r == fstrm_res_success && m->blocked > sim::MS) sim::error(strf("submission of message %d blocked for %.3f s", m->id, m->blocked / 1e9));
		return r;
	}
	void options(struct fstrm_iothr_options *o) {
		auto ok = [](fstrm_res r, const char *n) { CHECK(r == fstrm_res_success, "option %s refused a valid value", n); };
		ok(fstrm_iothr_options_set_buffer_hint(o, cfg.hint), "buffer_hint");
		ok(fstrm_iothr_options_set_flush_timeout(o, cfg.T), "flush_timeout");
		ok(fstrm_iothr_options_set_input_queue_size(o, cfg.qsize), "input_queue_size");
		ok(fstrm_iothr_options_set_num_input_queues(o, cfg.nq), "num_input_queues");
		ok(fstrm_iothr_options_set_output_queue_size(o, cfg.oq), "output_queue_size");
		ok(fstrm_iothr_options_set_queue_model(o, cfg.model), "queue_model");
		ok(fstrm_iothr_options_set_queue_notify_threshold(o, cfg.thr), "queue_notify_threshold");
		ok(fstrm_iothr_options_set_reopen_interval(o, cfg.reopen), "reopen_interval");
	}
	struct fstrm_writer *make_writer() {
		tr.bidir = cfg.bidir;
		tr.accept_frame = ref::encode({ref::ACCEPT, cfg.cts.empty() ? std::vector<std::string>{} : std::vector<std::string>{cfg.cts[0]}});
		tr.finish_frame = ref::encode({ref::FINISH, {}});
		std::vector<std::string> first; if (!cfg.cts.empty()) first.push_back(cfg.cts[0]);
		tr.expect_up = (cfg.bidir ? ref::encode({ref::READY, cfg.cts}) : "") + ref::encode({ref::START, first});
		auto *wo = wopts(cfg.cts);
		auto *rd = tr.rdwr();
		auto *w = fstrm_writer_init(wo, &rd);
		fstrm_writer_options_destroy(&wo);
		CHECK(w, "fstrm_writer_init failed");
		return w;
	}
	// Creates the I/O thread (inside the simulation).
	void create() {
		heap0 = heap_live();
		auto *w = make_writer();
		struct fstrm_iothr_options *o = nullptr;
		if (!cfg.defaults) { o = fstrm_iothr_options_init(); options(o); }
		io = fstrm_iothr_init(o, &w);
		if (o) fstrm_iothr_options_destroy(&o);
		if (!io) { if (w) fstrm_writer_destroy(&w); fail("fstrm_iothr_init failed for accepted options"); }
		if (w) sim::error("fstrm_iothr_init left the writer with the caller");
		for (unsigned i = 0, k = 0; i < cfg.nq; i++) {
			if (i >= cfg.one_by_one) { // any queue that is not yet in use
				struct fstrm_iothr_queue *q = nullptr;
				for (; k < cfg.nq; k++) { q = fstrm_iothr_get_input_queue_idx(io, k); if (q && std::find(qs.begin(), qs.end(), q) == qs.end()) { k++; break; } q = nullptr; }
				if (!q) { sim::error(strf("only %u of %u queues can be obtained", i, cfg.nq)); q = fstrm_iothr_get_input_queue_idx(io, 0); }
				qs.push_back(q);
				continue;
			}
			auto *q = fstrm_iothr_get_input_queue(io);
			if (!q) { sim::error(strf("get_input_queue returned NULL for queue %u of %u", i, cfg.nq)); q = fstrm_iothr_get_input_queue_idx(io, 0); }
			qs.push_back(q);
		}
	}
	void destroy() {
		destroy_call = sim::now();
		NOTE("  [%.6f] destroy called\n", sim::now() / 1e9);
		fstrm_iothr_destroy(&io);
		destroy_ret = sim::now();
		NOTE("  [%.6f] destroy returned\n", sim::now() / 1e9);
		if (io) sim::error("fstrm_iothr_destroy did not clear the pointer");
		if (tr.n_destroy != 1) sim::error("the transport was not destroyed");
		if (tr.is_open) sim::error("destroy returned with the transport open");
	}
	// Ends the simulation and reports the first error.
	void finish() {
		sim::end();
		if (!sim::first_error().empty()) fail("%s", sim::first_error().c_str());
	}
	std::string name(Msg *m) const { return strf("message %d (queue %d, %zu bytes)", m->id, m->q, m->data.size()); }

	// Parse everything that was written; fills in delivery. Fails if a
	// connection is not a prefix of one well-formed stream of submitted messages.
	std::vector<Msg *> order;
	void parse(bool complete) {
		order.clear();
		std::vector<std::string> first; if (!cfg.cts.empty()) first.push_back(cfg.cts[0]);
		std::string ready = ref::encode({ref::READY, cfg.cts}), start = ref::encode({ref::START, first}), stop = ref::encode({ref::STOP, {}});
		for (size_t ci = 0; ci < tr.conns.size(); ci++) {
			auto &c = tr.conns[ci]; const std::string &s = c.out; size_t o = 0;
			auto fixed = [&](const std::string &x, const char *what) -> bool {
				size_t n = std::min(x.size(), s.size() - o);
				CHECK(s.compare(o, n, x, 0, n) == 0, "connection %zu: %s expected at offset %zu, found %s", ci, what, o, ref::hex(s.substr(o, x.size())).c_str());
				o += n; return n == x.size();
			};
			bool full = true;
			if (cfg.bidir) full = fixed(ready, "READY");
			if (full) full = fixed(start, "START");
			bool stopped = false;
			while (full && o < s.size()) {
				CHECK(!stopped, "connection %zu: %zu bytes after STOP", ci, s.size() - o);
				if (s.size() - o < 4) {
					bool pre = stop.compare(0, s.size() - o, s, o) == 0;
					for (auto &m : msgs) { std::string h = ref::be32(m->data.size()); if (h.compare(0, s.size() - o, s, o, std::string::npos) == 0) pre = true; }
					CHECK(pre, "connection %zu ends with bytes of no frame", ci);
					full = false; break;
				}
				uint32_t n = ref::rd32(s, o);
				if (n == 0) { full = fixed(stop, "STOP"); stopped = full; continue; }
				if (n > s.size() - o - 4) {
					std::string part = s.substr(o + 4); bool pre = false;
					for (auto &m : msgs) if (m->submitted && m->data.size() == n && m->data.compare(0, part.size(), part) == 0) pre = true;
					CHECK(pre, "connection %zu ends with part of a frame (length %u) that is not part of any submitted message", ci, n);
					full = false; break;
				}
				auto it = by_data.find(s.substr(o + 4, n));
				CHECK(it != by_data.end() && it->second->submitted, "connection %zu: data frame of %u bytes at offset %zu is not a submitted message: %s", ci, n, o, ref::hex(s.substr(o + 4, n)).c_str());
				Msg *m = it->second;
				CHECK(m->res == fstrm_res_success, "%s was written although its submission was refused", name(m).c_str());
				m->delivered++;
				CHECK(m->delivered == 1, "%s was written %d times", name(m).c_str(), m->delivered);
				m->conn = (int)ci; m->pos = o; o += 4 + n;
				for (auto &k : c.marks) if (k.second >= o) { m->t_out = k.first; break; }
				order.push_back(m);
			}
			if (complete) CHECK(stopped && o == s.size(), "connection %zu is not a complete stream: %s", ci, stopped ? "trailing bytes" : "no STOP at the end");
		}
	}
	// Messages of one queue come out in submission order.
	void check_order() {
		for (unsigned q = 0; q < cfg.nq; q++) {
			uint64_t maxcall = 0; Msg *mm = nullptr;
			for (auto m : order) if (m->q == (int)q) {
				CHECK(m->s_ret > maxcall, "%s was written after %s, which was submitted later to the same queue", name(m).c_str(), mm ? name(mm).c_str() : "");
				if (m->s_call > maxcall) { maxcall = m->s_call; mm = m; }
			}
		}
	}
	void check_frees() {
		for (auto &m : msgs) if (m->submitted && !m->nofree) {
			if (m->res == fstrm_res_success) CHECK(m->freed == 1, "%s was accepted, but its free callback had been called %d times when destroy returned", name(m.get()).c_str(), m->freed);
			else CHECK(m->freed == 0, "%s was refused (%d), but its free callback was called", name(m.get()).c_str(), (int)m->res);
		}
	}
	void check_heap() {
		size_t h = heap_live();
		CHECK(h == heap0, "%zd block(s) allocated by the library were not freed", (ssize_t)h - (ssize_t)heap0);
	}
	size_t accepted() const { size_t n = 0; for (auto &m : msgs) n += m->submitted && m->res == fstrm_res_success; return n; }
	size_t refused() const { size_t n = 0; for (auto &m : msgs) n += m->submitted && m->res != fstrm_res_success; return n; }
};

// ---- workload ----
struct Step { enum { SUBMIT, SLEEP, YIELD } op; int q; size_t len; int64_t dt; bool nofree; };
struct Workload {
	struct Producer { std::vector<Step> steps; int retry; };
	std::vector<Producer> ps;
	int64_t tail = 0;          // main waits this long before destroying
	bool early = false;        // the producers are started and destroy follows directly after they finish
	std::string str() const {
		std::string r;
		for (auto &p : ps) { r += strf(" P[retry=%d:", p.retry); for (size_t i = 0; i < p.steps.size(); i++) {
				auto &s = p.steps[i]; size_t n = 1;
				if (s.op == Step::SUBMIT) while (i + 1 < p.steps.size() && p.steps[i + 1].op == s.op && p.steps[i + 1].q == s.q && p.steps[i + 1].len == s.len) { i++; n++; }
				r += s.op == Step::SUBMIT ? strf(" q%d:%zuB", s.q, s.len) : s.op == Step::SLEEP ? strf(" sleep%.3f", s.dt / 1e9) : " yield";
				if (n > 1) r += strf("x%zu", n);
			}
			r += "]"; if (r.size() > 900) { r += "..."; break; } }
		return r + strf(" tail=%.3f", tail / 1e9);
	}
};
inline size_t gen_len(Tape &t) {
	switch (t.weighted({6, 3, 2, 1, 1})) {
	case 0: return 1 + t.range(0, 30);
	case 1: return 1 + t.range(0, 3);
	case 2: return 200 + t.range(0, 255) * 4;
	case 3: return 1000 + t.range(0, 40);
	default: return 1 + t.raw(2) % 9000;
	}
}
inline Workload gen_work(Tape &t, const Cfg &c, unsigned max_steps, bool with_nofree = false) {
	Workload w;
	bool mp = c.model == FSTRM_IOTHR_QUEUE_MODEL_MPSC;
	unsigned np = mp ? 1 + t.weighted({2, 4, 2, 1}) : 1 + t.range(0, c.nq - 1);
	unsigned left = max_steps;
	for (unsigned i = 0; i < np; i++) {
		Workload::Producer p;
		p.retry = t.weighted({3, 2, 1});
		unsigned n = t.range(0, std::min(40u, left)); left -= n;
		for (unsigned k = 0; k < n; k++) {
			Step s{Step::SUBMIT, 0, 0, 0, false};
			switch (t.weighted({12, 3, 2, 1})) {
			case 0: case 3: {
				s.q = mp ? t.range(0, c.nq - 1) : (c.nq > np ? (int)(i + np * t.range(0, (c.nq - 1 - i) / np)) : (int)i);
				s.len = gen_len(t);
				s.nofree = with_nofree && t.chance(20);
				// bursts
				unsigned rep = t.weighted({8, 2}) ? 1 + t.range(0, std::min(2 * c.qsize, 60u)) : 0;
				for (unsigned j = 0; j < rep && p.steps.size() < 400; j++) p.steps.push_back(s);
				break;
			}
			case 1: {
				s.op = Step::SLEEP;
				static const int64_t num[] = {1, 5, 10, 11, 2, 20, 25, 50, 100};
				switch (t.weighted({3, 3, 2})) {
				case 0: s.dt = num[t.range(0, 8)] * c.T * sim::SEC / 10; break;
				case 1: s.dt = (1 + t.range(0, 100)) * sim::MS; break;
				default: s.dt = (1 + t.range(0, 255)) * c.reopen * sim::SEC / 50;
				}
				break;
			}
			default: s.op = Step::YIELD;
			}
			p.steps.push_back(s);
		}
		w.ps.push_back(std::move(p));
	}
	switch (t.weighted({4, 1, 1, 1})) {
	case 0: w.tail = 0; break;
	case 1: w.tail = c.T * sim::SEC; break;
	case 2: w.tail = (t.range(0, 255) * c.T * sim::SEC) / 64; break;
	default: w.tail = 3 * (int64_t)c.T * sim::SEC + 2 * (int64_t)c.reopen * sim::SEC;
	}
	return w;
}
inline void run_producer(World &W, const Workload::Producer &p) {
	for (auto &s : p.steps) {
		if (s.op == Step::SLEEP) { sim::sleep_for(s.dt); continue; }
		if (s.op == Step::YIELD) { sim::yield(); continue; }
		Msg *m = W.make(s.q, s.len, s.nofree);
		fstrm_res r = W.submit(m);
		int tries = 0;
		while (r == fstrm_res_again && tries < (p.retry == 0 ? 0 : 3)) {
			if (p.retry == 1) sim::sleep_for(sim::MS); else sim::yield();
			// a new attempt is a new submission of a new message
			uint8_t *old = m->ptr; m->ptr = nullptr; delete[] old;
			m = W.make(s.q, s.len, s.nofree); r = W.submit(m); tries++;
		}
		if (r != fstrm_res_success && r != fstrm_res_again) sim::error(strf("submission of message %d returned %d", m->id, (int)r));
		if (r != fstrm_res_success) { delete[] m->ptr; m->ptr = nullptr; }
	}
}
inline void run_all(World &W, const Workload &wl) {
	std::vector<int> ids;
	for (size_t i = 0; i < wl.ps.size(); i++) ids.push_back(sim::spawn("producer", [&W, &wl, i] { run_producer(W, wl.ps[i]); }));
	for (int id : ids) sim::join(id);
	if (wl.tail) sim::sleep_for(wl.tail);
}

// ---- faults ----
inline void gen_faults(Tape &t, World &W, bool delays = true) {
	auto &tr = W.tr;
	tr.def_partial = t.weighted({3, 3, 1}) == 0 ? 0 : t.range(0, 3000);
	switch (t.weighted({2, 4, 3, 2})) {
	case 0: break;
	case 1: { unsigned n = t.range(1, 5); for (unsigned i = 0; i < n; i++) tr.fail_ops.insert(t.range(0, 24)); break; }
	case 2: { // windows of outage
		unsigned n = t.range(1, 3); int64_t at = t.flip() ? 0 : t.range(0, 255) * W.cfg.T * sim::SEC / 16;
		for (unsigned i = 0; i < n; i++) { int64_t d = 1 + t.range(0, 255) * (W.cfg.T + W.cfg.reopen) * sim::SEC / 64; tr.down.push_back({at, at + d}); at += d + t.range(0, 255) * (W.cfg.T + W.cfg.reopen) * sim::SEC / 32; }
		break;
	}
	default: // many single failures
		for (int i = 0; i < 40; i++) if (t.chance(60)) tr.fail_ops.insert(i);
	}
	for (int i = 0; i < 3; i++) tr.partial[t.range(0, 24)] = t.weighted({2, 1}) ? t.range(0, 3000) : t.range(0, 60);
	if (delays && t.chance(80)) for (int i = 0; i < 4; i++) tr.delay[t.range(0, 24)] = t.range(1, 255) * sim::MS * 20;
}
inline std::string fault_str(const World &W) {
	std::string r = " faults{";
	for (int k : W.tr.fail_ops) r += strf(" op%d", k);
	for (auto &w : W.tr.down) r += strf(" down[%.3f,%.3f)", w.first / 1e9, w.second / 1e9);
	for (auto &d : W.tr.delay) r += strf(" delay%d=%.3f", d.first, d.second / 1e9);
	return r + "}";
}
