// C08: transport lifecycle under call histories and injected faults.
#include "mock.hpp"
const PropInfo prop_info = {
	"C08",
	"A case is a random call history on a writer or reader over a one-way or two-way recording transport. It is executed once without faults, then once for every transport operation of that execution with that operation failing (reads with failure or end-of-stream, writes after emitting a partial prefix), for some random pairs, and with peers that refuse the content types, answer with a wrong, malformed or no frame, or do not confirm the end. Non-trivial: a failing run in which the stream had been opened before the fault.",
	"fault_enumeration", 90000, 4000000, 500, 8, false, 60,
	{"A transport operation that fails may have emitted any prefix of its bytes; the transport's own destroy operation does not fail."}
};
void prop_setup() {}

struct Call { int k; std::string p; int n; };
static std::string prefix_check(const std::string &actual, const std::string &base, const std::string &full) {
	// actual must be base + prefix(full)
	if (actual.size() < base.size() || actual.compare(0, base.size(), base) || actual.size() > base.size() + full.size()) return "not an extension of what was sent before";
	if (full.compare(0, actual.size() - base.size(), actual, base.size(), std::string::npos)) return "not a prefix of the call's own bytes";
	return "";
}
struct Out { int ops; bool nontriv; };
// What the peer of each connection does wrong: 0 nothing, 1 no matching content
// type, 2 wrong frame, 3 no reply, 4 over-long frame (all in the handshake);
// 5 wrong, 6 no, 7 malformed reply at the end. Readers: 5 START with another
// content type, 6 wrong frame instead of START, 7 malformed START.
typedef std::vector<int> Bad;
static int bad_of(const Bad &b, size_t conn) { return conn < b.size() ? b[conn] : 0; }

static Out run_writer(bool two, const std::vector<std::string> &cts, const std::vector<Call> &calls, bool destroy_open, const std::set<int> &faults, const Bad &bad, fstrm_res fault, size_t partial, const std::string &what, std::string *trace) {
	heap_reset();
	Mock m(two, true); m.fail_ops = faults; m.partial = partial; m.fault = fault;
	ref::Ctl acc; acc.type = ref::ACCEPT; acc.cts = cts;
	m.peer = [&](int c, const std::string &) {
		ref::Ctl a = acc; int k = bad_of(bad, c);
		if (k == 3) return std::string();
		if (k == 4) return ref::be32(0) + ref::be32(700) + std::string(700, 0);
		if (k == 2 || (k == 1 && cts.empty())) a.type = ref::READY;
		else if (k == 1) a.cts = {std::string(9, '~')};
		std::string s = ref::encode(a);
		if (k == 5) s += ref::encode({ref::STOP, {}});
		else if (k == 7) s += ref::frame(ref::be32(ref::FINISH) + "x");
		else if (k != 6) s += ref::encode({ref::FINISH, {}});
		return s;
	};
	auto bad_hs = [&](size_t c) { int k = two ? bad_of(bad, c) : 0; return k >= 1 && k <= 4; };
	auto bad_fin = [&](size_t c) { return two && bad_of(bad, c) >= 5; };
	std::string hs, ready, stop = ref::encode({ref::STOP, {}});
	if (two) { ref::Ctl r = acc; r.type = ref::READY; hs += ready = ref::encode(r); }
	ref::Ctl st; st.type = ref::START; if (!cts.empty()) st.cts = {cts[0]};
	hs += ref::encode(st);
	WriterH h; h.w = mk_writer(m, cts);
	std::vector<std::string> exp;
	enum { OPENING, OPEN, CLOSED, BROKEN } s = OPENING;
	bool nontriv = false;
	auto step = [&](const char *name, int i, fstrm_res r, bool needs_open, const std::string &own, bool closing, size_t conns0, int faults0, int ops0) {
		bool ok = r == fstrm_res_success;
		int hit = m.faults_hit - faults0;
		m.check();
		if (m.conns.size() > conns0 && bad_hs(conns0)) hit++;
		if (closing && s == OPEN && bad_fin(conns0 - 1)) hit++;
		if (ok) CHECK(hit == 0, "%s: call %d (%s) reported success although %d transport operation(s) or replies of the peer were wrong", what.c_str(), i, name, hit);
		std::string full = own;
		bool opened_now = m.conns.size() > conns0;
		CHECK(m.conns.size() <= conns0 + 1, "%s: call %d (%s) opened the transport twice", what.c_str(), i, name);
		if (opened_now) { exp.emplace_back(); full = bad_hs(conns0) ? ready : hs + own; }
		if (!ok && hit == 0 && s != BROKEN) {
			// refused without touching the transport
			CHECK(s == CLOSED || (closing && s == OPENING), "%s: call %d (%s) failed without any fault", what.c_str(), i, name);
			CHECK(m.ops == ops0, "%s: refused call %d (%s) used the transport", what.c_str(), i, name);
			return;
		}
		if (ok) {
			if (s == BROKEN && m.ops == ops0) {                       // nothing to write, nothing done
				CHECK(own.empty(), "%s: call %d (%s) reported success on a broken stream without writing", what.c_str(), i, name);
				return;
			}
			if (s == OPENING || opened_now) CHECK(opened_now, "%s: call %d (%s) succeeded without opening the transport", what.c_str(), i, name);
			else if (needs_open) CHECK(s == OPEN, "%s: call %d (%s) succeeded on a stream that is not open", what.c_str(), i, name);
			exp.back() += full;
			CHECK(m.cur().out == exp.back(), "%s: call %d (%s) succeeded but the stream holds %zu bytes, expected %zu", what.c_str(), i, name, m.cur().out.size(), exp.back().size());
			CHECK(m.is_open == !closing, "%s: call %d (%s) succeeded and left the transport %s", what.c_str(), i, name, m.is_open ? "open" : "closed");
			s = closing ? CLOSED : OPEN;
			return;
		}
		// failed with a fault (or on an already broken stream)
		if (!exp.empty()) {
			std::string e = prefix_check(m.conns.back().out, exp.back(), full);
			CHECK(e.empty(), "%s: call %d (%s) failed and emitted bytes that are %s", what.c_str(), i, name, e.c_str());
			if (s == BROKEN && hit == 0) CHECK(m.conns.back().out == exp.back(), "%s: call %d (%s) wrote to a broken stream", what.c_str(), i, name);
			exp.back() = m.conns.back().out;
		}
		CHECK(!m.is_open, "%s: call %d (%s) failed and left the transport open", what.c_str(), i, name);
		if (s == OPEN) nontriv = true;
		if (closing) s = s == BROKEN ? BROKEN : CLOSED;
		else if (s == OPEN || !own.empty()) s = BROKEN;   // implicit open may or may not have succeeded
		// a failed open leaves OPENING/CLOSED as it was
	};
	int i = 0;
	for (auto &c : calls) {
		NOTE("[%s] call %d kind %d state %d\n", what.c_str(), i, c.k, (int)s);
		size_t conns0 = m.conns.size(); int f0 = m.faults_hit, o0 = m.ops;
		if (trace) *trace += c.k == 0 ? "open " : c.k == 1 ? "write " : c.k == 2 ? "writev " : c.k == 3 ? "close " : "get ";
		switch (c.k) {
		case 0: {
			fstrm_res r = fstrm_writer_open(h.w);
			if (s == OPEN) { CHECK(r == fstrm_res_success && m.ops == o0, "%s: open of an open writer: result %d, %d operations", what.c_str(), r, m.ops - o0); break; }
			if (s == CLOSED) s = OPENING, step("reopen", i, r, true, "", false, conns0, f0, o0), s = s == OPENING ? CLOSED : s;
			else step("open", i, r, true, "", false, conns0, f0, o0);
			break;
		}
		case 1: { Exact e(c.p); fstrm_res r = fstrm_writer_write(h.w, e.p, e.n); step("write", i, r, true, ref::data(c.p), false, conns0, f0, o0); break; }
		case 2: {
			std::vector<std::unique_ptr<Exact>> b; std::vector<struct iovec> v; std::string own;
			for (int k = 0; k < c.n; k++) { std::string p = c.p + std::string(1 + k % 3, 'a' + k % 26); b.emplace_back(new Exact(p)); v.push_back({b.back()->p, b.back()->n}); own += ref::data(p); }
			fstrm_res r = fstrm_writer_writev(h.w, v.data(), c.n);
			step("writev", i, r, true, own, false, conns0, f0, o0);
			break;
		}
		case 3: { fstrm_res r = fstrm_writer_close(h.w); step("close", i, r, true, stop, true, conns0, f0, o0); break; }
		case 4: {
			struct fstrm_control *ctl = nullptr;
			fstrm_res r = fstrm_writer_get_control(h.w, FSTRM_CONTROL_START, &ctl);
			if (s == OPENING || s == BROKEN) step("get_control", i, r, true, "", false, conns0, f0, o0);
			else CHECK(m.ops == o0, "%s: get_control used the transport", what.c_str());
			break;
		}
		}
		i++;
	}
	if (destroy_open && s == CLOSED) { size_t c0 = m.conns.size(); (void)fstrm_writer_open(h.w); if (m.conns.size() > c0) exp.push_back(m.conns.back().out); if (m.is_open) s = OPEN; }
	int f0 = m.faults_hit;
	fstrm_res r = fstrm_writer_destroy(&h.w);
	int ops = m.ops - 1;
	m.check();
	CHECK(h.w == nullptr, "destroy left the pointer");
	CHECK(m.n_destroy == 1, "%s: transport destroyed %d times", what.c_str(), m.n_destroy);
	CHECK(!m.is_open, "%s: transport left open by destroy", what.c_str());
	if (s == OPEN) {
		CHECK((r == fstrm_res_success) == (m.faults_hit == f0 && !bad_fin(m.conns.size() - 1)), "%s: destroy of an open writer returned %d with %d failed operations", what.c_str(), r, m.faults_hit - f0);
		std::string e = prefix_check(m.conns.back().out, exp.back(), stop);
		CHECK(e.empty(), "%s: destroy emitted bytes that are %s", what.c_str(), e.c_str());
		if (r == fstrm_res_success) CHECK(m.conns.back().out == exp.back() + stop, "%s: destroy succeeded without a complete STOP", what.c_str());
	} else for (size_t k = 0; k < exp.size(); k++) CHECK(m.conns[k].out == exp[k], "%s: destroy changed a finished stream", what.c_str());
	CHECK(m.n_open - (int)faults.size() <= m.n_close, "%s: %d opens, %d closes", what.c_str(), m.n_open, m.n_close);
	CHECK(heap_live() == 0, "%s: %zu blocks leaked", what.c_str(), heap_live());
	return {ops, nontriv};
}

static Out run_reader(bool two, const std::vector<std::string> &cts, const std::vector<Call> &calls, const std::vector<std::string> &payloads, const std::set<int> &faults, const Bad &bad, fstrm_res fault, fstrm_res rf, const std::string &what, std::string *trace) {
	heap_reset();
	Mock m(true, two); m.fail_ops = faults; m.read_fault = rf; m.fault = fault;
	std::string in, hs;
	ref::Ctl c1; c1.cts = cts;
	if (two) { c1.type = ref::READY; in += ref::encode(c1); c1.type = ref::ACCEPT; hs = ref::encode(c1); }
	ref::Ctl st; st.type = ref::START; if (!cts.empty()) st.cts = {cts.back()};
	in += ref::encode(st);
	for (auto &p : payloads) in += ref::data(p);
	in += ref::encode({ref::STOP, {}});
	std::string fin = two ? ref::encode({ref::FINISH, {}}) : "";
	auto kind = [&](size_t c) { int k = bad_of(bad, c); return two || k == 0 || k >= 5 ? k : 0; };
	m.peer = [&](int c, const std::string &) {
		int k = kind(c); std::string s;
		if (!k) return in;
		if (two) {
			ref::Ctl a; a.type = ref::READY; a.cts = cts;
			if (k == 3) return s;
			if (k == 4) return ref::be32(0) + ref::be32(700) + std::string(700, 0);
			if (k == 2 || (k == 1 && cts.empty())) a.type = ref::START;
			else if (k == 1) a.cts = {std::string(9, '~')};
			s += ref::encode(a);
		}
		ref::Ctl b; b.type = k == 6 || cts.empty() ? ref::STOP : ref::START; if (b.type == ref::START) b.cts = {std::string(9, '~')};
		return s + (k == 7 ? ref::frame(ref::be32(ref::START) + "xy") : ref::encode(b));
	};
	auto shake = [&](size_t c) -> std::string {   // what the reader may send while opening
		int k = kind(c);
		if (!two || k == 0 || k >= 5) return hs;
		return k == 1 && !cts.empty() ? ref::encode({ref::ACCEPT, {}}) : "";
	};
	ReaderH h; h.r = mk_reader(m, cts);
	enum { OPENING, OPEN, ENDED, CLOSED, FAILED, UNSURE /* opening or failed */ } s = OPENING;
	size_t pos = 0; bool nontriv = false;
	std::vector<std::string> exp;
	int i = 0;
	// bookkeeping common to everything that may open
	auto opened = [&](const char *name, bool ok, size_t conns0, int hit) {
		CHECK(m.conns.size() <= conns0 + 1, "%s: call %d (%s) opened twice", what.c_str(), i, name);
		if (m.conns.size() > conns0) {
			exp.push_back(m.cur().out); pos = 0;
			if (ok) CHECK(exp.back() == hs, "%s: call %d (%s): reader sent %s while opening", what.c_str(), i, name, ref::hex(exp.back()).c_str());
			else { std::string e = prefix_check(exp.back(), "", shake(conns0)); CHECK(e.empty(), "%s: call %d (%s): handshake bytes are %s", what.c_str(), i, name, e.c_str()); }
		}
		if (m.conns.size() > conns0 && kind(conns0)) hit++;
		if (ok) CHECK(hit == 0, "%s: call %d (%s) reported success although an operation failed or the peer was wrong", what.c_str(), i, name);
		if (ok) CHECK(m.is_open, "%s: call %d (%s) succeeded but the transport is closed", what.c_str(), i, name);
		else CHECK(!m.is_open, "%s: call %d (%s) failed and left the transport open", what.c_str(), i, name);
	};
	for (auto &c : calls) {
		NOTE("[%s] call %d kind %d state %d\n", what.c_str(), i, c.k, (int)s);
		size_t conns0 = m.conns.size(); int f0 = m.faults_hit, o0 = m.ops;
		if (trace) *trace += c.k == 0 ? "open " : c.k == 3 ? "close " : c.k == 4 ? "get " : "read ";
		switch (c.k) {
		case 0: {
			fstrm_res r = fstrm_reader_open(h.r); m.check();
			bool ok = r == fstrm_res_success;
			if (s == OPEN || s == ENDED) { CHECK(!ok && m.ops == o0, "%s: open of an open reader: result %d, %d operations", what.c_str(), r, m.ops - o0); break; }
			opened("open", ok, conns0, m.faults_hit - f0);
			if (!ok) CHECK(m.faults_hit > f0 || (m.conns.size() > conns0 && kind(conns0)), "%s: call %d (open) failed without any fault", what.c_str(), i);
			if (ok) s = OPEN;
			break;
		}
		case 3: {
			fstrm_res r = fstrm_reader_close(h.r); m.check();
			bool ok = r == fstrm_res_success;
			if (s != OPEN && s != ENDED) { CHECK(!ok && m.ops == o0, "%s: close of a reader that is not open: result %d, %d operations", what.c_str(), r, m.ops - o0); break; }
			CHECK(ok == (m.faults_hit == f0), "%s: call %d (close) returned %d with %d failed operations", what.c_str(), i, r, m.faults_hit - f0);
			CHECK(!m.is_open, "%s: close left the transport open", what.c_str());
			{ std::string e = prefix_check(m.cur().out, exp.back(), fin); CHECK(e.empty(), "%s: close emitted bytes that are %s", what.c_str(), e.c_str()); }
			if (ok) CHECK(m.cur().out == exp.back() + fin, "%s: close succeeded without FINISH", what.c_str());
			exp.back() = m.cur().out;
			s = CLOSED;
			break;
		}
		case 4: {
			const struct fstrm_control *ctl = nullptr;
			fstrm_res r = fstrm_reader_get_control(h.r, FSTRM_CONTROL_START, &ctl); m.check();
			if (s == UNSURE && m.ops == o0) break;
			if (s == UNSURE) s = OPENING;
			if (s == OPENING) { opened("get_control", r == fstrm_res_success, conns0, m.faults_hit - f0); if (r == fstrm_res_success) s = OPEN; }
			else CHECK(m.ops == o0, "%s: get_control used the transport", what.c_str());
			break;
		}
		default: {
			const uint8_t *d = nullptr; size_t n = (size_t)-1;
			fstrm_res r = fstrm_reader_read(h.r, &d, &n); m.check();
			bool ok = r == fstrm_res_success; int hit = m.faults_hit - f0 + (m.conns.size() > conns0 && kind(conns0));
			if (ok) CHECK(hit == 0, "%s: call %d (read) reported success although an operation failed", what.c_str(), i);
			if (s == UNSURE && m.ops == o0) { CHECK(!ok, "%s: call %d (read) succeeded without using the transport", what.c_str(), i); break; }
			if (s == UNSURE) s = OPENING;
			if (s == OPENING) {
				bool open_ok = m.is_open;
				if (m.conns.size() > conns0) { exp.push_back(m.cur().out); pos = 0; std::string e = prefix_check(exp.back(), "", shake(conns0)); CHECK(e.empty(), "%s: handshake bytes are %s", what.c_str(), e.c_str()); }
				if (open_ok) { CHECK(exp.back() == hs, "%s: handshake differs", what.c_str()); s = OPEN; }
				else if (hit) s = UNSURE;
			}
			if (s != OPEN) { CHECK(!ok, "%s: call %d (read) succeeded on a reader that is not open", what.c_str(), i); CHECK(s == ENDED ? m.is_open : !m.is_open, "%s: transport open=%d after a refused read", what.c_str(), m.is_open); break; }
			if (ok) {
				CHECK(pos < payloads.size(), "%s: payload past the end", what.c_str());
				CHECK(d && n == payloads[pos].size() && !memcmp(d, payloads[pos].data(), n), "%s: call %d (read): payload %zu differs", what.c_str(), i, pos);
				pos++;
			} else if (hit == 0) {
				CHECK(pos == payloads.size() && r == fstrm_res_stop, "%s: call %d (read) returned %d without any fault after %zu of %zu payloads", what.c_str(), i, r, pos, payloads.size());
				s = ENDED;
			} else { nontriv = true; CHECK(!m.is_open, "%s: failed read left the transport open", what.c_str()); s = FAILED; }
			CHECK(m.cur().out == exp.back(), "%s: read wrote to the transport", what.c_str());
		}
		}
		i++;
	}
	int f0 = m.faults_hit;
	fstrm_res r = fstrm_reader_destroy(&h.r);
	int ops = m.ops - 1;
	m.check();
	CHECK(m.n_destroy == 1, "%s: transport destroyed %d times", what.c_str(), m.n_destroy);
	CHECK(!m.is_open, "%s: transport left open by destroy", what.c_str());
	if (s == OPEN || s == ENDED) {
		CHECK((r == fstrm_res_success) == (m.faults_hit == f0), "%s: destroy returned %d with %d failed operations", what.c_str(), r, m.faults_hit - f0);
		std::string e = prefix_check(m.cur().out, exp.back(), fin);
		CHECK(e.empty(), "%s: destroy emitted bytes that are %s", what.c_str(), e.c_str());
		if (r == fstrm_res_success) CHECK(m.cur().out == exp.back() + fin, "%s: destroy succeeded without FINISH", what.c_str());
	}
	CHECK(heap_live() == 0, "%s: %zu blocks leaked", what.c_str(), heap_live());
	return {ops, nontriv};
}

void prop(Tape &t) {
	bool writer = t.flip(), two = t.flip(), dopen = t.flip();
	std::vector<std::string> cts; for (size_t n = t.range(0, 2); n; n--) cts.push_back(t.bytes(t.range(0, 4)));
	std::vector<Call> calls; int n = 1 + t.range(0, 9);
	for (int i = 0; i < n; i++) {
		Call c; c.k = writer ? (int)t.weighted({3, 5, 3, 4, 1}) : (int)t.weighted({3, 8, 0, 4, 1});
		c.p = t.fill(1 + t.range(0, 9));
		c.n = t.chance(40) ? 120 + t.range(0, 200) : 1 + t.range(0, 4);
		calls.push_back(c);
	}
	std::vector<std::string> payloads; for (size_t k = t.range(0, 4); k; k--) payloads.push_back(t.fill(1 + t.range(0, 600)));
	fstrm_res rf = t.flip() ? fstrm_res_stop : fstrm_res_failure;
	std::string trace = strf("%s %s types %s: ", two ? "two-way" : "one-way", writer ? "writer" : "reader", show(cts).c_str());
	static const fstrm_res codes[] = {fstrm_res_failure, fstrm_res_stop, fstrm_res_again, fstrm_res_invalid};
	fstrm_res fault = codes[t.weighted({5, 1, 1, 1})];
	auto go = [&](const std::set<int> &f, size_t partial, const std::string &what, std::string *tr, const Bad &bad = {}) {
		return writer ? run_writer(two, cts, calls, dopen, f, bad, fault, partial, what, tr) : run_reader(two, cts, calls, payloads, f, bad, fault, rf, what, tr);
	};
	Out o = go({}, 0, "no fault", &trace);
	bool nt = false;
	size_t part = t.range(0, 40);
	for (int k = 0; k < o.ops && k < 60; k++) nt |= go({k}, k % 3 == 0 ? 0 : part, strf("operation %d failing", k), nullptr).nontriv;
	for (int j = 0; j < 3 && o.ops > 1; j++) {
		int a = t.range(0, std::min(o.ops - 1, 60)), b = a + 1 + t.range(0, 8);
		nt |= go({a, b}, t.range(0, 3000), strf("operations %d and %d failing", a, b), nullptr).nontriv;
	}
	for (int j = 0; j < 3; j++) {
		Bad b; for (int k = 1 + t.range(0, 3); k > 0; k--) b.push_back(t.range(0, 7));
		std::string s; for (int k : b) s += strf(" %d", k);
		Out x = go({}, 0, "peer faults" + s, nullptr, b); nt |= x.nontriv;
		if (j == 2 && x.ops > 0) nt |= go({(int)t.range(0, x.ops - 1)}, part, "an operation failing and peer faults" + s, nullptr, b).nontriv;
	}
	if (nt) nontrivial();
	label(writer ? two ? "two-way writer" : "one-way writer" : two ? "two-way reader" : "one-way reader");
	describe(trace + strf("(%d operations, each failed in turn)", o.ops));
}
