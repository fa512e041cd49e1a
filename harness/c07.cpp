// C07: content type negotiation.
#include "mock.hpp"
const PropInfo prop_info = {
	"C07",
	"A case is a two-way writer, two-way reader or one-way reader with random content types whose peer replies follow a random script (well-formed replies with overlapping type lists, wrong frame types, malformed, truncated or unknown frames, several connections); an independent negotiation model predicts every result, every emitted byte and every reported control frame. Non-trivial: at least one side lists two or more types and a connection was negotiated, or a well-formed reply of the right kind was refused for its types.",
	"exploration", 800000, 25000000, 600, 8, false, 30, {}
};
void prop_setup() {}
static std::vector<std::string> pool_cts(Tape &t, const std::vector<std::string> &other, size_t max) {
	std::vector<std::string> v; size_t n = t.range(0, max);
	if (max > 2 && t.chance(16)) { for (n = t.range(4, 60); n; n--) v.push_back(!other.empty() && t.chance(20) ? t.pick(other) : gen_short_ct(t)); return v; }
	for (size_t i = 0; i < n; i++) {
		if (!other.empty() && t.chance(130)) {
			std::string s = t.pick(other);
			switch (t.weighted({6, 1, 1, 1})) { case 1: s += 'x'; break; case 2: if (!s.empty()) s.pop_back(); break; case 3: if (!s.empty()) s[0] ^= 32; break; }
			if (s.size() > 256) s.resize(256);
			v.push_back(s);
		} else v.push_back(gen_ct(t, false));
	}
	return v;
}
// A reply that should be a control frame of type `want`.
static std::string reply(Tape &t, uint32_t want, const std::vector<std::string> &other, size_t max) {
	ref::Ctl c; c.type = want; c.cts = pool_cts(t, other, max);
	while (!ref::encodable(c)) c.cts.pop_back();
	switch (t.weighted({40, 4, 2, 2, 2, 2, 1})) {
	case 1: c.type = 1 + t.range(0, 4); break;
	case 2: { std::string s = ref::payload(c); s += t.fill(t.range(1, 8)); return ref::frame(s); }
	case 3: { std::string s = ref::encode(c); s.resize(t.range(0, s.size() - 1)); return s; }
	case 4: return ref::frame(ref::be32(t.flip() ? 6 : 0) + t.fill(t.range(0, 9)));
	case 5: return ref::data(t.fill(t.range(1, 30))) + ref::encode(c);
	case 6: { std::string s = ref::encode(c); s[t.range(0, s.size() - 1)] ^= 1 << t.range(0, 7); return s; }
	}
	return ref::encode(c);
}
static bool take(const std::string &s, size_t &o, uint32_t want, ref::Ctl &out) {
	if (s.size() < o + 8 || ref::rd32(s, o) != 0) return false;
	uint32_t n = ref::rd32(s, o + 4);
	if (n > 512 || n > s.size() - o - 8) return false;
	auto d = ref::decode_payload(s.substr(o + 8, n));
	if (!d || d->type != want) return false;
	out = *d; o += 8 + n; return true;
}
static void expect_ctl(const struct fstrm_control *c, const std::optional<ref::Ctl> &want, const char *who) {
	if (!want) { CHECK(c == nullptr, "%s: a frame was reported although none was exchanged", who); return; }
	CHECK(c != nullptr, "%s: no frame reported, expected %s", who, show(*want).c_str());
	fstrm_control_type ty; CHECK(fstrm_control_get_type(c, &ty) == fstrm_res_success, "%s: no type", who);
	ref::Ctl got; got.type = ty; got.cts = get_cts(c);
	CHECK(got == *want, "%s: reported %s, expected %s", who, show(got).c_str(), show(*want).c_str());
}

// A frame obtained from a reader or writer stays what it is until that is destroyed (or opened again).
struct Held { const struct fstrm_control *c; std::optional<ref::Ctl> e; int conn; };

static void writer_case(Tape &t) {
	auto own = gen_cts(t, 4);
	int nconn = 1 + t.range(0, 2);
	std::vector<std::string> script;
	for (int i = 0; i < nconn; i++) {
		std::string s = reply(t, ref::ACCEPT, own, 4);
		if (t.chance(220)) s += reply(t, ref::FINISH, {}, 0);
		script.push_back(s);
	}
	std::string D = "writer " + show(own) + ": ";
	Mock m(true, true);
	m.peer = [&](int c, const std::string &) { return c < (int)script.size() ? script[c] : std::string(); };
	WriterH h; h.w = mk_writer(m, own);
	ref::Ctl ready; ready.type = ref::READY; ready.cts = own;
	bool can_ready = ref::encodable(ready);
	int conn = -1; size_t off = 0; std::vector<std::string> exp;
	enum { OPENING, OPEN, CLOSED } st = OPENING;
	std::optional<ref::Ctl> accept, start, finish; bool tried = false;
	bool nego_ok = false, nego_refused = false;
	std::vector<Held> held;
	// what an open attempt does
	auto attempt = [&]() -> bool {
		conn++; off = 0; exp.emplace_back(); tried = true; start.reset(); accept.reset(); finish.reset();
		if (!can_ready) return false;
		exp.back() = ref::encode(ready);
		std::string s = conn < (int)script.size() ? script[conn] : "";
		ref::Ctl a; if (!take(s, off, ref::ACCEPT, a)) return false;
		accept = a;
		ref::Ctl st_; st_.type = ref::START;
		if (!own.empty()) {
			bool hit = false;
			for (auto &c : own) if (ref::matches(a, &c)) { st_.cts = {c}; hit = true; break; }
			if (!hit) { nego_refused = true; return false; }
		}
		exp.back() += ref::encode(st_); start = st_; nego_ok = true;
		D += "-> " + show(st_) + " ";
		return true;
	};
	int n = 2 + t.range(0, 6);
	for (int i = 0; i < n && conn + 1 < (int)script.size() + 1; i++) {
		switch (t.weighted({4, 3, 4, 2})) {
		case 0: {
			if (st == CLOSED && conn + 1 >= (int)script.size()) break;
			fstrm_res r = fstrm_writer_open(h.w);
			bool ok = st == OPEN ? true : attempt();
			D += strf("open=%d ", ok);
			CHECK((r == fstrm_res_success) == ok, "open returned %d, the reply %s", r, ok ? "is acceptable" : "is not acceptable");
			if (ok) st = OPEN;
			break;
		}
		case 1: {
			std::string p = t.fill(1 + t.range(0, 9)); Exact e(p);
			fstrm_res r = fstrm_writer_write(h.w, e.p, e.n);
			bool ok = st == OPEN || (st == OPENING && attempt());
			if (ok) { st = OPEN; exp.back() += ref::data(p); }
			CHECK((r == fstrm_res_success) == ok, "write returned %d, expected %s", r, ok ? "success" : "failure");
			break;
		}
		case 2: {
			static const fstrm_control_type tys[] = {FSTRM_CONTROL_READY, FSTRM_CONTROL_ACCEPT, FSTRM_CONTROL_START, FSTRM_CONTROL_FINISH};
			auto ty = tys[t.range(0, 3)];
			bool after_fail = st == CLOSED && !start;   // frames of a failed reopen: unspecified
			struct fstrm_control *c = nullptr;
			fstrm_res r = fstrm_writer_get_control(h.w, ty, &c);
			bool ok = st != OPENING || attempt();
			if (ok && st == OPENING) st = OPEN;
			CHECK((r == fstrm_res_success) == ok, "get_control returned %d, expected %s", r, ok ? "success" : "failure");
			if (!ok || after_fail) break;
			if (c && (ty != FSTRM_CONTROL_FINISH || (st == CLOSED && finish))) held.push_back({c, ty == FSTRM_CONTROL_READY ? ready : ty == FSTRM_CONTROL_ACCEPT ? accept : ty == FSTRM_CONTROL_START ? start : finish, conn});
			if (ty == FSTRM_CONTROL_READY) expect_ctl(c, ready, "writer READY");
			if (ty == FSTRM_CONTROL_ACCEPT) expect_ctl(c, accept, "writer ACCEPT");
			if (ty == FSTRM_CONTROL_START) expect_ctl(c, start, "writer START");
			if (ty == FSTRM_CONTROL_FINISH && st == CLOSED && finish) expect_ctl(c, finish, "writer FINISH");
			break;
		}
		default: {
			fstrm_res r = fstrm_writer_close(h.w);
			if (st != OPEN) { CHECK(r != fstrm_res_success, "close of a writer that is not open succeeded"); break; }
			exp.back() += ref::encode({ref::STOP, {}});
			ref::Ctl f; std::string s = conn < (int)script.size() ? script[conn] : "";
			bool ok = take(s, off, ref::FINISH, f);
			if (ok) finish = f;
			D += strf("close=%d ", ok);
			CHECK((r == fstrm_res_success) == ok, "close returned %d, the FINISH reply is %s", r, ok ? "well formed" : "missing or malformed");
			st = CLOSED;
		}
		}
		m.check();
		for (auto &x : held) if (x.conn == conn) expect_ctl(x.c, x.e, "writer's frame, obtained earlier,");   // valid until destroy
		CHECK(m.is_open == (st == OPEN), "transport open=%d, stream open=%d", m.is_open, st == OPEN);
		CHECK(m.conns.size() == exp.size(), "%zu connections, expected %zu", m.conns.size(), exp.size());
		for (size_t k = 0; k < exp.size(); k++) CHECK(m.conns[k].out == exp[k], "connection %zu: writer sent %s, expected %s (%s)", k, ref::hex(m.conns[k].out, 300).c_str(), ref::hex(exp[k], 300).c_str(), D.c_str());
	}
	fstrm_writer_destroy(&h.w);
	if (st == OPEN) exp.back() += ref::encode({ref::STOP, {}});
	m.check();
	for (size_t k = 0; k < exp.size(); k++) CHECK(m.conns[k].out == exp[k], "after destroy, connection %zu differs", k);
	CHECK(heap_live() == 0, "%zu blocks leaked", heap_live());
	if ((nego_ok && own.size() > 1) || nego_refused) nontrivial();
	label(nego_ok ? "writer negotiated" : nego_refused ? "writer refused types" : "writer: bad reply");
	describe(D);
}

static void reader_case(Tape &t, bool two) {
	auto own = gen_cts(t, 3);
	int nconn = 1 + t.range(0, 1);
	std::vector<std::string> script, payloads;
	for (int i = 0; i < nconn; i++) {
		std::string s;
		if (two) s += reply(t, ref::READY, own, 4);
		s += reply(t, ref::START, own, 1);
		std::string p = t.fill(1 + t.range(0, 9));
		s += ref::data(p) + ref::encode({ref::STOP, {}});
		script.push_back(s); payloads.push_back(p);
	}
	std::string D = strf("%s reader ", two ? "two-way" : "one-way") + show(own) + ": ";
	Mock m(true, two);
	m.peer = [&](int c, const std::string &) { return c < (int)script.size() ? script[c] : std::string(); };
	ReaderH h; h.r = mk_reader(m, own);
	int conn = -1; size_t off = 0; std::vector<std::string> exp;
	enum { OPENING, OPEN, ENDED, CLOSED, DEAD } st = OPENING;
	std::optional<ref::Ctl> ready, accept, start, stop = ref::Ctl{ref::STOP, {}};
	bool ok_any = false, refused = false, multi = own.size() > 1, got_stop = false;
	std::vector<Held> held;
	auto attempt = [&]() -> bool {
		conn++; off = 0; exp.emplace_back(); ready.reset(); accept.reset(); start.reset();
		std::string s = conn < (int)script.size() ? script[conn] : "";
		if (two) {
			ref::Ctl r; if (!take(s, off, ref::READY, r)) return false;
			ready = r; ref::Ctl a; a.type = ref::ACCEPT;
			if (r.cts.size() > 1) multi = true;
			for (auto &c : own) if (ref::matches(r, &c)) a.cts.push_back(c);
			if (!ref::encodable(a)) return false;
			accept = a; exp.back() = ref::encode(a);
			D += "ACCEPT " + show(a) + " ";
		}
		ref::Ctl x; if (!take(s, off, ref::START, x)) return false;
		bool hit = own.empty();
		for (auto &c : own) hit |= ref::matches(x, &c);
		if (!hit) { refused = true; return false; }
		start = x; ok_any = true;
		return true;
	};
	int n = 2 + t.range(0, 6);
	for (int i = 0; i < n && st != DEAD; i++) {
		switch (t.weighted({4, 5, 4, 2})) {
		case 0: {
			if (st == CLOSED && conn + 1 >= nconn) break;
			fstrm_res r = fstrm_reader_open(h.r);
			if (st == OPEN || st == ENDED) { CHECK(r != fstrm_res_success, "open of an open reader succeeded"); break; }
			bool ok = attempt(); D += strf("open=%d ", ok);
			CHECK((r == fstrm_res_success) == ok, "open returned %d, the handshake %s", r, ok ? "is acceptable" : "is not acceptable");
			if (ok) st = OPEN;
			break;
		}
		case 1: {
			const uint8_t *d = nullptr; size_t k = 0;
			fstrm_res r = fstrm_reader_read(h.r, &d, &k);
			if (st == OPENING) { bool ok = attempt(); if (ok) st = OPEN; else { CHECK(r != fstrm_res_success, "read succeeded without an acceptable handshake"); break; } }
			if (st != OPEN) { CHECK(r != fstrm_res_success, "read succeeded on a finished stream"); break; }
			// the script may have been damaged after START too: follow the bytes
			const std::string &s = script[conn];
			if (s.size() - off >= 4 && ref::rd32(s, off) == payloads[conn].size() && s.compare(off, 4 + payloads[conn].size(), ref::data(payloads[conn])) == 0) {
				CHECK(r == fstrm_res_success && k == payloads[conn].size() && !memcmp(d, payloads[conn].data(), k), "payload after handshake: result %d, %zu bytes", r, k);
				off += 4 + k;
			} else if (s.size() - off == ref::encode({ref::STOP, {}}).size() && s.substr(off) == ref::encode({ref::STOP, {}})) { CHECK(r == fstrm_res_stop, "read at STOP returned %d", r); st = ENDED; got_stop = true; }
			else st = DEAD;
			break;
		}
		case 2: {
			static const fstrm_control_type tys[] = {FSTRM_CONTROL_READY, FSTRM_CONTROL_ACCEPT, FSTRM_CONTROL_START, FSTRM_CONTROL_STOP};
			auto ty = tys[t.range(0, 3)];
			bool after_fail = st == CLOSED && !start;
			const struct fstrm_control *c = nullptr;
			fstrm_res r = fstrm_reader_get_control(h.r, ty, &c);
			bool ok = st != OPENING || attempt();
			if (ok && st == OPENING) st = OPEN;
			CHECK((r == fstrm_res_success) == ok, "get_control returned %d, expected %s", r, ok ? "success" : "failure");
			if (!ok || after_fail) break;
			if (ty == FSTRM_CONTROL_STOP) { if (st == ENDED) expect_ctl(c, stop, "reader STOP"); else if (c && !got_stop) CHECK(!c, "a STOP frame is reported before it was received"); }
			if (c && (ty != FSTRM_CONTROL_STOP || st == ENDED)) held.push_back({c, ty == FSTRM_CONTROL_READY ? ready : ty == FSTRM_CONTROL_ACCEPT ? accept : ty == FSTRM_CONTROL_START ? start : stop, conn});
			if (ty == FSTRM_CONTROL_READY) expect_ctl(c, ready, "reader READY");
			if (ty == FSTRM_CONTROL_ACCEPT) expect_ctl(c, accept, "reader ACCEPT");
			if (ty == FSTRM_CONTROL_START) expect_ctl(c, start, "reader START");
			break;
		}
		default: {
			if (st != OPEN && st != ENDED) break;
			CHECK(fstrm_reader_close(h.r) == fstrm_res_success, "close failed");
			if (two) exp.back() += ref::encode({ref::FINISH, {}});
			st = CLOSED;
		}
		}
		m.check();
		for (auto &x : held) if (x.conn == conn) expect_ctl(x.c, x.e, "reader's frame, obtained earlier,");
		if (st == DEAD) break;
		CHECK(m.conns.size() == exp.size(), "%zu connections, expected %zu", m.conns.size(), exp.size());
		for (size_t k = 0; k < exp.size(); k++) CHECK(m.conns[k].out == exp[k], "connection %zu: reader sent %s, expected %s (%s)", k, ref::hex(m.conns[k].out, 300).c_str(), ref::hex(exp[k], 300).c_str(), D.c_str());
		CHECK(m.is_open == (st == OPEN || st == ENDED), "transport open=%d, stream open=%d", m.is_open, st == OPEN || st == ENDED);
	}
	fstrm_reader_destroy(&h.r);
	m.check();
	CHECK(heap_live() == 0, "%zu blocks leaked", heap_live());
	if ((ok_any && multi) || refused) nontrivial();
	label(ok_any ? "reader negotiated" : refused ? "reader refused types" : "reader: bad peer");
	describe(D);
}
void prop(Tape &t) {
	heap_reset();
	switch (t.weighted({4, 3, 2})) {
	case 0: writer_case(t); break;
	case 1: reader_case(t, true); break;
	default: reader_case(t, false);
	}
}
