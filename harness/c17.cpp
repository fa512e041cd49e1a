// C17: fstrm_capture records exactly the frames of well-behaved clients.
#include "cap.hpp"
const PropInfo prop_info = {
	"C17",
	"A case starts the real capture program (main() in a forked child, real libevent, real UNIX or TCP sockets) with a random content type, buffer size, debug level and output, and runs one to five clients with random offers, frames (sizes around the buffer size, oversized ones included), cut into random chunks that are interleaved across clients; socket reads of the program are shortened at random. The output file must parse as START(type), every client's frames in order, STOP. Non-trivial: at least two data frames were recorded and one was split across chunks or skipped as oversized.",
	"exploration", 10000, 300000, 1200, 8, 2, 60,
	{"In three cases of four each chunk is consumed by the program before the next one is sent, so fragmentation is as generated; in the others the clients do not wait, and some close or half-close their connection with data in flight.", "Time-outs of 10 s decide that the program is wedged."}
};
void prop_setup() { prog_init(); }
void prop(Tape &t) {
	CapConfig c;
	static const char *cts[] = {"t", "protobuf:dnstap.Dnstap", "text", "x y", "tex", "", "t\xc3\xa9"};
	c.ct = t.chance(20) ? std::string(t.range(200, 256), 'q') : cts[t.range(0, 6)];
	c.tcp = t.chance(40); c.to_stdout = t.chance(50);
	c.debug = t.chance(40) ? t.range(1, 6) : 0;
	// buffer size: at least the largest control frame of the case
	int nc = 1 + t.weighted({4, 3, 2, 1, 1});
	struct Plan { std::vector<std::string> offer; bool match; std::vector<std::string> frames; int end; bool empty_start, eager; };
	std::vector<Plan> plans; size_t maxctl = ctl(ref::READY, {c.ct}).size();
	for (int k = 0; k < nc; k++) {
		Plan p; p.match = false;
		size_t n = t.weighted({2, 8, 3, 2, 1});
		for (size_t i = 0; i < n; i++) {
			std::string o = t.chance(150) ? c.ct : t.chance(60) ? c.ct.substr(0, c.ct.size() / 2) : t.chance(60) ? c.ct + "x" : t.chance(30) ? std::string(t.range(100, 256), 'w') : t.bytes(t.range(0, 5));
			if (o.size() > 256) o.resize(256);
			p.offer.push_back(o);
			if (ctl(ref::READY, p.offer).size() > 520) p.offer.pop_back();
		}
		if (t.chance(12)) {    // very many short types
			size_t m = t.range(5, 70), at = t.range(0, m); bool with = t.chance(200);
			for (size_t i = 0; i < m; i++) {
				p.offer.push_back(i == at && with ? c.ct : t.bytes(t.range(0, 2)));
				if (ctl(ref::READY, p.offer).size() > 520) { p.offer.pop_back(); break; }
			}
			label("client offering many types");
		}
		if (t.chance(8)) {     // exactly the largest control frame
			while (ctl(ref::READY, p.offer).size() + 8 < 520) { size_t room = 520 - ctl(ref::READY, p.offer).size() - 8; p.offer.push_back(std::string(std::min<size_t>(room, 256), 'f')); }
			label("READY of nearly 520 bytes");
		}
		for (auto &o : p.offer) p.match |= o == c.ct;
		p.match |= p.offer.empty();
		p.end = t.weighted({8, 2, 2});   // STOP, disconnect, stay
		p.empty_start = p.offer.empty() || t.chance(20);
		p.eager = t.chance(50);          // does not wait for ACCEPT
		maxctl = std::max({maxctl, ctl(ref::READY, p.offer).size(), ctl(ref::START, {c.ct}).size()});
		plans.push_back(p);
	}
	switch (t.weighted({3, 5, 3, 2})) {
	case 0: break;
	case 1: c.dflt_b = false; c.b = maxctl + t.range(0, 200); break;
	case 2: c.dflt_b = false; c.b = maxctl + t.range(0, 8000); break;
	default: c.dflt_b = false; c.b = maxctl + t.range(0, 70000);
	}
	bool big = t.chance(12);
	size_t budget = big ? 2500000 : 40000;   // bytes of payload in this case
	std::string D = strf("type %s b=%zu%s%s debug=%d:", c.ct.substr(0, 24).c_str(), c.b, c.tcp ? " tcp" : "", c.to_stdout ? " stdout" : "", c.debug);
	for (int k = 0; k < nc; k++) {
		auto &p = plans[k]; size_t n = t.weighted({1, 3, 3, 2}); n = n == 0 ? 0 : n == 1 ? t.range(1, 3) : n == 2 ? t.range(1, 12) : t.range(1, 50);
		for (size_t i = 0; i < n; i++) {
			size_t len;
			switch (t.weighted({6, 4, 4, 2})) {
			case 0: len = 1 + t.range(0, 40); break;
			case 1: len = 1 + t.len(5000); break;
			case 2: len = c.b > 6 ? c.b - 4 + t.range(0, 12) - 6 : 1; break;   // around the limit
			default: len = c.b + t.range(0, 3 * c.b);
			}
			if (len < 1) len = 1;
			if (len > budget) len = 1 + t.range(0, 20);
			budget -= std::min(budget, len);
			p.frames.push_back(tag(t.flip() ? t.fill(len) : std::string(len, (char)t.byte()), k));
		}
	}
	prog_shm->vtime = 0; prog_shm->nsig = 0;
	prog_shm->rcap = t.chance(60) ? t.range(1, 64) : t.chance(60) ? t.range(64, 4096) : 0;
	prog_shm->wcap = t.chance(60) ? t.range(1, 12) : 0;
	if (budget == 0 || big) prog_shm->rcap = 0;
	Capture cap(c); cap.start();
	if (!cap.up()) { cap.ch.check_sane(); fail("the program did not start: %.300s", cap.ch.err().c_str()); }
	std::vector<std::unique_ptr<Script>> sc;
	for (int k = 0; k < nc; k++) {
		auto &p = plans[k]; auto s = std::make_unique<Script>(cap, c.ct, c.b);
		s->add(ctl(ref::READY, p.offer));
		if (p.match) {
			s->add(ctl(ref::START, p.empty_start ? std::vector<std::string>() : std::vector<std::string>{c.ct}));
			for (auto &f : p.frames) s->add(ref::data(f));
			if (p.end == 0) s->add(ctl(ref::STOP));
		}
		sc.push_back(std::move(s));
		D += strf(" [offer %zu %s, %zu frames, %s]", p.offer.size(), p.match ? "match" : "mismatch", p.frames.size(), p.end == 0 ? "stop" : p.end == 1 ? "disconnect" : "stay");
		label(p.match ? "matching client" : "mismatched client");
	}
	describe(D);
	// interleave
	size_t splits = 0, whole = t.weighted({2, 3, 3});
	// burst: nobody waits for the program, except for ACCEPT where not eager
	bool burst = t.chance(64); std::vector<bool> half(nc);
	if (burst) label("burst");
	for (;;) {
		std::vector<int> live; for (int k = 0; k < nc; k++) if (sc[k]->pending()) live.push_back(k);
		if (live.empty()) break;
		int k = live[t.range(0, live.size() - 1)]; auto &s = *sc[k];
		if (s.cl->fd < 0) s.cl->connect();
		size_t left = s.bytes.size() - s.sent, n, mark = s.next_mark() - s.sent;
		// (unless eager) the handshake is in step with the replies: READY alone, then the rest
		bool hs = s.sent < s.marks[0] && !plans[k].eager;
		switch (whole == 0 ? 0 : t.weighted({4, 3, 2, 3})) {
		case 0: n = mark; break;
		case 1: n = t.range(1, 12); break;
		case 2: n = mark + t.range(0, 16); n = n > 8 ? n - 8 : 1; break;
		default: n = t.range(1, left);
		}
		if (s.bytes.size() > 20000 && n < 2000 && !hs) n += s.bytes.size() / 40;
		if (n < 1) n = 1;
		if (plans[k].eager && s.sent < s.marks[0] && t.flip()) { n = std::min(left, mark + t.range(0, 60)); label("START sent without waiting for ACCEPT"); }
		if (n > left) n = left;
		if (hs && n > mark) n = mark;
		if (n != mark) splits++;
		if (burst) {
			std::string b = s.bytes.substr(s.sent, n); s.sent += n;
			s.cl->send(b); s.m.feed(b);
			if (hs && s.sent >= s.marks[0]) s.cl->expect(s.m.sure);
			if (s.pending() || !plans[k].match) continue;
			if (plans[k].end == 1 && !plans[k].eager && t.flip()) { s.cl->disconnect(); s.gone = true; label("closed with data in flight"); }
			else if (plans[k].end == 1 || (plans[k].end == 0 && t.chance(80))) { shutdown(s.cl->fd, SHUT_WR); half[k] = true; label("half-closed"); }
			continue;
		}
		s.step(n);
		if (!s.pending() && plans[k].match && plans[k].end == 1 && !s.gone) { s.cl->disconnect(); s.gone = true; }
	}
	if (burst) {
		cap.drain_all();
		for (int k = 0; k < nc; k++) {
			auto &s = *sc[k]; if (s.gone) continue;
			if (half[k]) {    // may be closed before its replies are sent
				s.cl->expect_close("has closed its side");
				CHECK(s.cl->got.size() <= s.m.replies.size() && !s.m.replies.compare(0, s.cl->got.size(), s.cl->got), "a client received %s, expected %s", ref::hex(s.cl->got, 80).c_str(), ref::hex(s.m.replies, 80).c_str());
				continue;
			}
			if (s.m.sure) s.cl->expect(s.m.sure);
			if (s.m.over()) s.cl->expect_close(s.m.st == ConnModel::BROKEN ? "broke the protocol" : "has finished");
			s.verify();
		}
	}
	for (int k = 0; k < nc; k++) {
		auto &s = *sc[k];
		if (!plans[k].match) CHECK(s.m.st == ConnModel::BROKEN || s.bytes.size() > s.sent, "model: mismatched client not refused");
		else if (plans[k].end == 0) CHECK(s.m.st == ConnModel::STOPPED, "model: client %d did not finish", k);
		if (s.m.skipped) label("oversized frames skipped");
	}
	int rc = cap.term(t.chance(40) ? SIGINT : SIGTERM);
	CHECK(rc == 0, "the program exited with status %d after termination: %.300s", rc, cap.ch.err().c_str());
	std::string out = cap.output(); auto st = ref::parse(out);
	CHECK(st.ok, "the output is not a complete stream: %s", st.err.c_str());
	CHECK(st.consumed == out.size(), "%zu bytes follow the STOP frame", out.size() - st.consumed);
	CHECK(st.start.cts.size() == 1 && st.start.cts[0] == c.ct, "the output's START frame carries %zu content types, not the configured one", st.start.cts.size());
	compare_frames(st.frames, sc);
	bool skipped = false; for (auto &s : sc) skipped |= s->m.skipped;
	describe(D + strf(" -> %zu frames, %zu split chunks", st.frames.size(), splits));
	if (c.tcp) label("TCP");
	if (prog_shm->rcap) label("short reads");
	if (st.frames.size() >= 2 && (splits || skipped)) nontrivial();
}
