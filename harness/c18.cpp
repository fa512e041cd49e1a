// C18: fstrm_capture against hostile clients.
#include "cap.hpp"
const PropInfo prop_info = {
	"C18",
	"A case starts the real capture program and connects one to four hostile clients (and others that leave before their READY is answered), whose bytes are valid sessions with frames inserted, deleted, duplicated, reordered, truncated, bit-flipped or with lied-about lengths (up to 2^32-1), or plain noise, sent in random chunks with disconnects at random points, interleaved with one well-behaved client. A model of the connection protocol says after each chunk what must have been recorded, answered, and disconnected. Non-trivial: at least one hostile client broke the protocol after sending at least one well-formed frame.",
	"exploration", 6000, 200000, 1200, 8, 2, 60,
	{"Each chunk is consumed and answered before the next one is sent.", "UNIX sockets only.", "Time-outs of 10 s decide that the program is wedged."}
};
void prop_setup() { prog_init(); }
static std::string noise(Tape &t) { return t.flip() ? t.bytes(t.range(1, 30)) : t.fill(t.range(1, 700)); }
void prop(Tape &t) {
	CapConfig c;
	static const char *cts[] = {"t", "protobuf:dnstap.Dnstap", "", "ab"};
	c.ct = cts[t.range(0, 3)];
	switch (t.weighted({3, 3, 2})) {
	case 0: break;
	case 1: c.dflt_b = false; c.b = t.range(60, 600); break;
	default: c.dflt_b = false; c.b = t.range(60, 9000);
	}
	c.debug = t.chance(40) ? t.range(1, 6) : 0;
	int nh = 1 + t.weighted({5, 3, 1, 1});
	std::string D = strf("type %s b=%zu:", c.ct.c_str(), c.b);
	prog_shm->vtime = 0; prog_shm->nsig = 0;
	prog_shm->rcap = t.chance(40) ? t.range(1, 40) : 0; prog_shm->wcap = t.chance(40) ? t.range(1, 12) : 0;
	std::vector<std::vector<std::string>> plans; std::vector<bool> again(8);
	for (int k = 0; k <= nh; k++) {
		std::vector<std::string> f;
		f.push_back(ctl(ref::READY, {c.ct})); f.push_back(ctl(ref::START, {c.ct}));
		for (size_t n = t.range(0, 5); n; n--) { size_t l = t.chance(30) ? c.b + t.range(0, 2000) : 1 + t.len(t.chance(30) ? 3000 : 60); f.push_back(ref::data(tag(t.fill(l), k))); }
		f.push_back(ctl(ref::STOP));
		if (k < nh) for (size_t n = t.weighted({1, 6, 3, 2, 1}); n; n--) {
			size_t i = t.range(0, f.size() - 1);
			switch (t.range(0, 17)) {
			case 0: f.erase(f.begin() + i); break;
			case 1: f.insert(f.begin() + i, f[i]); break;
			case 2: { size_t j = t.range(0, f.size() - 1); std::swap(f[i], f[j]); break; }
			case 3: f[i] = f[i].substr(0, t.range(0, f[i].size())); break;
			case 4: { if (f[i].empty()) break; size_t j = t.range(0, f[i].size() - 1); if (f[i].size() > 4 && t.chance(150)) j = t.range(0, std::min<size_t>(f[i].size() - 1, 23)); f[i][j] = (char)(f[i][j] ^ (1 << t.range(0, 7))); break; }
			case 5: f.insert(f.begin() + i, ref::data(tag(t.fill(1 + t.range(0, 30)), k))); break;
			case 6: f.push_back(ref::data(tag(t.fill(1 + t.range(0, 30)), k))); break;
			case 7: { // data frame with a huge length
				static const uint32_t L[] = {0xffffffff, 0xfffffffe, 0xfffffffc, 0xfffffffb, 0xfffffffa, 0x80000000, 0x7fffffff, 0xfffffff0, 0xffff, 0x40000};
				f.insert(f.begin() + i, ref::be32(L[t.range(0, 9)]) + tag(t.fill(1 + t.range(0, 60)), k)); break; }
			case 8: { // control frame with a chosen length field
				static const uint32_t L[] = {0, 3, 4, 5, 12, 511, 512, 513, 519, 520, 521, 0xffffffff, 0xfffffff8, 0x80000000};
				f.insert(f.begin() + i, ref::be32(0) + ref::be32(L[t.range(0, 13)]) + (t.flip() ? ref::be32(t.range(0, 6)) : "") + noise(t)); break; }
			case 9: f.insert(f.begin() + i, noise(t)); break;
			case 10: { static const uint32_t T[] = {0, 1, 2, 3, 4, 5, 6, 0xffffffff}; std::vector<std::string> v; for (size_t n = t.range(0, 2); n; n--) v.push_back(t.flip() ? c.ct : t.bytes(t.range(0, 4)));
				ref::Ctl x; x.type = T[t.range(0, 7)]; std::string s = ref::be32(x.type); for (auto &q : v) s += ref::be32(1) + ref::be32(q.size()) + q; f.insert(f.begin() + i, ref::frame(s)); break; }
			case 11: f[i] = ctl(ref::READY, {t.flip() ? c.ct + "x" : t.bytes(2)}); break;
			case 12: f[i] = ctl(ref::START, {t.flip() ? c.ct + "x" : t.bytes(2)}); break;
			case 13: f.insert(f.begin() + i, ref::frame(ref::be32(t.range(1, 5)) + ref::be32(t.range(0, 2)) + ref::be32(t.range(0, 600)) + t.bytes(t.range(0, 12)))); break;
			case 14: f.resize(i + 1); break;
			case 16: case 17: { // a second session (or part of one) after the first
				if (t.flip()) f.push_back(ctl(ref::READY, {c.ct}));
				if (t.chance(200)) f.push_back(ctl(ref::START, t.flip() ? std::vector<std::string>{c.ct} : std::vector<std::string>{}));
				for (size_t n = t.range(0, 3); n; n--) f.push_back(ref::data(tag(t.fill(1 + t.range(0, 30)), k)));
				if (t.flip()) f.push_back(ctl(ref::STOP));
				again[k] = true; label("frames after STOP"); break; }
			case 15: { std::string big = ref::be32(4); while (big.size() < 480) big += ref::be32(1) + ref::be32(t.range(0, 5)) + "abcde"; f[i] = ref::frame(big); break; }
			}
			if (f.empty()) break;
		}
		plans.push_back(f);
	}
	Capture cap(c); cap.start();
	if (!cap.up()) { cap.ch.check_sane(); fail("the program did not start: %.300s", cap.ch.err().c_str()); }
	std::vector<std::unique_ptr<Script>> sc; std::vector<size_t> quit;
	for (int k = 0; k <= nh; k++) {
		auto s = std::make_unique<Script>(cap, c.ct, c.b);
		for (auto &f : plans[k]) s->add(f);
		quit.push_back(k < nh && t.chance(60) ? t.range(0, s->bytes.size()) : (size_t)-1);
		sc.push_back(std::move(s));
	}
	bool late = false, eager = t.chance(80);   // the good client need not wait for ACCEPT
	size_t runs = 0;
	for (;;) {
		std::vector<int> live; for (int k = 0; k <= nh; k++) if (sc[k]->pending()) live.push_back(k);
		if (live.empty()) break;
		if (t.chance(10)) { // hit and run: gone before the reply can be written
			Client h(cap); h.connect(); std::string x = ctl(ref::READY, {c.ct});
			if (t.flip()) { x += ctl(ref::START, {c.ct}); if (t.flip()) x += ctl(ref::STOP); }
			int w0 = prog_shm->waits;
			ssize_t n = ::send(h.fd, x.data(), x.size(), MSG_NOSIGNAL | MSG_DONTWAIT); (void)n;
			if (t.chance(60)) h.reset(); else h.disconnect();
			cap.settle(w0); runs++; label("gone before the reply");
		}
		int k = live[t.range(0, live.size() - 1)]; auto &s = *sc[k];
		if (s.cl->fd < 0) s.cl->connect();
		size_t left = s.bytes.size() - s.sent, n, mark = s.next_mark() - s.sent;
		switch (t.weighted({6, 3, 2, 2, 1})) {
		case 0: n = mark; break;
		case 1: n = t.range(1, 12); break;
		case 2: n = mark + t.range(0, 16); n = n > 8 ? n - 8 : 1; break;
		case 3: n = t.range(1, left); break;
		default: n = left;
		}
		if (again[k] && left < 3000 && t.flip()) n = left;
		if (k == nh && !eager && s.sent < s.marks[0] && n > mark) n = mark;
		if (s.bytes.size() > 20000 && n < 500) n += 500;
		n = std::min(std::max<size_t>(n, 1), left);
		size_t before = s.m.frames.size(); (void)before;
		s.step(n);
		if (s.m.st == ConnModel::BROKEN && (s.m.frames.size() || s.m.replies.size())) late = true;
		if (!s.gone && s.sent >= quit[k]) { if (t.flip()) s.cl->reset(); else s.cl->disconnect(); s.gone = true; label("disconnect in mid-session"); }
	}
	cap.alive("after the clients were done");
	for (int k = 0; k <= nh; k++) {
		auto &s = *sc[k];
		if (k == nh) CHECK(s.m.st == ConnModel::STOPPED || c.b < 520, "model: well-behaved client did not finish");
		else { label(s.m.st == ConnModel::BROKEN ? "protocol broken" : s.m.st == ConnModel::STOPPED ? "finished" : "left open"); if (s.m.skipped) label("oversized frame"); }
		std::string w; for (auto &f : plans[k]) w += strf(" %zu", f.size());
		D += strf(" [frames%s: %s, %zu recorded]", w.c_str(), s.m.st == ConnModel::BROKEN ? "broken" : s.m.st == ConnModel::STOPPED ? "finished" : "open", s.m.frames.size());
	}
	int rc = cap.term();
	CHECK(rc == 0, "the program exited with status %d after termination: %.300s", rc, cap.ch.err().c_str());
	std::string out = cap.output(); auto st = ref::parse(out);
	CHECK(st.ok && st.consumed == out.size(), "the output is not a complete stream: %s", st.err.c_str());
	CHECK(st.start.cts.size() == 1 && st.start.cts[0] == c.ct, "wrong START frame in the output");
	compare_untagged(st.frames, sc);
	// what it reports
	check_written(cap.ch.err(), {{st.frames.size(), out.size()}});
	std::vector<std::pair<size_t, size_t>> of;
	for (auto &s : sc) { size_t b = 0; for (auto &f : s->m.frames) b += 4 + f.size(); of.push_back({s->m.frames.size(), b}); }
	of.insert(of.end(), runs, {0, 0});
	auto said = reports(cap.ch.err(), "read");
	if (said.size() <= of.size()) for (auto &x : said) {
		size_t i = 0; while (i < of.size() && of[i] != x) i++;
		CHECK(i < of.size(), "the program says it read %zu frames and %zu bytes from a client that cannot be found", x.first, x.second);
		of.erase(of.begin() + i); label("report of what was read from a client");
	}
	describe(D);
	if (late) nontrivial();
}
