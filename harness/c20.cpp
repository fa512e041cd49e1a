// C20: the connection limit of fstrm_capture.
#include "cap.hpp"
#include <deque>
const PropInfo prop_info = {
	"C20",
	"A case runs the real capture program with a connection limit of 1 to 4 (or none) and up to eight clients that connect, send their sessions in random chunks and leave (STOP, disconnect, reset, protocol error, also before having sent anything, in the middle, or while still waiting to be served) in random order (rarely, with hundreds of clients at once or in turn), over a UNIX-domain socket or TCP; in some cases a run of accept calls fails (EMFILE, ENFILE, ENOMEM, ENOBUFS, ECONNABORTED, EINTR). A model with a FIFO of waiting clients says who is being served; waiting clients must get no reply, and the first waiting one must be served when a slot becomes free. Non-trivial: at least one client had to wait and was served later.",
	"exploration", 6000, 200000, 600, 8, 2, 60,
	{"The operating system hands over waiting connections in the order of connect()."}
};
void prop_setup() { prog_init(); }
// Many clients at once, or one after the other.
static void many(Tape &t) {
	CapConfig c; c.ct = "t"; c.tcp = t.chance(90);
	static const int L[] = {0, 127, 128, 129, 255, 256, 257, 300};
	bool wide = t.flip(); size_t total = wide ? 0 : t.range(200, 600);
	c.maxconns = wide ? L[t.range(0, 7)] : t.weighted({1, 3, 2, 1});
	size_t n = wide ? c.maxconns ? c.maxconns : t.range(100, 300) : 1, extra = wide && c.maxconns ? t.range(1, 5) : 0;
	prog_shm->vtime = 0; prog_shm->nsig = 0; prog_shm->rcap = 0; prog_shm->wcap = 0; prog_shm->acc_n = 0;
	std::string D = wide ? strf("limit %d, %zu clients at once and %zu more", c.maxconns, n, extra) : strf("limit %d, %zu clients in turn", c.maxconns, total);
	describe(D); nontrivial(); label(wide ? "more than 100 clients at once" : "more than 200 clients in turn");
	Capture cap(c); cap.start();
	if (!cap.up()) { cap.ch.check_sane(); fail("the program did not start"); }
	std::string ready = ctl(ref::READY, {"t"}), accept = ctl(ref::ACCEPT, {"t"}), start = ctl(ref::START, {"t"}), stop = ctl(ref::STOP), finish = ctl(ref::FINISH);
	auto served = [&](Client &k) { k.expect(accept.size()); CHECK(k.got == accept, "got %s instead of ACCEPT%s", ref::hex(k.got).c_str(), k.peer_closed ? " and was disconnected" : ""); };
	auto leave = [&](Client &k, unsigned how) {
		if (how == 1) k.disconnect(); else if (how == 2) k.reset();
		else { k.send(how == 3 ? stop : start + stop); if (how == 0) { k.expect(accept.size() + finish.size()); CHECK(k.got == accept + finish, "no FINISH"); } k.expect_close("has finished"); k.disconnect(); }
	};
	if (wide) {
		std::deque<std::unique_ptr<Client>> a;
		for (size_t i = 0; i < n + extra; i++) {
			a.emplace_back(new Client(cap)); a.back()->connect(); a.back()->send(ready);
			if (i < n) served(*a.back());
		}
		for (size_t i = 0; i < extra; i++) {
			usleep(100); for (size_t j = n; j < a.size(); j++) { a[j]->pump(); CHECK(a[j]->got.empty() && !a[j]->peer_closed, "a client beyond the limit of %zu was served or refused", n); }
			size_t k = t.range(0, n - 1); leave(*a[k], t.range(0, 3)); a.erase(a.begin() + k); served(*a[n - 1]);
		}
	} else for (size_t i = 0; i < total; i++) { Client k(cap); k.connect(); k.send(ready); served(k); leave(k, t.range(0, 3)); }
	int rc = cap.term(); CHECK(rc == 0, "exit status %d", rc);
	CHECK(cap.output() == start + stop, "the output is not an empty stream");
}
void prop(Tape &t) {
	if (t.chance(4)) return many(t);
	CapConfig c; c.ct = "t"; c.tcp = t.chance(90); c.maxconns = t.chance(230) ? 1 + t.weighted({4, 4, 2, 1}) : 0;
	if (t.chance(40)) { c.dflt_b = false; c.b = t.range(100, 400); }
	size_t N = c.maxconns ? c.maxconns : 1000;
	prog_shm->vtime = 0; prog_shm->nsig = 0; prog_shm->rcap = 0; prog_shm->wcap = 0;
	int nc = 1 + t.range(0, 7);
	std::string D = strf("%s limit %d, %d clients:", c.tcp ? "tcp" : "unix", c.maxconns, nc);
	prog_shm->acc_n = 0;
	if (t.chance(110)) { // accepting fails for a while
		static const int ERR[] = {EMFILE, ENFILE, ECONNABORTED, ENOMEM, EINTR, ENOBUFS};
		prog_shm->acc_err = ERR[t.range(0, 5)]; prog_shm->acc_at = t.range(0, 12); prog_shm->acc_n = 1 + t.weighted({5, 2, 1}); D += strf(" (accept %d..%d fail: %d)", prog_shm->acc_at, prog_shm->acc_at + prog_shm->acc_n - 1, prog_shm->acc_err); }
	Capture cap(c); cap.start();
	if (!cap.up()) { cap.ch.check_sane(); fail("the program did not start"); }
	std::vector<std::unique_ptr<Script>> sc; std::vector<int> end; std::vector<size_t> upto;  // upto: leaves after so many bytes
	for (int k = 0; k < nc; k++) {
		auto s = std::make_unique<Script>(cap, c.ct, c.b);
		s->add(ctl(ref::READY, {c.ct})); s->add(ctl(ref::START, {c.ct}));
		for (size_t n = t.range(0, 4); n; n--) s->add(ref::data(tag(t.fill(1 + t.range(0, 60)), k)));
		int e = t.weighted({4, 3, 2, 2});   // stop, disconnect, reset, break
		if (e == 0) s->add(ctl(ref::STOP));
		if (e == 3) s->add(ctl(ref::FINISH));
		upto.push_back((e == 1 || e == 2) && t.chance(120) ? t.chance(120) ? 0 : t.range(0, s->bytes.size()) : s->bytes.size());
		end.push_back(e); sc.push_back(std::move(s));
	}
	enum { IDLE, WAITING, SERVED, LEFT_WAITING, GONE }; std::vector<int> st(nc, IDLE);
	std::vector<char> ready(nc, 0);          // a waiting client already sent READY
	std::deque<int> q; size_t served = 0, waited = 0, maxq = 0;
	auto admit = [&] {                       // slots are free: take from the queue
		while (served < N && !q.empty()) {
			int k = q.front(); q.pop_front();
			if (st[k] == LEFT_WAITING) { st[k] = GONE; continue; } // accepted and found to be gone
			st[k] = SERVED; served++; auto &s = *sc[k];
			if (ready[k]) { std::string b = s.bytes.substr(0, s.marks[0]); s.sent = b.size(); s.m.feed(b); s.cl->expect(s.m.sure); s.verify(); waited++; }
			else { waited++; s.step(s.marks[0]); }
		}
	};
	auto leave = [&](int k) { st[k] = GONE; served--; admit(); };
	for (size_t steps = 0; steps < 300; steps++) {
		std::vector<int> live; for (int k = 0; k < nc; k++) if (st[k] == IDLE || st[k] == SERVED || (st[k] == WAITING && !ready[k] && !c.tcp)) live.push_back(k);
		for (int k = 0; k < nc; k++) if (st[k] == WAITING && t.chance(6)) { // gives up waiting
			D += strf(" %d:gives-up", k); label("a waiting client left");
			if (end[k] == 2) sc[k]->cl->reset(); else sc[k]->cl->disconnect(); sc[k]->gone = true; st[k] = LEFT_WAITING; live.clear(); break; }
		if (live.empty()) { bool any = false; for (int k = 0; k < nc; k++) any |= st[k] == IDLE || st[k] == SERVED; if (!any) break; continue; }
		int k = live[t.range(0, live.size() - 1)]; auto &s = *sc[k];
		if (st[k] == IDLE) {
			int w0 = prog_shm->waits; s.cl->connect();
			if (served < N && q.empty()) { st[k] = SERVED; served++; D += strf(" %d:served", k); cap.settle(w0); }
			else { st[k] = WAITING; q.push_back(k); maxq = std::max(maxq, q.size()); D += strf(" %d:waits", k); }
		} else if (st[k] == WAITING) { ready[k] = 1; s.cl->send(s.bytes.substr(0, s.marks[0])); }
		else {
			size_t left = upto[k] > s.sent ? upto[k] - s.sent : 0, n = std::min<size_t>(left, t.flip() ? t.range(1, 20) : s.next_mark() - s.sent);
			if (s.sent < s.marks[0]) n = std::min(n, s.marks[0] - s.sent);
			if (left) s.step(n);
			if (s.gone) { D += strf(" %d:%s", k, s.m.st == ConnModel::STOPPED ? "stop" : "broken"); leave(k); }
			else if (s.sent >= upto[k]) {
				if (!s.sent) label("left without sending anything");
				D += strf(" %d:%s", k, end[k] == 2 ? "reset" : "disconnect");
				int w0 = prog_shm->waits; if (end[k] == 2) s.cl->reset(); else s.cl->disconnect(); s.gone = true; cap.settle(w0); leave(k); }
		}
		cap.alive("while clients were served");
		for (int j = 0; j < nc; j++) if (st[j] == WAITING) {
			sc[j]->cl->pump();
			CHECK(sc[j]->cl->got.empty(), "client %d is served although %zu clients are already being served (limit %zu)", j, served, N);
			CHECK(!sc[j]->cl->peer_closed, "client %d was disconnected while waiting for a free slot", j);
		}
	}
	if (maxq) { // nobody beyond the limit may be served, also not a little later
		usleep(200);
		for (int j = 0; j < nc; j++) if (st[j] == WAITING) { sc[j]->cl->pump(); CHECK(sc[j]->cl->got.empty(), "client %d is served beyond the limit", j); }
	}
	int rc = cap.term(); CHECK(rc == 0, "exit status %d", rc);
	std::string out = cap.output(); auto ps = ref::parse(out);
	CHECK(ps.ok && ps.consumed == out.size(), "the output is not a complete stream: %s", ps.err.c_str());
	compare_frames(ps.frames, sc);
	if (prog_shm->acc_n && prog_shm->naccept > prog_shm->acc_at) label("accept failed");
	describe(D); label(c.tcp ? "tcp" : "unix"); if (!c.maxconns) label("no limit"); if (waited) { label("waited and served"); nontrivial(); }
}
