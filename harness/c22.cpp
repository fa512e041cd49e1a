// C22: fstrm_replay.
#include "prog.hpp"
#include "strm.hpp"
#include <arpa/inet.h>
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sched.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>
const PropInfo prop_info = {
	"C22",
	"A case runs the real replay program on one to six (sometimes up to sixty) files (of the given content type, of none, of another one, missing, empty, malformed from the start or in mid-stream, truncated, the same one twice, with frames of any size) against a scripted peer on a UNIX or TCP socket, which replies in any piece sizes, reads at its own pace, and either keeps to the protocol or answers with the wrong or a malformed frame or leaves at a random point; socket sends and receives of the program are shortened at random. The bytes the peer gets must be exactly READY, START, the data frames of the valid prefixes of the matching files in order, STOP. Non-trivial: data frames of at least two files were delivered, or a peer that misbehaved after START was noticed.",
	"fault_enumeration", 9000, 300000, 800, 8, 2, 60,
	{"Time-outs of 10 s decide that the program is wedged.", "The peer's receive buffer size and reading pace vary, the scheduling of the two processes is the system's."}
};
extern "C" int fstrm_replay_main(int, char **);
void prop_setup() { prog_init(); signal(SIGPIPE, SIG_IGN); }
static int tcp_port = 0;
void prop(Tape &t) {
	static const char *cts[] = {"t", "protobuf:dnstap.Dnstap", "text", "tex", "x y"};
	std::string ct = t.chance(12) ? std::string(t.range(100, 256), 'q') : cts[t.range(0, 4)];
	bool tcp = t.chance(50);
	prog_shm->vtime = 0; prog_shm->nsig = 0; prog_shm->points = 0;
	prog_shm->wcap = t.chance(60) ? t.range(1, 30) : t.chance(60) ? t.range(30, 3000) : 0;
	prog_shm->rcap = t.chance(60) ? t.range(1, 6) : 0;
	Scratch dir;
	std::vector<std::string> files, expect; size_t contributing = 0; std::string D = "type " + show_ct(ct) + (tcp ? " tcp:" : " unix:");
	int nf = 1 + t.weighted({3, 4, 2, 1, 1, 1}); bool huge = false; if (t.chance(16)) { nf = 7 + t.range(0, 60); label("many files"); }
	int bias = nf > 6 && t.chance(180) ? t.range(0, 7) : -1; bool few = t.chance(200);   // many of a kind; few descriptors to spare
	std::vector<std::vector<std::string>> per;
	for (int i = 0; i < nf; i++) {
		if (i && t.chance(20)) { size_t j = t.range(0, i - 1); files.push_back(files[j]); per.push_back(per[j]); if (!per[j].empty()) contributing++; D += strf(" [file %zu again]", j); continue; }
		std::string f = dir.path(strf("f%d", i).c_str()); files.push_back(f); per.emplace_back();
		int kind = bias >= 0 && !t.chance(40) ? bias : (int)t.weighted({14, 3, 3, 1, 1, 2, 3, 2});  // good, untyped, mismatch, missing, empty, bad start, bad middle, truncated
		if (kind == 3) { D += " [missing]"; continue; }
		std::string s; ref::Ctl st; st.type = ref::START;
		if (kind == 1) ; else if (kind == 2) { std::string o; switch (t.range(0, 4)) { case 0: o = ct + "x"; break; case 1: o = ct.substr(0, ct.size() - 1); break; case 2: o = ""; break; case 3: o = ct; o[t.range(0, o.size() - 1)] ^= 0x20; break; default: o = "other"; } st.cts = {o.substr(0, 256)}; if (st.cts[0] == ct) st.cts[0] = ""; }
		else st.cts = {ct};
		if (kind != 4) s = ref::encode(st);
		if (kind == 5) { switch (t.range(0, 3)) { case 0: s = s.substr(0, t.range(0, s.size() - 1)); break; case 1: s = ref::encode({ref::READY, {ct}}); break; case 2: s = t.bytes(20); s[0] = 1; break; default: s[t.range(0, 11)] ^= 0x40; } }
		if (kind != 4) {
			int n = t.range(0, nf > 6 ? 2 : t.chance(20) ? 80 : 6);
			for (int k = 0; k < n; k++) {
				if (t.chance(25)) { s += ref::frame(gen_unknown(t)); continue; }
				size_t l = 1 + t.len(t.chance(30) ? 20000 : 200);
				if (!huge && !prog_shm->wcap && t.chance(1)) { huge = true; l = 1048576 - t.range(0, 1); }
				s += ref::data(t.flip() && l < 40 ? t.bytes(l) : t.fill(l));
			}
			if (kind == 6) s += t.flip() ? ref::frame(gen_malformed(t)) + ref::data("lost") : ref::be32(1048577 + t.range(0, 3)) + t.fill(60);
			s += ref::encode({ref::STOP, {}});
			if (kind == 7) s.resize(s.size() - t.range(1, std::min<size_t>(s.size() - 1, 40)));
			else if (t.chance(12)) s += ref::data("after STOP");
		}
		Model m = model(s, false, {}, 1048576);
		if (!m.early.empty()) throw PropDiscard();
		if (m.open_ok && ref::matches(m.start, &ct)) for (auto &e : m.ev) if (e.k == Ev::DATA) per.back().push_back(s.substr(e.off, e.len));
		if (!per.back().empty()) contributing++;
		put_file(f, s);
		static const char *nm[] = {"good", "untyped", "mismatch", "missing", "empty", "bad start", "bad middle", "truncated"};
		D += strf(" [%s, %zu frames]", nm[kind], per.back().size());
	}
	std::string dat; for (auto &v : per) for (auto &f : v) { expect.push_back(f); dat += ref::data(f); }
	std::string ready = ref::encode({ref::READY, {ct}}), start = ref::encode({ref::START, {ct}}), stop = ref::encode({ref::STOP, {}});
	std::string want = ready + start + dat + stop;
	// the peer
	enum { GOOD, WRONG_ACCEPT, BAD_ACCEPT, LEAVE, WRONG_FINISH, NO_FINISH, NO_PEER } mode = (decltype(mode))t.weighted({12, 2, 1, 3, 2, 2, 1});
	std::string accept, finish = ref::encode({ref::FINISH, {}});
	{
		ref::Ctl a; a.type = ref::ACCEPT;
		switch (t.weighted({6, 3, 2})) { case 0: a.cts = {ct}; break; case 1: break; default: a.cts = {"other", ct, ct + "y"}; for (auto &x : a.cts) x = x.substr(0, 256); if (ref::encode(a).size() > 520) a.cts = {ct}; }
		accept = ref::encode(a);
	}
	size_t leave_at = 0; bool rst = t.flip();
	switch (mode) {
	case WRONG_ACCEPT: accept = ref::encode({ref::ACCEPT, {ct + "x", ct.substr(0, ct.size() - 1)}}); if (accept.size() > 520) accept = ref::encode({ref::ACCEPT, {"zz"}}); break;
	case BAD_ACCEPT:
		switch (t.range(0, 4)) {
		case 0: accept = ref::encode({ref::READY, {ct}}); break;
		case 1: accept = ref::frame(gen_malformed(t)); { auto d = ref::decode(accept, true); if (d && d->type == ref::ACCEPT && ref::matches(*d, &ct)) accept = finish; } break;
		case 2: accept = t.bytes(12); accept[0] = 1; break;
		case 3: accept = ref::encode({ref::START, {ct}}); break;
		default: accept = finish;
		}
		break;
	case LEAVE: leave_at = t.chance(100) ? t.range(0, ready.size() + start.size()) : t.range(0, want.size() - 1); break;
	case WRONG_FINISH: { static const int ty[] = {ref::ACCEPT, ref::START, ref::STOP, ref::READY}; finish = t.chance(60) ? ref::frame(ref::be32(9)) : t.chance(60) ? ref::data("x") + t.bytes(20) : ref::encode({(uint32_t)ty[t.range(0, 3)], {}}); break; }
	default: break;
	}
	static const char *mn[] = {"good", "no matching type accepted", "malformed ACCEPT", "leaves", "wrong FINISH", "no FINISH", "absent"};
	D += strf(" peer: %s", mn[mode]); if (mode == LEAVE) D += strf(" after %zu of %zu bytes", leave_at, want.size());
	describe(D);
	struct Fd { int fd = -1; ~Fd() { if (fd >= 0) close(fd); } } ls, cs;
	std::vector<std::string> av = {"fstrm_replay", "-t", ct};
	struct sockaddr_storage ss{}; socklen_t sl;
	if (tcp) {
		std::string addr = strf("127.%d.%d.2", 1 + getpid() / 250 % 250, 1 + getpid() % 250); int p = 10000 + tcp_port++ % 50000;
		auto *in = (struct sockaddr_in *)&ss; in->sin_family = AF_INET; in->sin_port = htons(p); inet_pton(AF_INET, addr.c_str(), &in->sin_addr); sl = sizeof *in;
		av.insert(av.end(), {"-a", addr, "-p", std::to_string(p)}); label("TCP");
	} else {
		auto *un = (struct sockaddr_un *)&ss; un->sun_family = AF_UNIX; strcpy(un->sun_path, dir.path("s").c_str()); sl = sizeof *un;
		av.insert(av.end(), {"-u", dir.path("s")});
	}
	for (auto &f : files) av.insert(av.end(), {"-r", f});
	if (mode != NO_PEER) {
		ls.fd = socket(ss.ss_family, SOCK_STREAM | SOCK_CLOEXEC, 0); int one = 1, rb = t.chance(100) ? 1 : 0;
		if (tcp) setsockopt(ls.fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
		if (rb && !tcp) setsockopt(ls.fd, SOL_SOCKET, SO_RCVBUF, &rb, sizeof rb);
		if (bind(ls.fd, (struct sockaddr *)&ss, sl) || listen(ls.fd, 5)) { perror("bind/listen"); _exit(2); }
	}
	Child ch; ch.start(fstrm_replay_main, av, [few] {
		if (!few) return;
		int lo = open("/dev/null", O_RDONLY | O_CLOEXEC); close(lo);   // the lowest free one
		struct rlimit r = {(rlim_t)lo + 8, (rlim_t)lo + 8}; setrlimit(RLIMIT_NOFILE, &r);
	});
	std::string got; bool left = false; size_t sent = 0; std::string reply; bool accepted = false, finished = false, eof = false; size_t eof_after = 0;
	if (mode != NO_PEER) {
		struct pollfd p = {ls.fd, POLLIN, 0};
		double end = mono() + 10;
		while (poll(&p, 1, 20) == 0) { if (ch.wait(0)) { ch.check_sane(); fail("the program ended (%d) without connecting: %.300s", ch.code(), ch.err().c_str()); } if (mono() > end) fail("the program did not connect"); }
		cs.fd = accept4(ls.fd, nullptr, nullptr, SOCK_CLOEXEC);
		int one = 1; if (tcp) setsockopt(cs.fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
		end = mono() + 10;
		while (!eof) {
			if (mode == LEAVE && got.size() >= leave_at) { left = true; break; }
			// replies that are due
			if (!accepted && got.size() >= ready.size()) { reply += accept; accepted = true; }
			if (!finished && got.size() >= want.size() && mode != NO_FINISH) { reply += finish; finished = true; }
			if (mode == NO_FINISH && got.size() >= want.size()) { left = true; break; }
			if (sent < reply.size()) {
				size_t n = t.flip() ? reply.size() - sent : t.range(1, reply.size() - sent);
				ssize_t w = send(cs.fd, reply.data() + sent, n, MSG_NOSIGNAL);
				if (w > 0) sent += w; else sent = reply.size();
				if (t.flip()) sched_yield();
				continue;
			}
			size_t n = t.flip() ? 65536 : t.range(1, 40); if (want.size() > 5000) n += want.size() / 60;
			if (mode == LEAVE) n = std::min(n, leave_at - got.size());
			std::string b(n, 0); struct pollfd q = {cs.fd, POLLIN, 0};
			if (tcp) setsockopt(cs.fd, IPPROTO_TCP, TCP_QUICKACK, &one, sizeof one);
			int pr = poll(&q, 1, 100);
			if (pr == 0) { if (mono() > end) fail("the program neither sends nor ends (%zu of %zu bytes received)", got.size(), want.size()); continue; }
			ssize_t r = recv(cs.fd, &b[0], n, 0);
			if (r <= 0) { eof = true; eof_after = got.size(); break; }
			got.append(b, 0, r); end = mono() + 10;
			if (got.size() > want.size() + 100000) break;
		}
		if (left) { if (rst) { struct linger l = {1, 0}; setsockopt(cs.fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); } close(cs.fd); cs.fd = -1; }
	}
	if (!ch.wait(10)) fail("fstrm_replay does not end");
	ch.check_sane();
	int rc = ch.code(); std::string err = ch.err(); if (err.size() > 300) err = err.substr(err.size() - 300);
	CHECK(rc >= 0, "fstrm_replay was killed by signal %d", -rc);
	(void)eof_after;
	if (mode != NO_PEER) {
		struct pollfd p = {ls.fd, POLLIN, 0}; CHECK(poll(&p, 1, 0) == 0, "the program connected a second time");
	}
	size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
	CHECK(i == got.size(), "the peer received %zu bytes, of which byte %zu differs from the expected session: %s instead of %s", got.size(), i, ref::hex(got.substr(i), 24).c_str(), ref::hex(want.substr(std::min(i, want.size())), 24).c_str());
	switch (mode) {
	case GOOD:
		CHECK(got.size() == want.size(), "the session ended after %zu of %zu bytes", got.size(), want.size());
		CHECK(rc == 0, "exit status %d after a complete session: %s", rc, err.c_str());
		label("complete session"); if (contributing >= 2) nontrivial();
		break;
	case WRONG_ACCEPT: case BAD_ACCEPT:
		CHECK(got == ready, "%zu bytes were sent to a peer that did not accept the content type", got.size() - ready.size());
		CHECK(rc != 0, "success although the peer did not accept the content type"); label("not accepted"); break;
	case NO_PEER: CHECK(rc != 0, "success without a connection"); break;
	default:
		CHECK(rc != 0, "success although the peer %s", mode == LEAVE ? "left before the end" : mode == NO_FINISH ? "left without FINISH" : "did not reply to STOP with FINISH");
		if (mode != LEAVE || leave_at > ready.size() + start.size()) { nontrivial(); label("peer misbehaved after START"); }
		if (mode != LEAVE) CHECK(got.size() == want.size(), "only %zu of %zu bytes were sent", got.size(), want.size());
	}
}
