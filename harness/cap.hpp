// fstrm_capture under test: a driver with scripted clients and a model of
// what each client's bytes must lead to.
#pragma once
#include "prog.hpp"
#include <arpa/inet.h>
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <linux/sockios.h>
#include <memory>
#include <set>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sched.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <unistd.h>

extern "C" int fstrm_capture_main(int, char **);

constexpr double SLOW = 10;      // seconds after which the program counts as wedged

// What one connection's bytes mean.
struct ConnModel {
	std::string ct; size_t b;
	std::string buf; uint64_t skip = 0;
	enum { READY, START, DATA, STOPPED, BROKEN } st = READY;
	std::vector<std::string> frames;
	std::string replies;         // expected so far
	size_t sure = 0;             // replies that must be delivered (bytes)
	bool skipped = false;
	ConnModel(const std::string &c, size_t n) : ct(c), b(n) {}
	bool over() const { return st == STOPPED || st == BROKEN; }
	// one chunk, delivered and fully consumed before the next
	void feed(const std::string &chunk) {
		if (over()) return;
		buf += chunk;
		run();
		if (st == BROKEN || (st == STOPPED && !buf.empty())) return; // replies of this chunk may be lost
		sure = replies.size();
	}
private:
	void run() {
		while (!over()) {
			if (skip) { size_t n = std::min<uint64_t>(skip, buf.size()); buf.erase(0, n); skip -= n; if (skip) return; continue; }
			if (buf.size() < 4) return;
			uint64_t pl = ref::rd32(buf, 0), tot = 4 + pl;
			if (pl) {
				if (st != DATA) { st = BROKEN; return; }
				if (tot > b) { skip = tot; skipped = true; continue; }
				if (buf.size() < tot) return;
				frames.push_back(buf.substr(4, pl)); buf.erase(0, tot);
				continue;
			}
			if (buf.size() < 8) return;
			uint64_t cl = ref::rd32(buf, 4); tot = 8 + cl;
			if (cl < 4 || cl > ref::CTL_MAX) { st = BROKEN; return; }
			if (tot > b) { skip = tot; skipped = true; continue; }
			if (buf.size() < tot) return;
			auto c = ref::decode_payload(buf.substr(8, cl)); buf.erase(0, tot);
			if (!c) { st = BROKEN; return; }
			if (st == READY && c->type == ref::READY && ref::matches(*c, &ct)) {
				ref::Ctl a; a.type = ref::ACCEPT; a.cts = {ct}; replies += ref::encode(a); st = START;
			} else if (st == START && c->type == ref::START && ref::matches(*c, &ct)) st = DATA;
			else if (st == DATA && c->type == ref::STOP) {
				ref::Ctl a; a.type = ref::FINISH; replies += ref::encode(a); st = STOPPED;
			} else { st = BROKEN; return; }
		}
	}
};

struct CapConfig {
	std::string ct = "t"; size_t b = 262144; bool dflt_b = true, tcp = false, to_stdout = false; int debug = 0, maxconns = 0, split = 0;
	std::string out = "out";      // relative to the scratch directory
	bool gmtime = false, localtime = false;
	long fsize = -1;              // RLIMIT_FSIZE
};

struct CapGone {};               // the program ended with a failure status (where that is allowed)
struct Capture {
	bool may_fail = false, may_end = false;
	Scratch dir; CapConfig c; Child ch; std::string sock; int outfd = -1;
	long tcp_sent = 0;
	struct sockaddr_storage ss{}; socklen_t sl = 0;
	static int &port() { static int p = 0; return p; }
	explicit Capture(const CapConfig &cfg) : c(cfg) {}
	~Capture() { if (outfd >= 0) close(outfd); }
	std::string outpath() const { return dir.path(c.out.c_str()); }
	void bind_to(const std::string &path) {
		sock = path; auto *un = (struct sockaddr_un *)&ss; un->sun_family = AF_UNIX; strcpy(un->sun_path, path.c_str()); sl = sizeof *un;
	}
	static std::string own_addr() { return strf("127.%d.%d.1", 1 + getpid() / 250 % 250, 1 + getpid() % 250); }
	int bind_tcp(const std::string &addr) {
		int p = 10000 + port()++ % 50000;
		if (addr.find(':') == addr.npos) { auto *in = (struct sockaddr_in *)&ss; in->sin_family = AF_INET; in->sin_port = htons(p); inet_pton(AF_INET, addr.c_str(), &in->sin_addr); sl = sizeof *in; }
		else { auto *in = (struct sockaddr_in6 *)&ss; in->sin6_family = AF_INET6; in->sin6_port = htons(p); inet_pton(AF_INET6, addr.c_str(), &in->sin6_addr); sl = sizeof *in; }
		return p;
	}
	void start(std::function<void()> extra = {}) {
		std::vector<std::string> a = {"fstrm_capture", "-t", c.ct};
		if (c.tcp) {
			std::string addr = own_addr(); int p = bind_tcp(addr);
			a.insert(a.end(), {"-a", addr, "-p", std::to_string(p)});
		} else {
			bind_to(dir.path("s"));
			a.insert(a.end(), {"-u", sock});
		}
		if (!c.dflt_b) a.insert(a.end(), {"-b", std::to_string(c.b)});
		if (c.maxconns) a.insert(a.end(), {"-c", std::to_string(c.maxconns)});
		if (c.split) a.insert(a.end(), {"-s", std::to_string(c.split)});
		if (c.gmtime) a.push_back("--gmtime");
		if (c.localtime) a.push_back("--localtime");
		for (int i = 0; i < c.debug; i++) a.push_back("-d");
		a.insert(a.end(), {"-w", c.to_stdout ? "-" : outpath()});
		launch(a, extra);
	}
	void launch(const std::vector<std::string> &a, std::function<void()> extra = {}, int out = -1) {
		if (c.to_stdout) outfd = memfd_create("out", MFD_CLOEXEC);
		prog_shm->ready = 0; prog_shm->points = 0; prog_shm->sigs_done = 0; prog_shm->waits = 0; prog_shm->rbytes = 0; prog_shm->idle = 0; tcp_sent = 0;
		long fs = c.fsize; bool tos = c.to_stdout;
		ch.start(fstrm_capture_main, a, [fs, extra] {
			signal(SIGXFSZ, SIG_IGN);
			if (fs >= 0) { struct rlimit r = {(rlim_t)fs, RLIM_INFINITY}; setrlimit(RLIMIT_FSIZE, &r); }
			if (extra) extra();
		}, -1, tos ? outfd : out);
	}
	// until the event loop runs; false if the program ended instead
	bool up() {
		double end = mono() + SLOW;
		for (int i = 0; !prog_shm->ready; i++) {
			if (ch.wait(0)) return false;
			if (mono() > end) fail("the capture program did not start serving");
			if (i < 100) sched_yield(); else usleep(50);
		}
		return true;
	}
	std::string output() {
		if (!c.to_stdout) return slurp_file(outpath());
		std::string s; char b[65536]; ssize_t n; off_t o = 0;
		while ((n = pread(outfd, b, sizeof b, o)) > 0) { s.append(b, n); o += n; }
		return s;
	}
	// everything the clients sent has been taken in
	void drain_all() {
		double end = mono() + SLOW; long last = -1;
		for (int i = 0; !(prog_shm->rbytes >= tcp_sent && prog_shm->idle); i++) {
			if (i > 200) { alive("while clients were sending"); usleep(50); } else sched_yield();
			if (prog_shm->rbytes != last) { last = prog_shm->rbytes; end = mono() + SLOW; }
			if (mono() > end) fail("the program stopped reading from its clients (%ld of %ld bytes read)", last, tcp_sent);
		}
	}
	// The program has noticed what happened after w0 = prog_shm->waits and is idle again.
	void settle(int w0) {
		double end = mono() + SLOW;
		for (int i = 0; !(prog_shm->waits > w0 && prog_shm->idle); i++) {
			if (ch.wait(0)) return;
			if (i > 200) usleep(30); else sched_yield();
			if (mono() > end) fail("the program does not return to its event loop");
		}
	}
	// SIGTERM and wait for the exit status
	int term(int sig = SIGTERM) {
		ch.kill(sig);
		if (!ch.wait(SLOW)) fail("the program did not exit after signal %d", sig);
		ch.check_sane();
		return ch.code();
	}
	void alive(const char *when) {
		if (!ch.wait(0)) return;
		ch.check_sane();
		if (may_end) return;
		if (may_fail && ch.code() != 0) throw CapGone{};
		std::string e = ch.err();
		fail("the program exited (%d) %s: %.400s", ch.code(), when, e.c_str() + (e.size() > 400 ? e.size() - 400 : 0));
	}
};

struct Client {
	Capture &cap; int fd = -1; bool peer_closed = false; std::string got;
	explicit Client(Capture &c) : cap(c) {}
	Client(const Client &) = delete;
	~Client() { disconnect(); }
	void disconnect() { if (fd >= 0) { ::close(fd); fd = -1; } }
	void reset() { if (fd >= 0) { struct linger l = {1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); disconnect(); } }
	void connect() {
		double end = mono() + SLOW;
		for (;;) {
			fd = socket(cap.ss.ss_family, SOCK_STREAM | SOCK_CLOEXEC, 0);
			if (::connect(fd, (struct sockaddr *)&cap.ss, cap.sl) == 0) break;
			::close(fd); fd = -1;
			cap.alive("before a client could connect");
			if (mono() > end) fail("cannot connect to the capture program");
			usleep(100);
		}
		fcntl(fd, F_SETFL, O_NONBLOCK);
		int one = 1; if (cap.c.tcp) setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
	}
	void pump() {       // read whatever is there
		if (fd < 0) return;
		char b[4096];
		for (;;) {
			ssize_t n = recv(fd, b, sizeof b, MSG_DONTWAIT);
			if (n > 0) { got.append(b, n); continue; }
			if (n == 0 || (errno != EAGAIN && errno != EWOULDBLOCK && errno != EINTR)) peer_closed = true;
			return;
		}
	}
	// all bytes taken by the program (or the connection closed by it)
	void drain(double limit = SLOW) {
		double end = mono() + limit;
		for (int i = 0; fd >= 0 && !peer_closed; i++) {
			int n = 0;
			if (cap.c.tcp) { if (prog_shm->rbytes >= cap.tcp_sent && prog_shm->idle) return; n = cap.tcp_sent - prog_shm->rbytes; }
			else if (ioctl(fd, SIOCOUTQ, &n) < 0 || (n == 0 && prog_shm->idle)) return;
			pump();
			if (i > 200) { cap.alive("while a client was sending"); usleep(50); } else sched_yield();
			if (mono() > end) fail("the program stopped reading from a client (%d bytes left unread)", n);
		}
	}
	void send(const std::string &s) {
		size_t o = 0; double end = mono() + SLOW;
		while (o < s.size() && fd >= 0 && !peer_closed) {
			ssize_t n = ::send(fd, s.data() + o, s.size() - o, MSG_NOSIGNAL | MSG_DONTWAIT);
			if (n > 0) { o += n; cap.tcp_sent += n; end = mono() + SLOW; continue; }
			if (n < 0 && (errno == EAGAIN || errno == EWOULDBLOCK)) {
				pump();
				struct pollfd p = {fd, POLLOUT, 0}; poll(&p, 1, 20);
				cap.alive("while a client was sending");
				if (mono() > end) fail("the program stopped reading from a client");
				continue;
			}
			peer_closed = true;
		}
	}
	// wait until at least n reply bytes arrived
	void expect(size_t n) {
		double end = mono() + SLOW;
		for (int i = 0;; i++) {
			pump();
			if (got.size() >= n) return;
			if (peer_closed) return;
			cap.alive("while a client awaited a reply");
			if (mono() > end) fail("a client waited in vain for a reply (%zu of %zu bytes)", got.size(), n);
			if (i < 20) sched_yield(); else { struct pollfd p = {fd, POLLIN, 0}; poll(&p, 1, 20); }
		}
	}
	void expect_close(const char *why) {
		double end = mono() + SLOW;
		for (int i = 0;; i++) {
			pump();
			if (peer_closed) return;
			cap.alive("while a client awaited its disconnection");
			if (mono() > end) fail("the program did not disconnect a client that %s", why);
			if (i < 20) sched_yield(); else { struct pollfd p = {fd, POLLIN, 0}; poll(&p, 1, 20); }
		}
	}
};

inline std::string ctl(uint32_t type, const std::vector<std::string> &cts = {}) { ref::Ctl c; c.type = type; c.cts = cts; return ref::encode(c); }
// Frames are attributed to clients by the low three bits of their first byte.
inline std::string tag(std::string p, int client) { p[0] = (char)((p[0] & ~7) | client); return p; }

// A client together with its model and the bytes it is going to send.
struct Script {
	std::unique_ptr<Client> cl; ConnModel m; std::string bytes; size_t sent = 0; bool gone = false; std::vector<size_t> marks; // frame boundaries
	Script(Capture &c, const std::string &ct, size_t b) : cl(new Client(c)), m(ct, b) {}
	void add(const std::string &s) { bytes += s; marks.push_back(bytes.size()); }
	bool pending() const { return !gone && sent < bytes.size(); }
	size_t next_mark() const { for (auto k : marks) if (k > sent) return k; return bytes.size(); }
	// send the next n bytes and wait for their effects
	void step(size_t n) {
		std::string s = bytes.substr(sent, n); sent += s.size();
		cl->send(s); cl->drain();
		m.feed(s);
		if (m.sure) cl->expect(m.sure);
		if (m.over()) { cl->expect_close(m.st == ConnModel::BROKEN ? "broke the protocol" : "has finished"); gone = true; cl->disconnect(); }
		verify();
	}
	void verify() {
		auto &g = cl->got;
		if (cl->peer_closed && cl->cap.may_fail && (g.size() < m.sure || !m.over()) && cl->cap.ch.wait(SLOW)) cl->cap.alive("");
		CHECK(g.size() <= m.replies.size() && m.replies.compare(0, g.size(), g) == 0, "a client received %s, expected %s", ref::hex(g, 80).c_str(), ref::hex(m.replies, 80).c_str());
		CHECK(g.size() >= m.sure, "a client got only %zu of its %zu reply bytes (connection closed)", g.size(), m.sure);
		if (!m.over()) CHECK(!cl->peer_closed, "the program disconnected a client that kept to the protocol");
	}
};
// Compare the frames of one or several output streams with the scripts' models.
// What the program says it wrote or read, in order: (frames, bytes) of every
// message "... (VERB N frames, M bytes)".
inline std::vector<std::pair<size_t, size_t>> reports(const std::string &err, const char *verb) {
	std::vector<std::pair<size_t, size_t>> v; std::string key = strf("(%s ", verb);
	for (size_t p = 0; (p = err.find(key, p)) != err.npos; p++) {
		size_t f, b; char c = 0;
		if (sscanf(err.c_str() + p + key.size(), "%zu frames, %zu bytes%c", &f, &b, &c) == 3 && c == ')') v.push_back({f, b});
	}
	return v;
}
// One report per output file (given as frames and size): START and STOP count too.
inline void check_written(const std::string &err, const std::vector<std::pair<size_t, size_t>> &files) {
	auto v = reports(err, "wrote");
	if (v.size() != files.size()) { if (v.empty()) label("no reports of what was written"); return; }
	for (size_t i = 0; i < v.size(); i++)
		CHECK(v[i].first == files[i].first + 2 && v[i].second == files[i].second, "the program says it wrote %zu frames and %zu bytes to output file %zu, which has %zu (%zu of them data) and %zu", v[i].first, v[i].second, i, files[i].first + 2, files[i].first, files[i].second);
	label("reports of what was written");
}
inline void compare_frames(const std::vector<std::string> &got, std::vector<std::unique_ptr<Script>> &sc, bool complete = true) {
	std::vector<size_t> at(8, 0);
	for (size_t i = 0; i < got.size(); i++) {
		size_t k = (unsigned char)got[i][0] & 7;
		CHECK(k < sc.size(), "recorded a frame that no client sent: %s", ref::hex(got[i]).c_str());
		auto &f = sc[k]->m.frames;
		CHECK(at[k] < f.size(), "recorded a frame that client %zu was not entitled to or that is repeated: %s", k, ref::hex(got[i]).c_str());
		CHECK(got[i] == f[at[k]], "frame %zu of client %zu recorded as %s instead of %s", at[k], k, ref::hex(got[i]).c_str(), ref::hex(f[at[k]]).c_str());
		at[k]++;
	}
	if (complete) for (size_t k = 0; k < sc.size(); k++)
		CHECK(at[k] == sc[k]->m.frames.size(), "only %zu of %zu frames of client %zu were recorded", at[k], sc[k]->m.frames.size(), k);
}
// The same for clients whose frames are not tagged: `got` must be an
// interleaving of the clients' frame lists.
inline void compare_untagged(const std::vector<std::string> &got, std::vector<std::unique_ptr<Script>> &sc) {
	std::set<std::vector<size_t>> S = {std::vector<size_t>(sc.size(), 0)};
	for (size_t i = 0; i < got.size(); i++) {
		std::set<std::vector<size_t>> N;
		for (auto &v : S) for (size_t k = 0; k < sc.size(); k++) {
			auto &f = sc[k]->m.frames;
			if (v[k] < f.size() && f[v[k]] == got[i]) { auto w = v; w[k]++; N.insert(w); }
		}
		if (N.empty()) {
			std::string known; for (auto &s : sc) for (auto &f : s->m.frames) if (f == got[i]) known = " (a frame that was sent, but not here or not again)";
			fail("recorded frame %zu is not the next one of any client: %s%s", i, ref::hex(got[i]).c_str(), known.c_str());
		}
		S.swap(N);
	}
	std::vector<size_t> full; size_t tot = 0; for (auto &s : sc) { full.push_back(s->m.frames.size()); tot += full.back(); }
	CHECK(S.count(full), "only %zu of %zu frames were recorded", got.size(), tot);
}
