// C09: TCP and UNIX socket writers over a simulated, fault-injecting socket layer.
#include "mock.hpp"
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <poll.h>
#include <sys/socket.h>
#include <unistd.h>
#include <map>
const PropInfo prop_info = {
	"C09",
	"A case is a random open/write/writev/close/destroy history on a TCP or UNIX-socket writer, with the socket calls simulated at the libc boundary: each send and receive completes in full, partially (any split), with EINTR, with an error, or with a closed peer, as drawn. Non-trivial: a send was split or interrupted and the call still succeeded, or a fault hit an open stream.",
	"fault_enumeration", 400000, 16000000, 900, 8, false, 60,
	{"The kernel is replaced by interposed socket/connect/sendmsg/send/write/writev/recv/read/close; the fake peer answers READY and STOP as soon as they have arrived completely."}
};
extern "C" {
int __real_socket(int, int, int); int __real_connect(int, const struct sockaddr *, socklen_t); int __real_close(int);
ssize_t __real_sendmsg(int, const struct msghdr *, int); ssize_t __real_send(int, const void *, size_t, int); ssize_t __real_sendto(int, const void *, size_t, int, const struct sockaddr *, socklen_t);
ssize_t __real_write(int, const void *, size_t); ssize_t __real_writev(int, const struct iovec *, int);
ssize_t __real_read(int, void *, size_t); ssize_t __real_readv(int, const struct iovec *, int); ssize_t __real_recv(int, void *, size_t, int); ssize_t __real_recvfrom(int, void *, size_t, int, struct sockaddr *, socklen_t *); ssize_t __real_recvmsg(int, struct msghdr *, int);
int __real_setsockopt(int, int, int, const void *, socklen_t); int __real_shutdown(int, int); int __real_poll(struct pollfd *, nfds_t, int);
}
struct Conn { std::string out; size_t in_off = 0; bool dead = false; int err = EPIPE; };
struct Sim {
	bool on = false;
	Tape *t = nullptr;
	std::map<int, size_t> fds;        // open simulated fds -> connection index (or -1)
	std::vector<Conn> conns;
	unsigned p_short = 0, p_eintr = 0, p_err = 0;   // /256
	int eintr_run = 0;
	int hard = 0;                     // hard faults so far
	int splits = 0;
	size_t ready_len = 0, stop_at = (size_t)-1;
	std::string accept, finish;
	std::string bad;
	bool zero = false;                // the next descriptor is 0
	bool fail_socket = false, no_cloexec = false, fail_connect = false, fail_close = false, intr_close = false; int soft = 0;
	void oops(const std::string &s) { if (bad.empty()) bad = s; }
} S;
static bool mine(int fd) { return S.on && S.fds.count(fd); }
static Conn *conn(int fd) { size_t i = S.fds[fd]; return i == (size_t)-1 ? nullptr : &S.conns[i]; }
static ssize_t do_send(int fd, const struct iovec *iov, int cnt, bool nosig) {
	Conn *c = conn(fd);
	if (!c) { errno = ENOTCONN; S.oops("send on an unconnected socket"); return -1; }
	size_t n = 0; for (int i = 0; i < cnt; i++) n += iov[i].iov_len;
	if (c->dead) { if (S.hard++ > 2000) fail("sending on a connection that failed with %s goes on", strerror(c->err)); if (!nosig && c->err == EPIPE) raise(SIGPIPE); errno = c->err; return -1; }
	if (n == 0) return 0;
	if (S.eintr_run < 3 && S.t->chance(S.p_eintr)) { S.eintr_run++; S.splits++; errno = EINTR; return -1; }
	S.eintr_run = 0;
	if (S.t->chance(S.p_err)) {
		S.hard++; c->dead = true;
		static const int es[] = {ECONNRESET, ETIMEDOUT, ENOBUFS, EHOSTUNREACH, ENETDOWN, ENOMEM, EIO, EACCES};
		if (S.t->flip()) { if (!nosig) raise(SIGPIPE); } else c->err = es[S.t->range(0, 7)];   // EPIPE, or another that stays
		errno = c->err; return -1;
	}
	size_t k = n;
	if (n > 1 && S.t->chance(S.p_short)) {
		S.splits++;
		switch (S.t->range(0, 2)) {
		case 0: k = 1 + S.t->range(0, std::min<size_t>(n - 2, 12)); break;      // within a length prefix
		case 1: {                                                               // at or near an element boundary
			int e = S.t->range(0, cnt - 1); size_t a = 0; for (int i = 0; i <= e; i++) a += iov[i].iov_len;
			k = a + S.t->range(0, 2); if (k > 1) k--; break;
		}
		default: k = 1 + S.t->range(0, n - 2);
		}
		if (k < 1) k = 1;
		if (k > n) k = n;
	}
	size_t left = k;
	for (int i = 0; i < cnt && left; i++) { size_t m = std::min(left, iov[i].iov_len); c->out.append((const char *)iov[i].iov_base, m); left -= m; }
	return k;
}
static ssize_t do_recv(int fd, void *p, size_t n) {
	Conn *c = conn(fd);
	if (!c) { errno = ENOTCONN; S.oops("receive on an unconnected socket"); return -1; }
	if (n == 0) return 0;
	if (c->dead) { if (S.hard++ > 2000) fail("receiving on a connection that failed with %s goes on", strerror(c->err)); errno = c->err; return -1; }
	if (S.eintr_run < 3 && S.t->chance(S.p_eintr)) { S.eintr_run++; S.splits++; errno = EINTR; return -1; }
	S.eintr_run = 0;
	if (S.t->chance(S.p_err)) { S.hard++; c->dead = true; if (S.t->flip()) return 0; static const int es[] = {ECONNRESET, ETIMEDOUT, ECONNREFUSED, EHOSTUNREACH, ENOMEM, EIO, ENOTCONN, EINVAL}; c->err = es[S.t->range(0, 7)]; errno = c->err; return -1; }
	std::string in;
	if (c->out.size() >= S.ready_len) in += S.accept;
	if (c->out.size() >= S.stop_at) in += S.finish;
	if (c->in_off >= in.size()) { S.oops("receive with nothing to come: would block forever"); S.hard++; c->dead = true; return 0; }
	size_t k = std::min(n, in.size() - c->in_off);
	if (k > 1 && S.t->chance(S.p_short)) { k = 1 + S.t->range(0, k - 2); S.splits++; }
	memcpy(p, in.data() + c->in_off, k); c->in_off += k;
	return k;
}
extern "C" {
int __wrap_socket(int d, int ty, int pr) {
	if (!S.on) return __real_socket(d, ty, pr);
	if (S.fail_socket) { S.hard++; errno = EMFILE; return -1; }
	if (S.no_cloexec && (ty & SOCK_CLOEXEC)) { S.soft++; S.no_cloexec = false; errno = EINVAL; return -1; }   // as on kernels that do not know the flag (giving up is accepted)
	int fd = open("/dev/null", O_RDWR | (ty & SOCK_CLOEXEC ? O_CLOEXEC : 0));
	if (S.zero && fd > 0 && !S.fds.count(0)) { dup3(fd, 0, ty & SOCK_CLOEXEC ? O_CLOEXEC : 0); __real_close(fd); fd = 0; }
	S.fds[fd] = (size_t)-1;
	return fd;
}
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t l) {
	if (!mine(fd)) return __real_connect(fd, a, l);
	if (!(fcntl(fd, F_GETFD) & FD_CLOEXEC)) S.oops("the socket would be passed on to programs that are executed");
	if (S.fail_connect) { S.hard++; errno = ECONNREFUSED; return -1; }
	S.conns.emplace_back(); S.fds[fd] = S.conns.size() - 1;
	return 0;
}
int __wrap_close(int fd) {
	if (!S.on) return __real_close(fd);
	if (!S.fds.count(fd)) { if (fd >= 0) S.oops(strf("close of descriptor %d, which is not open", fd)); errno = EBADF; return -1; }
	S.fds.erase(fd); __real_close(fd);
	if (S.intr_close) { S.soft++; S.intr_close = false; errno = EINTR; return -1; } // interrupted, but released as on Linux
	if (S.fail_close) { S.hard++; S.fail_close = false; errno = EIO; return -1; }
	return 0;
}
ssize_t __wrap_sendmsg(int fd, const struct msghdr *m, int f) { return mine(fd) ? do_send(fd, m->msg_iov, m->msg_iovlen, f & MSG_NOSIGNAL) : __real_sendmsg(fd, m, f); }
ssize_t __wrap_send(int fd, const void *p, size_t n, int f) { struct iovec v = {(void *)p, n}; return mine(fd) ? do_send(fd, &v, 1, f & MSG_NOSIGNAL) : __real_send(fd, p, n, f); }
ssize_t __wrap_sendto(int fd, const void *p, size_t n, int f, const struct sockaddr *a, socklen_t l) { struct iovec v = {(void *)p, n}; return mine(fd) ? do_send(fd, &v, 1, f & MSG_NOSIGNAL) : __real_sendto(fd, p, n, f, a, l); }
ssize_t __wrap_write(int fd, const void *p, size_t n) { struct iovec v = {(void *)p, n}; return mine(fd) ? do_send(fd, &v, 1, false) : __real_write(fd, p, n); }
ssize_t __wrap_writev(int fd, const struct iovec *v, int n) { return mine(fd) ? do_send(fd, v, n, false) : __real_writev(fd, v, n); }
ssize_t __wrap_read(int fd, void *p, size_t n) { return mine(fd) ? do_recv(fd, p, n) : __real_read(fd, p, n); }
ssize_t __wrap_recv(int fd, void *p, size_t n, int f) { return mine(fd) ? do_recv(fd, p, n) : __real_recv(fd, p, n, f); }
ssize_t __wrap_recvfrom(int fd, void *p, size_t n, int f, struct sockaddr *a, socklen_t *l) { return mine(fd) ? do_recv(fd, p, n) : __real_recvfrom(fd, p, n, f, a, l); }
ssize_t __wrap_readv(int fd, const struct iovec *v, int n) { return mine(fd) ? do_recv(fd, v[0].iov_base, v[0].iov_len) : __real_readv(fd, v, n); }
ssize_t __wrap_recvmsg(int fd, struct msghdr *m, int f) { return mine(fd) ? do_recv(fd, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len) : __real_recvmsg(fd, m, f); }
int __wrap_setsockopt(int fd, int a, int b, const void *p, socklen_t l) { return mine(fd) ? 0 : __real_setsockopt(fd, a, b, p, l); }
int __wrap_shutdown(int fd, int h) { return mine(fd) ? 0 : __real_shutdown(fd, h); }
int __wrap_poll(struct pollfd *p, nfds_t n, int to) {
	if (!S.on || n < 1 || !mine(p[0].fd)) return __real_poll(p, n, to);
	for (nfds_t i = 0; i < n; i++) p[i].revents = p[i].events;
	return n;
}
}
void prop_setup() { signal(SIGPIPE, SIG_DFL); }
struct SimOn { SimOn() { S.on = true; } ~SimOn() { S.on = false; for (auto &f : S.fds) __real_close(f.first); S.fds.clear(); if (fcntl(0, F_GETFD) < 0) { int fd = open("/dev/null", O_RDWR); if (fd > 0) { dup2(fd, 0); __real_close(fd); } } } };

void prop(Tape &t) {
	heap_reset();
	S = Sim(); S.t = &t;
	bool tcp = t.flip();
	std::vector<std::string> cts; for (size_t n = t.range(0, 2); n; n--) cts.push_back(t.bytes(t.range(0, 5)));
	ref::Ctl c; c.cts = cts; c.type = ref::READY; std::string ready = ref::encode(c);
	c.type = ref::ACCEPT; S.accept = ref::encode(c); S.finish = ref::encode({ref::FINISH, {}});
	c.type = ref::START; if (!cts.empty()) c.cts = {cts[0]};
	std::string hs = ready + ref::encode(c), stop = ref::encode({ref::STOP, {}});
	S.ready_len = ready.size();
	static const unsigned ps[] = {0, 30, 120, 250}, pe[] = {0, 10, 60, 128}, pf[] = {0, 0, 2, 12, 40};
	unsigned p_short = ps[t.range(0, 3)], p_eintr = pe[t.range(0, 3)], p_err = pf[t.range(0, 4)];
	std::string D = strf("%s types %s short=%u eintr=%u err=%u: ", tcp ? "tcp" : "unix", show(cts).c_str(), p_short, p_eintr, p_err);

	auto *wo = wopts(cts);
	WriterH h;
	if (tcp) {
		auto *o = fstrm_tcp_writer_options_init();
		fstrm_tcp_writer_options_set_socket_address(o, t.flip() ? "127.0.0.1" : "::1"); fstrm_tcp_writer_options_set_socket_port(o, "12345");
		h.w = fstrm_tcp_writer_init(o, wo); fstrm_tcp_writer_options_destroy(&o);
	} else {
		auto *o = fstrm_unix_writer_options_init();
		fstrm_unix_writer_options_set_socket_path(o, "/nonexistent/socket");
		h.w = fstrm_unix_writer_init(o, wo); fstrm_unix_writer_options_destroy(&o);
	}
	fstrm_writer_options_destroy(&wo);
	CHECK(h.w, "writer init failed");
	SimOn on;
	S.zero = t.chance(24);
	if (S.zero) D += "descriptor 0 ";
	S.p_short = p_short; S.p_eintr = p_eintr; S.p_err = p_err;
	std::vector<std::string> exp; bool nt = false;
	enum { OPENING, OPEN, CLOSED, BROKEN } st = OPENING;
	auto bytes_ok = [&](const char *what, const std::string &full, bool success) {
		const std::string &o = S.conns.back().out; std::string want = exp.back() + full;
		if (success) {
			size_t d = 0; while (d < o.size() && d < want.size() && o[d] == want[d]) d++;
			CHECK(o == want, "%s succeeded but the peer received %zu bytes, expected %zu; first difference at %zu", what, o.size(), want.size(), d);
		} else CHECK(o.size() >= exp.back().size() && o.size() <= want.size() && want.compare(0, o.size(), o) == 0, "%s failed and the peer received bytes that are not a prefix of its frames", what);
		exp.back() = o;
	};
	int n = 1 + t.range(0, 8);
	for (int i = 0; i <= n; i++) {
		bool last = i == n;
		S.fail_socket = t.chance(p_err / 2); S.fail_connect = t.chance(p_err); S.no_cloexec = t.chance(20); S.fail_close = S.intr_close = false;
		int hard0 = S.hard, soft0 = S.soft, sp0 = S.splits; size_t c0 = S.conns.size();
		const char *name = ""; std::string own; fstrm_res r; bool closing = false;
		int k = last ? 4 : (int)t.weighted({2, 6, 5, 3});
		std::vector<std::unique_ptr<Exact>> b; std::vector<struct iovec> v;
		if (k == 1) { std::string p = gen_payload(t, 200000); own = ref::data(p); b.emplace_back(new Exact(p)); name = "write"; r = fstrm_writer_write(h.w, b[0]->p, b[0]->n); D += strf("write(%zu) ", p.size()); }
		else if (k == 2) {
			int cnt = t.chance(60) ? 100 + t.range(0, 200) : 1 + t.range(0, 5);
			for (int j = 0; j < cnt; j++) { std::string p = j < 4 ? gen_payload(t, 20000) : std::string(1 + j % 9, 'a' + j % 26); own += ref::data(p); b.emplace_back(new Exact(p)); v.push_back({b.back()->p, b.back()->n}); }
			name = "writev"; r = fstrm_writer_writev(h.w, v.data(), cnt); D += strf("writev(%d) ", cnt);
		} else if (k == 0) { name = "open"; D += "open "; r = fstrm_writer_open(h.w); }
		else {
			name = last ? "destroy" : "close"; closing = true; own = stop;
			S.stop_at = exp.empty() ? (size_t)-1 : exp.back().size() + stop.size();
			S.fail_close = t.chance(p_err); S.intr_close = !S.fail_close && t.chance(p_eintr / 4);
			r = last ? fstrm_writer_destroy(&h.w) : fstrm_writer_close(h.w);
			S.stop_at = (size_t)-1; D += last ? "destroy " : "close ";
		}
		bool ok = r == fstrm_res_success, hit = S.hard > hard0, opened = S.conns.size() > c0;
		CHECK(S.bad.empty(), "%s: %s", name, S.bad.c_str());
		if (ok) CHECK(!hit, "%s succeeded although a socket call failed", name);
		CHECK(S.conns.size() <= c0 + 1, "%s connected twice", name);
		if (opened) exp.emplace_back();
		std::string full = (opened ? hs : "") + own;
		if (k == 0 && st == OPEN) { CHECK(ok, "open of an open writer failed"); continue; }
		if (closing && st != OPEN && st != BROKEN) { CHECK(!ok, "%s succeeded without an open stream", name); }
		else if (!closing && st == CLOSED && k != 0) CHECK(!ok, "%s after close succeeded", name);
		else if (st != BROKEN) CHECK(ok || hit || S.soft > soft0, "%s failed although every socket call was retriable", name);
		if (ok) {
			if (st == BROKEN && !opened) { CHECK(k == 0, "%s succeeded on a broken connection", name); continue; }
			if (exp.empty()) fail("%s succeeded without connecting", name);
			if (!closing && !opened && st != OPEN) fail("%s succeeded without connecting", name);
			bytes_ok(name, full, true);
			if (S.splits > sp0) nt = true;
			st = closing ? CLOSED : OPEN;
			CHECK(S.fds.size() == (closing ? 0 : 1), "after %s: %zu descriptors open", name, S.fds.size());
		} else {
			if (!exp.empty()) bytes_ok(name, full, false);
			if (hit && st == OPEN) nt = true;
			CHECK(S.fds.empty(), "%s failed and left a descriptor open", name);
			if (closing) { if (st == OPEN) st = CLOSED; }
			else if (st == OPEN || (st == OPENING && k != 0)) st = BROKEN;
		}
	}
	CHECK(S.fds.empty(), "descriptor leaked");
	CHECK(heap_live() == 0, "%zu blocks leaked", heap_live());
	if (nt) nontrivial();
	label(tcp ? "tcp" : "unix");
	if (S.hard) label("hard fault");
	describe(D);
}
