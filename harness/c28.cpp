// C28: settings are copied, ownership passes exactly when creation succeeds.
#include <sanitizer/asan_interface.h>
#include "mock.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <netinet/in.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/un.h>
const PropInfo prop_info = {
	"C28",
	"A case is a random history over a pool of option objects, transports with any subset of methods, readers, writers, file and socket writers and I/O threads: options are set, reset, used for several objects, changed and destroyed after use, creation is attempted with missing parts and repeated once they are there. A model remembers the settings at creation time, and each object is used to observe which settings it has. Non-trivial: an object was used after the options it was created from had been changed or destroyed, or after a creation had been refused.",
	"exploration", 500000, 20000000, 700, 8, false, 30,
	{"connect() is interposed; I/O threads run on real threads, with messages submitted only while nothing fails.", "A transport without a close method (documented as required) is only checked for memory safety."}
};
void prop_setup() {}
static struct { bool on; std::string addr; int n; } CN;
static std::string canon(const struct sockaddr *a, socklen_t l) {   // what identifies the peer
	if (a->sa_family == AF_UNIX && l > offsetof(struct sockaddr_un, sun_path)) { auto u = (const struct sockaddr_un *)a; return "unix " + std::string(u->sun_path, strnlen(u->sun_path, l - offsetof(struct sockaddr_un, sun_path))); }
	if (a->sa_family == AF_INET && l >= sizeof(struct sockaddr_in)) { auto u = (const struct sockaddr_in *)a; return strf("4 %x %u", ntohl(u->sin_addr.s_addr), ntohs(u->sin_port)); }
	if (a->sa_family == AF_INET6 && l >= sizeof(struct sockaddr_in6)) { auto u = (const struct sockaddr_in6 *)a; return "6 " + ref::hex(std::string((const char *)&u->sin6_addr, 16), 32) + strf(" %u", ntohs(u->sin6_port)); }
	return strf("family %d, %u bytes", a->sa_family, (unsigned)l);
}
extern "C" {
int __real_connect(int, const struct sockaddr *, socklen_t);
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t l) {
	if (!CN.on) return __real_connect(fd, a, l);
	CN.addr = canon(a, l); CN.n++; errno = ECONNREFUSED; return -1;
}
}
namespace {
struct Tr {       // a transport with some of the methods
	bool o = 0, c = 0, r = 0, w = 0, d = 0;
	std::string in, out; size_t pos = 0; bool open = false; int destroys = 0; std::string bad;
	struct fstrm_rdwr *rd = nullptr; bool owned = false, gone = false;   // owned by a reader or writer
	static Tr *self(void *p) { return (Tr *)p; }
	void set(int k) {
		switch (k) {
		case 0: o = true; fstrm_rdwr_set_open(rd, [](void *p) -> fstrm_res { auto &x = *self(p); if (x.open || x.destroys) x.bad = "open"; x.open = true; x.out.clear(); x.pos = 0; return fstrm_res_success; }); break;
		case 1: c = true; fstrm_rdwr_set_close(rd, [](void *p) -> fstrm_res { auto &x = *self(p); if (!x.open || x.destroys) x.bad = "close"; x.open = false; return fstrm_res_success; }); break;
		case 2: r = true; fstrm_rdwr_set_read(rd, [](void *p, void *b, size_t n) -> fstrm_res { auto &x = *self(p); if (!x.open || x.destroys) x.bad = "read"; if (x.in.size() - x.pos < n) return fstrm_res_stop; memcpy(b, x.in.data() + x.pos, n); x.pos += n; return fstrm_res_success; }); break;
		case 3: w = true; fstrm_rdwr_set_write(rd, [](void *p, const struct iovec *v, int n) -> fstrm_res { auto &x = *self(p); if (!x.open || x.destroys) x.bad = "write"; for (int i = 0; i < n; i++) x.out.append((const char *)v[i].iov_base, v[i].iov_len); return fstrm_res_success; }); break;
		default: d = true; fstrm_rdwr_set_destroy(rd, [](void *p) -> fstrm_res { self(p)->destroys++; return fstrm_res_success; });
		}
	}
};
using Cts = std::vector<std::string>;
struct WO { struct fstrm_writer_options *p; Cts cts; int gen = 0; };
struct RO { struct fstrm_reader_options *p; Cts cts; size_t max = 1048576; int gen = 0; };
struct FO { struct fstrm_file_options *p; int path = -1; int gen = 0; };
struct UO { struct fstrm_unix_writer_options *p; std::string path; bool set = false; };
struct TO { struct fstrm_tcp_writer_options *p; int a = 0, port = 0; };
struct IO { struct fstrm_iothr_options *p; unsigned nq = 1, cap = 512; int gen = 0; };
struct W { struct fstrm_writer *p; Cts cts; Tr *t = nullptr; int file = -1; std::string addr; bool sock = false; };
struct R { struct fstrm_reader *p; Cts cts; size_t max; Tr *t = nullptr; int file = -1; };
struct Ctx {
	Tape &t; std::string D; bool nt = false;
	std::vector<WO> wo; std::vector<RO> ro; std::vector<FO> fo; std::vector<UO> uo; std::vector<TO> to; std::vector<IO> io; std::vector<W> w; std::vector<R> r;
	std::vector<std::unique_ptr<Tr>> tr; int fds[3] = {-1, -1, -1}; bool stale = false;
	explicit Ctx(Tape &x) : t(x) {}
	~Ctx() { for (int f : fds) if (f >= 0) close(f); CN.on = false; }
};
}
static std::string sct(Tape &t) { static const char *p[] = {"a", "b", "ab", "", "proto:x"}; return p[t.range(0, 4)]; }
static bool has(const Cts &v, const std::string &s) { return v.empty() || std::find(v.begin(), v.end(), s) != v.end(); }
static ref::Ctl ctl(uint32_t ty, const Cts &c) { ref::Ctl x; x.type = ty; x.cts = c; return x; }
static std::string start_of(const Cts &c) { return ref::encode(ctl(ref::START, c.empty() ? Cts{} : Cts{c[0]})); }
static void use_writer(Ctx &x, W &w) {
	Tape &t = x.t;
	if (w.sock) {
		CN.addr.clear(); CN.n = 0; CN.on = true; fstrm_res r = fstrm_writer_open(w.p); CN.on = false;
		CHECK(r != fstrm_res_success && CN.n == 1 && CN.addr == w.addr, "a socket writer connects to an address other than the one configured when it was created");
		return;
	}
	std::string pay = t.fill(1 + t.range(0, 40));
	if (w.t && w.t->r) w.t->in = ref::encode(ctl(ref::ACCEPT, {})) + ref::encode(ctl(ref::FINISH, {}));
	fstrm_res r = fstrm_writer_open(w.p);
	if (w.t && !w.t->o) { CHECK(r != fstrm_res_success, "opening a transport without an open method succeeded"); return; }
	std::string pre; bool enc = true;
	if (w.t && w.t->r) { auto rdy = ctl(ref::READY, w.cts); enc = ref::encodable(rdy); pre = enc ? ref::encode(rdy) : ""; }
	if (!enc) { CHECK(r != fstrm_res_success, "open succeeded although the READY frame is too large"); return; }
	CHECK(r == fstrm_res_success, "open failed");
	CHECK(fstrm_writer_write(w.p, pay.data(), pay.size()) == fstrm_res_success, "write failed");
	r = fstrm_writer_close(w.p);
	std::string want = pre + start_of(w.cts) + ref::data(pay) + ref::encode(ctl(ref::STOP, {})), got;
	if (w.t) { if (!w.t->c) return; got = w.t->out; }
	else { off_t n = lseek(x.fds[w.file], 0, SEEK_END); got.resize(n); CHECK(pread(x.fds[w.file], &got[0], n, 0) == n, "pread"); }
	CHECK(r == fstrm_res_success, "close failed");
	CHECK(got == want, "the writer does not write the stream of the settings it was created with (%zu bytes, %zu expected)", got.size(), want.size());
}
static void use_reader(Ctx &x, R &r) {
	Tape &t = x.t;
	if (r.t && !r.t->o) { CHECK(fstrm_reader_open(r.p) != fstrm_res_success, "opening a transport without an open method succeeded"); return; }
	size_t len = t.chance(20) && r.max == 1048576 ? r.max + t.range(0, 1) : r.max < 5000 ? r.max - 1 + t.range(0, 2) : 1 + t.range(0, 3000);
	std::string c = sct(t), body(len, 'x'); bool none = t.chance(40);
	Cts offer; for (size_t n = t.range(0, 3); n; n--) offer.push_back(sct(t));
	std::string s = ref::encode(ctl(ref::START, none ? Cts{} : Cts{c})) + ref::data(body) + ref::encode(ctl(ref::STOP, {}));
	if (r.t) r.t->in = (r.t->w ? ref::encode(ctl(ref::READY, offer)) : "") + s;
	else { CHECK(ftruncate(x.fds[r.file], 0) == 0 && pwrite(x.fds[r.file], s.data(), s.size(), 0) == (ssize_t)s.size(), "pwrite"); }
	bool ok = none || has(r.cts, c);
	Cts acc; for (auto &m : r.cts) if (has(offer, m)) acc.push_back(m);
	bool enc = !(r.t && r.t->w) || ref::encodable(ctl(ref::ACCEPT, acc));
	fstrm_res o = fstrm_reader_open(r.p);
	if (!enc) { CHECK(o != fstrm_res_success, "open succeeded although the ACCEPT frame is too large"); return; }
	CHECK((o == fstrm_res_success) == ok, "a reader created with %zu content types %s a stream of type %s", r.cts.size(), ok ? "refuses" : "accepts", none ? "none" : show_ct(c).c_str());
	if (r.t && r.t->w) {
		CHECK(r.t->out.compare(0, std::string::npos, ref::encode(ctl(ref::ACCEPT, acc))) == 0, "ACCEPT is not that of the content types at creation");
	}
	if (!ok) return;
	const uint8_t *p; size_t n; o = fstrm_reader_read(r.p, &p, &n);
	CHECK((o == fstrm_res_success) == (len <= r.max), "frame of %zu bytes, limit %zu at creation: %s", len, r.max, o == fstrm_res_success ? "accepted" : "refused");
	if (o == fstrm_res_success) CHECK(n == len && !memcmp(p, body.data(), n), "the frame differs");
	if (t.flip()) fstrm_reader_close(r.p);
}
static std::atomic<int> freed;
static void free_cb(void *p, void *) { freed++; delete[] (char *)p; }
static void use_iothr(Ctx &x, W w, struct fstrm_iothr_options *opt, unsigned nq, bool spoil, IO *io) {
	Tape &t = x.t;
	if (w.t && w.t->r) w.t->in = ref::encode(ctl(ref::ACCEPT, {})) + ref::encode(ctl(ref::FINISH, {}));
	auto *th = fstrm_iothr_init(opt, &w.p);
	CHECK(th, "fstrm_iothr_init failed with accepted options");
	struct D { struct fstrm_iothr *&p; ~D() { if (p) fstrm_iothr_destroy(&p); } } guard{th};
	CHECK(!w.p, "fstrm_iothr_init left the writer with the caller");
	if (spoil) { fstrm_iothr_options_set_num_input_queues(opt, 1 + t.range(0, 9)); if (t.flip()) { fstrm_iothr_options_destroy(&io->p); CHECK(!io->p, "options_destroy left its pointer"); } x.nt = true; }
	std::vector<struct fstrm_iothr_queue *> q;
	while (auto *k = fstrm_iothr_get_input_queue(th)) { q.push_back(k); CHECK(q.size() <= 100, "no end of input queues"); }
	CHECK(q.size() == nq, "%zu input queues, %u at creation", q.size(), nq);
	CHECK(!fstrm_iothr_get_input_queue_idx(th, nq) && fstrm_iothr_get_input_queue_idx(th, nq - 1) == q[nq - 1], "queues by index");
	std::string want; int subs = t.range(0, 5), withcb = 0; freed = 0; std::vector<char *> plain;
	unsigned one = t.range(0, nq - 1);
	std::vector<std::string> kept;
	for (int i = 0; i < subs; i++) kept.push_back(t.fill(1 + t.range(0, 30)));
	for (auto &s : kept) {
		fstrm_res r;
		if (t.chance(80)) { char *b = (char *)malloc(s.size()); memcpy(b, s.data(), s.size()); r = fstrm_iothr_submit(th, q[one], b, s.size(), fstrm_free_wrapper, nullptr); if (r == fstrm_res_success) plain.push_back(b); else free(b); }
		else if (t.flip()) { char *b = new char[s.size()]; memcpy(b, s.data(), s.size()); r = fstrm_iothr_submit(th, q[one], b, s.size(), free_cb, nullptr); if (r == fstrm_res_success) withcb++; else delete[] b; }
		else r = fstrm_iothr_submit(th, q[one], (void *)s.data(), s.size(), nullptr, nullptr);
		CHECK(r == fstrm_res_success, "submission refused");
		want += ref::data(s);
	}
	fstrm_iothr_destroy(&th); CHECK(!th, "fstrm_iothr_destroy left its pointer");
	for (char *b : plain) CHECK(__asan_address_is_poisoned(b), "a message submitted with fstrm_free_wrapper was not freed");
	CHECK(freed == withcb, "%d of %d messages freed", freed.load(), withcb);
	if (w.t && w.t->o && w.t->c) {
		auto rdy = ctl(ref::READY, w.cts);
		if (w.t->r && !ref::encodable(rdy)) return;
		CHECK(w.t->out == (w.t->r ? ref::encode(rdy) : "") + start_of(w.cts) + want + ref::encode(ctl(ref::STOP, {})), "the I/O thread's output is not the submitted stream");
	}
}
void prop(Tape &t) {
	heap_reset(); int fd0 = fd_probe();
	Ctx x(t); std::string &D = x.D;
	auto pickp = [&](auto &v) { return t.range(0, v.size() - 1); };
	auto path = [&](int k) { return strf("/proc/self/fd/%d", x.fds[k]); };
	bool refused = false;
	int steps = 4 + t.range(0, 36);
	auto done_w = [&](W &w) { if (w.p) { fstrm_writer_destroy(&w.p); CHECK(!w.p, "fstrm_writer_destroy left its pointer"); } if (w.t) { CHECK(w.t->destroys == w.t->d, "destroying the writer called the transport's destroy method %d times", w.t->destroys); w.t->gone = true; w.t->rd = nullptr; } };
	auto done_r = [&](R &r) { fstrm_reader_destroy(&r.p); CHECK(!r.p, "fstrm_reader_destroy left its pointer"); if (r.t) { CHECK(r.t->destroys == r.t->d, "destroying the reader called the transport's destroy method %d times", r.t->destroys); r.t->gone = true; r.t->rd = nullptr; } };
	auto free_tr = [&](bool wr) -> Tr * { std::vector<Tr *> v; for (auto &p : x.tr) if (!p->owned && !p->gone) v.push_back(p.get()); (void)wr; return v.empty() ? nullptr : v[t.range(0, v.size() - 1)]; };
	auto strset = [&](auto fn, auto *o, const std::string &s) { Exact e(s + std::string(1, 0)); fn(o, (const char *)e.p); memset(e.p, '?', s.size()); };
	static const char *addrs[] = {"127.0.0.1", "10.1.2.3", "::1"}; static const int ports[] = {1, 853, 65535};
	for (int s = 0; s < steps; s++) switch (t.weighted({4, 6, 3, 4, 4, 3, 3, 8, 5, 2, 8, 8, 8, 8, 4, 4, 5, 4, 3, 4, 3})) {
	case 0: if (x.wo.size() < 3) { x.wo.push_back({fstrm_writer_options_init(), {}}); D += "wopt "; } break;
	case 1: if (!x.wo.empty()) {
		auto &o = x.wo[pickp(x.wo)]; std::string c = t.chance(30) ? std::string(200 + t.range(0, 80), 'L') : sct(t); Exact e(c);
		fstrm_res r = fstrm_writer_options_add_content_type(o.p, e.p, e.n); memset(e.p, '?', e.n);
		CHECK((r == fstrm_res_success) == (c.size() <= 256), "adding a content type of %zu bytes", c.size());
		if (r == fstrm_res_success) o.cts.push_back(c); else refused = true;
		x.stale |= o.gen > 0; D += "w+ct "; } break;
	case 2: if (!x.wo.empty()) { size_t k = pickp(x.wo); auto o = x.wo[k]; fstrm_writer_options_destroy(&o.p); CHECK(!o.p, "writer_options_destroy left its pointer"); fstrm_writer_options_destroy(&o.p); x.stale |= o.gen > 0; x.wo.erase(x.wo.begin() + k); D += "-wopt "; } break;
	case 3: if (x.ro.size() < 3) { x.ro.push_back({fstrm_reader_options_init(), {}}); D += "ropt "; } break;
	case 4: if (!x.ro.empty()) {
		auto &o = x.ro[pickp(x.ro)]; std::string c = t.chance(30) ? std::string(200 + t.range(0, 80), 'L') : sct(t); Exact e(c);
		fstrm_res r = fstrm_reader_options_add_content_type(o.p, e.p, e.n); memset(e.p, '?', e.n);
		CHECK((r == fstrm_res_success) == (c.size() <= 256), "adding a content type of %zu bytes", c.size());
		if (r == fstrm_res_success) o.cts.push_back(c); else refused = true;
		x.stale |= o.gen > 0; D += "r+ct "; } break;
	case 5: if (!x.ro.empty()) { auto &o = x.ro[pickp(x.ro)]; size_t m = 500 + t.range(0, 600); fstrm_res r = fstrm_reader_options_set_max_frame_size(o.p, m); CHECK((r == fstrm_res_success) == (m >= 512), "maximum frame size %zu", m); if (m >= 512) o.max = m; else refused = true; x.stale |= o.gen > 0; D += "r=max "; } break;
	case 6: if (!x.ro.empty()) { size_t k = pickp(x.ro); auto o = x.ro[k]; fstrm_reader_options_destroy(&o.p); CHECK(!o.p, "reader_options_destroy left its pointer"); fstrm_reader_options_destroy(&o.p); x.stale |= o.gen > 0; x.ro.erase(x.ro.begin() + k); D += "-ropt "; } break;
	case 7: if (x.tr.size() < 8) {
		x.tr.emplace_back(new Tr); Tr &q = *x.tr.back(); q.rd = fstrm_rdwr_init(&q); CHECK(q.rd, "fstrm_rdwr_init failed");
		int m = t.range(0, 31) | (t.chance(200) ? 3 : 0); for (int k = 0; k < 5; k++) if (m >> k & 1) q.set(k);
		D += strf("tr(%d) ", m); } break;
	case 8: if (Tr *q = free_tr(true)) { q->set(t.range(0, 4)); D += "set "; } break;
	case 9: if (Tr *q = free_tr(true)) { fstrm_rdwr_destroy(&q->rd); CHECK(!q->rd && q->destroys == q->d, "fstrm_rdwr_destroy: destroy method called %d times", q->destroys); q->gone = true; D += "-tr "; } break;
	case 10: if (Tr *q = free_tr(true)) {
		int k = x.wo.empty() || t.chance(40) ? -1 : pickp(x.wo); auto *before = q->rd;
		W w; w.t = q; if (k >= 0) { w.cts = x.wo[k].cts; x.wo[k].gen++; }
		w.p = fstrm_writer_init(k >= 0 ? x.wo[k].p : nullptr, &q->rd);
		D += w.p ? "W " : "W? ";
		CHECK(!!w.p == q->w, "fstrm_writer_init on a transport %s write method %s", q->w ? "with" : "without", w.p ? "succeeded" : "failed");
		if (w.p) { CHECK(!q->rd, "fstrm_writer_init left the transport with the caller"); q->owned = true; x.w.push_back(w); }
		else { CHECK(q->rd == before && !q->destroys && q->bad.empty(), "a refused fstrm_writer_init took the transport"); refused = true; }
		} break;
	case 11: if (Tr *q = free_tr(true)) {
		int k = x.ro.empty() || t.chance(40) ? -1 : pickp(x.ro); auto *before = q->rd;
		R r; r.t = q; r.max = 1048576; if (k >= 0) { r.cts = x.ro[k].cts; r.max = x.ro[k].max; x.ro[k].gen++; }
		r.p = fstrm_reader_init(k >= 0 ? x.ro[k].p : nullptr, &q->rd);
		D += r.p ? "R " : "R? ";
		CHECK(!!r.p == q->r, "fstrm_reader_init on a transport %s read method %s", q->r ? "with" : "without", r.p ? "succeeded" : "failed");
		if (r.p) { CHECK(!q->rd, "fstrm_reader_init left the transport with the caller"); q->owned = true; x.r.push_back(r); }
		else { CHECK(q->rd == before && !q->destroys && q->bad.empty(), "a refused fstrm_reader_init took the transport"); refused = true; }
		} break;
	case 12: if (!x.w.empty()) { size_t k = pickp(x.w); if (t.chance(220)) { D += "useW "; use_writer(x, x.w[k]); x.nt |= x.stale || refused; } done_w(x.w[k]); x.w.erase(x.w.begin() + k); } break;
	case 13: if (!x.r.empty()) { size_t k = pickp(x.r); if (t.chance(220)) { D += "useR "; use_reader(x, x.r[k]); x.nt |= x.stale || refused; } done_r(x.r[k]); x.r.erase(x.r.begin() + k); } break;
	case 14: if (x.fo.size() < 2) { x.fo.push_back({fstrm_file_options_init()}); D += "fopt "; }
		else { size_t k = pickp(x.fo); fstrm_file_options_destroy(&x.fo[k].p); CHECK(!x.fo[k].p, "file_options_destroy left its pointer"); fstrm_file_options_destroy(&x.fo[k].p); x.stale |= x.fo[k].gen > 0; x.fo.erase(x.fo.begin() + k); D += "-fopt "; } break;
	case 15: if (!x.fo.empty()) {
		auto &o = x.fo[pickp(x.fo)]; x.stale |= o.gen > 0;
		if (t.chance(40)) { fstrm_file_options_set_file_path(o.p, nullptr); o.path = -1; D += "path=0 "; }
		else { o.path = t.range(0, 2); if (x.fds[o.path] < 0) x.fds[o.path] = memfd_create("c28", 0); strset(fstrm_file_options_set_file_path, o.p, path(o.path)); D += strf("path=%d ", o.path); } } break;
	case 16: if (!x.fo.empty()) {
		auto &o = x.fo[pickp(x.fo)]; o.gen++;
		if (t.flip()) {
			int k = x.wo.empty() || t.chance(40) ? -1 : pickp(x.wo); W w; w.file = o.path; if (k >= 0) { w.cts = x.wo[k].cts; x.wo[k].gen++; }
			w.p = fstrm_file_writer_init(o.p, k >= 0 ? x.wo[k].p : nullptr); D += "FW ";
			CHECK(!!w.p == (o.path >= 0), "file writer %s path", o.path >= 0 ? "refused with a" : "created without a");
			if (w.p) x.w.push_back(w); else refused = true;
		} else {
			int k = x.ro.empty() || t.chance(40) ? -1 : pickp(x.ro); R r; r.file = o.path; r.max = 1048576; if (k >= 0) { r.cts = x.ro[k].cts; r.max = x.ro[k].max; x.ro[k].gen++; }
			r.p = fstrm_file_reader_init(o.p, k >= 0 ? x.ro[k].p : nullptr); D += "FR ";
			CHECK(!!r.p == (o.path >= 0), "file reader %s path", o.path >= 0 ? "refused with a" : "created without a");
			if (r.p) x.r.push_back(r); else refused = true;
		} } break;
	case 17:
		if (x.uo.empty()) { x.uo.push_back({fstrm_unix_writer_options_init()}); D += "uopt "; }
		else if (t.chance(140)) { auto &o = x.uo[0]; o.set = !t.chance(30); o.path = "/tmp/c28-" + t.bytes(1 + t.range(0, 5)); for (auto &c : o.path) if (!c) c = 'z'; if (o.set) strset(fstrm_unix_writer_options_set_socket_path, o.p, o.path); else fstrm_unix_writer_options_set_socket_path(o.p, nullptr); x.stale = true; D += "upath "; }
		else if (t.chance(60)) { fstrm_unix_writer_options_destroy(&x.uo[0].p); CHECK(!x.uo[0].p, "unix_writer_options_destroy left its pointer"); fstrm_unix_writer_options_destroy(&x.uo[0].p); x.uo.clear(); x.stale = true; D += "-uopt "; }
		else {
			W w; w.sock = true; w.p = fstrm_unix_writer_init(x.uo[0].p, nullptr); D += "UW ";
			CHECK(!!w.p == x.uo[0].set, "unix writer %s path", x.uo[0].set ? "refused with a" : "created without a");
			w.addr = "unix " + x.uo[0].path;
			if (w.p) x.w.push_back(w); else refused = true;
		} break;
	case 18:
		if (x.to.empty()) { x.to.push_back({fstrm_tcp_writer_options_init()}); D += "topt "; }
		else if (t.chance(140)) { auto &o = x.to[0]; x.stale = true;
			if (t.flip()) { o.a = t.range(0, 3); if (o.a) strset(fstrm_tcp_writer_options_set_socket_address, o.p, addrs[o.a - 1]); else fstrm_tcp_writer_options_set_socket_address(o.p, nullptr); }
			else { o.port = t.range(0, 3); if (o.port) strset(fstrm_tcp_writer_options_set_socket_port, o.p, std::to_string(ports[o.port - 1])); else fstrm_tcp_writer_options_set_socket_port(o.p, nullptr); } D += "tset "; }
		else if (t.chance(60)) { fstrm_tcp_writer_options_destroy(&x.to[0].p); CHECK(!x.to[0].p, "tcp_writer_options_destroy left its pointer"); fstrm_tcp_writer_options_destroy(&x.to[0].p); x.to.clear(); x.stale = true; D += "-topt "; }
		else {
			auto &o = x.to[0]; W w; w.sock = true; w.p = fstrm_tcp_writer_init(o.p, nullptr); D += "TW "; bool ok = o.a && o.port;
			CHECK(!!w.p == ok, "tcp writer %s", ok ? "refused with address and port" : "created without address or port");
			if (ok && o.a < 3) { struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(ports[o.port - 1]); a.sin_addr.s_addr = htonl(o.a == 1 ? 0x7f000001 : 0x0a010203); w.addr = canon((struct sockaddr *)&a, sizeof a); }
			else if (ok) { struct sockaddr_in6 a; memset(&a, 0, sizeof a); a.sin6_family = AF_INET6; a.sin6_port = htons(ports[o.port - 1]); a.sin6_addr.s6_addr[15] = 1; w.addr = canon((struct sockaddr *)&a, sizeof a); }
			if (w.p) x.w.push_back(w); else refused = true;
		} break;
	case 19: if (!x.w.empty()) {
		size_t k = pickp(x.w); W w = x.w[k]; if (w.sock || w.file >= 0) break;
		bool null = t.chance(60), spoil = !null && t.chance(160); unsigned nq = 1; IO o{};
		if (!null) { if (x.io.empty()) { o.p = fstrm_iothr_options_init(); x.io.push_back(o); } if (t.flip()) { nq = 1 + t.range(0, 6); CHECK(fstrm_iothr_options_set_num_input_queues(x.io[0].p, nq) == fstrm_res_success, "num_input_queues %u", nq); x.io[0].nq = nq; } nq = x.io[0].nq; }
		D += strf("IO(%u) ", nq); x.w.erase(x.w.begin() + k);
		use_iothr(x, w, null ? nullptr : x.io[0].p, nq, spoil, null ? nullptr : &x.io[0]); w.p = nullptr;
		if (!null && spoil) { if (x.io[0].p) fstrm_iothr_options_destroy(&x.io[0].p); x.io.clear(); }
		done_w(w); } break;
	default: { // destroying nothing
		struct fstrm_writer *a = nullptr; struct fstrm_reader *b = nullptr; struct fstrm_control *c = nullptr; struct fstrm_rdwr *d = nullptr; struct fstrm_iothr *e = nullptr; struct fstrm_iothr_options *f = nullptr;
		fstrm_writer_destroy(&a); fstrm_reader_destroy(&b); fstrm_control_destroy(&c); fstrm_rdwr_destroy(&d); fstrm_iothr_destroy(&e); fstrm_iothr_options_destroy(&f);
		CHECK(!a && !b && !c && !d && !e && !f, "destroying NULL changed the pointer"); D += "0 "; }
	}
	for (auto &w : x.w) { if (t.flip()) { D += "useW "; use_writer(x, w); x.nt |= x.stale || refused; } done_w(w); }
	for (auto &r : x.r) { if (t.flip()) { D += "useR "; use_reader(x, r); x.nt |= x.stale || refused; } done_r(r); }
	for (auto &o : x.wo) fstrm_writer_options_destroy(&o.p);
	for (auto &o : x.ro) fstrm_reader_options_destroy(&o.p);
	for (auto &o : x.fo) fstrm_file_options_destroy(&o.p);
	for (auto &o : x.uo) fstrm_unix_writer_options_destroy(&o.p);
	for (auto &o : x.to) fstrm_tcp_writer_options_destroy(&o.p);
	for (auto &o : x.io) fstrm_iothr_options_destroy(&o.p);
	for (auto &q : x.tr) { CHECK(q->bad.empty(), "transport method %s called at the wrong time", q->bad.c_str()); if (!q->owned && !q->gone) { fstrm_rdwr_destroy(&q->rd); CHECK(q->destroys == q->d, "fstrm_rdwr_destroy: destroy method called %d times", q->destroys); } }
	CHECK(heap_live() == 0, "%zu blocks leaked", heap_live());
	for (int &f : x.fds) if (f >= 0) { close(f); f = -1; }
	CHECK(fd_probe() == fd0, "a descriptor was left open");
	if (x.nt) nontrivial();
	label(refused ? "with refusals" : "no refusal"); label(x.stale ? "options changed after use" : "options left alone");
	describe(D);
}
