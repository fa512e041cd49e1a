// C26: distinct objects are independent, also when used by several threads.
#include "iosim.hpp"
#include "strm.hpp"
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <dirent.h>
const PropInfo prop_info = {
	"C26",
	"A case is two to four actors, each with a generated script of calls on objects of its own: control frames, one-way and two-way writers and readers over recording transports, file writers and readers, UNIX and TCP socket writers with real sockets, I/O threads; some are created from option objects they share. Each script is first run alone, then all run as threads of one deterministic simulation that can switch at every memory access of the whole library. Each actor's trace (results, contents, bytes on its transport) must be the same both times. Non-trivial: at least two actors had objects in use at the same time.",
	"exploration", 40000, 1200000, 2000, 8, false, 30,
	{"Threads are interleaved at memory accesses of all library code, under sequential consistency.", "The recording transports and the checking code itself are not switch points."}
};
// connect() to a socket of ours: accept at once and let the peer speak in advance
extern "C" int __real_connect(int, const struct sockaddr *, socklen_t);
struct Peer { std::string addr; int ls = -1, cs = -1; std::string say; };
static std::vector<Peer *> peers;
extern "C" int __wrap_connect(int fd, const struct sockaddr *a, socklen_t l) {
	int r = __real_connect(fd, a, l);
	if (r == 0) for (auto *p : peers) if (p->addr == std::string((const char *)a, std::min<size_t>(l, p->addr.size()))) {
		if (p->cs >= 0) close(p->cs);
		p->cs = accept4(p->ls, nullptr, nullptr, SOCK_CLOEXEC);
		if (p->cs >= 0 && send(p->cs, p->say.data(), p->say.size(), MSG_NOSIGNAL) < 0) abort();
	}
	return r;
}
static std::string dir;
void prop_setup() {}
struct Dir {          // a scratch directory for the case
	Dir() { char b[] = "/tmp/pbt-XXXXXX"; if (!mkdtemp(b)) { perror("mkdtemp"); _exit(2); } dir = b; }
	~Dir() { DIR *x = opendir(dir.c_str()); if (x) { while (auto *e = readdir(x)) unlink((dir + "/" + e->d_name).c_str()); closedir(x); } rmdir(dir.c_str()); }
};
struct Shared { struct fstrm_writer_options *wo = nullptr; struct fstrm_reader_options *ro = nullptr; struct fstrm_iothr_options *io = nullptr; std::vector<std::string> cts; };
static Shared S;
static int in_use, most;
struct Use { Use() { most = std::max(most, ++in_use); } ~Use() { in_use--; } };
struct Trace { std::string s; void add(const std::string &x) { s += x; s += '\n'; NOTE("    %s\n", x.substr(0, 150).c_str()); } };

static void act_control(Tape &t, Trace &T) {
	auto *c = fstrm_control_init(); Use u;
	struct G { struct fstrm_control **c; ~G() { fstrm_control_destroy(c); } } g{&c};
	std::string last = ref::encode({ref::START, {"x"}});
	for (int n = 3 + t.range(0, 9); n; n--) switch (t.range(0, 5)) {
	case 0: { int ty = 1 + t.range(0, 4); T.add(strf("type %d -> %d", ty, fstrm_control_set_type(c, (fstrm_control_type)ty))); break; }
	case 1: { Exact e(gen_ct(t)); T.add(strf("add %s -> %d", show_ct(e.str()).c_str(), fstrm_control_add_field_content_type(c, e.p, e.n))); break; }
	case 2: {
		uint32_t fl = t.flip() ? FSTRM_CONTROL_FLAG_WITH_HEADER : 0; size_t sz = 0; fstrm_res r = fstrm_control_encoded_size(c, &sz, fl);
		if (r != fstrm_res_success) { T.add("size fails"); break; }
		Exact e(sz); size_t l = sz; r = fstrm_control_encode(c, e.p, &l, fl);
		T.add(strf("encode -> %d %s", r, ref::hex(e.str().substr(0, l), 600).c_str()));
		if (r == fstrm_res_success && fl) last = e.str();
		break;
	}
	case 3: { std::string s = last; if (t.flip() && !s.empty()) s[t.range(0, s.size() - 1)] ^= 1 << t.range(0, 7); Exact e(s);
		fstrm_res r = fstrm_control_decode(c, e.p, e.n, FSTRM_CONTROL_FLAG_WITH_HEADER); T.add(strf("decode -> %d", r)); if (r != fstrm_res_success) fstrm_control_reset(c); break; }
	case 4: { Exact e(gen_ct(t, false)); T.add(strf("match -> %d", fstrm_control_match_field_content_type(c, e.p, e.n))); break; }
	default: { fstrm_control_type ty = (fstrm_control_type)0; fstrm_res r = fstrm_control_get_type(c, &ty); T.add(strf("type %d %d", r, r == fstrm_res_success ? ty : 0)); for (auto &x : get_cts(c)) T.add("ct " + ref::hex(x, 300)); }
	}
}
static void show_frame(Trace &T, const char *what, fstrm_res r, const struct fstrm_control *c) {
	T.add(strf("%s frame -> %d", what, r));
	if (r == fstrm_res_success && c) { fstrm_control_type ty; if (fstrm_control_get_type(c, &ty) == fstrm_res_success) { T.add(strf("  type %d", ty)); for (auto &x : get_cts(c)) T.add("  ct " + ref::hex(x, 300)); } }
}
static void drive_writer(Tape &t, Trace &T, struct fstrm_writer *w, size_t big) {
	for (int n = 2 + t.range(0, 8); n; n--) switch (t.weighted({1, 6, 3, 1, 2})) {
	case 0: T.add(strf("open -> %d", fstrm_writer_open(w))); break;
	case 1: { Exact e(gen_payload(t, big)); T.add(strf("write -> %d", fstrm_writer_write(w, e.p, e.n))); break; }
	case 2: {
		int k = t.chance(30) ? 120 + t.range(0, 20) : t.range(0, 6); std::vector<std::unique_ptr<Exact>> b; std::vector<struct iovec> v;
		for (int i = 0; i < k; i++) { b.emplace_back(new Exact(i < 4 ? gen_payload(t, 300) : std::string(1 + i % 5, (char)i))); v.push_back({b.back()->p, b.back()->n}); }
		T.add(strf("writev %d -> %d", k, fstrm_writer_writev(w, v.data(), k))); break;
	}
	case 3: T.add(strf("close -> %d", fstrm_writer_close(w))); break;
	default: { struct fstrm_control *c = nullptr; auto ty = (fstrm_control_type)(1 + t.range(0, 4)); fstrm_res r = fstrm_writer_get_control(w, ty, &c); show_frame(T, "writer", r, c); }
	}
}
static void act_writer(Tape &t, Trace &T, bool two) {
	Mock m(two, true); bool shared = t.chance(100);
	auto cts = shared ? S.cts : gen_cts(t, 3);
	m.peer = [&](int, const std::string &out) {
		std::string in = ref::encode({ref::ACCEPT, cts.empty() ? cts : std::vector<std::string>{cts[cts.size() - 1]}});
		return in + ref::encode({ref::FINISH, {}});
	};
	WriterH h;
	if (shared) { auto *rd = m.rdwr(); h.w = fstrm_writer_init(S.wo, &rd); if (!h.w) { fstrm_rdwr_destroy(&rd); T.add("init fails"); return; } }
	else h.w = mk_writer(m, cts);
	Use u;
	drive_writer(t, T, h.w, 3000);
	T.add(strf("destroy -> %d", fstrm_writer_destroy(&h.w)));
	for (auto &c : m.conns) T.add("bytes " + ref::hex(c.out, 20000));
	if (!m.bad.empty()) T.add("misuse " + m.bad);
}
static void drive_reader(Tape &t, Trace &T, struct fstrm_reader *r) {
	for (int n = 3 + t.range(0, 12); n; n--) switch (t.weighted({1, 8, 1, 2})) {
	case 0: T.add(strf("open -> %d", fstrm_reader_open(r))); break;
	case 1: { const uint8_t *d = nullptr; size_t l = 0; fstrm_res x = fstrm_reader_read(r, &d, &l); T.add(strf("read -> %d", x)); if (x == fstrm_res_success) { sim::yield(); T.add(ref::hex(std::string((const char *)d, l), 20000)); } break; }
	case 2: T.add(strf("close -> %d", fstrm_reader_close(r))); break;
	default: { const struct fstrm_control *c = nullptr; auto ty = (fstrm_control_type)(1 + t.range(0, 4)); fstrm_res x = fstrm_reader_get_control(r, ty, &c); show_frame(T, "reader", x, c); }
	}
}
static std::string gen_stream(Tape &t, const std::vector<std::string> &cts, bool two) {
	std::string s; std::vector<std::string> one; if (!cts.empty() && t.chance(240)) one.push_back(cts[t.range(0, cts.size() - 1)]);
	if (two) s += ref::encode({ref::READY, one});
	s += ref::encode({ref::START, one});
	for (int n = t.range(0, 7); n; n--) s += t.chance(30) ? ref::frame(gen_unknown(t)) : ref::data(gen_payload(t, 3000));
	if (t.chance(20)) s += ref::frame(gen_malformed(t));
	if (t.chance(230)) s += ref::encode({ref::STOP, {}});
	return s;
}
static void act_reader(Tape &t, Trace &T, bool two) {
	Mock m(true, two); bool shared = t.chance(100);
	auto cts = shared ? S.cts : gen_cts(t, 2);
	std::string s = gen_stream(t, cts, two); m.input = &s;
	ReaderH h;
	if (shared) { auto *rd = m.rdwr(); h.r = fstrm_reader_init(S.ro, &rd); if (!h.r) { fstrm_rdwr_destroy(&rd); T.add("init fails"); return; } }
	else h.r = mk_reader(m, cts);
	Use u;
	drive_reader(t, T, h.r);
	T.add(strf("destroy -> %d", fstrm_reader_destroy(&h.r)));
	for (auto &c : m.conns) T.add("bytes " + ref::hex(c.out, 20000));
	if (!m.bad.empty()) T.add("misuse " + m.bad);
}
static void act_file(Tape &t, Trace &T, int id) {
	std::string f = dir + "/f" + std::to_string(id); unlink(f.c_str());
	auto *fo = fstrm_file_options_init(); fstrm_file_options_set_file_path(fo, f.c_str());
	WriterH h; h.w = fstrm_file_writer_init(fo, S.wo); Use u;
	if (h.w) drive_writer(t, T, h.w, 9000);
	T.add(strf("destroy -> %d", fstrm_writer_destroy(&h.w)));
	{ FILE *x = fopen(f.c_str(), "r"); std::string s; char b[4096]; size_t n; if (x) { while ((n = fread(b, 1, sizeof b, x)) > 0) s.append(b, n); fclose(x); } T.add("bytes " + ref::hex(s, 40000)); }
	ReaderH r; r.r = fstrm_file_reader_init(fo, S.ro);
	fstrm_file_options_destroy(&fo);
	if (r.r) drive_reader(t, T, r.r);
	T.add(strf("destroy -> %d", fstrm_reader_destroy(&r.r)));
	unlink(f.c_str());
}
static void act_socket(Tape &t, Trace &T, int id, bool tcp) {
	Peer p; struct sockaddr_storage ss{}; socklen_t sl;
	struct G { Peer &p; ~G() { peers.erase(std::remove(peers.begin(), peers.end(), &p), peers.end()); if (p.cs >= 0) close(p.cs); if (p.ls >= 0) close(p.ls); } } g{p};
	std::string path = dir + "/s" + std::to_string(id); int port = 0;
	if (tcp) {
		auto *in = (struct sockaddr_in *)&ss; in->sin_family = AF_INET; in->sin_port = 0; inet_pton(AF_INET, "127.0.0.1", &in->sin_addr); sl = sizeof *in;
	} else {
		unlink(path.c_str());
		auto *un = (struct sockaddr_un *)&ss; un->sun_family = AF_UNIX; strcpy(un->sun_path, path.c_str()); sl = offsetof(struct sockaddr_un, sun_path) + path.size() + 1;
	}
	p.ls = socket(ss.ss_family, SOCK_STREAM | SOCK_CLOEXEC, 0);
	if (bind(p.ls, (struct sockaddr *)&ss, sl) || listen(p.ls, 8)) { perror("bind"); _exit(2); }
	if (tcp) { getsockname(p.ls, (struct sockaddr *)&ss, &sl); port = ntohs(((struct sockaddr_in *)&ss)->sin_port); p.addr = std::string((char *)&ss, 8); }
	else p.addr = std::string((char *)&ss, sl);
	p.say = ref::encode({ref::ACCEPT, {}}) + ref::encode({ref::FINISH, {}});
	peers.push_back(&p);
	WriterH h;
	if (tcp) {
		auto *o = fstrm_tcp_writer_options_init(); fstrm_tcp_writer_options_set_socket_address(o, "127.0.0.1"); fstrm_tcp_writer_options_set_socket_port(o, std::to_string(port).c_str());
		h.w = fstrm_tcp_writer_init(o, S.wo); fstrm_tcp_writer_options_destroy(&o);
	} else {
		auto *o = fstrm_unix_writer_options_init(); fstrm_unix_writer_options_set_socket_path(o, path.c_str());
		h.w = fstrm_unix_writer_init(o, S.wo); fstrm_unix_writer_options_destroy(&o);
	}
	Use u; std::string got;
	auto take = [&] { char b[8192]; ssize_t n; while (p.cs >= 0 && (n = recv(p.cs, b, sizeof b, MSG_DONTWAIT)) > 0) got.append(b, n); };
	if (!h.w) { T.add("init fails"); return; }
	T.add(strf("open -> %d", fstrm_writer_open(h.w)));
	for (int n = t.range(0, 6); n; n--) { Exact e(gen_payload(t, 3000)); T.add(strf("write -> %d", fstrm_writer_write(h.w, e.p, e.n))); if (!tcp) take(); }
	T.add(strf("close -> %d", fstrm_writer_close(h.w)));
	T.add(strf("destroy -> %d", fstrm_writer_destroy(&h.w)));
	// the writer has closed its end: everything up to the end of the stream is there
	{ char b[8192]; ssize_t n; while (p.cs >= 0 && (n = recv(p.cs, b, sizeof b, 0)) > 0) got.append(b, n); }
	T.add("bytes " + ref::hex(got, 40000));
	if (!tcp) unlink(path.c_str());
}
static void act_iothr(Tape &t, Trace &T) {
	World W; Cfg &c = W.cfg; c = gen_cfg(t); c.qsize = 64; c.nq = 1 + t.range(0, 1); bool shared = t.chance(100);
	if (shared) { c = Cfg(); c.qsize = 64; }
	auto *w = W.make_writer(); struct fstrm_iothr_options *o = nullptr;
	if (!shared) { o = fstrm_iothr_options_init(); W.options(o); }
	W.io = fstrm_iothr_init(shared ? S.io : o, &w);
	if (o) fstrm_iothr_options_destroy(&o);
	if (!W.io) { if (w) fstrm_writer_destroy(&w); T.add("init fails"); return; }
	Use u;
	for (unsigned i = 0; i < c.nq; i++) W.qs.push_back(fstrm_iothr_get_input_queue(W.io));
	for (int n = t.range(0, 14); n; n--) {
		if (t.chance(50)) { sim::sleep_for(t.range(0, 255) * c.T * sim::SEC / 64); continue; }
		Msg *m = W.make(t.range(0, c.nq - 1), gen_len(t)); fstrm_res r = W.submit(m);
		T.add(strf("submit -> %d", r)); if (r != fstrm_res_success) { delete[] m->ptr; m->ptr = nullptr; }
	}
	W.destroy();
	W.parse(true); W.check_frees(); W.check_order();
	for (unsigned q = 0; q < c.nq; q++) { std::string s = strf("queue %u:", q); for (auto *m : W.order) if (m->q == (int)q) s += strf(" %d", m->id); T.add(s); }
}
struct Actor { int kind; std::string bytes; Trace solo, both; };
static void run(Actor &a, Trace &T, int id) {
	Tape t((const uint8_t *)a.bytes.data(), a.bytes.size());
	try {
		switch (a.kind) {
		case 0: act_control(t, T); break;
		case 1: case 2: act_writer(t, T, a.kind == 2); break;
		case 3: case 4: act_reader(t, T, a.kind == 4); break;
		case 5: act_file(t, T, id); break;
		case 6: act_iothr(t, T); break;
		default: act_socket(t, T, id, a.kind == 8);
		}
	} catch (PropFail &e) { T.add(std::string("FAIL: ") + e.what()); }
}
void prop(Tape &t) {
	static const char *names[] = {"control", "writer", "two-way writer", "reader", "two-way reader", "file", "iothr", "unix socket", "tcp socket"};
	sim::Opts so = gen_sched(t); if (so.mode == 0 && t.flip()) so.mode = 1;
	std::vector<Actor> as; std::string D; int n = 2 + t.weighted({5, 2, 1});
	int same = t.flip() ? (int)t.weighted({3, 4, 4, 4, 4, 2, 3, 2, 1}) : -1;
	for (int i = 0; i < n; i++) {
		Actor a; a.kind = same >= 0 ? same : (int)t.weighted({3, 4, 4, 4, 4, 2, 3, 2, 1});
		{ size_t k = t.range(20, 160); a.bytes = t.chance(160) ? t.fill(k) : t.bytes(k); } D += strf(" %s", names[a.kind]); as.push_back(a);
	}
	S.cts = gen_cts(t, 2);
	describe(D.substr(1) + strf(" mode=%d script %08x", so.mode, t.rest()));
	heap_reset();
	struct G { ~G() { if (S.wo) fstrm_writer_options_destroy(&S.wo); if (S.ro) fstrm_reader_options_destroy(&S.ro); if (S.io) fstrm_iothr_options_destroy(&S.io); } } g;
	S.wo = wopts(S.cts); S.ro = ropts(S.cts);
	S.io = fstrm_iothr_options_init(); fstrm_iothr_options_set_input_queue_size(S.io, 64);
	std::unique_ptr<Dir> scratch; for (auto &a : as) if ((a.kind == 5 || a.kind == 7) && !scratch) scratch = std::make_unique<Dir>();
	in_use = most = 0;
	int fd0 = fd_probe();
	Tape none(nullptr, 0);
	for (int i = 0; i < n; i++) {
		NOTE("  actor %d (%s) alone\n", i, names[as[i].kind]);
		sim::begin(&none, sim::Opts());
		int id = sim::spawn("actor", [&, i] { run(as[i], as[i].solo, i); });
		sim::join(id); sim::end();
		if (!sim::first_error().empty()) fail("actor %d (%s) alone: %s", i, names[as[i].kind], sim::first_error().c_str());
		CHECK(as[i].solo.s.find("FAIL:") == std::string::npos, "actor %d (%s) alone: %s", i, names[as[i].kind], as[i].solo.s.substr(as[i].solo.s.find("FAIL:"), 600).c_str());
	}
	size_t h0 = heap_live();
	in_use = most = 0;
	NOTE("  all together\n");
	sim::begin(&t, so);
	std::vector<int> ids; for (int i = 0; i < n; i++) ids.push_back(sim::spawn("actor", [&, i] { run(as[i], as[i].both, i); }));
	for (int id : ids) sim::join(id);
	sim::end();
	if (!sim::first_error().empty()) fail("with other objects in use: %s", sim::first_error().c_str());
	for (int i = 0; i < n; i++) if (as[i].solo.s != as[i].both.s) {
		auto &x = as[i].solo.s, &y = as[i].both.s; size_t d = 0; while (d < x.size() && d < y.size() && x[d] == y[d]) d++;
		size_t a = x.rfind('\n', d ? d - 1 : 0); a = a == x.npos ? 0 : a + 1;
		fail("actor %d (%s) behaves differently while other objects are in use: \"%s\" instead of \"%s\"", i, names[as[i].kind], y.substr(a, std::max<size_t>(160, d - a + 40)).c_str(), x.substr(a, std::max<size_t>(160, d - a + 40)).c_str());
	}
	size_t h1 = heap_live();
	CHECK(h1 == h0, "%zd block(s) were not freed", (ssize_t)(h1 - h0));
	int fd1 = fd_probe(); CHECK(fd1 == fd0, "a file descriptor was left open");
	if (most >= 2) nontrivial();
	if (same >= 0) label("actors of one kind");
	for (auto &a : as) label(names[a.kind]);
}
