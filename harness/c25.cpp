// C25: the programs' command lines.
#include "cap.hpp"
#include <ctime>
const PropInfo prop_info = {
	"C25",
	"A case runs the real capture or replay program with a command line made of the documented options in random order and any documented form (short, long, value in the next argument or after an equals sign), or with one defect (mandatory option missing, exclusive options together, required companion missing, unknown option, missing value, surplus argument, invalid port, address or path, option in place of a value), or with a random sequence of options, values and odd strings. Accepted command lines must have the documented effect (observed by a scripted peer and in the output), refused ones must end unsuccessfully with a message, without serving, connecting, writing or removing anything. Non-trivial: an accepted command line of at least four options whose effect was observed, or a refused one with a single defect.",
	"exploration", 9000, 300000, 400, 8, 2, 60,
	{"Values do not start with a dash.", "Numbers are plain decimal."}
};
extern "C" int fstrm_replay_main(int, char **);
void prop_setup() { prog_init(); signal(SIGPIPE, SIG_IGN); }
namespace {
typedef std::vector<std::string> Args;
struct Opt { Args a; };   // one option with its value
struct Line {
	std::vector<std::pair<std::string, Args>> o;      // name -> arguments
	void add(Tape &t, const char *sh, const char *lo, const std::string *val) {
		std::string n = lo; bool useshort = sh && t.flip();
		std::string key = useshort ? std::string("-") + sh : "--" + n;
		if (!val) { o.push_back({lo, {key}}); return; }
		if (!useshort && t.chance(60)) o.push_back({lo, {key + "=" + *val}}); else o.push_back({lo, {key, *val}});
	}
	void drop(const char *n) { for (size_t i = 0; i < o.size();) if (o[i].first == n) o.erase(o.begin() + i); else i++; }
	bool has(const char *n) { for (auto &x : o) if (x.first == n) return true; return false; }
	void shuffle(Tape &t) { for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[t.range(0, i - 1)]); }
	Args args(const char *prog) { Args a = {prog}; for (auto &x : o) a.insert(a.end(), x.second.begin(), x.second.end()); return a; }
};
std::string show(const Args &a) { std::string r; for (auto &x : a) r += " '" + (x.size() > 60 ? x.substr(0, 60) + ".." : x) + "'"; return r; }
const char *odd[] = {"-", "--", "---", "-?", "-x", "-Z", "-1", "-5", "-0x3", "=", "-=", "--=", "", "0", "7", "65536", "300", "a=b", "--t", "--u", "--typ", "--gm", "--unknown", "--unix=", "-tuw", "-wwwwwwww", "-tttttttttttttttttttttttttttttttttttttttttttttttttttttttttttttttttt", "-d=3", "-ddd", "-dh", "--debug=x", "--help", "-h", "--version", "--usage", "--usage-all", "--argv-display", "--argv-file", "--argv-file=argfile", "argfile", "%Y", "%", "%%", "\xff\xfe", "rr", "-b=9999", "-c=2", "-s=1"};
}
namespace {
struct Cd {      // the driver's current directory, for socket paths that only fit relative to it
	int back = -1;
	void to(const std::string &d) { back = open(".", O_RDONLY | O_CLOEXEC); if (back < 0 || chdir(d.c_str())) { perror("chdir"); _exit(2); } }
	~Cd() { if (back >= 0) { if (fchdir(back)) _exit(2); close(back); } }
};
int have_v6() { static int v6 = -1; if (v6 < 0) { int s = socket(AF_INET6, SOCK_STREAM, 0); struct sockaddr_in6 a{}; a.sin6_family = AF_INET6; a.sin6_addr = in6addr_loopback; v6 = s >= 0 && bind(s, (struct sockaddr *)&a, sizeof a) == 0; if (s >= 0) close(s); } return v6; }
// an address and a port of this process's own: sets cap.ss
void own_endpoint(Tape &t, Capture &cap, bool v6, std::string &addr, std::string &port) {
	static const char *six[] = {"::1", "0:0:0:0:0:0:0:1", "::0001", "0::1"};
	addr = v6 ? six[t.range(0, 3)] : Capture::own_addr(); int p = cap.bind_tcp(addr);
	if (v6) { p = 10000 + getpid() % 28 * 781 + p % 781; ((struct sockaddr_in6 *)&cap.ss)->sin6_port = htons(p); }
	else if (t.chance(30)) { p = 65535; ((struct sockaddr_in *)&cap.ss)->sin_port = htons(p); label("port 65535"); }
	port = std::to_string(p);
}
}
static void soup(Tape &t) {
	bool rep = t.flip(); Args a = {rep ? "fstrm_replay" : "fstrm_capture"};
	if (t.chance(10)) a[0] = t.flip() ? "" : std::string(t.range(60, 300), 'p');
	static const char *opts[] = {"-t", "--type", "-u", "--unix", "-a", "--tcp", "-p", "--port", "-w", "--write", "-b", "--buffersize", "-c", "--maxconns", "-s", "--split", "--gmtime", "--localtime", "-d", "--debug", "-r", "--read", "--read-file"};
	static const char *vals[] = {"t", "sock", "127.0.0.1", "::1", "1", "70000", "out", "in", "3", "-1", "12x", "out-%s"};
	auto tok = [&]() -> std::string {
		switch (t.weighted({6, 5, 4, 1})) {
		case 0: return opts[t.range(0, 22)];
		case 1: return vals[t.range(0, 11)];
		case 2: return odd[t.range(0, sizeof odd / sizeof *odd - 1)];
		default: { std::string s; for (size_t n = t.range(0, 12); n; n--) { char c = (char)t.byte(); if (c == '/' || c == '.' || !c) c = '-'; s += c; } return s; }
		}
	};
	int n = t.range(0, t.chance(20) ? 60 : 12);
	for (int i = 0; i < n; i++) a.push_back(tok());
	Scratch dir; std::string f; for (int i = t.range(0, 40); i > 0; i--) { std::string x = tok(); if (x.find("argv-file") == x.npos && !strstr("--argv-file", x.c_str())) f += x + "\n"; }
	put_file(dir.path("argfile"), f); put_file(dir.path("in"), ref::encode({ref::START, {"t"}}) + ref::data("x") + ref::encode({ref::STOP, {}}));
	describe("soup:" + show(a)); label("random arguments");
	bool env = t.chance(10);
	Child ch; std::string D = dir.dir;
	prog_shm->ready = 0; prog_shm->vtime = 0; prog_shm->nsig = 0; prog_shm->rcap = prog_shm->wcap = 0;
	ch.start(rep ? fstrm_replay_main : fstrm_capture_main, a, [&] { if (chdir(D.c_str())) _exit(3); struct rlimit r = {1 << 20, 1 << 20}; setrlimit(RLIMIT_FSIZE, &r); if (env) { setenv("ARGV_FSTRM_CAPTURE", "-d -t x", 1); setenv("ARGV_FSTRM_REPLAY", "-t x -r in", 1); } });
	double end = mono() + SLOW; bool served = false;
	for (int i = 0; !ch.wait(0); i++) {
		if (prog_shm->ready) { served = true; ch.kill(SIGTERM); if (!ch.wait(SLOW)) fail("the program did not exit after SIGTERM"); break; }
		if (mono() > end) fail("the program neither serves nor ends");
		if (i < 100) sched_yield(); else usleep(50);
	}
	ch.check_sane();
	if (served) { CHECK(ch.code() == 0, "exit status %d after SIGTERM", ch.code()); label("random arguments: served"); }
}
static void capture(Tape &t) {
	CapConfig c; static const char *cts[] = {"t", "protobuf:dnstap.Dnstap", "x y", "a=b", ""};
	c.ct = cts[t.range(0, 4)]; Capture cap(c); Line l;
	std::string v; bool rel = t.flip();
	l.add(t, "t", "type", &c.ct);
	int ak = t.weighted({6, 2, 1}); Cd cwd;
	if (ak == 2 && !have_v6()) ak = 1;
	std::string port = "1234", addr;
	if (ak == 0) {
		bool lng = t.chance(20); v = "s";
		if (lng) { rel = true; v = std::string(107, 's'); cwd.to(cap.dir.dir); cap.bind_to(v); label("longest socket path"); } else { cap.bind_to(cap.dir.path("s")); if (!rel) v = cap.sock; } l.add(t, "u", "unix", &v); if (t.chance(20)) l.add(t, "p", "port", &port);
	} else { own_endpoint(t, cap, ak == 2, addr, port); l.add(t, "a", "tcp", &addr); l.add(t, "p", "port", &port); cap.c.tcp = true; }
	if (t.chance(130)) { cap.c.dflt_b = false; cap.c.b = t.chance(30) ? t.range(300000, 400000) : t.range(60, 3000); v = std::to_string(cap.c.b); l.add(t, "b", "buffersize", &v); }
	if (t.chance(80)) { cap.c.maxconns = t.range(1, 3); v = std::to_string(cap.c.maxconns); l.add(t, "c", "maxconns", &v); }
	for (int i = t.chance(80) ? t.range(1, 6) : 0; i > 0; i--) { l.add(t, "d", "debug", nullptr); cap.c.debug++; }
	bool named = t.chance(100), local = t.flip(), tostd = !named && t.chance(60);
	std::string pat = named ? "o-%Y%m%d-%H%M%S" : "out%d";
	int64_t t0 = 1500000000 + t.range(0, 99999999); long hours = t.range(0, 23);
	if (named) { l.add(t, nullptr, local ? "localtime" : "gmtime", nullptr); if (t.flip()) { v = std::to_string(t.range(1, 9999)); l.add(t, "s", "split", &v); } }
	cap.c.to_stdout = tostd; std::string wname = tostd ? "-" : rel ? pat : cap.dir.path(pat.c_str());
	l.add(t, "w", "write", &wname);
	std::string outname = pat;
	if (named) { time_t k = t0 - (local ? hours * 3600 : 0); struct tm tm; gmtime_r(&k, &tm); char b[100]; strftime(b, sizeof b, pat.c_str(), &tm); outname = b; }
	cap.c.out = outname;
	size_t nopt = l.o.size(); std::string defect; bool early = true;   // early: refused before any effect
	Args extra_end, extra_front; int tty = -1, ptm = -1; std::string cd = cap.dir.dir;
	struct Fd { int &fd; ~Fd() { if (fd >= 0) close(fd); } } g{tty}, gm{ptm};
	if (t.chance(120)) {
		int k = t.range(0, 21);
		switch (k) {
		case 0: l.drop("type"); defect = "no type"; break;
		case 1: l.drop("write"); defect = "no file"; break;
		case 2: l.drop("unix"); l.drop("tcp"); defect = "no address"; break;
		case 3: if (ak) { l.drop("port"); defect = "no port"; } break;
		case 4: v = ak ? "s" : "127.0.0.1"; if (ak) { cap.sock = cap.dir.path("s"); l.add(t, "u", "unix", &v); } else { l.add(t, "a", "tcp", &v); if (!l.has("port")) l.add(t, "p", "port", &port); } defect = "--unix and --tcp"; break;
		case 5: if (named) { l.add(t, nullptr, local ? "gmtime" : "localtime", nullptr); defect = "--gmtime and --localtime"; } break;
		case 6: if (!named) { v = "10"; l.add(t, "s", "split", &v); defect = "--split without a time zone"; } break;
		case 7: if (tostd) { v = "10"; l.add(t, nullptr, "gmtime", nullptr); l.add(t, "s", "split", &v); defect = "--split with standard output"; } break;
		case 8: { static const char *u[] = {"-x", "-r", "-T", "-W", "-1", "-du"}; l.o.push_back({"?", {u[t.range(0, 4)]}}); defect = "unknown option"; break; }
		case 9: { static const char *u[] = {"--typo", "--nope", "--xtype", "--write-file", "--gmtimes", "--", "--unixs"}; int q = t.range(0, 6); if (q == 5) { l.o.push_back({"?", {"surplus"}}); } else l.o.push_back({"?", {u[q]}}); defect = "unknown long option"; break; }
		case 10: l.shuffle(t); if (l.o.back().second.size() == 2) { l.o.back().second.pop_back(); defect = "missing value"; } break;
		case 11: l.o.push_back({"?", {"surplus"}}); defect = "surplus argument"; break;
		case 12: if (ak) { static const char *bad[] = {"65536", "70000", "abc", "12x", "99999999999999999999", "1 ", "80.", ""}; l.drop("port"); if (t.chance(80)) { static const char *neg[] = {"-1", "-0", "-18446744073709550000"}; l.o.push_back({"port", {strf("--port=%s", neg[t.range(0, 2)])}}); } else l.o.push_back({"port", {"-p", bad[t.range(0, 7)]}}); defect = "invalid port"; } break;
		case 13: if (ak) { static const char *bad[] = {"127.0.0", "localhost", "127.0.0.256", "::g", "", "127.0.0.1 ", "1.2.3.4.5"}; l.drop("tcp"); l.o.push_back({"tcp", {"-a", bad[t.range(0, 6)]}}); defect = "invalid address"; } break;
		case 14: if (!ak) { l.drop("unix"); l.o.push_back({"unix", {"-u", std::string(108 + (t.flip() ? 0 : t.range(0, 200)), 'q')}}); defect = "path too long"; } break;
		case 15: if (tostd) { ptm = posix_openpt(O_RDWR | O_NOCTTY | O_CLOEXEC); if (ptm >= 0 && !grantpt(ptm) && !unlockpt(ptm)) tty = open(ptsname(ptm), O_RDWR | O_NOCTTY | O_CLOEXEC); if (tty >= 0) { defect = "binary output to a terminal"; cap.c.to_stdout = false; } } break;
		case 16: if (!tostd) { l.drop("write"); l.o.push_back({"write", {"-w", "missing/out"}}); defect = "output cannot be created"; early = false; } break;
		case 17: if (ak == 1) { l.drop("tcp"); l.o.push_back({"tcp", {"-a", "192.0.2.77"}}); defect = "address not available"; early = false; } break;
		case 18: if (!ak) { l.drop("unix"); l.o.push_back({"unix", {"-u", "missing/s"}}); defect = "no such directory for the socket"; early = false; } break;
		case 19: v = "out2"; l.o.push_back({"?", {"-w", "--debug"}}); defect = "option in place of a value"; break;
		case 20: { static const char *h[] = {"-h", "--help"}; l.o.push_back({"?", {h[t.flip()]}}); defect = "help"; break; }
		default: if (!ak) { l.drop("unix"); l.o.push_back({"unix", {"-u", "dir"}}); mkdir(cap.dir.path("dir").c_str(), 0700); put_file(cap.dir.path("dir/x"), "x"); defect = "socket path is a directory"; early = false; } break;
		}
		if (defect != "missing value") l.shuffle(t);
	} else l.shuffle(t);
	// `-x` followed by a missing value must stay last
	Args a = l.args("fstrm_capture");
	describe(defect + ":" + show(a));
	prog_shm->vtime = t0; prog_shm->nsig = 0; prog_shm->rcap = prog_shm->wcap = 0;
	auto pre = [&] { if (chdir(cd.c_str())) _exit(3); setenv("TZ", strf("XXX+%ld", hours).c_str(), 1); tzset(); };
	if (!defect.empty()) {
		bool pre_exist = !ak && t.flip(); if (pre_exist) put_file(cap.dir.path("s"), "precious");
		std::string of = cap.dir.path(outname.c_str()); bool pre_out = !tostd && t.flip(); if (pre_out) put_file(of, "kept");
		cap.launch(a, pre, tty);
		double end = mono() + SLOW;
		while (!cap.ch.wait(0)) { CHECK(!prog_shm->ready, "the program serves in spite of: %s", defect.c_str()); if (mono() > end) fail("the program neither serves nor ends"); usleep(50); }
		cap.ch.check_sane();
		CHECK(!prog_shm->ready, "the program served in spite of: %s", defect.c_str());
		if (defect != "help") CHECK(cap.ch.code() != 0, "success in spite of: %s", defect.c_str());
		CHECK(!cap.ch.err().empty(), "no message for: %s", defect.c_str());
		if (early) {
			CHECK(prog_shm->nbind == 0, "an address was bound in spite of: %s", defect.c_str());
			bool ex; std::string s = slurp_file(of, &ex);
			if (!tostd) { CHECK(ex == pre_out && (!ex || s == "kept"), "the output file was touched by a refused command line (%s)", defect.c_str()); }
			if (pre_exist) CHECK(slurp_file(cap.dir.path("s")) == "precious", "a refused command line (%s) removed the file at the socket path", defect.c_str());
			if (tostd && cap.outfd >= 0) CHECK(cap.output().empty(), "output written by a refused command line");
		}
		if (defect == "socket path is a directory") { CHECK(slurp_file(cap.dir.path("dir/x")) == "x", "directory at the socket path was emptied"); unlink(cap.dir.path("dir/x").c_str()); rmdir(cap.dir.path("dir").c_str()); }
		label("refused"); { static std::set<std::string> names; label(names.insert("refused: " + defect).first->c_str()); } nontrivial();
		return;
	}
	if (ak == 0 && t.chance(60)) put_file(cap.sock, "old");   // a previous socket is replaced
	cap.launch(a, pre);
	if (!cap.up()) { cap.ch.check_sane(); fail("the program did not start (%d): %.500s", cap.ch.code(), cap.ch.err().c_str()); }
	std::vector<std::unique_ptr<Script>> sc; int n = 1 + t.range(0, 2);
	if (ak && cap.c.maxconns) n = std::min(n, cap.c.maxconns);
	size_t b = cap.c.b;
	for (int k = 0; k < n; k++) {
		auto s = std::make_unique<Script>(cap, c.ct, b);
		s->add(ctl(ref::READY, {c.ct})); s->add(ctl(ref::START, {c.ct}));
		for (int i = t.range(0, 2); i > 0; i--) { size_t len = b - 4 + t.range(0, 2) - 1; s->add(ref::data(tag(t.fill(len), k))); }
		s->add(ref::data(tag("xyz", k))); s->add(ctl(ref::STOP));
		sc.push_back(std::move(s));
	}
	int lim = cap.c.maxconns && cap.c.maxconns < n ? cap.c.maxconns : n;
	for (int k = 0; k < lim; k++) { sc[k]->cl->connect(); sc[k]->step(sc[k]->marks[0]); }
	if (lim < n) {   // waits for the first one to leave
		sc[lim]->cl->connect(); std::string r = sc[lim]->bytes.substr(0, sc[lim]->marks[0]); sc[lim]->cl->send(r); sc[lim]->sent = r.size();
		int w0 = prog_shm->waits; (void)w0; usleep(300); sc[lim]->cl->pump();
		CHECK(sc[lim]->cl->got.empty(), "a client beyond the connection limit of %d is served", lim);
		label("connection limit seen");
	}
	for (int k = 0; k < n; k++) {
		auto &s = *sc[k];
		if (k >= lim) {
			if (k > lim) { s.cl->connect(); s.step(s.marks[0]); }
			else { s.m.feed(s.bytes.substr(0, s.marks[0])); s.cl->expect(s.m.sure); s.verify(); }
		}
		while (s.pending()) s.step(s.next_mark() - s.sent);
	}
	int rc = cap.term(); CHECK(rc == 0, "exit status %d after SIGTERM", rc);
	bool ex = true; std::string out = tostd ? cap.output() : slurp_file(cap.outpath(), &ex);
	CHECK(ex, "there is no output file %s", outname.c_str());
	auto st = ref::parse(out); CHECK(st.ok && st.consumed == out.size(), "the output is not a complete stream: %s", st.err.c_str());
	CHECK(st.start.cts.size() == 1 && st.start.cts[0] == c.ct, "START does not carry the given type");
	compare_frames(st.frames, sc);
	if (t.chance(60)) { // started again right away: its old socket or port is no obstacle
		sc.clear();
		if (tostd && cap.outfd >= 0) { close(cap.outfd); cap.outfd = -1; }
		cap.launch(a, pre);
		if (!cap.up()) { cap.ch.check_sane(); fail("the program did not start again (%d): %.500s", cap.ch.code(), cap.ch.err().c_str()); }
		auto s = std::make_unique<Script>(cap, c.ct, b);
		s->add(ctl(ref::READY, {c.ct})); s->add(ctl(ref::START, {c.ct})); s->add(ref::data(tag("again", 0))); s->add(ctl(ref::STOP));
		s->cl->connect(); while (s->pending()) s->step(s->next_mark() - s->sent);
		sc.push_back(std::move(s));
		rc = cap.term(); CHECK(rc == 0, "exit status %d after SIGTERM (started again)", rc);
		out = tostd ? cap.output() : slurp_file(cap.outpath(), &ex);
		st = ref::parse(out); CHECK(st.ok && st.consumed == out.size(), "the output of the second run is not a complete stream: %s", st.err.c_str());
		compare_frames(st.frames, sc);
		label("started again");
	}
	if (ak == 2) label("IPv6");
	label("capture accepted"); if (nopt >= 4) nontrivial();
}
static void replay(Tape &t) {
	static const char *cts[] = {"t", "protobuf:dnstap.Dnstap", "x y", "a=b"}; std::string ct = cts[t.range(0, 3)], v;
	CapConfig c; Capture cap(c); Line l; auto &dir = cap.dir;    // only for the addresses
	l.add(t, "t", "type", &ct);
	bool tcp = t.chance(70); std::string port = "9", addr;
	Cd cwd;
	if (tcp) { bool v6 = t.chance(60) && have_v6(); own_endpoint(t, cap, v6, addr, port); if (v6) label("IPv6"); l.add(t, "a", "tcp", &addr); l.add(t, "p", "port", &port); }
	else {
		bool lng = t.chance(20); if (lng) { v = std::string(107, 's'); cwd.to(dir.dir); cap.bind_to(v); label("longest socket path"); } else { cap.bind_to(dir.path("s")); v = t.flip() ? "s" : cap.sock; }
		l.add(t, "u", "unix", &v); if (t.chance(20)) l.add(t, "p", "port", &port); }
	int nf = 1 + t.weighted({4, 3, 2}); if (t.chance(10)) nf = t.range(10, 60);
	std::vector<std::pair<std::string, Args>> files; std::string dat;
	for (int i = 0; i < nf; i++) {
		std::string f = strf("f%d", i), d = t.fill(1 + t.range(0, 9)); put_file(dir.path(f.c_str()), ref::encode({ref::START, {ct}}) + ref::data(d) + ref::encode({ref::STOP, {}})); dat += ref::data(d);
		Line q; q.add(t, "r", t.flip() ? "read" : "read-file", &f); files.push_back({"read", q.o[0].second});
	}
	std::string defect;
	if (t.chance(120)) switch (t.range(0, 11)) {
	case 0: l.drop("type"); defect = "no type"; break;
	case 1: files.clear(); defect = "no file"; break;
	case 2: l.drop("unix"); l.drop("tcp"); defect = "no address"; break;
	case 3: if (tcp) { l.drop("port"); defect = "no port"; } break;
	case 4: v = tcp ? "s" : "127.0.0.1"; if (tcp) l.add(t, "u", "unix", &v); else { l.add(t, "a", "tcp", &v); if (!l.has("port")) l.add(t, "p", "port", &port); } defect = "--unix and --tcp"; break;
	case 5: { static const char *u[] = {"-x", "-w", "-T", "-d", "--typo", "--nope", "--gmtime", "--reads"}; l.o.push_back({"?", {u[t.range(0, 7)]}}); defect = "unknown option"; break; }
	case 6: defect = "missing value"; break;
	case 7: l.o.push_back({"?", {"surplus"}}); defect = "surplus argument"; break;
	case 8: if (tcp) { static const char *bad[] = {"65536", "70000", "abc", "12x", "99999999999999999999", "1 ", "80.", ""}; l.drop("port"); if (t.chance(80)) { static const char *neg[] = {"-1", "-0", "-18446744073709550000"}; l.o.push_back({"port", {strf("--port=%s", neg[t.range(0, 2)])}}); } else l.o.push_back({"port", {"-p", bad[t.range(0, 7)]}}); defect = "invalid port"; } break;
	case 9: if (tcp) { static const char *bad[] = {"127.0.0", "localhost", "127.0.0.256", "::g", "", "127.0.0.1 ", "1.2.3.4.5"}; l.drop("tcp"); l.o.push_back({"tcp", {"-a", bad[t.range(0, 6)]}}); defect = "invalid address"; } break;
	case 10: if (!tcp) { l.drop("unix"); l.o.push_back({"unix", {"-u", std::string(108 + (t.flip() ? 0 : t.range(0, 200)), 'q')}}); defect = "path too long"; } break;
	default: l.o.push_back({"?", {t.flip() ? "-h" : "--help"}}); defect = "help";
	}
	// files keep their order, the rest goes anywhere between them
	l.shuffle(t);
	Args a = {"fstrm_replay"}; size_t i = 0, j = 0;
	while (i < l.o.size() || j < files.size()) {
		auto &x = j >= files.size() || (i < l.o.size() && t.flip()) ? l.o[i++] : files[j++];
		a.insert(a.end(), x.second.begin(), x.second.end());
	}
	if (defect == "missing value") { if (t.flip()) a.push_back("-r"); else a.push_back("--read"); }
	describe(defect + ":" + show(a));
	struct Fd { int fd = -1; ~Fd() { if (fd >= 0) close(fd); } } ls, cs;
	ls.fd = socket(cap.ss.ss_family, SOCK_STREAM | SOCK_CLOEXEC, 0); int one = 1; if (tcp) setsockopt(ls.fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
	if (bind(ls.fd, (struct sockaddr *)&cap.ss, cap.sl) || listen(ls.fd, 5)) { perror("bind/listen"); _exit(2); }
	prog_shm->vtime = 0; prog_shm->nsig = 0; prog_shm->rcap = prog_shm->wcap = 0;
	std::string cd = dir.dir; cap.ch.start(fstrm_replay_main, a, [&] { if (chdir(cd.c_str())) _exit(3); });
	Child &ch = cap.ch; struct pollfd p = {ls.fd, POLLIN, 0};
	if (!defect.empty()) {
		if (!ch.wait(SLOW)) { fail(poll(&p, 1, 0) ? "the program connects in spite of: %s" : "the program does not end: %s", defect.c_str()); }
		ch.check_sane();
		if (defect != "help") CHECK(ch.code() != 0, "success in spite of: %s", defect.c_str());
		CHECK(!ch.err().empty(), "no message for: %s", defect.c_str());
		CHECK(poll(&p, 1, 0) == 0 && prog_shm->nconnect == 0, "the program %s in spite of: %s", poll(&p, 1, 0) ? "connected" : "tried to connect", defect.c_str());
		label("refused"); { static std::set<std::string> names; label(names.insert("refused: " + defect).first->c_str()); } nontrivial();
		return;
	}
	double end = mono() + SLOW;
	while (poll(&p, 1, 20) == 0) { if (ch.wait(0)) { ch.check_sane(); fail("the program ended (%d) without connecting: %.400s", ch.code(), ch.err().c_str()); } if (mono() > end) fail("the program does not connect"); }
	cs.fd = accept4(ls.fd, nullptr, nullptr, SOCK_CLOEXEC);
	std::string want = ctl(ref::READY, {ct}) + ctl(ref::START, {ct}) + dat + ctl(ref::STOP), got; size_t rl = ctl(ref::READY, {ct}).size(); bool acc = false, fin = false;
	if (tcp) setsockopt(cs.fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
	for (end = mono() + SLOW;;) {
		auto say = [&](const std::string &s) { if (send(cs.fd, s.data(), s.size(), MSG_NOSIGNAL) < 0) {} };
		if (!acc && got.size() >= rl) { acc = true; say(ctl(ref::ACCEPT, {ct})); }
		if (!fin && got.size() >= want.size()) { fin = true; say(ctl(ref::FINISH)); }
		if (tcp) setsockopt(cs.fd, IPPROTO_TCP, TCP_QUICKACK, &one, sizeof one);
		struct pollfd q = {cs.fd, POLLIN, 0}; if (poll(&q, 1, 20) == 0) { if (mono() > end) fail("the program neither sends nor ends"); continue; }
		char b[4096]; ssize_t n = recv(cs.fd, b, sizeof b, 0); if (n <= 0) break;
		got.append(b, n);
	}
	if (!ch.wait(SLOW)) fail("fstrm_replay does not end");
	ch.check_sane();
	CHECK(got == want, "the peer received %zu bytes that differ from the %zu expected: %s", got.size(), want.size(), ref::hex(got).c_str());
	CHECK(ch.code() == 0, "exit status %d after a complete session", ch.code());
	label("replay accepted"); if (a.size() > 8) nontrivial();
}
void prop(Tape &t) {
	switch (t.weighted({6, 4, 4})) { case 0: capture(t); break; case 1: replay(t); break; default: soup(t); }
}
