// C21: fstrm_dump.
#include "prog.hpp"
#include "strm.hpp"
#include <csignal>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
const PropInfo prop_info = {
	"C21",
	"A case is a capture file (built from valid, malformed, unknown, over-long and truncated frames with arbitrary contents, then possibly mutated) given by name or on standard input (in random pieces) to the real dump program, with or without an output file, which may already exist, be unwritable, or stop accepting data at a random offset. An independent parser gives the frames of the valid prefix; the text on stdout, the metadata on stderr, the exit status and the output file are compared with what they call for. Non-trivial: at least two frames with a non-printable byte or a quote were printed, or the input was not a complete stream but held at least one frame, or an output failure was hit.",
	"fault_enumeration", 11000, 400000, 800, 8, 2, 60,
	{"A known control frame type other than STOP in mid-stream (which the format forbids) may be skipped or may fail the stream; both are accepted.", "Output failures come from RLIMIT_FSIZE, /dev/full and missing directories."}
};
extern "C" int fstrm_dump_main(int, char **);
void prop_setup() { prog_init(); signal(SIGPIPE, SIG_IGN); }
static std::string render(const std::string &s) {
	std::string r = " \"";
	for (unsigned char c : s) { if (c == '"') r += "\\\""; else if (c >= 0x20 && c < 0x7f) r += c; else r += strf("\\x%02x", c); }
	return r + "\"\n";
}
static std::vector<std::string> lines(const std::string &s) {
	std::vector<std::string> v; size_t o = 0;
	while (o < s.size()) { size_t e = s.find('\n', o); if (e == s.npos) e = s.size(); v.push_back(s.substr(o, e - o)); o = e + 1; }
	return v;
}
static bool meta(std::string l, const std::string &want) { if (!l.empty() && l.back() == '.') l.pop_back(); return l == want; }
static std::string payload(Tape &t, size_t max) {
	size_t n = 1 + t.len(max);
	switch (t.weighted({5, 3, 2, 2})) {
	case 0: { std::string s = n < 60 ? t.bytes(n) : t.fill(n); return s; }
	case 1: { static const char al[] = "\"\\xn0a \n\r\t\x7f\x80\xff~!"; std::string s; for (size_t i = 0, m = std::min<size_t>(n, 80); i < m; i++) s += al[t.range(0, sizeof al - 1)]; return s; }
	case 2: return std::string(n, (char)t.byte());
	default: { std::string s; uint8_t b = t.byte(); for (size_t i = 0; i < n; i++) s += (char)(b + i); return s; }   // all byte values
	}
}
void prop(Tape &t) {
	constexpr size_t LIM = 1048576;
	std::string s; bool clean = t.chance(120);
	{
		ref::Ctl c; c.type = !clean && t.chance(8) ? 1 + t.range(0, 4) : ref::START;
		size_t n = t.weighted({3, 8}); if (!clean && t.chance(8)) n = 2;
		for (size_t i = 0; i < n; i++) c.cts.push_back(t.chance(100) ? "protobuf:dnstap.Dnstap" : t.chance(20) ? payload(t, 255).substr(0, 256) : gen_ct(t, false));
		if (clean || !t.chance(8)) {
			std::string p = ref::payload(c);
			if (n == 2) { p = ref::be32(c.type); for (auto &x : c.cts) p += ref::be32(1) + ref::be32(x.size()) + x; }
			s += !clean && t.chance(6) ? ref::frame(gen_malformed(t)) : ref::frame(p);
		}
	}
	int n = t.range(0, t.chance(30) ? 60 : 8); bool huge = false;
	for (int i = 0; i < n; i++) {
		switch (clean ? 0 : t.weighted({16, 3, 1, 2, 1, 1, 1})) {
		case 0:
			if (!huge && t.chance(1) && t.chance(80)) { huge = true; s += ref::data(t.fill(LIM - t.weighted({3, 1, 1}))); label("frame of the largest size"); }
			else {
				std::string b = payload(t, t.chance(20) ? t.chance(40) ? 80000 : 20000 : 300);
				if (b.size() > 250) for (int k = t.range(0, 6); k; k--) { static const char al[] = "\"\\\n\x7f\x80\xff"; int top = 63 - __builtin_clzll(b.size()); size_t o = (1u << (t.flip() ? top : t.range(7, top))) - 2 + t.range(0, 4); if (o < b.size()) b[o] = al[t.range(0, sizeof al - 1)]; } // special bytes around powers of two
				s += ref::data(b);
			}
			break;
		case 1: s += ref::frame(gen_unknown(t)); break;
		case 2: s += ref::frame(gen_known(t, t.chance(128) ? ref::STOP : 0)); break;
		case 3: s += ref::frame(gen_malformed(t)); break;
		case 4: { if (huge || !t.chance(40)) break; huge = true; s += ref::data(t.fill(LIM + 1 + t.range(0, 3))); break; }
		case 5: s += ref::be32(t.flip() ? 0xffffffffu - t.range(0, 5) : LIM + 1 + t.range(0, 3)) + t.fill(t.range(0, 40)); break;
		default: s += t.bytes(t.range(0, 12)); break;
		}
	}
	if (clean || !t.chance(60)) { s += ref::encode({ref::STOP, {}}); if (t.chance(30)) s += t.flip() ? ref::data("after STOP") + ref::encode({ref::STOP, {}}) : t.bytes(3); }
	if (!clean) for (int i = t.weighted({6, 3, 1, 1}); i > 0 && !s.empty(); i--) {
		size_t p = t.range(0, std::min<size_t>(s.size() - 1, 65535));
		switch (t.range(0, 4)) {
		case 0: s[p] ^= 1 << t.range(0, 7); break;
		case 1: s.erase(p, t.range(1, 8)); break;
		case 2: s.insert(p, t.bytes(t.range(1, 4))); break;
		case 3: s.resize(p); break;
		default: s[p] = t.byte();
		}
	}
	Model m = model(s, false, {}, LIM);
	std::vector<std::string> frames; bool stop = false;
	for (auto &e : m.ev) { if (e.k == Ev::DATA) frames.push_back(s.substr(e.off, e.len)); stop |= e.k == Ev::STOP; }
	// arguments
	prog_shm->vtime = 0; prog_shm->nsig = 0; prog_shm->rcap = prog_shm->wcap = 0;
	Scratch dir; std::string in = dir.path("in"), outf = dir.path("out");
	bool use_stdin = t.chance(80), missing = t.chance(6), want_out = t.chance(130), full_stdout = t.chance(6);
	if (missing) use_stdin = false;
	enum { NONE, LIMIT, FULL, NODIR, ISDIR } fault = want_out && t.chance(50) ? (decltype(fault))(1 + t.weighted({6, 1, 1, 1})) : NONE;
	if (fault == FULL) outf = "/dev/full";
	if (fault == NODIR) outf = dir.path("no/out");
	if (fault == ISDIR) outf = dir.dir;
	std::vector<std::string> av = {"fstrm_dump", use_stdin ? "-" : in};
	if (want_out) av.push_back(outf);
	bool bad_args = t.chance(6);
	if (bad_args) { if (t.flip()) av.resize(1); else av = {"fstrm_dump", in, dir.path("out"), "x"}; }
	if (want_out && !fault && t.chance(60)) put_file(outf, t.fill(t.range(1, 3000)));       // previous content
	std::string expect_out;
	if (m.open_ok) { expect_out = ref::encode(m.start); for (auto &f : frames) expect_out += ref::data(f); expect_out += ref::encode({ref::STOP, {}}); }
	long limit = -1;
	if (fault == LIMIT) limit = t.chance(60) ? (long)expect_out.size() - (long)t.range(0, 13) : t.range(0, expect_out.size() + 10);
	if (limit < 0) limit = fault == LIMIT ? 0 : -1;
	std::string D = strf("%zu bytes %s%s%s: %zu frames%s", s.size(), ref::hex(s, 64).c_str(), use_stdin ? " on stdin" : "", want_out ? fault ? " with failing output" : " with output" : "", frames.size(), stop ? ", STOP" : m.open_ok ? ", no STOP" : ", no START");
	describe(D);
	int so = fault == LIMIT ? open("/dev/null", O_WRONLY) : full_stdout ? open("/dev/full", O_WRONLY) : memfd_create("stdout", MFD_CLOEXEC);
	struct Fd { int &fd; ~Fd() { if (fd >= 0) close(fd); } } g1{so};
	int pp[2] = {-1, -1}; Fd g2{pp[0]}, g3{pp[1]};
	if (use_stdin) { if (pipe2(pp, O_CLOEXEC) < 0) { perror("pipe"); _exit(2); } }
	else if (!missing) put_file(in, s);
	Child ch;
	ch.start(fstrm_dump_main, av, [&] {
		if (pp[1] >= 0) close(pp[1]);
		signal(SIGXFSZ, SIG_IGN);
		if (limit >= 0) { struct rlimit r = {(rlim_t)limit, RLIM_INFINITY}; setrlimit(RLIMIT_FSIZE, &r); }
	}, pp[0], so);
	if (use_stdin) {
		close(pp[0]); pp[0] = -1;
		size_t o = 0, pieces = t.range(1, 6);
		while (o < s.size()) {
			size_t k = t.flip() ? t.range(1, 30) : t.range(1, s.size() / pieces + 1); if (s.size() > 20000) k += s.size() / 10;
			k = std::min(k, s.size() - o); ssize_t w = write(pp[1], s.data() + o, k);
			if (w < 0) break;
			o += w; if (o < s.size() && t.chance(20)) sched_yield();
		}
		close(pp[1]); pp[1] = -1;
	}
	if (!ch.wait(20)) fail("fstrm_dump does not end");
	ch.check_sane();
	int rc = ch.code(); std::string out, err = ch.err();
	CHECK(rc >= 0, "fstrm_dump was killed by signal %d", -rc);
	if (bad_args) { CHECK(rc != 0, "success with %zu arguments", av.size() - 1); label("wrong number of arguments"); return; }
	if (missing) { CHECK(rc != 0, "success although the input does not exist"); label("no input"); return; }
	bool hit = (fault == LIMIT && limit < (long)expect_out.size()) || fault == FULL || fault == NODIR || fault == ISDIR;
	bool ok = m.open_ok && stop;
	if (full_stdout && fault != LIMIT && m.open_ok && !frames.empty()) { CHECK(rc != 0, "success although standard output is full"); label("stdout full"); return; }
	if (full_stdout) return;
	if (m.open_ok && hit) { CHECK(rc != 0, "success although the output file cannot hold the copy (%ld of %zu bytes)", limit, expect_out.size()); label("output failure"); nontrivial(); }
	if (!ok) CHECK(rc != 0, "success although the input %s", m.open_ok ? "does not end with a STOP frame or is malformed" : "does not start with a START frame");
	if (ok && !hit && m.early.empty()) CHECK(rc == 0, "exit status %d for a complete stream: %.300s", rc, err.size() > 300 ? err.c_str() + err.size() - 300 : err.c_str());
	if (fault == LIMIT) return;
	{ char b[65536]; ssize_t k; off_t o = 0; while ((k = pread(so, b, sizeof b, o)) > 0) { out.append(b, k); o += k; } }
	// how many frames must have been printed
	std::string all; std::vector<size_t> cut = {0};
	for (auto &f : frames) { all += render(f); cut.push_back(all.size()); }
	size_t printed = std::lower_bound(cut.begin(), cut.end(), out.size()) - cut.begin();
	if (out.size() > all.size() || all.compare(0, out.size(), out) != 0 || printed >= cut.size() || cut[printed] != out.size()) {
		size_t i = 0; while (i < out.size() && i < all.size() && out[i] == all[i]) i++;
		size_t b = i > 20 ? i - 20 : 0;
		fail("stdout differs from the expected rendering at byte %zu of %zu/%zu: ...%s... instead of ...%s...", i, out.size(), all.size(), out.substr(b, 60).c_str(), all.substr(std::min(b, all.size()), 60).c_str());
	}
	if (!m.open_ok) { CHECK(out.empty(), "data printed without a START frame"); label("no START"); }
	else if (!hit && !(rc != 0 && m.early.count(printed)))
		CHECK(printed == frames.size(), "only %zu of %zu frames were printed", printed, frames.size());
	// metadata
	auto el = lines(err); size_t l = 0;
	auto next = [&](const std::string &want, bool exact) { while (l < el.size()) if (exact ? el[l++] == want : meta(el[l++], want)) return true; return false; };
	if (m.open_ok && (!hit || fault == FULL)) {
		CHECK(next("FSTRM_CONTROL_START", false), "no START line on stderr");
		if (!m.start.cts.empty()) {
			CHECK(next(strf("FSTRM_CONTROL_FIELD_CONTENT_TYPE (%zu bytes)", m.start.cts[0].size()), false), "the content type's length is not printed: %.200s", err.c_str());
			std::string r = render(m.start.cts[0]); r.pop_back();
			CHECK(next(r, true), "the content type is not printed as %s", r.c_str());
		}
		for (size_t i = 0; i < printed; i++) CHECK(next(strf("Data frame (%zu) bytes", frames[i].size()), false), "no line for data frame %zu of %zu bytes on stderr", i, frames[i].size());
	}
	size_t nstart = 0, nstop = 0, ndata = 0, nct = 0;
	for (auto &x : el) { nstart += meta(x, "FSTRM_CONTROL_START"); nstop += meta(x, "FSTRM_CONTROL_STOP"); ndata += x.compare(0, 12, "Data frame (") == 0; nct += x.compare(0, 33, "FSTRM_CONTROL_FIELD_CONTENT_TYPE ") == 0; }
	CHECK(nstart <= (m.open_ok ? 1 : 0) && ndata <= printed + (hit ? 1 : 0) && nct <= (m.open_ok ? m.start.cts.size() : 0), "stderr lists frames that the input does not have");
	CHECK(nstop <= (stop ? 1 : 0), "a STOP frame is reported, but the input has none");
	if (ok && rc == 0) CHECK(nstop == 1, "the STOP frame is not reported");
	if (want_out && fault == NONE && m.open_ok) {
		std::string got = slurp_file(outf);
		if (rc == 0) CHECK(got == expect_out, "the output file differs: %zu bytes %s, expected %zu bytes %s", got.size(), ref::hex(got, 60).c_str(), expect_out.size(), ref::hex(expect_out, 60).c_str());
		else {
			auto st = ref::parse(got);
			CHECK(st.frames.size() <= frames.size(), "the output file has %zu frames of %zu", st.frames.size(), frames.size());
			for (size_t i = 0; i < st.frames.size(); i++) CHECK(st.frames[i] == frames[i], "frame %zu in the output file differs", i);
		}
		label("copied");
	}
	if (use_stdin) label("standard input");
	size_t odd = 0; for (auto &f : frames) { bool o = false; for (unsigned char c : f) o |= c < 0x20 || c >= 0x7f || c == '"'; odd += o; }
	if (ok ? odd >= 2 : m.open_ok && !frames.empty()) nontrivial();
	label(ok ? "complete stream" : "incomplete or malformed");
}
