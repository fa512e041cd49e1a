// C05: write -> read round trip.
#include "mock.hpp"
#include <dirent.h>
#include <sys/mman.h>
#include <unistd.h>
#include <fcntl.h>
const PropInfo prop_info = {
	"C05",
	"A case is a payload list written by a random mix of write/writev calls through a one-way recording transport, a two-way transport with a scripted peer, or a file, then read back (with random frame limits not below the largest payload, partial reads, close and reopen). Non-trivial: at least three payloads with two different sizes came back and the end of the stream was reached.",
	"exploration", 150000, 5000000, 900, 8, false, 30,
	{"Files are memfds addressed through /proc/self/fd, or ordinary ones in a scratch directory; payloads up to 1.1 MB, a few up to 20 MB."}
};
void prop_setup() {}
static std::string slurp(int fd) {
	std::string s; char b[65536]; ssize_t n; off_t o = 0;
	while ((n = pread(fd, b, sizeof b, o)) > 0) { s.append(b, n); o += n; }
	return s;
}
struct Fd { int fd = -1; ~Fd() { if (fd >= 0) close(fd); } };
struct Cwd {      // a scratch directory as the current one
	std::string dir; int back;
	Cwd() { char b[] = "/tmp/pbt-XXXXXX"; back = open(".", O_RDONLY); if (back < 0 || !mkdtemp(b) || chdir(b)) { perror("mkdtemp"); _exit(2); } dir = b; }
	~Cwd() {
		if (fchdir(back)) _exit(2);
		close(back);
		if (DIR *d = opendir(dir.c_str())) { while (auto *e = readdir(d)) unlink((dir + "/" + e->d_name).c_str()); closedir(d); }
		rmdir(dir.c_str());
	}
};
void prop(Tape &t) {
	heap_reset();
	enum { ONEWAY, TWOWAY, FILE_ } kind = (decltype(kind))t.weighted({4, 3, 4});
	auto wct = gen_cts(t, 3);
	// reader types: none, or a list containing a type the writer will announce
	std::vector<std::string> rct;
	std::string D = kind == ONEWAY ? "one-way " : kind == TWOWAY ? "two-way " : "file ";
	if (t.chance(150)) {
		rct = gen_cts(t, 2);
		size_t pos = t.range(0, rct.size());
		std::string shared = wct.empty() ? gen_ct(t, false) : kind == TWOWAY ? t.pick(wct) : wct[0];
		rct.insert(rct.begin() + pos, shared);
	}
	// keep READY within the frame limit
	ref::Ctl ready; ready.type = ref::READY; ready.cts = wct;
	while (!ref::encodable(ready)) { wct.pop_back(); ready.cts = wct; }
	if (!rct.empty() && !wct.empty()) {
		bool hit = false;
		for (auto &c : rct) for (size_t i = 0; i < (kind == TWOWAY ? wct.size() : 1); i++) hit |= c == wct[i];
		if (!hit) rct.push_back(wct[0]);
	}
	ref::Ctl acc; acc.type = ref::ACCEPT;
	for (auto &c : rct) if (ref::matches(ready, &c)) acc.cts.push_back(c);
	while (!ref::encodable(acc)) { rct.clear(); acc.cts.clear(); }
	ref::Ctl start; start.type = ref::START;
	if (kind == TWOWAY) { for (auto &c : wct) if (ref::matches(acc, &c)) { start.cts = {c}; break; } }
	else if (!wct.empty()) start.cts = {wct[0]};
	ref::Ctl fin, stop; fin.type = ref::FINISH; stop.type = ref::STOP;
	D += show(wct) + "->" + show(rct) + ": ";

	Fd f; std::string path; std::unique_ptr<Cwd> cwd;
	if (kind == FILE_ && t.chance(12)) {   // a file of any name in the current directory
		cwd.reset(new Cwd);
		static const char *n[] = {"-x", "--", "-1", "- ", " ", "a b", "%s%n", ".x", "~", "fstrm.fs-", "..."};
		path = t.chance(100) ? std::string(1 + t.range(0, 254), (char)t.range(1, 255)) : n[t.range(0, 10)];
		for (auto &c : path) if (c == '/') c = '_';
		if (path == "-" || path == "." || path == "..") path += "x";
		f.fd = open((cwd->dir + "/" + path).c_str(), O_CREAT | O_RDWR, 0600); CHECK(f.fd >= 0, "cannot create %s", path.c_str());
		D += "named " + ref::hex(path, 40) + " "; label("file of an unusual name");
	} else if (kind == FILE_) { f.fd = memfd_create("c05", 0); CHECK(f.fd >= 0, "memfd"); path = strf("/proc/self/fd/%d", f.fd); }

	// standard output and input in the place of a named file
	bool std_w = kind == FILE_ && !cwd && t.chance(10), std_r = kind == FILE_ && !cwd && t.chance(10);
	struct Std { FILE *i = stdin, *o = stdout; ~Std() { stdin = i; stdout = o; } } std_saved;
	Mock wm(kind == TWOWAY, true);
	std::string accb = ref::encode(acc), finb = ref::encode(fin);
	std::string reply = accb + finb; wm.input = &reply;
	// write
	WriterH w;
	if (kind == FILE_) {
		auto *fo = fstrm_file_options_init(); fstrm_file_options_set_file_path(fo, std_w ? "-" : path.c_str());
		if (std_w) { stdout = fdopen(dup(f.fd), "w"); label("standard output"); D += "to stdout "; }
		auto *wo = wopts(wct);
		w.w = fstrm_file_writer_init(fo, wo);
		fstrm_file_options_destroy(&fo); fstrm_writer_options_destroy(&wo);
		CHECK(w.w, "fstrm_file_writer_init failed");
	} else w.w = mk_writer(wm, wct, false);
	int rounds = 1 + (!std_w && t.chance(40) ? 1 : 0);
	std::vector<std::string> sent;
	for (int r = 0; r < rounds; r++) {
		sent.clear();
		if (r || t.flip()) CHECK(fstrm_writer_open(w.w) == fstrm_res_success, "open failed");
		int n = t.range(0, 9);
		if (t.chance(12)) n = 300 + t.range(0, 3000);
		size_t big = t.chance(3) ? 1100000 : 70000;
		int mega = n && t.chance(1) && t.chance(70) ? (int)t.range(0, n - 1) : -1;   // one payload of up to 20 MB
		for (int i = 0; i < n;) {
			int k = t.flip() ? 1 : 1 + t.range(0, n > 200 ? 200 : 6);
			if (k > n - i) k = n - i;
			std::vector<std::unique_ptr<Exact>> b; std::vector<struct iovec> v;
			for (int j = 0; j < k; j++, i++) {
				sent.push_back(i == mega ? t.fill(t.flip() ? (1 << 24) - 20 + t.range(0, 40) : t.range(1100000, 20000000)) : i < 12 ? gen_payload(t, big) : std::string(1 + (i * 7) % 61, (char)i));
				b.emplace_back(new Exact(sent.back())); v.push_back({b.back()->p, b.back()->n});
			}
			fstrm_res res = k == 1 && t.flip() ? fstrm_writer_write(w.w, v[0].iov_base, v[0].iov_len) : fstrm_writer_writev(w.w, v.data(), k);
			CHECK(res == fstrm_res_success, "write of %d payloads returned %d", k, res);
		}
		if (n == 0 && r == 0) CHECK(fstrm_writer_open(w.w) == fstrm_res_success, "open failed");
		D += strf("write %d; ", n);
		if (r + 1 < rounds || t.flip()) CHECK(fstrm_writer_close(w.w) == fstrm_res_success, "writer close failed");
	}
	fstrm_writer_destroy(&w.w);
	wm.check();
	stdout = std_saved.o;
	std::string bytes = kind == FILE_ ? slurp(f.fd) : wm.out();
	// a file that lost its end
	bool cut = false;
	if (kind == FILE_ && t.chance(70)) {
		size_t o = ref::encode(start).size(), len = t.chance(100) ? bytes.size() - 12 : o + t.range(0, bytes.size() - o - 1), k = 0;
		for (; k < sent.size() && o + 4 + sent[k].size() <= len; k++) o += 4 + sent[k].size();
		sent.resize(k); cut = true; D += strf("cut to %zu of %zu bytes; ", len, bytes.size());
		CHECK(ftruncate(f.fd, len) == 0, "ftruncate"); label("file without STOP");
	}
	int fd0 = fd_probe();
	// read
	size_t mx = 0; for (auto &s : sent) mx = std::max(mx, s.size());
	size_t lim = std::max<size_t>(512, mx);
	switch (t.weighted({3, 2, 2})) {
	case 0: break;                                             // exactly the largest payload
	case 1: lim += t.range(0, 5000); break;
	default: lim = mx <= 1048576 ? 0 : lim; break;             // default
	}
	if (t.chance(8)) lim = UINT32_MAX - 1;
	D += strf("limit %zu; ", lim);
	Mock rm(true, kind == TWOWAY);
	rm.input = &bytes;
	ReaderH r;
	if (kind == FILE_) {
		auto *fo = fstrm_file_options_init(); fstrm_file_options_set_file_path(fo, std_r ? "-" : path.c_str());
		if (std_r) { lseek(f.fd, 0, SEEK_SET); stdin = fdopen(dup(f.fd), "r"); label("standard input"); D += "from stdin "; }
		auto *ro = ropts(rct, lim);
		r.r = fstrm_file_reader_init(fo, ro);
		fstrm_file_options_destroy(&fo); fstrm_reader_options_destroy(&ro);
		CHECK(r.r, "fstrm_file_reader_init failed");
	} else r.r = mk_reader(rm, rct, lim);
	int passes = std_r ? 1 : 1 + t.range(0, 2);
	bool complete = false;
	for (int p = 0; p < passes; p++) {
		bool opened = false;
		if (p || t.chance(100)) { fstrm_res res = fstrm_reader_open(r.r); opened = true; CHECK(res == fstrm_res_success, "reader open (pass %d) returned %d", p, res); }
		bool all = p == passes - 1 || t.flip();
		size_t upto = all ? sent.size() : t.range(0, sent.size());
		if (!opened && !all && !upto) { CHECK(fstrm_reader_open(r.r) == fstrm_res_success, "reader open failed"); }
		const struct fstrm_control *c = nullptr;
		if (t.flip()) {
			CHECK(fstrm_reader_get_control(r.r, FSTRM_CONTROL_START, &c) == fstrm_res_success && c, "no START frame");
			CHECK(get_cts(c) == start.cts, "START carries %s, expected %s", show(get_cts(c)).c_str(), show(start.cts).c_str());
		}
		const uint8_t *last = nullptr;
		for (size_t i = 0; i < upto; i++) {
			const uint8_t *d = nullptr; size_t n = 0;
			fstrm_res res = fstrm_reader_read(r.r, &d, &n);
			CHECK(res == fstrm_res_success, "pass %d: read %zu of %zu returned %d", p, i, sent.size(), res);
			CHECK(d && n == sent[i].size() && !memcmp(d, sent[i].data(), n), "pass %d: payload %zu differs (%zu bytes, expected %zu)", p, i, n, sent[i].size());
			last = d;
		}
		if (all) {
			const uint8_t *d = nullptr; size_t n = 0;
			fstrm_res res = fstrm_reader_read(r.r, &d, &n);
			if (cut) CHECK(res != fstrm_res_success, "pass %d: a payload beyond the end of the file", p);
			else CHECK(res == fstrm_res_stop, "pass %d: read after the last payload returned %d", p, res);
			if (t.flip()) CHECK(fstrm_reader_read(r.r, &d, &n) != fstrm_res_success, "payload after end of stream");
			if (!cut) {
			CHECK(fstrm_reader_get_control(r.r, FSTRM_CONTROL_STOP, &c) == fstrm_res_success && c, "no STOP frame");
			fstrm_control_type ty; CHECK(fstrm_control_get_type(c, &ty) == fstrm_res_success && ty == FSTRM_CONTROL_STOP, "STOP frame has another type");
			CHECK(get_cts(c).empty(), "STOP has content types");
			}
			complete = true;
		}
		D += strf("read %zu%s; ", upto, all ? "+stop" : "");
		if (p + 1 < passes || t.flip()) {
			fstrm_res res = fstrm_reader_close(r.r);   // (a reader that failed has closed already)
			if (!cut || !all) CHECK(res == fstrm_res_success, "reader close failed");
			if (!all && last) CHECK(!memcmp(last, sent[upto - 1].data(), sent[upto - 1].size()), "close changed the payload read last");
			const uint8_t *d = nullptr; size_t n = 0;
			CHECK(fstrm_reader_read(r.r, &d, &n) != fstrm_res_success, "read after close succeeded");
		}
	}
	fstrm_reader_destroy(&r.r);
	CHECK(fd_probe() == fd0, "the reader left a file open");
	rm.check();
	if (kind == TWOWAY) CHECK(rm.out() == accb + finb, "reader replied %s, expected ACCEPT+FINISH", ref::hex(rm.out()).c_str());
	CHECK(heap_live() == 0, "%zu blocks leaked", heap_live());
	bool differ = false; for (auto &s : sent) differ |= s.size() != sent[0].size();
	if (complete && sent.size() >= 3 && differ) nontrivial();
	if (sent.size() > 128) label("> 128 payloads");
	if (passes > 1) label("reread");
	if (rounds > 1) label("writer reopened");
	label(kind == FILE_ ? "file" : kind == TWOWAY ? "two-way" : "one-way");
	describe(D);
}
