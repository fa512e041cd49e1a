// C10: file writer completeness under a file system that stops accepting data.
#include "mock.hpp"
#include "cookie.hpp"
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>
const PropInfo prop_info = {
	"C10",
	"A case is a random call history on a file writer over a file with old content. It runs once without limits (checking after every call that the file is a prefix of the expected stream), then with the file refusing to grow beyond byte k, for every k when the stream is short and for random and boundary k otherwise, on a full device, and on a file of which one drawn write (taking part of the bytes), all writes from it on, or only the closing fails with a drawn error. Non-trivial: at least one limit fell inside the stream after data had been written.",
	"fault_enumeration", 45000, 2000000, 600, 8, false, 60,
	{"Files are memfds addressed through /proc/self/fd; refusal is RLIMIT_FSIZE (EFBIG after a short write) and /dev/full (ENOSPC)."}
};
void prop_setup() { signal(SIGXFSZ, SIG_IGN); }
struct Limit {
	struct rlimit old;
	explicit Limit(size_t k) { getrlimit(RLIMIT_FSIZE, &old); struct rlimit n = old; n.rlim_cur = k; setrlimit(RLIMIT_FSIZE, &n); }
	~Limit() { setrlimit(RLIMIT_FSIZE, &old); }
};
static std::string slurp(int fd) {
	std::string s; char b[65536]; ssize_t n; off_t o = 0;
	while ((n = pread(fd, b, sizeof b, o)) > 0) { s.append(b, n); o += n; }
	return s;
}
struct Call { int k; std::vector<std::string> p; };
// Returns whether every call succeeded.
static bool run(const char *path, int fd, const std::vector<std::string> &cts, const std::vector<Call> &calls, bool unlimited, const std::string &full, std::string *D) {
	heap_reset(); int fd0 = fd_probe();
	auto *fo = fstrm_file_options_init(); fstrm_file_options_set_file_path(fo, path);
	auto *wo = wopts(cts);
	WriterH h; h.w = fstrm_file_writer_init(fo, wo);
	fstrm_file_options_destroy(&fo); fstrm_writer_options_destroy(&wo);
	CHECK(h.w, "fstrm_file_writer_init failed");
	bool all = true, closed = false;
	for (auto &c : calls) {
		fstrm_res r = fstrm_res_success;
		if (c.k == 0) { r = fstrm_writer_open(h.w); if (D) *D += "open "; }
		else if (c.k == 1) { Exact e(c.p[0]); r = fstrm_writer_write(h.w, e.p, e.n); if (D) *D += strf("write(%zu) ", e.n); }
		else if (c.k == 2) {
			std::vector<std::unique_ptr<Exact>> b; std::vector<struct iovec> v;
			for (auto &p : c.p) { b.emplace_back(new Exact(p)); v.push_back({b.back()->p, b.back()->n}); }
			r = fstrm_writer_writev(h.w, v.data(), v.size()); if (D) *D += strf("writev(%zu) ", v.size());
		} else { r = fstrm_writer_close(h.w); closed = true; if (D) *D += "close "; }
		all &= r == fstrm_res_success;
		if (unlimited) {
			CHECK(r == fstrm_res_success, "a call failed although the file accepts everything");
			std::string s = slurp(fd);
			CHECK(s.size() <= full.size() && full.compare(0, s.size(), s) == 0, "the file is not a prefix of the expected stream (%zu bytes)", s.size());
			if (closed) CHECK(s == full, "closed successfully but the file holds %zu of %zu bytes", s.size(), full.size());
		}
	}
	fstrm_res r = fstrm_writer_destroy(&h.w);
	if (!closed) all &= r == fstrm_res_success;
	CHECK(heap_live() == 0, "%zu blocks leaked", heap_live());
	CHECK(fd_probe() == fd0, "the writer left a file open");
	return all;
}
void prop(Tape &t) {
	std::vector<std::string> cts; for (size_t n = t.range(0, 2); n; n--) cts.push_back(t.bytes(t.range(0, 5)));
	bool small = t.chance(160), xl = t.chance(30);
	std::vector<Call> calls; std::string full; ref::Ctl st; st.type = ref::START; if (!cts.empty()) st.cts = {cts[0]};
	full = ref::encode(st);
	if (t.flip()) calls.push_back({0, {}});
	int n = t.range(0, small ? 3 : 8);
	for (int i = 0; i < n; i++) {
		Call c; c.k = 1 + t.range(0, 1);
		int m = c.k == 1 ? 1 : 1 + t.range(0, small ? 2 : t.chance(40) ? 200 : 6);
		for (int j = 0; j < m; j++) { c.p.push_back(small ? t.fill(1 + t.range(0, 8)) : j < 5 ? gen_payload(t, xl ? 150000 : 9000) : std::string(1 + j % 17, 'a' + j % 26)); full += ref::data(c.p.back()); }
		calls.push_back(c);
	}
	if (calls.empty()) calls.push_back({0, {}});
	full += ref::encode({ref::STOP, {}});
	if (t.flip()) calls.push_back({3, {}});
	int fd = memfd_create("c10", 0); CHECK(fd >= 0, "memfd");
	struct Closer { int fd; ~Closer() { close(fd); } } cl{fd};
	std::string path = strf("/proc/self/fd/%d", fd), old(t.len(4000), 'Z');
	auto prep = [&] { CHECK(ftruncate(fd, 0) == 0 && pwrite(fd, old.data(), old.size(), 0) == (ssize_t)old.size(), "preparing the file"); };
	std::string D;
	prep();
	run(path.c_str(), fd, cts, calls, true, full, &D);
	CHECK(slurp(fd) == full, "all calls succeeded but the file is not the expected stream");
	bool nt = false;
	auto limited = [&](size_t k) {
		prep();
		bool ok;
		{ Limit l(k); ok = run(path.c_str(), fd, cts, calls, false, full, nullptr); }
		std::string s = slurp(fd);
		CHECK(s.size() <= full.size() && full.compare(0, s.size(), s) == 0, "file limited to %zu bytes: its content is not a prefix of the stream", k);
		if (k < full.size()) CHECK(!ok, "file limited to %zu of %zu bytes, but every call including close reported success", k, full.size());
		else CHECK(ok && s == full, "file limited to %zu bytes (stream is %zu): calls failed or content differs", k, full.size());
		if (k > 20 && k < full.size()) nt = true;
	};
	if (full.size() <= 100) for (size_t k = 0; k <= full.size(); k++) limited(k);
	else {
		size_t ks[] = {0, full.size(), full.size() - 1, full.size() - 4, full.size() - 12, 4096, full.size() - 13};
		limited(ks[t.range(0, 6)]);
		for (int i = 0; i < 3; i++) limited(t.range(0, full.size()));
	}
	if (t.chance(60)) CHECK(!run("/dev/full", -1, cts, calls, false, full, nullptr), "every call succeeded on a full device");
	if (t.chance(20)) CHECK(!run("/nonexistent-dir/file", -1, cts, calls, false, full, nullptr), "every call succeeded on an unopenable path");
	if (t.chance(120)) { // a single write fails, or closing does
		Cookie q; q.path = COOKIE; static const int errs[] = {EIO, ENOSPC, EINTR, EDQUOT};
		q.err = errs[t.range(0, 3)]; q.lasting = t.flip(); q.waccept = t.flip() ? 0 : t.range(0, 5000);
		if (t.chance(80)) q.close_fails = true; else q.wfail = t.flip() ? 0 : t.range(0, 1 + full.size() / 3000);
		cookie_file = &q; struct Un { ~Un() { cookie_file = nullptr; } } un;
		bool ok = run(COOKIE, -1, cts, calls, false, full, nullptr);
		if (q.opens) {
			CHECK(q.opens == 1 && q.closes == 1, "the file was opened %d times and closed %d times", q.opens, q.closes);
			const char *what = q.close_fails ? "closing the file" : q.lasting ? "writing from some point on" : "one write";
			if (q.hits) CHECK(!ok, "%s failed (error %d), but every call reported success", what, q.err);
			else CHECK(ok && q.data == full, "nothing failed, but calls failed or the content differs");
			CHECK(q.data.size() <= full.size() && full.compare(0, q.data.size(), q.data) == 0, "%s failed and the file's content is not a prefix of the stream", what);
			if (q.hits && q.data.size() > 20) nt = true;
			label(q.close_fails ? "close failure" : q.hits ? q.lasting ? "write failure" : "transient write failure" : "planned failure not reached");
		}
	}
	if (nt) nontrivial();
	label(full.size() <= 100 ? "all offsets" : "sampled offsets");
	describe(D + strf("stream of %zu bytes", full.size()));
}
