// C27: a failed read is not the end of the data.
#include "prog.hpp"
#include "mock.hpp"
#include "strm.hpp"
#include "cookie.hpp"
#include <csignal>
#include <sys/mman.h>
const PropInfo prop_info = {
	"C27",
	"A case is a stream (complete, truncated, with unknown or malformed control frames, with small and large frames) of which reading fails with a drawn error at byte k, for every k when the stream is short and for random and boundary k otherwise, in a file read with a file reader, in an application's own transport, or in the input of the real dump program. The same stream cut off at k tells what must be returned before. Non-trivial: a read failed after at least one data frame was returned.",
	"fault_enumeration", 60000, 3000000, 500, 8, false, 60,
	{"Files are fopencookie streams given to the code under test in place of fopen, or a directory.", "A known control frame type other than STOP in mid-stream (which the format forbids) may be skipped or may fail the stream; both are accepted."}
};
extern "C" int fstrm_dump_main(int, char **);
struct Cur { Cookie c; Cur() { cookie_file = &c; } ~Cur() { cookie_file = nullptr; } };
static bool intercepted;     // files are opened with fopen
void prop_setup() {
	prog_init();
	Cur q; q.c.path = COOKIE; q.c.data = ref::encode({ref::START, {}}) + ref::encode({ref::STOP, {}});
	auto *fo = fstrm_file_options_init(); fstrm_file_options_set_file_path(fo, COOKIE);
	auto *r = fstrm_file_reader_init(fo, nullptr); fstrm_file_options_destroy(&fo);
	if (r) { fstrm_reader_open(r); fstrm_reader_destroy(&r); }
	intercepted = q.c.opens > 0;
}
static const int errs[] = {EIO, EINTR, EAGAIN, EISDIR, ESTALE, ENOMEM};
static const char *rn(fstrm_res r) { return r == fstrm_res_success ? "success" : r == fstrm_res_stop ? "stop" : r == fstrm_res_failure ? "failure" : "another result"; }

// Reads everything; `failed` says whether a read has failed so far.
static bool drive(struct fstrm_reader *r, const std::string &s, const Model &m, const std::function<bool()> &failed, size_t k, bool explicit_open) {
	size_t got = 0;
	if (explicit_open) {
		fstrm_res o = fstrm_reader_open(r);
		if (m.open_ok) CHECK(o == fstrm_res_success, "open: %s, although the failing read at byte %zu comes later", rn(o), k);
		else { CHECK(o != fstrm_res_success, "open succeeded although reading failed at byte %zu", k); return false; }
	}
	for (size_t i = 0;; i++) {
		const uint8_t *p = nullptr; size_t n = 0; fstrm_res x = fstrm_reader_read(r, &p, &n);
		if (!m.open_ok) { CHECK(x != fstrm_res_success && !(failed() && x == fstrm_res_stop), "read: %s, although reading failed at byte %zu before the START frame was complete", rn(x), k); return false; }
		CHECK(i < m.ev.size(), "read goes on after the failure at byte %zu", k);
		auto &e = m.ev[i];
		if (e.k != Ev::DATA || x != fstrm_res_success) {
			if (e.k == Ev::STOP) { CHECK(x == fstrm_res_stop || m.early.count(i), "read: %s at the STOP frame", rn(x)); return got > 0; }
			if (m.early.count(i) && x == fstrm_res_failure) return false;
			CHECK(e.k != Ev::DATA, "read: %s for data frame %zu, which lies before the failing read at byte %zu", rn(x), i, k);
			CHECK(x != fstrm_res_success, "read: success for a frame that reading failed in (byte %zu)", k);
			if (failed()) CHECK(x == fstrm_res_failure, "reading failed at byte %zu, and the reader reports %s", k, rn(x));
			for (int j = 0; j < 2; j++) { x = fstrm_reader_read(r, &p, &n); CHECK(x != fstrm_res_success && !(failed() && x == fstrm_res_stop), "a read after the failure at byte %zu: %s", k, rn(x)); }
			const struct fstrm_control *c = nullptr;
			CHECK(fstrm_reader_get_control(r, FSTRM_CONTROL_STOP, &c) != fstrm_res_success || !c, "a STOP frame is reported after the failure at byte %zu", k);
			return got > 0;
		}
		CHECK(n == e.len && !memcmp(p, s.data() + e.off, n), "data frame %zu differs", i);
		got++;
	}
}
void prop(Tape &t) {
	constexpr size_t LIM = 1048576;
	heap_reset(); int fd0 = fd_probe();
	bool small = t.chance(140), two = t.chance(60);
	int kind = t.weighted({10, 6, 1});   // file, transport, dump program
	if (kind == 0 && !intercepted) { label("files cannot be made to fail"); kind = 1; }
	if (kind != 1) two = false;
	std::vector<std::string> cts; if (t.flip()) cts.push_back("t");
	std::string s; bool stop = !t.chance(40);
	if (two) s += ref::encode({ref::READY, cts});
	s += ref::encode({ref::START, cts});
	for (int n = t.range(0, small ? 4 : 10); n; n--) switch (t.weighted({16, 2, 1})) {
	case 0: s += ref::data(small ? t.fill(1 + t.range(0, 8)) : gen_payload(t, t.chance(20) ? 200000 : 9000)); break;
	case 1: s += ref::frame(gen_unknown(t)); break;
	default: if (t.chance(60)) s += ref::frame(gen_malformed(t));
	}
	if (stop) s += ref::encode({ref::STOP, {}});
	int err = errs[t.range(0, 5)]; size_t chunk = t.chance(80) ? 1 + t.range(0, 40) : 0; bool lasting = !t.chance(60), open = t.flip();
	size_t dummy = t.chance(40) ? t.range(1, 300) : 0; // data after the stream
	s += std::string(dummy, 'x');
	static const char *nm[] = {"file", "transport", "dump"};
	describe(strf("%s: %zu bytes %s, error %d%s", nm[kind], s.size(), ref::hex(s, 60).c_str(), err, lasting ? "" : " once"));
	std::vector<size_t> ks;
	if (s.size() <= 120 && kind != 2) for (size_t k = 0; k <= s.size(); k++) ks.push_back(k);
	else for (int i = kind == 2 ? 1 : 4; i; i--) ks.push_back(t.chance(100) ? s.size() - std::min<size_t>(s.size(), t.range(0, 16)) : t.chance(40) ? std::min<size_t>(s.size(), 4096 * t.range(1, 3)) : t.range(0, s.size()));
	bool nt = false;
	for (size_t k : ks) {
		Model m = model(s.substr(0, k), two, cts, LIM);
		if (kind == 1) {
			Mock mk(true, two); size_t used = 0; bool hit = false;
			mk.input = &s;
			struct Ctx { Mock *m; size_t *used; size_t k; bool *hit; bool lasting; } cx{&mk, &used, k, &hit, lasting};
			auto *rd = fstrm_rdwr_init(&cx);
			fstrm_rdwr_set_destroy(rd, [](void *) -> fstrm_res { return fstrm_res_success; });
			fstrm_rdwr_set_open(rd, [](void *o) -> fstrm_res { return ((Ctx *)o)->m->op_open(); });
			fstrm_rdwr_set_close(rd, [](void *o) -> fstrm_res { return ((Ctx *)o)->m->op_close(); });
			if (two) fstrm_rdwr_set_write(rd, [](void *o, const struct iovec *v, int n) -> fstrm_res { return ((Ctx *)o)->m->op_write(v, n); });
			fstrm_rdwr_set_read(rd, [](void *o, void *p, size_t n) -> fstrm_res {
				auto &c = *(Ctx *)o;
				if (*c.used + n > c.k && (c.lasting || !*c.hit)) { *c.hit = true; return fstrm_res_failure; }
				fstrm_res r = c.m->op_read(p, n); if (r == fstrm_res_success) *c.used += n;
				return r;
			});
			auto *o = ropts(cts, LIM); ReaderH h; h.r = fstrm_reader_init(o, &rd); fstrm_reader_options_destroy(&o);
			nt |= drive(h.r, s, m, [&] { return hit; }, k, open);
			fstrm_reader_destroy(&h.r); mk.check();
			CHECK(!mk.is_open, "the transport is left open after the failure at byte %zu", k);
		} else if (kind == 0) {
			Cur q; q.c.path = COOKIE; q.c.data = s; q.c.err_at = k; q.c.err = err; q.c.chunk = chunk; q.c.lasting = lasting;
			auto *fo = fstrm_file_options_init(); fstrm_file_options_set_file_path(fo, COOKIE);
			auto *o = ropts(cts, LIM); ReaderH h; h.r = fstrm_file_reader_init(fo, o); fstrm_reader_options_destroy(&o); fstrm_file_options_destroy(&fo);
			CHECK(h.r, "fstrm_file_reader_init failed");
			bool d = drive(h.r, s, m, [&] { return q.c.hits > 0; }, k, open);
			nt |= d && q.c.hits;
			fstrm_reader_destroy(&h.r);
			CHECK(q.c.opens == q.c.closes, "a file was opened %d times and closed %d times", q.c.opens, q.c.closes);
		} else {
			prog_shm->vtime = 0; prog_shm->nsig = 0; prog_shm->rcap = prog_shm->wcap = 0;
			bool isdir = t.chance(20) || !intercepted; if (isdir) m = Model();
			Cur q; q.c.path = isdir ? "/tmp" : COOKIE; if (isdir) cookie_file = nullptr;
			q.c.data = s; q.c.err_at = k; q.c.err = err; q.c.chunk = chunk; q.c.lasting = lasting;
			int so = memfd_create("stdout", MFD_CLOEXEC); struct Fd { int fd; ~Fd() { close(fd); } } g{so};
			Child ch; ch.start(fstrm_dump_main, {"fstrm_dump", q.c.path}, {}, -1, so);
			if (!ch.wait(20)) fail("fstrm_dump does not end");
			ch.check_sane();
			m = isdir ? m : model(s.substr(0, k), false, {}, LIM);
			bool fine = m.open_ok && m.ev.back().k == Ev::STOP;
			if (!fine) CHECK(ch.code() != 0, "fstrm_dump: exit status 0 although reading failed at byte %zu", k);
			else if (m.early.empty()) CHECK(ch.code() == 0, "fstrm_dump: exit status %d although the failing read at byte %zu comes after the stream", ch.code(), k);
			std::string out; char b[65536]; ssize_t n; off_t o = 0; while ((n = pread(so, b, sizeof b, o)) > 0) { out.append(b, n); o += n; }
			size_t lines = std::count(out.begin(), out.end(), '\n'), want = 0; for (auto &e : m.ev) want += e.k == Ev::DATA;
			if (m.early.empty()) CHECK(lines == want, "fstrm_dump printed %zu frames, %zu lie before the failing read at byte %zu", lines, want, k);
			CHECK(fine || ch.err().find("FSTRM_CONTROL_STOP") == std::string::npos, "fstrm_dump reports a STOP frame although reading failed at byte %zu", k);
			nt |= want > 0 && !fine;
		}
		CHECK(heap_live() == 0, "%zu blocks leaked", heap_live());
	}
	CHECK(fd_probe() == fd0, "a descriptor was leaked");
	label(nm[kind]);
	if (nt) nontrivial();
}
