// C06: a reader on arbitrary bytes.
#include "mock.hpp"
#include <sys/mman.h>
#include <unistd.h>
const PropInfo prop_info = {
	"C06",
	"A case is a byte string (built from valid, malformed, over-long and unknown frames, then possibly mutated, spliced or truncated) given to a reader over a one-way, two-way or file transport with random content types and frame limit; an independent parser predicts the result of every call. Non-trivial: the stream was opened, at least one payload was returned, and the input then ended in something other than a clean STOP, or contained an ignorable control frame.",
	"exploration", 1200000, 40000000, 700, 8, false, 30,
	{"A known control frame type other than STOP in mid-stream (which the format forbids) may be skipped or may fail the stream; both are accepted."}
};
void prop_setup() {}

#include "strm.hpp"
// Sets the limit through a history of calls, refused ones among them.
static void set_limit(Tape &t, struct fstrm_reader_options *o, size_t lim) {
	static const size_t bad[] = {0, 1, 511, 256, 500, 0xffffffffull, 0x100000000ull, 0x100000200ull, SIZE_MAX, 0x200001000ull};
	static const size_t good[] = {512, 513, 0xfffffffeull, 1048576, 70000, 0x7fffffff, 0x80000000ull};
	unsigned n = t.weighted({5, 2, 1, 1});
	bool mine = lim == 0;
	for (unsigned i = 0; i <= n; i++) {
		if (i == n && mine) break;
		unsigned k = mine ? 0 : i == n ? 2 : t.weighted({3, 2, 1});
		size_t v = k == 0 ? (t.flip() ? bad[t.range(0, 9)] : t.range(0, 511)) : k == 1 ? good[t.range(0, 6)] : lim;
		bool ok = v >= 512 && v <= 0xfffffffeull;
		fstrm_res r = fstrm_reader_options_set_max_frame_size(o, v);
		CHECK((r == fstrm_res_success) == ok, "fstrm_reader_options_set_max_frame_size(%zu) returned %d", v, (int)r);
		if (k == 2) mine = true;
		if (!ok) label("limit refused");
	}
}
// A frame of up to 2^32-2 bytes from a transport that delivers only marks.
static void huge(Tape &t) {
	struct Src { std::string head; uint64_t len = 0; uint64_t at = 0; bool bad = false; } k;
	bool giant = t.raw(2) == 0xffff;   // (a stored tape: takes some gigabytes)
	size_t len = std::min<size_t>(Huge::len(t), UINT32_MAX - 1), lim = t.chance(100) ? len : UINT32_MAX - 1; bool over = t.chance(60);
	if (over) { lim = len - 1 - t.range(0, 3); }
	else if (!giant) { len = (1 << 20) + len % (1 << 23); if (lim < UINT32_MAX - 1) lim = len; }
	k.head = ref::encode({ref::START, {}}) + ref::be32((uint32_t)len); k.len = len;
	auto *rd = fstrm_rdwr_init(&k);
	fstrm_rdwr_set_open(rd, [](void *) -> fstrm_res { return fstrm_res_success; });
	fstrm_rdwr_set_close(rd, [](void *) -> fstrm_res { return fstrm_res_success; });
	fstrm_rdwr_set_read(rd, [](void *o, void *b, size_t n) -> fstrm_res {
		auto &k = *(Src *)o; std::string tail = ref::encode({ref::STOP, {}});
		uint64_t lo = k.at, hi = lo + n, body = k.head.size(), end = body + k.len; if (hi > end + tail.size()) return fstrm_res_stop;
		k.at = hi; char *d = (char *)b;
		auto put = [&](uint64_t off, const std::string &s) { uint64_t x = std::max(lo, off), y = std::min<uint64_t>(hi, off + s.size()); if (x < y) memcpy(d + (x - lo), s.data() + (x - off), y - x); };
		put(0, k.head); for (size_t m : Huge::marks(k.len)) put(body + m, std::string(16, (char)(m * 7 + 1)));
		put(end, tail); return fstrm_res_success;
	});
	auto *o = ropts({}); CHECK(fstrm_reader_options_set_max_frame_size(o, lim) == fstrm_res_success, "set_max_frame_size(%zu) failed", lim);
	ReaderH h; h.r = fstrm_reader_init(o, &rd); fstrm_reader_options_destroy(&o); CHECK(h.r, "fstrm_reader_init failed");
	const uint8_t *d = nullptr; size_t n = 0; fstrm_res r = fstrm_reader_read(h.r, &d, &n);
	std::string D = strf("a frame of %zu bytes, limit %zu", len, lim);
	if (over) { CHECK(r == fstrm_res_failure, "%s: read returned %d", D.c_str(), (int)r); CHECK(heap_biggest() <= 2 * lim + 8192, "%s: allocated %zu", D.c_str(), heap_biggest()); }
	else {
		CHECK(r == fstrm_res_success && d && n == len, "%s: read returned %d, %zu bytes", D.c_str(), (int)r, n);
		for (size_t m : Huge::marks(len)) CHECK(std::string((const char *)d + m, 16) == std::string(16, (char)(m * 7 + 1)), "%s: differs at byte %zu", D.c_str(), m);
		r = fstrm_reader_read(h.r, &d, &n); CHECK(r == fstrm_res_stop, "%s: read at STOP returned %d", D.c_str(), (int)r); nontrivial();
	}
	fstrm_reader_destroy(&h.r); CHECK(heap_live() == 0, "%zu blocks leaked", heap_live());
	label("huge frame"); describe(D);
}
void prop(Tape &t) {
	if (t.chance(1) && t.chance(1)) { heap_reset(); huge(t); return; }
	heap_reset();
	enum { ONEWAY, TWOWAY, FILE_ } kind = (decltype(kind))t.weighted({5, 3, 3});
	std::vector<std::string> rct; size_t nr = t.weighted({4, 3, 2});
	for (size_t i = 0; i < nr; i++) rct.push_back(t.bytes(t.range(0, 3)));
	size_t lims[] = {512, 513, 600, 5000, 70000, 1048576};
	size_t li = t.range(0, 6), lim = li < 6 ? lims[li] : 512 + t.range(0, 3000);
	bool def = lim == 1048576;
	// input
	std::string s;
	if (t.chance(10)) s = t.bytes(t.range(0, 60));
	else {
		if (kind == TWOWAY || t.chance(10)) {
			ref::Ctl c; c.type = t.chance(8) ? 1 + t.range(0, 4) : ref::READY;
			size_t n = t.range(0, 3);
			for (size_t i = 0; i < n; i++) c.cts.push_back(!rct.empty() && t.flip() ? t.pick(rct) : t.bytes(t.range(0, 3)));
			s += ref::encode(c);
		}
		if (!t.chance(10)) {
			ref::Ctl c; c.type = t.chance(8) ? 1 + t.range(0, 4) : ref::START;
			if (t.flip()) c.cts.push_back(!rct.empty() && !t.chance(30) ? t.pick(rct) : t.bytes(t.range(0, 3)));
			s += t.chance(6) ? ref::frame(gen_malformed(t)) : ref::encode(c);
		}
		int n = t.range(0, 10);
		for (int i = 0; i < n; i++) {
			switch (t.weighted({14, 5, 2, 2, 2, 2, 2, 1})) {
			case 0: s += ref::data(gen_payload(t, 3000)); break;
			case 1: s += ref::frame(gen_unknown(t)); break;
			case 2: s += ref::frame(gen_known(t, t.chance(128) ? ref::STOP : 0)); break;
			case 3: s += ref::frame(gen_malformed(t)); break;
			case 4: { size_t k = lim + (t.flip() ? 0 : t.range(0, 2)); if (k <= 80000) s += ref::data(t.fill(k)); else s += ref::be32(k + 1) + t.fill(100); break; } // around the limit
			case 5: { uint32_t k = 505 + t.range(0, 15); s += ref::be32(0) + ref::be32(k) + ref::be32(t.flip() ? 9 : 3) + t.fill(k - 4 - (t.flip() ? 0 : 1)); break; }
			case 6: s += ref::be32(t.flip() ? 0xffffffffu - t.range(0, 5) : lim + 1 + t.range(0, 3)) + t.fill(t.range(0, 40)); break;
			default: s += t.bytes(t.range(0, 12)); break;
			}
			if (t.chance(2)) {   // a long run of one kind of frame
				std::string f = t.chance(200) ? ref::frame(gen_unknown(t)) : ref::data(gen_payload(t, 20));
				size_t k = t.len(3000); if (k * f.size() > 300000) k = 300000 / f.size();
				s.reserve(s.size() + k * f.size()); for (; k; k--) s += f;
				label("long run of frames");
			}
		}
		if (t.flip()) { s += ref::encode({ref::STOP, {}}); if (t.chance(60)) s += ref::data("after STOP") + ref::encode({ref::STOP, {}}); }
		int muts = t.weighted({6, 3, 1, 1});
		for (int i = 0; i < muts && !s.empty(); i++) {
			size_t p = t.range(0, std::min<size_t>(s.size() - 1, 65535));
			switch (t.range(0, 4)) {
			case 0: s[p] ^= 1 << t.range(0, 7); break;
			case 1: s.erase(p, t.range(1, 8)); break;
			case 2: s.insert(p, t.bytes(t.range(1, 4))); break;
			case 3: s.resize(p); break;
			default: s[p] = t.byte();
			}
		}
	}
	Model m = model(s, kind == TWOWAY, rct, lim);
	std::string D = strf("%s, types %s, limit %zu, %zu bytes %s: ", kind == ONEWAY ? "one-way" : kind == TWOWAY ? "two-way" : "file", show(rct).c_str(), lim, s.size(), ref::hex(s, 64).c_str());

	Mock mk(true, kind == TWOWAY); mk.input = &s;
	struct RO { struct fstrm_reader_options *o; ~RO() { if (o) fstrm_reader_options_destroy(&o); } } ro{ropts(rct)};
	set_limit(t, ro.o, def ? 0 : lim);
	int fd = -1; struct Closer { int &fd; ~Closer() { if (fd >= 0) close(fd); } } cl{fd};
	int fd0 = -1; ReaderH h;
	if (kind == FILE_) {
		fd = memfd_create("c06", 0); CHECK(fd >= 0 && write(fd, s.data(), s.size()) == (ssize_t)s.size(), "memfd");
		fd0 = fd_probe();
		auto *fo = fstrm_file_options_init(); fstrm_file_options_set_file_path(fo, strf("/proc/self/fd/%d", fd).c_str());
		h.r = fstrm_file_reader_init(fo, ro.o);
		fstrm_file_options_destroy(&fo);
	} else {
		auto *rd = mk.rdwr(); h.r = fstrm_reader_init(ro.o, &rd);
		CHECK(h.r && !rd, "fstrm_reader_init failed");
	}
	fstrm_reader_options_destroy(&ro.o);
	size_t base_big = heap_biggest();
	if (t.flip()) {
		fstrm_res r = fstrm_reader_open(h.r);
		CHECK((r == fstrm_res_success) == m.open_ok, "open returned %d, the input %s", r, m.open_ok ? "starts with an acceptable handshake" : "has no acceptable handshake");
	}
	size_t returned = 0; bool ended = false; bool stopped = false;
	if (!m.open_ok) {
		for (int i = 0; i < 2; i++) {
			const uint8_t *d = nullptr; size_t n = 0;
			CHECK(fstrm_reader_read(h.r, &d, &n) != fstrm_res_success, "read succeeded although the handshake is not acceptable");
		}
		label("handshake rejected");
	} else {
		size_t i = 0;
		bool quit = false; const uint8_t *held = nullptr; size_t hoff = 0, hlen = 0;   // the last payload stays as it is until the next read
		auto kept = [&] { if (held) CHECK(!memcmp(held, s.data() + hoff, hlen), "a payload of %zu bytes changed before the next read", hlen); };
		while (!ended && !quit) {
			switch (t.weighted({12, 1, 1, 1})) {
			case 0: {
				const uint8_t *d = nullptr; size_t n = (size_t)-7;
				kept(); held = nullptr;
				fstrm_res r = fstrm_reader_read(h.r, &d, &n);
				const Ev &e = m.ev[i];
				if (m.early.count(i) && r == fstrm_res_failure) { ended = true; label("known control frame mid-stream: failed"); break; }
				switch (e.k) {
				case Ev::DATA:
					CHECK(r == fstrm_res_success, "read %zu returned %d, expected a %zu byte payload", i, r, e.len);
					CHECK(d != nullptr && n != (size_t)-7, "read %zu reported success without a payload", i);
					CHECK(n == e.len && !memcmp(d, s.data() + e.off, n), "read %zu: payload of %zu bytes differs from the %zu bytes sent", i, n, e.len);
					returned++; i++; held = d; hoff = e.off; hlen = e.len;
					break;
				case Ev::STOP: CHECK(r == fstrm_res_stop, "read returned %d at STOP", r); ended = stopped = true; break;
				case Ev::ERR: CHECK(r == fstrm_res_failure, "read returned %d at a malformed or over-long frame", r); ended = true; label("protocol error"); break;
				case Ev::END: CHECK(r != fstrm_res_success, "read succeeded past the end of the input (%zu payloads returned)", returned); ended = true; label("input ended"); break;
				}
				break;
			}
			case 1: {
				const struct fstrm_control *c = nullptr;
				CHECK(fstrm_reader_get_control(h.r, FSTRM_CONTROL_START, &c) == fstrm_res_success && c, "no START");
				CHECK(get_cts(c) == m.start.cts, "START differs");
				break;
			}
			case 2: if (t.chance(16)) quit = true; break;
			default:
				if (i > 0) CHECK(fstrm_reader_open(h.r) != fstrm_res_success, "open of an open reader succeeded");
			}
		}
		if (quit && t.flip()) (void)fstrm_reader_close(h.r);
		kept();
		if (ended) {
			if (t.flip()) for (int k = 0; k < 3; k++) {
				const uint8_t *d = nullptr; size_t n = 0;
				CHECK(fstrm_reader_read(h.r, &d, &n) != fstrm_res_success, "payload returned after the end of the stream");
			}
			if (t.flip()) {
				fstrm_res r = fstrm_reader_close(h.r);
				if (stopped) CHECK(r == fstrm_res_success, "close after STOP returned %d", r);
				const uint8_t *d = nullptr; size_t n = 0;
				CHECK(fstrm_reader_read(h.r, &d, &n) != fstrm_res_success, "payload returned after close");
			}
		}
	}
	CHECK(heap_biggest() <= std::max(base_big, 2 * std::max<size_t>(lim, 512) + 8192), "an allocation of %zu bytes with a frame limit of %zu", heap_biggest(), lim);
	fstrm_reader_destroy(&h.r);
	if (kind == FILE_) CHECK(fd_probe() == fd0, "the reader left a file open");
	mk.check();
	if (kind == TWOWAY && m.open_wrote) for (auto &c : mk.conns) CHECK(c.out.compare(0, m.out.size(), m.out) == 0 || c.out.empty(), "reader wrote %s, expected ACCEPT %s", ref::hex(c.out).c_str(), ref::hex(m.out).c_str());
	CHECK(heap_live() == 0, "%zu blocks leaked", heap_live());
	if (m.open_ok && returned && (m.eof_or_err || m.ignorable)) nontrivial();
	if (m.ignorable) label("control frame to ignore");
	if (stopped) label("STOP");
	describe(D + strf("%zu payloads", returned));
}
