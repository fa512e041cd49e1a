// C04: what a writer emits on a uni-directional transport.
#include "mock.hpp"
#include <climits>
#include <map>
const PropInfo prop_info = {
	"C04",
	"A case is a random history of open/write/writev/get_control/close on one writer over a recording transport, ended by destroy; an independent model predicts every result code and every emitted byte. Non-trivial: at least two data frames were written and the stream was closed.",
	"exploration", 350000, 9000000, 600, 8, false, 30,
	{"Payloads above 70000 bytes, up to 2^32-1, are one untouched mapping of which marked places are compared; longer ones are tried with a length above 2^32 only (which must be rejected unread)."}
};
void prop_setup() {}
// Payloads of up to 2^32-1 bytes: every length prefix and marks within the
// payloads are compared at their offsets in the stream.
static void huge(Tape &t) {
	struct Sink { std::map<uint64_t, std::string> want; uint64_t at = 0; std::string bad; bool open = false; } k;
	uint8_t *base = Huge::map(); auto cts = gen_cts(t, 2); std::string D = "huge payloads:";
	auto *rd = fstrm_rdwr_init(&k);
	fstrm_rdwr_set_open(rd, [](void *o) -> fstrm_res { ((Sink *)o)->open = true; return fstrm_res_success; });
	fstrm_rdwr_set_close(rd, [](void *o) -> fstrm_res { ((Sink *)o)->open = false; return fstrm_res_success; });
	fstrm_rdwr_set_write(rd, [](void *o, const struct iovec *v, int n) -> fstrm_res {
		auto &k = *(Sink *)o;
		for (int i = 0; i < n; i++) {
			uint64_t lo = k.at, hi = lo + v[i].iov_len; k.at = hi;
			for (auto it = k.want.begin(); it != k.want.end() && it->first < hi; ++it) {
				uint64_t a = std::max(lo, it->first), b = std::min<uint64_t>(hi, it->first + it->second.size());
				if (a < b && memcmp((const uint8_t *)v[i].iov_base + (a - lo), it->second.data() + (a - it->first), b - a) && k.bad.empty()) k.bad = strf("the stream differs at offset %llu", (unsigned long long)a);
			}
		}
		return fstrm_res_success;
	});
	auto *o = wopts(cts); WriterH h; h.w = fstrm_writer_init(o, &rd); fstrm_writer_options_destroy(&o); CHECK(h.w, "fstrm_writer_init failed");
	ref::Ctl start; start.type = ref::START; if (!cts.empty()) start.cts.push_back(cts[0]);
	std::string st = ref::encode(start); k.want[0] = st; uint64_t off = st.size(); int n = 1 + t.range(0, 3);
	for (int i = 0; i < n; i++) {
		std::vector<struct iovec> v; int c = 1 + (t.chance(60) ? t.range(0, 200) : t.range(0, 3));
		for (int j = 0; j < c; j++) {
			size_t l = j < 3 && t.flip() ? Huge::len(t) : 1 + t.range(0, 30), s = l < 64 ? t.range(0, 1000) : 0;
			if (l >= 64) for (size_t m : Huge::marks(l)) { std::string x(16, (char)0); for (int q = 0; q < 16; q++) x[q] = (char)(m * 31 + q + 1); memcpy(base + m, x.data(), 16); }
			v.push_back({base + s, l}); D += l < 64 ? "" : strf(" %zu", l);
		}
		uint64_t q = off;
		for (auto &x : v) {   // marks may overlap other payloads' in the mapping: what is there now is what must be sent
			k.want[q] = ref::be32((uint32_t)x.iov_len); q += 4;
			if (x.iov_len < 64) k.want[q] = std::string((const char *)x.iov_base, x.iov_len); else for (size_t m : Huge::marks(x.iov_len)) k.want[q + m] = std::string((const char *)x.iov_base + m, 16);
			q += x.iov_len;
		}
		fstrm_res r = c == 1 && t.flip() ? fstrm_writer_write(h.w, v[0].iov_base, v[0].iov_len) : fstrm_writer_writev(h.w, v.data(), c);
		CHECK(r == fstrm_res_success, "writing%s returned %d", D.c_str(), (int)r); off = q;
		CHECK(k.at == off, "%llu bytes were emitted,%s make %llu", (unsigned long long)k.at, D.c_str(), (unsigned long long)off);
		CHECK(k.bad.empty(), "%s (%s)", k.bad.c_str(), D.c_str());
	}
	std::string sp = ref::encode({ref::STOP, {}}); k.want[off] = sp;
	CHECK(fstrm_writer_close(h.w) == fstrm_res_success && k.at == off + sp.size() && k.bad.empty(), "close: %s", k.bad.c_str());
	describe(D); label("huge payloads"); nontrivial();
}
void prop(Tape &t) {
	heap_reset();
	if (t.chance(1)) { huge(t); return; }
	Mock m(false, true);
	WriterH h;
	bool null_opts = t.chance(20);
	auto cts = null_opts ? std::vector<std::string>() : gen_cts(t, 3);
	h.w = mk_writer(m, cts, null_opts);
	ref::Ctl start; start.type = ref::START; if (!cts.empty()) start.cts.push_back(cts[0]);
	enum { OPENING, OPEN, CLOSED } st = OPENING;
	std::vector<std::string> exp;    // expected bytes per connection
	std::string D = "types " + show(cts) + ": ";
	size_t frames = 0; bool closed_any = false;
	auto open_model = [&] { exp.push_back(ref::encode(start)); st = OPEN; };
	int n = 1 + t.range(0, 14);
	for (int i = 0; i < n; i++) {
		switch (t.weighted({2, 8, 6, 2, 2, 1})) {
		case 0: {
			fstrm_res r = fstrm_writer_open(h.w);
			D += "open; ";
			CHECK(r == fstrm_res_success, "open returned %d", r);
			if (st != OPEN) { if (st == CLOSED) label("reopened"); open_model(); }
			break;
		}
		case 1: {
			std::string p = gen_payload(t, 70000);
			Exact e(p);
			fstrm_res r = fstrm_writer_write(h.w, e.p, e.n);
			D += strf("write(%zu); ", p.size());
			if (st == CLOSED) { CHECK(r != fstrm_res_success, "write after close succeeded"); label("write after close"); break; }
			if (st == OPENING) { open_model(); label("implicit open"); }
			CHECK(r == fstrm_res_success, "write(%zu) returned %d", p.size(), r);
			exp.back() += ref::data(p); frames++;
			break;
		}
		case 2: {
			int cnt;
			switch (t.weighted({6, 2, 2, 1})) { case 0: cnt = t.range(0, 9); break; case 1: cnt = 120 + t.range(0, 20); break; case 2: cnt = 250 + t.range(0, 20); break; default: cnt = t.range(0, 1100); }
			if (cnt == 0 && t.flip()) cnt = -1;
			std::vector<std::unique_ptr<Exact>> bufs; std::vector<struct iovec> iov; std::string add;
			size_t base = 1 + t.range(0, 20), mul = t.range(0, 7);
			for (int k = 0; k < cnt; k++) {
				std::string p = k < 8 ? gen_payload(t, 5000) : std::string(base + (k * mul) % 11, (char)(k + 1));
				bufs.emplace_back(new Exact(p)); iov.push_back({bufs.back()->p, bufs.back()->n}); add += ref::data(p);
			}
			// an unframable payload somewhere
			bool bad = false;
			if (cnt > 0 && t.chance(50)) {
				static const size_t lens[] = {0, (size_t)UINT32_MAX + 1, (size_t)UINT32_MAX + 6, SIZE_MAX};
				iov[t.range(0, cnt - 1)].iov_len = lens[t.weighted({4, 1, 1, 1})];
				bad = true;
			}
			auto snapshot = iov;
			fstrm_res r = fstrm_writer_writev(h.w, iov.data(), cnt);
			D += strf("writev(%d%s); ", cnt, bad ? " bad" : "");
			CHECK(iov.empty() || memcmp(snapshot.data(), iov.data(), iov.size() * sizeof(iov[0])) == 0, "writev modified the caller's iovec array");
			if (cnt < 1) { CHECK(r == fstrm_res_success, "empty writev returned %d", r); break; }
			if (bad) {
				CHECK(r != fstrm_res_success, "writev accepted a payload that cannot be framed");
				label("unframable payload");
				// it may or may not have opened the stream first
				if (st == OPENING && m.is_open) open_model();
				break;
			}
			if (st == CLOSED) { CHECK(r != fstrm_res_success, "writev after close succeeded"); break; }
			if (st == OPENING) open_model();
			CHECK(r == fstrm_res_success, "writev(%d) returned %d", cnt, r);
			exp.back() += add; frames += cnt;
			if (cnt > 128) label("writev > 128");
			break;
		}
		case 3: {
			fstrm_res r = fstrm_writer_close(h.w);
			D += "close; ";
			if (st == OPEN) { CHECK(r == fstrm_res_success, "close returned %d", r); ref::Ctl s; s.type = ref::STOP; exp.back() += ref::encode(s); st = CLOSED; closed_any = true; }
			else CHECK(r != fstrm_res_success, "close of a stream that is not open succeeded");
			break;
		}
		case 4: {
			struct fstrm_control *c = nullptr;
			fstrm_control_type ty = (fstrm_control_type)(1 + t.range(0, 4));
			fstrm_res r = fstrm_writer_get_control(h.w, ty, &c);
			D += strf("get_control(%d); ", ty);
			if (st == OPENING) open_model();
			CHECK((r == fstrm_res_success) == (ty != FSTRM_CONTROL_STOP), "get_control(%d) returned %d", ty, r);
			if (ty == FSTRM_CONTROL_START) { CHECK(c != nullptr, "no START frame"); CHECK(get_cts(c) == start.cts, "START content type differs"); }
			else CHECK(c == nullptr, "get_control(%d) gave a frame on a uni-directional stream", ty);
			break;
		}
		default: { // unframable single payload
			uint8_t x = 1; static const size_t lens[] = {0, (size_t)UINT32_MAX + 1, (size_t)UINT32_MAX + 2, SIZE_MAX};
			size_t len = lens[t.weighted({4, 1, 1, 1})];
			fstrm_res r = fstrm_writer_write(h.w, &x, len);
			D += strf("write(%zu); ", len);
			CHECK(r != fstrm_res_success, "write of %zu bytes succeeded", len);
			if (st == OPENING && m.is_open) open_model();
			label("unframable payload");
		}
		}
		m.check();
		CHECK(m.is_open == (st == OPEN), "transport open=%d but the stream is %s", m.is_open, st == OPEN ? "open" : "not open");
		CHECK(m.conns.size() == exp.size(), "%zu connections, expected %zu", m.conns.size(), exp.size());
		for (size_t k = 0; k < exp.size(); k++)
			if (m.conns[k].out != exp[k]) {
				size_t d = 0; while (d < exp[k].size() && d < m.conns[k].out.size() && exp[k][d] == m.conns[k].out[d]) d++;
				fail("stream %zu: %zu bytes emitted, %zu expected, first difference at %zu (after: %s)", k, m.conns[k].out.size(), exp[k].size(), d, D.c_str());
			}
	}
	fstrm_res r = fstrm_writer_destroy(&h.w);
	CHECK(h.w == nullptr, "destroy did not clear the pointer");
	if (st == OPEN) { CHECK(r == fstrm_res_success, "destroy of an open writer returned %d", r); ref::Ctl s; s.type = ref::STOP; exp.back() += ref::encode(s); closed_any = true; }
	m.check();
	CHECK(m.n_destroy == 1, "transport destroyed %d times", m.n_destroy);
	for (size_t k = 0; k < exp.size(); k++) CHECK(m.conns[k].out == exp[k], "after destroy: stream %zu differs (%zu bytes, expected %zu)", k, m.conns[k].out.size(), exp[k].size());
	CHECK(heap_live() == 0, "%zu blocks leaked", heap_live());
	if (frames >= 2 && closed_any) nontrivial();
	if (exp.size() > 1) label("several connections");
	describe(D);
}
