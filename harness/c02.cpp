// C02: control frame decoding accepts exactly the well-formed frames.
#include "fs.hpp"
const PropInfo prop_info = {
	"C02",
	"A case decodes 1..5 byte strings (valid frames, frames with one structural mutation, field soups, raw bytes) into one control object and compares the verdict and the contents with an independent decoder. Non-trivial: at least one accepted frame with a content type, or a rejected input that has a known control type.",
	"exploration", 1500000, 60000000, 900, 8, false, 30,
	{"The reference decoder in harness/ref.hpp states the wire format of fstrm/control.h."}
};
void prop_setup() {}

static std::string gen_input(Tape &t, bool &hdr) {
	hdr = t.flip();
	std::string pl;
	switch (t.weighted({6, 4, 1})) {
	case 0: { // a frame, fields unconstrained
		ref::Ctl f; f.type = t.chance(30) ? (uint32_t)t.raw(t.flip() ? 1 : 4) : 1 + t.range(0, 4);
		bool many = t.chance(20);
		size_t k = many ? t.range(5, 64) : t.chance(100) ? ref::ct_limit(f.type, t.range(0, 4)) : t.range(0, 5);
		if (many && t.chance(220)) f.type = t.flip() ? ref::READY : ref::ACCEPT;
		pl = ref::be32(f.type);
		for (size_t j = 0; j < k; j++) { auto ct = many ? gen_short_ct(t) : gen_ct(t); pl += ref::be32(1) + ref::be32(ct.size()) + ct; }
		break;
	}
	case 1: { // field soup
		pl = ref::be32(1 + t.range(0, 4));
		size_t k = t.range(0, 4);
		for (size_t j = 0; j < k; j++) {
			auto ct = gen_ct(t);
			uint32_t ft = t.chance(40) ? (uint32_t)t.raw(4) : t.chance(30) ? t.range(0, 3) : 1;
			uint32_t fl = ct.size();
			if (t.chance(50)) fl += (int)t.range(0, 6) - 3;
			if (t.chance(10)) fl = (uint32_t)t.raw(4);
			pl += ref::be32(ft) + ref::be32(fl) + ct;
		}
		if (t.chance(60)) pl += t.bytes(t.range(0, 9));
		break;
	}
	default: pl = t.bytes(t.range(0, 24));
	}
	if (t.chance(40)) { // pad/cut to the size limit
		size_t want = 512 + t.range(0, 10) - 5;
		if (pl.size() + 8 <= want && t.flip() && pl.size() >= 4) {
			while (pl.size() + 8 <= want) { size_t k = std::min<size_t>(want - pl.size() - 8, 256); pl += ref::be32(1) + ref::be32(k) + std::string(k, 'q'); }
		} else pl.resize(want, '\1');
	}
	std::string s = hdr ? ref::frame(pl) : pl;
	switch (t.weighted({5, 2, 1, 1, 1})) {
	case 1: if (!s.empty()) s.resize(t.range(0, s.size() - 1)); break;
	case 2: if (!s.empty()) s[t.range(0, s.size() - 1)] ^= 1 << t.range(0, 7); break;
	case 3: s += t.bytes(t.range(1, 5)); break;
	case 4: if (hdr && s.size() >= 8) { auto l = ref::rd32(s, 4) + (uint32_t)(t.range(0, 8) - 4); s.replace(4, 4, ref::be32(l)); } break;
	}
	return s;
}

void prop(Tape &t) {
	heap_reset();
	struct fstrm_control *c = fstrm_control_init();
	struct G { struct fstrm_control **c; ~G() { fstrm_control_destroy(c); } } g{&c};
	std::string D;
	int n = 1 + t.range(0, 4);
	for (int i = 0; i < n; i++) {
		bool hdr; std::string s = gen_input(t, hdr);
		Exact e(s);
		auto want = ref::decode(s, hdr);
		if (t.chance(60)) {   // whatever the object held before
			if (t.flip()) { fstrm_control_reset(c); D += "reset "; }
			if (t.chance(80)) { (void)fstrm_control_set_type(c, (fstrm_control_type)(1 + t.range(0, 4))); D += "set_type "; }
			for (int k = t.range(0, 3); k > 0; k--) { Exact x(gen_ct(t)); (void)fstrm_control_add_field_content_type(c, x.p, x.n); D += "add "; }
		}
		fstrm_res r = fstrm_control_decode(c, e.p, e.n, hdr ? FSTRM_CONTROL_FLAG_WITH_HEADER : 0);
		D += strf("[%s%s %s] ", hdr ? "hdr " : "", want ? "ok" : "bad", ref::hex(s, 40).c_str());
		CHECK(e.str() == s, "decode modified its input");
		CHECK((r == fstrm_res_success) == want.has_value(), "decode(header=%d, %zu bytes %s) returned %d, expected %s", hdr, s.size(), ref::hex(s, 80).c_str(), r, want ? "success" : "failure");
		if (want) {
			fstrm_control_type ty{};
			CHECK(fstrm_control_get_type(c, &ty) == fstrm_res_success && (uint32_t)ty == want->type, "wrong type after decode of %s", ref::hex(s).c_str());
			CHECK(get_cts(c) == want->cts, "wrong content types after decode of %s", ref::hex(s, 80).c_str());
			const uint8_t *p; size_t l;
			CHECK(fstrm_control_get_field_content_type(c, want->cts.size(), &p, &l) != fstrm_res_success, "get_field_content_type beyond the last field succeeded");
			// decode state fully replaces what was there: re-encoding gives the same payload
			size_t sz = 0;
			std::string pl = hdr ? s.substr(8) : s;
			if (fstrm_control_encoded_size(c, &sz, 0) == fstrm_res_success) {
				Exact b(sz); size_t len = sz;
				CHECK(fstrm_control_encode(c, b.p, &len, 0) == fstrm_res_success && b.str() == pl, "re-encoding a decoded frame differs");
			} else fail("re-encoding a decoded frame failed");
			if (!want->cts.empty()) nontrivial();
			label(want->cts.size() > 1 ? "accepted, >1 content type" : want->cts.size() ? "accepted, 1 content type" : "accepted, no content type");
			if (pl.size() > 504) label("accepted, payload 505..512");
		} else {
			size_t o = hdr ? 8 : 0;
			if (s.size() >= o + 4 && ref::rd32(s, o) >= 1 && ref::rd32(s, o) <= 5) { nontrivial(); label("rejected, known type"); }
			else label("rejected, other");
		}
	}
	fstrm_control_destroy(&c);
	CHECK(heap_live() == 0, "%zu blocks leaked", heap_live());
	describe(D);
}
