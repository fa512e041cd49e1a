// C01: control frame encoding is exact, bounded and reversible.
#include "fs.hpp"
const PropInfo prop_info = {
	"C01",
	"A case is a random history of set_type/add_content_type/reset/decode calls on one control object, with an encode of every reached state (both header modes, several buffer sizes) compared with an independent encoder. Non-trivial: at least one successful encode of a frame with a content type field, or a rejection because of the 256/512 byte limits.",
	"exploration", 700000, 30000000, 700, 8, false, 30,
	{"The reference encoder in harness/ref.hpp states the wire format of fstrm/control.h."}
};
void prop_setup() {}

static std::string D;
static void check_encode(struct fstrm_control *c, const ref::Ctl &m, Tape &t) {
	for (int hdr = 0; hdr < 2; hdr++) {
		uint32_t flags = hdr ? FSTRM_CONTROL_FLAG_WITH_HEADER : 0;
		std::string want = hdr ? ref::encode(m) : ref::payload(m);
		bool ok = ref::encodable(m);
		size_t sz = 0xdeadbeef;
		fstrm_res r = fstrm_control_encoded_size(c, &sz, flags);
		CHECK((r == fstrm_res_success) == ok, "encoded_size(%s, header=%d) returned %d, expected %s", show(m).c_str(), hdr, r, ok ? "success" : "failure");
		if (ok) CHECK(sz == want.size(), "encoded_size(%s, header=%d) = %zu, expected %zu", show(m).c_str(), hdr, sz, want.size());
		size_t cap;
		switch (t.weighted({4, 2, 2, 2, 1})) {
		case 0: cap = want.size(); break;
		case 1: cap = want.size() - 1; break;
		case 2: cap = want.size() + t.range(1, 40); break;
		case 3: cap = t.range(0, want.size()); break;
		default: cap = 512; break;
		}
		Exact buf(cap);
		size_t len = cap;
		r = fstrm_control_encode(c, buf.p, &len, flags);
		if (!ok || cap < want.size()) {
			CHECK(r != fstrm_res_success, "encode(%s, header=%d) into %zu bytes succeeded, need %zu%s", show(m).c_str(), hdr, cap, want.size(), ok ? "" : " (not encodable)");
			if (!ok) { label("rejected: over limit"); nontrivial(); } else label("rejected: buffer too small");
			continue;
		}
		CHECK(r == fstrm_res_success, "encode(%s, header=%d) into %zu bytes failed, need %zu", show(m).c_str(), hdr, cap, want.size());
		CHECK(len == want.size(), "encode reported %zu bytes, expected %zu", len, want.size());
		std::string got((char *)buf.p, len);
		CHECK(got == want, "encode(%s, header=%d) gave %s expected %s", show(m).c_str(), hdr, ref::hex(got).c_str(), ref::hex(want).c_str());
		for (size_t i = len; i < cap; i++) CHECK(buf.p[i] == 0xA5, "encode wrote past the encoded frame (byte %zu)", i);
		// back again
		Exact in(want);
		struct fstrm_control *d = fstrm_control_init();
		r = fstrm_control_decode(d, in.p, in.n, flags);
		bool good = r == fstrm_res_success;
		fstrm_control_type ty{};
		std::vector<std::string> cts;
		if (good) { good = fstrm_control_get_type(d, &ty) == fstrm_res_success; cts = get_cts(d); }
		fstrm_control_destroy(&d);
		CHECK(good, "decode of an encoded frame %s failed", show(m).c_str());
		ref::Ctl e = m; e.cts.resize(ref::ct_limit(m.type, m.cts.size()));
		CHECK((uint32_t)ty == e.type && cts == e.cts, "round trip of %s lost information", show(m).c_str());
		if (!e.cts.empty()) nontrivial();
		if (e.cts.size() > 1) label("several content types");
		if (m.cts.size() > e.cts.size()) label("surplus content types dropped");
		if (want.size() - (hdr ? 8 : 0) > 504) label("payload 505..512");
	}
}

void prop(Tape &t) {
	heap_reset();
	D.clear();
	struct fstrm_control *c = fstrm_control_init();
	struct G { struct fstrm_control **c; ~G() { fstrm_control_destroy(c); } } g{&c};
	ref::Ctl m; bool typed = false;
	int n = 1 + t.range(0, 9); bool many = t.chance(16); if (many) n = t.range(20, 66);
	for (int i = 0; i < n; i++) {
		switch (t.weighted({4, many ? 90u : 8u, 1, 2, 1})) {
		case 0: {
			uint32_t ty = t.chance(40) ? (uint32_t)t.raw(t.flip() ? 1 : 4) : 1 + t.range(0, 4);
			bool ok = ty >= 1 && ty <= 5;
			fstrm_res r = fstrm_control_set_type(c, (fstrm_control_type)ty);
			CHECK((r == fstrm_res_success) == ok, "set_type(%u) returned %d", ty, r);
			static const char *names[] = {"UNKNOWN", "ACCEPT", "START", "STOP", "READY", "FINISH"};
			const char *nm = fstrm_control_type_to_str((fstrm_control_type)ty), *fn = fstrm_control_field_type_to_str((fstrm_control_field)ty);
			CHECK(nm && !strcmp(nm, (std::string("FSTRM_CONTROL_") + names[ok ? ty : 0]).c_str()), "type %u is called %s", ty, nm ? nm : "(null)");
			CHECK(fn && !strcmp(fn, ty == 1 ? "FSTRM_CONTROL_FIELD_CONTENT_TYPE" : "FSTRM_CONTROL_FIELD_UNKNOWN"), "field type %u is called %s", ty, fn ? fn : "(null)");
			if (ok) { m.type = ty; typed = true; }
			D += strf("set_type %u; ", ty);
			break;
		}
		case 1: {
			std::string ct = many ? gen_short_ct(t) : gen_ct(t);
			Exact e(ct);
			fstrm_res r = fstrm_control_add_field_content_type(c, e.p, e.n);
			bool ok = ct.size() <= ref::CT_MAX;
			CHECK((r == fstrm_res_success) == ok, "add_field_content_type of %zu bytes returned %d", ct.size(), r);
			memset(e.p, 0, e.n);    // the library made a copy
			if (ok) m.cts.push_back(ct);
			D += "add " + show_ct(ct) + "; ";
			break;
		}
		case 2: fstrm_control_reset(c); m = {}; typed = false; D += "reset; "; break;
		case 3: { // decode some valid frame into the object
			ref::Ctl f; f.type = 1 + t.range(0, 4);
			bool many = t.chance(30);
			size_t k = ref::ct_limit(f.type, many ? t.range(4, 62) : t.range(0, 4));
			for (size_t j = 0; j < k; j++) f.cts.push_back(many ? gen_short_ct(t) : gen_ct(t, false));
			if (!ref::encodable(f)) break;
			bool hdr = t.flip();
			Exact e(hdr ? ref::encode(f) : ref::payload(f));
			CHECK(fstrm_control_decode(c, e.p, e.n, hdr ? FSTRM_CONTROL_FLAG_WITH_HEADER : 0) == fstrm_res_success, "decode of %s failed", show(f).c_str());
			m = f; typed = true; D += "decode " + show(f) + "; ";
			break;
		}
		default: { // pad up to the limit
			if (!typed) break;
			size_t now = ref::payload(m).size();
			if (ref::ct_limit(m.type, 9) < 2 || now + 8 > 512 + 4) break;
			size_t room = 512 + t.range(0, 6) - 3;
			if (room < now + 8) break;
			size_t k = room - now - 8;
			if (k > 256) k = 256;
			std::string ct(k, 'p'); Exact e(ct);
			CHECK(fstrm_control_add_field_content_type(c, e.p, e.n) == fstrm_res_success, "add of %zu bytes failed", k);
			m.cts.push_back(ct); D += "pad; ";
		}
		}
		if (typed) check_encode(c, m, t);
		fstrm_control_type ty{};
		fstrm_res r = fstrm_control_get_type(c, &ty);
		CHECK((r == fstrm_res_success) == typed, "get_type returned %d", r);
		if (typed) CHECK((uint32_t)ty == m.type, "get_type gave %u expected %u", (unsigned)ty, m.type);
		if (typed) { auto e = m.cts; e.resize(ref::ct_limit(m.type, e.size())); CHECK(get_cts(c) == e, "content types read back differ for %s", show(m).c_str()); }
	}
	fstrm_control_destroy(&c);
	CHECK(c == nullptr, "destroy did not clear the pointer");
	CHECK(heap_live() == 0, "%zu blocks leaked", heap_live());
	describe(D);
}
