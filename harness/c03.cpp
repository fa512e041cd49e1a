// C03: content type matching.
#include "fs.hpp"
const PropInfo prop_info = {
	"C03",
	"A case builds (by API calls or by decoding) a control frame with 0..6 content types and asks for several matches (equal, prefix, extension, case variant, embedded NUL, empty, unset). Non-trivial: the frame carries a content type.",
	"exploration", 1500000, 60000000, 500, 8, false, 30,
	{}
};
void prop_setup() {}
void prop(Tape &t) {
	heap_reset();
	struct fstrm_control *c = fstrm_control_init();
	struct G { struct fstrm_control **c; ~G() { fstrm_control_destroy(c); } } g{&c};
	ref::Ctl m; m.type = 1 + t.range(0, 4);
	bool many = t.chance(30);
	size_t k = many ? t.range(6, 62) : t.range(0, 6);
	if (many) m.type = t.flip() ? ref::READY : ref::ACCEPT;
	if (t.flip()) {
		CHECK(fstrm_control_set_type(c, (fstrm_control_type)m.type) == fstrm_res_success, "set_type");
		for (size_t i = 0; i < k; i++) {
			auto ct = many ? gen_short_ct(t) + (t.chance(60) ? strf("%zu", i) : "") : gen_ct(t, false); Exact e(ct);
			CHECK(fstrm_control_add_field_content_type(c, e.p, e.n) == fstrm_res_success, "add %zu", e.n);
			m.cts.push_back(ct);
		}
		if (t.chance(40)) { // change the type afterwards
			m.type = 1 + t.range(0, 4);
			CHECK(fstrm_control_set_type(c, (fstrm_control_type)m.type) == fstrm_res_success, "set_type");
		}
	} else {
		k = ref::ct_limit(m.type, k);
		for (size_t i = 0; i < k; i++) { auto ct = many ? gen_short_ct(t) + (t.chance(60) ? strf("%zu", i) : "") : gen_ct(t, false); m.cts.push_back(ct); if (!ref::encodable(m)) { m.cts.pop_back(); break; } }
		Exact e(ref::payload(m));
		CHECK(fstrm_control_decode(c, e.p, e.n, 0) == fstrm_res_success, "decode %s", show(m).c_str());
	}
	std::string D = show(m);
	int n = 1 + t.range(0, 5);
	for (int i = 0; i < n; i++) {
		std::string q; bool null = false;
		switch (t.weighted({4, 3, 2, 1, 1, 1})) {
		case 0: if (m.cts.empty()) q = gen_ct(t); else q = t.pick(m.cts); break;
		case 1: if (!m.cts.empty()) { q = t.pick(m.cts); if (q.empty() || t.flip()) q += t.flip() ? "\0" : "x"; else q.pop_back(); } break;
		case 2: q = gen_ct(t); break;
		case 3: if (!m.cts.empty()) { q = t.pick(m.cts); if (!q.empty()) q[t.range(0, q.size() - 1)] ^= 0x20; } break;
		case 4: null = true; break;
		default: break; // empty
		}
		Exact e(q);
		bool want = ref::matches(m, null ? nullptr : &q);
		fstrm_res r = fstrm_control_match_field_content_type(c, null ? nullptr : e.p, null ? 0 : e.n);
		CHECK((r == fstrm_res_success) == want, "match(%s, %s) returned %d, expected %s", show(m).c_str(), null ? "NULL" : show_ct(q).c_str(), r, want ? "success" : "failure");
		D += strf(" ~%s=%d", null ? "NULL" : show_ct(q).c_str(), want);
		label(want ? "match" : "no match");
	}
	if (!m.cts.empty()) nontrivial();
	fstrm_control_destroy(&c);
	CHECK(heap_live() == 0, "%zu blocks leaked", heap_live());
	describe(D);
}
