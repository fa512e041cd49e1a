// C headers of the library under test.
#pragma once
#include <sys/types.h>
#include <sys/uio.h>
extern "C" {
#include <fstrm.h>
}
#include "engine.hpp"
#include "ref.hpp"
#include "heap.hpp"
#include <memory>
#include <fcntl.h>
#include <unistd.h>

// A heap copy of exactly n bytes, so that AddressSanitizer sees any access
// outside it (also for n == 0).
// The lowest free descriptor: the same before and after if none was leaked.
inline int fd_probe() { int d = dup(0); if (d < 0) d = open("/dev/null", 0); else { close(d); return d; } close(d); return d; }
struct Exact {
	uint8_t *p; size_t n;
	explicit Exact(const std::string &s) : p(new uint8_t[s.size()]), n(s.size()) { if (n) memcpy(p, s.data(), n); }
	explicit Exact(size_t k, uint8_t v = 0xA5) : p(new uint8_t[k]), n(k) { memset(p, v, k); }
	Exact(const Exact &) = delete;
	~Exact() { delete[] p; }
	std::string str() const { return std::string((char *)p, n); }
};

// A content type drawn from a pool that makes equal, prefix-related, empty,
// NUL-carrying and over-long values likely.
inline std::string gen_ct(Tape &t, bool allow_long = true) {
	static const char *pool[] = {"protobuf:dnstap.Dnstap", "text", "tex", "textx", "TEXT", "a", "b", "\0a", "a\0b", "a\0c", ""};
	static const size_t lens[] = {22, 4, 3, 5, 4, 1, 1, 2, 3, 3, 0};
	switch (t.weighted({8, 3, 2, 1})) {
	case 0: { size_t i = t.range(0, 10); return std::string(pool[i], lens[i]); }
	case 1: return t.bytes(t.range(0, 6));
	case 2: { size_t n = t.range(0, 60); return t.fill(n); }
	default: {
		static const size_t big[] = {255, 256, 257, 254, 240, 248, 128, 300, 512, 100};
		size_t n = big[t.range(0, 9)];
		if (!allow_long && n > 256) n = 256;
		return std::string(n, "xyz"[t.range(0, 2)]);
	}
	}
}
inline std::string gen_short_ct(Tape &t) { size_t n = t.weighted({6, 3, 1}); std::string s; while (n--) s += "abAz\0~"[t.range(0, 5)]; return s; }
inline std::string show_ct(const std::string &s) {
	std::string r = "'";
	for (size_t i = 0; i < s.size() && i < 24; i++) { unsigned char c = s[i]; r += (c >= 32 && c < 127) ? std::string(1, c) : strf("\\x%02x", c); }
	if (s.size() > 24) r += strf("..(%zu)", s.size());
	return r + "'";
}
inline std::string show(const ref::Ctl &c) {
	std::string r = strf("{type=%u", c.type);
	for (auto &x : c.cts) r += " " + show_ct(x);
	return r + "}";
}
inline std::vector<std::string> get_cts(const struct fstrm_control *c) {
	std::vector<std::string> v; size_t n = 12345;
	CHECK(fstrm_control_get_num_field_content_type(c, &n) == fstrm_res_success, "get_num_field_content_type failed");
	for (size_t i = 0; i < n; i++) {
		const uint8_t *p = nullptr; size_t l = 0;
		CHECK(fstrm_control_get_field_content_type(c, i, &p, &l) == fstrm_res_success, "get_field_content_type(%zu of %zu) failed", i, n);
		v.emplace_back((const char *)p, l);
	}
	return v;
}
