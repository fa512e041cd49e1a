// Independent reference model of the Frame Streams wire format, written from
// the format description in fstrm/control.h (not from the code under test).
#pragma once
#include "engine.hpp"
#include <optional>
#include <string>
#include <vector>
#include <cstdint>

namespace ref {
enum { ACCEPT = 1, START = 2, STOP = 3, READY = 4, FINISH = 5 };
constexpr size_t CTL_MAX = 512, CT_MAX = 256;

inline std::string be32(uint32_t v) { char b[4] = {(char)(v >> 24), (char)(v >> 16), (char)(v >> 8), (char)v}; return std::string(b, 4); }
inline uint32_t rd32(const std::string &s, size_t o) { auto p = (const unsigned char *)s.data() + o; return (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }

struct Ctl {
	uint32_t type = 0;
	std::vector<std::string> cts;
	bool operator==(const Ctl &o) const { return type == o.type && cts == o.cts; }
};

// How many content type fields a frame of this type carries.
inline size_t ct_limit(uint32_t type, size_t n) {
	if (type == STOP || type == FINISH) return 0;
	if (type == START) return n > 1 ? 1 : n;
	return n;
}
inline std::string payload(const Ctl &c) {
	std::string s = be32(c.type);
	for (size_t i = 0; i < ct_limit(c.type, c.cts.size()); i++) s += be32(1) + be32(c.cts[i].size()) + c.cts[i];
	return s;
}
inline bool encodable(const Ctl &c) {
	for (size_t i = 0; i < ct_limit(c.type, c.cts.size()); i++) if (c.cts[i].size() > CT_MAX) return false;
	return payload(c).size() <= CTL_MAX;
}
inline std::string frame(const std::string &pl) { return be32(0) + be32(pl.size()) + pl; }
inline std::string encode(const Ctl &c) { return frame(payload(c)); }
inline std::string data(const std::string &d) { return be32(d.size()) + d; }

// Decode a control frame payload.
inline std::optional<Ctl> decode_payload(const std::string &s) {
	if (s.size() > CTL_MAX || s.size() < 4) return {};
	Ctl c; c.type = rd32(s, 0);
	if (c.type < 1 || c.type > 5) return {};
	size_t o = 4;
	while (o < s.size()) {
		if (s.size() - o < 8) return {};
		uint32_t ft = rd32(s, o), fl = rd32(s, o + 4);
		o += 8;
		if (ft != 1 || fl > CT_MAX || fl > s.size() - o) return {};
		c.cts.push_back(s.substr(o, fl));
		o += fl;
	}
	if (c.cts.size() > ct_limit(c.type, c.cts.size())) return {};
	return c;
}
inline std::optional<Ctl> decode(const std::string &s, bool header) {
	if (!header) return decode_payload(s);
	if (s.size() < 8 || rd32(s, 0) != 0 || rd32(s, 4) != s.size() - 8) return {};
	return decode_payload(s.substr(8));
}
inline bool matches(const Ctl &c, const std::string *m) {
	if (c.type == STOP || c.type == FINISH) return false;
	size_t n = ct_limit(c.type, c.cts.size());
	if (n == 0) return true;
	if (!m) return false;
	for (size_t i = 0; i < n; i++) if (c.cts[i] == *m) return true;
	return false;
}
// First of `mine` that the frame matches.
struct Stream {          // a parsed stream
	bool ok = false;     // START .. STOP and nothing else
	Ctl start;
	std::vector<std::string> frames;
	std::string err;
	size_t consumed = 0;
};
// Parse one uni-directional stream starting at offset o; strict.
inline Stream parse(const std::string &s, size_t o = 0) {
	Stream r;
	auto ctl = [&](Ctl &out) -> bool {
		if (s.size() - o < 8) { r.err = "truncated control header"; return false; }
		uint32_t n = rd32(s, o + 4);
		if (n > CTL_MAX || n > s.size() - o - 8) { r.err = "bad control length"; return false; }
		auto c = decode_payload(s.substr(o + 8, n));
		if (!c) { r.err = "malformed control frame"; return false; }
		out = *c; o += 8 + n; return true;
	};
	if (s.size() < o + 4 || rd32(s, o) != 0) { r.err = "no START"; return r; }
	if (!ctl(r.start)) return r;
	if (r.start.type != START) { r.err = "first frame is not START"; return r; }
	for (;;) {
		if (s.size() - o < 4) { r.err = "stream ends without STOP"; r.consumed = o; return r; }
		uint32_t n = rd32(s, o);
		if (n) {
			if (n > s.size() - o - 4) { r.err = "truncated data frame"; r.consumed = o; return r; }
			r.frames.push_back(s.substr(o + 4, n)); o += 4 + n;
		} else {
			Ctl c; if (!ctl(c)) return r;
			if (c.type != STOP) { r.err = "unexpected control frame"; return r; }
			r.ok = true; r.consumed = o; return r;
		}
	}
}
inline std::string hex(const std::string &s, size_t max = 48) {
	std::string r; char b[4];
	for (size_t i = 0; i < s.size() && i < max; i++) { snprintf(b, sizeof b, "%02x", (unsigned char)s[i]); r += b; }
	if (s.size() > max) r += strf("..(%zu)", s.size());
	return r;
}
} // namespace ref
