// Arbitrary streams and what a reader must make of them.
#pragma once
#include "fs.hpp"
#include <set>
inline std::string gen_unknown(Tape &t) {
	static const uint32_t ty[] = {0, 6, 7, 0x100, 0xffffffff, 0x80000003, 0x03000000};
	size_t n = t.chance(20) ? 508 - t.range(0, 1) : t.range(0, 30);
	return ref::be32(ty[t.range(0, 6)]) + t.fill(n);
}
inline std::string gen_known(Tape &t, int force = 0) {
	ref::Ctl c; c.type = force ? force : 1 + t.range(0, 4);
	size_t n = t.range(0, 2);
	for (size_t i = 0; i < n; i++) c.cts.push_back(gen_ct(t, false));
	return ref::payload(c);
}
inline std::string gen_malformed(Tape &t) {
	std::string p = gen_known(t);
	switch (t.range(0, 5)) {
	case 0: p.resize(t.range(0, p.size() - 1)); break;
	case 1: p += t.fill(t.range(1, 9)); break;
	case 2: p += ref::be32(2) + ref::be32(0); break;                   // unknown field
	case 3: p += ref::be32(1) + ref::be32(t.range(257, 400)) + t.fill(400); break;
	case 4: p += ref::be32(1) + ref::be32(0xfffffff0); break;
	default: p = ref::be32(ref::STOP) + ref::be32(1) + ref::be32(3) + "abc";
	}
	return p;
}
struct Ev { enum { DATA, STOP, ERR, END } k; size_t off, len; };
struct Model {
	bool open_ok = false;
	ref::Ctl ready, start, accept;
	std::string out;          // what a two-way reader writes while opening
	bool open_wrote = false;
	std::vector<Ev> ev;
	std::set<size_t> early;      // event indices at which failure is also allowed
	bool ignorable = false;
	bool eof_or_err = false;
};
inline Model model(const std::string &s, bool two, const std::vector<std::string> &rct, size_t max) {
	Model m; size_t o = 0;
	auto ctl = [&](ref::Ctl &c, uint32_t want) {
		if (s.size() - o < 8 || ref::rd32(s, o) != 0) return false;
		uint32_t n = ref::rd32(s, o + 4);
		if (n > 512 || n > s.size() - o - 8) return false;
		auto d = ref::decode_payload(s.substr(o + 8, n));
		if (!d || d->type != want) return false;
		c = *d; o += 8 + n; return true;
	};
	if (two) {
		if (!ctl(m.ready, ref::READY)) return m;
		m.accept.type = ref::ACCEPT;
		for (auto &c : rct) if (ref::matches(m.ready, &c)) m.accept.cts.push_back(c);
		m.out = ref::encode(m.accept); m.open_wrote = true;
	}
	if (!ctl(m.start, ref::START)) return m;
	bool hit = rct.empty();
	for (auto &c : rct) hit |= ref::matches(m.start, &c);
	if (!hit) return m;
	m.open_ok = true;
	for (;;) {
		if (s.size() - o < 4) { m.ev.push_back({Ev::END, o, 0}); break; }
		uint32_t n = ref::rd32(s, o); o += 4;
		if (n) {
			if (n > max) { m.ev.push_back({Ev::ERR, o, 0}); break; }
			if (n > s.size() - o) { m.ev.push_back({Ev::END, o, 0}); break; }
			m.ev.push_back({Ev::DATA, o, n}); o += n;
			continue;
		}
		if (s.size() - o < 4) { m.ev.push_back({Ev::END, o, 0}); break; }
		uint32_t c = ref::rd32(s, o); o += 4;
		if (c > 512) { m.ev.push_back({Ev::ERR, o, 0}); break; }
		if (c > s.size() - o) { m.ev.push_back({Ev::END, o, 0}); break; }
		std::string p = s.substr(o, c); o += c;
		auto d = ref::decode_payload(p);
		if (d && d->type == ref::STOP) { m.ev.push_back({Ev::STOP, o, 0}); break; }
		if (d) { m.ignorable = true; m.early.insert(m.ev.size()); continue; }
		if (p.size() >= 4 && (ref::rd32(p, 0) < 1 || ref::rd32(p, 0) > 5)) { m.ignorable = true; continue; }
		m.ev.push_back({Ev::ERR, o, 0}); break;
	}
	m.eof_or_err = m.ev.back().k != Ev::STOP;
	return m;
}
