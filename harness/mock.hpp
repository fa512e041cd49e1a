// A recording fstrm_rdwr transport with a scripted peer and injected faults.
#pragma once
#include "fs.hpp"
#include <functional>
#include <set>
#include <sys/mman.h>
#include <unistd.h>

struct Mock {
	struct Conn { std::string out; size_t consumed = 0; bool closed = false; };
	bool can_read, can_write;
	// called when the reader side wants bytes: full input available so far for
	// this connection, given what has been written on it
	std::function<std::string(int conn, const std::string &out)> peer;
	const std::string *input = nullptr;   // instead of peer: the same bytes on every connection
	// fault plan: set of indices (per operation kind) that fail
	std::set<int> fail_open, fail_close, fail_read, fail_write;
	std::set<int> fail_ops;       // indices over all operations (open/close/read/write)
	size_t partial = 0;           // bytes a failing write still emits
	fstrm_res read_fault = fstrm_res_failure, fault = fstrm_res_failure;   // what failing operations return
	std::vector<Conn> conns;
	int n_open = 0, n_close = 0, n_read = 0, n_write = 0, n_destroy = 0;
	bool is_open = false;
	int faults_hit = 0;           // operations that returned non-success
	int close_faults = 0;
	int ops = 0;
	std::string bad;              // first protocol violation of the library
	int max_iov = 0;

	Mock(bool r, bool w) : can_read(r), can_write(w) {}
	void oops(const std::string &s) { if (bad.empty()) bad = s; }
	Conn &cur() { return conns.back(); }
	std::string out() const { return conns.empty() ? "" : conns.back().out; }

	fstrm_res op_open() {
		bool f = fail_ops.count(ops++);
		if (n_destroy) oops("open after destroy");
		if (is_open) oops("open called on an open transport");
		int k = n_open++;
		if (f || fail_open.count(k)) { faults_hit++; return fault; }
		is_open = true; conns.emplace_back();
		return fstrm_res_success;
	}
	fstrm_res op_close() {
		bool f = fail_ops.count(ops++);
		if (n_destroy) oops("close after destroy");
		if (!is_open) oops("close called on a closed transport");
		int k = n_close++;
		is_open = false;
		if (!conns.empty()) cur().closed = true;
		if (f || fail_close.count(k)) { faults_hit++; close_faults++; return fault; }
		return fstrm_res_success;
	}
	fstrm_res op_read(void *p, size_t n) {
		bool f = fail_ops.count(ops++);
		if (n_destroy) oops("read after destroy");
		if (!is_open) { oops("read on a closed transport"); faults_hit++; return fstrm_res_failure; }
		int k = n_read++;
		if (f || fail_read.count(k)) { faults_hit++; return read_fault; }
		std::string made;
		if (!input && peer) made = peer((int)conns.size() - 1, cur().out);
		const std::string &in = input ? *input : made;
		if (in.size() < cur().consumed || in.size() - cur().consumed < n) { faults_hit++; return n == 0 ? fstrm_res_success : fstrm_res_stop; }
		memcpy(p, in.data() + cur().consumed, n);
		cur().consumed += n;
		return fstrm_res_success;
	}
	fstrm_res op_write(const struct iovec *iov, int cnt) {
		bool f = fail_ops.count(ops++);
		if (n_destroy) oops("write after destroy");
		if (!is_open) { oops("write on a closed transport"); faults_hit++; return fstrm_res_failure; }
		if (cnt < 1) oops(strf("write with iovcnt %d", cnt));
		if (cnt > max_iov) max_iov = cnt;
		int k = n_write++;
		if (f || fail_write.count(k)) {
			faults_hit++;
			size_t left = partial;
			for (int i = 0; i < cnt && left; i++) { size_t c = std::min(left, iov[i].iov_len); cur().out.append((const char *)iov[i].iov_base, c); left -= c; }
			return fault;
		}
		for (int i = 0; i < cnt; i++) {
			if (iov[i].iov_len > (1u << 28)) { oops("absurd iov_len"); return fstrm_res_failure; }
			cur().out.append((const char *)iov[i].iov_base, iov[i].iov_len);
		}
		return fstrm_res_success;
	}
	static Mock *self(void *o) { return (Mock *)o; }
	struct fstrm_rdwr *rdwr() {
		struct fstrm_rdwr *r = fstrm_rdwr_init(this);
		fstrm_rdwr_set_destroy(r, [](void *o) -> fstrm_res { auto m = self(o); m->ops++; if (m->n_destroy++) m->oops("destroyed twice"); if (m->is_open) m->oops("destroyed while open"); return fstrm_res_success; });
		fstrm_rdwr_set_open(r, [](void *o) -> fstrm_res { return self(o)->op_open(); });
		fstrm_rdwr_set_close(r, [](void *o) -> fstrm_res { return self(o)->op_close(); });
		if (can_read) fstrm_rdwr_set_read(r, [](void *o, void *p, size_t n) -> fstrm_res { return self(o)->op_read(p, n); });
		if (can_write) fstrm_rdwr_set_write(r, [](void *o, const struct iovec *v, int n) -> fstrm_res { return self(o)->op_write(v, n); });
		return r;
	}
	void check() { CHECK(bad.empty(), "transport misuse: %s", bad.c_str()); }
};

struct WriterH {          // owns an fstrm_writer
	struct fstrm_writer *w = nullptr;
	~WriterH() { if (w) fstrm_writer_destroy(&w); }
};
struct ReaderH {
	struct fstrm_reader *r = nullptr;
	~ReaderH() { if (r) fstrm_reader_destroy(&r); }
};
// Writer options from a list; exercises that the library keeps its own copies.
inline struct fstrm_writer_options *wopts(const std::vector<std::string> &cts) {
	auto *o = fstrm_writer_options_init();
	for (auto &c : cts) {
		Exact e(c);
		fstrm_res r = fstrm_writer_options_add_content_type(o, e.p, e.n);
		memset(e.p, 0xEE, e.n);
		if (r != fstrm_res_success) { fstrm_writer_options_destroy(&o); fail("writer_options_add_content_type(%zu bytes) failed", c.size()); }
	}
	return o;
}
inline struct fstrm_reader_options *ropts(const std::vector<std::string> &cts, size_t max = 0) {
	auto *o = fstrm_reader_options_init();
	for (auto &c : cts) {
		Exact e(c);
		fstrm_res r = fstrm_reader_options_add_content_type(o, e.p, e.n);
		memset(e.p, 0xEE, e.n);
		if (r != fstrm_res_success) { fstrm_reader_options_destroy(&o); fail("reader_options_add_content_type(%zu bytes) failed", c.size()); }
	}
	if (max && fstrm_reader_options_set_max_frame_size(o, max) != fstrm_res_success) { fstrm_reader_options_destroy(&o); fail("set_max_frame_size(%zu) failed", max); }
	return o;
}
inline struct fstrm_writer *mk_writer(Mock &m, const std::vector<std::string> &cts, bool null_opts = false) {
	auto *o = null_opts ? nullptr : wopts(cts);
	auto *rd = m.rdwr();
	auto *w = fstrm_writer_init(o, &rd);
	if (o) fstrm_writer_options_destroy(&o);
	if (!w) { fstrm_rdwr_destroy(&rd); fail("fstrm_writer_init failed"); }
	if (rd) fail("fstrm_writer_init left the rdwr with the caller");
	return w;
}
inline struct fstrm_reader *mk_reader(Mock &m, const std::vector<std::string> &cts, size_t max = 0, bool null_opts = false) {
	auto *o = null_opts ? nullptr : ropts(cts, max);
	auto *rd = m.rdwr();
	auto *r = fstrm_reader_init(o, &rd);
	if (o) fstrm_reader_options_destroy(&o);
	if (!r) { fstrm_rdwr_destroy(&rd); fail("fstrm_reader_init failed"); }
	if (rd) fail("fstrm_reader_init left the rdwr with the caller");
	return r;
}
inline std::vector<std::string> gen_cts(Tape &t, size_t max) {
	std::vector<std::string> v; size_t n = t.range(0, max);
	bool many = max > 2 && t.chance(16); if (many) n = t.range(0, 63);   // up to what fits in a frame
	for (size_t i = 0; i < n; i++) v.push_back(many ? gen_short_ct(t) : gen_ct(t, false));
	return v;
}
inline std::string show(const std::vector<std::string> &v) { std::string r = "["; for (auto &x : v) r += show_ct(x) + " "; return r + "]"; }
inline std::string gen_payload(Tape &t, size_t big) {
	switch (t.weighted({10, 4, 3, 2, 1})) {
	case 0: return t.fill(1 + t.range(0, 40));
	case 1: { std::string s(1 + t.range(0, 12), 0); return s; }        // looks like escapes
	case 2: { ref::Ctl c; c.type = 1 + t.range(0, 4); return ref::encode(c) + ref::encode(c).substr(0, t.range(0, 12)); } // looks like control frames
	case 3: return t.fill(1 + t.range(0, 3000));
	default: return t.fill(std::max<size_t>(1, t.len(big)));
	}
}

// Payloads of up to 2^32-1 bytes without the memory: a private mapping, of
// which only the pages with the marks below are ever touched.
struct Huge {
	static uint8_t *map() {
		static uint8_t *p = nullptr;
		if (!p) { p = (uint8_t *)mmap(nullptr, 1ull << 32, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(2); } }
		return p;
	}
	static size_t len(Tape &t) {
		static const size_t at[] = {1u << 24, 1u << 28, 1u << 31, UINT32_MAX, 3000000, 1u << 25, 3u << 30};
		size_t v = at[t.range(0, 6)], d = t.range(0, 40);
		if (t.chance(40)) v = t.range(1u << 21, UINT32_MAX);
		return v == UINT32_MAX ? v - (t.flip() ? 0 : d) : v + d - 20;
	}
	// marks: 16 bytes at the start, at 2^24, at 2^31 and at the end
	static std::vector<size_t> marks(size_t n) { std::vector<size_t> v{0, n - 16}; for (size_t a : {(size_t)1 << 24, (size_t)1 << 31}) if (n > a + 64) v.push_back(a - 8); return v; }
};
