// C29: a transport object calls the methods it was given, when and as documented.
#include "mock.hpp"
#include <memory>
const PropInfo prop_info = {
	"C29",
	"A case is a random history over one to four transport objects (some sharing one state object): methods are set and replaced at any time from two sets of implementations, and open, read, write, close and destroy are called in any state, with generated results of the methods (success, failure, stop, again, invalid) and generated buffers. A model predicts which method of which set is invoked with which arguments, and the result. Non-trivial: a failing read or write closed a transport that was opened again, or was used again, afterwards.",
	"exploration", 3000000, 100000000, 500, 8, false, 30,
	{"Opening a transport that is open already is not generated: nothing documents what it does.", "A transport without a close method does not fail a read or write: the close method is documented as required."}
};
void prop_setup() {}
namespace {
struct Call { int set; char m; void *obj; std::string data; size_t n; };
struct Obj { int dummy; };
std::vector<Call> calls; fstrm_res want_res, close_res; std::string feed;
template <int S> struct M {
	static fstrm_res open(void *o) { calls.push_back({S, 'o', o, "", 0}); return want_res; }
	static fstrm_res close(void *o) { calls.push_back({S, 'c', o, "", 0}); return close_res; }
	static fstrm_res destroy(void *o) { calls.push_back({S, 'd', o, "", 0}); return want_res; }
	static fstrm_res read(void *o, void *b, size_t n) {
		calls.push_back({S, 'r', o, "", n});
		if (n <= feed.size()) memcpy(b, feed.data(), want_res == fstrm_res_success ? n : n / 2);
		return want_res;
	}
	static fstrm_res write(void *o, const struct iovec *v, int n) {
		Call c{S, 'w', o, "", 0}; for (int i = 0; i < n; i++) { c.data.append((const char *)v[i].iov_base, v[i].iov_len); c.n += v[i].iov_len; }
		calls.push_back(c); return want_res;
	}
};
struct T { struct fstrm_rdwr *p = nullptr; void *obj = nullptr; int m[5] = {-1, -1, -1, -1, -1}; bool open = false; bool failed = false; };
fstrm_res some(Tape &t) { static const fstrm_res r[] = {fstrm_res_success, fstrm_res_failure, fstrm_res_stop, fstrm_res_again, fstrm_res_invalid}; return r[t.weighted({8, 3, 2, 1, 1})]; }
void set(T &x, int k, int s) {
	x.m[k] = s;
	switch (k) {
	case 0: fstrm_rdwr_set_open(x.p, s == 0 ? M<0>::open : s == 1 ? M<1>::open : nullptr); break;
	case 1: fstrm_rdwr_set_close(x.p, s == 0 ? M<0>::close : s == 1 ? M<1>::close : nullptr); break;
	case 2: fstrm_rdwr_set_read(x.p, s == 0 ? M<0>::read : s == 1 ? M<1>::read : nullptr); break;
	case 3: fstrm_rdwr_set_write(x.p, s == 0 ? M<0>::write : s == 1 ? M<1>::write : nullptr); break;
	default: fstrm_rdwr_set_destroy(x.p, s == 0 ? M<0>::destroy : s == 1 ? M<1>::destroy : nullptr);
	}
}
std::string show(const std::vector<Call> &v) { std::string s; for (auto &c : v) s += strf(" %c%d", c.m, c.set); return s.empty() ? " none" : s; }
// the calls made must be exactly these methods of this transport
void same(const T &x, const char *what, const std::string &ms) {
	bool ok = calls.size() == ms.size();
	for (size_t i = 0; ok && i < ms.size(); i++) {
		int k = ms[i] == 'o' ? 0 : ms[i] == 'c' ? 1 : ms[i] == 'r' ? 2 : ms[i] == 'w' ? 3 : 4;
		ok = calls[i].m == ms[i] && calls[i].set == x.m[k] && calls[i].obj == x.obj;
	}
	CHECK(ok, "%s: the methods invoked are%s, expected \"%s\" of the transport's own methods and object", what, show(calls).c_str(), ms.c_str());
}
struct Guard { std::vector<T> &v; ~Guard() { for (auto &x : v) if (x.p) { set(x, 4, -1); fstrm_rdwr_destroy(&x.p); } } };
}
void prop(Tape &t) {
	std::string D; std::vector<T> v(t.range(1, 4)); Guard g{v}; static Obj objs[2]; bool nt = false;
	auto make = [&](T &x) {
		x = T(); switch (t.range(0, 3)) { case 0: x.obj = &objs[0]; break; case 1: x.obj = &objs[1]; break; case 2: x.obj = nullptr; break; default: x.obj = &x; }
		x.p = fstrm_rdwr_init(x.obj); CHECK(x.p, "fstrm_rdwr_init failed");
		unsigned mask = t.chance(160) ? 31 : t.byte(); for (int k = 0; k < 5; k++) if (mask >> k & 1) set(x, k, t.range(0, 1));
	};
	for (auto &x : v) make(x);
	unsigned n = t.len(60) + 4;
	for (unsigned i = 0; i < n && !t.exhausted(); i++) {
		size_t q = t.range(0, v.size() - 1); T &x = v[q]; calls.clear(); want_res = some(t); close_res = fstrm_res_success;
		switch (t.weighted({6, 4, 8, 8, 2, 1})) {
		case 0: {   // open
			if (x.open) break;
			fstrm_res r = fstrm_rdwr_open(x.p); D += strf(" open(%zu)=%d/%d", q, (int)want_res, (int)r);
			same(x, "open", x.m[0] < 0 ? "" : "o");
			CHECK(r == (x.m[0] < 0 ? fstrm_res_failure : want_res), "open returns %d, the open method %s", (int)r, x.m[0] < 0 ? "is missing" : strf("returned %d", (int)want_res).c_str());
			x.open = r == fstrm_res_success; if (x.open && x.failed) nt = true;
			break;
		}
		case 1: {   // close
			close_res = want_res; fstrm_res r = fstrm_rdwr_close(x.p); D += strf(" close(%zu)=%d/%d", q, (int)want_res, (int)r);
			if (x.m[1] < 0) { same(x, "close", ""); CHECK(r == fstrm_res_failure, "closing a transport without a close method returns %d", (int)r); break; }
			same(x, "close", x.open ? "c" : "");
			CHECK(r == (x.open ? want_res : fstrm_res_success), "close of %s transport returns %d", x.open ? "an open" : "a closed", (int)r);
			x.open = false; break;
		}
		case 2: case 3: {   // read, write (the second half of each pair decides)
			bool rd = t.flip(); int k = rd ? 2 : 3; size_t len = t.chance(40) ? t.len(3000) : t.range(0, 20); close_res = some(t);
			if (x.m[1] < 0 && want_res != fstrm_res_success) set(x, 1, 0);   // a close method is documented as required
			fstrm_res r; std::string data = t.fill(len); 
			if (rd) {
				feed = data; std::unique_ptr<char[]> b(new char[len + 1]); memset(b.get(), 0x5a, len + 1);
				r = fstrm_rdwr_read(x.p, b.get(), len);
				if (x.open && x.m[2] >= 0) {
					CHECK(calls.size() && calls[0].m == 'r' && calls[0].n == len, "read of %zu bytes: the read method is %s", len, calls.empty() ? "not invoked" : strf("asked for %zu", calls[0].n).c_str());
					if (r == fstrm_res_success) CHECK(std::string(b.get(), len) == data, "read: the caller's buffer does not hold what the read method delivered");
				} else CHECK(std::string(b.get(), len) == std::string(len, 0x5a), "a read that was refused wrote to the buffer");
			} else {
				int c = t.range(1, 4); std::vector<std::string> parts(c); size_t at = 0;
				for (int j = 0; j < c; j++) { size_t m = j == c - 1 ? len - at : t.range(0, len - at); parts[j] = data.substr(at, m); at += m; }
				std::vector<struct iovec> iv(c); for (int j = 0; j < c; j++) iv[j] = {parts[j].empty() ? nullptr : &parts[j][0], parts[j].size()};
				r = fstrm_rdwr_write(x.p, iv.data(), c);
				if (x.open && x.m[3] >= 0) CHECK(calls.size() && calls[0].m == 'w' && calls[0].data == data, "write: the write method is %s", calls.empty() ? "not invoked" : "given other data");
			}
			D += strf(" %s(%zu,%zu)=%d/%d", rd ? "read" : "write", q, len, (int)want_res, (int)r);
			if (!x.open || x.m[k] < 0) {
				same(x, rd ? "read" : "write", ""); CHECK(r == fstrm_res_failure, "%s on a transport that is not open, or has no such method, returns %d", rd ? "read" : "write", (int)r);
				if (x.failed) nt = true;
				break;
			}
			bool bad = want_res != fstrm_res_success;
			same(x, rd ? "read" : "write", std::string(1, rd ? 'r' : 'w') + (bad ? "c" : ""));
			CHECK(r == want_res, "%s returns %d, its method returned %d", rd ? "read" : "write", (int)r, (int)want_res);
			if (bad) { x.open = false; x.failed = true; label(rd ? "read failed" : "write failed"); }
			break;
		}
		case 4: { int k = t.range(0, 4), s = (int)t.range(0, 4); s = s == 4 ? -1 : s & 1; if (x.open && k == 1 && s < 0) s = 0; set(x, k, s); D += strf(" set(%zu,%d,%d)", q, k, s); break; }
		default: {
			fstrm_res r = fstrm_rdwr_destroy(&x.p); D += strf(" destroy(%zu)=%d", q, (int)r);
			CHECK(!x.p, "destroy leaves the caller's pointer set");
			same(x, "destroy", x.m[4] < 0 ? "" : "d");
			CHECK(r == (x.m[4] < 0 ? fstrm_res_success : want_res), "destroy returns %d, the destroy method %s", (int)r, x.m[4] < 0 ? "is missing" : strf("returned %d", (int)want_res).c_str());
			calls.clear(); r = fstrm_rdwr_destroy(&x.p); CHECK(r == fstrm_res_success && calls.empty(), "destroying NULL is not without effect");
			make(x);
		}
		}
	}
	describe(strf("%zu transports;", v.size()) + D);
	if (nt) nontrivial();
}
