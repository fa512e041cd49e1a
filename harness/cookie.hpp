// A file whose reads, writes and close fail as planned (--wrap=fopen).  Code
// that opens its files in another way gets what the file system gives it.
#pragma once
#include "engine.hpp"
#include <cerrno>
#include <cstdio>
#define COOKIE "/nonexistent-dir/cookie"
struct Cookie {
	std::string path, data;      // contents (reading), or what was written
	size_t off = 0, chunk = 0;   // bytes per read at most (0: unlimited)
	size_t err_at = SIZE_MAX;    // reading: fails at this offset
	int err = EIO;
	bool lasting = true;         // the error stays; otherwise it happens once
	int wfail = -1; size_t waccept = 0; bool close_fails = false;   // writing: index of the failing write, bytes it takes before
	int opens = 0, closes = 0, writes = 0, hits = 0; bool broken = false;
};
inline Cookie *cookie_file;      // in use if set
extern "C" FILE *__real_fopen(const char *, const char *);
extern "C" FILE *__wrap_fopen(const char *p, const char *mode) {
	if (!cookie_file || cookie_file->path != p) return __real_fopen(p, mode);
	cookie_file->opens++; cookie_file->off = 0;
	if (mode[0] == 'w') cookie_file->data.clear();
	cookie_io_functions_t f{};
	f.read = [](void *o, char *b, size_t n) -> ssize_t {
		auto &c = *(Cookie *)o;
		if (c.off >= c.err_at && (c.lasting || !c.hits)) { c.hits++; errno = c.err; return -1; }
		size_t k = std::min(n, c.data.size() - std::min(c.off, c.data.size()));
		if (c.off < c.err_at) k = std::min(k, c.err_at - c.off);
		if (c.chunk) k = std::min(k, c.chunk);
		memcpy(b, c.data.data() + c.off, k); c.off += k;
		return k;
	};
	f.write = [](void *o, const char *b, size_t n) -> ssize_t {
		auto &c = *(Cookie *)o;
		if (c.broken) { c.hits++; errno = c.err; return 0; }
		if (c.writes++ == c.wfail) { c.hits++; c.broken = c.lasting; size_t k = std::min(n ? n - 1 : 0, c.waccept); c.data.append(b, k); errno = c.err; return k; }
		c.data.append(b, n); return n;
	};
	f.close = [](void *o) -> int {
		auto &c = *(Cookie *)o; c.closes++;
		if (c.close_fails) { c.hits++; errno = c.err; return -1; }
		return 0;
	};
	return fopencookie(cookie_file, mode, f);
}
