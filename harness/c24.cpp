// C24: TCP and UNIX socket writers connect exactly to the configured address.
#include "mock.hpp"
#include <arpa/inet.h>
#include <cerrno>
#include <fcntl.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>
const PropInfo prop_info = {
	"C24",
	"A case is a random history of option setter calls followed by creating and opening a TCP or UNIX-socket writer; socket() and connect() are interposed and the address they are given is compared with the one generated. Non-trivial: the generated address was valid and a connection attempt was compared, or an invalid one had to be refused.",
	"exploration", 2000000, 60000000, 300, 8, false, 30,
	{"Addresses are generated as bytes and written in several textual forms; malformed ones come from a fixed family of mutations. Ports are written in decimal without leading zeros, spaces or signs."}
};
void prop_setup() {}
static struct { bool on; std::vector<std::string> addrs; std::vector<int> fams, types; int errnum; std::set<int> fds; int bad_close; } S;
extern "C" {
int __real_socket(int, int, int); int __real_connect(int, const struct sockaddr *, socklen_t); int __real_close(int);
int __wrap_socket(int d, int ty, int pr) {
	if (!S.on) return __real_socket(d, ty, pr);
	S.fams.push_back(d); S.types.push_back(ty & 0xf);
	int fd = open("/dev/null", O_RDWR); S.fds.insert(fd); return fd;
}
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t l) {
	if (!S.on) return __real_connect(fd, a, l);
	S.addrs.emplace_back((const char *)a, l);
	errno = S.errnum; return -1;
}
int __wrap_close(int fd) { if (S.on && !S.fds.erase(fd)) S.bad_close++; return __real_close(fd); }
}
struct On { On() { S.on = true; S.addrs.clear(); S.fams.clear(); S.types.clear(); S.fds.clear(); S.bad_close = 0; S.errnum = ECONNREFUSED; } ~On() { S.on = false; for (int f : S.fds) __real_close(f); } };
struct Addr { std::string text; int fam = 0; std::string bytes; bool valid = true; };
static Addr gen_addr(Tape &t) {
	Addr a;
	switch (t.weighted({5, 5, 3})) {
	case 0: {
		a.fam = AF_INET; a.bytes = t.bytes(4);
		static const char *special[] = {"\x7f\0\0\1", "\0\0\0\0", "\xff\xff\xff\xff", "\x0a\0\0\1"};
		if (t.chance(60)) a.bytes = std::string(special[t.range(0, 3)], 4);
		auto u = (const unsigned char *)a.bytes.data();
		a.text = strf("%u.%u.%u.%u", u[0], u[1], u[2], u[3]);
		return a;
	}
	case 1: {
		a.fam = AF_INET6; a.bytes = t.bytes(16);
		int z = t.range(0, 8), z0 = t.range(0, 8 - z);
		if (t.flip()) for (int i = z0; i < z0 + z; i++) a.bytes[2 * i] = a.bytes[2 * i + 1] = 0;
		auto u = (const unsigned char *)a.bytes.data();
		std::vector<unsigned> g; for (int i = 0; i < 8; i++) g.push_back(u[2 * i] << 8 | u[2 * i + 1]);
		const char *f = t.flip() ? "%x" : t.flip() ? "%04x" : "%X";
		// optionally compress one run of zeros
		int best = -1, len = 0;
		for (int i = 0; i < 8; i++) { int j = i; while (j < 8 && !g[j]) j++; if (j - i > len) { best = i; len = j - i; } }
		bool v4 = t.chance(40);
		int end = v4 ? 6 : 8;
		if (best + len > end) len = end - best;
		bool comp = len > 0 && best < end && !t.chance(60);
		for (int i = 0; i < end;) {
			if (comp && i == best) { a.text += "::"; i += len; continue; }
			if (!a.text.empty() && a.text.back() != ':') a.text += ':';
			a.text += strf(f, g[i]); i++;
		}
		if (v4) { if (a.text.back() != ':') a.text += ':'; a.text += strf("%u.%u.%u.%u", u[12], u[13], u[14], u[15]); }
		return a;
	}
	default: {
		static const char *bad[] = {"", "localhost", "1.2.3", "256.1.1.1", "1.2.3.4.5", "1.2.3.4 ", " 1.2.3.4", "1.2.3.-4", ":::", "1::2::3", "gggg::", "12345::", "::1%lo x", "1.2.3.4:80", "[::1]", "1:2:3:4:5:6:7", "1:2:3:4:5:6:7:8:9", "1..2.3", "0x7f.0.0.1", "127.1", "/tmp/x", "::1.2.3"};
		a.text = bad[t.range(0, 21)]; a.valid = false; return a;
	}
	}
}
struct Port { std::string text; unsigned v = 0; bool valid = true; };
static Port gen_port(Tape &t) {
	Port p;
	switch (t.weighted({6, 3, 3, 4})) {
	case 0: p.v = t.range(1, 65535); p.text = std::to_string(p.v); break;
	case 1: { static const unsigned b[] = {1, 255, 256, 1023, 32767, 32768, 65534, 65535}; p.v = b[t.range(0, 7)]; p.text = std::to_string(p.v); break; }
	default: {
		static const char *bad[] = {"65536", "65537", "131072", "4294967296", "4294967376", "18446744073709551616", "99999999999999999999999", "http", "80x", "80 ", "8 0", "80.5", "x80", "-80", "80,81", "1e3", "", " ", "+", "-", "-0", "-1", "-18446744073709551536"};
		p.text = bad[t.range(0, 22)]; p.valid = false; break;
	}
	case 3: {   // a valid port, altered into an invalid one that equals it modulo a power of two, or that has a foreign character
		unsigned v = t.range(0, 65535); p.valid = false;
		switch (t.range(0, 4)) {
		case 0: p.text = std::to_string(v + 65536ull * (1 + t.range(0, 65535))); break;
		case 1: p.text = std::to_string(v + (1ull << t.range(32, 63))); break;
		case 2: p.text = "-" + std::to_string(0ull - (v ? v : 1)); break;   // what strtoul() negates into v
		case 3: p.text = "-" + std::to_string((t.flip() ? 1ull << 32 : 65536) - v); break;
		default: {
			static const char c[] = "-.,:/abgxXlLuU_#% \n\t\x7f\xff";
			p.text = std::to_string(1 + v % 65535); int at = t.range(0, p.text.size()); char ch = c[t.range(0, sizeof(c) - 2)];
			if (at == 0 && strchr(" \n\t", ch)) at = p.text.size();   // strtoul() skips leading blanks: not claimed either way
			p.text.insert(at, 1, ch);
		}
		}
		break;
	}
	}
	return p;
}
void prop(Tape &t) {
	heap_reset();
	std::string D;
	WriterH h; On on;
	if (t.weighted({3, 2}) == 0) {
		auto *o = fstrm_tcp_writer_options_init();
		Addr a; Port p; bool has_a = false, has_p = false;
		int n = 2 + t.range(0, 3);
		for (int i = 0; i < n; i++) {
			bool addr = i == 0 ? true : i == 1 ? false : t.flip();
			bool null = t.chance(10);
			if (addr) { a = gen_addr(t); std::string s = a.text; Exact e(s + '\0'); fstrm_tcp_writer_options_set_socket_address(o, null ? nullptr : (char *)e.p); has_a = !null; memset(e.p, 'x', e.n - 1); }
			else { p = gen_port(t); Exact e(p.text + '\0'); fstrm_tcp_writer_options_set_socket_port(o, null ? nullptr : (char *)e.p); has_p = !null; memset(e.p, 'x', e.n - 1); }
		}
		bool valid = has_a && has_p && a.valid && p.valid;
		D = strf("tcp '%s' port '%s'%s", has_a ? a.text.c_str() : "(none)", has_p ? p.text.c_str() : "(none)", valid ? "" : " (invalid)");
		h.w = fstrm_tcp_writer_init(o, nullptr);
		fstrm_tcp_writer_options_destroy(&o);
		CHECK(o == nullptr, "options_destroy left the pointer");
		CHECK((h.w != nullptr) == valid, "%s: writer %s", D.c_str(), h.w ? "was created" : "was refused");
		nontrivial();
		if (h.w) {
			CHECK(S.addrs.empty() && S.fams.empty(), "connected before open");
			CHECK(fstrm_writer_open(h.w) != fstrm_res_success, "open succeeded although connect fails");
			CHECK(S.addrs.size() == 1 && S.fams.size() == 1, "%zu connection attempts", S.addrs.size());
			CHECK(S.fams[0] == a.fam && S.types[0] == SOCK_STREAM, "socket family %d type %d", S.fams[0], S.types[0]);
			if (a.fam == AF_INET) {
				struct sockaddr_in sa; CHECK(S.addrs[0].size() == sizeof sa, "address length %zu", S.addrs[0].size()); memcpy(&sa, S.addrs[0].data(), sizeof sa);
				CHECK(sa.sin_family == AF_INET && ntohs(sa.sin_port) == p.v && !memcmp(&sa.sin_addr, a.bytes.data(), 4), "%s: connected to another address (port %u)", D.c_str(), ntohs(sa.sin_port));
			} else {
				struct sockaddr_in6 sa; CHECK(S.addrs[0].size() == sizeof sa, "address length %zu", S.addrs[0].size()); memcpy(&sa, S.addrs[0].data(), sizeof sa);
				CHECK(sa.sin6_family == AF_INET6 && !sa.sin6_scope_id && !sa.sin6_flowinfo && ntohs(sa.sin6_port) == p.v && !memcmp(&sa.sin6_addr, a.bytes.data(), 16), "%s: connected to another address (port %u)", D.c_str(), ntohs(sa.sin6_port));
			}
			label(a.fam == AF_INET ? "IPv4" : "IPv6");
		} else label("tcp refused");
	} else {
		auto *o = fstrm_unix_writer_options_init();
		std::string path; bool has = false;
		int n = 1 + t.range(0, 2);
		for (int i = 0; i < n; i++) {
			size_t len = t.chance(90) ? 100 + t.range(0, 20) : t.chance(20) ? 4096 : 1 + t.range(0, 99);
			path = t.flip() ? "/" : ""; while (path.size() < len) path += (char)('!' + t.byte() % 94);
			if (len > 2 && t.chance(40)) path[1] = (char)0xc3;
			path.resize(len);
			bool null = t.chance(10);
			Exact e(path + '\0'); fstrm_unix_writer_options_set_socket_path(o, null ? nullptr : (char *)e.p); has = !null; memset(e.p, 'x', e.n - 1);
		}
		bool valid = has && path.size() + 1 <= sizeof(((struct sockaddr_un *)0)->sun_path);
		D = strf("unix path of %zu bytes%s", path.size(), valid ? "" : " (invalid)");
		h.w = fstrm_unix_writer_init(o, nullptr);
		fstrm_unix_writer_options_destroy(&o);
		CHECK((h.w != nullptr) == valid, "%s: writer %s", D.c_str(), h.w ? "was created" : "was refused");
		nontrivial();
		if (h.w) {
			CHECK(fstrm_writer_open(h.w) != fstrm_res_success, "open succeeded although connect fails");
			CHECK(S.addrs.size() == 1 && S.fams[0] == AF_UNIX && S.types[0] == SOCK_STREAM, "not one AF_UNIX stream connection attempt");
			struct sockaddr_un sa; memset(&sa, 0, sizeof sa);
			CHECK(S.addrs[0].size() >= offsetof(struct sockaddr_un, sun_path) + path.size() && S.addrs[0].size() <= sizeof sa, "address length %zu", S.addrs[0].size());
			memcpy(&sa, S.addrs[0].data(), S.addrs[0].size());
			CHECK(sa.sun_family == AF_UNIX && std::string(sa.sun_path, strnlen(sa.sun_path, sizeof sa.sun_path)) == path, "connected to another path");
			label("unix");
		} else label("unix refused");
	}
	if (h.w) {
		CHECK(S.fds.empty(), "descriptor left open after a failed connect");
		if (t.flip()) { CHECK(fstrm_writer_open(h.w) != fstrm_res_success && S.addrs.size() == 2 && S.addrs[0] == S.addrs[1], "a second open did not retry the same address"); }
		fstrm_writer_destroy(&h.w);
	}
	CHECK(S.fds.empty() && !S.bad_close, "descriptor leaked or closed twice");
	CHECK(heap_live() == 0, "%zu blocks leaked", heap_live());
	describe(D);
}
