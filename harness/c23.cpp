// C23: the whole chain: application -> I/O thread -> socket -> fstrm_capture
// -> files -> fstrm_dump, fstrm_replay -> fstrm_capture.
#include "cap.hpp"
#include "fs.hpp"
#include <map>
#include <atomic>
#include <pthread.h>
#include <algorithm>
const PropInfo prop_info = {
	"C23",
	"A case starts the real capture program, writes messages to it from one to three real threads through one or two I/O threads over UNIX or TCP sockets, with generated settings, message sizes (at and above the capture limit too) and pauses, while the output file is rotated by signal; then dumps every output file (copying it) and replays all of them into a second capture program. Every message within the limit must be in the files exactly once, unaltered, in its producer's order; the dump's copy and the second capture's output must hold exactly the same frames. Non-trivial: at least 20 messages were recorded and there was more than one producer or file.",
	"exploration", 2000, 120000, 700, 8, 2, 90,
	{"Threads, processes and sockets are real and scheduled by the system.", "Time-outs of 10 s decide that something is wedged."}
};
extern "C" { int fstrm_dump_main(int, char **); int fstrm_replay_main(int, char **); }
void prop_setup() { prog_init(); signal(SIGPIPE, SIG_IGN); }
struct Prod { struct fstrm_iothr *io; std::vector<struct fstrm_iothr_queue *> qs; std::vector<std::string> msgs; std::vector<int> q; std::vector<int> pause; std::string err; std::atomic<bool> done{false}; };
static std::atomic<long> freed;
static void on_free(void *p, void *) { freed++; memset(p, 0xDD, 1); ::free(p); }
static void *produce(void *a) {
	Prod *p = (Prod *)a;
	for (size_t i = 0; i < p->msgs.size() && p->err.empty(); i++) {
		auto &m = p->msgs[i]; double end = mono() + SLOW;
		if (p->pause[i] == 1) sched_yield(); else if (p->pause[i] > 1) usleep(p->pause[i] * 20);
		void *d = ::malloc(m.size()); memcpy(d, m.data(), m.size());
		for (;;) {
			fstrm_res r = fstrm_iothr_submit(p->io, p->qs[p->q[i]], d, m.size(), on_free, nullptr);
			if (r == fstrm_res_success) break;
			if (r != fstrm_res_again) { p->err = strf("submission returned %d", (int)r); ::free(d); break; }
			if (mono() > end) { p->err = "the queue stays full"; ::free(d); break; }
			usleep(100);
		}
	}
	p->done = true;
	return nullptr;
}
static std::string key(const std::string &f) { return f.substr(0, 2); }     // producer, queue
void prop(Tape &t) {
	CapConfig c; static const char *cts[] = {"t", "protobuf:dnstap.Dnstap", "text"};
	c.ct = cts[t.range(0, 2)]; c.tcp = t.chance(80);
	switch (t.weighted({3, 2, 2})) { case 0: break; case 1: c.dflt_b = false; c.b = 520 + t.range(0, 300); break; default: c.dflt_b = false; c.b = 520 + t.range(0, 20000); }
	c.maxconns = t.chance(40) ? 2 + t.range(0, 2) : 0;
	prog_shm->vtime = 0; prog_shm->nsig = 0;
	prog_shm->rcap = t.chance(40) ? t.range(20, 4096) : 0; prog_shm->wcap = t.chance(40) ? t.range(1, 12) : 0;
	unsigned nio = 1 + (t.chance(80) ? 1 : 0), np = 1 + t.weighted({3, 3, 2}), rot = t.weighted({3, 3, 2, 1});
	bool mpsc = t.chance(110);
	unsigned qsize = 4u << t.range(0, 8), nq = mpsc ? 1 + t.range(0, 2) : np, hint = 1024 + t.range(0, 255) * 64, oq = 2 + t.range(0, 255), thr = 1 + t.range(0, 255) % (qsize / 2);
	struct fstrm_iothr_options *o = fstrm_iothr_options_init();
	fstrm_iothr_options_set_buffer_hint(o, hint); fstrm_iothr_options_set_input_queue_size(o, qsize); fstrm_iothr_options_set_num_input_queues(o, nq);
	fstrm_iothr_options_set_output_queue_size(o, oq); fstrm_iothr_options_set_queue_notify_threshold(o, thr);
	fstrm_iothr_options_set_queue_model(o, mpsc ? FSTRM_IOTHR_QUEUE_MODEL_MPSC : FSTRM_IOTHR_QUEUE_MODEL_SPSC);
	struct GO { struct fstrm_iothr_options **o; ~GO() { fstrm_iothr_options_destroy(o); } } go{&o};
	size_t budget = t.chance(20) ? 1500000 : 60000;
	std::vector<std::unique_ptr<Prod>> ps; std::map<std::string, std::vector<std::string>> want; size_t total = 0, skipped = 0;
	std::string D = strf("type %s b=%zu%s nio=%u %s nq=%u qsize=%u hint=%u oq=%u thr=%u, %u rotations:", c.ct.c_str(), c.b, c.tcp ? " tcp" : " unix", nio, mpsc ? "MPSC" : "SPSC", nq, qsize, hint, oq, thr, rot);
	for (unsigned k = 0; k < np; k++) {
		auto p = std::make_unique<Prod>(); unsigned n = t.weighted({1, 4, 3}); n = n == 0 ? t.range(0, 3) : n == 1 ? t.range(5, 60) : t.range(50, 400);
		unsigned style = t.range(0, 3), slow = t.weighted({5, 2, 1});
		for (unsigned i = 0; i < n; i++) {
			size_t len; unsigned q = mpsc ? t.range(0, nq - 1) : k;
			switch (style == 3 ? t.weighted({4, 2, 1}) : style) { case 0: len = 6 + t.range(0, 40); break; case 1: len = 6 + t.range(0, 2000); break; default: len = c.b - 4 + t.range(0, 6) - 3; if (len > 30000 && i % 8) len = 6 + t.range(0, 20000); }
			if (len > budget) len = 6 + t.range(0, 20);
			budget -= std::min(budget, len);
			std::string m(len, 0); uint32_t x = (k * 1000003u + i) * 2654435761u;
			for (size_t j = 0; j < len; j++) { x = x * 1664525u + 1013904223u; m[j] = (char)(x >> 24); }
			m[0] = (char)k; m[1] = (char)q; m[2] = (char)i; m[3] = (char)(i >> 8);
			if (len + 4 <= c.b) { want[key(m)].push_back(m); total++; } else skipped++;
			p->msgs.push_back(m); p->q.push_back(q); p->pause.push_back(slow == 0 ? 0 : slow == 1 ? t.weighted({6, 1}) : t.chance(30) ? (int)t.range(2, 20) : 0);
		}
		D += strf(" %u", n); ps.push_back(std::move(p));
	}
	describe(D);
	Capture cap(c); cap.start();
	if (!cap.up()) { cap.ch.check_sane(); fail("the capture program did not start: %.300s", cap.ch.err().c_str()); }
	freed = 0;
	struct Ios { std::vector<struct fstrm_iothr *> v; ~Ios() { for (auto &x : v) if (x) fstrm_iothr_destroy(&x); } } ios;
	std::vector<std::string> ct2 = {c.ct}; if (t.flip()) ct2.push_back("other"); if (t.chance(40)) ct2.insert(ct2.begin(), "first");
	for (unsigned i = 0; i < nio; i++) {
		auto *wo = fstrm_writer_options_init(); for (auto &x : ct2) fstrm_writer_options_add_content_type(wo, x.data(), x.size());
		struct fstrm_writer *w = nullptr;
		if (c.tcp) {
			char a[64]; auto *in = (struct sockaddr_in *)&cap.ss; inet_ntop(AF_INET, &in->sin_addr, a, sizeof a);
			auto *to = fstrm_tcp_writer_options_init(); fstrm_tcp_writer_options_set_socket_address(to, a); fstrm_tcp_writer_options_set_socket_port(to, std::to_string(ntohs(in->sin_port)).c_str());
			w = fstrm_tcp_writer_init(to, wo); fstrm_tcp_writer_options_destroy(&to);
		} else {
			auto *uo = fstrm_unix_writer_options_init(); fstrm_unix_writer_options_set_socket_path(uo, cap.sock.c_str());
			w = fstrm_unix_writer_init(uo, wo); fstrm_unix_writer_options_destroy(&uo);
		}
		fstrm_writer_options_destroy(&wo);
		CHECK(w, "cannot create the socket writer");
		auto *io = fstrm_iothr_init(o, &w);
		if (!io) { fstrm_writer_destroy(&w); fail("fstrm_iothr_init failed"); }
		ios.v.push_back(io);
	}
	std::vector<pthread_t> th(np);
	for (unsigned k = 0; k < np; k++) {
		ps[k]->io = ios.v[k % nio];
		for (unsigned q = 0; q < nq; q++) ps[k]->qs.push_back(fstrm_iothr_get_input_queue_idx(ps[k]->io, q));
		for (auto &q : ps[k]->q) (void)q;
	}
	for (unsigned k = 0; k < np; k++) pthread_create(&th[k], nullptr, produce, ps[k].get());
	// rotations under load
	std::vector<std::string> parts; std::string err;
	for (unsigned r = 0; r < rot && err.empty(); r++) {
		usleep(t.range(0, 255) * 10);
		std::string to = cap.dir.path(strf("part%u", r).c_str());
		if (rename(cap.outpath().c_str(), to.c_str())) { err = "no output file to rename"; break; }
		parts.push_back(to);
		cap.ch.kill(SIGUSR1);
		double end = mono() + SLOW; struct stat st;
		while (stat(cap.outpath().c_str(), &st)) { if (cap.ch.wait(0)) { err = "the capture program ended on SIGUSR1"; break; } if (mono() > end) { err = "no new output file after SIGUSR1"; break; } usleep(20); }
	}
	for (unsigned k = 0; k < np; k++) pthread_join(th[k], nullptr);
	std::atomic<bool> gone{false}, wedged{false};
	{ // an I/O thread whose peer never answers is freed by ending the peer
		struct Dog { std::atomic<bool> *gone, *wedged; Capture *cap; } dg{&gone, &wedged, &cap}; pthread_t dt;
		pthread_create(&dt, nullptr, [](void *a) -> void * {
			Dog *d = (Dog *)a; double end = mono() + SLOW;
			while (!*d->gone) { if (mono() > end) { *d->wedged = true; d->cap->ch.kill(SIGKILL); break; } usleep(500); }
			return nullptr; }, &dg);
		for (auto &x : ios.v) fstrm_iothr_destroy(&x);
		gone = true; pthread_join(dt, nullptr);
	}
	if (wedged) fail("destroying the I/O threads does not end: the capture program does not answer");
	if (!err.empty()) { cap.ch.check_sane(); fail("%s: %.300s", err.c_str(), cap.ch.err().c_str()); }
	size_t sent = 0; for (auto &p : ps) { CHECK(p->err.empty(), "%s", p->err.c_str()); sent += p->msgs.size(); }
	CHECK(freed == (long)sent, "%ld of %zu messages were freed when destroy had returned", (long)freed, sent);
	int rc = cap.term();
	CHECK(rc == 0, "the capture program exited with status %d: %.300s", rc, cap.ch.err().c_str());
	parts.push_back(cap.outpath());
	std::vector<std::string> all; std::vector<size_t> counts;
	for (size_t i = 0; i < parts.size(); i++) {
		std::string out = slurp_file(parts[i]); auto st = ref::parse(out);
		CHECK(st.ok && st.consumed == out.size(), "output file %zu of %zu is not a complete stream: %s", i + 1, parts.size(), st.err.c_str());
		CHECK(st.start.cts.size() == 1 && st.start.cts[0] == c.ct, "wrong START frame in output file %zu", i + 1);
		counts.push_back(st.frames.size());
		all.insert(all.end(), st.frames.begin(), st.frames.end());
	}
	std::map<std::string, size_t> at;
	for (auto &f : all) {
		CHECK(f.size() >= 4 && want.count(key(f)), "a frame was recorded that nobody submitted: %s", ref::hex(f).c_str());
		auto &w = want[key(f)]; auto &i = at[key(f)];
		CHECK(i < w.size(), "a frame was recorded more often than submitted: %s", ref::hex(f).c_str());
		CHECK(f == w[i], "message %zu of producer %d on queue %d was recorded as %s instead of %s", i, f[0], f[1], ref::hex(f).c_str(), ref::hex(w[i]).c_str());
		i++;
	}
	CHECK(all.size() == total, "%zu messages within the limit were submitted, %zu were recorded", total, all.size());
	// dump
	prog_shm->rcap = prog_shm->wcap = 0;
	for (size_t i = 0; i < parts.size(); i++) {
		std::string copy = cap.dir.path("copy"); struct Fd { int fd; ~Fd() { close(fd); } } so{memfd_create("stdout", MFD_CLOEXEC)};
		bool with = i + 1 == parts.size() || t.flip();
		Child d; std::vector<std::string> av = {"fstrm_dump", parts[i]}; if (with) av.push_back(copy);
		d.start(fstrm_dump_main, av, {}, -1, so.fd);
		if (!d.wait(SLOW)) fail("fstrm_dump does not end");
		d.check_sane();
		CHECK(d.code() == 0, "fstrm_dump exited with status %d on a captured file: %.300s", d.code(), d.err().c_str());
		if (with) {
			std::string a = slurp_file(parts[i]), b = slurp_file(copy);
			CHECK(a == b, "the copy made by fstrm_dump (%zu bytes) differs from the captured file (%zu bytes)", b.size(), a.size());
		}
		// one line per frame (payload bytes that end lines are escaped)
		else { std::string s; char b[65536]; ssize_t n; off_t p = 0; while ((n = pread(so.fd, b, sizeof b, p)) > 0) { s.append(b, n); p += n; } size_t lines = std::count(s.begin(), s.end(), '\n'); CHECK(lines == counts[i], "fstrm_dump printed %zu lines for %zu frames", lines, counts[i]); }
	}
	// replay
	CapConfig c2; c2.ct = c.ct; c2.b = c.b; c2.dflt_b = c.dflt_b; c2.tcp = t.chance(80); c2.to_stdout = t.flip();
	Capture cap2(c2); cap2.start();
	if (!cap2.up()) { cap2.ch.check_sane(); fail("the second capture program did not start: %.300s", cap2.ch.err().c_str()); }
	std::vector<std::string> av = {"fstrm_replay", "-t", c.ct};
	if (c2.tcp) { char a[64]; auto *in = (struct sockaddr_in *)&cap2.ss; inet_ntop(AF_INET, &in->sin_addr, a, sizeof a); av.insert(av.end(), {"-a", a, "-p", std::to_string(ntohs(in->sin_port))}); }
	else av.insert(av.end(), {"-u", cap2.sock});
	for (auto &p : parts) av.insert(av.end(), {"-r", p});
	Child rp; rp.start(fstrm_replay_main, av);
	if (!rp.wait(2 * SLOW)) fail("fstrm_replay does not end");
	rp.check_sane();
	CHECK(rp.code() == 0, "fstrm_replay exited with status %d: %.300s", rp.code(), rp.err().c_str());
	rc = cap2.term();
	CHECK(rc == 0, "the second capture program exited with status %d: %.300s", rc, cap2.ch.err().c_str());
	std::string out = cap2.output(); auto st = ref::parse(out);
	CHECK(st.ok && st.consumed == out.size(), "the second capture's output is not a complete stream: %s", st.err.c_str());
	CHECK(st.frames == all, "%zu frames were replayed, %zu arrived%s", all.size(), st.frames.size(), st.frames.size() == all.size() ? ", altered" : "");
	if (all.size() >= 20 && (np > 1 || rot)) nontrivial();
	label(mpsc ? "mpsc" : "spsc"); if (rot) label("rotation under load"); if (skipped) label("messages above the capture limit"); if (nio > 1) label("two I/O threads"); if (c.tcp) label("tcp");
}
