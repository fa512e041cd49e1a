// C19: rotation, flushing, termination and output failures of fstrm_capture.
#include "cap.hpp"
#include <dirent.h>
#include <map>
const PropInfo prop_info = {
	"C19",
	"A case runs the real capture program with one to three well-behaved clients and a schedule of chunks, clock advances (the clock is virtual), SIGUSR1 after renaming the file, SIGHUP, split intervals with strftime names (UTC or local), and SIGTERM/SIGINT, placed by the driver between chunks or raised inside the program at any of its system calls in the event loop; a part of the cases makes the output fail (file size limit at a random offset, permanent or lifted later; full device; missing directory for a rotated file). Non-trivial: at least one rotation or flush took place with frames on both sides, or a signal was raised inside the program, or an output failure was hit.",
	"fault_enumeration", 14000, 400000, 900, 8, 2, 60,
	{"Output failures come from RLIMIT_FSIZE, /dev/full and missing directories.", "Clocks: time(), gettimeofday() and clock_gettime() of the program are replaced; libevent uses the real clock."}
};
void prop_setup() { prog_init(); }
namespace {
struct Frame { std::string d; int64_t t; };
std::string stamp(const std::string &pat, int64_t t, bool local) {   // TZ is that of the program
	time_t v = t; struct tm tm; if (local) localtime_r(&v, &tm); else gmtime_r(&v, &tm); char b[1024];
	strftime(b, sizeof b, pat.c_str(), &tm); return b;
}
void check_file(const std::string &name, const std::string &data, const std::string &ct, std::vector<std::string> &frames) {
	auto st = ref::parse(data);
	CHECK(st.ok && st.consumed == data.size(), "finished file %s (%zu bytes) is not a complete stream: %s", name.c_str(), data.size(), st.ok ? "bytes after STOP" : st.err.c_str());
	CHECK(st.start.cts.size() == 1 && st.start.cts[0] == ct, "START of %s does not carry the content type", name.c_str());
	frames.insert(frames.end(), st.frames.begin(), st.frames.end());
}
}
void prop(Tape &t) {
	CapConfig c; c.ct = t.flip() ? "t" : "protobuf:dnstap.Dnstap";
	enum { PLAIN, NAMES, ASYNC, FAULT } mode = (decltype(mode))t.weighted({4, 4, 4, 4});
	static const char *pats[] = {"f-%Y%m%d-%H%M%S", "%F-%T", "f%%-%j-%y-%H%M%S", "longer-name-to-be-extended-%A-%B-%d-%Y-%H:%M:%S"};
	int64_t t0 = 1000000000 + t.range(0, 900000000); if (t.chance(40)) t0 = 1735689600 - t.range(0, 4); // around a new year
	bool off = false;
	bool names = mode == NAMES || (mode == ASYNC && t.flip()), nodir = false;
	int fault = -1; long lim = -1; bool lift = false;
	if (mode == FAULT) fault = t.weighted({5, 3, 1, 2});   // limit, late limit lifted, full device, missing directory
	if (fault == 3) { names = nodir = true; }
	std::string pat = pats[t.range(0, 3)];
	prog_shm->vtime = t0; prog_shm->nsig = 0; prog_shm->rcap = t.chance(40) ? t.range(4, 300) : 0; prog_shm->wcap = 0;
	std::string tz = "UTC0";
	if (names) {
		if (t.flip()) c.gmtime = true; else c.localtime = off = true;
		static const char *dst[] = {"AAA5BBB,M3.2.0,M11.1.0", "AAA-1BBB,M3.5.0,M10.5.0/3", "AAA-10BBB,M10.1.0,M4.1.0/3", "AAA-10:30BBB-11,M10.1.0,M4.1.0", "AAA3"};
		tz = t.flip() ? strf("XYZ%d", (int)t.range(0, 20) - 10) : dst[t.range(0, 4)];
		label(tz[0] == 'A' ? "time zone with daylight saving" : "fixed time zone");
		c.out = nodir ? "d%S-x" : pat; if (t.chance(200) && mode != ASYNC) c.split = t.range(1, 20);
		if (nodir) c.split = t.range(1, 20);
	}
	if (!names && t.chance(40) && (mode != FAULT)) c.to_stdout = true;
	if (fault == 0) c.fsize = lim = t.chance(60) ? t.range(0, 60) : t.chance(60) ? 4096 * t.range(1, 4) + (int)t.range(0, 20) - 10 : t.range(0, 12000);
	std::string D = strf("%s%s%s%s:", mode == PLAIN ? "plain" : mode == NAMES ? "named" : mode == ASYNC ? "async" : "fault", c.split ? strf(" split=%d", c.split).c_str() : "", c.to_stdout ? " stdout" : "", lim >= 0 ? strf(" limit=%ld", lim).c_str() : "");
	int final_sig = t.chance(60) ? SIGINT : SIGTERM;
	if (mode == ASYNC) {
		prog_shm->nsig = 1 + t.range(0, 3);
		for (int i = 0; i < prog_shm->nsig; i++) {
			prog_shm->sig[i].at = t.range(0, t.flip() ? 40 : 200);
			prog_shm->sig[i].raised = 0; prog_shm->sig[i].no = names && t.chance(150) ? SIGUSR1 : t.chance(80) ? SIGHUP : i == 0 ? final_sig : SIGHUP;
			D += strf(" sig%d@%d", prog_shm->sig[i].no, prog_shm->sig[i].at);
		}
	}
	setenv("TZ", tz.c_str(), 1); tzset();
	if (off) { // names must not repeat: no clock change nearby
		time_t a = t0 - 7200, b = t0 + 7200; struct tm x, y; localtime_r(&a, &x); localtime_r(&b, &y);
		if (x.tm_gmtoff != y.tm_gmtoff) prog_shm->vtime = t0 += 14400;
	}
	Capture cap(c); cap.may_fail = mode == FAULT; cap.may_end = mode == ASYNC;
	std::string full = "/dev/full";
	if (fault == 2) cap.c.out = "../../dev/full";
	auto setup = [tz] { setenv("TZ", tz.c_str(), 1); };
	// frames and clients
	int nc = 1 + t.range(0, 2); std::vector<std::unique_ptr<Script>> sc; size_t nf = 0;
	for (int k = 0; k < nc; k++) {
		auto s = std::make_unique<Script>(cap, c.ct, c.b);
		s->add(ctl(ref::READY, {c.ct})); s->add(ctl(ref::START, {c.ct}));
		for (size_t n = t.range(0, 12); n; n--, nf++) s->add(ref::data(tag(t.fill(1 + t.len(t.chance(60) ? 6000 : 80)), k)));
		if (t.flip()) s->add(ctl(ref::STOP));
		sc.push_back(std::move(s));
	}
	std::map<std::string, int64_t> opened;   // every file name that may exist, with its opening time
	std::vector<std::string> done;           // finished files, in order
	std::vector<Frame> all;                  // captured frames, in order, with their time
	std::vector<size_t> seen(nc, 0);
	size_t rotations = 0, flushes = 0, file_start = 0;  // index in `all` of the current file's first frame
	int64_t open_t = t0;
	auto cur = [&] { return names ? cap.dir.path(stamp(c.out, open_t, off).c_str()) : cap.outpath(); };
	size_t in_flight = 0;    // bytes sent whose frames are not in `all` yet
	bool gone = false, by_signal = false, nudge = mode == ASYNC && t.chance(150);
	size_t nudge_at = nudge ? t.range(0, 12) : 0, nudge_k = nudge ? t.range(0, 7) : 0; bool nudged = false;
	auto collect = [&](Script &s, int k) {
		for (; seen[k] < s.m.frames.size(); seen[k]++) {
			all.push_back({s.m.frames[seen[k]], prog_shm->vtime});
			if (c.split && mode != ASYNC && prog_shm->vtime >= open_t + c.split) { done.push_back(cur()); open_t = prog_shm->vtime; file_start = all.size(); rotations++; }
		}
	};
	auto expected_cur = [&] { std::string e = ctl(ref::START, {c.ct}); for (size_t i = file_start; i < all.size(); i++) e += ref::data(all[i].d); return e; };
	int rc = 0;
	try {
		if (nodir) { // all directories but one exist as plain prefix "d%S-x": make one name unopenable
			int s = t.range(0, 59); if (stamp(c.out, t0, off) == strf("d%02d-x", s)) s = (s + 1) % 60;
			mkdir(cap.dir.path(strf("d%02d-x", s).c_str()).c_str(), 0755);
		}
		auto stale = [&](const std::string &name) { // an older file in the place of the new one
			std::string o = t.flip() ? t.fill(t.range(1, 3000)) : ctl(ref::START, {c.ct}) + ref::data(std::string(t.range(1, 9000), 'o')) + ctl(ref::STOP);
			put_file(name, o); label("output file exists already");
		};
		if (!c.to_stdout && fault != 2 && !nodir && t.chance(60)) stale(cur());
		cap.start(setup);
		if (!cap.up()) { cap.alive("at start"); }
		size_t steps = 0;
		for (;;) {
			if (mode == ASYNC && cap.ch.wait(0)) { by_signal = true; break; }
			if (nudged) break;
			std::vector<int> live; for (int k = 0; k < nc; k++) if (sc[k]->pending()) live.push_back(k);
			if (live.empty() || steps++ > 200) break;
			size_t act = t.weighted({10, 3, 2, 2});
			if (verbose()) describe(D + " (in progress) " + cap.ch.err());
			if (mode == ASYNC && act > 1) act = 0;
			D += strf(" %zu@%ld", act, (long)prog_shm->vtime - t0);
			if (act == 1) { if (mode != ASYNC || !names) prog_shm->vtime += t.range(0, 12); if (nodir && prog_shm->vtime > t0 + 59) prog_shm->vtime = t0 + 59; /* the names repeat after 60 s */ continue; }
			if (act == 2 && fault != 2 && !nodir) { // rotate
				if (c.to_stdout) { cap.ch.kill(SIGUSR1); label("SIGUSR1 with stdout"); continue; }
				std::string old = cur();
				if (names) { prog_shm->vtime += 1 + t.range(0, 3); }
				else { std::string n = cap.dir.path(strf("old-%zu", rotations).c_str()); rename(old.c_str(), n.c_str()); old = n; }
				open_t = prog_shm->vtime;
				bool over = t.chance(40); if (over) stale(cur());
				cap.ch.kill(SIGUSR1);
				double end = mono() + SLOW; std::string st = ctl(ref::START, {c.ct});
				for (int i = 0;; i++) {
					bool ex; std::string s = slurp_file(cur(), &ex);
					if (ex && s.size() >= st.size() && (!over || s == st)) { CHECK(s == st, "a fresh output file starts with %s", ref::hex(s).c_str()); break; }
					cap.alive("after SIGUSR1");
					if (mono() > end) fail("no new output file (%s) with a START frame after SIGUSR1", cur().c_str());
					if (i < 20) sched_yield(); else usleep(100);
				}
				std::vector<std::string> f; check_file(old, slurp_file(old), c.ct, f);
				CHECK(f.size() == all.size() - file_start, "the rotated file holds %zu frames, %zu were captured into it", f.size(), all.size() - file_start);
				for (size_t i = 0; i < f.size(); i++) CHECK(f[i] == all[file_start + i].d, "frame %zu of the rotated file differs", i);
				done.push_back(old); if (file_start < all.size()) nontrivial(); file_start = all.size(); rotations++; label("SIGUSR1 rotation"); D += " usr1";
				continue;
			}
			if (act == 3 && fault != 2) { // flush
				if (fault == 1 && !lift) { // the disk is full from here on, for a while
					struct rlimit r = {(rlim_t)t.range(0, 200), RLIM_INFINITY}; prlimit(cap.ch.pid, RLIMIT_FSIZE, &r, nullptr); lift = true;
					cap.ch.kill(SIGHUP); usleep(300); label("transient failure"); nontrivial(); continue;
				}
				cap.ch.kill(SIGHUP); flushes++; label("SIGHUP flush"); D += " hup";
				if (mode == FAULT) continue;
				double end = mono() + SLOW; std::string e = expected_cur();
				for (int i = 0;; i++) {
					std::string s = c.to_stdout ? cap.output() : slurp_file(cur());
					if (s == e) break;
					cap.alive("after SIGHUP");
					if (mono() > end) fail("%.0f s after SIGHUP the file holds %zu bytes, %zu have been captured", SLOW, s.size(), e.size());
					if (i < 20) sched_yield(); else usleep(100);
				}
				if (all.size()) nontrivial();
				continue;
			}
			int k = live[t.range(0, live.size() - 1)]; auto &s = *sc[k];
			if (mode == ASYNC) {
				// the program may terminate at any point: only send
				if (s.cl->fd < 0) {
					s.cl->fd = socket(cap.ss.ss_family, SOCK_STREAM | SOCK_CLOEXEC, 0);
					int w0 = prog_shm->waits;
					if (::connect(s.cl->fd, (struct sockaddr *)&cap.ss, cap.sl) != 0) { s.gone = true; continue; }
					fcntl(s.cl->fd, F_SETFL, O_NONBLOCK);
					cap.settle(w0);
				}
			} else if (s.cl->fd < 0) s.cl->connect();
			size_t left = s.bytes.size() - s.sent, mark = s.next_mark() - s.sent, n = t.chance(160) ? mark : t.chance(100) ? t.range(1, left) : mark + t.range(0, 30);
			n = std::min(n, left);
			if (s.sent < s.marks[0]) n = std::min(n, mark);
			if (mode != ASYNC) { in_flight = n + s.m.buf.size(); s.step(n); collect(s, k); in_flight = 0; }
			else {
				if (nudge && steps >= nudge_at) { // a few system calls from here, and nothing is sent after this chunk
					int q = prog_shm->nsig < 8 ? prog_shm->nsig : 7; prog_shm->sig[q].at = prog_shm->points + nudge_k; prog_shm->sig[q].no = final_sig; prog_shm->sig[q].raised = 0; prog_shm->nsig = q + 1;
					nudged = true; D += strf(" then sig%d %zu points later", final_sig, nudge_k);
				}
				std::string b = s.bytes.substr(s.sent, n); s.sent += b.size(); s.m.feed(b);
				size_t o = 0; double end = mono() + SLOW; int w0 = prog_shm->waits;
				while (o < b.size()) {
					ssize_t w = ::send(s.cl->fd, b.data() + o, b.size() - o, MSG_NOSIGNAL | MSG_DONTWAIT);
					if (w > 0) { o += w; continue; }
					if (w < 0 && errno == EAGAIN && mono() < end) { if (cap.ch.wait(0)) break; usleep(100); continue; }
					s.gone = true; break;
				}
				// wait for the bytes to be taken, or the end of the program
				if (!s.gone) { cap.settle(w0); s.cl->drain(); }
				s.cl->pump();
				if (s.m.over()) { s.gone = true; }
			}
		}
		if (lift) { struct rlimit r = {RLIM_INFINITY, RLIM_INFINITY}; prlimit(cap.ch.pid, RLIMIT_FSIZE, &r, nullptr); }
		if (mode == ASYNC && prog_shm->sigs_done) { nontrivial(); label("signal raised inside the program"); }
		if (mode == ASYNC && !cap.ch.done) {
			bool term_raised = false; for (int i = 0; i < prog_shm->nsig; i++) if (prog_shm->sig[i].no == final_sig && prog_shm->sig[i].raised) term_raised = true;
			if (term_raised) { // it must end without any further event
				if (!cap.ch.wait(SLOW)) fail("the program did not exit after signal %d raised at a system call", final_sig);
			}
		}
		if (cap.ch.done) { cap.ch.check_sane(); rc = cap.ch.code(); by_signal = true; }
		else rc = cap.term(final_sig);
	} catch (CapGone &) { gone = true; rc = cap.ch.code(); }
	D += strf(" %zu frames, %zu rotations, %zu flushes -> exit %d", nf, rotations, flushes, rc);
	describe(D);

	if (mode == FAULT) {
		label(fault == 0 ? "size limit" : fault == 1 ? "limit lifted again" : fault == 2 ? "full device" : "rotation target missing");
		label(rc == 0 ? "fault: exit 0" : "fault: exit non-zero");
		if (rc != 0) nontrivial();
		if (fault == 2) { CHECK(rc != 0, "exit status 0 although nothing can be written to the output"); return; }
		if (fault == 0 && !names) {
			std::string e = expected_cur() + ctl(ref::STOP);
			bool fits = true; size_t at = 0; // the rotated files and the last one
			for (auto &d : done) if (!names) { size_t n = slurp_file(d).size(); at = std::max(at, n); }
			fits = std::max(at, e.size()) <= (size_t)lim;
			if (!gone && !fits) CHECK(rc != 0, "exit status 0 although the output of %zu bytes cannot be written beyond byte %ld", e.size(), lim);
			if (fits && !gone) CHECK(rc == 0, "exit status %d although all of the output could be written", rc);
			if (gone) CHECK((long)(std::max(at, expected_cur().size()) + in_flight) + 8192 > lim, "the program gave up although the output could be written");
		}
		if (rc == 0) {
			std::vector<std::string> f; for (auto &d : done) check_file(d, slurp_file(d), c.ct, f);
			check_file(cur(), slurp_file(cur()), c.ct, f);
			CHECK(f.size() == all.size(), "exit status 0 but the files hold %zu of %zu frames", f.size(), all.size());
			for (size_t i = 0; i < f.size(); i++) CHECK(f[i] == all[i].d, "frame %zu of the output differs", i);
		} else if (fault == 3) { // what was finished before is complete
			std::vector<std::string> f; for (auto &d : done) check_file(d, slurp_file(d), c.ct, f);
		}
		if (nodir) for (int s = 0; s < 60; s++) rmdir(cap.dir.path(strf("d%02d-x", s).c_str()).c_str());
		return;
	}
	CHECK(rc == 0, "exit status %d after termination by signal: %.300s", rc, cap.ch.err().c_str());
	if (mode != ASYNC) {
		done.push_back(c.to_stdout ? "-" : cur());
		std::vector<std::string> f; std::vector<std::pair<size_t, size_t>> sizes;
		for (auto &d : done) {
			size_t b = f.size(); std::string data = d == "-" ? cap.output() : slurp_file(d);
			check_file(d, data, c.ct, f);
			sizes.push_back({f.size() - b, data.size()});
			if (c.split) { // at most one frame at or after the end of the interval
				int64_t op = 0; bool known = false;
				for (int64_t v = t0; v <= prog_shm->vtime && !known; v++) if (cap.dir.path(stamp(c.out, v, off).c_str()) == d) { op = v; known = true; }
				CHECK(known, "output file %s is not named after a time of the run", d.c_str());
				int late = 0; for (size_t i = b; i < f.size() && i < all.size(); i++) if (all[i].t >= op + c.split) late++;
				CHECK(late <= 1, "%d frames were written to %s after its %d seconds were over", late, d.c_str(), c.split);
			}
		}
		CHECK(f.size() == all.size(), "the files hold %zu frames, %zu were captured", f.size(), all.size());
		for (size_t i = 0; i < f.size(); i++) CHECK(f[i] == all[i].d, "frame %zu of the files differs from what was captured", i);
		check_written(cap.ch.err(), sizes);
		// no other files
		std::set<std::string> known(done.begin(), done.end());
		DIR *d = opendir(cap.dir.dir.c_str());
		while (auto *e = readdir(d)) if (e->d_name[0] != '.' && strcmp(e->d_name, "s") && !known.count(cap.dir.path(e->d_name))) { std::string n = e->d_name; closedir(d); fail("unexpected output file %s", n.c_str()); }
		closedir(d);
		if (rotations && all.size() > 1) nontrivial();
		return;
	}
	// ASYNC: files in the order of their opening times
	std::vector<std::pair<int64_t, std::string>> fs;
	if (!names) fs.push_back({0, c.to_stdout ? "-" : cap.outpath()});
	else for (int64_t v = t0; v <= prog_shm->vtime; v++) { std::string n = cap.dir.path(stamp(c.out, v, off).c_str()); bool ex; slurp_file(n, &ex); if (ex) fs.push_back({v, n}); }
	std::vector<std::string> f;
	for (auto &x : fs) check_file(x.second, x.second == "-" ? cap.output() : slurp_file(x.second), c.ct, f);
	CHECK(!fs.empty(), "no output file");
	compare_frames(f, sc, !by_signal);
	if (by_signal) label("ended by a signal inside the program");
}
