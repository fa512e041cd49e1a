#include "engine.hpp"
#include <algorithm>
#include <map>
#include <set>
#include <unordered_set>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <fcntl.h>

std::string strf(const char *fmt, ...) {
	va_list ap; va_start(ap, fmt);
	char buf[4096]; vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
	return buf;
}
void fail(const char *fmt, ...) {
	va_list ap; va_start(ap, fmt);
	char buf[4096]; vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
	throw PropFail(buf);
}

size_t Tape::len(size_t max) {
	switch (weighted({6, 6, 4, 2, 2})) {
	case 0: return std::min<size_t>(max, range(0, 8));
	case 1: return std::min<size_t>(max, range(0, 63));
	case 2: return range(0, max);
	case 3: return max - std::min<size_t>(max, range(0, 3));
	default: { // around powers of two
		size_t p = (size_t)1 << range(0, 20);
		size_t v = p + range(0, 2) - 1;
		return v > max ? max : v;
	}
	}
}
std::string Tape::bytes(size_t n) { std::string s(n, 0); for (auto &c : s) c = (char)byte(); return s; }
static inline uint64_t splitmix(uint64_t &s) {
	uint64_t z = (s += 0x9E3779B97F4A7C15ull);
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}
std::string Tape::fill(size_t n) {
	uint64_t s = raw(2) * 0x10001 + 7;
	std::string r(n, 0);
	for (size_t i = 0; i < n; i += 8) {
		uint64_t v = splitmix(s);
		memcpy(&r[i], &v, std::min<size_t>(8, n - i));
	}
	return r;
}

namespace {
constexpr int MAXW = 16, NLAB = 96, NSAMP = 6;
constexpr size_t NHASH = 1 << 20, TAPEMAX = 16384;
struct Worker {
	volatile uint64_t cur_case;       // running case index
	volatile double started;          // monotonic
	volatile int running;
	volatile uint64_t evals, discards, nontriv, nhash;
	char lab[NLAB][56];
	volatile uint64_t labn[NLAB];
	char samp[NSAMP][1500];
	volatile int nsamp;
	char msg[4096];
	volatile uint64_t guided, corpus, edges;
	volatile uint32_t tape_n;         // the running case
	uint8_t tape[TAPEMAX];
	uint64_t hash[NHASH / MAXW];
};
Worker *W;              // this worker
bool g_nontrivial, g_verbose, g_thorough;
std::string g_desc;
std::vector<const char *> g_labels;
uint64_t g_seed = 1;

double now() { timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

uint64_t fnv(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ull) {
	auto b = (const uint8_t *)p;
	for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ull;
	return h ? h : 1;
}

std::vector<uint8_t> gen_tape(uint64_t idx) {
	uint64_t s = g_seed * 0x9E3779B97F4A7C15ull ^ fnv(prop_info.id, strlen(prop_info.id)) ^ (idx * 0xD1342543DE82EF95ull + 0x1234567);
	splitmix(s);
	size_t max = prop_info.max_tape, n;
	// sizes grow with idx for the first cases, then are mixed
	uint64_t r = splitmix(s);
	switch (r % 4) {
	case 0: n = 16 + (r >> 8) % std::min<size_t>(max, 64); break;
	case 1: n = 32 + (r >> 8) % std::max<size_t>(max / 8, 64); break;
	case 2: n = 64 + (r >> 8) % std::max<size_t>(max / 2, 64); break;
	default: n = max;
	}
	n = std::min(n, max);
	std::vector<uint8_t> t(n);
	for (size_t i = 0; i < n; i += 8) {
		uint64_t v = splitmix(s);
		memcpy(&t[i], &v, std::min<size_t>(8, n - i));
	}
	return t;
}

// ---- coverage guidance ----
// The code under test reports its edges into a map shared with the processes
// a case forks.  Tapes that reach new (bucketed) counts are kept and mutated.
constexpr unsigned COVMAP = 16384;
uint8_t *cov;           // per worker, shared with its children
uint8_t *cov_seen;      // bit set of buckets seen per edge
std::vector<std::vector<uint8_t>> corpus;
uint8_t bucket(uint8_t n) { return n == 0 ? 0 : n == 1 ? 1 : n == 2 ? 2 : n == 3 ? 4 : n < 8 ? 8 : n < 16 ? 16 : n < 32 ? 32 : n < 128 ? 64 : 128; }
bool new_coverage() {
	bool fresh = false;
	for (unsigned i = 0; i < COVMAP; i += 8) {
		uint64_t v; memcpy(&v, cov + i, 8); if (!v) continue;
		for (unsigned j = i; j < i + 8; j++) {
			uint8_t b = bucket(cov[j]);
			if (b & ~cov_seen[j]) { if (!cov_seen[j]) W->edges = W->edges + 1; cov_seen[j] |= b; fresh = true; }
		}
	}
	memset(cov, 0, COVMAP);
	return fresh;
}
std::vector<uint8_t> mutate(uint64_t s) {
	auto r = [&](uint64_t n) { return n ? splitmix(s) % n : 0; };
	// newer entries are preferred
	size_t k = r(2) ? r(corpus.size()) : corpus.size() - 1 - r(std::min<size_t>(corpus.size(), 16));
	auto t = corpus[k];
	for (unsigned m = 1 + r(4); m--;) {
		size_t n = t.size(), at = r(n);
		switch (r(8)) {
		case 0: if (n) t[at] ^= 1 << r(8); break;
		case 1: if (n) t[at] = r(256); break;
		case 2: if (n) t[at] += (int)r(9) - 4; break;
		case 3: if (n) for (size_t i = at; i < std::min(n, at + 1 + r(8)); i++) t[i] = r(256); break;
		case 4: if (n > 1) t.erase(t.begin() + at, t.begin() + std::min(n, at + 1 + r(16))); break;
		case 5: { std::vector<uint8_t> x(1 + r(8)); for (auto &b : x) b = r(256); t.insert(t.begin() + at, x.begin(), x.end()); break; }
		case 6: { auto &o = corpus[r(corpus.size())]; size_t from = r(o.size()); t.resize(at); t.insert(t.end(), o.begin() + from, o.end()); break; }
		default: for (size_t i = at; i < n; i++) t[i] = r(256); break;
		}
	}
	if (t.size() > prop_info.max_tape) t.resize(prop_info.max_tape);
	return t;
}

enum Outcome { PASS, DISCARD, FAILED };

Outcome run_prop(const uint8_t *d, size_t n, std::string &msg) {
	g_nontrivial = false; g_desc.clear(); g_labels.clear();
	Tape t(d, n);
	try { prop(t); }
	catch (const PropFail &e) { msg = e.what(); return FAILED; }
	catch (const PropDiscard &) { return DISCARD; }
	if (W) {
		W->evals = W->evals + 1;
		if (g_nontrivial) {
			W->nontriv = W->nontriv + 1;
			if (W->nhash < NHASH / MAXW) {
				uint64_t h = g_desc.empty() ? fnv(d, t.pos()) : fnv(g_desc.data(), g_desc.size());
				W->hash[W->nhash] = h; W->nhash = W->nhash + 1;
			}
			if (W->nsamp < NSAMP && !g_desc.empty()) {
				int k = W->nsamp;
				snprintf(W->samp[k], sizeof W->samp[k], "%s", g_desc.c_str());
				W->nsamp = k + 1;
			}
		}
		std::sort(g_labels.begin(), g_labels.end(), [](auto a, auto b) { return strcmp(a, b) < 0; });
		const char *prev = nullptr;
		for (auto l : g_labels) {
			if (prev && !strcmp(prev, l)) continue;
			prev = l;
			for (int i = 0; i < NLAB; i++) {
				if (!W->lab[i][0]) snprintf(W->lab[i], sizeof W->lab[i], "%s", l);
				if (!strcmp(W->lab[i], l)) { W->labn[i] = W->labn[i] + 1; break; }
			}
		}
	}
	return PASS;
}

// ---- running one tape in a child ----
struct One { bool failed, hung; std::string msg; int status; };
std::string read_tail(const char *path, size_t max = 3000) {
	std::string r; FILE *f = fopen(path, "r"); if (!f) return r;
	char b[4096]; size_t k;
	while ((k = fread(b, 1, sizeof b, f)) > 0) r.append(b, k);
	fclose(f);
	if (r.size() > max) r = r.substr(0, max);
	return r;
}
std::string g_errfile;
One run_one(const std::vector<uint8_t> &t, double limit) {
	One o{false, false, "", 0};
	static Worker *sw = (Worker *)mmap(nullptr, sizeof(Worker), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	memset((void *)sw->msg, 0, sizeof sw->msg);
	pid_t p = fork();
	if (p == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		setpgid(0, 0);
		if (!g_errfile.empty()) {
			int fd = open(g_errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
			if (fd >= 0) { dup2(fd, 2); close(fd); }
		}
		W = nullptr;
		prop_setup();
		std::string m;
		Outcome oc = run_prop(t.data(), t.size(), m);
		if (oc == FAILED) { snprintf(sw->msg, sizeof sw->msg, "%s", m.c_str()); _exit(77); }
		_exit(0);
	}
	double end = now() + limit;
	for (;;) {
		int st; pid_t r = waitpid(p, &st, WNOHANG);
		if (r == p) { o.status = st; break; }
		if (now() > end) { kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &st, 0); o.hung = true; break; }
		usleep(200);
	}
	if (o.hung) { o.failed = true; o.msg = "the case did not finish (hang)"; }
	else if (WIFEXITED(o.status) && WEXITSTATUS(o.status) == 0) o.failed = false;
	else if (WIFEXITED(o.status) && WEXITSTATUS(o.status) == 77) { o.failed = true; o.msg = sw->msg; }
	else {
		o.failed = true;
		o.msg = WIFSIGNALED(o.status) ? strf("killed by signal %d", WTERMSIG(o.status)) : strf("exit status %d (sanitizer report or abort)", WEXITSTATUS(o.status));
		if (!g_errfile.empty()) o.msg += ": " + read_tail(g_errfile.c_str());
	}
	return o;
}

static double shrink_s = -1;   // time for shrinking
std::vector<uint8_t> shrink(std::vector<uint8_t> t, double budget, std::string &msg, double limit, bool hang) {
	double end = now() + budget;
	auto still = [&](const std::vector<uint8_t> &c) {
		One o = run_one(c, hang ? limit : limit);
		if (o.failed && o.hung == hang) { msg = o.msg; return true; }
		return false;
	};
	bool progress = true;
	while (progress && now() < end) {
		progress = false;
		for (size_t chunk = std::max<size_t>(1, t.size() / 2); chunk >= 1 && now() < end; chunk /= 2) {
			for (size_t i = 0; i + chunk <= t.size() && now() < end;) {
				auto c = t; c.erase(c.begin() + i, c.begin() + i + chunk);
				if (still(c)) { t = c; progress = true; } else i += chunk;
			}
			if (chunk == 1) break;
		}
		for (size_t chunk = std::max<size_t>(1, t.size() / 4); chunk >= 1 && now() < end; chunk /= 2) {
			for (size_t i = 0; i + chunk <= t.size() && now() < end; i += chunk) {
				if (std::all_of(t.begin() + i, t.begin() + i + chunk, [](uint8_t b) { return b == 0; })) continue;
				auto c = t; std::fill(c.begin() + i, c.begin() + i + chunk, 0);
				if (still(c)) { t = c; progress = true; }
			}
			if (chunk == 1) break;
		}
		for (size_t i = 0; i < t.size() && now() < end; i++) {
			for (int d : {128, 64, 16, 4, 1}) while (t[i] >= d && now() < end) {
				auto c = t; c[i] -= d;
				if (still(c)) { t = c; progress = true; } else break;
			}
		}
	}
	return t;
}

void json_str(FILE *f, const std::string &s) {
	fputc('"', f);
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
		else if (c == '\n') fputs("\\n", f);
		else if (c < 0x20 || c >= 0x7f) fprintf(f, "\\u%04x", c);
		else fputc(c, f);
	}
	fputc('"', f);
}

void worker_main(Worker *w, uint64_t first, uint64_t n, unsigned stride, double deadline) {
	W = w;
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	cov = (uint8_t *)mmap(nullptr, COVMAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	cov_seen = (uint8_t *)calloc(1, COVMAP);
	if (cov == MAP_FAILED || !cov_seen) _exit(2);
	prop_setup();
	memset(cov, 0, COVMAP);
	for (uint64_t i = first; i < n; i += stride) {
		if (now() > deadline) break;
		uint64_t s = g_seed * 0x9E3779B97F4A7C15ull ^ i * 0xD1342543DE82EF95ull;
		bool guided = !corpus.empty() && splitmix(s) % 8 < (g_thorough ? 4 : 2);
		auto t = guided ? mutate(s) : gen_tape(i);
		memcpy(w->tape, t.data(), t.size()); w->tape_n = t.size();
		w->cur_case = i; w->started = now(); w->running = 1;
		std::string m;
		Outcome oc = run_prop(t.data(), t.size(), m);
		w->running = 0;
		if (guided) w->guided = w->guided + 1;
		if (new_coverage()) { corpus.push_back(t); w->corpus = corpus.size(); }
		if (oc == DISCARD) w->discards = w->discards + 1;
		if (oc == FAILED) { snprintf(w->msg, sizeof w->msg, "%s", m.c_str()); w->running = 1; _exit(77); }
	}
	_exit(0);
}
} // namespace

extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
	static uint32_t next; if (a == b || *a) return;
	for (; a < b; a++) *a = 1 + next++ % (COVMAP - 1);
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t *g) { if (cov) cov[*g]++; }

void label(const char *n) { g_labels.push_back(n); }
void nontrivial() { g_nontrivial = true; }
void describe(const std::string &s) { g_desc = s; }
bool verbose() { return g_verbose; }


static bool load(const char *p, std::vector<uint8_t> &t) {
	FILE *f = fopen(p, "rb"); if (!f) return false;
	int c; while ((c = fgetc(f)) != EOF) t.push_back((uint8_t)c);
	fclose(f); return true;
}

int main(int argc, char **argv) {
	setvbuf(stdout, nullptr, _IOLBF, 0);
	const char *evidence = nullptr, *replaydir = ".", *replay = nullptr;
	double budget = 0; unsigned long cases = 0; int workers = prop_info.workers ? prop_info.workers : 8;
	std::vector<std::string> extra; bool thorough_arg = false;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto next = [&] { return i + 1 < argc ? argv[++i] : (char *)""; };
		if (a == "--evidence") evidence = next();
		else if (a == "--replaydir") replaydir = next();
		else if (a == "--replay") replay = next();
		else if (a == "--budget") budget = atof(next());
		else if (a == "--shrink") shrink_s = atof(next());
		else if (a == "--cases") cases = strtoul(next(), nullptr, 10);
		else if (a == "--workers") workers = atoi(next());
		else if (a == "--tape") extra.push_back(next());
		else if (a == "--thorough") thorough_arg = true;
		else if (a == "-v") g_verbose = true;
		else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
	}
	const char *tier = getenv("VERIF_TIER"); if (!tier) tier = "quick";
	g_thorough = thorough_arg || !strcmp(tier, "thorough");
	if (getenv("VERIF_SEED")) g_seed = strtoull(getenv("VERIF_SEED"), nullptr, 10);
	double t0 = now();
	if (!cases) cases = g_thorough ? prop_info.thorough_cases : prop_info.quick_cases;
	if (budget <= 0) budget = g_thorough ? 500 : 120;
	if (workers > MAXW) workers = MAXW;
	double limit = prop_info.case_limit_s > 0 ? prop_info.case_limit_s : 30;
	int reps = prop_info.racy == 1 ? 60 : prop_info.racy == 2 ? 10 : 3;
	bool racy1 = prop_info.racy == 1, racy2 = prop_info.racy == 2;

	if (replay) {
		std::vector<uint8_t> t;
		if (!load(replay, t)) { fprintf(stderr, "cannot read %s\n", replay); return 2; }
		if (g_verbose) {
			prop_setup(); std::string m;
			Outcome oc = run_prop(t.data(), t.size(), m);
			fprintf(stderr, "case: %s\n", g_desc.c_str());
			if (oc == FAILED) { printf("FAIL: %s\n", m.c_str()); return 1; }
			printf("%s\n", oc == PASS ? "PASS" : "DISCARD"); return 0;
		}
		for (int i = 0; i < reps; i++) {
			One o = run_one(t, limit * 2);
			if (o.failed) { printf("VIOLATION property=%s replay=%s\n%s\n", prop_info.id, replay, o.msg.c_str()); return 1; }
		}
		printf("replay passed\n"); return 0;
	}

	g_errfile = strf("/tmp/pbt.%s.%d.err", prop_info.id, getpid());
	auto *ws = (Worker *)mmap(nullptr, sizeof(Worker) * workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (ws == MAP_FAILED) { perror("mmap"); return 2; }
	std::vector<pid_t> pids(workers, 0);
	std::vector<std::string> errs(workers);
	struct Fail { std::vector<uint8_t> t; std::string msg; bool hung; };
	std::vector<Fail> fails;
	unsigned inconclusive = 0, unconfirmed = 0;
	double deadline = t0 + budget;
	auto start = [&](int k, uint64_t first) {
		errs[k] = g_errfile + strf(".%d", k);
		pid_t p = fork();
		if (p < 0) { perror("fork"); exit(2); }
		if (p == 0) {
			setpgid(0, 0);
			int fd = open(errs[k].c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
			if (fd >= 0) { dup2(fd, 2); close(fd); }
			worker_main(&ws[k], first, cases, workers, deadline);
		}
		pids[k] = p;
	};
	// stored regression tapes run first
	for (auto &e : extra) {
		std::vector<uint8_t> t; if (!load(e.c_str(), t)) continue;
		for (int i = 0; i < (prop_info.racy ? 5 : 1); i++) {
			One o = run_one(t, limit);
			if (o.failed) { fails.push_back({t, o.msg, o.hung}); break; }
		}
	}
	for (int k = 0; k < workers; k++) start(k, k);
	int live = workers;
	while (live > 0 && fails.size() < 3) {
		bool any = false;
		for (int k = 0; k < workers; k++) {
			if (!pids[k]) continue;
			int st; pid_t r = waitpid(pids[k], &st, WNOHANG);
			bool hung = false;
			if (r == 0) {
				if (ws[k].running && now() - ws[k].started > limit) {
					kill(-pids[k], SIGKILL); kill(pids[k], SIGKILL); waitpid(pids[k], &st, 0); hung = true;
				} else continue;
			}
			any = true;
			pids[k] = 0;
			if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0) { live--; continue; }
			uint64_t i = ws[k].cur_case;
			std::string m = hung ? "the case did not finish (hang)" :
				(WIFEXITED(st) && WEXITSTATUS(st) == 77) ? std::string(ws[k].msg) :
				strf("worker ended with status 0x%x: ", st) + read_tail(errs[k].c_str());
			fails.push_back({std::vector<uint8_t>(ws[k].tape, ws[k].tape + ws[k].tape_n), m, hung});
			fprintf(stderr, "case %llu failed: %.600s\n", (unsigned long long)i, m.c_str());
			ws[k].running = 0;
			if (fails.size() < 3 && now() < deadline) start(k, i + workers); else live--;
		}
		if (!any) usleep(1000);
	}
	for (int k = 0; k < workers; k++) if (pids[k]) { kill(-pids[k], SIGKILL); kill(pids[k], SIGKILL); waitpid(pids[k], nullptr, 0); }

	// confirm and shrink
	int violations = 0; std::string vpath, vmsg;
	for (auto &f : fails) {
		int hits = 0; One o{};
		bool ok3 = true;
		for (int i = 0; i < reps; i++) {
			o = run_one(f.t, f.hung ? limit * 1.5 : limit);
			if (o.failed) { hits++; if (racy1) break; } else ok3 = false;
			if (racy2 && ((i >= 2 && hits == i + 1) || (i > 2 && hits >= 2))) break;
		}
		bool confirmed = racy1 ? hits > 0 : racy2 ? hits >= 2 : ok3;
		if (!confirmed && racy1 && !f.hung && fails.size() >= 3) confirmed = true; // three independent cases failed
		if (!confirmed) {
			if (f.hung) inconclusive++; else unconfirmed++;
			fprintf(stderr, "not reproduced on replay (%d hits of %d): %.400s\n", hits, reps, f.msg.c_str());
			continue;
		}
		std::string msg = o.failed ? o.msg : f.msg;
		auto best = f.t;
		if ((racy2 ? ok3 : !racy1) && !o.hung) best = shrink(f.t, shrink_s >= 0 ? shrink_s : g_thorough ? 60 : 25, msg, limit, false);
		if ((racy2 ? ok3 : !racy1) && !o.hung) {
			int again = 0; for (int i = 0; i < 3; i++) again += run_one(best, limit).failed;
			if (again < 3) best = f.t;
		}
		mkdir(replaydir, 0755);
		vpath = strf("%s/%s-%016llx.tape", replaydir, prop_info.id, (unsigned long long)fnv(best.data(), best.size()));
		FILE *fp = fopen(vpath.c_str(), "wb");
		if (fp) { fwrite(best.data(), 1, best.size(), fp); fclose(fp); }
		violations++;
		printf("VIOLATION property=%s replay=%s\n%s\n", prop_info.id, vpath.c_str(), msg.substr(0, 2500).c_str());
		break;
	}
	for (auto &e : errs) unlink(e.c_str());
	unlink(g_errfile.c_str());

	// evidence
	uint64_t evals = 0, disc = 0, nt = 0, guided = 0, ncorpus = 0, edges = 0;
	std::unordered_set<uint64_t> H; std::map<std::string, uint64_t> labs; std::vector<std::string> samples;
	for (int k = 0; k < workers; k++) {
		evals += ws[k].evals; disc += ws[k].discards; nt += ws[k].nontriv; guided += ws[k].guided; ncorpus += ws[k].corpus; edges = std::max(edges, (uint64_t)ws[k].edges);
		for (uint64_t i = 0; i < ws[k].nhash; i++) H.insert(ws[k].hash[i]);
		for (int i = 0; i < NLAB && ws[k].lab[i][0]; i++) labs[ws[k].lab[i]] += ws[k].labn[i];
		for (int i = 0; i < ws[k].nsamp && (int)samples.size() < 8; i++) if (i < 2) samples.push_back(ws[k].samp[i]);
	}
	double wall = now() - t0;
	if (evidence) {
		FILE *f = fopen(evidence, "w");
		if (!f) { perror(evidence); return 2; }
		fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"%s\",\n", prop_info.id, g_thorough ? "thorough" : "quick", (unsigned long long)g_seed, prop_info.level);
		fprintf(f, " \"coverage\": {\n  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %llu,\n  \"nontrivial_cases\": %llu,\n  \"discarded\": %llu,\n  \"hang_inconclusive\": %u,\n  \"unconfirmed_failures\": %u,\n  \"stored_tapes\": %zu,\n  \"coverage_guided_cases\": %llu,\n  \"coverage_corpus\": %llu,\n  \"edges_reached\": %llu,\n  \"rule\": ",
			(unsigned long long)evals, (unsigned long long)H.size(), (unsigned long long)nt, (unsigned long long)disc, inconclusive, unconfirmed, extra.size(), (unsigned long long)guided, (unsigned long long)ncorpus, (unsigned long long)edges);
		json_str(f, prop_info.rule);
		fprintf(f, ",\n  \"labels\": {");
		bool first = true;
		for (auto &l : labs) { fprintf(f, "%s\n   ", first ? "" : ","); json_str(f, l.first); fprintf(f, ": %llu", (unsigned long long)l.second); first = false; }
		fprintf(f, "},\n  \"samples\": [");
		first = true;
		for (auto &s : samples) { fprintf(f, "%s\n   ", first ? "" : ","); json_str(f, s); first = false; }
		fprintf(f, "]\n },\n \"assumptions\": [");
		first = true;
		for (auto a : prop_info.assumptions) { fprintf(f, "%s\n  ", first ? "" : ","); json_str(f, a); first = false; }
		fprintf(f, "],\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", wall, violations);
		fclose(f);
	}
	printf("%s: %llu cases, %zu distinct non-trivial, %llu discarded, %.1fs%s\n", prop_info.id, (unsigned long long)evals, H.size(), (unsigned long long)disc, wall, violations ? " VIOLATED" : "");
	if (verbose()) for (auto &l : labs) printf("  %-40s %llu\n", l.first.c_str(), (unsigned long long)l.second);
	if (violations) return 1;
	if (evals == 0) { fprintf(stderr, "no case was evaluated\n"); return 2; }
	if (unconfirmed) fprintf(stderr, "warning: %u failing case(s) did not reproduce\n", unconfirmed);
	return 0;
}
