#include "sim.hpp"
#include <map>
#include <memory>
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <errno.h>
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/asan_interface.h>

extern "C" int __real_pthread_sigmask(int, const sigset_t *, sigset_t *);
namespace sim {
enum St { RUNNABLE, WAIT_MUTEX, WAIT_COND, WAIT_JOIN, SLEEPING, DONE };
struct Fiber {
	int id; std::string name;
	ucontext_t ctx; char *stack = nullptr; const void *bottom = nullptr; size_t size = 0; void *fake = nullptr;
	std::function<void()> fn; void *ret = nullptr;
	St st = RUNNABLE; void *on = nullptr; int joining = -1;
	int64_t deadline = -1; bool timedout = false;
	int64_t blocked_ns = 0, block_start = 0;
	bool nopre = false, detached = false, joined = false, lib = false, low = false; int stall = 0;
	sigset_t mask; Fiber() { sigemptyset(&mask); }
};
struct Mutex { int owner = -1; int depth = 0; bool recursive = false; };
struct Cond { clockid_t clk = CLOCK_REALTIME; };
static bool on;
static Tape *tape;
static Opts opt;
static std::vector<std::unique_ptr<Fiber>> fibers;
static std::map<void *, Mutex> mutexes;
static std::map<void *, Cond> conds;
static std::vector<char *> pool;
static int cur;
static int64_t vnow;
static int64_t gap;
static uint64_t steps /* since the clock last jumped */, nswitch, since_switch;
static int spurious_left;
static std::string err;
static constexpr size_t STK = 256 * 1024;

bool active() { return on; }
int64_t now() { return vnow; }
int self() { return cur; }
void stall_at(int n) { fibers[cur]->stall = n; }
bool stands(int sig) {
	struct sigaction sa; sigset_t m;
	if (!on || !fibers[cur]->lib || sigismember(&fibers[cur]->mask, sig) == 1) return true;
	if (sigaction(sig, nullptr, &sa) == 0 && ((sa.sa_flags & SA_SIGINFO) || sa.sa_handler != SIG_DFL)) return true;
	return __real_pthread_sigmask(SIG_BLOCK, nullptr, &m) == 0 && sigismember(&m, sig) == 1;   // (each fiber has its own)
}
uint64_t switches() { return nswitch; }
int64_t blocked() { return fibers[cur]->blocked_ns; }
void error(const std::string &s) { if (err.empty()) err = s; if (verbose()) fprintf(stderr, "  ERROR: %s\n", s.c_str()); }
const std::string &first_error() { return err; }
void nopreempt(bool b) { fibers[cur]->nopre = b; }

static void redraw() {
	if (opt.mode == 0 || tape->exhausted()) { gap = INT64_MAX; return; }
	int64_t b = tape->byte();
	if (tape->exhausted()) { gap = INT64_MAX; return; }
	switch (opt.mode) {
	case 1: gap = 1 + b % 8; break;
	case 2: gap = 1 + b % 64; break;
	case 3: gap = 1 + b * b / 32; break;
	default: gap = 1 + b * b / 4; break;
	}
}
[[noreturn]] static void die(const std::string &why) {
	// The state of the simulated threads cannot be unwound: end the process.
	std::string s = "simulation stopped: " + why + "\n";
	if (!err.empty()) s += "  earlier error: " + err + "\n";
	static const char *names[] = {"runnable", "waiting for a mutex", "waiting on a condition variable", "joining", "sleeping", "finished"};
	for (auto &f : fibers) s += strf("  thread %d (%s): %s, deadline %.3f s\n", f->id, f->name.c_str(), names[f->st], f->deadline / 1e9);
	s += strf("  virtual time %.6f s, steps %llu\n", vnow / 1e9, (unsigned long long)steps);
	fprintf(stderr, "%s", s.c_str());
	_exit(98);
}
static void switch_to(int to) {
	if (to == cur) return;
	Fiber *a = fibers[cur].get(), *b = fibers[to].get();
	nswitch++; since_switch = 0; cur = to;
	__sanitizer_start_switch_fiber(a->st == DONE ? nullptr : &a->fake, b->bottom, b->size);
	swapcontext(&a->ctx, &b->ctx);
	// back in a
	__sanitizer_finish_switch_fiber(a->fake, nullptr, nullptr);
}
static void pick_and_switch(bool must) {
	std::vector<int> r;
	for (;;) {
		int n = (int)fibers.size();
		for (int k = 1; k <= n; k++) { int i = (cur + k) % n; if (i != cur && fibers[i]->st == RUNNABLE) r.push_back(i); }
		// (a stalled fiber runs only when the others are blocked)
		std::vector<int> up; for (int i : r) if (!fibers[i]->low) up.push_back(i);
		if (!up.empty()) r.swap(up);
		else if (fibers[cur]->st == RUNNABLE && !fibers[cur]->low) return;
		if (!r.empty()) break;
		if (fibers[cur]->st == RUNNABLE) return;
		if (!must) return;
		// nothing can run: advance the clock
		int64_t d = -1;
		for (auto &f : fibers) if (f->st != RUNNABLE && f->st != DONE && f->deadline >= 0 && (d < 0 || f->deadline < d)) d = f->deadline;
		if (d < 0) die("deadlock: no thread can run and none has a deadline");
		if (d > vnow) { vnow = d; steps = 0; }
		if (vnow > 40000000ll * SEC) die("virtual time ran away");
		for (auto &f : fibers) if (f->st != RUNNABLE && f->st != DONE && f->deadline >= 0 && f->deadline <= vnow) {
			f->timedout = true; f->deadline = -1; f->blocked_ns += vnow - f->block_start; f->st = RUNNABLE; f->on = nullptr;
		}
	}
	int to = r.size() == 1 ? r[0] : r[tape->byte() % r.size()];
	switch_to(to);
}
static void step() {
	if (++steps > opt.max_steps) die("livelock: step limit reached");
	since_switch++;
	Fiber *f = fibers[cur].get();
	if (f->stall > 0 && --f->stall == 0) { f->low = true; pick_and_switch(false); f->low = false; return; }
	if (f->nopre && since_switch < 4000000) return;
	if (--gap <= 0) { redraw(); pick_and_switch(false); }
	else if (since_switch >= 5000) pick_and_switch(false);
}
void yield() { if (on) { if (fibers[cur]->nopre) return; pick_and_switch(false); } }
// Block the current fiber until made runnable.
static void block(St st, void *what, int64_t deadline) {
	if (++steps > opt.max_steps) die("livelock: step limit reached");
	Fiber *f = fibers[cur].get();
	f->st = st; f->on = what; f->deadline = deadline; f->timedout = false; f->block_start = vnow;
	pick_and_switch(true);
}
static void wake(Fiber *f) { f->blocked_ns += vnow - f->block_start; f->st = RUNNABLE; f->on = nullptr; f->deadline = -1; f->timedout = false; }
void sleep_until(int64_t t) { if (t <= vnow) { yield(); return; } block(SLEEPING, nullptr, t); }
void sleep_for(int64_t d) { sleep_until(vnow + d); }

static void entry(unsigned lo, unsigned hi) {
	Fiber *f = (Fiber *)((uintptr_t)hi << 32 | lo);
	__sanitizer_finish_switch_fiber(nullptr, nullptr, nullptr);
	f->fn();
	f->st = DONE;
	for (auto &g : fibers) if (g->st == WAIT_JOIN && g->joining == f->id) wake(g.get());
	pick_and_switch(true);
	abort();
}
int spawn(const char *name, std::function<void()> fn) {
	auto f = std::make_unique<Fiber>();
	f->id = (int)fibers.size(); f->name = name; f->fn = std::move(fn);
	if (pool.empty()) {
		char *m = (char *)mmap(nullptr, STK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if (m == MAP_FAILED) { perror("mmap"); abort(); }
		mprotect(m, 4096, PROT_NONE);
		pool.push_back(m + 4096);
	}
	f->stack = pool.back(); pool.pop_back();
	__asan_unpoison_memory_region(f->stack, STK);
	f->bottom = f->stack; f->size = STK;
	getcontext(&f->ctx);
	f->ctx.uc_stack.ss_sp = f->stack; f->ctx.uc_stack.ss_size = STK; f->ctx.uc_link = nullptr;
	uintptr_t p = (uintptr_t)f.get();
	makecontext(&f->ctx, (void (*)())entry, 2, (unsigned)(p & 0xffffffffu), (unsigned)(p >> 32));
	int id = f->id;
	fibers.push_back(std::move(f));
	return id;
}
void join(int id) {
	step();
	while (fibers[id]->st != DONE) { fibers[cur]->joining = id; block(WAIT_JOIN, nullptr, -1); }
	fibers[id]->joined = true;
}
void begin(Tape *t, const Opts &o) {
	tape = t; opt = o; fibers.clear(); mutexes.clear(); conds.clear();
	cur = 0; vnow = 0; steps = nswitch = since_switch = 0; err.clear(); spurious_left = o.spurious;
	auto f = std::make_unique<Fiber>(); f->id = 0; f->name = "main";
	pthread_attr_t a; void *b; size_t s;
	pthread_getattr_np(pthread_self(), &a); pthread_attr_getstack(&a, &b, &s); pthread_attr_destroy(&a);
	f->bottom = b; f->size = s;
	fibers.push_back(std::move(f));
	redraw();
	on = true;
}
void end() {
	on = false;
	for (auto &f : fibers) if (f->stack) { if (f->st != DONE) { on = true; die("thread still running at the end: " + f->name); } pool.push_back(f->stack); }
	for (auto &m : mutexes) if (m.second.owner >= 0) { error("a mutex was left locked"); break; }
}

static int64_t base_of(clockid_t c) {
	switch (c) {
	case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: case CLOCK_TAI: return 1700000000ll * SEC + opt.frac;
	default: return opt.uptime * SEC + opt.frac;
	}
}
static bool wall(clockid_t c) { return c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI; }
static int64_t clock_ns(clockid_t c) {
	int64_t t = base_of(c) + vnow;
	if (wall(c)) for (auto &j : opt.jumps) if (vnow >= j.first) t += j.second;
	return t;
}
// The virtual time at which a clock reaches a value (jumps are in order of time).
static int64_t reached(clockid_t c, int64_t abs) {
	int64_t d = abs - base_of(c), off = 0, from = 0;
	if (!wall(c)) return d;
	for (size_t i = 0; i <= opt.jumps.size(); i++) {
		int64_t to = i < opt.jumps.size() ? opt.jumps[i].first : INT64_MAX, t = std::max(std::max(d - off, from), vnow);
		if (t < to) return t;
		if (i < opt.jumps.size()) { off += opt.jumps[i].second; from = to; }
	}
	return d;
}
static Mutex &mtx(void *m) {
	auto it = mutexes.find(m);
	if (it == mutexes.end()) it = mutexes.emplace(m, Mutex{}).first;
	return it->second;
}
static void lock(void *m) {
	Mutex &x = mtx(m);
	while (x.owner >= 0) {
		if (x.owner == cur) { if (x.recursive) { x.depth++; return; } die("a thread locks a mutex it already holds"); }
		block(WAIT_MUTEX, m, -1);
	}
	x.owner = cur; x.depth = 1;
}
static void unlock(void *m) {
	Mutex &x = mtx(m);
	if (x.owner != cur) { error("a thread unlocks a mutex it does not hold"); return; }
	if (--x.depth > 0) return;
	x.owner = -1;
	for (auto &f : fibers) if (f->st == WAIT_MUTEX && f->on == m) wake(f.get());
}
static int cwait(void *c, void *m, int64_t deadline) {
	if (mtx(m).owner != cur) error("condition wait without holding the mutex");
	unlock(m);
	int r = 0;
	if (deadline >= 0 && deadline <= vnow) { pick_and_switch(false); r = ETIMEDOUT; }
	else if (spurious_left > 0 && tape->chance(30)) { spurious_left--; pick_and_switch(false); }
	else { block(WAIT_COND, c, deadline); r = fibers[cur]->timedout ? ETIMEDOUT : 0; }
	lock(m);
	return r;
}
static int64_t abs_ns(const struct timespec *ts) {
	if (ts->tv_sec > 8000000000ll) return 8000000000ll * SEC;
	return ts->tv_sec * SEC + ts->tv_nsec;
}
static void nap(int64_t ns) { step(); sleep_until(vnow + (ns < 1 ? 1 : ns)); }
} // namespace sim

using namespace sim;
#define REAL(ret, name, ...) ret __real_##name(__VA_ARGS__)
extern "C" {
REAL(int, pthread_create, pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
REAL(int, pthread_join, pthread_t, void **);
REAL(int, pthread_detach, pthread_t);
REAL(pthread_t, pthread_self, void);
REAL(int, pthread_mutex_init, pthread_mutex_t *, const pthread_mutexattr_t *);
REAL(int, pthread_mutex_destroy, pthread_mutex_t *);
REAL(int, pthread_mutex_lock, pthread_mutex_t *);
REAL(int, pthread_mutex_trylock, pthread_mutex_t *);
REAL(int, pthread_mutex_unlock, pthread_mutex_t *);
REAL(int, pthread_cond_init, pthread_cond_t *, const pthread_condattr_t *);
REAL(int, pthread_cond_destroy, pthread_cond_t *);
REAL(int, pthread_cond_wait, pthread_cond_t *, pthread_mutex_t *);
REAL(int, pthread_cond_timedwait, pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
REAL(int, pthread_cond_clockwait, pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *);
REAL(int, pthread_cond_signal, pthread_cond_t *);
REAL(int, pthread_cond_broadcast, pthread_cond_t *);
REAL(int, clock_gettime, clockid_t, struct timespec *);
REAL(int, gettimeofday, struct timeval *, void *);
REAL(time_t, time, time_t *);
REAL(int, nanosleep, const struct timespec *, struct timespec *);
REAL(int, clock_nanosleep, clockid_t, int, const struct timespec *, struct timespec *);
REAL(int, usleep, useconds_t);
REAL(unsigned, sleep, unsigned);
REAL(int, sched_yield, void);

// pthread_t of a simulated thread: its id, tagged
static const pthread_t TAG = (pthread_t)0x5151000000000000ull;
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
	if (!on) return __real_pthread_create(t, a, fn, arg);
	int id = spawn("library thread", nullptr);
	Fiber *f = fibers[id].get();
	f->lib = true; f->mask = fibers[cur]->mask;
	f->fn = [f, fn, arg] { f->ret = fn(arg); };
	if (a) { int ds = 0; pthread_attr_getdetachstate(a, &ds); f->detached = ds == PTHREAD_CREATE_DETACHED; }
	*t = TAG | id;
	step();
	return 0;
}
int __wrap_pthread_join(pthread_t t, void **ret) {
	if (!on) return __real_pthread_join(t, ret);
	int id = (int)(t & 0xffffffff);
	if ((t & ~0xffffffffull) != TAG || id >= (int)fibers.size()) { error("pthread_join of something that is no thread"); return ESRCH; }
	if (fibers[id]->joined) error("pthread_join: joined twice");
	sim::join(id);
	if (ret) *ret = fibers[id]->ret;
	return 0;
}
int __wrap_pthread_detach(pthread_t t) { if (!on) return __real_pthread_detach(t); return 0; }
pthread_t __wrap_pthread_self(void) { if (!on) return __real_pthread_self(); return TAG | cur; }
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
	if (!on) return __real_pthread_mutex_init(m, a);
	Mutex x; if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); x.recursive = k == PTHREAD_MUTEX_RECURSIVE; }
	memset((void *)m, 0, sizeof *m);
	mutexes[m] = x; return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) {
	if (!on) return __real_pthread_mutex_destroy(m);
	auto it = mutexes.find(m);
	if (it != mutexes.end()) { if (it->second.owner >= 0) error("a locked mutex is destroyed"); mutexes.erase(it); }
	*(volatile char *)m = 0;
	return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
	if (!on) return __real_pthread_mutex_lock(m);
	(void)*(volatile char *)m;     // let ASan see the access
	step(); lock(m); return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
	if (!on) return __real_pthread_mutex_trylock(m);
	(void)*(volatile char *)m;
	step();
	if (mtx(m).owner >= 0 && !(mtx(m).recursive && mtx(m).owner == cur)) return EBUSY;
	lock(m); return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
	if (!on) return __real_pthread_mutex_unlock(m);
	(void)*(volatile char *)m;
	unlock(m); step(); return 0;
}
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) {
	if (!on) return __real_pthread_cond_init(c, a);
	Cond x; if (a) pthread_condattr_getclock(a, &x.clk);
	memset((void *)c, 0, sizeof *c);
	conds[c] = x; return 0;
}
int __wrap_pthread_cond_destroy(pthread_cond_t *c) {
	if (!on) return __real_pthread_cond_destroy(c);
	for (auto &f : fibers) if (f->st == WAIT_COND && f->on == c) error("a condition variable is destroyed while a thread waits on it");
	conds.erase(c);
	*(volatile char *)c = 0;
	return 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
	if (!on) return __real_pthread_cond_wait(c, m);
	(void)*(volatile char *)c;
	step(); return cwait(c, m, -1);
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
	if (!on) return __real_pthread_cond_timedwait(c, m, ts);
	(void)*(volatile char *)c;
	step();
	if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL;
	int64_t d = reached(conds[c].clk, abs_ns(ts));
	return cwait(c, m, d < 0 ? 0 : d);
}
int __wrap_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) {
	if (!on) return __real_pthread_cond_clockwait(c, m, k, ts);
	(void)*(volatile char *)c;
	step();
	if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL;
	int64_t d = reached(k, abs_ns(ts));
	return cwait(c, m, d < 0 ? 0 : d);
}
static int sig(pthread_cond_t *c, bool all) {
	(void)*(volatile char *)c;
	step();
	for (auto &f : fibers) if (f->st == WAIT_COND && f->on == c) { wake(f.get()); if (!all) break; }
	step();
	return 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) { if (!on) return __real_pthread_cond_signal(c); return sig(c, false); }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { if (!on) return __real_pthread_cond_broadcast(c); return sig(c, true); }
int __wrap_pthread_sigmask(int how, const sigset_t *s, sigset_t *o) {
	if (!on) return __real_pthread_sigmask(how, s, o);
	sigset_t &m = fibers[cur]->mask;
	if (o) *o = m;
	if (s && how == SIG_SETMASK) m = *s;
	else if (s) for (int i = 1; i < NSIG; i++) if (sigismember(s, i) == 1) how == SIG_BLOCK ? sigaddset(&m, i) : sigdelset(&m, i);
	return 0;
}
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) {
	if (!on) return __real_clock_gettime(c, ts);
	step();
	vnow += 100;                   // polling loops make progress
	int64_t t = clock_ns(c);
	ts->tv_sec = t / SEC; ts->tv_nsec = t % SEC;
	return 0;
}
int __wrap_gettimeofday(struct timeval *tv, void *z) {
	if (!on) return __real_gettimeofday(tv, z);
	struct timespec ts; __wrap_clock_gettime(CLOCK_REALTIME, &ts);
	tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
time_t __wrap_time(time_t *p) {
	if (!on) return __real_time(p);
	struct timespec ts; __wrap_clock_gettime(CLOCK_REALTIME, &ts);
	if (p) *p = ts.tv_sec;
	return ts.tv_sec;
}
int __wrap_nanosleep(const struct timespec *a, struct timespec *r) { if (!on) return __real_nanosleep(a, r); nap(abs_ns(a)); return 0; }
int __wrap_clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *r) {
	if (!on) return __real_clock_nanosleep(c, fl, a, r);
	nap(fl & TIMER_ABSTIME ? reached(c, abs_ns(a)) - vnow : abs_ns(a)); return 0;
}
int __wrap_usleep(useconds_t u) { if (!on) return __real_usleep(u); nap(u * 1000ll); return 0; }
unsigned __wrap_sleep(unsigned s) { if (!on) return __real_sleep(s); nap(s * SEC); return 0; }
int __wrap_sched_yield(void) { if (!on) return __real_sched_yield(); step(); pick_and_switch(false); return 0; }

// block copies in the instrumented code (compiled with -fno-builtin): switch points before, in the middle and after
REAL(void *, memcpy, void *, const void *, size_t);
REAL(void *, memmove, void *, const void *, size_t);
REAL(void *, memset, void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) {
	if (!on || n < 2) return __real_memcpy(d, s, n);
	size_t h = n / 2; step(); __real_memcpy(d, s, h); step(); __real_memcpy((char *)d + h, (const char *)s + h, n - h); step();
	return d;
}
void *__wrap_memmove(void *d, const void *s, size_t n) { if (on) step(); __real_memmove(d, s, n); if (on) step(); return d; }
void *__wrap_memset(void *d, int c, size_t n) { if (on) step(); __real_memset(d, c, n); if (on) step(); return d; }
// load/store callbacks from the instrumented library code
#define CB(n) void __sanitizer_cov_load##n(void *) { if (on) step(); } void __sanitizer_cov_store##n(void *) { if (on) step(); }
CB(1) CB(2) CB(4) CB(8) CB(16)
}
