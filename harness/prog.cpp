#include "prog.hpp"
#include <cerrno>
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <sched.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

ProgShm *prog_shm; bool prog_child;
void prog_init() { if (!prog_shm) prog_shm = (ProgShm *)mmap(nullptr, sizeof(ProgShm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
int prog_point() {
	if (!prog_child) return 0;
	int p = prog_shm->points++;
	for (int i = 0; i < prog_shm->nsig; i++) if (prog_shm->sig[i].at == p) { prog_shm->sig[i].raised = 1; if (prog_shm->sig[i].no == SIGUSR1 && prog_shm->vtime) prog_shm->vtime += 1; ::kill(getpid(), prog_shm->sig[i].no); prog_shm->sigs_done++; }
	return p;
}
static bool virt() { return prog_child && prog_shm->vtime; }
extern "C" {
// Clocks as seen by the program (linked with --wrap).
time_t __real_time(time_t *); int __real_clock_gettime(clockid_t, struct timespec *); int __real_gettimeofday(struct timeval *, void *);
time_t __wrap_time(time_t *p) { if (!virt()) return __real_time(p); time_t v = prog_shm->vtime; if (p) *p = v; return v; }
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) { if (!virt()) return __real_clock_gettime(c, ts); ts->tv_sec = prog_shm->vtime; ts->tv_nsec = 0; return 0; }
int __wrap_gettimeofday(struct timeval *tv, void *tz) { if (!virt()) return __real_gettimeofday(tv, tz); tv->tv_sec = prog_shm->vtime; tv->tv_usec = 0; return 0; }

// System calls made by libevent (resolved to these definitions at run time).
int epoll_wait(int fd, struct epoll_event *ev, int n, int timeout) {
	if (prog_child) { prog_point(); prog_shm->waits++; prog_shm->ready = 1; prog_shm->idle = timeout != 0; }
	int r = syscall(SYS_epoll_wait, fd, ev, n, timeout);
	if (prog_child) { int e = errno; prog_shm->idle = 0; prog_point(); errno = e; }
	return r;
}
static ssize_t capped(int nr, int fd, const struct iovec *v, int n, unsigned cap) {
	if (!cap) return syscall(nr, fd, v, n);
	struct iovec w[8]; int k = 0; size_t left = cap;
	for (; k < n && k < 8 && left; k++) { w[k] = v[k]; if (w[k].iov_len > left) w[k].iov_len = left; left -= w[k].iov_len; }
	return syscall(nr, fd, w, k);
}
ssize_t readv(int fd, const struct iovec *v, int n) {
	if (!prog_child) return syscall(SYS_readv, fd, v, n);
	prog_point();
	ssize_t r = capped(SYS_readv, fd, v, n, prog_shm->rcap);
	int e = errno; if (r > 0) prog_shm->rbytes += r; prog_point(); errno = e;
	return r;
}
ssize_t writev(int fd, const struct iovec *v, int n) {
	if (!prog_child) return syscall(SYS_writev, fd, v, n);
	prog_point();
	ssize_t r = capped(SYS_writev, fd, v, n, prog_shm->wcap);
	int e = errno; prog_point(); errno = e;
	return r;
}
}

extern "C" {
// Calls made by the socket writers, libevent and the program.
int connect(int fd, const struct sockaddr *a, socklen_t n) { if (prog_child) prog_shm->nconnect++; return syscall(SYS_connect, fd, a, n); }
static int do_accept(int fd, struct sockaddr *a, socklen_t *n, int flags) {
	if (prog_child) { int k = prog_shm->naccept++; if (k >= prog_shm->acc_at && k < prog_shm->acc_at + prog_shm->acc_n) { errno = prog_shm->acc_err; return -1; } }
	return syscall(SYS_accept4, fd, a, n, flags);
}
int accept(int fd, struct sockaddr *a, socklen_t *n) { return do_accept(fd, a, n, 0); }
int accept4(int fd, struct sockaddr *a, socklen_t *n, int flags) { return do_accept(fd, a, n, flags); }
int bind(int fd, const struct sockaddr *a, socklen_t n) { if (prog_child) prog_shm->nbind++; return syscall(SYS_bind, fd, a, n); }
ssize_t sendmsg(int fd, const struct msghdr *m, int flags) {
	if (!prog_child) return syscall(SYS_sendmsg, fd, m, flags);
	prog_point();
	unsigned cap = prog_shm->wcap;
	if (!cap) { ssize_t r = syscall(SYS_sendmsg, fd, m, flags); int e = errno; prog_point(); errno = e; return r; }
	struct msghdr h = *m; struct iovec w[8]; size_t k = 0, left = cap;
	for (; k < m->msg_iovlen && k < 8 && left; k++) { w[k] = m->msg_iov[k]; if (w[k].iov_len > left) w[k].iov_len = left; left -= w[k].iov_len; }
	h.msg_iov = w; h.msg_iovlen = k;
	ssize_t r = syscall(SYS_sendmsg, fd, &h, flags); int e = errno; prog_point(); errno = e;
	return r;
}
ssize_t read(int fd, void *p, size_t n) {
	if (!prog_child) return syscall(SYS_read, fd, p, n);
	if (prog_shm->rcap && n > prog_shm->rcap) n = prog_shm->rcap;
	return syscall(SYS_read, fd, p, n);
}
}

double mono() { timespec ts; __real_clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
std::string slurp_file(const std::string &path, bool *exists) {
	std::string s; int fd = open(path.c_str(), O_RDONLY);
	if (exists) *exists = fd >= 0;
	if (fd < 0) return s;
	char b[65536]; ssize_t n;
	while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n);
	close(fd);
	return s;
}
bool put_file(const std::string &path, const std::string &data) {
	int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
	if (fd < 0) return false;
	bool ok = write(fd, data.data(), data.size()) == (ssize_t)data.size();
	close(fd); return ok;
}
Scratch::Scratch() {
	char b[] = "/tmp/pbt-XXXXXX";
	if (!mkdtemp(b)) { perror("mkdtemp"); _exit(2); }
	dir = b;
}
Scratch::~Scratch() {
	DIR *d = opendir(dir.c_str());
	if (d) {
		while (auto *e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) unlink((dir + "/" + e->d_name).c_str());
		closedir(d);
	}
	rmdir(dir.c_str());
}

void Child::start(int (*mainfn)(int, char **), const std::vector<std::string> &args, std::function<void()> pre, int in, int out) {
	if (done) { close(errfd); errfd = -1; done = false; }    // started again
	fflush(nullptr);
	prog_shm->nconnect = prog_shm->nbind = prog_shm->naccept = 0;
	errfd = memfd_create("stderr", MFD_CLOEXEC);
	pid = fork();
	if (pid < 0) { perror("fork"); _exit(2); }
	if (pid) return;
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	signal(SIGPIPE, SIG_DFL);
	dup2(errfd, 2);
	if (in >= 0) dup2(in, 0);
	int nul = open("/dev/null", O_RDWR);
	if (in < 0) dup2(nul, 0);
	dup2(out >= 0 ? out : nul, 1);
	std::vector<char *> av; std::vector<std::string> copy = args;
	for (auto &a : copy) av.push_back(strdup(a.c_str()));
	av.push_back(nullptr);
	if (pre) pre();
	prog_child = true;
	int rc = mainfn((int)args.size(), av.data());
	prog_child = false;
	exit(rc);
}
bool Child::wait(double limit) {
	if (done) return true;
	double end = mono() + limit;
	for (int i = 0;; i++) {
		int st; pid_t r = waitpid(pid, &st, WNOHANG);
		if (r == pid) { status = st; done = true; return true; }
		if (mono() >= end) return false;
		if (i < 50) sched_yield(); else usleep(100);
	}
}
void Child::kill(int sig) { if (!done) ::kill(pid, sig); }
int Child::code() const { return WIFEXITED(status) ? WEXITSTATUS(status) : -WTERMSIG(status); }
std::string Child::err() {
	std::string s; char b[8192]; ssize_t n; off_t o = 0;
	while ((n = pread(errfd, b, sizeof b, o)) > 0) { s.append(b, n); o += n; }
	return s;
}
void Child::check_sane() {
	if (!done) return;
	std::string e = err();
	size_t p = e.find("ERROR: AddressSanitizer"); if (p == std::string::npos) p = e.find("runtime error:");
	if (WIFSIGNALED(status) || WEXITSTATUS(status) == 99 || p != std::string::npos)
		fail("the program crashed (%s %d): %.1800s", WIFSIGNALED(status) ? "signal" : "exit", WIFSIGNALED(status) ? WTERMSIG(status) : WEXITSTATUS(status), e.c_str() + (p == std::string::npos ? (e.size() > 1500 ? e.size() - 1500 : 0) : (p > 200 ? p - 200 : 0)));
}
Child::~Child() {
	if (pid > 0 && !done) { ::kill(pid, SIGKILL); waitpid(pid, &status, 0); }
	if (errfd >= 0) close(errfd);
}
