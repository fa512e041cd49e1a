// Running one of the command-line programs (compiled in with main renamed) in
// a forked child, with control over time, signals, and short socket I/O.
#pragma once
#include "engine.hpp"
#include "ref.hpp"
#include <atomic>
#include <functional>
#include <string>
#include <vector>
#include <sys/types.h>

struct ProgShm {
	std::atomic<int> ready;          // event loop entered its first wait
	std::atomic<int64_t> vtime;      // seconds returned by the clocks (0: real time)
	std::atomic<int> points;         // signal points passed
	std::atomic<int> sigs_done;
	std::atomic<long> rbytes;        // bytes read with readv
	std::atomic<int> idle;           // blocked in epoll_wait
	std::atomic<int> nconnect, nbind; // calls of connect and bind
	std::atomic<int> waits;          // calls of epoll_wait
	int nsig;
	struct { int at, no, raised; } sig[8];   // raise `no` when point `at` is reached
	std::atomic<int> naccept;        // calls of accept
	int acc_at, acc_n, acc_err;      // calls acc_at .. acc_at+acc_n-1 of accept fail with acc_err (acc_n 0: none)
	unsigned rcap, wcap;             // longest socket read/write (0: unlimited)
};
extern ProgShm *prog_shm;                // valid after prog_init()
extern bool prog_child;                  // in the child
void prog_init();                        // once per worker
int prog_point();                        // (child) a point at which a planned signal may be raised

double mono();
std::string slurp_file(const std::string &path, bool *exists = nullptr);
bool put_file(const std::string &path, const std::string &data);

// A scratch directory, removed with everything in it.
struct Scratch {
	std::string dir;
	Scratch(); ~Scratch();
	std::string path(const char *name) const { return dir + "/" + name; }
};

struct Child {
	pid_t pid = -1; int errfd = -1, outfd = -1; int status = 0; bool done = false;
	std::string out_path;            // stdout goes to this memfd or file
	// args[0] is the program name.  pre runs in the child before main.
	void start(int (*mainfn)(int, char **), const std::vector<std::string> &args, std::function<void()> pre = {}, int stdin_fd = -1, int stdout_fd = -1);
	bool wait(double limit);         // false: still running
	bool running() { return !done && !wait(0); }
	void kill(int sig);
	int code() const;                // exit code, or -signal
	std::string err();               // stderr so far
	void check_sane();               // no crash, no sanitizer report
	~Child();
};
