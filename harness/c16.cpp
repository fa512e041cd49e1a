// C16: the message queues are FIFO and bounded under all interleavings.
#include "mock.hpp"
#include "sim.hpp"
#include <deque>
#include <pthread.h>
#include <atomic>
extern "C" {
#include <libmy/my_queue.h>
extern const struct my_queue_ops my_queue_mb_ops, my_queue_mutex_ops;
}
const PropInfo prop_info = {
	"C16",
	"A case is a queue implementation, a size, an element size and either a random single-threaded operation history compared with a reference deque, or producer and consumer scripts run by simulated threads that can be switched at every memory access of the queue code (with two real threads in a small share of the cases). Every result, reported space/count and removed element is checked. Non-trivial: the queue wrapped around at least once or was found both full and empty.",
	"exploration", 120000, 10000000, 500, 8, false, 30,
	{"Simulated interleavings are sequentially consistent; the real-thread cases run on x86-64 only.", "One consumer; one producer for the barrier variant unless the producers share a lock, as documented."}
};
void prop_setup() {}
static std::string elem(size_t sz, uint64_t n) {
	std::string s(sz, 0); uint64_t x = (n + 1) * 0x9E3779B97F4A7C15ull;
	for (size_t i = 0; i < sz; i++) { if (i < 4) s[i] = (char)(n >> (8 * i)); else { x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; s[i] = (char)(x >> 56); } }
	return s;
}
struct Q {
	const struct my_queue_ops *ops; struct my_queue *q = nullptr;
	~Q() { if (q) ops->destroy(&q); }
};
static void sequential(Tape &t, Q &Q, unsigned n, unsigned sz) {
	std::deque<std::string> model; size_t cap = n - 1; uint64_t serial = 0, wraps = 0; bool full = false, empty = false;
	unsigned bias = t.range(1, 254);
	while (!t.exhausted()) {
		unsigned rep = t.chance(40) ? n : 1;
		bool ins = t.byte() < bias, null = t.chance(40);
		for (unsigned i = 0; i < rep; i++) {
			unsigned v = 0xABCDEF;
			if (ins) {
				Exact e(elem(sz, serial));
				bool r = Q.ops->insert(Q.q, e.p, null ? nullptr : &v);
				bool want = model.size() < cap;
				CHECK(r == want, "insert into a queue of size %u holding %zu elements %s", n, model.size(), r ? "succeeded" : "failed");
				CHECK(e.str() == elem(sz, serial), "insert changed the caller's element");
				if (r) { model.push_back(e.str()); serial++; if (serial % n == 0) wraps++; } else full = true;
				if (!null) CHECK(v == cap - model.size(), "insert reported %u spaces in a queue of size %u holding %zu elements", v, n, model.size());
			} else {
				Exact e(sz, 0x5A);
				bool r = Q.ops->remove(Q.q, e.p, null ? nullptr : &v);
				CHECK(r == !model.empty(), "remove from a queue holding %zu elements %s", model.size(), r ? "succeeded" : "failed");
				if (r) { CHECK(e.str() == model.front(), "remove returned %s, expected %s", ref::hex(e.str()).c_str(), ref::hex(model.front()).c_str()); model.pop_front(); }
				else { empty = true; CHECK(e.str() == std::string(sz, 0x5A), "a failing remove wrote to the caller's element"); }
				if (!null) CHECK(v == model.size(), "remove reported %u elements, %zu are left", v, model.size());
			}
		}
	}
	if (wraps || (full && empty)) nontrivial();
	label("single-threaded history");
}
// very large queues: long runs of inserts and removes; the contents are told by serial numbers
static void large(Tape &t, Q &Q, unsigned n) {
	uint64_t in = 0, out = 0, cap = n - 1; bool full = false, empty = false;
	for (int round = 0; round < 5; round++) {
		uint64_t k = round % 2 || t.flip() ? n : t.raw(4) % n;
		for (uint64_t i = 0; i < k; i++) {
			uint64_t e = in * 0x9E3779B97F4A7C15ull; unsigned v = 0;
			bool r = Q.ops->insert(Q.q, &e, &v);
			CHECK(r == (in - out < cap), "insert into a queue of size %u holding %llu elements %s", n, (unsigned long long)(in - out), r ? "succeeded" : "failed");
			if (!r) { full = true; break; }
			in++;
			CHECK(v == cap - (in - out), "insert reported %u spaces in a queue of size %u holding %llu elements", v, n, (unsigned long long)(in - out));
		}
		k = round % 3 == 1 || t.flip() ? n : t.raw(4) % n;
		for (uint64_t i = 0; i < k; i++) {
			uint64_t e = 0; unsigned v = 0;
			bool r = Q.ops->remove(Q.q, &e, &v);
			CHECK(r == (in > out), "remove from a queue of size %u holding %llu elements %s", n, (unsigned long long)(in - out), r ? "succeeded" : "failed");
			if (!r) { empty = true; break; }
			CHECK(e == out * 0x9E3779B97F4A7C15ull, "element %llu of a queue of size %u came out altered or out of order", (unsigned long long)out, n);
			out++;
			CHECK(v == in - out, "remove reported %u elements, %llu are left", v, (unsigned long long)(in - out));
		}
	}
	if (full && empty) nontrivial();
	label("very large queue");
}
static void simulated(Tape &t, Q &Q, unsigned n, unsigned sz, unsigned np, bool lock, const sim::Opts &so) {
	size_t cap = n - 1;
	// counters for linearizability bounds
	uint64_t ins_started = 0, ins_done = 0, ins_pending = 0, rem_started = 0, rem_done = 0;
	bool full = false, empty = false;
	std::vector<unsigned> todo; for (unsigned p = 0; p < np; p++) todo.push_back(t.range(1, 60));
	unsigned total = 0; for (auto x : todo) total += x;
	bool drain_all = t.flip(); unsigned attempts = t.range(1, 200);
	std::vector<std::pair<unsigned, uint64_t>> accepted_call(1 << 16);  // by element number: producer, stamp
	struct El { uint64_t call = 0, ret = 0; bool ok = false; unsigned prod = 0; };
	std::vector<El> els(np * 64);
	std::vector<unsigned> out;
	uint64_t stamp = 0; int locked = 0;
	sim::begin(&t, so);
	std::vector<int> ids; int live = np;
	for (unsigned p = 0; p < np; p++) ids.push_back(sim::spawn("producer", [&, p] {
		unsigned fails = 0;
		for (unsigned k = 0; k < todo[p] && fails < 40;) {
			unsigned id = p * 64 + k;
			std::string s = elem(sz, id);
			Exact e(s);
			if (lock) { while (locked) sim::yield(), sim::sleep_for(1); locked = 1; }
			unsigned v = 0;
			uint64_t i0 = ins_started, r0 = rem_done; (void)i0;
			uint64_t succ0 = ins_done + ins_pending;      // inserts that may already be in
			ins_pending++; ins_started++;
			els[id].call = ++stamp; els[id].prod = p;
			bool r = Q.ops->insert(Q.q, e.p, &v);
			els[id].ret = ++stamp; els[id].ok = r;
			ins_pending--; if (r) ins_done++;
			// other producers' pending inserts may be in or not
			if (!r) {
				full = true; fails++;
				uint64_t most = ins_done + ins_pending - std::min<uint64_t>(ins_done + ins_pending, r0);
				if (most < cap) sim::error(strf("insert failed, but the queue of size %u can have held at most %llu elements", n, (unsigned long long)most));
			}
			if (np == 1 || lock) {
				uint64_t held = ins_done;
				uint64_t lo = held > r0 ? held - r0 : 0, hi = held > rem_started ? held - rem_started : 0;   // most and least that can be in the queue
				if (v + lo < cap || v + hi > cap) sim::error(strf("insert reported %u spaces in a queue of size %u that can hold between %llu and %llu elements", v, n, (unsigned long long)hi, (unsigned long long)lo));
			}
			(void)succ0;
			if (ins_done > rem_started + cap) sim::error(strf("%llu elements were inserted into a queue of size %u", (unsigned long long)(ins_done - rem_started), n));
			if (lock) locked = 0;
			if (r) k++; else if (fails % 4 == 3) sim::sleep_for(1); else sim::yield();
		}
		live--;
	}));
	int cid = sim::spawn("consumer", [&] {
		unsigned idle = 0;
		for (unsigned a = 0; drain_all || a < attempts; a++) {
			bool last = live == 0;
			Exact e(sz, 0x5A); unsigned v = 0;
			uint64_t d0 = ins_done, r0 = rem_done;
			rem_started++;
			bool r = Q.ops->remove(Q.q, e.p, &v);
			if (r) {
				rem_done++;
				unsigned id = (uint8_t)e.p[0] | (sz > 1 ? (uint8_t)e.p[1] << 8 : 0);
				if (sz == 1) { // ids are ambiguous above 255: find the first one that fits
					bool f = false; for (unsigned x = id; x < els.size() && !f; x += 256) if (els[x].call && std::find(out.begin(), out.end(), x) == out.end()) { id = x; f = true; }
				}
				if (id >= els.size() || !els[id].call || elem(sz, id) != e.str()) { sim::error("remove returned an element that was never inserted: " + ref::hex(e.str())); }
				else { if (std::find(out.begin(), out.end(), id) != out.end()) sim::error(strf("element %u was removed twice", id)); out.push_back(id); }
			} else {
				rem_started--; empty = true;
				if (d0 > r0) sim::error(strf("remove failed although %llu elements were in the queue", (unsigned long long)(d0 - r0)));
				if (last && live == 0) break;
				if (++idle % 4 == 3) sim::sleep_for(1); else sim::yield();
			}
			if (v > cap || v > ins_done + ins_pending - rem_done) sim::error(strf("remove reported %u remaining elements, at most %llu can be there", v, (unsigned long long)(ins_done + ins_pending - rem_done)));
			if (v + rem_done < d0) sim::error(strf("remove reported %u remaining elements, at least %llu are there", v, (unsigned long long)(d0 - rem_done)));
		}
	});
	for (int id : ids) sim::join(id);
	sim::join(cid);
	sim::end();
	if (!sim::first_error().empty()) fail("%s", sim::first_error().c_str());
	// the rest, in order
	for (;;) {
		Exact e(sz, 0x5A); unsigned v = 0;
		if (!Q.ops->remove(Q.q, e.p, &v)) break;
		CHECK(out.size() <= els.size(), "more elements come out than went in");
		unsigned id = (uint8_t)e.p[0] | (sz > 1 ? (uint8_t)e.p[1] << 8 : 0);
		if (sz == 1) for (unsigned x = id; x < els.size(); x += 256) if (els[x].call && std::find(out.begin(), out.end(), x) == out.end()) { id = x; break; }
		CHECK(id < els.size() && els[id].call && elem(sz, id) == e.str(), "remove returned an element that was never inserted: %s", ref::hex(e.str()).c_str());
		CHECK(std::find(out.begin(), out.end(), id) == out.end(), "element %u was removed twice", id);
		out.push_back(id);
	}
	size_t ok = 0; for (auto &x : els) ok += x.ok;
	for (auto id : out) CHECK(els[id].ok, "element %u was removed although its insert failed", id);
	CHECK(out.size() == ok, "%zu elements were inserted, %zu came out", ok, out.size());
	uint64_t maxcall = 0;
	for (auto id : out) { CHECK(els[id].ret > maxcall, "element %u came out after a later one", id); maxcall = std::max(maxcall, els[id].call); }
	if (out.size() >= n || (full && empty)) nontrivial();
	label(np == 1 ? "simulated: one producer" : lock ? "simulated: producers under a lock" : "simulated: several producers");
}
// two real threads
struct Real { Q *q; unsigned n, sz, total, np; std::atomic<bool> bad{false}; std::atomic<bool> enough{false}; std::atomic<unsigned> finished{0}; std::vector<uint32_t> sent; };
static void real_threads(Q &Q, unsigned n, unsigned sz, unsigned np) {
	if (sz < 8) sz = 8;
	Real R; R.q = &Q; R.n = n; R.sz = sz; R.total = np > 1 ? 2000 : 6000; R.np = np; R.sent.resize(np);
	struct Arg { Real *r; unsigned p; };
	std::vector<Arg> args; for (unsigned p = 0; p < np; p++) args.push_back({&R, p});
	std::vector<pthread_t> th(np);
	for (unsigned p = 0; p < np; p++) pthread_create(&th[p], nullptr, [](void *a) -> void * {
		auto *A = (Arg *)a; Real *r = A->r; std::string s(r->sz, 0); uint32_t k = 0;
		for (; k < r->total && !r->enough; k++) {
			for (size_t i = 8; i < r->sz; i++) s[i] = (char)(k * 31 + A->p * 7 + i);
			memcpy(&s[0], &A->p, 4); memcpy(&s[4], &k, 4);
			while (!r->q->ops->insert(r->q->q, &s[0], nullptr)) { if (r->bad) return nullptr; sched_yield(); }
		}
		r->sent[A->p] = k; r->finished++;
		return nullptr;
	}, &args[p]);
	std::vector<uint32_t> next(np, 0); std::string s(sz, 0), msg;
	timespec t0, t1, begin; clock_gettime(CLOCK_MONOTONIC, &begin); t0 = begin;
	while (msg.empty()) {
		bool all_in = R.finished == np;
		clock_gettime(CLOCK_MONOTONIC, &t1);
		if (t1.tv_sec - begin.tv_sec >= 2) R.enough = true;   // (a loaded machine: fewer elements)
		if (!Q.ops->remove(Q.q, &s[0], nullptr)) {
			if (all_in) break;
			sched_yield();
			if (t1.tv_sec - t0.tv_sec > 25) msg = "real threads: nothing comes out and nothing goes in";
			continue;
		}
		t0 = t1;
		uint32_t p, k; memcpy(&p, &s[0], 4); memcpy(&k, &s[4], 4);
		if (p >= np || k != next[p]) { msg = strf("real threads: element %u of producer %u came out, expected %u", k, p, p < np ? next[p] : 0); break; }
		for (size_t i = 8; i < sz; i++) if (s[i] != (char)(k * 31 + p * 7 + i)) msg = "real threads: an element came out altered";
		next[p]++;
	}
	if (msg.empty()) for (unsigned p = 0; p < np; p++) if (next[p] != R.sent[p]) msg = strf("real threads: %u elements of producer %u went in and %u came out", R.sent[p], p, next[p]);
	if (!msg.empty()) R.bad = true;
	for (auto &x : th) pthread_join(x, nullptr);
	CHECK(msg.empty(), "%s", msg.c_str());
	nontrivial(); label("real threads");
}
void prop(Tape &t) {
	Q q; bool mb = t.flip(); q.ops = mb ? &my_queue_mb_ops : &my_queue_mutex_ops;
	sim::Opts so; so.mode = 1 + t.weighted({4, 4, 2});
	unsigned kind = t.weighted({4, 6}); unsigned rare = t.raw(2); bool real = rare > 65475, big = rare > 65350 && !real;
	unsigned n;
	switch (t.weighted({10, 1})) {
	case 0: n = 1u << (1 + t.weighted({3, 3, 2, 1, 1, 1})); break;
	default: n = t.flip() ? t.range(0, 40) : 1u << t.range(7, 12);
	}
	static const unsigned szs[] = {32, 1, 4, 8, 3, 17, 64, 2};
	unsigned sz = szs[t.range(0, 7)];
	if (big) { n = 1u << t.range(13, 18); sz = 8; }
	heap_reset();
	q.q = q.ops->init(n, sz);
	bool valid = n >= 2 && (n & (n - 1)) == 0;
	CHECK((q.q != nullptr) == valid, "init with size %u %s", n, q.q ? "succeeded" : "failed");
	CHECK(strcmp(q.ops->impl_type(), "") != 0, "no implementation type");
	const char *impl = mb ? "barrier" : "mutex";
	if (!valid) { label("invalid size"); describe(strf("%s size %u refused", impl, n)); CHECK(heap_live() == 0, "a refused init leaks"); nontrivial(); return; }
	label(impl);
	if (real) { describe(strf("%s n=%u real threads", impl, n)); real_threads(q, n, sz < 8 ? (q.ops->destroy(&q.q), q.q = q.ops->init(n, 8), 8) : sz, mb ? 1 : 2); }
	else if (big) { describe(strf("%s n=%u bulk history", impl, n)); large(t, q, n); }
	else if (kind == 0) { describe(strf("%s n=%u elem=%u sequential history %08x", impl, n, sz, t.rest())); sequential(t, q, n, sz); }
	else {
		unsigned np = t.weighted({3, 2}) ? 1 + t.range(1, 2) : 1;
		if (n > 64) { q.ops->destroy(&q.q); n = 8; q.q = q.ops->init(n, sz); }
		describe(strf("%s n=%u elem=%u producers=%u preemption mode %d, history %08x", impl, n, sz, np, so.mode, t.rest()));
		simulated(t, q, n, sz, np, mb && np > 1, so);
	}
	q.ops->destroy(&q.q);
	CHECK(!q.q, "destroy did not clear the pointer");
	q.ops->destroy(&q.q);
	CHECK(heap_live() == 0, "%zu block(s) were not freed", heap_live());
}
