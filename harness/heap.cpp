#include "heap.hpp"
#include <cstdlib>
#include <cstring>
#include <atomic>
#include <unordered_set>
extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
void __real_free(void *); char *__real_strdup(const char *);
}
// a spin lock: pthread mutexes may be simulated
struct Spin { std::atomic_flag f = ATOMIC_FLAG_INIT; void lock() { while (f.test_and_set(std::memory_order_acquire)) __builtin_ia32_pause(); } void unlock() { f.clear(std::memory_order_release); } };
struct Guard { Spin &s; explicit Guard(Spin &x) : s(x) { s.lock(); } ~Guard() { s.unlock(); } };
static Spin &mu() { static Spin *m = new Spin; return *m; }
static std::unordered_set<void *> &live() { static auto *s = new std::unordered_set<void *>; return *s; }
static size_t biggest;
static void big(size_t n) { if (n > biggest) biggest = n; }
static void add(void *p) { if (p) { Guard g(mu()); live().insert(p); } }
static void del(void *p) { if (p) { Guard g(mu()); live().erase(p); } }
extern "C" {
void *__wrap_malloc(size_t n) { big(n); void *p = __real_malloc(n); add(p); return p; }
void *__wrap_calloc(size_t a, size_t b) { big(a * b); void *p = __real_calloc(a, b); add(p); return p; }
void *__wrap_realloc(void *o, size_t n) { big(n); del(o); void *p = __real_realloc(o, n); if (p) add(p); else if (n) add(o); return p; }
void __wrap_free(void *p) { del(p); __real_free(p); }
char *__wrap_strdup(const char *s) { char *p = __real_strdup(s); add(p); return p; }
}
size_t heap_live() { Guard g(mu()); return live().size(); }
void heap_reset() { Guard g(mu()); live().clear(); biggest = 0; }
size_t heap_biggest() { return biggest; }
