// C25: two jobs on separate sessions in two threads, every interleaving of
// their accesses to common memory up to a preemption bound.
//
// The parser build under test is compiled with -fsanitize=thread, but linked
// with the runtime below instead of TSan's: every memory access, atomic
// operation and function entry of the real code arrives here, and a baton
// decides which of the two real threads goes on.  Each execution runs in a
// process of its own, forked before any job ran: all executions start from the
// same cold state and use the same addresses.
#define MC_LIB
#include "mc_syntax.cc"
#include "units.h"
#include "shim.h"
#include <dlfcn.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sys/syscall.h>
#include <unordered_map>
#include <set>

// ------------------------------------------------------------------ the scheduler
typedef uint64_t Gran;                       // an 8-byte granule of memory
static const size_t kTab = 1 << 17, kMaxConf = 1 << 14, kMaxPre = 6;
struct Exec {                                // shared with the parent
  uint64_t digest[2][64]; int ndig[2]; uint64_t unimpl; int done; uint64_t points, accesses, switches; 
  uint32_t nconf; Gran conf[kMaxConf]; uint64_t atomics; int lost;
};
struct Sched { int first; int npre; uint64_t pre[kMaxPre]; bool everywhere; };
struct Thr { int id; uintptr_t lo, hi; uint64_t run; bool mine; };   // mine: reading the result in the checker's own code
struct Cell { Gran g; uint8_t rd, wr; };
static Exec* X; static Sched S; static Cell* tab; static const Gran* conf; static size_t nconf;
static __thread Thr* cur; static int turn, alive[2], next_pre; static Thr thr[2];
static void fwait(int me) { while (__atomic_load_n(&turn, __ATOMIC_ACQUIRE) != me) syscall(SYS_futex, &turn, FUTEX_WAIT_PRIVATE, 1 - me, nullptr, nullptr, 0); }
static void pass(int to) { __atomic_store_n(&turn, to, __ATOMIC_RELEASE); syscall(SYS_futex, &turn, FUTEX_WAKE_PRIVATE, 2, nullptr, nullptr, 0); }
static void yield_to_other(Thr* t) { t->run = 0; if (!alive[1 - t->id]) return; X->switches++; pass(1 - t->id); fwait(t->id); }
static void point(Thr* t) {
  uint64_t k = X->points++;
  if (next_pre < S.npre && S.pre[next_pre] == k) { next_pre++; yield_to_other(t); }
  else if (++t->run > 2000000) yield_to_other(t);   // a thread that waits for the other one
}
static bool in_conf(Gran g) { size_t lo = 0, hi = nconf; while (lo < hi) { size_t m = (lo + hi) / 2; if (conf[m] < g) lo = m + 1; else hi = m; } return lo < nconf && conf[lo] == g; }
static void touch(Thr* t, Gran g, bool w) {
  size_t i = (g * 0x9E3779B97F4A7C15ull) >> 47; for (size_t n = 0; n < kTab; ++n, i = (i + 1) & (kTab - 1)) {
    if (!tab[i].g) tab[i].g = g; if (tab[i].g != g) continue; if (n > 4096) break;
    (w ? tab[i].wr : tab[i].rd) |= 1 << t->id; return; }
  X->lost = 1;
}
static void access(const void* p, size_t n, bool w) {
  Thr* t = cur; if (!t) return; uintptr_t a = (uintptr_t)p; if (a >= t->lo && a < t->hi) return;
  X->accesses++; bool pt = false; if (!n || S.everywhere) return;
  for (Gran g = a >> 3; g <= (a + n - 1) >> 3; ++g) { if (nconf && in_conf(g)) pt = true; touch(t, g, w); }
  if (pt) point(t);
}
static void step() { Thr* t = cur; if (t && S.everywhere && !t->mine) point(t); }

// ------------------------------------------------------------------ memory: an arena per thread
struct Arena { uint8_t *base, *top; void* freel[64]; };
static const size_t kArena = 64u << 20; static Arena ar[3];
static int cls(size_t n) { int k = 4; while (((size_t)1 << k) < n) ++k; return k; }
static void arenas() { for (auto& a : ar) { a.base = a.top = (uint8_t*)mmap(nullptr, kArena, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); } }
static void* my_new(size_t n) {
  if (!cur) { void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
  Arena& a = ar[cur->id]; int k = cls(n + 16); void* p = a.freel[k];
  if (p) a.freel[k] = *(void**)p; else { p = a.top; a.top += (size_t)1 << k; if (a.top > a.base + kArena) abort(); }
  *(int*)((uint8_t*)p) = k; return (uint8_t*)p + 16;
}
static void my_delete(void* p) {
  if (!p) return; for (auto& a : ar) if (a.base && (uint8_t*)p >= a.base && (uint8_t*)p < a.base + kArena) { void* q = (uint8_t*)p - 16; int k = *(int*)q; *(void**)q = a.freel[k]; a.freel[k] = q; return; }
  free(p);
}
void* operator new(size_t n) { return my_new(n); }
void* operator new[](size_t n) { return my_new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return my_new(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return my_new(n); }
void operator delete(void* p) noexcept { my_delete(p); }
void operator delete[](void* p) noexcept { my_delete(p); }
void operator delete(void* p, size_t) noexcept { my_delete(p); }
void operator delete[](void* p, size_t) noexcept { my_delete(p); }

// ------------------------------------------------------------------ what the instrumented code calls
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) { step(); }
void __tsan_func_exit() { step(); }
#define RW(n) void __tsan_read##n(void* p) { access(p, n, false); } void __tsan_write##n(void* p) { access(p, n, true); } \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false); } void __tsan_unaligned_write##n(void* p) { access(p, n, true); } \
  void __tsan_read_write##n(void* p) { access(p, n, false); access(p, n, true); } void __tsan_unaligned_read_write##n(void* p) { access(p, n, false); access(p, n, true); } \
  void __tsan_volatile_read##n(void* p) { access(p, n, false); } void __tsan_volatile_write##n(void* p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, true); }
void __tsan_vptr_update(void** p, void*) { access(p, 8, true); }
void __tsan_vptr_read(void** p) { access(p, 8, false); }
void* __tsan_memcpy(void* d, const void* s, unsigned long n) { access(s, n, false); access(d, n, true); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, unsigned long n) { access(s, n, false); access(d, n, true); return memmove(d, s, n); }
void* __tsan_memset(void* d, int v, unsigned long n) { access(d, n, true); return memset(d, v, n); }
void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
static void at(volatile void* p, size_t n, bool w) { if (cur) X->atomics++; access((const void*)p, n, w); }
#define AT(b, T) \
  T __tsan_atomic##b##_load(const volatile T* a, int) { at((volatile void*)a, sizeof(T), false); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##b##_store(volatile T* a, T v, int) { at(a, sizeof(T), true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_exchange(volatile T* a, T v, int) { at(a, sizeof(T), true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int) { at(a, sizeof(T), true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int) { at(a, sizeof(T), true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int) { at(a, sizeof(T), true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int) { at(a, sizeof(T), true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int) { at(a, sizeof(T), true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_nand(volatile T* a, T v, int) { at(a, sizeof(T), true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { at(a, sizeof(T), true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { at(a, sizeof(T), true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T c, T v, int, int) { at(a, sizeof(T), true); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
// library calls of the parser that read or write memory themselves
unsigned long __wrap_strlen(const char* p) { unsigned long n = strlen(p); access(p, n + 1, false); step(); return strlen(p); }
static int vput(char* b, size_t n, const char* f, va_list ap) { if (n) access(b, 1, true); step(); int r = vsnprintf(b, n, f, ap); if (n && r >= 0) access(b, (size_t)r < n ? r + 1 : n, true); return r; }
int __wrap_snprintf(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vput(b, n, f, ap); va_end(ap); return r; }
int __wrap_sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int r = vput(b, (size_t)1 << 30, f, ap); va_end(ap); return r; }
int __wrap_fprintf(FILE* o, const char* f, ...) { va_list ap; va_start(ap, f); step(); int r = vfprintf(o, f, ap); va_end(ap); return r; }
char* __wrap_strcpy(char* d, const char* s) { size_t n = strlen(s) + 1; access(s, n, false); access(d, n, true); step(); return strcpy(d, s); }
char* __wrap_strncpy(char* d, const char* s, size_t n) { access(s, strnlen(s, n), false); access(d, n, true); step(); return strncpy(d, s, n); }
char* __wrap_strcat(char* d, const char* s) { access(s, strlen(s) + 1, false); access(d + strlen(d), strlen(s) + 1, true); step(); return strcat(d, s); }
int __wrap_strcmp(const char* a, const char* b) { access(a, strlen(a) + 1, false); access(b, strlen(b) + 1, false); step(); return strcmp(a, b); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { access(a, n, false); access(b, n, false); step(); return memcmp(a, b, n); }
// waiting for the other thread is a switch, not a block
int __cxa_guard_acquire(uint64_t* g) {
  uint8_t* b = (uint8_t*)g; if (b[0]) return 0;
  while (b[1]) { if (!cur || !alive[1 - cur->id]) abort(); yield_to_other(cur); if (b[0]) return 0; }
  b[1] = 1; return 1;
}
void __cxa_guard_release(uint64_t* g) { ((uint8_t*)g)[1] = 0; ((uint8_t*)g)[0] = 1; }
void __cxa_guard_abort(uint64_t* g) { ((uint8_t*)g)[1] = 0; }
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (cur) { step(); for (;;) { int r = pthread_mutex_trylock(m); if (r != EBUSY) return r; if (!alive[1 - cur->id]) break; yield_to_other(cur); } }
  static int (*real)(pthread_mutex_t*) = nullptr; if (!real) real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock"); return real(m);
}
int pthread_once(pthread_once_t* o, void (*f)()) {
  static_assert(sizeof *o == 4, ""); int* p = (int*)o; if (*p == 2) return 0;
  while (*p == 0x100) { if (!cur || !alive[1 - cur->id]) abort(); yield_to_other(cur); }
  if (*p == 2) return 0; *p = 0x100; f(); *p = 2; return 0;
}
}

// ------------------------------------------------------------------ jobs and executions
struct Item { int how; Bytes b; };
struct Job { std::string name; std::vector<Item> its; int opts; };
static const shim_api* A; static const Job* jobs[2];
static void work(int id) {
  const Job& j = *jobs[id]; shim_session* s = A->session_new(); int n = 0;
  for (auto& i : j.its) { shim_result* r = A->parse(s, i.how, i.b.data(), i.b.size(), j.opts); thr[id].mine = true; uint64_t h = A->digest(r, 0); thr[id].mine = false; X->digest[id][n++] = mix(h, A->dump_digest(r)); A->free_result(r); }
  thr[id].mine = true; X->digest[id][n++] = A->session_digest(s); thr[id].mine = false; A->session_free(s); X->ndig[id] = n;
}
static void* body(void* a) {
  Thr* t = (Thr*)a; pthread_attr_t at; pthread_getattr_np(pthread_self(), &at); void* lo; size_t sz; pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at);
  t->lo = (uintptr_t)lo; t->hi = t->lo + sz; t->run = 0;
  fwait(t->id); cur = t; work(t->id); cur = nullptr; alive[t->id] = 0; if (alive[1 - t->id]) pass(1 - t->id); return nullptr;
}
static void child(bool both, int solo) {
  alarm(30); memset(X, 0, offsetof(Exec, conf)); if (!S.everywhere) tab = (Cell*)mmap(nullptr, kTab * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  uint64_t u0 = A->unimplemented(); next_pre = 0; pthread_t p[2];
  for (int i = 0; i < 2; ++i) { thr[i].id = i; alive[i] = both || solo == i; } turn = both ? S.first : solo;
  for (int i = 0; i < 2; ++i) if (alive[i]) pthread_create(&p[i], nullptr, body, &thr[i]);
  for (int i = 0; i < 2; ++i) if (both || solo == i) pthread_join(p[i], nullptr);
  X->unimpl = A->unimplemented() - u0;
  if (tab) for (size_t i = 0; i < kTab; ++i) { Cell& c = tab[i]; if (((c.rd | c.wr) == 3) && c.wr) { if (X->nconf < kMaxConf) X->conf[X->nconf++] = c.g; else X->lost = 1; } }
  X->done = 1; _exit(0);
}
static int run_child(bool both, int solo) {   // 0: finished
  X->done = 0; pid_t p = fork(); if (p < 0) return -1; if (!p) child(both, solo);
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  return WIFEXITED(st) && WEXITSTATUS(st) == 0 && X->done ? 0 : st ? st : -1;
}
static std::string sched_str() { std::string o = std::string("thread ") + (S.first ? "B" : "A") + " first"; for (int i = 0; i < S.npre; ++i) o += ", switch at step " + std::to_string(S.pre[i]); return o; }
enum { U_POINTS = C_USER, U_CONF, U_SWITCH, U_B1, U_B2, U_B3 };

struct Solo { std::vector<uint64_t> d; uint64_t unimpl; };
static Solo alone(Ctx& c, int id) {
  S = Sched{id, 0, {0}, false}; nconf = 0; int r = run_child(false, id); if (r) c.broken("a job does not run alone (status %d)", r);
  Solo s; for (int i = 0; i < X->ndig[id]; ++i) s.d.push_back(X->digest[id][i]); s.unimpl = X->unimpl; return s;
}
struct Pair { Ctx& c; Solo a, b; std::set<Gran> conf; std::vector<Gran> sorted; bool grew; };
static uint64_t once(Pair& q) {   // one execution under S; returns its number of scheduling points
  int r = run_child(true, 0); q.c.beat(); q.c.add(C_STATES); q.c.add(C_TRANS, X->points); q.c.add(U_SWITCH, X->switches); q.c.add(C_ACC);
  const char* how = S.everywhere ? "function steps" : "accesses to common memory";
  if (r) { if (WIFSIGNALED(r)) q.c.fail("%s: signal %d with this schedule (%s; counted in %s)", WTERMSIG(r) == SIGALRM ? "does not finish" : "crashes", WTERMSIG(r), sched_str().c_str(), how); q.c.fail("ends with status %d with this schedule (%s)", r, sched_str().c_str()); }
  for (int id = 0; id < 2; ++id) { Solo& s = id ? q.b : q.a; bool same = X->ndig[id] == (int)s.d.size(); int k = 0; for (; same && k < X->ndig[id]; ++k) if (X->digest[id][k] != s.d[k]) { same = false; break; }
    if (!same) q.c.fail("job %s gives another result than alone, from call %d on, with this schedule: %s (counted in %s)", id ? "B" : "A", k + 1, sched_str().c_str(), how); }
  if (X->unimpl != q.a.unimpl + q.b.unimpl) q.c.fail("the unimplemented count ends at %llu instead of %llu+%llu with this schedule: %s (counted in %s)", (unsigned long long)X->unimpl, (unsigned long long)q.a.unimpl, (unsigned long long)q.b.unimpl, sched_str().c_str(), how);
  for (uint32_t i = 0; i < X->nconf; ++i) if (q.conf.insert(X->conf[i]).second) q.grew = true;
  return X->points;
}
static double choose(double n, int k) { double r = 1; for (int i = 0; i < k; ++i) r = r * (n - i) / (i + 1); return r < 0 ? 0 : r; }
static void dfs(Pair& q, int bound) {
  uint64_t n = once(q); if (q.grew && !S.everywhere) return; if (S.npre >= bound) return;
  uint64_t from = S.npre ? S.pre[S.npre - 1] + 1 : 0;
  for (uint64_t k = from; k < n; ++k) { S.pre[S.npre++] = k; dfs(q, bound); --S.npre; if (q.grew && !S.everywhere) return; }
}
static void c25_pair(Ctx& c, const Job& a, const Job& b, uint64_t budget, bool everywhere) {
  Bytes in; for (const Job* j : {&a, &b}) for (auto& i : j->its) { in.push_back((uint8_t)i.how); in.push_back((uint8_t)(i.b.size() >> 8)); in.push_back((uint8_t)i.b.size()); in.insert(in.end(), i.b.begin(), i.b.end()); }
  if (!c.begin(in, "job A: %s | job B: %s%s (data: entry, size, bytes of each call)", a.name.c_str(), b.name.c_str(), everywhere ? " | switching at every function entry and exit" : "")) return;
  jobs[0] = &a; jobs[1] = &b; Pair q{c, alone(c, 0), alone(c, 1), {}, {}, false};
  if (everywhere) { nconf = 0; for (int f = 0; f < 2; ++f) { S = Sched{f, 0, {0}, true}; dfs(q, 1); } return; }
  for (int round = 0;; ++round) {   // until no new common memory shows up
    if (round > 64) c.broken("the set of common memory does not settle");
    q.sorted.assign(q.conf.begin(), q.conf.end()); conf = q.sorted.data(); nconf = q.sorted.size(); q.grew = false; uint64_t n = 0;
    for (int f = 0; f < 2; ++f) { S = Sched{f, 0, {0}, false}; n = std::max(n, once(q)); }
    if (q.grew) continue;
    int bound = 0; double tot = 1; while (bound < (int)kMaxPre) { tot += choose((double)n, bound + 1); if (bound >= 1 && tot * 2 > budget) break; bound++; }
    for (int f = 0; f < 2 && !q.grew; ++f) { S = Sched{f, 0, {0}, false}; dfs(q, bound); }
    if (X->lost) c.broken("access table full");
    if (!q.grew) { c.add(U_POINTS, n); c.add(U_CONF, nconf); c.add(bound >= 3 ? U_B3 : bound == 2 ? U_B2 : U_B1); return; }
  }
}

static const shim_api* load(Ctx& c, const char* name) {
  std::string p = std::string(getenv("SHIM_DIR") ? getenv("SHIM_DIR") : ".") + "/" + name; void* h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
  if (!h) c.broken("dlopen: %s", dlerror());
  auto a = (const shim_api*)dlsym(h, "shim"); if (!a) c.broken("no shim in %s", name); return a;
}
static std::vector<Item> nal_items(const std::vector<Bytes>& us) { std::vector<Item> v; for (auto& u : us) v.push_back({SHIM_NAL, m::escape(u)}); return v; }
static Item len4(const std::vector<Bytes>& us) { Bytes b; for (auto& u : us) { Bytes e = m::escape(u); for (int k = 4; k-- > 0;) b.push_back((uint8_t)(e.size() >> (8 * k))); b.insert(b.end(), e.begin(), e.end()); } return {SHIM_LEN4, b}; }
static Item stap(const std::vector<Bytes>& us) { Bytes b{0x78}; for (auto& u : us) { Bytes e = m::escape(u); b.push_back((uint8_t)(e.size() >> 8)); b.push_back((uint8_t)e.size()); b.insert(b.end(), e.begin(), e.end()); } return {SHIM_RTP, b}; }
static void c25(Ctx& c) {
  A = load(c, "tsan.so"); arenas(); X = (Exec*)mmap(nullptr, sizeof(Exec), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<Job> js; std::vector<Seq> base = corpus(c, 0); std::vector<U> al = session_units(c, true);
  auto U = [&](const char* n) { for (auto& u : al) if (u.name == n) return u.b; c.broken("no unit %s", n); };
  for (auto& q : base) { bool small = true; for (auto& u : q.units) if (u.size() > 2000) small = false; if (small && q.units.size() < 40) js.push_back({q.name, nal_items(q.units), 31}); }
  size_t ncorp = js.size();
  std::vector<Bytes> s1 = {U("sps0A"), U("pps0->0"), U("slice1 p0"), U("slice5 p0")}, s2 = {U("sps0B"), U("sub0B"), U("pps0->0"), U("prefix"), U("svc slice p0"), U("slice1 p0")},
    s3 = {U("sps31C"), U("pps255->31"), U("slice1 p255"), U("sei"), U("aud"), U("unreadable")}, un = {Bytes{0x15, 0x80, 0, 0}, U("sps0A"), Bytes{0x74, 0x00, 0x00, 0x07}, Bytes{0x02, 0x88}, Bytes{0x6e, 0x40, 0, 7}};
  js.push_back({"Annex B, base layer", {{SHIM_ANNEXB, cat(s1)}}, 31}); js.push_back({"Annex B, scalable", {{SHIM_ANNEXB, cat(s2)}}, 31}); js.push_back({"Annex B, own session", {{SHIM_ANNEXB_OWN, cat(s3)}}, 31});
  js.push_back({"length-prefixed", {len4(s2)}, 31}); js.push_back({"RTP", {stap(s1), {SHIM_RTP, m::escape(U("sps0A"))}, {SHIM_RTP, Bytes{0x7c, 0x85, 0x88, 0x84, 0x21}}}, 0}); js.push_back({"raw units", {{SHIM_NAL_RAW, U("sps0A")}, {SHIM_NAL_RAW, U("pps0->0")}, {SHIM_NAL_RAW, U("slice5 p0")}}, 8});
  js.push_back({"unsupported units", nal_items(un), 31}); js.push_back({"unsupported and SPS id 31", nal_items({un[0], U("sps31C"), un[2], un[0]}), 31});
  js.push_back({"checksummed stream", {{SHIM_ANNEXB, cat(s2)}}, 8}); js.push_back({"failing sets", nal_items({U("sps0 bad crop"), U("sps0 cut"), U("pps0 bad"), U("sub0 cut"), U("slice1 p0")}), 31});
  int n = (int)js.size(); uint64_t idx = 0; auto mine = [&] { return idx++ % c.nshards == (uint64_t)c.shard; };
  for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) { if (!c.thorough && i < (int)ncorp && j < (int)ncorp && j - i > 1) continue; if (mine()) c25_pair(c, js[i], js[j], c.thorough ? 20000 : 400, false); }
  // hidden state of called libraries: a switch at every function entry and exit
  for (int i = (int)ncorp; i < n; ++i) for (int j = i; j < n; ++j) { if (!c.thorough && j - i > 1) continue; if (mine()) c25_pair(c, js[i], js[j], 0, true); }
  if (c.thorough) for (size_t i = 0; i + 1 < ncorp; ++i) if (mine()) c25_pair(c, js[i], js[i + 1], 0, true);
}
static Reg rC25(Check{"C25", c25, "model_checking", "pairs of jobs (each corpus baseline with itself, its neighbour and ten stream, RTP, unsupported and failing jobs; all pairs of those ten), each from a cold process: all interleavings of the accesses to memory that both threads use, up to the largest preemption bound (1..6) within 400 executions; for neighbouring pairs of the ten also one switch at every function entry and exit", "all pairs, 20000 executions per pair; a switch at every function step for all pairs of the ten and for neighbouring baselines", "each job's views, dump text, positions, checksums and session equal those it gives alone; the unimplemented count is the sum", {"scheduling points of common memory", "common granules", "context switches", "pairs at preemption bound 1", "pairs at preemption bound 2", "pairs at preemption bound 3 or more"}});
int main(int argc, char** argv) { return mc_main(argc, argv, registry()); }
