// Runtime under the compiler's access instrumentation (-fsanitize=thread): every access of the code under test is seen here.
// Memory is split into arenas: 0 shared objects, 1..N one per operation. A controlled scheduler passes a baton between real threads.
#include "rt29.hpp"
#include <sys/mman.h>
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <link.h>
#include <unistd.h>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <new>
#include <iostream>
namespace sch {
static const size_t AR = 256ul << 20; static char* base = nullptr;
static const size_t NCL = 4096; struct Arena { size_t used; void* fr[NCL]; };
struct T { int arena; bool on; int locks, guard; long points; char* stk_lo; char* stk_hi; char* tls_lo; char* tls_hi; struct { char* p; size_t n; } exc[8]; int nexc; sem_t go; bool done; std::function<void()>* fn; };
struct S { Arena ar[NAR]; Conflict conf[64]; int nconf; bool sched; long step; int cur, nthr; long sw[8]; int nsw, isw; int prio[8]; sem_t fin; T th[8]; long total; };
static S* g = nullptr; static __thread T* me = nullptr; static __thread int cur_arena = -1;
static size_t tls_mod_size() { static size_t n = 0; if (!n) dl_iterate_phdr([](dl_phdr_info* i, size_t, void*) { for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_TLS && !n) n = i->dlpi_phdr[k].p_memsz; return 0; }, nullptr); return n; }
static void bounds(T* t) { pthread_attr_t a; pthread_getattr_np(pthread_self(), &a); void* p; size_t n; pthread_attr_getstack(&a, &p, &n); t->stk_lo = (char*)p; t->stk_hi = (char*)p + n; pthread_attr_destroy(&a);
  // the thread's static TLS block lies right below the thread pointer
  char* tp = (char*)pthread_self(); t->tls_lo = tp - 65536; t->tls_hi = tp + 4096; }
static bool mine(T* t, char* p) {
  if (p >= t->stk_lo && p < t->stk_hi) return true;
  char* a = base + AR * t->arena; if (p >= a && p < a + AR) return true;
  if (p >= t->tls_lo && p < t->tls_hi) return true;
  for (char* q : {(char*)&std::cout, (char*)&std::cerr, (char*)&std::clog}) if (p >= q && p < q + sizeof(std::ostream)) return true;   // the standard streams may be used concurrently
  for (int i = 0; i < t->nexc; ++i) if (p >= t->exc[i].p && p < t->exc[i].p + t->exc[i].n) return true;
  return false;
}
static void hand_over(T* t) {        // decide who runs at this visible point
  long s = g->step++;
  if (g->isw < g->nsw && g->sw[g->isw] == s) {
    ++g->isw; int n = (int)(t - g->th), k = n;
    for (int i = 1; i < g->nthr; ++i) { int c = (n + i) % g->nthr; if (!g->th[c].done) { k = c; break; } }
    if (k != n) { g->cur = k; sem_post(&g->th[k].go); while (sem_wait(&t->go)) {} }
  }
}
static inline void access(void* a, size_t n, bool wr, bool atomic) {
  T* t = me; if (!t || !t->on) return; char* p = (char*)a; if (mine(t, p)) return;
  t->on = false; ++t->points;
  if (wr && !atomic && !t->locks && !t->guard && g->nconf < 64) { Conflict& c = g->conf[g->nconf++]; c.addr = p; c.size = n; c.where = __builtin_return_address(0); c.shared = p >= base && p < base + AR; }
  if (g->sched && !t->locks && !t->guard) hand_over(t);
  t->on = true;
}
void* where_of(void* p) { return p; }
void init() {
  g = (S*)mmap(0, sizeof(S), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); base = (char*)mmap(0, AR * NAR, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if ((void*)g == MAP_FAILED || base == MAP_FAILED) abort();
  pthread_t d; pthread_create(&d, 0, [](void*) -> void* { return 0; }, 0); pthread_join(d, 0);       // from here on the C library counts as multi-threaded
  for (auto& t : g->th) sem_init(&t.go, 0, 0); sem_init(&g->fin, 0, 0);
}
void arena(int k) { cur_arena = k; }
size_t used(int k) { return g->ar[k].used; } char* start(int k) { return base + AR * k; }
std::vector<Conflict> solo(int ar, std::function<void()> const& f, long* points) {
  T* t = &g->th[7]; memset(t->exc, 0, sizeof t->exc); t->arena = ar; t->nexc = 0; t->locks = t->guard = 0; t->points = 0; bounds(t); g->nconf = 0; g->sched = false; me = t; int old = cur_arena; cur_arena = ar; t->on = true;
  try { f(); } catch (...) { t->on = false; me = nullptr; cur_arena = old; throw; }
  t->on = false; me = nullptr; cur_arena = old; if (points) *points = t->points; return std::vector<Conflict>(g->conf, g->conf + g->nconf);
}
static char kept_[8][4000]; void keep(int k, const char* s, size_t n) { T* t = me; bool o = t && t->on; if (t) t->on = false; if (n > sizeof kept_[0] - 1) n = sizeof kept_[0] - 1; memcpy(kept_[k], s, n); kept_[k][n] = 0; if (t) t->on = o; }
const char* kept(int k) { return kept_[k]; }
struct Pool { int n = 0; };
static Pool* pool = nullptr;
static void* worker(void* v) {
  T* t = (T*)v; bounds(t);
  for (;;) {
    while (sem_wait(&t->go)) {}
    me = t; cur_arena = t->arena; t->on = true; (*t->fn)(); t->on = false; me = nullptr; cur_arena = -1; t->done = true;
    int k = -1; for (int i = 0; i < g->nthr; ++i) if (!g->th[i].done) { k = i; break; }
    if (k < 0) sem_post(&g->fin); else { g->cur = k; sem_post(&g->th[k].go); }
  }
}
long run(std::vector<std::function<void()>>& fs, std::vector<long> const& sw, std::vector<Conflict>* conf) {
  if (!pool) { pool = new Pool; }
  while (pool->n < (int)fs.size()) { pthread_t p; T* t = &g->th[pool->n]; t->nexc = 0; pthread_create(&p, 0, worker, t); pthread_detach(p); ++pool->n; }
  g->nthr = (int)fs.size(); g->step = 0; g->nsw = (int)sw.size(); g->isw = 0; for (int i = 0; i < g->nsw; ++i) g->sw[i] = sw[i]; g->nconf = 0; g->sched = true;
  for (int i = 0; i < g->nthr; ++i) { T& t = g->th[i]; t.arena = 1 + i; t.on = false; t.locks = t.guard = 0; t.points = 0; t.nexc = 0; t.done = false; t.fn = &fs[i]; }
  g->cur = 0; sem_post(&g->th[0].go); while (sem_wait(&g->fin)) {}
  g->sched = false; if (conf) conf->assign(g->conf, g->conf + g->nconf); return g->step;
}
}
using namespace sch;
static void* get_(size_t n) {
  int k = cur_arena; if (k < 0 || !g || (me && me->on && (me->locks || me->guard))) { void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
  size_t c = (n + 15) >> 4; if (!c) c = 1; char* p;
  if (c < NCL && g->ar[k].fr[c]) { p = (char*)g->ar[k].fr[c]; g->ar[k].fr[c] = *(void**)p; }
  else { size_t& u = g->ar[k].used; size_t a = (c << 4) + 16; if (u + a > AR) abort(); p = base + AR * k + u + 16; u += a; ((size_t*)p)[-2] = c; }
  memset(p, 0xA5, c << 4); return p;
}
static void put_(void* p) { if (!p) return; char* q = (char*)p; if (base && q >= base && q < base + AR * NAR) {
    T* t = me; int k = (int)((q - base) / AR); if (t && t->on && !mine(t, q)) { if (!t->locks && !t->guard && g->nconf < 64) { Conflict& c = g->conf[g->nconf++]; c.addr = q; c.size = 0; c.where = __builtin_return_address(0); c.shared = true; } return; }
    size_t c = ((size_t*)q)[-2]; if (c < NCL) { bool o = t && t->on; if (t) t->on = false; memset(q, 0x5A, c << 4); *(void**)q = g->ar[k].fr[c]; g->ar[k].fr[c] = q; if (t) t->on = o; } return; } free(p); }
void* operator new(size_t n) { return get_(n); } void* operator new[](size_t n) { return get_(n); }
void operator delete(void* p) noexcept { put_(p); } void operator delete[](void* p) noexcept { put_(p); } void operator delete(void* p, size_t) noexcept { put_(p); } void operator delete[](void* p, size_t) noexcept { put_(p); }
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* a) { access(a, n, false, false); } void __tsan_write##n(void* a) { access(a, n, true, false); } void __tsan_unaligned_read##n(void* a) { access(a, n, false, false); } void __tsan_unaligned_write##n(void* a) { access(a, n, true, false); } \
  void __tsan_volatile_read##n(void* a) { access(a, n, false, false); } void __tsan_volatile_write##n(void* a) { access(a, n, true, false); } void __tsan_unaligned_volatile_read##n(void* a) { access(a, n, false, false); } void __tsan_unaligned_volatile_write##n(void* a) { access(a, n, true, false); } \
  void __tsan_read_write##n(void* a) { access(a, n, true, false); } void __tsan_unaligned_read_write##n(void* a) { access(a, n, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { access(a, n, false, false); } void __tsan_write_range(void* a, size_t n) { access(a, n, true, false); }
void __tsan_vptr_update(void** a, void* v) { if (*a != v) access(a, 8, true, false); } void __tsan_vptr_read(void** a) { access(a, 8, false, false); }
#define AT(B, TY) TY __tsan_atomic##B##_load(const volatile TY* a, int) { access((void*)a, B / 8, false, true); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##B##_store(volatile TY* a, TY v, int) { access((void*)a, B / 8, true, true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##B##_exchange(volatile TY* a, TY v, int) { access((void*)a, B / 8, true, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##B##_fetch_add(volatile TY* a, TY v, int) { access((void*)a, B / 8, true, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##B##_fetch_sub(volatile TY* a, TY v, int) { access((void*)a, B / 8, true, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##B##_fetch_and(volatile TY* a, TY v, int) { access((void*)a, B / 8, true, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##B##_fetch_or(volatile TY* a, TY v, int) { access((void*)a, B / 8, true, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##B##_fetch_xor(volatile TY* a, TY v, int) { access((void*)a, B / 8, true, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##B##_fetch_nand(volatile TY* a, TY v, int) { access((void*)a, B / 8, true, true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile TY* a, TY* c, TY v, int, int) { access((void*)a, B / 8, true, true); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile TY* a, TY* c, TY v, int, int) { access((void*)a, B / 8, true, true); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##B##_compare_exchange_val(volatile TY* a, TY c, TY v, int, int) { access((void*)a, B / 8, true, true); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); } void __tsan_atomic_signal_fence(int) {}
// locks protect what is done while they are held; guarded initialisation of local statics is synchronised by the language
int pthread_mutex_lock(pthread_mutex_t* m) { typedef int (*F)(pthread_mutex_t*); static F f = (F)dlsym(RTLD_NEXT, "pthread_mutex_lock"); int r = f(m); if (me && me->on) ++me->locks; return r; }
int pthread_mutex_unlock(pthread_mutex_t* m) { typedef int (*F)(pthread_mutex_t*); static F f = (F)dlsym(RTLD_NEXT, "pthread_mutex_unlock"); if (me && me->on && me->locks > 0) --me->locks; return f(m); }
int __cxa_guard_acquire(long long* q) { typedef int (*F)(long long*); static F f = (F)dlsym(RTLD_NEXT, "__cxa_guard_acquire"); int r = f(q); if (r && me) ++me->guard; return r; }
void __cxa_guard_release(long long* q) { typedef void (*F)(long long*); static F f = (F)dlsym(RTLD_NEXT, "__cxa_guard_release"); if (me && me->guard) --me->guard; f(q); }
void __cxa_guard_abort(long long* q) { typedef void (*F)(long long*); static F f = (F)dlsym(RTLD_NEXT, "__cxa_guard_abort"); if (me && me->guard) --me->guard; f(q); }
void* __cxa_allocate_exception(size_t n) noexcept { typedef void* (*F)(size_t); static F f = (F)dlsym(RTLD_NEXT, "__cxa_allocate_exception"); void* p = f(n); if (me) { int i = me->nexc < 8 ? me->nexc++ : 7; me->exc[i].p = (char*)p; me->exc[i].n = n; } return p; }
// block copies are not instrumented by the compiler
void* memcpy(void* d, const void* s, size_t n) { if (me && n) { access((void*)s, n, false, false); access(d, n, true, false); } void* r = d; asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
void* memset(void* d, int c, size_t n) { if (me && n) access(d, n, true, false); void* r = d; asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r; }
void* memmove(void* d, const void* s, size_t n) { if (me && n) { access((void*)s, n, false, false); access(d, n, true, false); } char* a = (char*)d; const char* b = (const char*)s; if (a <= b || a >= b + n) { void* q = d; asm volatile("rep movsb" : "+D"(q), "+S"(s), "+c"(n) : : "memory"); } else { volatile char* va = a; const volatile char* vb = b; while (n--) va[n] = vb[n]; } return d; }
}
