#include "c17rt.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <atomic>
#include <cxxabi.h>

extern "C" { extern char __data_start, _end; void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t); int __real___cxa_guard_acquire(uint64_t*); void __real___cxa_guard_release(uint64_t*); void __real___cxa_guard_abort(uint64_t*); int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*); }

// ------------------------------------------------------------------ allocator: no reuse between two quiesce()
namespace {
struct Blk { size_t cls; Blk* next; };          // 16 bytes before every block
char* arena = nullptr; size_t top = 0; const size_t ARENA = (size_t)1 << 36; Blk *pend[512], *avail[512]; std::atomic_flag lk = ATOMIC_FLAG_INIT;
struct Spin { Spin() { while (lk.test_and_set(std::memory_order_acquire)) ; } ~Spin() { lk.clear(std::memory_order_release); } };
size_t cls_of(size_t n) { if (n <= 4096) return (n + 15) / 16; size_t c = 257, s = 8192; while (s < n) { s *= 2; c++; } return c; }
size_t cls_size(size_t c) { return c <= 256 ? c * 16 : (size_t)8192 << (c - 257); }
void* get(size_t n) {
  size_t c = cls_of(n ? n : 1); Spin s; if (!arena) { arena = (char*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (arena == MAP_FAILED) abort(); }
  if (avail[c]) { Blk* b = avail[c]; avail[c] = b->next; b->cls = c; return b + 1; }
  size_t z = cls_size(c) + sizeof(Blk); if (top + z > ARENA) abort(); Blk* b = (Blk*)(arena + top); top += z; b->cls = c; return b + 1;
}
bool mine(void* p) { return (char*)p >= arena && (char*)p < arena + ARENA && arena; }
}
extern "C" {
void* malloc(size_t n) { return get(n); }
void free(void* p) { if (!p || !mine(p)) return; Spin s; Blk* b = (Blk*)p - 1; if (b->cls == (size_t)-1) b = b->next; if (b->cls >= 512) return; b->next = pend[b->cls]; pend[b->cls] = b; }
void* calloc(size_t a, size_t b) { void* p = get(a * b); __real_memset(p, 0, a * b); return p; }
static size_t usable(void* p) { Blk* b = (Blk*)p - 1; if (b->cls == (size_t)-1) { Blk* r = b->next; return cls_size(r->cls) - ((char*)p - (char*)(r + 1)); } return cls_size(b->cls); }
void* realloc(void* p, size_t n) { if (!p) return get(n); size_t o = usable(p); if (n <= o) return p; void* q = get(n); __real_memcpy(q, p, o); free(p); return q; }
void* memalign(size_t al, size_t n) { if (al <= 16) return get(n); char* p = (char*)get(n + al + 16); char* q = (char*)(((uintptr_t)p + 16 + al - 1) / al * al); Blk* h = (Blk*)q - 1; h->cls = (size_t)-1; h->next = (Blk*)p - 1; return q; }
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** r, size_t al, size_t n) { *r = memalign(al, n); return 0; }
void* valloc(size_t n) { return memalign(4096, n); }
void* pvalloc(size_t n) { return memalign(4096, n); }
size_t malloc_usable_size(void* p) { return p ? usable(p) : 0; }
}
namespace rt {
void quiesce() { Spin s; for (int c = 0; c < 512; c++) { while (pend[c]) { Blk* b = pend[c]; pend[c] = b->next; b->next = avail[c]; avail[c] = b; } } }

// ------------------------------------------------------------------ threads
const int MT = 4;
struct Th { int id = 0; sem_t sem; long count = 0, stop = -1; bool done = false; int vc[MT]; const std::function<void()>* body; pthread_t p; std::vector<long> shared; };
static Th* T[MT]; static int NT = 0; static const std::vector<Seg>* sched; static size_t seg; static sem_t fin; static bool mon; static Race race; static bool dead;
static thread_local Th* me = nullptr;  // set only while the body runs
static thread_local int nblocked = 0;

static bool pick() {  // thread of the next segment, or any unfinished one; false: none left
  while (seg < sched->size()) { const Seg& s = (*sched)[seg]; seg++; if (s.tid < NT && !T[s.tid]->done) { Th* t = T[s.tid]; if (s.stop >= 0 && s.stop <= t->count) continue; t->stop = s.stop; sem_post(&t->sem); return true; } }
  for (int i = 0; i < NT; i++) if (!T[i]->done) { T[i]->stop = -1; sem_post(&T[i]->sem); return true; }
  return false;
}
static void wait(Th* t) { while (sem_wait(&t->sem) && errno == EINTR) ; }
static void switch_away(Th* t) { Th* k = me; me = nullptr; pick(); wait(t); me = k; }
static void blocked(Th* t) {  // waits for something another thread holds: that one goes on first
  Th* k = me; me = nullptr; Th* o = nullptr; for (int i = 1; i <= NT; i++) { Th* c = T[(t->id + i) % NT]; if (c != t && !c->done) { o = c; break; } }
  if (!o || ++nblocked > 1000000) { dead = true; fprintf(stderr, "deadlock\n"); _exit(77); }
  o->stop = o->count + 1; seg = sched->size(); sem_post(&o->sem); wait(t); me = k;
}

// ------------------------------------------------------------------ happens-before
struct Ent { uint8_t mask; bool atomic; int clk; uintptr_t pc; };
struct Cell { uintptr_t a; unsigned gen; Ent e[MT][2][2]; };
static const size_t NC = 1 << 17; static Cell* cells = nullptr; static unsigned gen = 1; static size_t used = 0;
struct Sync { uintptr_t a; unsigned gen; int vc[MT]; }; static Sync syncs[4096];
static Cell* cell(uintptr_t a) { size_t h = (a >> 3) * 0x9E3779B97F4A7C15ull >> 47; for (size_t k = 0; k < NC; k++) { Cell& c = cells[(h + k) & (NC - 1)]; if (c.gen != gen) { if (used > NC * 3 / 4) return nullptr; used++; c.gen = gen; c.a = a; __real_memset(c.e, 0, sizeof c.e); return &c; } if (c.a == a) return &c; } return nullptr; }
static Sync* sync_of(uintptr_t a) { size_t h = (a >> 2) * 0x9E3779B97F4A7C15ull >> 52; for (size_t k = 0; k < 4096; k++) { Sync& s = syncs[(h + k) & 4095]; if (s.gen != gen) { s.gen = gen; s.a = a; __real_memset(s.vc, 0, sizeof s.vc); return &s; } if (s.a == a) return &s; } return nullptr; }
static void acq(Th* t, uintptr_t a) { if (!mon) return; Sync* s = sync_of(a); if (s) for (int i = 0; i < MT; i++) if (s->vc[i] > t->vc[i]) t->vc[i] = s->vc[i]; }
static void rel(Th* t, uintptr_t a) { if (!mon) return; Sync* s = sync_of(a); if (s) for (int i = 0; i < MT; i++) if (t->vc[i] > s->vc[i]) s->vc[i] = t->vc[i]; t->vc[t->id]++; }
static void touch8(Th* t, uintptr_t w, uint8_t mask, bool wr, bool at, uintptr_t pc) {
  Cell* c = cell(w); if (!c) return;
  if (!race.found) for (int u = 0; u < NT; u++) if (u != t->id) for (int k = wr ? 0 : 1; k < 2; k++) for (int s = 0; s < 2; s++) { Ent& e = c->e[u][k][s]; if ((e.mask & mask) && !(e.atomic && at) && e.clk > t->vc[u]) { race.found = true; race.addr = w; race.pc[0] = e.pc; race.pc[1] = pc; race.write[0] = k; race.write[1] = wr; race.tid[0] = u; race.tid[1] = t->id; } }
  Ent* e = c->e[t->id][wr]; for (int s = 0; s < 2; s++) if (!e[s].mask || (e[s].mask == mask && e[s].atomic == at)) { e[s].mask = mask; e[s].atomic = at; e[s].clk = t->vc[t->id]; e[s].pc = pc; return; }
}
static inline void access(uintptr_t a, size_t n, bool wr, bool at, uintptr_t pc) {
  Th* t = me; if (!t || !n) return; me = nullptr;
  bool sh = at || (a >= (uintptr_t)&__data_start && a < (uintptr_t)&_end);
  t->count++; if (sh && mon) t->shared.push_back(t->count);
  if (t->stop >= 0 && t->count >= t->stop) { pick(); wait(t); }  // before the access
  if (mon) { uintptr_t b = a, end = a + n; while (b < end) { uintptr_t w = b & ~(uintptr_t)7; int lo = b - w, hi = end - w < 8 ? (int)(end - w) : 8; touch8(t, w, (uint8_t)((1u << hi) - (1u << lo)), wr, at, pc); b = w + 8; } }
  me = t;
}
static void* start(void* p) {
  Th* t = (Th*)p; wait(t); nblocked = 0; me = t; try { (*t->body)(); } catch (...) { } me = nullptr; t->done = true;
  if (!pick()) sem_post(&fin); wait(t);  // every thread stays alive until all are done
  return nullptr;
}
Result run(const std::vector<std::function<void()>>& body, const std::vector<Seg>& schedule, bool monitor) {
  if (!cells) cells = (Cell*)mmap(nullptr, NC * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  gen++; used = 0; race = Race(); dead = false; mon = monitor; NT = (int)body.size(); sched = &schedule; seg = 0; sem_init(&fin, 0, 0);
  for (int i = 0; i < NT; i++) { T[i] = new Th; T[i]->id = i; sem_init(&T[i]->sem, 0, 0); T[i]->body = &body[i]; for (int k = 0; k < MT; k++) T[i]->vc[k] = 0; T[i]->vc[i] = 1; }
  for (int i = 0; i < NT; i++) if (pthread_create(&T[i]->p, nullptr, start, T[i])) { fprintf(stderr, "no thread\n"); _exit(78); }
  pick(); while (sem_wait(&fin) && errno == EINTR) ;
  Result r; for (int i = 0; i < NT; i++) { sem_post(&T[i]->sem); pthread_join(T[i]->p, nullptr); r.count.push_back(T[i]->count); r.shared.push_back(T[i]->shared); }
  for (int i = 0; i < NT; i++) { sem_destroy(&T[i]->sem); delete T[i]; } r.race = race; r.deadlock = dead; return r;
}
std::string where(uintptr_t pc) { Dl_info i; if (dladdr((void*)pc, &i) && i.dli_sname) { int st; char* d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st); std::string s = d ? d : i.dli_sname; free(d); return s; } char b[32]; snprintf(b, sizeof b, "%p", (void*)pc); return b; }
}  // namespace rt
using namespace rt;
#define PC (uintptr_t)__builtin_return_address(0)
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { access((uintptr_t)p, n, false, false, PC); } void __tsan_write##n(void* p) { access((uintptr_t)p, n, true, false, PC); } \
  void __tsan_read##n##_pc(void* p, void* pc) { access((uintptr_t)p, n, false, false, (uintptr_t)pc); } void __tsan_write##n##_pc(void* p, void* pc) { access((uintptr_t)p, n, true, false, (uintptr_t)pc); } \
  void __tsan_unaligned_read##n(void* p) { access((uintptr_t)p, n, false, false, PC); } void __tsan_unaligned_write##n(void* p) { access((uintptr_t)p, n, true, false, PC); } \
  void __tsan_volatile_read##n(void* p) { access((uintptr_t)p, n, false, false, PC); } void __tsan_volatile_write##n(void* p) { access((uintptr_t)p, n, true, false, PC); } \
  void __tsan_unaligned_volatile_read##n(void* p) { access((uintptr_t)p, n, false, false, PC); } void __tsan_unaligned_volatile_write##n(void* p) { access((uintptr_t)p, n, true, false, PC); } \
  void __tsan_read_write##n(void* p) { access((uintptr_t)p, n, true, false, PC); } void __tsan_unaligned_read_write##n(void* p) { access((uintptr_t)p, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access((uintptr_t)p, n, false, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { access((uintptr_t)p, n, true, false, PC); }
void __tsan_vptr_update(void** p, void*) { access((uintptr_t)p, 8, true, false, PC); }
void __tsan_vptr_read(void** p) { access((uintptr_t)p, 8, false, false, PC); }
static inline bool isacq(int mo) { return mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE; }
static inline bool isrel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
#define PRE(wr) access((uintptr_t)p, sizeof(*p), wr, true, PC); if (me && isacq(mo)) acq(me, (uintptr_t)p); if (me && wr && isrel(mo)) rel(me, (uintptr_t)p);
#define AT(b, t) \
  t __tsan_atomic##b##_load(const volatile t* p, int mo) { PRE(false) return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##b##_store(volatile t* p, t v, int mo) { PRE(true) __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
  t __tsan_atomic##b##_exchange(volatile t* p, t v, int mo) { PRE(true) return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
  t __tsan_atomic##b##_fetch_add(volatile t* p, t v, int mo) { PRE(true) return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
  t __tsan_atomic##b##_fetch_sub(volatile t* p, t v, int mo) { PRE(true) return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
  t __tsan_atomic##b##_fetch_and(volatile t* p, t v, int mo) { PRE(true) return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
  t __tsan_atomic##b##_fetch_or(volatile t* p, t v, int mo) { PRE(true) return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
  t __tsan_atomic##b##_fetch_xor(volatile t* p, t v, int mo) { PRE(true) return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
  t __tsan_atomic##b##_fetch_nand(volatile t* p, t v, int mo) { PRE(true) return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile t* p, t* e, t v, int mo, int) { PRE(true) return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile t* p, t* e, t v, int mo, int) { PRE(true) return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  t __tsan_atomic##b##_compare_exchange_val(volatile t* p, t e, t v, int mo, int) { PRE(true) __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (me) { access((uintptr_t)s, n, false, false, PC); access((uintptr_t)d, n, true, false, PC); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (me) { access((uintptr_t)s, n, false, false, PC); access((uintptr_t)d, n, true, false, PC); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int v, size_t n) { if (me) access((uintptr_t)d, n, true, false, PC); return __real_memset(d, v, n); }
static uint64_t* busy[64];
int __wrap___cxa_guard_acquire(uint64_t* g) {
  Th* t = me; if (!t) return __real___cxa_guard_acquire(g); access((uintptr_t)g, 1, false, true, PC);
  for (;;) { if (*(volatile char*)g) { acq(t, (uintptr_t)g); return 0; } bool b = false; int fr = -1; for (int i = 0; i < 64; i++) { if (busy[i] == g) b = true; else if (!busy[i]) fr = i; } if (!b) { busy[fr] = g; return 1; } blocked(t); }
}
void __wrap___cxa_guard_release(uint64_t* g) { Th* t = me; if (!t) { __real___cxa_guard_release(g); return; } for (auto& b : busy) if (b == g) b = nullptr; rel(t, (uintptr_t)g); *(volatile char*)g = 1; access((uintptr_t)g, 1, true, true, PC); }
void __wrap___cxa_guard_abort(uint64_t* g) { Th* t = me; if (!t) { __real___cxa_guard_abort(g); return; } for (auto& b : busy) if (b == g) b = nullptr; }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { Th* t = me; if (!t) return __real_pthread_mutex_lock(m); access((uintptr_t)m, 1, false, true, PC); int rc; while ((rc = pthread_mutex_trylock(m)) == EBUSY) blocked(t); acq(t, (uintptr_t)m); return rc; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { Th* t = me; if (t) rel(t, (uintptr_t)m); int rc = __real_pthread_mutex_unlock(m); if (t) access((uintptr_t)m, 1, false, true, PC); return rc; }
}

// ------------------------------------------------------------------ the file system and other process-wide state are memory too
namespace {
enum { CWD = 1, LOCALE, ENV, UMASK, RANDOM, LAST = 100 };
void global(int what, bool wr, uintptr_t pc) { access(((uintptr_t)1 << 60) + what * 64, 8, wr, true, pc); access(((uintptr_t)1 << 60) + what * 64 + 8, 8, wr, false, pc); }  // the first makes it a point where other threads may go on
void file(const char* p, bool wr, uintptr_t pc) {
  if (!me || !p) return; char b[8192]; size_t n = 0;
  if (p[0] != '/') { global(CWD, false, pc); Th* k = me; me = nullptr; if (getcwd(b, 4096)) n = strlen(b); me = k; b[n++] = '/'; }
  for (const char* c = p; *c && n < sizeof b - 1; c++) { if (*c == '/' && n && b[n - 1] == '/') continue; if (*c == '/' && n > 1 && b[n - 1] == '.' && b[n - 2] == '/') { n--; continue; } b[n++] = *c; }
  b[n] = 0; if (!strncmp(b, "/dev/", 5) || !strncmp(b, "/proc/", 6)) return; uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < n; i++) h = (h ^ (unsigned char)b[i]) * 1099511628211ull;
  global(LAST + (int)(h >> 8 & 0xFFFFFFF), wr, pc);
}
template <class F> F next(const char* n) { Th* k = me; me = nullptr; F f = (F)dlsym(RTLD_NEXT, n); me = k; return f; }
}
#define NEXT(f, ...) static decltype(&f) nx = nullptr; if (!nx) nx = next<decltype(&f)>(#f); return nx(__VA_ARGS__)
extern "C" {
static bool writes(const char* m) { return strchr(m, 'w') || strchr(m, 'a') || strchr(m, '+'); }
FILE* fopen(const char* p, const char* m) { file(p, writes(m), PC); NEXT(fopen, p, m); }
FILE* fopen64(const char* p, const char* m) { file(p, writes(m), PC); NEXT(fopen64, p, m); }
int open(const char* p, int fl, ...) { __builtin_va_list v; __builtin_va_start(v, fl); unsigned mode = __builtin_va_arg(v, unsigned); __builtin_va_end(v); file(p, (fl & 3) || (fl & 01100), PC); static int (*nx)(const char*, int, ...) = nullptr; if (!nx) nx = next<int (*)(const char*, int, ...)>("open"); return nx(p, fl, mode); }
int open64(const char* p, int fl, ...) { __builtin_va_list v; __builtin_va_start(v, fl); unsigned mode = __builtin_va_arg(v, unsigned); __builtin_va_end(v); file(p, (fl & 3) || (fl & 01100), PC); static int (*nx)(const char*, int, ...) = nullptr; if (!nx) nx = next<int (*)(const char*, int, ...)>("open64"); return nx(p, fl, mode); }
int creat(const char* p, unsigned mode) { file(p, true, PC); NEXT(creat, p, mode); }
int rename(const char* a, const char* b) { file(a, true, PC); file(b, true, PC); NEXT(rename, a, b); }
int remove(const char* p) { file(p, true, PC); NEXT(remove, p); }
int unlink(const char* p) { file(p, true, PC); NEXT(unlink, p); }
int chdir(const char* p) { global(CWD, true, PC); NEXT(chdir, p); }
char* setlocale(int c, const char* l) { global(LOCALE, l != nullptr, PC); NEXT(setlocale, c, l); }
int setenv(const char* n, const char* v, int o) { global(ENV, true, PC); NEXT(setenv, n, v, o); }
int unsetenv(const char* n) { global(ENV, true, PC); NEXT(unsetenv, n); }
int putenv(char* s) { global(ENV, true, PC); NEXT(putenv, s); }
char* getenv(const char* n) { if (me) global(ENV, false, PC); NEXT(getenv, n); }
unsigned umask(unsigned m) { global(UMASK, true, PC); NEXT(umask, m); }
int rand() { global(RANDOM, true, PC); NEXT(rand); }
long random() { global(RANDOM, true, PC); NEXT(random); }
void srandom(unsigned s) { global(RANDOM, true, PC); NEXT(srandom, s); }
double drand48() { global(RANDOM + 3, true, PC); NEXT(drand48); }
long lrand48() { global(RANDOM + 3, true, PC); NEXT(lrand48); }
long mrand48() { global(RANDOM + 3, true, PC); NEXT(mrand48); }
void srand48(long s) { global(RANDOM + 3, true, PC); NEXT(srand48, s); }
typedef void (*Handler)(int); Handler signal(int n, Handler h) { global(RANDOM + 4, true, PC); static Handler (*nx)(int, Handler) = nullptr; if (!nx) nx = next<Handler (*)(int, Handler)>("signal"); return nx(n, h); }
struct sigaction; int sigaction(int n, const struct sigaction* a, struct sigaction* o) { if (me) global(RANDOM + 4, a != nullptr, PC); static int (*nx)(int, const struct sigaction*, struct sigaction*) = nullptr; if (!nx) nx = next<int (*)(int, const struct sigaction*, struct sigaction*)>("sigaction"); return nx(n, a, o); }
unsigned alarm(unsigned n) { global(RANDOM + 5, true, PC); NEXT(alarm, n); }
int mkdir(const char* p, unsigned m) { file(p, true, PC); static int (*nx)(const char*, unsigned) = nullptr; if (!nx) nx = next<int (*)(const char*, unsigned)>("mkdir"); return nx(p, m); }
int rmdir(const char* p) { file(p, true, PC); NEXT(rmdir, p); }
int truncate(const char* p, long n) { file(p, true, PC); NEXT(truncate, p, n); }
int link(const char* a, const char* b) { file(a, false, PC); file(b, true, PC); NEXT(link, a, b); }
int symlink(const char* a, const char* b) { file(b, true, PC); NEXT(symlink, a, b); }
char* tmpnam(char* s) { global(RANDOM + 6, !s, PC); static char* (*nx)(char*) = nullptr; if (!nx) nx = next<char* (*)(char*)>("tmpnam"); return nx(s); }
void srand(unsigned s) { global(RANDOM, true, PC); NEXT(srand, s); }
char* strtok(char* s, const char* d) { global(RANDOM + 1, true, PC); NEXT(strtok, s, d); }
struct tm* localtime(const long* t); struct tm* gmtime(const long* t); char* asctime(const struct tm* t); char* ctime(const long* t);
struct tm* localtime(const long* t) { global(RANDOM + 2, true, PC); NEXT(localtime, t); }
struct tm* gmtime(const long* t) { global(RANDOM + 2, true, PC); NEXT(gmtime, t); }
char* asctime(const struct tm* t) { global(RANDOM + 2, true, PC); NEXT(asctime, t); }
char* ctime(const long* t) { global(RANDOM + 2, true, PC); NEXT(ctime, t); }
}
