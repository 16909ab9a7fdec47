#include "rt.hpp"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <iconv.h>
#include <link.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>
#include <dirent.h>
#include <algorithm>
#include <elf.h>
#include <fcntl.h>
#include <string>
#include <sys/stat.h>
#include <vector>

extern "C" void __libc_free(void*);
extern "C" void* __libc_malloc(size_t);
extern "C" void* __libc_realloc(void*, size_t);

namespace {
typedef uintptr_t Addr;
const int MAXT = 4; const size_t STACK = 4u << 20;
thread_local int me = -1;          // index of a controlled thread
thread_local int inside = 0;       // the run time itself is running
bool on = false; int nthreads = 0; mc::Ctx* ctx = nullptr; sched::Options opt;
sem_t sem[MAXT], main_sem;
enum State { READY, BLOCKED, DONE }; State st[MAXT]; const void* waiting[MAXT];
char* stacks = nullptr; uint32_t vc[MAXT][MAXT]; sched::Stats counts;
const std::vector<std::function<void()>>* bodies;
struct In { In() { ++inside; } ~In() { --inside; } };
inline bool live() { return on && me >= 0 && !inside; }

std::string where(const void* pc) {
  Dl_info i; if (!dladdr(pc, &i) || !i.dli_sname) return "?"; int s = 0; char* d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &s); std::string r = d ? d : i.dli_sname; if (r.size() > 160) r = r.substr(0, 160) + "..."; return r;
}
[[noreturn]] void failed(const std::string& m) { on = false; mc::finish_failed(*ctx, m); }

// ---- switching ----
void give(int to) { if (to == me) return; sem_post(&sem[to]); while (sem_wait(&sem[me])) {} }
// next thread; the current one first if it can go on
void schedule(bool forced = false) {
  int en[MAXT], n = 0; bool cur = st[me] == READY && !forced;
  if (cur) en[n++] = me;
  for (int k = 1; k <= nthreads; ++k) { int t = (me + k) % nthreads; if ((t != me || (forced && st[me] == READY && n == 0)) && st[t] == READY) en[n++] = t; }
  if (!n) { std::string w; for (int t = 0; t < nthreads; ++t) if (st[t] == BLOCKED) w += " thread " + std::to_string(t); if (w.empty()) { sem_post(&main_sem); if (st[me] == DONE) return; } failed("deadlock: no thread can go on; waiting:" + w); }
  int c = 0;
  if (n > 1) {
    try { if (cur) { if (ctx->deviations_left() > 0) c = ctx->deviate(n); } else c = ctx->choose(forced ? 1 : n); }
    catch (mc::Prune&) { on = false; mc::finish(*ctx, true); } catch (mc::Failure& f) { failed(f.msg); }
  }
  if (en[c] != me) { if (st[me] == DONE) sem_post(&sem[en[c]]); else give(en[c]); }
}
void block(const void* on_what) { st[me] = BLOCKED; waiting[me] = on_what; schedule(); }
void wake(const void* what) { for (int t = 0; t < nthreads; ++t) if (st[t] == BLOCKED && waiting[t] == what) st[t] = READY; }

// ---- happens-before ----
struct Sync { Addr a; uint32_t c[MAXT]; int owner; int readers; int depth; };
Sync syncs[1 << 14];
Sync& sync_of(const volatile void* p) { Addr a = reinterpret_cast<Addr>(p); size_t i = (a >> 2) * 0x9E3779B97F4A7C15ull >> 50; for (size_t k = 0;; ++k) { Sync& s = syncs[(i + k) & ((1 << 14) - 1)]; if (s.a == a) return s; if (!s.a) { s.a = a; s.owner = -1; return s; } if (k > (1 << 13)) failed("driver error: too many synchronisation objects"); } }
void acquire(Sync& s) { for (int t = 0; t < nthreads; ++t) if (s.c[t] > vc[me][t]) vc[me][t] = s.c[t]; }
void release(Sync& s, bool join) { for (int t = 0; t < nthreads; ++t) if (!join || vc[me][t] > s.c[t]) s.c[t] = vc[me][t]; ++vc[me][me]; }

// ---- shadow memory: the recent accesses of every 8-byte cell ----
struct Acc { uint32_t clk; int8_t tid; uint8_t mask; bool write, atomic; const void* pc; };
const int NACC = 10;
struct Cell { Addr key; uint8_t n, freed; Acc a[NACC]; };
const size_t NCELL = 1u << 20; Cell* cells = nullptr; uint32_t* cell_index = nullptr; size_t used_cells = 0;   // cells are handed out in order, to touch few pages
struct Range { Addr lo, hi; }; Range libs[64]; int nlibs = 0;
int add_lib(dl_phdr_info* i, size_t, void*) {
  if (!i->dlpi_name || !*i->dlpi_name) return 0;
  Addr lo = ~static_cast<Addr>(0), hi = 0; for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_LOAD) { Addr b = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, e = b + i->dlpi_phdr[k].p_memsz; if (b < lo) lo = b; if (e > hi) hi = e; }
  if (nlibs < 64) libs[nlibs++] = Range{lo, hi}; return 0;
}
Cell& cell(Addr key) {
  size_t i = ((key >> 5) * 0x9E3779B97F4A7C15ull >> 49 << 5 | (key & 31)) & (NCELL - 1);
  for (;; i = (i + 1) & (NCELL - 1)) {
    uint32_t& k = cell_index[i]; if (k && cells[k].key == key) return cells[k];
    if (!k) { if (++used_cells > NCELL / 2) failed("driver error: shadow memory is full"); k = static_cast<uint32_t>(used_cells); cells[k].key = key; return cells[k]; }
  }
}
void cell_access(Addr key, uint8_t mask, bool write, bool atomic, const void* pc) {
  Cell& c = cell(key); uint32_t now = vc[me][me];
  if (c.freed) failed("use of freed memory in " + where(pc));
  int slot = -1, own = -1;
  for (int i = 0; i < c.n; ++i) {
    Acc& r = c.a[i];
    if (r.tid == me) { if (r.write == write && r.atomic == atomic && (r.mask & ~mask) == 0) slot = i; else own = i; continue; }
    if ((r.mask & mask) && (r.write || write) && !(r.atomic && atomic) && r.clk > vc[me][r.tid]) {
      Dl_info d; std::string nm; if (dladdr(reinterpret_cast<void*>(key << 3), &d) && d.dli_sname) nm = " at " + where(reinterpret_cast<void*>(key << 3));
      failed("data race between threads " + std::to_string(r.tid) + " and " + std::to_string(me) + nm + ":\n  " + (r.write ? "write" : "read") + " in " + where(r.pc) + "\n  " + (write ? "write" : "read") + " in " + where(pc));
    }
  }
  if (slot < 0) { if (c.n < NACC) slot = c.n++; else slot = own >= 0 ? own : 0; }
  c.a[slot] = Acc{now, static_cast<int8_t>(me), mask, write, atomic, pc};
}
void access(const volatile void* p, size_t n, bool write, bool atomic, const void* pc) {
  In g; Addr a = reinterpret_cast<Addr>(p);
  Addr s = reinterpret_cast<Addr>(stacks) + static_cast<size_t>(me) * STACK; if (a >= s && a < s + STACK) return;
  for (int i = 0; i < nlibs; ++i) if (a >= libs[i].lo && a < libs[i].hi) return;
  ++counts.accesses;
  while (n) { Addr o = a & 7; size_t k = 8 - o; if (k > n) k = n; cell_access(a >> 3, static_cast<uint8_t>(((1u << k) - 1) << o), write, atomic, pc); a += k; n -= k; }
}
void freed(void* p) { // counts as a write to the whole block
  In g; size_t n = malloc_usable_size(p); if (n > 4096) n = 4096; Addr a = reinterpret_cast<Addr>(p); const void* pc = __builtin_return_address(0);
  for (size_t i = 0; i + 8 <= n; i += 8) { cell_access((a + i) >> 3, 0xff, true, false, pc); cell((a + i) >> 3).freed = 1; }
}
// ---- spinning threads give way ----
const volatile void* spin_on[MAXT]; int spins[MAXT];
void sync_point(const volatile void* p) {
  ++counts.syncs; ctx->step();
  if (spin_on[me] == p) { if (++spins[me] > 60) { spins[me] = 0; schedule(true); return; } } else { spin_on[me] = p; spins[me] = 0; }
  schedule();
}
void* entry(void* p) {
  int t = static_cast<int>(reinterpret_cast<intptr_t>(p)); while (sem_wait(&sem[t])) {} me = t;
  std::string err;
  try { (*bodies)[static_cast<size_t>(t)](); } catch (std::exception& e) { In g; failed("thread " + std::to_string(t) + " ends with an exception: " + e.what()); }
  { In g; st[me] = DONE; schedule(); }
  inside = 1; return nullptr;
}
// ---- which functions are instances of the C++ library's templates ----
struct Function { Addr lo, hi; }; Function* functions = nullptr; size_t nfunctions = 0;
struct Functions {
  Functions() {
    int fd = open("/proc/self/exe", O_RDONLY); struct stat sb; if (fd < 0 || fstat(fd, &sb)) abort();
    const char* f = static_cast<const char*>(mmap(nullptr, static_cast<size_t>(sb.st_size), PROT_READ, MAP_PRIVATE, fd, 0)); close(fd); if (f == MAP_FAILED) abort();
    Addr base = 0; dl_iterate_phdr([](dl_phdr_info* i, size_t, void* b) { *static_cast<Addr*>(b) = i->dlpi_addr; return 1; }, &base);
    const ElfW(Ehdr)* e = reinterpret_cast<const ElfW(Ehdr)*>(f); const ElfW(Shdr)* sh = reinterpret_cast<const ElfW(Shdr)*>(f + e->e_shoff); std::vector<Function> v;
    for (int k = 0; k < e->e_shnum; ++k) if (sh[k].sh_type == SHT_SYMTAB) { const ElfW(Sym)* y = reinterpret_cast<const ElfW(Sym)*>(f + sh[k].sh_offset); const char* names = f + sh[sh[k].sh_link].sh_offset;
      for (size_t i = 0; i < sh[k].sh_size / sizeof *y; ++i) { if ((y[i].st_info & 15) != STT_FUNC || !y[i].st_size) continue; std::string n = names + y[i].st_name; size_t s = n.compare(0, 3, "_ZN") ? 2 : n.compare(0, 4, "_ZNK") ? 3 : 4;
        if (n.compare(0, 2, "_Z") == 0 && (n.compare(s, 1, "S") == 0 || n.compare(s, 10, "9__gnu_cxx") == 0)) v.push_back(Function{base + y[i].st_value, base + y[i].st_value + y[i].st_size}); } }
    if (v.empty()) abort(); std::sort(v.begin(), v.end(), [](const Function& a, const Function& b) { return a.lo < b.lo; }); functions = new Function[v.size()]; nfunctions = v.size(); std::copy(v.begin(), v.end(), functions); munmap(const_cast<char*>(f), static_cast<size_t>(sb.st_size));
  }
} functions_;
bool of_library(Addr pc) { size_t a = 0, b = nfunctions; while (a < b) { size_t m = (a + b) / 2; if (functions[m].hi <= pc) a = m + 1; else b = m; } return a < nfunctions && pc >= functions[a].lo; }
template <class F> F real(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
} // namespace

namespace sched {
Stats stats() { return counts; }
void run(mc::Ctx& x, const std::vector<std::function<void()>>& threads, const Options& o) {
  ctx = &x; opt = o; bodies = &threads; nthreads = static_cast<int>(threads.size());
  if (!cells) { cells = static_cast<Cell*>(mmap(nullptr, NCELL * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)); cell_index = static_cast<uint32_t*>(mmap(nullptr, NCELL * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)); stacks = static_cast<char*>(mmap(nullptr, MAXT * STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)); dl_iterate_phdr(add_lib, nullptr); }
  sem_init(&main_sem, 0, 0); counts = Stats();
  pthread_t th[MAXT];
  for (int t = 0; t < nthreads; ++t) { sem_init(&sem[t], 0, 0); st[t] = READY; for (int k = 0; k < nthreads; ++k) vc[t][k] = k == t; }
  for (int t = 0; t < nthreads; ++t) { pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, stacks + static_cast<size_t>(t) * STACK, STACK); if (pthread_create(&th[t], &a, entry, reinterpret_cast<void*>(static_cast<intptr_t>(t)))) mc::finish_failed(x, "driver error: pthread_create"); }
  int first = x.choose(nthreads);
  on = true; sem_post(&sem[first]); while (sem_wait(&main_sem)) {}
  on = false; for (int t = 0; t < nthreads; ++t) pthread_join(th[t], nullptr);
}
}

// ---- instrumentation ----
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) { if (live() && !of_library(reinterpret_cast<Addr>(PC))) { In g; ++counts.functions; if (opt.at_functions) { ctx->step(); schedule(); } } }
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
#define RW(n) void __tsan_read##n(void* p) { if (live()) access(p, n, false, false, PC); } void __tsan_write##n(void* p) { if (live()) access(p, n, true, false, PC); } \
  void __tsan_unaligned_read##n(void* p) { if (live()) access(p, n, false, false, PC); } void __tsan_unaligned_write##n(void* p) { if (live()) access(p, n, true, false, PC); } \
  void __tsan_volatile_read##n(void* p) { if (live()) access(p, n, false, false, PC); } void __tsan_volatile_write##n(void* p) { if (live()) access(p, n, true, false, PC); } \
  void __tsan_read_write##n(void* p) { if (live()) access(p, n, true, false, PC); } void __tsan_unaligned_read_write##n(void* p) { if (live()) access(p, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, long n) { if (live()) access(p, static_cast<size_t>(n), false, false, PC); }
void __tsan_write_range(void* p, long n) { if (live()) access(p, static_cast<size_t>(n), true, false, PC); }
void __tsan_vptr_update(void** p, void* v) { if (live() && *p != v) access(p, 8, true, false, PC); }
void __tsan_vptr_read(void** p) { if (live()) access(p, 8, false, false, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (live()) { access(s, n, false, false, PC); access(d, n, true, false, PC); } return __builtin_memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (live()) { access(s, n, false, false, PC); access(d, n, true, false, PC); } return __builtin_memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { if (live()) access(d, n, true, false, PC); return __builtin_memset(d, c, n); }

static void a_before(const volatile void* p, size_t n, bool w, const void* pc) { In g; sync_point(p); { --inside; access(p, n, w, true, pc); ++inside; } }
static void a_acq(const volatile void* p, int mo) { In g; if (mo == 1 || mo == 2 || mo >= 4) acquire(sync_of(p)); }
static void a_rel(const volatile void* p, int mo, bool rmw) { In g; Sync& s = sync_of(p); if (mo >= 3) release(s, rmw); else if (!rmw) for (auto& c : s.c) c = 0; }
#define ATOMIC(B, T) \
T __tsan_atomic##B##_load(const volatile T* p, int mo) { if (live()) { a_before(p, sizeof(T), false, PC); a_acq(p, mo); } return __atomic_load_n(p, 5); } \
void __tsan_atomic##B##_store(volatile T* p, T v, int mo) { if (live()) { a_before(p, sizeof(T), true, PC); a_rel(p, mo, false); } __atomic_store_n(p, v, 5); } \
T __tsan_atomic##B##_exchange(volatile T* p, T v, int mo) { if (live()) { a_before(p, sizeof(T), true, PC); a_acq(p, mo); a_rel(p, mo, true); } return __atomic_exchange_n(p, v, 5); } \
T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int mo) { if (live()) { a_before(p, sizeof(T), true, PC); a_acq(p, mo); a_rel(p, mo, true); } return __atomic_fetch_add(p, v, 5); } \
T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int mo) { if (live()) { a_before(p, sizeof(T), true, PC); a_acq(p, mo); a_rel(p, mo, true); } return __atomic_fetch_sub(p, v, 5); } \
T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int mo) { if (live()) { a_before(p, sizeof(T), true, PC); a_acq(p, mo); a_rel(p, mo, true); } return __atomic_fetch_and(p, v, 5); } \
T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int mo) { if (live()) { a_before(p, sizeof(T), true, PC); a_acq(p, mo); a_rel(p, mo, true); } return __atomic_fetch_or(p, v, 5); } \
T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int mo) { if (live()) { a_before(p, sizeof(T), true, PC); a_acq(p, mo); a_rel(p, mo, true); } return __atomic_fetch_xor(p, v, 5); } \
T __tsan_atomic##B##_fetch_nand(volatile T* p, T v, int mo) { if (live()) { a_before(p, sizeof(T), true, PC); a_acq(p, mo); a_rel(p, mo, true); } return __atomic_fetch_nand(p, v, 5); } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int fo) { if (live()) { bool eq; a_before(p, sizeof(T), false, PC); eq = *p == *c; if (eq) { { access(p, sizeof(T), true, true, PC); } a_acq(p, mo); a_rel(p, mo, true); } else a_acq(p, fo); } return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* c, T v, int mo, int fo) { return __tsan_atomic##B##_compare_exchange_strong(p, c, v, mo, fo); } \
T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T c, T v, int mo, int fo) { __tsan_atomic##B##_compare_exchange_strong(p, &c, v, mo, fo); return c; }
ATOMIC(8, unsigned char) ATOMIC(16, unsigned short) ATOMIC(32, unsigned) ATOMIC(64, unsigned long)
static char fence_obj;
void __tsan_atomic_thread_fence(int) { if (live()) { In g; sync_point(&fence_obj); Sync& s = sync_of(&fence_obj); acquire(s); release(s, true); } __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int) {}

// ---- function-local statics ----
int __cxa_guard_acquire(abi::__guard* g) {
  unsigned char* b = reinterpret_cast<unsigned char*>(g);
  if (!live()) { if (*b) return 0; if (b[1]) abort(); b[1] = 1; return 1; }
  In in; if (!*b) sync_point(g); Sync& s = sync_of(g);
  while (!*b && b[1]) { if (s.owner == me) failed("a function-local static is initialised recursively"); block(g); }
  if (*b) { acquire(s); return 0; }
  b[1] = 1; s.owner = me; return 1;
}
void __cxa_guard_release(abi::__guard* g) noexcept { unsigned char* b = reinterpret_cast<unsigned char*>(g); if (!live()) { *b = 1; b[1] = 0; return; } In in; b[0] = 1; b[1] = 0; Sync& s = sync_of(g); s.owner = -1; release(s, true); wake(g); }
void __cxa_guard_abort(abi::__guard* g) noexcept { unsigned char* b = reinterpret_cast<unsigned char*>(g); b[1] = 0; if (live()) { In in; Sync& s = sync_of(g); s.owner = -1; release(s, true); wake(g); } }

// ---- pthread synchronisation (what std::mutex, std::call_once and std::shared_mutex use) ----
static int recursive_(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!live()) { static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock"); return f(m); }
  In g; sync_point(m); Sync& s = sync_of(m); if (s.owner == me && recursive_(m)) { ++s.depth; return 0; }
  if (s.owner == me) failed("deadlock: a thread locks a mutex it holds"); while (s.owner >= 0) block(m); s.owner = me; s.depth = 1; acquire(s); return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) { if (!live()) { static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock"); return f(m); } In g; sync_point(m); Sync& s = sync_of(m); if (s.owner >= 0) return 16; s.owner = me; s.depth = 1; acquire(s); return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (!live()) { static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock"); return f(m); } In g; Sync& s = sync_of(m); if (--s.depth > 0) return 0; s.owner = -1; release(s, true); wake(m); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (!live()) { static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock"); return f(m); } In g; sync_point(m); Sync& s = sync_of(m); while (s.owner >= 0) block(m); ++s.readers; acquire(s); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (!live()) { static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock"); return f(m); } In g; sync_point(m); Sync& s = sync_of(m); while (s.owner >= 0 || s.readers) block(m); s.owner = me; acquire(s); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { if (!live()) { static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock"); return f(m); } In g; Sync& s = sync_of(m); if (s.owner == me) s.owner = -1; else --s.readers; release(s, true); wake(m); return 0; }
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  if (!live()) { static auto f = real<int (*)(pthread_once_t*, void (*)(void))>("pthread_once"); return f(o, fn); }
  bool mine = false; { In g; if (*o != 2) sync_point(o); Sync& s = sync_of(o);   // a completed one cannot change any more
    while (s.depth == 1 && *o != 2) block(o); if (*o == 2) acquire(s); else { s.depth = 1; mine = true; } }
  if (mine) { try { fn(); } catch (...) { In g; Sync& s = sync_of(o); s.depth = 0; release(s, true); wake(o); throw; } In g; Sync& s = sync_of(o); *o = 2; s.depth = 0; release(s, true); wake(o); }
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!live()) { static auto f = real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait"); return f(c, m); }
  { In g; Sync& s = sync_of(m); s.owner = -1; s.depth = 0; release(s, true); wake(m); block(c); } return pthread_mutex_lock(m);
}
int pthread_cond_signal(pthread_cond_t* c) { if (!live()) { static auto f = real<int (*)(pthread_cond_t*)>("pthread_cond_signal"); return f(c); } In g; wake(c); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (!live()) { static auto f = real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast"); return f(c); } In g; wake(c); return 0; }
int sched_yield() { if (live()) { In g; schedule(true); } return 0; }
int nanosleep(const timespec* a, timespec* b) { if (live()) { In g; schedule(true); return 0; } static auto f = real<int (*)(const timespec*, timespec*)>("nanosleep"); return f(a, b); }
int clock_nanosleep(clockid_t c, int fl, const timespec* a, timespec* b) { if (live()) { In g; schedule(true); return 0; } static auto f = real<int (*)(clockid_t, int, const timespec*, timespec*)>("clock_nanosleep"); return f(c, fl, a, b); }

// ---- memory: nothing is reused while threads are controlled ----
void free(void* p) { if (!on) { __libc_free(p); return; } if (p && live()) freed(p); }
void* realloc(void* p, size_t n) { if (!on || !p) return __libc_realloc(p, n); size_t k = malloc_usable_size(p); void* q = __libc_malloc(n); if (q) { __builtin_memcpy(q, p, k < n ? k : n); free(p); } return q; }

// ---- library functions that use or change shared state ----
static char c_locale, c_strtok, c_strerror, c_env, c_time, c_rand;
#define MARK(obj, w) if (live()) access(obj, 8, w, false, PC)
char* setlocale(int c, const char* l) { static auto f = real<char* (*)(int, const char*)>("setlocale"); MARK(&c_locale, l != nullptr); return f(c, l); }
char* strtok(char* s, const char* d) { static auto f = real<char* (*)(char*, const char*)>("strtok"); MARK(&c_strtok, true); return f(s, d); }
char* strerror(int e) { static auto f = real<char* (*)(int)>("strerror"); MARK(&c_strerror, true); return f(e); }
char* getenv(const char* n) { static auto f = real<char* (*)(const char*)>("getenv"); MARK(&c_env, false); return f(n); }
int setenv(const char* n, const char* v, int o) { static auto f = real<int (*)(const char*, const char*, int)>("setenv"); MARK(&c_env, true); return f(n, v, o); }
struct tm* localtime(const time_t* t) { static auto f = real<struct tm* (*)(const time_t*)>("localtime"); MARK(&c_time, true); return f(t); }
struct tm* gmtime(const time_t* t) { static auto f = real<struct tm* (*)(const time_t*)>("gmtime"); MARK(&c_time, true); return f(t); }
int rand() { static auto f = real<int (*)()>("rand"); MARK(&c_rand, true); return f(); }
size_t iconv(iconv_t cd, char** in, size_t* il, char** out, size_t* ol) { static auto f = real<size_t (*)(iconv_t, char**, size_t*, char**, size_t*)>("iconv"); MARK(cd, true); return f(cd, in, il, out, ol); }
int iconv_close(iconv_t cd) { static auto f = real<int (*)(iconv_t)>("iconv_close"); MARK(cd, true); return f(cd); }
struct dirent* readdir(DIR* d) { static auto f = real<struct dirent* (*)(DIR*)>("readdir"); MARK(d, true); return f(d); }
int memcmp(const void* a, const void* b, size_t n) {
  if (live()) { access(a, n, false, false, PC); access(b, n, false, false, PC); }
  const unsigned char *x = static_cast<const unsigned char*>(a), *y = static_cast<const unsigned char*>(b); for (size_t i = 0; i < n; ++i) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0;
}
}
// insertion into std::map and std::set happens inside the standard library
#include <map>
extern "C" void _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool l, std::_Rb_tree_node_base* x, std::_Rb_tree_node_base* p, std::_Rb_tree_node_base& h) {
  typedef std::_Rb_tree_node_base N; static auto f = real<void (*)(bool, N*, N*, N&)>("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
  if (live()) { for (N* k = p; k && k != &h; k = k->_M_parent) { access(k, sizeof(N), true, false, PC); if (k->_M_parent == &h) break; } access(&h, sizeof(N), true, false, PC); access(x, sizeof(N), true, false, PC); }
  f(l, x, p, h);
}
extern "C" std::_Rb_tree_node_base* _ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(std::_Rb_tree_node_base* z, std::_Rb_tree_node_base& h) {
  typedef std::_Rb_tree_node_base N; static auto f = real<N* (*)(N*, N&)>("_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
  if (live()) { for (N* k = z; k && k != &h; k = k->_M_parent) { access(k, sizeof(N), true, false, PC); if (k->_M_parent == &h) break; } access(&h, sizeof(N), true, false, PC); }
  return f(z, h);
}
