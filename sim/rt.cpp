// Deterministic simulator runtime.
//
// The system under test is compiled with clang's -fsanitize=thread instrumentation, but linked against THIS file
// instead of the TSan runtime: every memory access, atomic operation and function entry of the system calls in here.
// Real pthreads are parked and released one at a time; which one runs is decided here, from one PRNG.  All blocking
// primitives, clocks, the heap, and the system calls the code under test issues are interposed.
#include "rt.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <unordered_map>

#define HOT __attribute__((always_inline)) inline
#define PC() __builtin_return_address(0)

// ===================================================================================================== raw system calls
static long raw6(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
{
    long r;
    register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return r;
}
static void *raw_mmap(void *a, size_t n, int prot, int flags, int fd, off_t o)
{ return (void*) raw6(SYS_mmap, (long) a, n, prot, flags, fd, o); }

static void die_raw(const char *m) { raw6(SYS_write, 2, (long) m, strlen(m)); raw6(SYS_exit_group, 70); __builtin_unreachable(); }

// ===================================================================================================== heap
// Two arenas at fixed addresses: one for the system under test, one for harness and runtime.  Allocation in one never
// changes addresses in the other, so the addresses the system sees are a function of the system's own history only.
namespace {
constexpr uintptr_t ARENA_SYS = 0x200000000000ull, ARENA_HAR = 0x280000000000ull, ARENA_STK = 0x300000000000ull,
                    ARENA_MAP = 0x340000000000ull;
constexpr size_t ARENA_SIZE = 1ull << 34;               // 16 GiB of address space each
constexpr size_t POISONABLE = 1ull << 30;               // first GiB of the system arena has an addressability map
constexpr int NCLS = 160;
struct Chunk { uint32_t cls; uint32_t magic; uint64_t size; };   // 16 byte header before every block
constexpr uint32_t MAGIC_LIVE = 0xA110CA7Eu, MAGIC_FREE = 0xDEADF4EEu;
struct FreeNode { FreeNode *next; };
struct Arena {
    uintptr_t base, cur, end;
    FreeNode *head[NCLS], *tail[NCLS]; uint32_t nfree[NCLS];
    uint64_t live, live_bytes;
};
Arena arenas[2];
uint8_t *addressable;                                    // one bit per 8 bytes; 1 = may be accessed
bool heap_ready = false;
__thread int hmode __attribute__((tls_model("initial-exec"))) = 0;   // >0: harness memory

size_t cls_size(int c)   // 16-byte steps to 512, then quarter powers of two
{
    if (c < 32) return size_t(c + 1) * 16;
    int q = c - 32; int e = 9 + q / 4; return (size_t(1) << e) + (size_t(q % 4 + 1) << (e - 2));
}
int size_cls(size_t n)
{
    if (n <= 512) return n == 0 ? 0 : int((n + 15) / 16) - 1;
    int e = 63 - __builtin_clzll(n - 1);
    size_t base = size_t(1) << e, quarter = base >> 2;
    int q = int((n - base + quarter - 1) / quarter);     // 1..4
    return 32 + (e - 9) * 4 + q - 1;
}
void heap_init()
{
    if (heap_ready) return;
    uintptr_t bases[2] = { ARENA_SYS, ARENA_HAR };
    for (int i = 0; i < 2; ++i) {
        void *p = raw_mmap((void*) bases[i], ARENA_SIZE, PROT_READ|PROT_WRITE,
                           MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE, -1, 0);
        if ((uintptr_t) p != bases[i]) die_raw("sim: cannot reserve heap arena\n");
        arenas[i].base = arenas[i].cur = bases[i]; arenas[i].end = bases[i] + ARENA_SIZE;
    }
    addressable = (uint8_t*) raw_mmap(nullptr, POISONABLE / 64, PROT_READ|PROT_WRITE,
                                      MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    heap_ready = true;
}
HOT bool in_poisonable(uintptr_t a) { return a - ARENA_SYS < POISONABLE; }
void set_addressable(uintptr_t a, size_t n, bool on)
{
    if (not in_poisonable(a)) return;
    size_t g = (a - ARENA_SYS) >> 3, e = g + ((n + 7) >> 3);
    if (e > POISONABLE / 8) e = POISONABLE / 8;
    while (g < e and (g & 7)) { on ? addressable[g >> 3] |= 1 << (g & 7) : addressable[g >> 3] &= ~(1 << (g & 7)); ++g; }
    if (e > g + 8) { size_t nb = (e - g) >> 3; memset(addressable + (g >> 3), on ? 0xff : 0, nb); g += nb << 3; }
    while (g < e) { on ? addressable[g >> 3] |= 1 << (g & 7) : addressable[g >> 3] &= ~(1 << (g & 7)); ++g; }
}
HOT bool is_addressable(uintptr_t a) { size_t g = (a - ARENA_SYS) >> 3; return addressable[g >> 3] >> (g & 7) & 1; }
}
namespace sim { thread_local int alloc_window = 0; SysFaults sysfaults; uint64_t input_slow_ns = 0;
uint64_t input_errors = 0; }
static void shadow_clear(uintptr_t a, size_t n);
static void shadow_free(uintptr_t a, size_t n, void *pc);
static bool alloc_should_fail(bool is_new);
[[noreturn]] static void heap_error(const char *what, void *p);

enum { AF_NEVER = 0, AF_MALLOC = 1, AF_NEW = 2 };
static void *sim_alloc(size_t n, size_t align, int may_fail)
{
    if (not heap_ready) heap_init();
    const bool har = hmode > 0;
    if (not har and may_fail and alloc_should_fail(may_fail == AF_NEW)) { errno = ENOMEM; return nullptr; }
    Arena &A = arenas[har];
    if (n > ARENA_SIZE / 2) { errno = ENOMEM; return nullptr; }
    void *res;
    if (align <= 16) {
        int c = size_cls(n + (har ? 0 : 8));             // at least 8 bytes of red zone behind a system block
        uint32_t keep = har ? 0 : 24;                    // quarantine: freed system blocks are not reused at once
        if (A.nfree[c] > keep) {
            FreeNode *f = A.head[c]; A.head[c] = f->next; if (not f->next) A.tail[c] = nullptr; --A.nfree[c];
            res = f;
        } else {
            size_t sz = cls_size(c);
            if (A.cur + sz + 16 > A.end) { errno = ENOMEM; return nullptr; }
            res = (void*) (A.cur + 16); A.cur += sz + 16;
        }
        Chunk *h = (Chunk*) res - 1; h->cls = c; h->magic = MAGIC_LIVE; h->size = n;
    } else {                                             // over-aligned: never recycled
        uintptr_t p = (A.cur + 16 + align - 1) & ~(align - 1);
        if (p + n + 16 > A.end) { errno = ENOMEM; return nullptr; }
        A.cur = (p + n + 8 + 15) & ~uintptr_t(15);
        res = (void*) p;
        Chunk *h = (Chunk*) res - 1; h->cls = NCLS; h->magic = MAGIC_LIVE; h->size = n;
    }
    ++A.live; A.live_bytes += n;
    if (not har) { set_addressable((uintptr_t) res, n, true); memset(res, 0xCD, n < 4096 ? n : 4096); shadow_clear((uintptr_t) res, n); }
    return res;
}
static void sim_free(void *p, void *pc)
{
    if (not p) return;
    uintptr_t a = (uintptr_t) p;
    int w = a - ARENA_SYS < ARENA_SIZE ? 0 : a - ARENA_HAR < ARENA_SIZE ? 1 : -1;
    if (w < 0) { heap_error("free of a pointer that is not from the heap", p); }
    Chunk *h = (Chunk*) p - 1;
    if (h->magic != MAGIC_LIVE) heap_error(h->magic == MAGIC_FREE ? "double free" : "invalid free", p);
    h->magic = MAGIC_FREE;
    Arena &A = arenas[w];
    --A.live; A.live_bytes -= h->size;
    if (w == 0) {
        shadow_free(a, h->size, pc);
        set_addressable(a, h->size, false);
        memset(p, 0xDB, h->size < 4096 ? h->size : 4096);
    }
    if (h->cls >= NCLS) return;
    FreeNode *f = (FreeNode*) p; f->next = nullptr;
    int c = h->cls;
    if (w == 0) { if (A.tail[c]) A.tail[c]->next = f; else A.head[c] = f; A.tail[c] = f; }     // FIFO
    else { f->next = A.head[c]; A.head[c] = f; if (not A.tail[c]) A.tail[c] = f; }             // LIFO
    ++A.nfree[c];
}
extern "C" {
void *malloc(size_t n) { return sim_alloc(n, 16, true); }
void free(void *p) { sim_free(p, PC()); }
void *calloc(size_t a, size_t b)
{
    size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    void *p = sim_alloc(n, 16, true); if (p) memset(p, 0, n); return p;
}
void *realloc(void *p, size_t n)
{
    if (not p) return sim_alloc(n, 16, true);
    if (n == 0) { sim_free(p, PC()); return nullptr; }
    void *q = sim_alloc(n, 16, true); if (not q) return nullptr;
    size_t o = ((Chunk*) p - 1)->size; memcpy(q, p, o < n ? o : n); sim_free(p, PC()); return q;
}
void *reallocarray(void *p, size_t a, size_t b)
{ size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } return realloc(p, n); }
void *memalign(size_t al, size_t n) { return sim_alloc(n, al, true); }
void *aligned_alloc(size_t al, size_t n) { return sim_alloc(n, al, true); }
void *valloc(size_t n) { return sim_alloc(n, 4096, true); }
int posix_memalign(void **r, size_t al, size_t n) { void *p = sim_alloc(n, al, true); if (not p) return ENOMEM; *r = p; return 0; }
size_t malloc_usable_size(void *p) { return p ? ((Chunk*) p - 1)->size : 0; }
}
static void *new_or_throw(size_t n, size_t al) { void *p = sim_alloc(n ? n : 1, al, AF_NEW); if (not p) throw std::bad_alloc(); return p; }
void *operator new(size_t n) { return new_or_throw(n, 16); }
void *operator new[](size_t n) { return new_or_throw(n, 16); }
void *operator new(size_t n, std::align_val_t a) { return new_or_throw(n, size_t(a)); }
void *operator new[](size_t n, std::align_val_t a) { return new_or_throw(n, size_t(a)); }
void *operator new(size_t n, const std::nothrow_t&) noexcept { return sim_alloc(n ? n : 1, 16, AF_NEW); }
void *operator new[](size_t n, const std::nothrow_t&) noexcept { return sim_alloc(n ? n : 1, 16, AF_NEW); }
void operator delete(void *p) noexcept { sim_free(p, PC()); }
void operator delete[](void *p) noexcept { sim_free(p, PC()); }
void operator delete(void *p, size_t) noexcept { sim_free(p, PC()); }
void operator delete[](void *p, size_t) noexcept { sim_free(p, PC()); }
void operator delete(void *p, std::align_val_t) noexcept { sim_free(p, PC()); }
void operator delete[](void *p, std::align_val_t) noexcept { sim_free(p, PC()); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { sim_free(p, PC()); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { sim_free(p, PC()); }

// runtime containers never touch the system arena
template<class T> struct RtAlloc {
    using value_type = T;
    RtAlloc() = default; template<class U> RtAlloc(const RtAlloc<U>&) { }
    T *allocate(size_t n) { ++hmode; void *p = sim_alloc(n * sizeof(T), 16, false); --hmode; return (T*) p; }
    void deallocate(T *p, size_t) { ++hmode; sim_free(p, nullptr); --hmode; }
    template<class U> bool operator==(const RtAlloc<U>&) const { return true; }
};
template<class T> using rvec = std::vector<T, RtAlloc<T>>;
template<class K, class V> using rmap = std::unordered_map<K, V, std::hash<K>, std::equal_to<K>, RtAlloc<std::pair<const K, V>>>;

// ===================================================================================================== threads
namespace sim {

Result *result = nullptr;
std::vector<std::string> *known_keys = nullptr;

constexpr int MAXT = 16;
struct VC {
    uint32_t c[MAXT];
    void join(const VC &o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};
enum TState : uint8_t { T_FREE, T_RUN, T_BLOCKED, T_DONE };
enum BKind : uint8_t { B_NONE, B_MUTEX, B_COND, B_JOIN, B_ONCE, B_RWLOCK, B_FUTEX, B_SLEEP, B_SEM, B_GUARD };
static const char *bnames[] = { "none", "mutex", "condition variable", "thread join", "call_once", "rwlock", "futex/atomic wait/future", "sleep", "semaphore", "static-local guard" };
struct Thread {
    int id = 0;
    TState state = T_FREE;
    BKind bkind = B_NONE; uintptr_t baddr = 0;
    uint64_t deadline = 0; bool timed_out = false;
    std::atomic<int> go{0};
    pthread_t real{};
    int quiet = 0;
    uint64_t step = 0, next_dev = UINT64_MAX, run_since = 0;
    uint64_t cnt[K_NKINDS] = {};
    int prio = 0;
    VC vc{};
    bool detached = false;
    void *(*fn)(void*) = nullptr; void *arg = nullptr; void *ret = nullptr;
    void *stk[64]; uint32_t depth = 0;
    struct Dtor { void (*f)(void*); void *o; }; rvec<Dtor> dtors;
    rvec<std::pair<uint64_t, uint32_t>> preempts; size_t ipre = 0;    // replay
};
static Thread T[MAXT];
static int nT = 0;
static bool active = false;
static __thread Thread *me __attribute__((tls_model("initial-exec"))) = nullptr;
static uint64_t gstep = 0;
static uint64_t clock_ns = 0;
static Knobs K;
static Rng rng_sched(0), rng_fault(0), rng_sys(0);
static bool replaying = false;
static rmap<uint64_t, uint32_t> *replay_map[K_NKINDS];
static rvec<uint64_t> *pct_points;
static std::function<void()> *deadlock_cb = nullptr;
static bool in_crash = false;

static HOT void mix(uint64_t &h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 29; }

[[noreturn]] static void run_exit(int st)
{
    Result &R = *result;
    R.steps = gstep; R.sim_ns = clock_ns; R.threads = nT;
    R.status = st;
    raw6(SYS_exit_group, 0);
    __builtin_unreachable();
}
static void rlog(char kind, const char *fmt, va_list ap, bool hashed)
{
    Result &R = *result;
    char buf[1024]; ++hmode;
    int n = snprintf(buf, 64, "[%lu t%d%s] ", (unsigned long) gstep, me ? me->id : -1, kind == 'n' ? "" : "");
    int m = vsnprintf(buf + n, sizeof buf - n - 2, fmt, ap); --hmode;
    if (m < 0) m = 0;
    if (n + m > (int) sizeof buf - 2) m = sizeof buf - 2 - n;
    if (hashed) for (int i = 0; i < n + m; ++i) mix(R.hash, buf[i]);
    buf[n + m] = '\n';
    if (R.nlog + n + m + 1 < MAX_LOG) { memcpy(R.log + R.nlog, buf, n + m + 1); R.nlog += n + m + 1; }
}
void log(const char *fmt, ...) { va_list ap; va_start(ap, fmt); rlog('l', fmt, ap, true); va_end(ap); }
void note(const char *fmt, ...) { va_list ap; va_start(ap, fmt); rlog('n', fmt, ap, false); va_end(ap); }
void count(const char *what, uint64_t n)
{
    Result &R = *result;
    for (uint32_t i = 0; i < R.ncounters; ++i) if (not strcmp(R.counters[i].name, what)) { R.counters[i].n += n; return; }
    if (R.ncounters < MAX_COUNTERS) { strncpy(R.counters[R.ncounters].name, what, 39); R.counters[R.ncounters++].n = n; }
}
void state(uint64_t h) { if (result->nstates < MAX_STATES) result->states[result->nstates++] = h; }
bool known(const char *key)
{
    if (not known_keys) return false;
    for (auto &k : *known_keys) if (k == key) return true;
    return false;
}
void known_finding(const char *key)
{
    Result &R = *result;
    for (uint32_t i = 0; i < R.nknown; ++i) if (not strcmp(R.known[i], key)) return;
    if (R.nknown < MAX_KNOWN) strncpy(R.known[R.nknown++], key, 63);
}
static void vviolation(const char *cls, const char *fmt, va_list ap)
{
    Result &R = *result;
    ++hmode;
    snprintf(R.cls, sizeof R.cls, "%s", cls);
    size_t n = strlen(R.msg);
    vsnprintf(R.msg + n, sizeof R.msg - n, fmt, ap);
    --hmode;
    for (const char *p = cls; *p; ++p) mix(R.hash, *p);
}
void violation(const char *cls, const char *fmt, ...) { va_list ap; va_start(ap, fmt); vviolation(cls, fmt, ap); va_end(ap); run_exit(ST_VIOLATION); }
void finish() { run_exit(ST_OK); }
bool cap_inconclusive = false;
void inconclusive(const char *why) { snprintf(result->cls, sizeof result->cls, "%s", why); run_exit(ST_INCONCLUSIVE); }

static int describe_stack(Thread *t, char *buf, size_t n)
{
    int w = 0; int shown = 0;
    for (int i = int(t->depth) - 1; i >= 0 and shown < 12; --i, ++shown) {
        if (int(t->depth) - i > 64) break;
        w += snprintf(buf + w, n > (size_t) w ? n - w : 0, " <%p>", t->stk[i & 63]);
        if ((size_t) w >= n) return n;
    }
    return w;
}

// ---------------------------------------------------------------- futex baton
static void fwait(std::atomic<int> &a) { while (not a.load(std::memory_order_acquire)) raw6(SYS_futex, (long) &a, FUTEX_WAIT_PRIVATE, 0, 0); a.store(0, std::memory_order_relaxed); }
static void fwake(std::atomic<int> &a) { a.store(1, std::memory_order_release); raw6(SYS_futex, (long) &a, FUTEX_WAKE_PRIVATE, 1); }

static void record(Kind k, int tid, uint64_t key, uint32_t val)
{
    Result &R = *result;
    if (R.ndevs < MAX_DEVS) R.devs[R.ndevs++] = Dev{ k, (uint8_t) tid, 0, val, key };
    else R.devs_overflow = true;
}
// a recorded decision with n alternatives, default 0
template<class G> static uint32_t decide(Kind k, uint32_t n, G gen)
{
    Thread *t = me;
    uint64_t c = t->cnt[k]++;
    uint32_t v = 0;
    if (replaying) {
        auto it = replay_map[k]->find(c * MAXT + t->id);
        if (it != replay_map[k]->end()) v = n ? it->second % n : 0;
    } else v = gen();
    if (v) record(k, t->id, c, v);
    mix(result->hash, (uint64_t(k) << 56) ^ (c << 16) ^ v);
    return v;
}
uint32_t choose(uint32_t n, const char *) { return decide(K_CHOICE, n, [&]{ return uint32_t(rng_sched.below(n)); }); }
static uint64_t nfaults;
uint64_t fault_total() { return nfaults; }
bool fault(const char *kind, uint32_t num, uint32_t den)
{
    if (num == 0) return false;
    bool f = decide(K_FAULT, 2, [&]{ return uint32_t(rng_fault.below(den) < num); });
    if (f) { ++nfaults; char b[40]; ++hmode; snprintf(b, sizeof b, "fault.%s", kind); --hmode; count(b); }
    return f;
}

// ---------------------------------------------------------------- scheduling
static void schedule_next_dev(Thread *t)
{
    if (replaying) {
        while (t->ipre < t->preempts.size() and t->preempts[t->ipre].first <= t->step) ++t->ipre;
        t->next_dev = t->ipre < t->preempts.size() ? t->preempts[t->ipre].first : UINT64_MAX;
    } else if (K.pct_depth) {
        t->next_dev = UINT64_MAX;
    } else if (K.mem_gap) {
        t->next_dev = t->step + 1 + rng_sched.below(2 * uint64_t(K.mem_gap));
    } else t->next_dev = UINT64_MAX;
}
static int runnable_others(int *out)
{
    int n = 0;
    for (int i = 1; i <= nT; ++i) {
        int t = (me->id + i) % nT;
        if (t != me->id and T[t].state == T_RUN) out[n++] = t;
    }
    return n;
}
static void switch_to(Thread *n)
{
    Thread *t = me;
    if (n == t) return;
    ++result->switches;
    mix(result->hash, (uint64_t(t->id) << 32 | n->id) ^ (gstep << 8));
    mix(result->sched_hash, (uint64_t(t->id) << 8 | n->id) ^ ((uint64_t) t->stk[(t->depth ? t->depth - 1 : 0) & 63] << 12));
    n->run_since = 0;
    int e = errno;
    fwake(n->go);
    fwait(t->go);
    errno = e;
}
[[noreturn]] static void deadlock()
{
    if (deadlock_cb) { me->quiet++; (*deadlock_cb)(); me->quiet--; }
    char buf[6000]; int w = 0;
    ++hmode;
    for (int i = 0; i < nT; ++i) if (T[i].state == T_BLOCKED) {
        w += snprintf(buf + w, sizeof buf - w, "thread %d waits on %s;", i, bnames[T[i].bkind]);
        w += snprintf(buf + w, sizeof buf - w, " at"); w += describe_stack(&T[i], buf + w, sizeof buf - w);
        w += snprintf(buf + w, sizeof buf - w, "\n");
        if (w > 5500) break;
    }
    --hmode;
    violation("deadlock", "no thread can run: %s", buf);
}
static Thread *highest(const int *c, int n) { int b = c[0]; for (int i = 1; i < n; ++i) if (T[c[i]].prio > T[b].prio) b = c[i]; return &T[b]; }

// the calling thread cannot continue (blocked or done): let another one run; returns when it was released again
static void block_switch()
{
    Thread *t = me;
    int c[MAXT]; int n;
    for (;;) {
        n = runnable_others(c);
        if (n) break;
        // nobody can run: advance the clock to the earliest deadline
        Thread *e = nullptr;
        for (int i = 0; i < nT; ++i)
            if (T[i].state == T_BLOCKED and T[i].deadline and (not e or T[i].deadline < e->deadline)) e = &T[i];
        if (not e) deadlock();
        if (clock_ns < e->deadline) clock_ns = e->deadline;
        e->state = T_RUN; e->timed_out = true; e->deadline = 0;
        if (e == t) return;
    }
    uint32_t v = decide(K_BLOCK, n, [&]() -> uint32_t {
        if (K.pct_depth) { Thread *h = highest(c, n); for (int i = 0; i < n; ++i) if (&T[c[i]] == h) return i; return 0; }
        return uint32_t(rng_sched.below(n));
    });
    switch_to(&T[c[v]]);
}
static void block_on(BKind k, uintptr_t addr, uint64_t deadline = 0)
{
    Thread *t = me;
    t->bkind = k; t->baddr = addr; t->deadline = deadline; t->timed_out = false;
    t->state = T_BLOCKED;
    block_switch();
    t->bkind = B_NONE; t->deadline = 0;
}
static void wake(Thread *t) { t->state = T_RUN; t->deadline = 0; }
static void wake_all(BKind k, uintptr_t a) { for (int i = 0; i < nT; ++i) if (T[i].state == T_BLOCKED and T[i].bkind == k and T[i].baddr == a) wake(&T[i]); }

static __attribute__((noinline)) void preempt_slow(bool sync)
{
    Thread *t = me;
    int c[MAXT]; int n = runnable_others(c);
    // deadlines that have passed make timed waiters eligible
    if (replaying) {
        bool hit = t->step == t->next_dev; uint32_t target = hit ? t->preempts[t->ipre].second : 0;
        if (hit) schedule_next_dev(t);
        else if (t->step > t->next_dev) schedule_next_dev(t);
        if (hit and target < (uint32_t) nT and target != (uint32_t) t->id and T[target].state == T_RUN) {
            record(K_PREEMPT, t->id, t->step, target); ++result->preemptions;
            switch_to(&T[target]); return;
        }
    } else if (n) {
        Thread *to = nullptr;
        if (K.pct_depth) {
            if (not pct_points->empty() and pct_points->back() <= gstep) {
                pct_points->pop_back(); t->prio = -int(gstep >> 4 & 0xffffff) - 1;
                Thread *h = highest(c, n); if (h->prio > t->prio) to = h;
            } else if (sync) { Thread *h = highest(c, n); if (h->prio > t->prio) to = h; }
        } else {
            bool hit = t->step >= t->next_dev;
            if (hit) schedule_next_dev(t);
            if (hit or (sync and rng_sched.below(100) < K.sync_pct)) to = &T[c[rng_sched.below(n)]];
        }
        if (to) { record(K_PREEMPT, t->id, t->step, to->id); ++result->preemptions; switch_to(to); return; }
    } else if (t->step >= t->next_dev) schedule_next_dev(t);
    if (t->run_since > K.fair) {
        t->run_since = 0;
        if (n) { if (K.pct_depth) t->prio -= 1000000; switch_to(&T[c[0]]); }
    }
}
static __attribute__((noinline)) void step_cap_hit()
{
    char buf[2000]; ++hmode; int w = 0;
    for (int i = 0; i < nT and w < 1500; ++i) {
        w += snprintf(buf + w, sizeof buf - w, "thread %d %s%s at", i, T[i].state == T_BLOCKED ? "waits on " : T[i].state == T_DONE ? "finished" : "running",
                      T[i].state == T_BLOCKED ? bnames[T[i].bkind] : "");
        w += describe_stack(&T[i], buf + w, sizeof buf - w); w += snprintf(buf + w, sizeof buf - w, "\n");
    }
    --hmode;
    if (cap_inconclusive) { ++hmode; inconclusive("step limit reached by a run with a lot of work"); }
    violation("no-progress", "the run did not end within %lu steps: %s", (unsigned long) K.step_cap, buf);
}
static HOT void point(bool sync)
{
    Thread *t = me;
    ++t->step; ++t->run_since;
    if (__builtin_expect(++gstep > K.step_cap, 0)) step_cap_hit();
    if (nT > 1 and (sync or t->step >= t->next_dev or t->run_since > K.fair or
                    (K.pct_depth and not replaying and not pct_points->empty() and pct_points->back() <= gstep)))
        preempt_slow(sync);
}
static HOT bool live() { return active and me and not me->quiet and not in_crash; }

uint64_t step() { return gstep; }
uint64_t now_ns() { return clock_ns; }
int self() { return me ? me->id : -1; }
int num_threads() { return nT; }
bool thread_done(int t) { return T[t].state == T_DONE; }
bool thread_blocked(int t) { return T[t].state == T_BLOCKED; }
bool thread_waits_on_condition(int t) { return T[t].state == T_BLOCKED and (T[t].bkind == B_COND or T[t].bkind == B_FUTEX); }
bool others_blocked() { int c[MAXT]; return runnable_others(c) == 0; }
void yield_point()
{
    int c[MAXT]; int n;
    Thread *t = me; ++t->step; ++t->run_since; ++gstep;
    if (gstep > K.step_cap) step_cap_hit();
    n = runnable_others(c);
    if (n) switch_to(&T[c[decide(K_BLOCK, n, [&]{ return uint32_t(rng_sched.below(n)); })]]);
    else {  // let time pass for sleepers
        Thread *e = nullptr;
        for (int i = 0; i < nT; ++i) if (T[i].state == T_BLOCKED and T[i].deadline and (not e or T[i].deadline < e->deadline)) e = &T[i];
        if (e) { if (clock_ns < e->deadline) clock_ns = e->deadline; e->state = T_RUN; e->timed_out = true; e->deadline = 0; switch_to(e); }
    }
}
void on_deadlock(std::function<void()> f) { ++hmode; delete deadlock_cb; deadlock_cb = new std::function<void()>(std::move(f)); --hmode; }

Quiet::Quiet() { ++hmode; if (me) ++me->quiet; }
Quiet::~Quiet() { --hmode; if (me) --me->quiet; }
Sys::Sys() { saved_ = hmode; hmode = 0; if (me) { saved_ |= me->quiet << 8; me->quiet = 0; } }
Sys::~Sys() { hmode = saved_ & 0xff; if (me) me->quiet = saved_ >> 8; }

// ---------------------------------------------------------------- race detection (happens-before, vector clocks)
struct Acc { uint32_t clk; uint8_t tid; uint8_t mask; uint8_t flags; uint8_t pad; uint64_t pc; };   // flags: 1 write, 2 atomic, 4 free
constexpr int NACC = 6;
struct Cell { uintptr_t g; uint32_t n; uint32_t rot; Acc a[NACC]; };
constexpr size_t NCELL = 1 << 20;
static Cell *cells = nullptr;     // open addressing on the granule number
static size_t cells_used = 0;
static rmap<uintptr_t, VC> *sync_vc;

static Cell *cell_for(uintptr_t g, bool create)
{
    size_t i = (g * 0x9E3779B97F4A7C15ull) >> 44;
    for (size_t k = 0; k < 64; ++k, i = (i + 1) & (NCELL - 1)) {
        if (cells[i].g == g) return &cells[i];
        if (cells[i].g == 0) {
            if (not create) return nullptr;
            if (cells_used > NCELL / 2) return nullptr;
            ++cells_used; cells[i].g = g; cells[i].n = 0; return &cells[i];
        }
    }
    return nullptr;
}
[[noreturn]] static void report_race(uintptr_t a, const Acc &o, bool w, bool at, void *pc)
{
    char b1[1200]; ++hmode; describe_stack(me, b1, sizeof b1); --hmode;
    violation("data-race", "unordered conflicting accesses to %p: %s%s by thread %d at <%p> called from%s, and earlier %s%s by thread %d at <%p>",
              (void*) a, at ? "atomic " : "", w ? "write" : "read", me->id, pc, b1,
              o.flags & 2 ? "atomic " : "", o.flags & 4 ? "free" : o.flags & 1 ? "write" : "read", o.tid, (void*) o.pc);
}
static void race_gran(uintptr_t g, uint8_t mask, uint8_t flags, void *pc)
{
    Cell *c = cell_for(g, true);
    if (not c) return;
    Thread *t = me;
    int same = -1;
    for (uint32_t i = 0; i < c->n; ++i) {
        Acc &o = c->a[i];
        if (o.tid == t->id) { if (o.mask == mask and o.flags == flags) same = i; continue; }
        if (not (o.mask & mask)) continue;
        if (not ((o.flags | flags) & 1)) continue;            // two reads
        if ((o.flags & 2) and (flags & 2)) continue;          // two atomics
        if (o.clk <= t->vc.c[o.tid]) continue;                // ordered
        report_race(g << 3, o, flags & 1, flags & 2, pc);
    }
    if (same >= 0) { c->a[same].clk = t->vc.c[t->id]; c->a[same].pc = (uint64_t) pc; return; }
    Acc nw{ t->vc.c[t->id], (uint8_t) t->id, mask, flags, 0, (uint64_t) pc };
    if ((flags & 1)) { // a write replaces everything it is ordered after and covers
        uint32_t k = 0;
        for (uint32_t i = 0; i < c->n; ++i) {
            Acc &o = c->a[i];
            if ((o.mask & ~mask) == 0 and (o.tid == t->id or o.clk <= t->vc.c[o.tid])) continue;
            c->a[k++] = o;
        }
        c->n = k;
    } else {           // a read replaces earlier reads of the same bytes it is ordered after
        for (uint32_t i = 0; i < c->n; ++i) {
            Acc &o = c->a[i];
            if (o.mask == mask and not (o.flags & 1) and (o.flags & 2) == (flags & 2) and (o.tid == t->id or o.clk <= t->vc.c[o.tid])) { o = nw; return; }
        }
    }
    if (c->n < NACC) c->a[c->n++] = nw; else c->a[c->rot++ % NACC] = nw;
}
[[noreturn]] static void report_bad_access(uintptr_t a, size_t n, bool w, void *pc)
{
    char b1[1200]; ++hmode; describe_stack(me, b1, sizeof b1); --hmode;
    violation("memory-error", "%s of %zu bytes at %p, which is freed or unallocated heap memory, by thread %d at <%p> called from%s",
              w ? "write" : "read", n, (void*) a, me->id, pc, b1);
}
static HOT void access(uintptr_t a, size_t n, bool w, void *pc)
{
    if (not live()) return;
    if (in_poisonable(a) and not is_addressable(a)) report_bad_access(a, n, w, pc);
    if (nT > 1 and K.race) {
        uintptr_t g = a >> 3; unsigned o = a & 7;
        if (o + n <= 8) race_gran(g, uint8_t(((1u << n) - 1) << o), w, pc);
        else { race_gran(g, uint8_t(0xff << o), w, pc); race_gran(g + 1, uint8_t((1u << (o + n - 8)) - 1), w, pc); }
    }
    point(false);
}
static void access_range(uintptr_t a, size_t n, bool w, void *pc)
{
    if (not live() or n == 0) return;
    if (in_poisonable(a)) for (size_t i = 0; i < n; i += 8) if (not is_addressable(a + i)) report_bad_access(a + i, n, w, pc);
    if (in_poisonable(a) and in_poisonable(a + n - 1) and not is_addressable(a + n - 1)) report_bad_access(a + n - 1, n, w, pc);
    if (nT > 1 and K.race) {
        size_t lim = n > 4096 ? 4096 : n;
        uintptr_t e = a + lim;
        for (uintptr_t p = a; p < e;) {
            unsigned o = p & 7; size_t k = 8 - o; if (p + k > e) k = e - p;
            race_gran(p >> 3, uint8_t(((1u << k) - 1) << o), w, pc);
            p += k;
        }
    }
    point(false);
}
static VC &vc_at(uintptr_t a) { return (*sync_vc)[a]; }
static void acquire_from(uintptr_t a) { auto it = sync_vc->find(a); if (it != sync_vc->end()) me->vc.join(it->second); }
static void release_to(uintptr_t a) { vc_at(a).join(me->vc); ++me->vc.c[me->id]; }
static void release_store(uintptr_t a) { vc_at(a) = me->vc; ++me->vc.c[me->id]; }

static HOT bool mo_acq(int mo) { return mo == __ATOMIC_ACQUIRE or mo == __ATOMIC_CONSUME or mo == __ATOMIC_ACQ_REL or mo == __ATOMIC_SEQ_CST; }
static HOT bool mo_rel(int mo) { return mo == __ATOMIC_RELEASE or mo == __ATOMIC_ACQ_REL or mo == __ATOMIC_SEQ_CST; }
enum AK { A_LOAD, A_STORE, A_RMW };
static void atomic_pre(uintptr_t a, size_t n, bool w, void *pc)
{
    if (not live()) return;
    if (in_poisonable(a) and not is_addressable(a)) report_bad_access(a, n, w, pc);
    point(true);
    if (nT > 1 and K.race) race_gran(a >> 3, uint8_t(n >= 8 ? 0xff : ((1u << n) - 1) << (a & 7)), uint8_t(2 | (w ? 1 : 0)), pc);
}
static void atomic_post(uintptr_t a, AK k, int mo)
{
    if (not live()) return;
    if (k != A_STORE and mo_acq(mo)) acquire_from(a);
    if (k == A_STORE) { if (mo_rel(mo)) release_store(a); else sync_vc->erase(a); }
    else if (k == A_RMW and mo_rel(mo)) release_to(a);
}

// ---------------------------------------------------------------- blocking primitives
struct MState { int owner = -1; uint32_t depth = 0; };
static rmap<uintptr_t, MState> *mutexes;
struct OState { int st = 0; };
struct RWState { int writer = -1; int readers = 0; };
static rmap<uintptr_t, RWState> *rwlocks;

static bool m_try(uintptr_t a, bool recursive)
{
    MState &m = (*mutexes)[a];
    if (m.owner < 0) { m.owner = me->id; m.depth = 1; acquire_from(a); return true; }
    if (recursive and m.owner == me->id) { ++m.depth; return true; }
    return false;
}
static int m_lock(uintptr_t a, bool recursive, uint64_t deadline = 0)
{
    point(true);
    while (not m_try(a, recursive)) {
        block_on(B_MUTEX, a, deadline);
        if (deadline and me->timed_out) return ETIMEDOUT;
    }
    return 0;
}
static void m_unlock_nopoint(uintptr_t a)
{
    MState &m = (*mutexes)[a];
    if (m.owner != me->id) violation("bad-unlock", "a mutex is unlocked by a thread that does not hold it");
    if (--m.depth) return;
    m.owner = -1; release_to(a); wake_all(B_MUTEX, a);
}
static int c_wait(uintptr_t c, uintptr_t m, uint64_t deadline)
{
    MState &ms = (*mutexes)[m];
    if (ms.owner != me->id) violation("bad-wait", "waiting on a condition variable without holding the mutex");
    point(true);
    uint32_t d = ms.depth; ms.depth = 1;
    m_unlock_nopoint(m);
    int r = 0;
    if (K.spurious_pm and decide(K_SPURIOUS, 2, [&]{ return uint32_t(rng_fault.below(1000) < K.spurious_pm); })) {
        count("fault.spurious-wakeup");
        // woken without a notification: just contend for the mutex again
        int cc[MAXT]; int n = runnable_others(cc);
        if (n) switch_to(&T[cc[decide(K_BLOCK, n, [&]{ return uint32_t(rng_sched.below(n)); })]]);
    } else {
        block_on(B_COND, c, deadline);
        if (deadline and me->timed_out) r = ETIMEDOUT;
    }
    while (not m_try(m, true)) block_on(B_MUTEX, m);
    (*mutexes)[m].depth = d;
    return r;
}
static void c_signal(uintptr_t c)
{
    point(true);
    int w[MAXT], n = 0;
    for (int i = 0; i < nT; ++i) if (T[i].state == T_BLOCKED and T[i].bkind == B_COND and T[i].baddr == c) w[n++] = i;
    if (n) wake(&T[w[n == 1 ? 0 : decide(K_NOTIFY, n, [&]{ return uint32_t(rng_sched.below(n)); })]]);
}
static int64_t real_offset = 0;          // what was added to the wall clock since the start of the run
static bool wall_clock(clockid_t c) { return c == CLOCK_REALTIME or c == CLOCK_REALTIME_COARSE or c == CLOCK_TAI; }
static uint64_t abs_deadline(clockid_t c, const timespec *ts)
{
    uint64_t d = uint64_t(ts->tv_sec) * 1000000000ull + ts->tv_nsec - (wall_clock(c) ? real_offset : 0);
    return d ? d : 1;
}

// simulated clocks
static uint64_t clock_step = 0;
static uint64_t sim_clock(clockid_t c)
{
    clock_ns += 1000 + rng_sys.below(2000) + 3 * (gstep - clock_step); clock_step = gstep;   // an event takes 3 ns
    if (K.clock_jump_pm) {               // somebody sets the wall clock
        uint32_t v = decide(K_CLOCK, 8, [&]{ return rng_fault.below(1000) < K.clock_jump_pm ? uint32_t(1 + rng_fault.below(7)) : 0u; });
        if (v) {
            count("fault.clock-jump");
            static const int64_t jumps[8] = { 0, 1000000000ll, 3600000000000ll, 86400000000000ll, -1000000ll, -1000000000ll, -3600000000000ll, -20000ll };
            real_offset += jumps[v];
        }
    }
    return clock_ns + (wall_clock(c) ? real_offset : 0);
}

// ---------------------------------------------------------------- thread start/exit
static void *thread_main(void *p)
{
    Thread *t = (Thread*) p;
    me = t;
    static __thread char alt[16384] __attribute__((aligned(16)));
    stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    fwait(t->go);
    t->ret = t->fn(t->arg);
    while (not t->dtors.empty()) { auto d = t->dtors.back(); t->dtors.pop_back(); d.f(d.o); }
    // exit
    t->quiet = 0;
    ++t->vc.c[t->id];
    t->state = T_DONE;
    wake_all(B_JOIN, (uintptr_t) t);
    block_switch();
    for (;;) raw6(SYS_pause);     // never reached: nobody releases a finished thread
}
static uintptr_t next_stack = ARENA_STK;
static int start_thread(void *(*fn)(void*), void *arg)
{
    if (nT >= MAXT) { count("sim.thread-limit"); return -1; }
    Thread *t = &T[nT];
    t->id = nT; t->fn = fn; t->arg = arg; t->state = T_RUN;
    t->vc = me->vc; t->vc.c[t->id] = 1; ++me->vc.c[me->id];
    t->prio = int(rng_sched.below(1000)) + 1;
    t->step = 0;
    schedule_next_dev(t);
    const size_t SS = 8u << 20;
    uintptr_t st = next_stack; next_stack += SS + (1u << 20);
    void *p = raw_mmap((void*) st, SS, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE, -1, 0);
    if ((uintptr_t) p != st) die_raw("sim: cannot map a thread stack\n");
    ++hmode;
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, p, SS);
    static int (*real)(pthread_t*, const pthread_attr_t*, void*(*)(void*), void*) =
        (decltype(real)) dlsym(RTLD_NEXT, "pthread_create");
    if (real(&t->real, &at, thread_main, t)) die_raw("sim: pthread_create failed\n");
    --hmode;
    ++nT;
    return t->id;
}
static void *spawn_tramp(void *p) { auto *f = (std::function<void()>*) p; (*f)(); return nullptr; }
int spawn(std::function<void()> fn)
{
    ++hmode; auto *f = new std::function<void()>(std::move(fn)); --hmode;
    int r = start_thread(spawn_tramp, f);
    if (r < 0) die_raw("sim: too many threads\n");
    return r;
}
void join(int tid)
{
    while (T[tid].state != T_DONE) block_on(B_JOIN, (uintptr_t) &T[tid]);
    me->vc.join(T[tid].vc);
}
void sleep_ns(uint64_t n) { block_on(B_SLEEP, 0, clock_ns + n); }

// ---------------------------------------------------------------- crashes
static void crash_handler(int sig, siginfo_t *si, void *uc)
{
    if (in_crash or not result) { raw6(SYS_exit_group, 99); }
    in_crash = true;
    ++hmode;
    const char *n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : sig == SIGBUS ? "SIGBUS" : sig == SIGTRAP ? "SIGTRAP" : "SIGALRM";
    if (sig == SIGALRM or sig == SIGPROF) { snprintf(result->cls, sizeof result->cls, "hang"); }
    else snprintf(result->cls, sizeof result->cls, "crash-%s", n);
    char b[1200]; b[0] = 0; if (me) describe_stack(me, b, sizeof b);
    size_t l = strlen(result->msg);
    uint64_t pc = ((ucontext_t*) uc)->uc_mcontext.gregs[REG_RIP];
    snprintf(result->msg + l, sizeof result->msg - l, "%s in thread %d (address %p) at <%p> called from%s", n, me ? me->id : -1,
             sig == SIGSEGV or sig == SIGBUS ? si->si_addr : nullptr, (void*) pc, b);
    for (const char *p = result->cls; *p; ++p) mix(result->hash, *p);
    run_exit(ST_VIOLATION);
}

// Memory files made before the runs start are open file descriptions shared by every forked run: give this run its own.
static int zygote_fds[16], nzygote_fds = 0;
static void own_memory_files()
{
    for (int i = 0; i < nzygote_fds; ++i) {
        struct stat st; if (fstat(zygote_fds[i], &st)) continue;
        int fd = int(raw6(SYS_memfd_create, (long) "run", 0)); if (fd < 0) die_raw("sim: memfd_create failed\n");
        if (raw6(SYS_ftruncate, fd, st.st_size) < 0) die_raw("sim: ftruncate failed\n");
        if (st.st_blocks) die_raw("sim: a memory file was written before the run\n");
        if (raw6(SYS_dup2, fd, zygote_fds[i]) < 0) die_raw("sim: dup2 failed\n");
        raw6(SYS_close, fd);
    }
}

void execute(Harness *h, const Plan &plan, const std::vector<Dev> *replay)
{
    ++hmode;
    own_memory_files();
    K = plan.knobs;
    rng_sched = Rng(K.sched_seed); rng_fault = Rng(K.sched_seed ^ 0xFA017); rng_sys = Rng(0x5C10C4);
    replaying = replay != nullptr;
    sync_vc = new std::remove_pointer_t<decltype(sync_vc)>; mutexes = new std::remove_pointer_t<decltype(mutexes)>;
    rwlocks = new std::remove_pointer_t<decltype(rwlocks)>;
    pct_points = new rvec<uint64_t>;
    for (auto &m : replay_map) m = new rmap<uint64_t, uint32_t>;
    if (replay) for (auto &d : *replay) {
        if (d.kind == K_PREEMPT) { if (d.tid < MAXT) T[d.tid].preempts.push_back({ d.key, d.val }); }
        else if (d.kind < K_NKINDS) (*replay_map[d.kind])[d.key * MAXT + d.tid] = d.val;
    }
    for (auto &t : T) std::sort(t.preempts.begin(), t.preempts.end());
    if (K.pct_depth) {
        for (uint32_t i = 0; i < K.pct_depth; ++i) pct_points->push_back(1 + rng_sched.below(K.pct_len));
        std::sort(pct_points->rbegin(), pct_points->rend());
    }
    cells = (Cell*) raw_mmap(nullptr, NCELL * sizeof(Cell), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    clock_ns = 1700000000000000000ull;
    uint64_t t0 = clock_ns; (void) t0;
    static char alt[65536];
    stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_sigaction = crash_handler; sa.sa_flags = SA_SIGINFO|SA_ONSTACK|SA_NODEFER;
    for (int s : { SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS, SIGTRAP, SIGALRM, SIGPROF }) sigaction(s, &sa, nullptr);
    --hmode;
    Thread *t = &T[0]; nT = 1;
    t->id = 0; t->state = T_RUN; t->vc.c[0] = 1; t->prio = 500; me = t;
    t->real = pthread_self();
    schedule_next_dev(t);
    active = true;
    ++hmode; ++t->quiet;                  // harness code starts quiet
    h->run(plan);
    finish();
}
} // namespace sim

using namespace sim;

static void shadow_clear(uintptr_t a, size_t n)
{
    if (not active or not K.race or nT < 2 or not cells) return;
    size_t lim = n > 65536 ? 65536 : n;
    for (uintptr_t g = a >> 3; g <= (a + (lim ? lim - 1 : 0)) >> 3; ++g) { Cell *c = cell_for(g, false); if (c) c->n = 0; }
    if (sync_vc and n <= 4096 and not sync_vc->empty()) for (uintptr_t p = a; p < a + n; p += 4) sync_vc->erase(p);
}
static void shadow_free(uintptr_t a, size_t n, void *pc)
{
    if (not live() or not K.race or nT < 2) return;
    size_t lim = n > 256 ? 256 : n;
    for (size_t i = 0; i < lim; i += 8) race_gran((a + i) >> 3, lim - i >= 8 ? 0xff : uint8_t((1u << (lim - i)) - 1), 1 | 4, pc);
}
static bool alloc_should_fail(bool is_new)
{
    uint32_t pm = is_new ? sysfaults.alloc_pm : sysfaults.malloc_pm;
    return alloc_window > 0 and pm and live() and fault(is_new ? "alloc" : "malloc", pm, 1000);
}
static void heap_error(const char *what, void *p)
{
    if (not result or not active) { die_raw("sim: heap error outside of a run\n"); }
    char b[1200]; b[0] = 0; ++hmode; if (me) describe_stack(me, b, sizeof b); --hmode;
    violation("memory-error", "%s (%p) by thread %d called from%s", what, p, me ? me->id : -1, b);
}

// ===================================================================================================== TSan interface
extern "C" {
void __tsan_init() { }
void __tsan_func_entry(void *pc) { Thread *t = me; if (t and not t->quiet) { t->stk[t->depth & 63] = pc; ++t->depth; } }
void __tsan_func_exit() { Thread *t = me; if (t and not t->quiet and t->depth) --t->depth; }
#define RW(N) \
    void __tsan_read##N(void *a) { access((uintptr_t) a, N, false, PC()); } \
    void __tsan_write##N(void *a) { access((uintptr_t) a, N, true, PC()); } \
    void __tsan_unaligned_read##N(void *a) { access((uintptr_t) a, N, false, PC()); } \
    void __tsan_unaligned_write##N(void *a) { access((uintptr_t) a, N, true, PC()); } \
    void __tsan_volatile_read##N(void *a) { access((uintptr_t) a, N, false, PC()); } \
    void __tsan_volatile_write##N(void *a) { access((uintptr_t) a, N, true, PC()); } \
    void __tsan_read_write##N(void *a) { access((uintptr_t) a, N, true, PC()); } \
    void __tsan_unaligned_read_write##N(void *a) { access((uintptr_t) a, N, true, PC()); }
RW(1) RW(2) RW(4) RW(8)
void __tsan_read16(void *a) { access_range((uintptr_t) a, 16, false, PC()); }
void __tsan_write16(void *a) { access_range((uintptr_t) a, 16, true, PC()); }
void __tsan_read_write16(void *a) { access_range((uintptr_t) a, 16, true, PC()); }
void __tsan_unaligned_read16(void *a) { access_range((uintptr_t) a, 16, false, PC()); }
void __tsan_unaligned_write16(void *a) { access_range((uintptr_t) a, 16, true, PC()); }
void __tsan_unaligned_read_write16(void *a) { access_range((uintptr_t) a, 16, true, PC()); }
void __tsan_volatile_read16(void *a) { access_range((uintptr_t) a, 16, false, PC()); }
void __tsan_volatile_write16(void *a) { access_range((uintptr_t) a, 16, true, PC()); }
void __tsan_read_range(void *a, unsigned long n) { access_range((uintptr_t) a, n, false, PC()); }
void __tsan_write_range(void *a, unsigned long n) { access_range((uintptr_t) a, n, true, PC()); }
void __tsan_vptr_update(void **p, void *v) { if (*p != v) access((uintptr_t) p, 8, true, PC()); }
void __tsan_vptr_read(void **p) { access((uintptr_t) p, 8, false, PC()); }
void __tsan_ignore_thread_begin() { }
void __tsan_ignore_thread_end() { }
void *__tsan_memcpy(void *d, const void *s, size_t n) { access_range((uintptr_t) s, n, false, PC()); access_range((uintptr_t) d, n, true, PC()); return memmove(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { access_range((uintptr_t) s, n, false, PC()); access_range((uintptr_t) d, n, true, PC()); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { access_range((uintptr_t) d, n, true, PC()); return memset(d, c, n); }

#define AT(B, TY) \
    TY __tsan_atomic##B##_load(const volatile TY *a, int mo) { atomic_pre((uintptr_t) a, B / 8, false, PC()); TY v = __atomic_load_n(a, __ATOMIC_SEQ_CST); atomic_post((uintptr_t) a, A_LOAD, mo); return v; } \
    void __tsan_atomic##B##_store(volatile TY *a, TY v, int mo) { atomic_pre((uintptr_t) a, B / 8, true, PC()); atomic_post((uintptr_t) a, A_STORE, mo); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##B##_exchange(volatile TY *a, TY v, int mo) { atomic_pre((uintptr_t) a, B / 8, true, PC()); TY r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); atomic_post((uintptr_t) a, A_RMW, mo); return r; } \
    TY __tsan_atomic##B##_fetch_add(volatile TY *a, TY v, int mo) { atomic_pre((uintptr_t) a, B / 8, true, PC()); TY r = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); atomic_post((uintptr_t) a, A_RMW, mo); return r; } \
    TY __tsan_atomic##B##_fetch_sub(volatile TY *a, TY v, int mo) { atomic_pre((uintptr_t) a, B / 8, true, PC()); TY r = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); atomic_post((uintptr_t) a, A_RMW, mo); return r; } \
    TY __tsan_atomic##B##_fetch_and(volatile TY *a, TY v, int mo) { atomic_pre((uintptr_t) a, B / 8, true, PC()); TY r = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); atomic_post((uintptr_t) a, A_RMW, mo); return r; } \
    TY __tsan_atomic##B##_fetch_or(volatile TY *a, TY v, int mo) { atomic_pre((uintptr_t) a, B / 8, true, PC()); TY r = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); atomic_post((uintptr_t) a, A_RMW, mo); return r; } \
    TY __tsan_atomic##B##_fetch_xor(volatile TY *a, TY v, int mo) { atomic_pre((uintptr_t) a, B / 8, true, PC()); TY r = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); atomic_post((uintptr_t) a, A_RMW, mo); return r; } \
    TY __tsan_atomic##B##_fetch_nand(volatile TY *a, TY v, int mo) { atomic_pre((uintptr_t) a, B / 8, true, PC()); TY r = __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); atomic_post((uintptr_t) a, A_RMW, mo); return r; } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile TY *a, TY *c, TY v, int mo, int fmo) { \
        atomic_pre((uintptr_t) a, B / 8, true, PC()); \
        int r = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        atomic_post((uintptr_t) a, r ? A_RMW : A_LOAD, r ? mo : fmo); return r; } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile TY *a, TY *c, TY v, int mo, int fmo) { \
        atomic_pre((uintptr_t) a, B / 8, true, PC()); \
        int r = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        atomic_post((uintptr_t) a, r ? A_RMW : A_LOAD, r ? mo : fmo); return r; } \
    TY __tsan_atomic##B##_compare_exchange_val(volatile TY *a, TY c, TY v, int mo, int fmo) { \
        atomic_pre((uintptr_t) a, B / 8, true, PC()); \
        int r = __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        atomic_post((uintptr_t) a, r ? A_RMW : A_LOAD, r ? mo : fmo); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
static char fence_addr;
void __tsan_atomic_thread_fence(int mo)
{
    if (not live()) return;
    point(true);
    if (mo_acq(mo)) acquire_from((uintptr_t) &fence_addr);
    if (mo_rel(mo)) release_to((uintptr_t) &fence_addr);
}
void __tsan_atomic_signal_fence(int) { }

// ===================================================================================================== pthread
#define REAL(NAME, ...) static auto real = (decltype(&NAME)) dlsym(RTLD_NEXT, #NAME); return real(__VA_ARGS__)
static bool is_recursive(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }

int pthread_mutex_lock(pthread_mutex_t *m) { if (not live()) { REAL(pthread_mutex_lock, m); } return m_lock((uintptr_t) m, is_recursive(m)); }
int pthread_mutex_trylock(pthread_mutex_t *m) { if (not live()) { REAL(pthread_mutex_trylock, m); } point(true); return m_try((uintptr_t) m, is_recursive(m)) ? 0 : EBUSY; }
int pthread_mutex_unlock(pthread_mutex_t *m) { if (not live()) { REAL(pthread_mutex_unlock, m); } m_unlock_nopoint((uintptr_t) m); point(true); return 0; }
int pthread_mutex_timedlock(pthread_mutex_t *m, const timespec *ts) { if (not live()) { REAL(pthread_mutex_timedlock, m, ts); } return m_lock((uintptr_t) m, is_recursive(m), abs_deadline(0, ts)); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const timespec *ts) { if (not live()) { REAL(pthread_mutex_clocklock, m, c, ts); } return m_lock((uintptr_t) m, is_recursive(m), abs_deadline(c, ts)); }
int pthread_mutex_destroy(pthread_mutex_t *m)
{
    if (not live()) { REAL(pthread_mutex_destroy, m); }
    auto it = mutexes->find((uintptr_t) m);
    if (it != mutexes->end()) { if (it->second.owner >= 0) violation("bad-destroy", "a locked mutex is destroyed"); mutexes->erase(it); }
    return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (not live()) { REAL(pthread_cond_wait, c, m); } return c_wait((uintptr_t) c, (uintptr_t) m, 0); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *ts) { if (not live()) { REAL(pthread_cond_timedwait, c, m, ts); } return c_wait((uintptr_t) c, (uintptr_t) m, abs_deadline(0, ts)); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const timespec *ts) { if (not live()) { REAL(pthread_cond_clockwait, c, m, k, ts); } return c_wait((uintptr_t) c, (uintptr_t) m, abs_deadline(k, ts)); }
int pthread_cond_signal(pthread_cond_t *c) { if (not live()) { REAL(pthread_cond_signal, c); } c_signal((uintptr_t) c); return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { if (not live()) { REAL(pthread_cond_broadcast, c); } point(true); wake_all(B_COND, (uintptr_t) c); return 0; }
int pthread_cond_destroy(pthread_cond_t *c)
{
    if (not live()) { REAL(pthread_cond_destroy, c); }
    return 0;   // (destroying with waiters would be a deadlock, which is reported as such)
}
int pthread_create(pthread_t *th, const pthread_attr_t *at, void *(*fn)(void*), void *arg)
{
    if (not live()) { REAL(pthread_create, th, at, fn, arg); }
    int id = start_thread(fn, arg);
    if (id < 0) return EAGAIN;
    *th = T[id].real;
    point(true);
    return 0;
}
int pthread_join(pthread_t th, void **ret)
{
    if (not live()) { REAL(pthread_join, th, ret); }
    for (int i = 0; i < nT; ++i) if (pthread_equal(T[i].real, th)) { point(true); join(i); if (ret) *ret = T[i].ret; return 0; }
    return ESRCH;
}
int pthread_detach(pthread_t th) { if (not live()) { REAL(pthread_detach, th); } return 0; }
int pthread_once(pthread_once_t *o, void (*f)())
{
    if (not live()) { REAL(pthread_once, o, f); }
    point(true);
    uintptr_t a = (uintptr_t) o; volatile int &st = *(volatile int*) o;      // 0: not yet, 1: in progress, 2: done
    for (;;) {
        if (st == 2) { acquire_from(a); return 0; }
        if (st == 0) {
            st = 1;
            try { f(); } catch (...) { st = 0; wake_all(B_ONCE, a); throw; }
            st = 2;
            release_to(a); wake_all(B_ONCE, a);
            return 0;
        }
        block_on(B_ONCE, a);
    }
}
// static-local initialisation
int __cxa_guard_acquire(uint64_t *g)
{
    if (not live()) { if (*(volatile uint8_t*) g) return 0; ((uint8_t*) g)[1] = 1; return 1; }
    point(true);
    uintptr_t a = (uintptr_t) g;
    for (;;) {
        if (*(volatile uint8_t*) g) { acquire_from(a); return 0; }
        if (not ((uint8_t*) g)[1]) { ((uint8_t*) g)[1] = 1; return 1; }
        block_on(B_GUARD, a);
    }
}
void __cxa_guard_release(uint64_t *g)
{
    ((uint8_t*) g)[1] = 0; *(volatile uint8_t*) g = 1;
    if (live()) { release_to((uintptr_t) g); wake_all(B_GUARD, (uintptr_t) g); }
}
void __cxa_guard_abort(uint64_t *g) { ((uint8_t*) g)[1] = 0; if (live()) wake_all(B_GUARD, (uintptr_t) g); }
int __cxa_thread_atexit(void (*f)(void*), void *o, void *)
{
    if (me and active) me->dtors.push_back({ f, o });
    return 0;    // the initial thread ends with the process
}
// rwlocks (std::shared_mutex)
static int rw_rd(pthread_rwlock_t *l, bool tr, uint64_t dl)
{
    point(true); uintptr_t a = (uintptr_t) l;
    for (;;) {
        RWState &s = (*rwlocks)[a];
        if (s.writer < 0) { ++s.readers; acquire_from(a); return 0; }
        if (tr) return EBUSY;
        if (s.writer == me->id) return EDEADLK;
        block_on(B_RWLOCK, a, dl); if (dl and me->timed_out) return ETIMEDOUT;
    }
}
static int rw_wr(pthread_rwlock_t *l, bool tr, uint64_t dl)
{
    point(true); uintptr_t a = (uintptr_t) l;
    for (;;) {
        RWState &s = (*rwlocks)[a];
        if (s.writer < 0 and s.readers == 0) { s.writer = me->id; acquire_from(a); return 0; }
        if (tr) return EBUSY;
        if (s.writer == me->id) return EDEADLK;
        block_on(B_RWLOCK, a, dl); if (dl and me->timed_out) return ETIMEDOUT;
    }
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { if (not live()) { REAL(pthread_rwlock_rdlock, l); } return rw_rd(l, false, 0); }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { if (not live()) { REAL(pthread_rwlock_wrlock, l); } return rw_wr(l, false, 0); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { if (not live()) { REAL(pthread_rwlock_tryrdlock, l); } return rw_rd(l, true, 0); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { if (not live()) { REAL(pthread_rwlock_trywrlock, l); } return rw_wr(l, true, 0); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t *l, clockid_t c, const timespec *ts) { if (not live()) { REAL(pthread_rwlock_clockrdlock, l, c, ts); } return rw_rd(l, false, abs_deadline(c, ts)); }
int pthread_rwlock_clockwrlock(pthread_rwlock_t *l, clockid_t c, const timespec *ts) { if (not live()) { REAL(pthread_rwlock_clockwrlock, l, c, ts); } return rw_wr(l, false, abs_deadline(c, ts)); }
int pthread_rwlock_unlock(pthread_rwlock_t *l)
{
    if (not live()) { REAL(pthread_rwlock_unlock, l); }
    uintptr_t a = (uintptr_t) l; RWState &s = (*rwlocks)[a];
    if (s.writer == me->id) s.writer = -1; else if (s.readers > 0) --s.readers; else violation("bad-unlock", "unlock of an rwlock that is not held");
    release_to(a); wake_all(B_RWLOCK, a); point(true); return 0;
}
// POSIX semaphores
int sem_wait(sem_t *s) { if (not live()) { REAL(sem_wait, s); } point(true); int *v = (int*) s; while (*v <= 0) block_on(B_SEM, (uintptr_t) s); --*v; acquire_from((uintptr_t) s); return 0; }
int sem_trywait(sem_t *s) { if (not live()) { REAL(sem_trywait, s); } point(true); int *v = (int*) s; if (*v <= 0) { errno = EAGAIN; return -1; } --*v; acquire_from((uintptr_t) s); return 0; }
int sem_post(sem_t *s) { if (not live()) { REAL(sem_post, s); } point(true); ++*(int*) s; release_to((uintptr_t) s); wake_all(B_SEM, (uintptr_t) s); return 0; }
// yielding and sleeping
int sched_yield() { if (not live()) { REAL(sched_yield); } yield_point(); return 0; }
int nanosleep(const timespec *ts, timespec *rem) { if (not live()) { REAL(nanosleep, ts, rem); } sleep_ns(uint64_t(ts->tv_sec) * 1000000000ull + ts->tv_nsec + 1); return 0; }
int clock_nanosleep(clockid_t c, int fl, const timespec *ts, timespec *rem)
{
    if (not live()) { REAL(clock_nanosleep, c, fl, ts, rem); }
    uint64_t d = uint64_t(ts->tv_sec) * 1000000000ull + ts->tv_nsec;
    if (fl & TIMER_ABSTIME) { if (d > clock_ns) sleep_ns(d - clock_ns); } else sleep_ns(d + 1);
    return 0;
}
int usleep(useconds_t u) { if (not live()) { REAL(usleep, u); } sleep_ns(uint64_t(u) * 1000 + 1); return 0; }
unsigned sleep(unsigned s) { if (not live()) { REAL(sleep, s); } sleep_ns(uint64_t(s) * 1000000000ull + 1); return 0; }
// clocks
int clock_gettime(clockid_t c, timespec *ts)
{
    if (not (active and me)) return (int) raw6(SYS_clock_gettime, c, (long) ts);
    uint64_t n = live() ? sim_clock(c) : clock_ns + (wall_clock(c) ? real_offset : 0); ts->tv_sec = n / 1000000000ull; ts->tv_nsec = n % 1000000000ull; return 0;
}
int gettimeofday(timeval *tv, void *)
{
    timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
time_t time(time_t *p) { timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (p) *p = ts.tv_sec; return ts.tv_sec; }
// randomness
static long sim_random(void *b, size_t n) { for (size_t i = 0; i < n; ++i) ((uint8_t*) b)[i] = uint8_t(rng_sys.next() >> 40); return n; }
ssize_t getrandom(void *b, size_t n, unsigned f) { if (not (active and me)) return raw6(SYS_getrandom, (long) b, n, f); return sim_random(b, n); }
int getentropy(void *b, size_t n) { if (not (active and me)) { raw6(SYS_getrandom, (long) b, n, 0); return 0; } sim_random(b, n); return 0; }
}
// ===================================================================================================== system calls
static std::vector<MapInfo> *maps_ = nullptr;
static uint64_t live_fds_ = 0;
static uintptr_t next_map = ARENA_MAP;
static std::vector<int> *fds_ = nullptr;
namespace sim {
uint64_t live_fds() { return live_fds_; }
const std::vector<MapInfo> & live_maps() { ++hmode; if (not maps_) maps_ = new std::vector<MapInfo>; --hmode; return *maps_; }
void sys_reset_tracking() { ++hmode; delete maps_; maps_ = new std::vector<MapInfo>; live_fds_ = 0; --hmode; }
}
static void track_map(uintptr_t a, size_t n)
{
    ++hmode; if (not maps_) maps_ = new std::vector<MapInfo>; maps_->push_back({ a, a + n }); --hmode;
}
static void track_unmap(uintptr_t a, size_t n)
{
    if (not maps_) return;
    ++hmode; std::vector<MapInfo> r;
    for (auto &m : *maps_) {
        if (m.hi <= a or m.lo >= a + n) { r.push_back(m); continue; }
        if (m.lo < a) r.push_back({ m.lo, a });
        if (m.hi > a + n) r.push_back({ a + n, m.hi });
    }
    *maps_ = r; --hmode;
}
extern "C" {
void *mmap(void *a, size_t n, int prot, int flags, int fd, off_t off)
{
    if (not live()) { long r = raw6(SYS_mmap, (long) a, n, prot, flags, fd, off); if (r < 0 and r > -4096) { errno = -r; return MAP_FAILED; } return (void*) r; }
    point(true);
    if (sysfaults.mmap_pm and fault("mmap", sysfaults.mmap_pm, 1000)) { errno = ENOMEM; return MAP_FAILED; }
    void *want = a; int fl = flags;
    if (not a) {
        size_t pg = (n + 4095) & ~size_t(4095);
        fl |= MAP_FIXED_NOREPLACE;
        uintptr_t at = 0;
        if ((pg <= 65536 or nT < 2) and maps_ and not maps_->empty() and rng_sys.below(2)) {
            // like a real kernel, reuse unmapped addresses: directly below or above an existing mapping
            const MapInfo &m = (*maps_)[rng_sys.below(maps_->size())];
            at = rng_sys.below(2) ? m.hi : m.lo - pg;
            if (at < ARENA_MAP or at + pg > next_map) at = 0;
            else for (auto &o : *maps_) if (at < o.hi and o.lo < at + pg) { at = 0; break; }
            if (at) shadow_clear(at, pg);
        }
        // leave a randomly chosen number of unmapped guard pages, so neighbouring mappings may or may not be adjacent
        if (not at) { at = next_map; next_map += pg + 4096 * rng_sys.below(3); }
        want = (void*) at;
    }
    long r = raw6(SYS_mmap, (long) want, n, prot, fl, fd, off);
    if (r < 0 and r > -4096) { errno = -r; return MAP_FAILED; }
    if (not (flags & MAP_FIXED)) track_map(r, (n + 4095) & ~size_t(4095));
    return (void*) r;
}
void *mmap64(void *a, size_t n, int prot, int flags, int fd, off_t off) { return mmap(a, n, prot, flags, fd, off); }
int munmap(void *a, size_t n)
{
    if (live()) { point(true); track_unmap((uintptr_t) a, (n + 4095) & ~size_t(4095)); }
    long r = raw6(SYS_munmap, (long) a, n); if (r < 0) { errno = -r; return -1; } return 0;
}
int ftruncate(int fd, off_t n)
{
    if (live() and sysfaults.ftruncate_pm) {
        point(true); struct stat st; bool shrink = not fstat(fd, &st) and n < st.st_size;
        if (fault("ftruncate-interrupted", sysfaults.ftruncate_pm, 2000)) { errno = EINTR; return -1; }
        if (not shrink and fault("ftruncate", sysfaults.ftruncate_pm, 2000)) { errno = ENOSPC; return -1; }
    }
    long r = raw6(SYS_ftruncate, fd, n); if (r < 0) { errno = -r; return -1; } return 0;
}
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
int memfd_create(const char *name, unsigned fl)
{
    if (live()) { point(true); if (sysfaults.memfd_pm and fault("memfd_create", sysfaults.memfd_pm, 1000)) { errno = EMFILE; return -1; } }
    long r = raw6(SYS_memfd_create, (long) name, fl); if (r < 0) { errno = -r; return -1; }
    if (live()) { ++live_fds_; ++hmode; if (not fds_) fds_ = new std::vector<int>; fds_->push_back(r); --hmode; }
    else if (not active and not hmode) { if (nzygote_fds == 16) die_raw("sim: too many memory files\n"); zygote_fds[nzygote_fds++] = r; }
    return r;
}
int close(int fd)
{
    if (live() and fds_) { auto it = std::find(fds_->begin(), fds_->end(), fd); if (it != fds_->end()) { fds_->erase(it); --live_fds_; } }
    long r = raw6(SYS_close, fd); if (r < 0) { errno = -r; return -1; } return 0;
}
// file input
ssize_t read(int fd, void *b, size_t n)
{
    if (live() and n) {
        point(true);
        if (fault("read-interrupted", sysfaults.read_eintr_pm, 1000)) { errno = EINTR; return -1; }
        if (fault("read-slow", sysfaults.read_slow_pm, 1000)) { uint64_t d = 1000000 + rng_sys.below(5000000000ull); clock_ns += d; input_slow_ns += d; }
        if (fault("read-error", sysfaults.read_eio_pm, 1000)) { ++input_errors; errno = EIO; return -1; }
        if (n > 1 and fault("read-short", sysfaults.read_short_pm, 1000)) n = 1 + rng_sys.below(n < 16 ? n - 1 : rng_sys.below(2) ? 15 : 255) % (n - 1);
    }
    long r = raw6(SYS_read, fd, (long) b, n); if (r < 0) { errno = -r; return -1; } return r;
}
FILE *fopen(const char *path, const char *mode)
{
    if (live()) { point(true); if (fault("open", sysfaults.open_pm, 1000)) { ++input_errors; errno = EMFILE; return nullptr; } }
    REAL(fopen, path, mode);
}
FILE *fopen64(const char *path, const char *mode) { return fopen(path, mode); }
long syscall(long n, ...)
{
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex and live()) {
        int op = int(b) & 127 & ~FUTEX_CLOCK_REALTIME; op &= FUTEX_CMD_MASK;
        point(true);
        if (op == FUTEX_WAIT or op == FUTEX_WAIT_BITSET) {
            if (*(volatile int*) a != int(c)) { errno = EAGAIN; return -1; }
            uint64_t dl = 0; const timespec *ts = (const timespec*) d;
            if (ts) { uint64_t v = uint64_t(ts->tv_sec) * 1000000000ull + ts->tv_nsec; dl = op == FUTEX_WAIT ? clock_ns + v + 1 : v ? v : 1; }
            block_on(B_FUTEX, a, dl);
            if (dl and me->timed_out) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE or op == FUTEX_WAKE_BITSET) {
            int woken = 0;
            while (woken < int(c)) {
                int w[MAXT], k = 0;
                for (int i = 0; i < nT; ++i) if (T[i].state == T_BLOCKED and T[i].bkind == B_FUTEX and T[i].baddr == (uintptr_t) a) w[k++] = i;
                if (not k) break;
                wake(&T[w[k == 1 or int(c) >= k ? 0 : decide(K_NOTIFY, k, [&]{ return uint32_t(rng_sched.below(k)); })]]);
                ++woken;
            }
            return woken;
        }
    }
    if (n == SYS_getrandom and active and me) return sim_random((void*) a, b);
    long r = raw6(n, a, b, c, d, e, f);
    if (r < 0 and r > -4096) { errno = -r; return -1; }
    return r;
}
}
