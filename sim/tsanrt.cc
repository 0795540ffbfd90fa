#include "tsanrt.h"
#include "seams.h"
#include <cerrno>
#include <clocale>
#include <ctime>
#include <dlfcn.h>
#include <iconv.h>
#include <link.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <wchar.h>

// ---------------------------------------------------------------- state
static const int MAXT = 5; // 0: the thread that prepared the shared values
static const size_t STACK = 16u << 20;
struct Thread {
    pthread_t th;
    sem_t sem;
    bool alive = false;
    char *lo = nullptr, *hi = nullptr;
    const std::function<void()> *body = nullptr;
};
static Thread T[MAXT];
static int nThreads;
static volatile bool conc;
static volatile int current;
static sem_t mainSem;
static __thread int self;
static __thread int inRt;
static u32 vc[MAXT][MAXT];
static ThreadRun *run;
static const std::vector<u32> *sched;
static size_t schedNext;
static u64 stalls;
static std::map<const void *, std::vector<u32>> *syncs;

struct RtScope { int lib; RtScope() { inRt++; lib = g_inlib; g_inlib = 0; } ~RtScope() { g_inlib = lib; inRt--; } };
static bool off() { return !conc || !self || inRt; }

// ---------------------------------------------------------------- shadow memory
// Per 8 bytes and thread: the clock and the bytes of its last write and of its last reads.
struct Cell { u32 clk; unsigned char mask; };
struct Gran { Cell w[MAXT], r[MAXT]; void *wpc, *rpc; unsigned char owner; };
struct Page { u64 key; u32 epoch; Gran g[512]; };
static Page **pages; static size_t pageCap, pageUsed; static u32 epoch;
static Page *pageFor(u64 key, bool make) {
    if (!pages || (pageUsed + 1) * 2 > pageCap) {
        size_t oc = pageCap;
        Page **o = pages;
        pageCap = oc ? oc * 2 : 4096;
        pages = (Page **)syscall(SYS_mmap, 0, pageCap * sizeof(Page *), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        for (size_t i = 0; i < oc; i++) if (o[i]) {
            size_t k = mix64(o[i]->key) & (pageCap - 1);
            while (pages[k]) k = (k + 1) & (pageCap - 1);
            pages[k] = o[i];
        }
        if (o) syscall(SYS_munmap, o, oc * sizeof(Page *));
    }
    size_t k = mix64(key) & (pageCap - 1);
    while (pages[k] && pages[k]->key != key) k = (k + 1) & (pageCap - 1);
    if (!pages[k]) {
        if (!make) return nullptr;
        static char *arena; static size_t left;
        if (left < sizeof(Page)) { left = 256 * sizeof(Page); arena = (char *)syscall(SYS_mmap, 0, left, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
        pages[k] = (Page *)arena;
        arena += sizeof(Page); left -= sizeof(Page);
        pages[k]->key = key;
        pages[k]->epoch = epoch;
        pageUsed++;
    } else if (pages[k]->epoch != epoch) {
        if (!make) return nullptr;
        for (auto &g : pages[k]->g) g = Gran();
        pages[k]->epoch = epoch;
    }
    return pages[k];
}
static std::string where(void *pc) {
    Dl_info d;
    if (dladdr(pc, &d) && d.dli_sname) return d.dli_sname;
    return fmt("%p", pc);
}
extern "C" char __data_start, _end;
// Data segments of the C and C++ runtime: their inline functions cache there what they compute, harmlessly.
static std::vector<std::pair<const char *, const char *>> *foreign;
static int addForeign(struct dl_phdr_info *i, size_t, void *) {
    if (!i->dlpi_name || !*i->dlpi_name) return 0;
    for (int k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_LOAD) {
            const char *a = (const char *)i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
            foreign->push_back(std::make_pair(a, a + i->dlpi_phdr[k].p_memsz));
        }
    return 0;
}
static bool isForeign(const char *a) {
    for (auto &f : *foreign) if (a >= f.first && a < f.second) return true;
    return false;
}
static bool isStatic(const char *a) { return a >= &__data_start && a < &_end; }

static void conflict(const char *a, int other, bool w, bool ow, void *pc, void *opc) {
    if (!run->race.empty()) return;
    run->race = fmt("threads %d and %d %s %s without synchronisation: %s in ", other, self, w && ow ? "both write" : w ? "read and write" : "write and read",
        isStatic(a) ? "the same static variable" : "the same memory", w ? "write" : "read") + where(pc) + (ow ? ", write in " : ", read in ") + where(opc);
}
static void switchTo(int t) {
    int me = self;
    run->switches++;
    run->hash = mix64(run->hash ^ (run->steps * 16 + (u64)t));
    current = t;
    sem_post(&T[t].sem);
    while (sem_wait(&T[me].sem)) {}
}
static int nextAlive() {
    for (int k = 1; k <= nThreads; k++) { int t = (self - 1 + k) % nThreads + 1; if (t != self && T[t].alive) return t; }
    return 0;
}
// The running thread cannot go on until another one has.
static void stall() {
    int t = nextAlive();
    if (!t || ++stalls > 200000) simDie("deadlock", "no thread can make progress: each waits for a lock another one holds");
    switchTo(t);
}
static void point() {
    run->steps++;
    stalls = 0;
    while (schedNext + 1 < sched->size() && run->steps >= (*sched)[schedNext]) {
        int t = (int)(*sched)[schedNext + 1];
        schedNext += 2;
        if (t >= 1 && t <= nThreads && t != self && T[t].alive) { switchTo(t); return; }
    }
}
void schedPoint() { if (off()) return; RtScope s; point(); }

static Page *recent[1024]; // by the low bits of the page number
static char *stackLo, *stackHi;
static void access(const void *addr, size_t n, bool w, void *pc) {
    if (off() || !g_inlib || !n) return;
    const char *a = (const char *)addr;
    if (a >= stackLo && a < stackHi) return;
    u64 key = (u64)a >> 12, first = ((u64)a >> 3) & 511;
    Page *p = recent[key & 1023];
    if (!p || p->key != key || p->epoch != epoch) {
        if ((u64)a >> 40 == 0x7f && isForeign(a)) return;
        RtScope s;
        p = recent[key & 1023] = pageFor(key, true);
    }
    run->accesses++;
    Gran &g1 = p->g[first];
    bool shared = g1.owner != self || isStatic(a);
    if (!shared && ((u64)a & 7) + n <= 8) {
        // The thread's own memory, and the same access in the same interval as before: whoever came in between was checked against it.
        const Cell &c = w ? g1.w[self] : g1.r[self];
        unsigned char mask = (unsigned char)(((1u << n) - 1) << ((u64)a & 7));
        if (c.clk == vc[self][self] && (c.mask & mask) == mask) return;
    }
    RtScope s;
    if (shared) point();
    for (u64 x = (u64)a, e = (u64)a + n; x < e;) {
        u64 g0 = x & ~7ULL, up = std::min(e, g0 + 8);
        unsigned char mask = (unsigned char)(((1u << (up - g0)) - 1) & ~((1u << (x - g0)) - 1));
        Gran &g = (g0 >> 12 == key ? p : pageFor(g0 >> 12, true))->g[(g0 >> 3) & 511];
        for (int u = 1; u <= nThreads; u++) {
            if (u == self) continue;
            if ((g.w[u].mask & mask) && g.w[u].clk > vc[self][u]) conflict(a, u, w, true, pc, g.wpc);
            else if (w && (g.r[u].mask & mask) && g.r[u].clk > vc[self][u]) conflict(a, u, true, false, pc, g.rpc);
        }
        Cell &c = w ? g.w[self] : g.r[self];
        if (c.clk == vc[self][self]) c.mask |= mask; else { c.clk = vc[self][self]; c.mask = mask; }
        (w ? g.wpc : g.rpc) = pc;
        x = up;
    }
}
void shadowTouch(const void *p, size_t n, bool write, void *pc) { access(p, n, write, pc); }
void shadowAlloc(void *p, size_t n) {
    if (!conc || !self) return;
    for (u64 x = (u64)p & ~7ULL, e = (u64)p + n; x < e && n <= (64u << 20); x += 8) {
        Gran &g = pageFor(x >> 12, true)->g[(x >> 3) & 511];
        g = Gran();
        g.owner = (unsigned char)self;
    }
}
void shadowFree(void *p, size_t n) {
    if (off()) return;
    if (n <= (1u << 16)) access(p, n, true, __builtin_return_address(0));
    for (u64 x = (u64)p & ~7ULL, e = (u64)p + n; x < e && n <= (64u << 20); x += 8) {
        Page *pg = pageFor(x >> 12, false);
        if (pg) pg->g[(x >> 3) & 511] = Gran();
    }
}

// ---------------------------------------------------------------- happens-before
static void acquire(const void *o) {
    auto it = syncs->find(o);
    if (it == syncs->end()) return;
    for (int i = 0; i <= nThreads; i++) vc[self][i] = std::max(vc[self][i], it->second[(size_t)i]);
}
static void release(const void *o) {
    auto &v = (*syncs)[o];
    v.resize(MAXT);
    for (int i = 0; i <= nThreads; i++) v[(size_t)i] = std::max(v[(size_t)i], vc[self][i]);
    vc[self][self]++;
}

// ---------------------------------------------------------------- threads
static void *threadMain(void *p) {
    int me = (int)(long)p;
    self = me;
    while (sem_wait(&T[me].sem)) {}
    (*T[me].body)();
    {
        RtScope s;
        T[me].alive = false;
        int t = nextAlive();
        run->hash = mix64(run->hash ^ (run->steps * 16 + 8 + (u64)t));
        if (t) { current = t; sem_post(&T[t].sem); } else sem_post(&mainSem);
        while (sem_wait(&T[me].sem)) {} // goes away only after every thread is done, so that its exit disturbs nobody
    }
    self = 0;
    return nullptr;
}
ThreadRun runThreads(const std::vector<std::function<void()>> &bodies, const std::vector<u32> &schedule) {
    ThreadRun r;
    static char *stacks;
    if (!stacks) stacks = (char *)syscall(SYS_mmap, 0, STACK * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (!foreign) { foreign = new std::vector<std::pair<const char *, const char *>>; dl_iterate_phdr(addForeign, nullptr); }
    if (!syncs) syncs = new std::map<const void *, std::vector<u32>>;
    syncs->clear();
    epoch++;
    run = &r; sched = &schedule; schedNext = 0; stalls = 0;
    nThreads = (int)std::min<size_t>(bodies.size(), MAXT - 1);
    stackLo = stacks + STACK; stackHi = stacks + STACK * ((size_t)nThreads + 1);
    memset(vc, 0, sizeof vc);
    sem_init(&mainSem, 0, 0);
    for (int i = 1; i <= nThreads; i++) {
        vc[i][i] = 1;
        T[i].alive = true;
        T[i].body = &bodies[(size_t)i - 1];
        T[i].lo = stacks + STACK * (size_t)i;
        T[i].hi = T[i].lo + STACK;
        sem_init(&T[i].sem, 0, 0);
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstack(&at, T[i].lo, STACK);
        if (pthread_create(&T[i].th, &at, threadMain, (void *)(long)i)) { perror("pthread_create"); _exit(2); }
        pthread_attr_destroy(&at);
    }
    conc = true;
    current = 1;
    if (nThreads) { sem_post(&T[1].sem); while (sem_wait(&mainSem)) {} }
    conc = false;
    for (int i = 1; i <= nThreads; i++) { sem_post(&T[i].sem); pthread_join(T[i].th, nullptr); sem_destroy(&T[i].sem); }
    sem_destroy(&mainSem);
    run = nullptr;
    return r;
}

// ---------------------------------------------------------------- locks, once, guards
template <class F> static F next(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
#define REAL(name, type) static type real_##name; if (!real_##name) real_##name = next<type>(#name)
static int lockLoop(int (*tryLock)(void *), void *m) {
    RtScope s;
    point();
    int r;
    while ((r = tryLock(m)) == EBUSY) stall();
    if (r == 0) acquire(m);
    return r;
}
typedef int (*Fp)(void *);
extern "C" int pthread_mutex_trylock(pthread_mutex_t *m) noexcept {
    REAL(pthread_mutex_trylock, Fp);
    int r = real_pthread_mutex_trylock(m);
    if (!off() && r == 0) { RtScope s; acquire(m); }
    return r;
}
extern "C" int pthread_mutex_lock(pthread_mutex_t *m) noexcept {
    REAL(pthread_mutex_lock, Fp);
    REAL(pthread_mutex_trylock, Fp);
    if (off()) return real_pthread_mutex_lock(m);
    return lockLoop(real_pthread_mutex_trylock, m);
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t *m) noexcept {
    REAL(pthread_mutex_unlock, Fp);
    if (off()) return real_pthread_mutex_unlock(m);
    RtScope s;
    release(m);
    int r = real_pthread_mutex_unlock(m);
    point();
    return r;
}
extern "C" int pthread_rwlock_rdlock(pthread_rwlock_t *m) noexcept {
    REAL(pthread_rwlock_rdlock, Fp);
    REAL(pthread_rwlock_tryrdlock, Fp);
    if (off()) return real_pthread_rwlock_rdlock(m);
    return lockLoop(real_pthread_rwlock_tryrdlock, m);
}
extern "C" int pthread_rwlock_wrlock(pthread_rwlock_t *m) noexcept {
    REAL(pthread_rwlock_wrlock, Fp);
    REAL(pthread_rwlock_trywrlock, Fp);
    if (off()) return real_pthread_rwlock_wrlock(m);
    return lockLoop(real_pthread_rwlock_trywrlock, m);
}
extern "C" int pthread_rwlock_unlock(pthread_rwlock_t *m) noexcept {
    REAL(pthread_rwlock_unlock, Fp);
    if (off()) return real_pthread_rwlock_unlock(m);
    RtScope s;
    release(m);
    int r = real_pthread_rwlock_unlock(m);
    point();
    return r;
}
extern "C" int pthread_once(pthread_once_t *o, void (*f)(void)) {
    int *st = (int *)o; // 0: not run, 2: done (as glibc has it), 1: running
    if (off()) {
        if (*st == 2) return 0;
        *st = 1;
        try { f(); } catch (...) { *st = 0; throw; }
        *st = 2;
        return 0;
    }
    for (;;) {
        {
            RtScope s;
            point();
            while (*st == 1) stall();
            if (*st == 2) { acquire(o); return 0; }
            *st = 1;
        }
        try { f(); } catch (...) { *st = 0; throw; }
        RtScope s;
        release(o);
        *st = 2;
        return 0;
    }
}
extern "C" int __cxa_guard_acquire(u64 *gp) {
    volatile unsigned char *g = (unsigned char *)gp; // byte 0: initialised, byte 1: being initialised
    if (off()) { if (g[0]) return 0; g[1] = 1; return 1; }
    RtScope s;
    point();
    for (;;) {
        if (g[0]) { acquire(gp); return 0; }
        if (!g[1]) { g[1] = 1; return 1; }
        stall();
    }
}
extern "C" void __cxa_guard_release(u64 *gp) {
    unsigned char *g = (unsigned char *)gp;
    if (!off()) { RtScope s; release(gp); }
    g[1] = 0;
    g[0] = 1;
}
extern "C" void __cxa_guard_abort(u64 *gp) { ((unsigned char *)gp)[1] = 0; }

extern "C" void *__cxa_allocate_exception(size_t n) noexcept {
    typedef void *(*F)(size_t);
    REAL(__cxa_allocate_exception, F);
    void *p = real___cxa_allocate_exception(n);
    shadowAlloc(p, n);
    return p;
}

// ---------------------------------------------------------------- instrumentation
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void *a) { access(a, n, false, PC); } \
    void __tsan_write##n(void *a) { access(a, n, true, PC); } \
    void __tsan_unaligned_read##n(void *a) { access(a, n, false, PC); } \
    void __tsan_unaligned_write##n(void *a) { access(a, n, true, PC); } \
    void __tsan_volatile_read##n(void *a) { access(a, n, false, PC); } \
    void __tsan_volatile_write##n(void *a) { access(a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { access(a, n, false, PC); }
void __tsan_write_range(void *a, size_t n) { access(a, n, true, PC); }
void __tsan_vptr_update(void **a, void *v) { if (*a != v) access(a, 8, true, PC); }
void __tsan_vptr_read(void **a) { access(a, 8, false, PC); }
}
// Atomic operations synchronise unless relaxed, and are scheduling points.
struct Atom {
    const volatile void *a; int mo; bool on;
    Atom(const volatile void *p, int m) : a(p), mo(m), on(!off() && g_inlib) {
        if (!on) return;
        RtScope s;
        point();
        if (mo != __ATOMIC_RELAXED) acquire((const void *)a);
    }
    void rel() { if (on && mo != __ATOMIC_RELAXED) { RtScope s; release((const void *)a); } }
};
#define ATOM(bits, type) \
extern "C" type __tsan_atomic##bits##_load(const volatile type *a, int mo) { Atom t(a, mo); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
extern "C" void __tsan_atomic##bits##_store(volatile type *a, type v, int mo) { Atom t(a, mo); t.rel(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
extern "C" type __tsan_atomic##bits##_exchange(volatile type *a, type v, int mo) { Atom t(a, mo); t.rel(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
extern "C" type __tsan_atomic##bits##_fetch_add(volatile type *a, type v, int mo) { Atom t(a, mo); t.rel(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
extern "C" type __tsan_atomic##bits##_fetch_sub(volatile type *a, type v, int mo) { Atom t(a, mo); t.rel(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
extern "C" type __tsan_atomic##bits##_fetch_and(volatile type *a, type v, int mo) { Atom t(a, mo); t.rel(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
extern "C" type __tsan_atomic##bits##_fetch_or(volatile type *a, type v, int mo) { Atom t(a, mo); t.rel(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
extern "C" type __tsan_atomic##bits##_fetch_xor(volatile type *a, type v, int mo) { Atom t(a, mo); t.rel(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
extern "C" int __tsan_atomic##bits##_compare_exchange_strong(volatile type *a, type *e, type v, int mo, int) { Atom t(a, mo); t.rel(); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
extern "C" int __tsan_atomic##bits##_compare_exchange_weak(volatile type *a, type *e, type v, int mo, int) { Atom t(a, mo); t.rel(); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
extern "C" type __tsan_atomic##bits##_compare_exchange_val(volatile type *a, type e, type v, int mo, int) { Atom t(a, mo); t.rel(); __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned) ATOM(64, u64)
extern "C" void __tsan_atomic_thread_fence(int) {}
extern "C" void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- C functions that touch memory or hidden state
#define W_(ret, name, args) extern "C" ret __real_##name args; extern "C" ret __wrap_##name args
W_(void *, memcpy, (void *d, const void *s, size_t n)) { access(s, n, false, PC); access(d, n, true, PC); return __real_memcpy(d, s, n); }
W_(void *, memmove, (void *d, const void *s, size_t n)) { access(s, n, false, PC); access(d, n, true, PC); return __real_memmove(d, s, n); }
W_(void *, memset, (void *d, int c, size_t n)) { access(d, n, true, PC); return __real_memset(d, c, n); }
W_(int, memcmp, (const void *a, const void *b, size_t n)) { access(a, n, false, PC); access(b, n, false, PC); return __real_memcmp(a, b, n); }
W_(void *, memchr, (const void *a, int c, size_t n)) { access(a, n, false, PC); return __real_memchr(a, c, n); }
W_(size_t, strlen, (const char *s)) { size_t n = __real_strlen(s); access(s, n + 1, false, PC); return n; }
W_(int, strcmp, (const char *a, const char *b)) { access(a, 1, false, PC); access(b, 1, false, PC); return __real_strcmp(a, b); }
W_(int, strncmp, (const char *a, const char *b, size_t n)) { access(a, 1, false, PC); access(b, 1, false, PC); return __real_strncmp(a, b, n); }
W_(char *, strcpy, (char *d, const char *s)) { size_t n = __real_strlen(s) + 1; access(s, n, false, PC); access(d, n, true, PC); return __real_strcpy(d, s); }
W_(char *, strncpy, (char *d, const char *s, size_t n)) { access(s, 1, false, PC); access(d, n, true, PC); return __real_strncpy(d, s, n); }
W_(char *, strcat, (char *d, const char *s)) { access(s, 1, false, PC); access(d, __real_strlen(d) + __real_strlen(s) + 1, true, PC); return __real_strcat(d, s); }
// Two threads converting through one handle disturb its shift state.
W_(size_t, iconv, (iconv_t c, char **i, size_t *il, char **o, size_t *ol)) {
    char *ip = i ? *i : nullptr, *op = o ? *o : nullptr;
    size_t in = il ? *il : 0, on = ol ? *ol : 0;
    if (c != (iconv_t)-1) access((void *)((u64)c & ~7ULL), 8, true, PC);
    size_t r = __real_iconv(c, i, il, o, ol);
    if (ip && il) access(ip, in - *il, false, PC);
    if (op && ol) access(op, on - *ol, true, PC);
    return r;
}
// Functions with one hidden static state.
static char hidden[16][8];
W_(char *, strtok, (char *s, const char *d)) { access(hidden[0], 8, true, PC); return __real_strtok(s, d); }
W_(char *, setlocale, (int c, const char *l)) { access(hidden[1], 8, l != nullptr, PC); return __real_setlocale(c, l); }
W_(struct tm *, localtime, (const time_t *t)) { access(hidden[2], 8, true, PC); return __real_localtime(t); }
W_(struct tm *, gmtime, (const time_t *t)) { access(hidden[2], 8, true, PC); return __real_gmtime(t); }
W_(char *, ctime, (const time_t *t)) { access(hidden[2], 8, true, PC); return __real_ctime(t); }
W_(int, setenv, (const char *n, const char *v, int o)) { access(hidden[3], 8, true, PC); return __real_setenv(n, v, o); }
W_(int, putenv, (char *n)) { access(hidden[3], 8, true, PC); return __real_putenv(n); }
W_(int, unsetenv, (const char *n)) { access(hidden[3], 8, true, PC); return __real_unsetenv(n); }
W_(char *, getenv, (const char *n)) { access(hidden[3], 8, false, PC); return __real_getenv(n); }
W_(int, mbtowc, (wchar_t *w, const char *s, size_t n)) { access(hidden[4], 8, true, PC); return __real_mbtowc(w, s, n); }
W_(int, wctomb, (char *s, wchar_t w)) { access(hidden[4], 8, true, PC); return __real_wctomb(s, w); }
W_(int, mblen, (const char *s, size_t n)) { access(hidden[4], 8, true, PC); return __real_mblen(s, n); }
W_(size_t, mbstowcs, (wchar_t *d, const char *s, size_t n)) { if (d) access(d, n, true, PC); return __real_mbstowcs(d, s, n); }
