#include "seams.h"
#include "tsanrt.h"
#include <cerrno>
#include <clocale>
#include <cstdarg>
#include <ctime>
#include <dlfcn.h>
#include <fcntl.h>
#include <iconv.h>
#include <new>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include <fstream>
#include <locale>
#include <stdexcept>
#include <unicode/uchar.h>
#include "ColumbusCore.hh"
#include "Word.hh"

const char *const seamNames[NSEAM] = {"new", "new_nothrow", "malloc", "tmpfile", "ftruncate", "mmap", "munmap",
    "madvise", "iconv_open", "open", "read", "stat", "clock", "sleep", "rand"};
int seamByName(const std::string &s) {
    for (int i = 0; i < NSEAM; i++) if (s == seamNames[i]) return i;
    return -1;
}

__thread int g_inlib = 0;
__thread OpCounts g_op;
u64 g_fired[NSEAM], g_masked[NSEAM], g_calls[NSEAM];
u64 g_simTimeUs, g_relocations, g_peakSpace;
u64 g_steps, g_stepLimit = ~0ULL;
unsigned char g_cov[1 << 16];
Shared *g_sh;

static Env env;
static __thread const std::vector<Fault> *armed;
static __thread bool sticky[NSEAM];
static __thread int stickyErr[NSEAM];
static u64 evHash;
static u64 seqNew, seqEnvDraw;
static bool active; // between envBegin and envEnd

std::string Env::str() const {
    return fmt("garbage=%llu layout=%llu clock=%llu clock0=%lld clockmode=%d quota=%llu madvise=%d nt=%d short=%d eintr=%d rnd=%llu reuse=%d err0=%d fd0=%d loc=%d",
        (unsigned long long)garbage, (unsigned long long)layout, (unsigned long long)clock, clock0, clockMode,
        (unsigned long long)quota, madviseFail, ntFail, shortRead, eintr, (unsigned long long)rnd, reuse, err0, fd0, loc);
}
bool Env::parse(const std::string &s) {
    for (auto &kv : splitc(s, ' ')) {
        auto eq = kv.find('=');
        if (eq == std::string::npos) continue;
        std::string k = kv.substr(0, eq), v = kv.substr(eq + 1);
        if (k == "garbage") garbage = strtoull(v.c_str(), 0, 10);
        else if (k == "layout") layout = strtoull(v.c_str(), 0, 10);
        else if (k == "clock") clock = strtoull(v.c_str(), 0, 10);
        else if (k == "clock0") clock0 = strtoll(v.c_str(), 0, 10);
        else if (k == "clockmode") clockMode = atoi(v.c_str());
        else if (k == "quota") quota = strtoull(v.c_str(), 0, 10);
        else if (k == "madvise") madviseFail = atoi(v.c_str());
        else if (k == "nt") ntFail = atoi(v.c_str());
        else if (k == "short") shortRead = atoi(v.c_str());
        else if (k == "eintr") eintr = atoi(v.c_str());
        else if (k == "err0") err0 = atoi(v.c_str());
        else if (k == "fd0") fd0 = atoi(v.c_str());
        else if (k == "loc") loc = atoi(v.c_str());
        else if (k == "reuse") reuse = atoi(v.c_str());
        else if (k == "rnd") rnd = strtoull(v.c_str(), 0, 10);
    }
    return true;
}

static void logEvent(int kind, u64 a) { evHash = mix64(evHash ^ ((u64)kind << 56) ^ a); }
u64 seamLogHash() { return evHash; }
static bool envDraw(int pctg, u64 salt) {
    if (!pctg) return false;
    return mix64(env.garbage * 31 + env.layout * 17 + salt * 1000003 + ++seqEnvDraw) % 100 < (u64)pctg;
}

// Counts the call and says whether an armed fault hits it (returns the mode+1) ; err receives errno.
static int hit(int kind, int *err) {
    schedPoint();
    g_calls[kind]++;
    u32 n = ++g_op.n[kind];
    logEvent(kind, n);
    if (sticky[kind]) {
        *err = stickyErr[kind];
        g_fired[kind]++; g_op.fired[kind]++; g_op.firedTotal++; g_op.firedHard++;
        if (g_sh) g_sh->lastFault = kind;
        return FM_ONCE + 1;
    }
    if (armed)
        for (auto &f : *armed)
            if (f.kind == kind && f.nth == n) {
                *err = f.err;
                g_fired[kind]++; g_op.fired[kind]++; g_op.firedTotal++;
                if (f.mode == FM_ONCE || f.mode == FM_STICKY) { g_op.firedHard++; if (g_sh) g_sh->lastFault = kind; }
                if (f.mode == FM_STICKY) { sticky[kind] = true; stickyErr[kind] = f.err; return FM_ONCE + 1; }
                return f.mode + 1;
            }
    return 0;
}

void opBegin(const std::vector<Fault> *f) {
    memset(&g_op, 0, sizeof g_op);
    memset(sticky, 0, sizeof sticky);
    armed = f && !f->empty() ? f : nullptr;
    g_steps = 0;
    if (g_sh) g_sh->lastFault = -1;
    if (active) errno = env.err0;
}
void opEnd() { armed = nullptr; memset(sticky, 0, sizeof sticky); }

// ---------------------------------------------------------------- ledger of memory blocks
struct Blk { void *p; u64 size; short kind; short pad; }; // pad: bytes between the real allocation and p
static Blk *tab; static u64 tabCap, tabUsed, tabLive, tabBytes;
static const int TOMB = -1;
extern "C" void *__real_malloc(size_t);
extern "C" void __real_free(void *);
extern "C" void *__real_calloc(size_t, size_t);
extern "C" void *__real_realloc(void *, size_t);

static void tabInsert(void *p, u64 size, int kind, int pad = 0);
static void tabGrow() {
    Blk *o = tab; u64 oc = tabCap;
    tabCap = tabCap ? tabCap * 2 : 1 << 14;
    if (o && tabLive * 4 < oc) tabCap = oc; // only tombstones: rehash in place size
    tab = (Blk *)__real_calloc(tabCap, sizeof(Blk));
    tabUsed = tabLive = 0; u64 bytes = tabBytes; 
    for (u64 i = 0; i < oc; i++) if (o[i].p && o[i].kind != TOMB) tabInsert(o[i].p, o[i].size, o[i].kind, o[i].pad);
    tabBytes = bytes;
    __real_free(o);
}
static void tabInsert(void *p, u64 size, int kind, int pad) {
    if ((tabUsed + 1) * 2 > tabCap) tabGrow();
    u64 i = mix64((u64)p) & (tabCap - 1);
    while (tab[i].p && tab[i].kind != TOMB) i = (i + 1) & (tabCap - 1);
    if (!tab[i].p) tabUsed++;
    tab[i].p = p; tab[i].size = size; tab[i].kind = (short)kind; tab[i].pad = (short)pad;
    tabLive++; tabBytes += size;
}
static Blk *tabFind(void *p) {
    if (!tabCap) return nullptr;
    u64 i = mix64((u64)p) & (tabCap - 1);
    while (tab[i].p) { if (tab[i].p == p && tab[i].kind != TOMB) return &tab[i]; i = (i + 1) & (tabCap - 1); }
    return nullptr;
}
static bool tabErase(void *p) {
    Blk *b = tabFind(p);
    if (!b) return false;
    tabLive--; tabBytes -= b->size; b->kind = TOMB;
    return true;
}

// Address reuse: with env.reuse the block freed last is handed out first for the next request of its size,
// as real allocators do and the address sanitizer's quarantine never does. A cached block is poisoned.
extern "C" void __asan_poison_memory_region(void const volatile *, size_t) __attribute__((weak));
extern "C" void __asan_unpoison_memory_region(void const volatile *, size_t) __attribute__((weak));
static std::map<u64, std::vector<std::pair<void *, int>>> *cache;
static std::set<void *> *cached;
static std::map<void *, Blk> *orphans; // padded blocks that outlived their environment
static u64 cachedBytes;
u64 g_reused;
// The heap aligns large blocks always alike; a pad of 0, 16, 32 or 48 bytes moves them relative to cache lines and pages.
static void *padMalloc(size_t n, int *pad) {
    *pad = active && env.layout ? 16 * (int)(mix64(env.layout * 31 + seqNew) & 3) : 0;
    char *b = (char *)__real_malloc((n ? n : 1) + (size_t)*pad);
    if (!b) return nullptr;
    if (*pad && __asan_poison_memory_region) __asan_poison_memory_region(b, (size_t)*pad);
    return b + *pad;
}
static void padFree(void *p, int pad) {
    char *b = (char *)p - pad;
    if (pad && __asan_unpoison_memory_region) __asan_unpoison_memory_region(b, (size_t)pad);
    __real_free(b);
}
static void *cacheTake(u64 n, int *pad) {
    if (!env.reuse || !cache || !active) return nullptr;
    auto it = cache->find(n);
    if (it == cache->end() || it->second.empty()) return nullptr;
    HostScope h;
    void *p = it->second.back().first;
    *pad = it->second.back().second;
    it->second.pop_back();
    cached->erase(p);
    cachedBytes -= n;
    if (__asan_unpoison_memory_region) __asan_unpoison_memory_region(p, n);
    g_reused++;
    return p;
}
static void cacheFlush() {
    if (!cache) return;
    HostScope h;
    for (auto &e : *cache) for (auto &p : e.second) {
        if (__asan_unpoison_memory_region) __asan_unpoison_memory_region(p.first, e.first ? e.first : 1);
        padFree(p.first, p.second);
    }
    cache->clear(); cached->clear(); cachedBytes = 0;
}
// Releases a block, whoever owned it.
static void dropBlock(void *p) {
    if (g_inlib) schedPoint();
    Blk *b = tabLive ? tabFind(p) : nullptr;
    if (!b) {
        if (cached && cached->count(p)) simDie("crash:double-free", "a memory block was released twice");
        auto o = orphans ? orphans->find(p) : std::map<void *, Blk>::iterator();
        if (orphans && o != orphans->end()) { HostScope h; int pad = o->second.pad; orphans->erase(o); padFree(p, pad); return; }
        __real_free(p);
        return;
    }
    u64 n = b->size;
    shadowFree(p, n);
    b = tabFind(p); // releasing is a point at which other threads may have run
    if (!b) simDie("crash:double-free", "a memory block was released twice");
    int pad = b->pad;
    tabErase(p);
    if (!env.reuse || !active || !n || cachedBytes + n > (64u << 20)) { padFree(p, pad); return; }
    HostScope h;
    if (!cache) { cache = new std::map<u64, std::vector<std::pair<void *, int>>>; cached = new std::set<void *>; }
    if (__asan_poison_memory_region) __asan_poison_memory_region(p, n);
    (*cache)[n].push_back(std::make_pair(p, pad));
    cached->insert(p);
    cachedBytes += n;
}

static void *fillers[4096]; static int nFillers;

static void fillGarbage(void *p, size_t n) {
    if (!n) return;
    HostScope h; // not the library's own access to the block
    u64 z = mix64(env.garbage * 0x9e37 + ++seqNew);
    unsigned char *c = (unsigned char *)p;
    if (n > (1u << 17)) { memset(c, (int)(z & 0xff) | 1, n); return; }
    while (n >= 8) { memcpy(c, &z, 8); c += 8; n -= 8; z = z * 6364136223846793005ULL + 1442695040888963407ULL; }
    memcpy(c, &z, n);
}

static void *libNew(size_t n, bool nothrow) {
    int err = 0, h;
    if (nothrow) {
        h = hit(S_NEWNT, &err);
        if (h || envDraw(env.ntFail, 77)) { if (!h) g_masked[S_NEWNT]++; return nullptr; }
    } else {
        h = hit(S_NEW, &err);
        if (h) throw std::bad_alloc();
    }
    if (n > (1ULL << 36)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    if (active && (mix64(env.layout + seqNew) & 3) == 0 && nFillers < 4096)
        fillers[nFillers++] = __real_malloc(16 + mix64(env.layout ^ seqNew) % (n < 4096 ? n + 32 : 64));
    int pad;
    void *p = n ? cacheTake(n, &pad) : nullptr;
    if (!p) p = padMalloc(n, &pad);
    if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    fillGarbage(p, n);
    tabInsert(p, n, 1, pad);
    shadowAlloc(p, n);
    return p;
}
static void *hostNew(size_t n) {
    void *p = __real_malloc(n ? n : 1);
    if (p) shadowAlloc(p, n);
    return p;
}
void *operator new(size_t n) {
    if (g_inlib) return libNew(n, false);
    void *p = hostNew(n);
    if (!p) throw std::bad_alloc();
    return p;
}
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept {
    if (g_inlib) return libNew(n, true);
    return hostNew(n);
}
void *operator new[](size_t n, const std::nothrow_t &t) noexcept { return operator new(n, t); }
void operator delete(void *p) noexcept { if (p) dropBlock(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { operator delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { operator delete(p); }

extern "C" void *__wrap_malloc(size_t n) {
    if (!g_inlib) return hostNew(n);
    int err = 0;
    if (hit(S_MALLOC, &err)) { errno = ENOMEM; return nullptr; }
    int pad;
    void *p = n ? cacheTake(n, &pad) : nullptr;
    if (!p) p = padMalloc(n, &pad);
    if (p) { fillGarbage(p, n); tabInsert(p, n, 2, pad); shadowAlloc(p, n); }
    return p;
}
extern "C" void *__wrap_calloc(size_t a, size_t b) {
    if (!g_inlib) { void *p = __real_calloc(a, b); if (p) shadowAlloc(p, a * b); return p; }
    int err = 0;
    if (hit(S_MALLOC, &err)) { errno = ENOMEM; return nullptr; }
    void *p = __real_calloc(a, b);
    if (p) { tabInsert(p, a * b, 2); shadowAlloc(p, a * b); }
    return p;
}
extern "C" void *__wrap_realloc(void *o, size_t n) {
    if (!g_inlib) {
        Blk *b = o && tabLive ? tabFind(o) : nullptr;
        void *p;
        if (b) { u64 os = b->size; p = __real_malloc(n ? n : 1); if (p) { memcpy(p, o, os < n ? os : n); dropBlock(o); } }
        else p = __real_realloc(o, n);
        if (p) shadowAlloc(p, n);
        return p;
    }
    int err = 0;
    if (hit(S_MALLOC, &err)) { errno = ENOMEM; return nullptr; }
    Blk *b = o ? tabFind(o) : nullptr;
    u64 os = b ? b->size : 0;
    // Always moves, so that stale pointers into the old block are caught.
    void *p = __real_malloc(n ? n : 1);
    if (!p) return nullptr;
    fillGarbage(p, n);
    shadowAlloc(p, n);
    if (o && b) { memcpy(p, o, os < n ? os : n); dropBlock(o); }
    else if (o && orphans && orphans->count(o)) { u64 z = (*orphans)[o].size; memcpy(p, o, z < n ? z : n); dropBlock(o); }
    else if (o) { void *q = __real_realloc(o, n); __real_free(p); p = q; }
    tabInsert(p, n, 2);
    return p;
}
extern "C" void __wrap_free(void *p) { if (p) dropBlock(p); }
extern "C" char *__wrap_strdup(const char *s) {
    size_t n = strlen(s) + 1;
    char *p = (char *)__wrap_malloc(n);
    if (p) memcpy(p, s, n);
    return p;
}
extern "C" char *__wrap_strndup(const char *s, size_t m) {
    size_t n = strnlen(s, m);
    char *p = (char *)__wrap_malloc(n + 1);
    if (p) { memcpy(p, s, n); p[n] = 0; }
    return p;
}

// ---------------------------------------------------------------- temporary files and mappings
struct Tmp { FILE *f; int fd; u64 size; bool open; int maps; bool counted; };
struct Map { char *a; u64 len; int tmp; bool live; bool refused; }; // refused: an injected fault kept it from being released
static std::vector<Tmp> *tmps; static std::vector<Map> *maps;
static u64 regionBase, regionNext;
static const u64 REGION_SPAN = 1ULL << 38;
static u64 nIconv;
static std::set<void *> *iconvs;
static std::set<FILE *> *libFiles; static std::set<int> *libFds;

u64 tmpSpaceUsed() {
    u64 s = 0;
    for (auto &t : *tmps) if (t.open || t.maps > 0) s += t.size;
    return s;
}
void setSpaceQuota(u64 q) { env.quota = q; }

static long rawmmap(void *a, size_t l, int pr, int fl, int fd, off_t o) { return syscall(SYS_mmap, a, l, pr, fl, fd, o); }

static u64 pageUp(u64 n) { return (n + 4095) & ~4095ULL; }

void resetClock();
void envBegin(const Env &e) {
    resetClock();
    if (!tmps) { tmps = new std::vector<Tmp>; maps = new std::vector<Map>; iconvs = new std::set<void *>;
        libFiles = new std::set<FILE *>; libFds = new std::set<int>; }
    env = e;
    evHash = 0x1234; seqNew = 0; seqEnvDraw = 0;
    regionBase = 0x200000000000ULL + (mix64(e.layout) % (1u << 10)) * (1ULL << 21);
    regionNext = regionBase;
    // Descriptor 0: open and harmless, or closed.
    bool open0 = fcntl(0, F_GETFD) != -1;
    if (env.fd0 && open0) syscall(SYS_close, 0);
    else if (!env.fd0 && !open0) { int fd = open("/dev/null", O_RDONLY); if (fd > 0) { syscall(SYS_dup2, fd, 0); syscall(SYS_close, fd); } }
#ifndef SIM_PYTHON
    setlocale(LC_ALL, env.loc ? "C.UTF-8" : "C");
#endif
    active = true;
    opBegin(nullptr);
}
static int mapSerial;
void envEnd() {
    opEnd();
    // Forget what is left: the caller has read the ledger already.
    for (auto &m : *maps) {
        if (__asan_unpoison_memory_region) __asan_unpoison_memory_region(m.a, pageUp(m.len) + 4096);
        syscall(SYS_munmap, m.a, pageUp(m.len) + 4096);
    }
    maps->clear();
    for (auto &t : *tmps) if (t.open) { int s = g_inlib; g_inlib = 0; t.open = false; FILE *f = t.f; fclose(f); g_inlib = s; }
    tmps->clear();
    cacheFlush();
    // Leaked blocks stay allocated, and may still be released.
    for (u64 i = 0; i < tabCap; i++) if (tab[i].p && tab[i].kind != TOMB && tab[i].pad) {
        HostScope h;
        if (!orphans) orphans = new std::map<void *, Blk>;
        (*orphans)[tab[i].p] = tab[i];
    }
    tabLive = 0; tabBytes = 0;
    if (tabCap) { memset(tab, 0, tabCap * sizeof(Blk)); tabUsed = 0; }
    for (int i = 0; i < nFillers; i++) __real_free(fillers[i]);
    nFillers = 0;
    nIconv = 0; iconvs->clear(); libFiles->clear(); libFds->clear();
    active = false;
}

Ledger ledger() {
    Ledger l;
    l.blocks = tabLive; l.bytes = tabBytes; l.fds = l.maps = 0;
    for (auto &t : *tmps) if (t.open) l.fds++;
    for (auto &m : *maps) if (m.live && !m.refused) l.maps++;
    l.iconvs = iconvs->size();
    l.files = libFiles->size() + libFds->size();
    return l;
}
std::string ledgerStr(const Ledger &l) {
    return fmt("%llu memory blocks (%llu bytes), %llu temporary files, %llu mappings, %llu conversion handles, %llu data files",
        (unsigned long long)l.blocks, (unsigned long long)l.bytes, (unsigned long long)l.fds, (unsigned long long)l.maps,
        (unsigned long long)l.iconvs, (unsigned long long)l.files);
}

extern "C" FILE *tmpfile(void) {
    if (g_inlib) {
        int err = 0;
        if (hit(S_TMPFILE, &err)) { errno = err ? err : EMFILE; return nullptr; }
    }
    int fd = (int)syscall(SYS_memfd_create, "simtmp", 0);
    if (fd < 0) return nullptr;
    FILE *f = fdopen(fd, "w+");
    if (g_inlib && f) { HostScope h; tmps->push_back(Tmp{f, fd, 0, true, 0, true}); }
    return f;
}
extern "C" FILE *tmpfile64(void) { return tmpfile(); }

static int tmpByFd(int fd) {
    for (int i = (int)tmps->size() - 1; i >= 0; i--) if ((*tmps)[i].open && (*tmps)[i].fd == fd) return i;
    return -1;
}
extern "C" int ftruncate(int fd, off_t len) noexcept {
    if (g_inlib) {
        int err = 0;
        if (hit(S_FTRUNC, &err)) { errno = err ? err : ENOSPC; return -1; }
        int t = tmpByFd(fd);
        if (t >= 0) {
            u64 used = tmpSpaceUsed() - (*tmps)[t].size;
            if (env.quota && used + (u64)len > env.quota) {
                g_fired[S_FTRUNC]++; g_op.fired[S_FTRUNC]++; g_op.firedTotal++; g_op.firedHard++;
                logEvent(S_FTRUNC, 999);
                errno = ENOSPC;
                return -1;
            }
            int r = (int)syscall(SYS_ftruncate, fd, len);
            if (r == 0) (*tmps)[t].size = (u64)len;
            u64 now = tmpSpaceUsed();
            if (now > g_peakSpace) g_peakSpace = now;
            return r;
        }
    }
    return (int)syscall(SYS_ftruncate, fd, len);
}
extern "C" int ftruncate64(int fd, off64_t len) noexcept { return ftruncate(fd, len); }
extern "C" int posix_fallocate(int fd, off_t off, off_t len) {
    if (g_inlib) {
        struct stat st;
        if (syscall(SYS_fstat, fd, &st) == 0 && st.st_size >= off + len) return 0;
        return ftruncate(fd, off + len) == 0 ? 0 : errno;
    }
    return syscall(SYS_fallocate, fd, 0, off, len) == 0 ? 0 : errno;
}

extern "C" void *mmap(void *a, size_t len, int prot, int flags, int fd, off_t off) noexcept {
    if (!g_inlib || !active) return (void *)rawmmap(a, len, prot, flags, fd, off);
    HostScope hs;
    int err = 0;
    if (hit(S_MMAP, &err)) { errno = err ? err : ENOMEM; return MAP_FAILED; }
    if (flags & MAP_FIXED) return (void *)rawmmap(a, len, prot, flags, fd, off);
    u64 l = pageUp(len);
    u64 gap = 1 + mix64(env.layout * 3 + ++mapSerial) % 64;
    u64 addr = regionNext + gap * 4096;
    if (addr + l + 8192 > regionBase + REGION_SPAN) { errno = ENOMEM; return MAP_FAILED; }
    long r = rawmmap((void *)addr, l, prot, flags | MAP_FIXED_NOREPLACE, fd, off);
    if (r == -1 || (u64)r != addr) { if (r != -1) syscall(SYS_munmap, r, l); errno = ENOMEM; return MAP_FAILED; }
    rawmmap((void *)(addr + l), 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    regionNext = addr + l + 4096;
    g_relocations++;
    int t = fd >= 0 ? tmpByFd(fd) : -1;
    if (t >= 0) (*tmps)[t].maps++;
    maps->push_back(Map{(char *)addr, len, t, true, false});
    if (__asan_poison_memory_region && len < l) __asan_poison_memory_region((char *)addr + len, l - len);
    logEvent(S_MMAP, 0x8000 + len);
    shadowAlloc((void *)addr, l < (8u << 20) ? l : 0);
    return (void *)addr;
}
extern "C" void *mmap64(void *a, size_t len, int prot, int flags, int fd, off64_t off) noexcept { return mmap(a, len, prot, flags, fd, off); }

static void retire(Map &m) {
    m.live = false;
    if (m.tmp >= 0) (*tmps)[m.tmp].maps--;
    rawmmap(m.a, pageUp(m.len), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
}
extern "C" int munmap(void *a, size_t len) noexcept {
    if (!g_inlib || !active) return (int)syscall(SYS_munmap, a, len);
    HostScope hs;
    int err = 0;
    if (hit(S_MUNMAP, &err)) {
        for (auto &m : *maps) if (m.live && m.a == a) m.refused = true;
        errno = err ? err : EINVAL;
        return -1;
    }
    for (auto &m : *maps)
        if (m.live && m.a == a && pageUp(m.len) == pageUp(len)) { retire(m); return 0; }
    if (a == MAP_FAILED || !a || ((u64)a & 4095)) { errno = EINVAL; return -1; }
    for (auto &m : *maps)
        if ((char *)a >= m.a && (char *)a < m.a + m.len) {
            if (!m.live) simDie("ledger:double-munmap", "a storage mapping was released twice");
            // Nothing of the library is mapped right behind it: that would be somebody else's.
            if (pageUp(len) > (u64)(m.a + pageUp(m.len) - (char *)a)) simDie("ledger:munmap-range", "more was unmapped than the storage mapping holds");
            // Partial unmapping: legal, keep it simple.
            return (int)syscall(SYS_munmap, a, len);
        }
    return (int)syscall(SYS_munmap, a, len);
}
extern "C" void *mremap(void *old, size_t olen, size_t nlen, int flags, ...) noexcept {
    if (!g_inlib || !active) {
        va_list ap; va_start(ap, flags);
        void *na = (flags & MREMAP_FIXED) ? va_arg(ap, void *) : nullptr;
        va_end(ap);
        return (void *)syscall(SYS_mremap, old, olen, nlen, flags, na);
    }
    HostScope hs;
    int err = 0;
    if (hit(S_MMAP, &err)) { errno = err ? err : ENOMEM; return MAP_FAILED; }
    for (size_t i = 0; i < maps->size(); i++)
        if ((*maps)[i].live && (*maps)[i].a == old) {
            Map m = (*maps)[i];
            u64 l = pageUp(nlen), addr = regionNext + (1 + mix64(env.layout * 3 + ++mapSerial) % 64) * 4096;
            if (__asan_unpoison_memory_region) __asan_unpoison_memory_region(m.a, pageUp(m.len));
            long r = syscall(SYS_mremap, old, pageUp(olen), l, MREMAP_MAYMOVE | MREMAP_FIXED, addr);
            if (r == -1) return MAP_FAILED;
            rawmmap(m.a, pageUp(m.len), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
            rawmmap((void *)(addr + l), 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
            regionNext = addr + l + 4096;
            (*maps)[i].live = false;
            maps->push_back(Map{(char *)addr, nlen, m.tmp, true, false});
            if (__asan_poison_memory_region && nlen < l) __asan_poison_memory_region((char *)addr + nlen, l - nlen);
            g_relocations++;
            return (void *)addr;
        }
    errno = EFAULT;
    return MAP_FAILED;
}
extern "C" int madvise(void *a, size_t len, int adv) noexcept {
    if (!g_inlib || !active) return (int)syscall(SYS_madvise, a, len, adv);
    int err = 0, h = hit(S_MADVISE, &err);
    if (h || envDraw(env.madviseFail, 5)) { if (!h) g_masked[S_MADVISE]++; errno = err ? err : EAGAIN; return -1; }
    return 0;
}

// ---------------------------------------------------------------- stdio used on data files
template <class F> static F next(const char *n) { return (F)dlsym(RTLD_NEXT, n); }

static FILE *fopenImpl(const char *n, const char *m) {
    static auto real = next<FILE *(*)(const char *, const char *)>("fopen");
    bool lib = g_inlib && active;
    if (lib) {
        int err = 0;
        if (hit(S_OPEN, &err)) { errno = err ? err : EMFILE; return nullptr; }
    }
    FILE *f = real(n, m);
    if (lib && f) { HostScope h; libFiles->insert(f); libFds->insert(fileno(f)); }
    return f;
}
extern "C" FILE *fopen(const char *n, const char *m) { return fopenImpl(n, m); }
extern "C" FILE *fopen64(const char *n, const char *m) { return fopenImpl(n, m); }
extern "C" int fclose(FILE *f) {
    static auto real = next<int (*)(FILE *)>("fclose");
    if (g_inlib && active) {
        HostScope h;
        for (auto &t : *tmps) if (t.open && t.f == f) { t.open = false; return real(f); }
        auto it = libFiles->find(f);
        if (it != libFiles->end()) { libFds->erase(fileno(f)); libFiles->erase(it); }
    }
    return real(f);
}
extern "C" ssize_t read(int fd, void *b, size_t n) {
    if (!g_inlib || !active) return syscall(SYS_read, fd, b, n);
    int err = 0, h = hit(S_READ, &err);
    if (h == FM_ONCE + 1) { errno = err ? err : EIO; return -1; }
    if (h == FM_EINTR + 1) { errno = EINTR; return -1; }
    if (!h && envDraw(env.eintr, 9)) { g_masked[S_READ]++; errno = EINTR; return -1; }
    if (n > 1 && (h == FM_SHORT + 1 || envDraw(env.shortRead, 11))) {
        if (!h) g_masked[S_READ]++;
        n = 1 + mix64(env.layout ^ ++seqEnvDraw) % (n < 700 ? n : 700);
    }
    return syscall(SYS_read, fd, b, n);
}
extern "C" int stat(const char *n, struct stat *st) noexcept {
    if (g_inlib && active) {
        int err = 0;
        if (hit(S_STAT, &err)) { errno = err ? err : EACCES; return -1; }
    }
    return (int)syscall(SYS_newfstatat, AT_FDCWD, n, st, 0);
}
extern "C" int stat64(const char *n, struct stat64 *st) noexcept { return stat(n, (struct stat *)st); }
extern "C" int access(const char *n, int mode) noexcept {
    if (g_inlib && active) {
        int err = 0;
        if (hit(S_STAT, &err)) { errno = err ? err : EACCES; return -1; }
    }
    return (int)syscall(SYS_faccessat, AT_FDCWD, n, mode);
}

// ---------------------------------------------------------------- iconv
extern "C" iconv_t iconv_open(const char *to, const char *from) {
    static auto real = next<iconv_t (*)(const char *, const char *)>("iconv_open");
    bool lib = g_inlib && active;
    if (lib) {
        int err = 0;
        if (hit(S_ICONV, &err)) { errno = err ? err : EMFILE; return (iconv_t)-1; }
    }
    HostScope h;
    iconv_t r = real(to, from);
    if (r != (iconv_t)-1) shadowAlloc((void *)((u64)r & ~7ULL), 8);
    if (lib && r != (iconv_t)-1) iconvs->insert(r);
    return r;
}
extern "C" int iconv_close(iconv_t c) {
    static auto real = next<int (*)(iconv_t)>("iconv_close");
    if (g_inlib && active) {
        HostScope h;
        if (c == (iconv_t)-1) { errno = EBADF; return -1; }
        if (!iconvs->erase(c)) simDie("ledger:double-iconv-close", "a conversion handle was released twice");
        return real(c);
    }
    return real(c);
}

// ---------------------------------------------------------------- clock, sleeping, randomness
static long long clockNow; static u64 clockSeq; static bool clockInit;
static long long tick() {
    if (!clockInit) { clockInit = true; }
    u64 r = mix64(env.clock * 7919 + ++clockSeq);
    long long d;
    switch (env.clockMode) {
    case 1: d = (r % 5 == 0) ? (long long)(r >> 8) % (3600LL * 1000000 * 48) : (long long)(r % 2000); break;
    case 2: d = (r % 4 == 0) ? (long long)((r >> 8) % (86400ULL * 1000000 * 400)) * ((r & 64) ? -1 : 1) : (long long)(r % 2000); break;
    case 3: d = 0; break;
    default: d = 1 + (long long)(r % 50); break;
    }
    clockNow += d;
    g_simTimeUs += (u64)(d < 0 ? -d : d);
    return env.clock0 * 1000000LL + clockNow;
}
extern "C" int gettimeofday(struct timeval *tv, void *tz) noexcept {
    if (!g_inlib || !active) { return (int)syscall(SYS_gettimeofday, tv, tz); }
    int err = 0; hit(S_CLOCK, &err);
    long long t = tick();
    tv->tv_sec = t / 1000000; tv->tv_usec = t % 1000000;
    if (tv->tv_usec < 0) { tv->tv_usec += 1000000; tv->tv_sec--; }
    return 0;
}
extern "C" int clock_gettime(clockid_t id, struct timespec *ts) noexcept {
    if (!g_inlib || !active) return (int)syscall(SYS_clock_gettime, id, ts);
    int err = 0; hit(S_CLOCK, &err);
    long long t = tick();
    ts->tv_sec = t / 1000000; ts->tv_nsec = (t % 1000000) * 1000;
    if (ts->tv_nsec < 0) { ts->tv_nsec += 1000000000; ts->tv_sec--; }
    return 0;
}
extern "C" time_t time(time_t *o) noexcept {
    struct timeval tv;
    gettimeofday(&tv, nullptr);
    if (o) *o = tv.tv_sec;
    return tv.tv_sec;
}
extern "C" clock_t clock(void) noexcept {
    struct timeval tv;
    gettimeofday(&tv, nullptr);
    return (clock_t)(tv.tv_sec * 1000000LL + tv.tv_usec);
}
extern "C" int nanosleep(const struct timespec *a, struct timespec *b) {
    if (!g_inlib || !active) return (int)syscall(SYS_nanosleep, a, b);
    int err = 0; hit(S_SLEEP, &err);
    clockNow += a->tv_sec * 1000000LL + a->tv_nsec / 1000;
    return 0;
}
extern "C" int usleep(useconds_t us) { struct timespec t = {us / 1000000, (long)(us % 1000000) * 1000}; return nanosleep(&t, nullptr); }
extern "C" unsigned sleep(unsigned s) { struct timespec t = {(time_t)s, 0}; nanosleep(&t, nullptr); return 0; }
static u64 rndSeq;
extern "C" int rand(void) noexcept { int e; if (g_inlib) hit(S_RAND, &e); return (int)(mix64(env.rnd * 13 + ++rndSeq) & 0x7fffffff); }
extern "C" long random(void) noexcept { return rand(); }
extern "C" long lrand48(void) noexcept { return rand(); }
extern "C" double drand48(void) noexcept { return rand() / 2147483648.0; }
extern "C" int rand_r(unsigned *) noexcept { return rand(); }
extern "C" void srand(unsigned) noexcept {}
extern "C" void srandom(unsigned) noexcept {}

// ---------------------------------------------------------------- steps, coverage, stack
extern "C" char __executable_start;
#ifndef SIM_THREADS
extern "C" void __sanitizer_cov_trace_pc(void) {
    u64 pc = (u64)__builtin_return_address(0) - (u64)&__executable_start;
    g_cov[(pc ^ (pc >> 16)) & 0xffff] = 1;
    if (++g_steps > g_stepLimit) simDie("hang", "step limit exceeded in one operation: no progress");
}
#endif
void stepsReset() { g_steps = 0; }

void __attribute__((noinline)) dirtyStack() {
    volatile u64 b[1024];
    u64 z = env.garbage * 0x2545F4914F6CDD1DULL + 99;
    for (int i = 0; i < 1024; i++) { b[i] = z; z = z * 6364136223846793005ULL + 1; }
    (void)b[17];
}

void simDie(const char *cls, const char *msg) {
    if (g_sh) {
        snprintf(g_sh->cls, sizeof g_sh->cls, "%s", cls);
        snprintf(g_sh->msg, sizeof g_sh->msg, "%s", msg);
        g_sh->died = 1;
    }
    _exit(77);
}

void resetClock() { clockNow = 0; clockSeq = 0; rndSeq = 0; mapSerial = 0; }

// Everything the C and C++ runtimes set up once per process happens here, before anything is counted.
void warmUp() {
    HostScope h;
    try {
        // The converters and case tables, but nothing of the library: what that does the first time is part of the runs.
        const char *enc[] = {"UTF-8", "UTF-16LE", "UTF-32LE", "UTF-16", "UTF-32", "WCHAR_T"};
        for (auto from : enc) for (auto to : enc) {
            iconv_t ic = iconv_open(to, from);
            if (ic == (iconv_t)-1) continue;
            char in[] = "\xc3\xa4\xf0\x9f\x98\x80\0", out[64], *ip = in, *op = out;
            size_t in1 = 8, out1 = sizeof out;
            iconv(ic, &ip, &in1, &op, &out1);
            iconv_close(ic);
        }
        std::string s(1, (char)('a' + (u_tolower(0x391) & 1)));
        std::ifstream in("/nonexistent/file");
        in.exceptions(std::ifstream::badbit);
        std::string l;
        std::getline(in, l);
        throw std::runtime_error(s);
    } catch (std::exception &) {}
    std::locale loc;
}
