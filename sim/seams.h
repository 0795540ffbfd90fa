// The seams: everything through which the environment reaches the library. Defined in the simulator's
// executable, so that the linker and the dynamic loader bind the library's calls to them.
#ifndef SIM_SEAMS_H
#define SIM_SEAMS_H
#include "core.h"

enum SeamKind {
    S_NEW, S_NEWNT, S_MALLOC, S_TMPFILE, S_FTRUNC, S_MMAP, S_MUNMAP, S_MADVISE, S_ICONV, S_OPEN, S_READ,
    S_STAT, S_CLOCK, S_SLEEP, S_RAND, NSEAM
};
extern const char *const seamNames[NSEAM];
int seamByName(const std::string &s);

enum FaultMode { FM_ONCE = 0, FM_STICKY = 1, FM_SHORT = 2, FM_EINTR = 3 };

struct Fault {
    int kind; u32 nth; int mode; int err;
    bool operator==(const Fault &o) const { return kind == o.kind && nth == o.nth && mode == o.mode && err == o.err; }
};

// Environment of a run: everything the library may observe but must not depend on.
struct Env {
    u64 garbage = 1;      // content of fresh memory and of dead stack
    u64 layout = 1;       // placement of mappings and heap blocks
    u64 clock = 1;        // seed of the clock script
    long long clock0 = 1600000000LL;
    int clockMode = 0;    // 0 smooth, 1 jumps forward, 2 jumps both ways, 3 frozen
    u64 quota = 0;        // bytes of temporary storage, 0 = unlimited
    int madviseFail = 0;  // percent
    int ntFail = 0;       // percent of nothrow allocations that fail (masked by the standard library)
    int shortRead = 0;    // percent of file reads that are short
    int eintr = 0;        // percent of file reads interrupted
    u64 rnd = 1;          // rand() family
    int err0 = 0;         // errno as the program left it before each call
    int fd0 = 0;          // 1: the program has closed its standard input, so descriptor 0 is the first to be handed out
    int loc = 0;          // 1: the program has selected the UTF-8 locale, 0: the C locale
    int reuse = 0;        // 1: freed blocks are handed out again at once, last freed first
    std::string str() const;
    bool parse(const std::string &s);
};

void envBegin(const Env &e);      // start of an execution: resets ledger sequence, clock, regions, disk
void envEnd();                    // releases what the library leaked (mappings, descriptors) and forgets it
void opBegin(const std::vector<Fault> *faults); // resets per-op call counters and arms faults
void opEnd();
void setSpaceQuota(u64 q);

struct OpCounts { u32 n[NSEAM]; u32 fired[NSEAM]; u32 firedTotal; u32 firedHard; };
extern __thread OpCounts g_op;             // of the current/last op
extern u64 g_fired[NSEAM];        // totals over the process
extern u64 g_masked[NSEAM];       // environment-level masked faults that fired
extern u64 g_calls[NSEAM];
extern u64 g_simTimeUs;           // simulated time covered (absolute clock movement)
extern u64 g_relocations;         // mappings placed
extern u64 g_reused;              // blocks handed out again at an address used before
extern u64 g_peakSpace;           // most temporary storage in use since last set
u64 seamLogHash();                // hash of every seam event of this execution

struct Ledger { u64 blocks, bytes, fds, maps, iconvs, files; };
Ledger ledger();
std::string ledgerStr(const Ledger &l);
u64 tmpSpaceUsed();

extern __thread int g_inlib;
struct LibScope { int saved; LibScope() : saved(g_inlib) { g_inlib = 1; } ~LibScope() { g_inlib = saved; } };
struct HostScope { int saved; HostScope() : saved(g_inlib) { g_inlib = 0; } ~HostScope() { g_inlib = saved; } };
void dirtyStack();

// Step counting (trace-pc) and coverage.
extern u64 g_steps, g_stepLimit;
extern unsigned char g_cov[1 << 16];
void stepsReset();
void warmUp();
[[noreturn]] void simDie(const char *cls, const char *msg); // hang etc.: ends the process with a class

// Shared page through which a child process tells its parent how far it got.
struct Shared {
    volatile int phase;            // see eval.h
    volatile long run;
    volatile int op;
    volatile int hasViolation;
    char cls[160];
    char msg[2000];
    volatile int died;             // simDie was used
    volatile int lastFault;        // seam of the last failing fault in the current call, -1: none
};
extern Shared *g_sh;
#endif
