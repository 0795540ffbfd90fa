// Evaluation of one scenario against one property.
#ifndef SIM_EVAL_H
#define SIM_EVAL_H
#include "scenario.h"
#include "world.h"

enum Phase { PH_IDLE = 0, PH_GEN = 1, PH_DRY = 2, PH_RUN = 3, PH_CHECK = 4 };

struct Stats {
    u64 runs, dryRuns, executions, ops, opsOk, opsExpectedErr, opsFaulted, opsFailedByFault, opsMasked, retries, checks, skippedRuns,
        searches, simTimeUs, relocations, reused, determinismChecked, determinismWarm, determinismBad, steps, switches, accesses;
    u64 fired[NSEAM], masked[NSEAM], calls[NSEAM];
    u64 maxDocs, maxOps;
    u64 quotaHits;
};
extern Stats *g_st;

struct Result {
    std::string cls, msg;
    u64 hash = 0;
    std::string digest;            // C11: what the history returned, for comparison between builds
    bool bad() const { return !cls.empty(); }
};

// Makes the run's scenario explicit: generates it and places faults according to a fault-free execution.
Scenario makeScenario(const std::string &prop, const std::string &variant, u64 seed, long run);
Result evaluate(const Scenario &sc);
// Does a crash of class cls in the given phase break this property?
bool crashCounts(const std::string &prop, int phase, const std::string &cls);
void phase(int p, int op = -1);
#endif
