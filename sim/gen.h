// Workload generators: one per property; every choice is drawn from the run's seed.
#ifndef SIM_GEN_H
#define SIM_GEN_H
#include "scenario.h"
#include "seams.h"

struct GenInfo {
    u32 seams = 0;        // bit mask of the seams whose calls may be failed
    double faultyOps = 0; // chance that an eligible call gets a fault
    double faultRuns = 0; // chance that a run has faults at all
    double extra = 0.15;  // chance of a second fault in the same call
    double sticky = 0.15;
    bool ballast = false; // C05: bound the temporary storage just below what some call needs
};
GenInfo genInfo(const std::string &prop);
Scenario generate(const std::string &prop, const std::string &variant, u64 seed, long run);
// Chooses faults for the calls of a scenario, given how often each call reached each seam in a fault-free execution.
void placeFaults(Scenario &sc, const std::vector<OpCounts> &counts, const std::vector<u64> &space, const std::vector<int> &status);
#endif
