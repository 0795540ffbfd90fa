// A scenario: environment + ordered list of API calls by simulated clients + explicitly addressed faults.
#ifndef SIM_SCENARIO_H
#define SIM_SCENARIO_H
#include "core.h"
#include "seams.h"

struct Op {
    std::string name;
    std::vector<long long> a;
    std::vector<std::string> s;
    std::vector<double> f;
    std::vector<Fault> faults;
    int client = 0;
    Op() {}
    Op(const char *n) : name(n) {}
    Op &A(long long v) { a.push_back(v); return *this; }
    Op &S(const std::string &v) { s.push_back(v); return *this; }
    Op &F(double v) { f.push_back(v); return *this; }
    Op &C(int c) { client = c; return *this; }
    long long arg(size_t i, long long d = 0) const { return i < a.size() ? a[i] : d; }
    const std::string &str(size_t i) const { static const std::string e; return i < s.size() ? s[i] : e; }
    double dbl(size_t i, double d = 1.0) const { return i < f.size() ? f[i] : d; }
    std::string text() const;
    bool parse(const std::string &line);
};

struct Scenario {
    std::string prop;
    std::string variant;
    u64 seed = 0; long run = 0;
    int mode = 0;                 // evaluation mode chosen by the generator for this property
    Env env, env2;                // env2: second environment for environment-independence twins
    std::vector<Op> ops;
    std::vector<u32> schedule;    // C10: switch points
    std::string dataFile[2];      // accent tables for this run (empty: the repository's)
    std::string digest;           // C11: cross-build digest expected (informative)
    std::string text() const;
    bool parse(const std::vector<std::string> &lines, size_t &pos);
};

std::vector<Scenario> loadScenarios(const std::string &path);
#endif
