// The simulated program: slots of real library objects, each with its model, and the interpreter of API calls.
#ifndef SIM_WORLD_H
#define SIM_WORLD_H
#include "scenario.h"
#include "model.h"
#include "ColumbusCore.hh"
#include "Word.hh"
#include "WordList.hh"
#include "Document.hh"
#include "Corpus.hh"
#include "Matcher.hh"
#include "MatchResults.hh"
#include "ErrorValues.hh"
#include "IndexWeights.hh"
#include "IndexMatches.hh"
#include "LevenshteinIndex.hh"
#include "WordStore.hh"
#include "ResultFilter.hh"
#include "SearchParameters.hh"
#include "ColumbusHelpers.hh"

using Columbus::Word; using Columbus::WordList; using Columbus::Document; using Columbus::Corpus;
using Columbus::Matcher; using Columbus::MatchResults; using Columbus::ErrorValues; using Columbus::IndexWeights;
using Columbus::IndexMatches; using Columbus::LevenshteinIndex; using Columbus::WordStore;
using Columbus::ResultFilter; using Columbus::SearchParameters;

enum Status { OK_, BADALLOC, INVARG, OOR, RTERR, STDEXC, NONSTD, SKIPPED };
extern const char *const statusNames[];

struct Outcome {
    int st = OK_;
    std::string what, data;                       // data: what the call returned (words, flags...)
    bool hasRes = false;
    std::vector<std::pair<u64, double>> res;      // results in reported order
    bool hard = false;                            // a failing fault hit this call
    int retries = 0;
    bool failed() const { return st != OK_ && st != SKIPPED; }
    std::string str() const;
};

enum Oracle {
    OR_W = 1, OR_TOK = 2, OR_R = 4, OR_E = 8, OR_S = 16, OR_X = 32, OR_DOCS = 64, OR_REL = 128, OR_ONLINE = 256,
    OR_FILTER = 512, OR_ACC = 1024, OR_BOUNDS = 2048, OR_CAPI = 4096, OR_PY = 8192, OR_COST = 16384
};

struct CHandle { void *h = nullptr; void *twin = nullptr; int taint = 0; std::string aux; };

struct World {
    u32 orc = 0;
    u64 textBytes = 0, largestText = 0; // bytes of text given to the calls so far, and to one call
    bool exactOrder = false;
    std::map<int, Word *> w; std::map<int, MW> mw;
    std::map<int, WordList *> l; std::map<int, ML> ml;
    std::map<int, Document *> d; std::map<int, MDoc> md;
    std::map<int, Corpus *> c; std::map<int, MCorpus> mc;
    std::map<int, MatchResults *> r; std::map<int, MRes> mr;
    std::map<int, ErrorValues *> e; std::map<int, MEV> me;
    std::map<int, WordStore *> s; std::map<int, std::map<MW, u32>> ms; std::map<int, std::set<MW>> smaybe;
    std::map<int, LevenshteinIndex *> x; std::map<int, MLev> mx;
    std::map<int, Matcher *> m; std::map<int, MMatcher> mm; std::map<int, std::vector<MCorpus>> pending;
    std::map<int, SearchParameters *> p; std::map<int, MParams> mp;
    std::map<int, CHandle> kw, kd, kc, km, kr;
    void *py = nullptr;                           // Python objects (variant VP)
    std::set<std::string> moved;                  // moved-from objects: may only be assigned to or destroyed
    std::vector<u32> letters;
    std::vector<std::string> probes;
    std::set<std::string> weightNames;            // field names whose weight is part of a matcher's content
    std::string data[2];                          // accent tables of this run (empty: the repository's own)
    std::string fileText(int f) const;
    std::string vcls, vmsg;                       // first violation

    World();
    ~World();
    Outcome exec(const Op &op, bool withFaults);
    void destroyAll();
    void violate(const std::string &cls, const std::string &msg);
    bool bad() const { return !vcls.empty(); }
    // Content of an object read back through the public interface, and the same from the model.
    std::vector<std::string> keys(const char *kinds) const;
    std::string realSnap(const std::string &key, bool ids = true);
    std::string modelSnap(const std::string &key);
    void verify(u32 mask, const Op *op = nullptr);
    std::map<std::string, std::string> snapshot(const char *kinds, bool ids = true);
    // Search results of a matcher for the probe queries, for before/after and twin comparisons.
    struct Probe { std::string what; int st; std::vector<std::pair<u64, double>> res; };
    std::vector<Probe> probeMatcher(int slot);
    std::string targetOf(const Op &op) const;     // key of the object the call may change ("" if none)
    MEV *modelEv(int slot); ErrorValues *realEv(int slot);
    int curOp = -1;
private:
    friend struct Handlers;
    void checkTextOutcome(const Op &op, const Outcome &o, bool expectOk);
    void checkSearch(const Op &op, Outcome &o, int mslot, const ML &q, const MParams &p, bool valid);
};

bool sameResults(const std::vector<std::pair<u64, double>> &a, const std::vector<std::pair<u64, double>> &b, bool docsOnly, double tol, std::string *why);
std::string resStr(const std::vector<std::pair<u64, double>> &r);
MW unitsOf(const Word &w);
std::string showList(const ML &l);
#endif
