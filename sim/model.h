// Executable reference model: values, costs, stores, indexes and matchers, written from the property
// texts, without any code of the library (letter folding is ICU's u_tolower per letter unit).
#ifndef SIM_MODEL_H
#define SIM_MODEL_H
#include "core.h"

typedef std::vector<u32> MW;          // a word: letter units of the build under test
typedef std::vector<MW> ML;           // a word list
extern int g_letterBits;              // 16 or 32

bool mDecode(const std::string &utf8, MW &out);             // strict UTF-8, no folding; false if malformed
bool mWord(const std::string &utf8, MW &out, bool *ws = 0); // decoded and folded; false if not a word
bool mTokens(const std::string &text, ML &out);             // false if any run is malformed
std::string mUtf8(const MW &w);
std::string mShow(const MW &w);
bool mIsWs(unsigned char c);

struct MDoc { u64 id = 0; std::map<MW, ML> texts; };
typedef std::vector<MDoc> MCorpus;

struct MRes { // a result collection, in insertion order
    std::vector<std::pair<double, u64>> v;
    std::vector<std::pair<double, u64>> sorted() const;
};

struct MEV {
    std::map<std::pair<u32, u32>, int> single;
    std::map<u32, int> group;     // letter -> group
    std::vector<int> gerr;
    int ins = 100, del = 100, edel = 100, sins = 100, tr = 100;
    size_t limit = 0;
    int sub(u32 a, u32 b) const;
    void set(u32 a, u32 b, int v);
    bool groupOk(const MW &w) const;
    void addGroup(const MW &w, int err);
    bool unknown = false;         // a load failed part-way: content partly unknown until cleared
    void clear() { single.clear(); group.clear(); gerr.clear(); unknown = false; }
    void keyboard();
    void substring() { sins = 15; edel = 15; limit = 3; }
    int startIns(size_t qlen) const { return qlen >= limit ? sins : ins; }
    int distance(const MW &query, const MW &word, int limit = -1) const;
};

struct MLev {
    std::map<MW, std::pair<u32, size_t>> words;  // word -> id, count (successful additions)
    std::set<MW> maybe;                          // additions that failed and were not repeated yet
    size_t maxCount() const { size_t m = 0; for (auto &w : words) m = std::max(m, w.second.second); return m; }
};

struct MParams { bool dynamic = true; std::set<MW> nosearch; std::vector<std::vector<std::pair<MW, MW>>> terms; MParams() : terms(1) {} };

struct MHit { std::map<u64, double> rel; };

struct MMatcher {
    std::map<MW, std::map<MW, size_t>> counts;           // field -> word -> occurrences
    std::map<std::pair<MW, MW>, std::set<u64>> rev;      // (field, word) -> documents
    std::map<std::pair<u64, MW>, size_t> sizes;          // words of a field as last indexed
    std::map<MW, double> weights;
    std::set<MW> fields, words;
    MEV ev;
    bool interrupted = false;                            // an indexing failed part-way: counts are unknown
    void index(const MCorpus &c);
    MHit search(const ML &query, const MParams &p) const;          // unfiltered
    bool passes(u64 doc, const MParams &p) const;
    MHit filtered(const ML &query, const MParams &p) const;
    MHit online(const ML &query, const MW &primary) const;
    size_t maxCount(const MW &field) const;
};
int mMaxErr(const MW &w, const MParams &p);
#endif
