#include "world.h"
#include "calls.h"
#include "eval.h"
#include <stdexcept>
#include <cmath>
#include <typeinfo>
#include <fstream>
#include <iterator>
#include <functional>
#include <new>

const char *const statusNames[] = {"ok", "bad_alloc", "invalid_argument", "out_of_range", "runtime_error", "exception", "non-std", "skipped"};

__thread const std::vector<Fault> *curFaults;

std::string resStr(const std::vector<std::pair<u64, double>> &r) {
    std::string s = "[";
    for (size_t i = 0; i < r.size(); i++) {
        if (i > 40) { s += fmt("... %zu in all", r.size()); break; }
        s += fmt("%s%llu:%.12g", i ? " " : "", (unsigned long long)r[i].first, r[i].second);
    }
    return s + "]";
}
std::string Outcome::str() const {
    std::string s = statusNames[st];
    if (!data.empty()) s += " " + data;
    if (hasRes) {
        s += " [";
        for (auto &x : res) s += fmt(" %llu:", (unsigned long long)x.first) + ::dbl(x.second);
        s += "]";
    }
    return s;
}
static bool close(double a, double b, double tol) {
    if (a == b) return true;
    double m = std::max(std::fabs(a), std::fabs(b));
    return std::fabs(a - b) <= tol * std::max(m, 1e-6);
}
bool sameResults(const std::vector<std::pair<u64, double>> &a, const std::vector<std::pair<u64, double>> &b, bool docsOnly, double tol, std::string *why) {
    std::vector<std::pair<u64, double>> x(a), y(b);
    std::sort(x.begin(), x.end());
    std::sort(y.begin(), y.end());
    bool ok = x.size() == y.size();
    if (ok)
        for (size_t i = 0; i < x.size(); i++)
            if (x[i].first != y[i].first || (!docsOnly && !close(x[i].second, y[i].second, tol))) { ok = false; break; }
    if (!ok && why) *why = resStr(a) + " instead of " + resStr(b);
    return ok;
}
MW unitsOf(const Word &w) {
    MW r;
    for (unsigned i = 0; i < w.length(); i++) { Letter lt = w[i]; r.push_back((u32)(Letter_)lt); }
    return r;
}
// Text in which U+F8FF stands for the letter zero (only a letter array can hold one).
static bool mWordZ(const std::string &t, MW &v) {
    if (!mWord(t, v)) return false;
    for (auto &u : v) if (u == 0xf8ff) u = 0;
    return true;
}
static bool hasZero(const MW &v) { return std::find(v.begin(), v.end(), 0u) != v.end(); }
static Word wordOf(const MW &v) {
    std::vector<Letter> ls;
    for (u32 u : v) ls.push_back(Letter((Letter_)u));
    ls.push_back(Letter(0));
    return Word(ls.data(), ls.size());
}
static Word *realWordZ(const std::string &t) {
    if (t.find("\xef\xa3\xbf") == std::string::npos) return new Word(t.c_str());
    std::vector<Letter> ls;
    { HostScope h; MW v; mWordZ(t, v); for (u32 u : v) ls.push_back(Letter((Letter_)u)); ls.push_back(Letter(0)); }
    return new Word(ls.data(), ls.size());
}
std::string showList(const ML &l) {
    std::string s = fmt("%zu:", l.size());
    for (auto &w : l) s += mShow(w) + "|";
    return s;
}
static std::string showRealList(const WordList &l) {
    ML v;
    for (size_t i = 0; i < l.size(); i++) v.push_back(unitsOf(l[i]));
    return showList(v);
}
static std::vector<std::pair<u64, double>> readRes(const MatchResults &r) {
    std::vector<std::pair<u64, double>> v;
    size_t n = r.size();
    v.reserve(n);
    for (size_t i = 0; i < n; i++) { u64 id = r.getDocumentID(i); double x = r.getRelevancy(i); v.push_back(std::make_pair(id, x)); }
    return v;
}
static std::string showRes(const std::vector<std::pair<double, u64>> &v) {
    std::string s = fmt("%zu:", v.size());
    for (auto &x : v) s += fmt("%llu=", (unsigned long long)x.second) + dbl(x.first) + "|";
    return s;
}
static std::string showDoc(const MDoc &d) {
    std::string s = fmt("id=%llu ", (unsigned long long)d.id);
    for (auto &t : d.texts) s += mShow(t.first) + "={" + showList(t.second) + "} ";
    return s;
}
static std::string showRealDoc(const Document &d) {
    MDoc m;
    m.id = d.getID();
    WordList names;
    d.getFieldNames(names);
    if (names.size() != d.fieldCount()) return fmt("field names %zu but field count %zu", names.size(), d.fieldCount());
    for (size_t i = 0; i < names.size(); i++) {
        const WordList &t = d.getText(names[i]);
        ML v;
        for (size_t k = 0; k < t.size(); k++) v.push_back(unitsOf(t[k]));
        MW n = unitsOf(names[i]);
        if (m.texts.count(n)) return "field " + mShow(n) + " reported twice";
        m.texts[n] = v;
    }
    return showDoc(m);
}

// The accent table a load will find.
std::string World::fileText(int f) const {
    if (!data[f].empty()) return data[f];
    static std::string own[2];
    static bool have;
    if (!have) {
        have = true;
        const char *dir = getenv("SIM_SHARE");
        const char *nm[] = {"latinAccentedLetterGroups.txt", "greekAccentedLetterGroups.txt"};
        for (int i = 0; i < 2; i++) {
            std::ifstream in((std::string(dir ? dir : "/repo/share") + "/" + nm[i]).c_str());
            own[i] = std::string((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
        }
    }
    return own[f];
}

static const int initLetterBits = (g_letterBits = (int)sizeof(Letter_) * 8);
World::World() { letters = {'a', 'b', 'c', 'd', 0xe5, 0xe4, 0x1ff, 0x200, 0x3b1}; }
World::~World() { destroyAll(); }

template <class T> static void wipe(std::map<int, T *> &m) {
    for (auto &i : m) { T *p = i.second; quiet([&] { delete p; }); }
    m.clear();
}
extern "C" void capiDestroy(World *w);
#ifdef SIM_PYTHON
void pyDestroy(World &w);
extern const std::map<std::string, Handler> &pyHandlers();
#endif
void World::destroyAll() {
#ifdef SIM_PYTHON
    pyDestroy(*this);
#endif
    capiDestroy(this);
    wipe(p); wipe(m); wipe(x); wipe(s); wipe(e); wipe(r); wipe(c); wipe(d); wipe(l); wipe(w);
    mw.clear(); ml.clear(); md.clear(); mc.clear(); mr.clear(); me.clear(); ms.clear(); mx.clear(); mm.clear(); mp.clear();
    moved.clear();
}
void World::violate(const std::string &cls, const std::string &msg) {
    if (!vcls.empty()) return;
    vcls = cls;
    vmsg = fmt("at op %d: ", curOp) + msg;
}

MEV *World::modelEv(int k) {
    if (k >= 100) { auto i = mm.find(k - 100); return i == mm.end() ? nullptr : &i->second.ev; }
    auto i = me.find(k);
    return i == me.end() ? nullptr : &i->second;
}
ErrorValues *World::realEv(int k) {
    if (k >= 100) {
        auto i = m.find(k - 100);
        if (i == m.end()) return nullptr;
        ErrorValues *r = nullptr;
        quiet([&] { r = &i->second->getErrorValues(); });
        return r;
    }
    auto i = e.find(k);
    return i == e.end() ? nullptr : i->second;
}

std::vector<std::string> World::keys(const char *kinds) const {
    std::vector<std::string> v;
    auto has = [&](char k) { return strchr(kinds, k) != nullptr; };
    if (has('w')) for (auto &i : w) v.push_back(fmt("w%d", i.first));
    if (has('l')) for (auto &i : l) v.push_back(fmt("l%d", i.first));
    if (has('d')) for (auto &i : d) v.push_back(fmt("d%d", i.first));
    if (has('c')) for (auto &i : c) v.push_back(fmt("c%d", i.first));
    if (has('r')) for (auto &i : r) v.push_back(fmt("r%d", i.first));
    if (has('e')) { for (auto &i : e) v.push_back(fmt("e%d", i.first)); for (auto &i : m) v.push_back(fmt("e%d", i.first + 100)); }
    if (has('s')) for (auto &i : s) v.push_back(fmt("s%d", i.first));
    if (has('x')) for (auto &i : x) v.push_back(fmt("x%d", i.first));
    if (has('p')) for (auto &i : p) v.push_back(fmt("p%d", i.first));
    if (has('m')) for (auto &i : m) v.push_back(fmt("m%d", i.first));
    return v;
}

std::string World::realSnap(const std::string &key, bool ids) {
    int k = atoi(key.c_str() + 1);
    std::string out = "?";
    if (moved.count(key)) return "moved-from";
    bool ok = true;
    switch (key[0]) {
    case 'w': ok = quiet([&] { Word &W = *w.at(k); HostScope h; out = mShow(unitsOf(W)); g_inlib = 1; std::string u = W.asUtf8(); g_inlib = 0; out += " utf8=" + pct(u.c_str()); }); break;
    case 'l': ok = quiet([&] { WordList &L = *l.at(k); HostScope h; out = showRealList(L); }); break;
    case 'd': ok = quiet([&] { Document &D = *d.at(k); HostScope h; out = showRealDoc(D); }); break;
    case 'c': ok = quiet([&] { Corpus &C = *c.at(k); HostScope h; out = fmt("%zu docs; ", C.size()); for (size_t i = 0; i < C.size(); i++) out += showRealDoc(C.getDocument(i)) + "; "; }); break;
    case 'r': ok = quiet([&] {
        MatchResults &R = *r.at(k); HostScope h;
        std::vector<std::pair<double, u64>> v;
        g_inlib = 1; auto q = readRes(R); g_inlib = 0;
        for (auto &x : q) v.push_back(std::make_pair(x.second, x.first));
        out = showRes(v); }); break;
    case 'e': {
        ErrorValues *E = realEv(k);
        if (!E) return "gone";
        if (modelEv(k) && modelEv(k)->unknown) return "partly unknown";
        ok = quiet([&] {
            HostScope h;
            out = fmt("ins=%d del=%d edel=%d tr=%d sins=%d,%d,%d ", E->getInsertionError(), E->getDeletionError(), E->getEndDeletionError(),
                E->getTransposeError(), E->getStartInsertionError(1), E->getStartInsertionError(3), E->getStartInsertionError(8));
            for (u32 a : letters) {
                for (u32 b : letters) { int v = E->getSubstituteError((Letter_)a, (Letter_)b); if (v != (a == b ? 0 : 100)) out += fmt("%x/%x=%d ", a, b, v); }
                out += E->isInGroup((Letter_)a) ? fmt("%x:g ", a) : "";
            }
        });
        break;
    }
    case 's': ok = quiet([&] {
        WordStore &S = *s.at(k); HostScope h; out = "";
        for (auto &i : ms[k]) {
            Word ww(wordOf(i.first));
            bool has = S.hasWord(ww);
            out += mShow(i.first) + (has ? "" : "(missing)");
            if (ids && has) out += fmt("=%u", S.getID(ww));
            Word back = S.getWord(i.second);
            out += "<" + mShow(unitsOf(back)) + "> ";
        } }); break;
    case 'x': ok = quiet([&] {
        LevenshteinIndex &X = *x.at(k); HostScope h;
        out = fmt("max=%zu ", X.maxCount());
        for (auto &i : mx[k].words) { if (!i.second.second) continue; Word ww(wordOf(i.first)); out += mShow(i.first) + (X.hasWord(ww) ? "" : "(missing)") + fmt("=%zu ", X.wordCount(i.second.first)); }
        int nq = 0;
        for (auto &i : mx[k].words) {
            if (!i.second.second) continue;
            if (++nq > 6) break;
            Word ww(wordOf(i.first));
            IndexMatches im; ErrorValues ev;
            g_inlib = 1; X.findWords(ww, ev, 200, im); g_inlib = 0;
            std::map<u32, int> f;
            for (size_t q = 0; q < im.size(); q++) f[im.getMatch(q)] = im.getMatchError(q);
            out += "find{";
            std::set<u32> known; for (auto &z : mx[k].words) if (z.second.second) known.insert(z.second.first);
            for (auto &z : f) if (known.count(z.first)) out += fmt("%u:%d ", z.first, z.second);
            out += "} ";
        } }); break;
    case 'p': ok = quiet([&] {
        SearchParameters &P = *p.at(k); HostScope h;
        out = fmt("dyn=%d ", (int)P.isDynamic());
        for (auto &i : w) out += P.isNonsearchingField(*i.second) ? fmt("-%d ", i.first) : "";
        const ResultFilter &F = P.getResultFilter();
        for (size_t t = 0; t < F.numTerms(); t++) { out += "{"; for (size_t q = 0; q < F.numSubTerms(t); q++) out += mShow(unitsOf(F.getField(t, q))) + "=" + mShow(unitsOf(F.getWord(t, q))) + ","; out += "}"; } }); break;
    case 'm': ok = quiet([&] {
        IndexWeights &I = m.at(k)->getIndexWeights(); HostScope h; out = "";
        for (auto &n : weightNames) { Word f(n.c_str()); g_inlib = 1; double x = I.getWeight(f); g_inlib = 0; out += pct(n) + "=" + ::dbl(x) + " "; } }); break;
    }
    if (!ok) return "reading it failed with an exception";
    return out;
}
std::string World::modelSnap(const std::string &key) {
    int k = atoi(key.c_str() + 1);
    if (moved.count(key)) return "moved-from";
    switch (key[0]) {
    case 'w': return mShow(mw[k]) + " utf8=" + pct(mUtf8(mw[k]).c_str());
    case 'l': return showList(ml[k]);
    case 'd': return showDoc(md[k]);
    case 'c': { std::string o = fmt("%zu docs; ", mc[k].size()); for (auto &x : mc[k]) o += showDoc(x) + "; "; return o; }
    case 'r': return showRes(mr[k].sorted());
    case 'e': {
        MEV *E = modelEv(k);
        if (!E) return "gone";
        if (E->unknown) return "partly unknown";
        std::string o = fmt("ins=%d del=%d edel=%d tr=%d sins=%d,%d,%d ", E->ins, E->del, E->edel, E->tr, E->startIns(1), E->startIns(3), E->startIns(8));
        for (u32 a : letters) {
            for (u32 b : letters) { int v = E->sub(a, b); if (v != (a == b ? 0 : 100)) o += fmt("%x/%x=%d ", a, b, v); }
            o += E->group.count(a) ? fmt("%x:g ", a) : "";
        }
        return o;
    }
    case 's': { std::string o; for (auto &i : ms[k]) o += mShow(i.first) + fmt("=%u", i.second) + "<" + mShow(i.first) + "> "; return o; }
    case 'p': {
        MParams &P = mp[k];
        std::string o = fmt("dyn=%d ", (int)P.dynamic);
        for (auto &i : w) o += P.nosearch.count(mw[i.first]) ? fmt("-%d ", i.first) : "";
        for (auto &t : P.terms) { o += "{"; for (auto &q : t) o += mShow(q.first) + "=" + mShow(q.second) + ","; o += "}"; }
        return o;
    }
    }
    return "";
}
std::map<std::string, std::string> World::snapshot(const char *kinds, bool ids) {
    std::map<std::string, std::string> r;
    for (auto &k : keys(kinds)) r[k] = realSnap(k, ids);
    return r;
}
void World::verify(u32 mask, const Op *) {
    std::string kinds;
    if (mask & (OR_W | OR_TOK)) kinds += "wldc";
    if (mask & OR_R) kinds += "r";
    if (mask & OR_E) kinds += "e";
    if (mask & OR_S) kinds += "s";
    if (kinds.empty() || bad()) return;
    for (auto &k : keys(kinds.c_str())) {
        std::string a = realSnap(k), b = modelSnap(k);
        if (a != b) { violate(std::string("content-") + k[0], "object " + k + " reads back as <" + a + "> instead of <" + b + ">"); return; }
    }
    if (mask & OR_S)
        for (auto &st : s) {
            // Identities beyond those handed out: an unknown id must be reported unknown.
            bool over = false; u32 mxid = 0;
            for (auto &i : ms[st.first]) mxid = std::max(mxid, i.second + 1);
            quiet([&] { over = st.second->hasWord((WordID)(mxid + 5000)); });
            if (over) { violate("store-id", "an identity never handed out is reported as known"); return; }
        }
}

std::vector<World::Probe> World::probeMatcher(int slot) {
    std::vector<Probe> v;
    Matcher *M = m.at(slot);
    for (auto &q : probes) {
        Probe p;
        p.what = q;
        p.st = OK_;
        OpCounts keep = g_op;
        opBegin(nullptr);
        g_inlib = 1;
        try { MatchResults R = M->match(q.c_str()); p.res = readRes(R); g_inlib = 0; }
        catch (std::exception &ex) { g_inlib = 0; p.st = STDEXC; p.what += std::string(" -> ") + ex.what(); }
        g_inlib = 0;
        opEnd();
        g_op = keep;
        v.push_back(p);
    }
    return v;
}

// ------------------------------------------------------------------------------------------ handlers
#define SLOT(map_, i) auto it_##map_##i = map_.find((int)op.arg(i)); if (it_##map_##i == map_.end()) { o.st = SKIPPED; return; } auto *P##i = it_##map_##i->second;
#define LIVE(kind, i) if (moved.count(fmt(kind "%d", (int)op.arg(i)))) { o.st = SKIPPED; return; }

struct Handlers {
    static std::string K(const char *k, long long i) { return fmt("%s%lld", k, i); }
    static bool dead(World &W, const char *k, long long i) { return W.moved.count(K(k, i)) > 0; }
    template <class T> static T *get(std::map<int, T *> &m, long long i) { auto it = m.find((int)i); return it == m.end() ? nullptr : it->second; }
    template <class T, class M> static void drop(World &W, std::map<int, T *> &m, M &mod, const char *k, long long i) {
        auto it = m.find((int)i);
        if (it == m.end()) return;
        T *p = it->second;
        m.erase(it);
        mod.erase((int)i);
        W.moved.erase(K(k, i));
        quiet([&] { delete p; });
    }
    // ---- words
    template <class F> static void newWord(World &W, const Op &op, Outcome &o, const MW &val, bool ok, F f) {
        drop(W, W.w, W.mw, "w", op.arg(0));
        Word *p = nullptr;
        libCall(o, [&] { p = f(); });
        if (o.st == OK_) { W.w[(int)op.arg(0)] = p; W.mw[(int)op.arg(0)] = val; }
        W.checkTextOutcome(op, o, ok);
    }
    static void wnew(World &W, const Op &op, Outcome &o) {
        MW v; bool ok = mWord(op.str(0), v);
        const char *t = op.str(0).c_str();
        newWord(W, op, o, v, ok, [&] { return new Word(t); });
    }
    static void wstr(World &W, const Op &op, Outcome &o) {
        MW v; bool ok = mWord(op.str(0), v);
        const std::string &t = op.str(0);
        newWord(W, op, o, v, ok, [&] { return new Word(t); });
    }
    static void wlet(World &W, const Op &op, Outcome &o) {
        MW v;
        if (!mWordZ(op.str(0), v)) { o.st = SKIPPED; return; }
        std::vector<Letter> ls;
        for (u32 u : v) ls.push_back(Letter((Letter_)u));
        if (!v.empty() && v.back() == 0) v.pop_back(); // taken for the terminator
        newWord(W, op, o, v, true, [&] { return new Word(ls.data(), ls.size()); });
    }
    static void wcopy(World &W, const Op &op, Outcome &o) {
        Word *src = get(W.w, op.arg(1));
        if (!src || dead(W, "w", op.arg(1)) || op.arg(0) == op.arg(1)) { o.st = SKIPPED; return; }
        newWord(W, op, o, W.mw[(int)op.arg(1)], true, [&] { return new Word(*src); });
    }
    static void wmovc(World &W, const Op &op, Outcome &o) {
        Word *src = get(W.w, op.arg(1));
        if (!src || dead(W, "w", op.arg(1)) || op.arg(0) == op.arg(1)) { o.st = SKIPPED; return; }
        newWord(W, op, o, W.mw[(int)op.arg(1)], true, [&] { return new Word(std::move(*src)); });
        if (o.st == OK_) W.moved.insert(K("w", op.arg(1)));
    }
    static void wasg(World &W, const Op &op, Outcome &o) {
        Word *a = get(W.w, op.arg(0)), *b = get(W.w, op.arg(1));
        if (!a || !b || dead(W, "w", op.arg(1))) { o.st = SKIPPED; return; }
        libCall(o, [&] { *a = *b; });
        if (o.st == OK_) { W.mw[(int)op.arg(0)] = MW(W.mw[(int)op.arg(1)]); W.moved.erase(K("w", op.arg(0))); }
        W.checkTextOutcome(op, o, true);
    }
    static void wmov(World &W, const Op &op, Outcome &o) {
        Word *a = get(W.w, op.arg(0)), *b = get(W.w, op.arg(1));
        if (!a || !b || a == b || dead(W, "w", op.arg(1))) { o.st = SKIPPED; return; }
        libCall(o, [&] { *a = std::move(*b); });
        if (o.st == OK_) { W.mw[(int)op.arg(0)] = W.mw[(int)op.arg(1)]; W.moved.erase(K("w", op.arg(0))); W.moved.insert(K("w", op.arg(1))); }
        W.checkTextOutcome(op, o, true);
    }
    template <class F> static void wtxtImpl(World &W, const Op &op, Outcome &o, F f) {
        Word *a = get(W.w, op.arg(0));
        if (!a || dead(W, "w", op.arg(0))) { o.st = SKIPPED; return; }
        MW v; bool ok = mWord(op.str(0), v);
        libCall(o, [&] { f(a); });
        int k = (int)op.arg(0);
        if (o.st == OK_) W.mw[k] = v;
        else {
            // A failed assignment from text: previous content or empty; the model follows which one.
            MW now; bool rd = quiet([&] { HostScope h; now = unitsOf(*a); });
            if (rd && now.empty()) W.mw[k].clear();
        }
        W.checkTextOutcome(op, o, ok);
    }
    static void wtxt(World &W, const Op &op, Outcome &o) { const char *t = op.str(0).c_str(); wtxtImpl(W, op, o, [&](Word *a) { *a = t; }); }
    static void wtxts(World &W, const Op &op, Outcome &o) { const std::string &t = op.str(0); wtxtImpl(W, op, o, [&](Word *a) { *a = t; }); }
    static void wjoin(World &W, const Op &op, Outcome &o) {
        Word *b = get(W.w, op.arg(1)), *c = get(W.w, op.arg(2));
        if (!b || !c || dead(W, "w", op.arg(1)) || dead(W, "w", op.arg(2)) || op.arg(0) == op.arg(1) || op.arg(0) == op.arg(2)
            || W.mw[(int)op.arg(1)].empty() || W.mw[(int)op.arg(2)].empty()) { o.st = SKIPPED; return; }
        MW v = W.mw[(int)op.arg(1)], y = W.mw[(int)op.arg(2)];
        v.insert(v.end(), y.begin(), y.end());
        newWord(W, op, o, v, true, [&] { return new Word(b->join(*c)); });
    }
    static void wdel(World &W, const Op &op, Outcome &o) { if (!get(W.w, op.arg(0))) { o.st = SKIPPED; return; } drop(W, W.w, W.mw, "w", op.arg(0)); }
    static void wrd(World &W, const Op &op, Outcome &o) {
        Word *a = get(W.w, op.arg(0));
        if (!a || dead(W, "w", op.arg(0))) { o.st = SKIPPED; return; }
        std::string t;
        libCall(o, [&] { t = a->asUtf8(); });
        if (o.st == OK_) {
            HostScope h;
            o.data = pct(t);
            // Text ends at its first zero.
            if ((W.orc & OR_W) && t != mUtf8(W.mw[(int)op.arg(0)]) && t != mUtf8(W.mw[(int)op.arg(0)]).c_str()) W.violate("word-utf8", "a word reads as " + pct(t) + " instead of " + pct(mUtf8(W.mw[(int)op.arg(0)])));
        }
        W.checkTextOutcome(op, o, true);
    }
    static void wcmp(World &W, const Op &op, Outcome &o) {
        Word *a = get(W.w, op.arg(0)), *b = get(W.w, op.arg(1));
        if (!a || !b || dead(W, "w", op.arg(0)) || dead(W, "w", op.arg(1))) { o.st = SKIPPED; return; }
        bool eq = false, ne = false, lt = false;
        libCall(o, [&] { eq = *a == *b; ne = *a != *b; lt = *a < *b; });
        const MW &x = W.mw[(int)op.arg(0)], &y = W.mw[(int)op.arg(1)];
        o.data = fmt("%d%d%d", eq, ne, lt);
        if ((W.orc & OR_W) && o.st == OK_ && (eq != (x == y) || ne == eq || lt != (x < y))) W.violate("word-compare", "comparison of two words is wrong: " + o.data);
        W.checkTextOutcome(op, o, true);
    }
    static void wcmpt(World &W, const Op &op, Outcome &o) {
        Word *a = get(W.w, op.arg(0));
        if (!a || dead(W, "w", op.arg(0))) { o.st = SKIPPED; return; }
        bool eq = false;
        const char *t = op.str(0).c_str();
        libCall(o, [&] { eq = *a == t; });
        o.data = fmt("%d", eq);
        if ((W.orc & OR_W) && o.st == OK_ && !hasZero(W.mw[(int)op.arg(0)]) && eq != (mUtf8(W.mw[(int)op.arg(0)]) == op.str(0))) W.violate("word-compare", "comparison with text is wrong");
        W.checkTextOutcome(op, o, true);
    }
    // ---- lists
    template <class F> static void newList(World &W, const Op &op, Outcome &o, const ML &val, bool ok, F f) {
        drop(W, W.l, W.ml, "l", op.arg(0));
        WordList *p = nullptr;
        libCall(o, [&] { p = f(); });
        if (o.st == OK_) { W.l[(int)op.arg(0)] = p; W.ml[(int)op.arg(0)] = val; }
        W.checkTextOutcome(op, o, ok);
    }
    static void lnew(World &W, const Op &op, Outcome &o) { newList(W, op, o, ML(), true, [&] { return new WordList(); }); }
    static void lcopy(World &W, const Op &op, Outcome &o) {
        WordList *src = get(W.l, op.arg(1));
        if (!src || dead(W, "l", op.arg(1)) || op.arg(0) == op.arg(1)) { o.st = SKIPPED; return; }
        newList(W, op, o, W.ml[(int)op.arg(1)], true, [&] { return new WordList(*src); });
    }
    static void lmovc(World &W, const Op &op, Outcome &o) {
        WordList *src = get(W.l, op.arg(1));
        if (!src || dead(W, "l", op.arg(1)) || op.arg(0) == op.arg(1)) { o.st = SKIPPED; return; }
        newList(W, op, o, W.ml[(int)op.arg(1)], true, [&] { return new WordList(std::move(*src)); });
        if (o.st == OK_) W.moved.insert(K("l", op.arg(1)));
    }
    static void lasg(World &W, const Op &op, Outcome &o) {
        WordList *a = get(W.l, op.arg(0)), *b = get(W.l, op.arg(1));
        if (!a || !b || dead(W, "l", op.arg(1))) { o.st = SKIPPED; return; }
        libCall(o, [&] { *a = *b; });
        if (o.st == OK_) { W.ml[(int)op.arg(0)] = ML(W.ml[(int)op.arg(1)]); W.moved.erase(K("l", op.arg(0))); }
        W.checkTextOutcome(op, o, true);
    }
    static void lmov(World &W, const Op &op, Outcome &o) {
        WordList *a = get(W.l, op.arg(0)), *b = get(W.l, op.arg(1));
        if (!a || !b || a == b || dead(W, "l", op.arg(1))) { o.st = SKIPPED; return; }
        libCall(o, [&] { *a = std::move(*b); });
        if (o.st == OK_) { W.ml[(int)op.arg(0)] = W.ml[(int)op.arg(1)]; W.moved.erase(K("l", op.arg(0))); W.moved.insert(K("l", op.arg(1))); }
        W.checkTextOutcome(op, o, true);
    }
    static void ladd(World &W, const Op &op, Outcome &o) {
        WordList *a = get(W.l, op.arg(0)); Word *b = get(W.w, op.arg(1));
        if (!a || !b || dead(W, "l", op.arg(0)) || dead(W, "w", op.arg(1))) { o.st = SKIPPED; return; }
        libCall(o, [&] { a->addWord(*b); });
        if (o.st == OK_) W.ml[(int)op.arg(0)].push_back(W.mw[(int)op.arg(1)]);
        W.checkTextOutcome(op, o, true);
    }
    static void laddl(World &W, const Op &op, Outcome &o) {
        WordList *a = get(W.l, op.arg(0)), *b = get(W.l, op.arg(1));
        size_t k = (size_t)op.arg(2);
        if (!a || !b || dead(W, "l", op.arg(0)) || dead(W, "l", op.arg(1)) || k >= W.ml[(int)op.arg(1)].size()) { o.st = SKIPPED; return; }
        libCall(o, [&] { a->addWord((*b)[k]); });
        if (o.st == OK_) { MW v = W.ml[(int)op.arg(1)][k]; W.ml[(int)op.arg(0)].push_back(v); }
        W.checkTextOutcome(op, o, true);
    }
    static void lget(World &W, const Op &op, Outcome &o) {
        WordList *a = get(W.l, op.arg(0));
        if (!a || dead(W, "l", op.arg(0))) { o.st = SKIPPED; return; }
        size_t k = (size_t)op.arg(1);
        const Word *p = nullptr;
        libCall(o, [&] { p = &(*a)[k]; });
        const ML &v = W.ml[(int)op.arg(0)];
        if (o.st == OK_) {
            bool in = k < v.size();
            if (in) o.data = mShow(unitsOf(*p));
            if ((W.orc & OR_W) && (!in || unitsOf(*p) != v[k])) W.violate("list-get", "a list entry is wrong or an out-of-range position was accepted");
        } else if ((W.orc & OR_W) && !o.hard && (k < v.size() || o.st != OOR)) W.violate("list-get", "unexpected error for a list position");
    }
    static void lcmp(World &W, const Op &op, Outcome &o) {
        WordList *a = get(W.l, op.arg(0)), *b = get(W.l, op.arg(1));
        if (!a || !b || dead(W, "l", op.arg(0)) || dead(W, "l", op.arg(1))) { o.st = SKIPPED; return; }
        bool eq = false, ne = false;
        libCall(o, [&] { eq = *a == *b; ne = *a != *b; });
        bool x = W.ml[(int)op.arg(0)] == W.ml[(int)op.arg(1)];
        o.data = fmt("%d%d", eq, ne);
        if ((W.orc & OR_W) && o.st == OK_ && (eq != x || ne == x)) W.violate("list-compare", "comparison of two lists is wrong");
        W.checkTextOutcome(op, o, true);
    }
    static void ldel(World &W, const Op &op, Outcome &o) { if (!get(W.l, op.arg(0))) { o.st = SKIPPED; return; } drop(W, W.l, W.ml, "l", op.arg(0)); }
    static void lsplit(World &W, const Op &op, Outcome &o) {
        ML v; bool ok = mTokens(op.str(0), v);
        const char *t = op.str(0).c_str();
        newList(W, op, o, v, ok, [&] { return new WordList(Columbus::splitToWords(t)); });
    }
    // ---- documents
    static void dnew(World &W, const Op &op, Outcome &o) {
        drop(W, W.d, W.md, "d", op.arg(0));
        Document *p = nullptr;
        u64 id = (u64)op.arg(1);
        libCall(o, [&] { p = new Document((DocumentID)id); });
        if (o.st == OK_) { W.d[(int)op.arg(0)] = p; MDoc x; x.id = id; W.md[(int)op.arg(0)] = x; }
        W.checkTextOutcome(op, o, true);
    }
    static void dcopy(World &W, const Op &op, Outcome &o) {
        Document *src = get(W.d, op.arg(1));
        if (!src || op.arg(0) == op.arg(1)) { o.st = SKIPPED; return; }
        drop(W, W.d, W.md, "d", op.arg(0));
        Document *p = nullptr;
        libCall(o, [&] { p = new Document(*src); });
        if (o.st == OK_) { W.d[(int)op.arg(0)] = p; W.md[(int)op.arg(0)] = MDoc(W.md[(int)op.arg(1)]); }
        W.checkTextOutcome(op, o, true);
    }
    static void dasg(World &W, const Op &op, Outcome &o) {
        Document *a = get(W.d, op.arg(0)), *b = get(W.d, op.arg(1));
        if (!a || !b) { o.st = SKIPPED; return; }
        libCall(o, [&] { *a = *b; });
        if (o.st == OK_) W.md[(int)op.arg(0)] = MDoc(W.md[(int)op.arg(1)]);
        W.checkTextOutcome(op, o, true);
    }
    static void daddl(World &W, const Op &op, Outcome &o) {
        Document *a = get(W.d, op.arg(0)); Word *f = get(W.w, op.arg(1)); WordList *t = get(W.l, op.arg(2));
        if (!a || !f || !t || dead(W, "w", op.arg(1)) || dead(W, "l", op.arg(2))) { o.st = SKIPPED; return; }
        libCall(o, [&] { a->addText(*f, *t); });
        if (o.st == OK_) W.md[(int)op.arg(0)].texts[W.mw[(int)op.arg(1)]] = W.ml[(int)op.arg(2)];
        W.checkTextOutcome(op, o, true);
    }
    static void daddt(World &W, const Op &op, Outcome &o) {
        Document *a = get(W.d, op.arg(0)); Word *f = get(W.w, op.arg(1));
        if (!a || !f || dead(W, "w", op.arg(1))) { o.st = SKIPPED; return; }
        ML v; bool ok = mTokens(op.str(0), v);
        const std::string &t = op.str(0);
        if (op.arg(2)) libCall(o, [&] { a->addText(*f, t); });
        else libCall(o, [&] { a->addText(*f, t.c_str()); });
        if (o.st == OK_) W.md[(int)op.arg(0)].texts[W.mw[(int)op.arg(1)]] = v;
        W.checkTextOutcome(op, o, ok);
    }
    static void dalias(World &W, const Op &op, Outcome &o) {
        Document *a = get(W.d, op.arg(0)); Word *f = get(W.w, op.arg(1)), *g = get(W.w, op.arg(2));
        if (!a || !f || !g || dead(W, "w", op.arg(1)) || dead(W, "w", op.arg(2))) { o.st = SKIPPED; return; }
        MDoc &D = W.md[(int)op.arg(0)];
        bool have = D.texts.count(W.mw[(int)op.arg(2)]) > 0;
        libCall(o, [&] { a->addText(*f, a->getText(*g)); });
        if (o.st == OK_ && have) { ML v = D.texts[W.mw[(int)op.arg(2)]]; D.texts[W.mw[(int)op.arg(1)]] = v; }
        W.checkTextOutcome(op, o, have);
    }
    static void ddel(World &W, const Op &op, Outcome &o) { if (!get(W.d, op.arg(0))) { o.st = SKIPPED; return; } drop(W, W.d, W.md, "d", op.arg(0)); }
    static void dnames(World &W, const Op &op, Outcome &o) {
        Document *a = get(W.d, op.arg(0)); WordList *t = get(W.l, op.arg(1));
        if (!a || !t || dead(W, "l", op.arg(1))) { o.st = SKIPPED; return; }
        libCall(o, [&] { a->getFieldNames(*t); });
        ML &L = W.ml[(int)op.arg(1)];
        if (o.st == OK_) for (auto &x : W.md[(int)op.arg(0)].texts) L.push_back(x.first);
        else {
            // Not an assignment or addition of one value: what was there stays, some of the names may follow.
            ML now; quiet([&] { HostScope h; for (size_t i = 0; i < t->size(); i++) now.push_back(unitsOf((*t)[i])); });
            ML full(L); for (auto &x : W.md[(int)op.arg(0)].texts) full.push_back(x.first);
            if (now.size() >= L.size() && now.size() <= full.size() && std::equal(now.begin(), now.end(), full.begin())) L = now;
        }
        W.checkTextOutcome(op, o, true);
    }
    static void dget(World &W, const Op &op, Outcome &o) {
        Document *a = get(W.d, op.arg(0)); Word *f = get(W.w, op.arg(1));
        if (!a || !f || dead(W, "w", op.arg(1))) { o.st = SKIPPED; return; }
        const WordList *t = nullptr;
        libCall(o, [&] { t = &a->getText(*f); });
        MDoc &D = W.md[(int)op.arg(0)];
        auto it = D.texts.find(W.mw[(int)op.arg(1)]);
        if (o.st == OK_) {
            o.data = showRealList(*t);
            if ((W.orc & OR_W) && (it == D.texts.end() || o.data != showList(it->second))) W.violate("doc-text", "a field reads as " + o.data);
        } else if ((W.orc & OR_W) && !o.hard && (it != D.texts.end() || o.st != INVARG)) W.violate("doc-text", "unexpected error reading a field");
    }
    static void dcount(World &W, const Op &op, Outcome &o) {
        Document *a = get(W.d, op.arg(0)); Word *f = get(W.w, op.arg(1)), *g = get(W.w, op.arg(2));
        if (!a || !f || !g || dead(W, "w", op.arg(1)) || dead(W, "w", op.arg(2))) { o.st = SKIPPED; return; }
        size_t n = 0, t = 0;
        libCall(o, [&] { n = a->wordCount(*f, *g); t = a->totalWordCount(*f); });
        if (o.st == OK_) {
            size_t en = 0, et = 0;
            for (auto &x : W.md[(int)op.arg(0)].texts) { size_t c = (size_t)std::count(x.second.begin(), x.second.end(), W.mw[(int)op.arg(1)]); et += c; if (x.first == W.mw[(int)op.arg(2)]) en = c; }
            o.data = fmt("%zu %zu", n, t);
            if ((W.orc & OR_W) && (n != en || t != et)) W.violate("doc-count", fmt("word counts %zu and %zu instead of %zu and %zu", n, t, en, et));
        }
        W.checkTextOutcome(op, o, true);
    }
    // ---- corpora
    static void cnew(World &W, const Op &op, Outcome &o) {
        drop(W, W.c, W.mc, "c", op.arg(0));
        Corpus *p = nullptr;
        libCall(o, [&] { p = new Corpus(); });
        if (o.st == OK_) { W.c[(int)op.arg(0)] = p; W.mc[(int)op.arg(0)] = MCorpus(); }
        W.checkTextOutcome(op, o, true);
    }
    static void cadd(World &W, const Op &op, Outcome &o) {
        Corpus *a = get(W.c, op.arg(0)); Document *b = get(W.d, op.arg(1));
        if (!a || !b) { o.st = SKIPPED; return; }
        libCall(o, [&] { a->addDocument(*b); });
        if (o.st == OK_) W.mc[(int)op.arg(0)].push_back(W.md[(int)op.arg(1)]);
        W.checkTextOutcome(op, o, true);
    }
    static void caddown(World &W, const Op &op, Outcome &o) {
        Corpus *a = get(W.c, op.arg(0));
        size_t k = (size_t)op.arg(1);
        if (!a || k >= W.mc[(int)op.arg(0)].size()) { o.st = SKIPPED; return; }
        libCall(o, [&] { a->addDocument(a->getDocument(k)); });
        if (o.st == OK_) { MDoc x = W.mc[(int)op.arg(0)][k]; W.mc[(int)op.arg(0)].push_back(x); }
        W.checkTextOutcome(op, o, true);
    }
    static void cget(World &W, const Op &op, Outcome &o) {
        Corpus *a = get(W.c, op.arg(0));
        size_t k = (size_t)op.arg(1);
        if (!a) { o.st = SKIPPED; return; }
        const Document *q = nullptr;
        libCall(o, [&] { q = &a->getDocument(k); });
        bool in = k < W.mc[(int)op.arg(0)].size();
        if (o.st == OK_) {
            if (in) o.data = showRealDoc(*q);
            if ((W.orc & OR_W) && (!in || o.data != showDoc(W.mc[(int)op.arg(0)][k]))) W.violate("corpus-get", "a corpus entry is wrong or an out-of-range position was accepted");
        } else if ((W.orc & OR_W) && !o.hard && (in || o.st != OOR)) W.violate("corpus-get", "unexpected error for a corpus position");
    }
    static void cdel(World &W, const Op &op, Outcome &o) { if (!get(W.c, op.arg(0))) { o.st = SKIPPED; return; } drop(W, W.c, W.mc, "c", op.arg(0)); }
    // mkdoc c id [n] s=field,text,field,text...: n documents with identities from id on; bookkeeping (never faulted)
    static void mkdoc(World &W, const Op &op, Outcome &o) {
        int k = (int)op.arg(0);
        if (!W.c.count(k)) { Corpus *p = nullptr; quiet([&] { p = new Corpus(); }); W.c[k] = p; W.mc[k] = MCorpus(); }
        MDoc md; md.id = (u64)op.arg(1);
        ML tmp; MW fw;
        for (size_t i = 0; i + 1 < op.s.size(); i += 2) if (!mWord(op.s[i], fw) || fw.empty() || !mTokens(op.s[i + 1], tmp)) { o.st = SKIPPED; return; }
        opBegin(nullptr);
        curFaults = nullptr;
        long long n = std::max(1LL, op.arg(2));
        libCall(o, [&] {
            for (long long j = 0; j < n; j++) {
                Document D((DocumentID)op.arg(1) + (DocumentID)j);
                for (size_t i = 0; i + 1 < op.s.size(); i += 2) { Word f(op.s[i].c_str()); D.addText(f, op.s[i + 1].c_str()); }
                W.c[k]->addDocument(D);
            }
        });
        for (size_t i = 0; i + 1 < op.s.size(); i += 2) { mWord(op.s[i], fw); mTokens(op.s[i + 1], tmp); md.texts[fw] = tmp; }
        if (o.st == OK_) for (long long j = 0; j < n; j++) { W.mc[k].push_back(md); md.id++; }
    }
    // ---- results
    template <class F> static void newRes(World &W, const Op &op, Outcome &o, const MRes &val, F f) {
        drop(W, W.r, W.mr, "r", op.arg(0));
        MatchResults *p = nullptr;
        libCall(o, [&] { p = f(); });
        if (o.st == OK_) { W.r[(int)op.arg(0)] = p; W.mr[(int)op.arg(0)] = val; }
        resErr(W, o, true, "constructing a result collection");
    }
    static void resErr(World &W, Outcome &o, bool okExpected, const char *what) {
        if (!(W.orc & OR_R) || o.st == SKIPPED) return;
        if (o.st == OK_ && !okExpected) W.violate("result-accepted", std::string(what) + ": an out-of-range position was accepted");
        if (o.failed() && !o.hard && okExpected) W.violate("result-error", std::string(what) + " failed: " + statusNames[o.st]);
        if (o.failed() && !o.hard && !okExpected && o.st != OOR) W.violate("result-error", std::string(what) + ": not an out-of-range error");
        if (o.st == NONSTD) W.violate("result-error", "not an exception derived from std::exception");
    }
    static void rnew(World &W, const Op &op, Outcome &o) { newRes(W, op, o, MRes(), [&] { return new MatchResults(); }); }
    static void rcopy(World &W, const Op &op, Outcome &o) {
        MatchResults *src = get(W.r, op.arg(1));
        if (!src || dead(W, "r", op.arg(1)) || op.arg(0) == op.arg(1)) { o.st = SKIPPED; return; }
        MRes v = W.mr[(int)op.arg(1)];
        newRes(W, op, o, v, [&] { return new MatchResults(*src); });
    }
    static void rmovc(World &W, const Op &op, Outcome &o) {
        MatchResults *src = get(W.r, op.arg(1));
        if (!src || dead(W, "r", op.arg(1)) || op.arg(0) == op.arg(1)) { o.st = SKIPPED; return; }
        MRes v = W.mr[(int)op.arg(1)];
        newRes(W, op, o, v, [&] { return new MatchResults(std::move(*src)); });
        if (o.st == OK_) W.moved.insert(K("r", op.arg(1)));
    }
    static void rasg(World &W, const Op &op, Outcome &o) {
        MatchResults *a = get(W.r, op.arg(0)), *b = get(W.r, op.arg(1));
        if (!a || !b || dead(W, "r", op.arg(1))) { o.st = SKIPPED; return; }
        libCall(o, [&] { *a = *b; });
        if (o.st == OK_) { MRes v = W.mr[(int)op.arg(1)]; W.mr[(int)op.arg(0)] = v; W.moved.erase(K("r", op.arg(0))); }
        resErr(W, o, true, "assigning a result collection");
    }
    static void rmov(World &W, const Op &op, Outcome &o) {
        MatchResults *a = get(W.r, op.arg(0)), *b = get(W.r, op.arg(1));
        if (!a || !b || a == b || dead(W, "r", op.arg(1))) { o.st = SKIPPED; return; }
        libCall(o, [&] { *a = std::move(*b); });
        if (o.st == OK_) { W.mr[(int)op.arg(0)] = W.mr[(int)op.arg(1)]; W.moved.erase(K("r", op.arg(0))); W.moved.insert(K("r", op.arg(1))); }
        resErr(W, o, true, "moving a result collection");
    }
    static void radd(World &W, const Op &op, Outcome &o) {
        MatchResults *a = get(W.r, op.arg(0));
        if (!a || dead(W, "r", op.arg(0))) { o.st = SKIPPED; return; }
        u64 id = (u64)op.arg(1); double rel = op.dbl(0);
        libCall(o, [&] { a->addResult((DocumentID)id, rel); });
        if (o.st == OK_) W.mr[(int)op.arg(0)].v.push_back(std::make_pair(rel, id));
        resErr(W, o, true, "adding a result");
    }
    static void rcat(World &W, const Op &op, Outcome &o) {
        MatchResults *a = get(W.r, op.arg(0)), *b = get(W.r, op.arg(1));
        if (!a || !b || dead(W, "r", op.arg(0)) || dead(W, "r", op.arg(1))) { o.st = SKIPPED; return; }
        // Entries are merged in the order the source reports them when it was read, else as added; both orders
        // agree among equally relevant entries.
        MRes v = W.mr[(int)op.arg(1)];
        libCall(o, [&] { a->addResults(*b); });
        if (o.st == OK_) { auto &t = W.mr[(int)op.arg(0)].v; t.insert(t.end(), v.v.begin(), v.v.end()); }
        resErr(W, o, true, "merging result collections");
    }
    static void rcpy(World &W, const Op &op, Outcome &o) {
        MatchResults *a = get(W.r, op.arg(0)), *b = get(W.r, op.arg(1));
        if (!a || !b || dead(W, "r", op.arg(0)) || dead(W, "r", op.arg(1))) { o.st = SKIPPED; return; }
        size_t k = (size_t)op.arg(2);
        auto v = W.mr[(int)op.arg(1)].sorted();
        libCall(o, [&] { a->copyResult(*b, k); });
        if (o.st == OK_ && k < v.size()) W.mr[(int)op.arg(0)].v.push_back(v[k]);
        resErr(W, o, k < v.size(), "copying one result");
    }
    static void rget(World &W, const Op &op, Outcome &o) {
        MatchResults *a = get(W.r, op.arg(0));
        if (!a || dead(W, "r", op.arg(0))) { o.st = SKIPPED; return; }
        size_t k = (size_t)op.arg(1), n = 0;
        u64 id = 0; double rel = 0;
        if (op.arg(2)) libCall(o, [&] { n = a->size(); rel = a->getRelevancy(k); id = a->getDocumentID(k); });
        else libCall(o, [&] { n = a->size(); id = a->getDocumentID(k); rel = a->getRelevancy(k); });
        auto v = W.mr[(int)op.arg(0)].sorted();
        if (o.st == OK_) {
            o.data = fmt("%llu=", (unsigned long long)id) + ::dbl(rel);
            if ((W.orc & OR_R) && k < v.size() && (n != v.size() || v[k].second != id || v[k].first != rel))
                W.violate("result-get", fmt("entry %zu of %zu reads as ", k, n) + o.data + fmt(" instead of %llu=", (unsigned long long)v[k].second) + ::dbl(v[k].first));
        }
        resErr(W, o, k < v.size(), "reading a result");
    }
    static void rdel(World &W, const Op &op, Outcome &o) { if (!get(W.r, op.arg(0))) { o.st = SKIPPED; return; } drop(W, W.r, W.mr, "r", op.arg(0)); }
    // ---- error values
    static void evErr(World &W, Outcome &o, bool okExpected, const char *what) {
        if (!(W.orc & OR_E) || o.st == SKIPPED) return;
        if (o.st == OK_ && !okExpected) W.violate("costs-accepted", std::string(what) + " was accepted");
        if (o.failed() && !o.hard && okExpected) W.violate("costs-error", std::string(what) + " failed: " + statusNames[o.st] + " " + o.what);
        if (o.st == NONSTD) W.violate("costs-error", "not an exception derived from std::exception");
    }
    static void enew(World &W, const Op &op, Outcome &o) {
        drop(W, W.e, W.me, "e", op.arg(0));
        ErrorValues *p = nullptr;
        libCall(o, [&] { p = new ErrorValues(); });
        if (o.st == OK_) { W.e[(int)op.arg(0)] = p; W.me[(int)op.arg(0)] = MEV(); }
        evErr(W, o, true, "creating a cost table");
    }
    static void edel(World &W, const Op &op, Outcome &o) { if (!get(W.e, op.arg(0))) { o.st = SKIPPED; return; } drop(W, W.e, W.me, "e", op.arg(0)); }
    static void eset(World &W, const Op &op, Outcome &o) {
        ErrorValues *E = W.realEv((int)op.arg(0)); MEV *M = W.modelEv((int)op.arg(0));
        if (!E || !M) { o.st = SKIPPED; return; }
        u32 a = (u32)op.arg(1), b = (u32)op.arg(2);
        if (g_letterBits == 16) { a &= 0xffff; b &= 0xffff; }
        libCall(o, [&] { E->setError((Letter_)a, (Letter_)b, (int)op.arg(3)); });
        if (o.st == OK_ && a != b) M->set(a, b, (int)op.arg(3));
        evErr(W, o, true, "setting a pair cost");
    }
    static void egrp(World &W, const Op &op, Outcome &o) {
        ErrorValues *E = W.realEv((int)op.arg(0)); MEV *M = W.modelEv((int)op.arg(0));
        MW v;
        if (!E || !M || !mWordZ(op.str(0), v) || v.empty()) { o.st = SKIPPED; return; }
        Word *gw = nullptr;
        quiet([&] { gw = realWordZ(op.str(0)); });
        if (!gw) { o.st = SKIPPED; return; }
        bool ok = M->groupOk(v), unk = M->unknown;
        libCall(o, [&] { E->setGroupError(*gw, (int)op.arg(1)); });
        quiet([&] { delete gw; });
        if (o.st == OK_ && ok) M->addGroup(v, (int)op.arg(1));
        if (!unk) evErr(W, o, ok, "defining a letter group");
    }
    static void eclr(World &W, const Op &op, Outcome &o) {
        ErrorValues *E = W.realEv((int)op.arg(0)); MEV *M = W.modelEv((int)op.arg(0));
        if (!E || !M) { o.st = SKIPPED; return; }
        libCall(o, [&] { E->clearErrors(); });
        if (o.st == OK_) M->clear();
        evErr(W, o, true, "clearing");
    }
    static void resync(World &W, ErrorValues *E, MEV *M) {
        static std::vector<u32> ls;
        if (ls.empty()) { for (u32 c = 0x21; c < 0x7f; c++) ls.push_back(c); ls.push_back(0xe5); ls.push_back(0xe4); ls.push_back(0xf6); }
        quiet([&] {
            HostScope h;
            for (u32 a : ls) for (u32 b : ls) if (a < b) {
                int v = E->getSubstituteError((Letter_)a, (Letter_)b);
                if (v != M->sub(a, b)) M->set(a, b, v);
            }
        });
    }
    static void ekbd(World &W, const Op &op, Outcome &o) {
        ErrorValues *E = W.realEv((int)op.arg(0)); MEV *M = W.modelEv((int)op.arg(0));
        if (!E || !M) { o.st = SKIPPED; return; }
        if (op.arg(1)) libCall(o, [&] { E->addNumberpadErrors(); });
        else libCall(o, [&] { E->addKeyboardErrors(); });
        if (o.st == OK_ && !op.arg(1)) M->keyboard();
        resync(W, E, M); // which pairs a table holds is not this oracle's business
        evErr(W, o, true, "loading a built-in table");
    }
    static void esub(World &W, const Op &op, Outcome &o) {
        ErrorValues *E = W.realEv((int)op.arg(0)); MEV *M = W.modelEv((int)op.arg(0));
        if (!E || !M) { o.st = SKIPPED; return; }
        libCall(o, [&] { E->setSubstringMode(); });
        if (o.st == OK_) M->substring();
    }
    static void ecost(World &W, const Op &op, Outcome &o) {
        ErrorValues *E = W.realEv((int)op.arg(0)); MEV *M = W.modelEv((int)op.arg(0));
        if (!E || !M) { o.st = SKIPPED; return; }
        int v = (int)op.arg(2);
        libCall(o, [&] {
            switch (op.arg(1)) {
            case 0: E->setInsertionError(v); break;
            case 1: E->setDeletionError(v); break;
            case 2: E->setEndDeletionError(v); break;
            case 3: E->setStartInsertionError(v); break;
            case 4: E->setTransposeError(v); break;
            case 5: E->setSubstringStartLimit((size_t)v); break;
            }
        });
        if (o.st == OK_) switch (op.arg(1)) {
            case 0: M->ins = v; break; case 1: M->del = v; break; case 2: M->edel = v; break;
            case 3: M->sins = v; break; case 4: M->tr = v; break; case 5: M->limit = (size_t)v; break; }
    }
    static void eget(World &W, const Op &op, Outcome &o) {
        ErrorValues *E = W.realEv((int)op.arg(0)); MEV *M = W.modelEv((int)op.arg(0));
        if (!E || !M) { o.st = SKIPPED; return; }
        u32 a = (u32)op.arg(1), b = (u32)op.arg(2);
        if (g_letterBits == 16) { a &= 0xffff; b &= 0xffff; }
        int v = 0, u = 0;
        libCall(o, [&] { v = E->getSubstituteError((Letter_)a, (Letter_)b); u = E->getSubstituteError((Letter_)b, (Letter_)a); });
        o.data = fmt("%d", v);
        if (M->unknown) o.data.clear();
        if ((W.orc & OR_E) && o.st == OK_ && (v != u || (!M->unknown && v != M->sub(a, b)))) W.violate("cost", fmt("substitution of %x by %x costs %d and back %d instead of %d", a, b, v, u, M->sub(a, b)));
    }
    // ---- word store
    static void storeErr(World &W, Outcome &o, bool okExpected, const char *what) {
        if (!(W.orc & OR_S) || o.st == SKIPPED) return;
        if (o.failed() && !o.hard && okExpected) W.violate("store-error", std::string(what) + " failed: " + statusNames[o.st] + " " + o.what);
        if (o.st == NONSTD) W.violate("store-error", "not an exception derived from std::exception");
    }
    static void snew(World &W, const Op &op, Outcome &o) {
        drop(W, W.s, W.ms, "s", op.arg(0)); W.smaybe.erase((int)op.arg(0));
        WordStore *p = nullptr;
        libCall(o, [&] { p = new WordStore(); });
        if (o.st == OK_) { W.s[(int)op.arg(0)] = p; W.ms[(int)op.arg(0)]; }
        storeErr(W, o, true, "creating a word store");
    }
    static void sdel(World &W, const Op &op, Outcome &o) { if (!get(W.s, op.arg(0))) { o.st = SKIPPED; return; } drop(W, W.s, W.ms, "s", op.arg(0)); W.smaybe.erase((int)op.arg(0)); }
    static void sget(World &W, const Op &op, Outcome &o) {
        WordStore *S = get(W.s, op.arg(0));
        MW v;
        if (!S || !mWordZ(op.str(0), v) || v.empty()) { o.st = SKIPPED; return; }
        Word *q = nullptr;
        quiet([&] { q = realWordZ(op.str(0)); });
        if (!q) { o.st = SKIPPED; return; }
        WordID id = 0;
        libCall(o, [&] { id = S->getID(*q); });
        quiet([&] { delete q; });
        int k = (int)op.arg(0);
        auto &M = W.ms[k];
        if (o.st == OK_) {
            o.data = fmt("id=%u", id);
            auto it = M.find(v);
            if (W.orc & OR_S) {
                if (it != M.end() && it->second != id) W.violate("store-id-changed", fmt("word %s had identity %u and now %u", mShow(v).c_str(), it->second, id));
                if (it == M.end()) for (auto &i : M) if (i.second == id) W.violate("store-id-shared", fmt("words %s and %s share identity %u", mShow(v).c_str(), mShow(i.first).c_str(), id));
                bool back = false;
                bool ok = quiet([&] { Word b = S->getWord(id); HostScope h; back = unitsOf(b) == v; });
                if (!ok || !back) W.violate("store-reverse", fmt("identity %u of %s does not map back to it", id, mShow(v).c_str()));
            }
            M[v] = id;
            W.smaybe[k].erase(v);
        } else if (!M.count(v)) W.smaybe[k].insert(v);
        storeErr(W, o, true, "registering a word");
    }
    static void shas(World &W, const Op &op, Outcome &o) {
        WordStore *S = get(W.s, op.arg(0));
        MW v;
        if (!S || !mWordZ(op.str(0), v) || v.empty()) { o.st = SKIPPED; return; }
        Word *q = nullptr;
        quiet([&] { q = realWordZ(op.str(0)); });
        if (!q) { o.st = SKIPPED; return; }
        bool has = false;
        libCall(o, [&] { has = S->hasWord(*q); });
        quiet([&] { delete q; });
        int k = (int)op.arg(0);
        bool exp = W.ms[k].count(v) > 0, may = W.smaybe[k].count(v) > 0;
        o.data = may ? "" : fmt("%d", has);
        if (o.st == OK_ && (W.orc & OR_S) && !may && has != exp) W.violate("store-has", fmt("word %s is reported as %s", mShow(v).c_str(), has ? "known" : "unknown"));
        storeErr(W, o, true, "asking for a word");
    }
    static void swrd(World &W, const Op &op, Outcome &o) {
        WordStore *S = get(W.s, op.arg(0));
        if (!S) { o.st = SKIPPED; return; }
        u32 id = (u32)op.arg(1);
        bool has = false; MW v;
        Word *q = nullptr;
        bool tried = false;
        libCall(o, [&] { has = S->hasWord((WordID)id); tried = true; q = new Word(S->getWord((WordID)id)); });
        int k = (int)op.arg(0);
        if (q) { HostScope h; v = unitsOf(*q); }
        quiet([&] { delete q; });
        const MW *exp = nullptr;
        for (auto &i : W.ms[k]) if (i.second == id) exp = &i.first;
        bool may = !W.smaybe[k].empty();
        if (W.orc & OR_S) {
            if (o.st == OK_ && exp && (*exp != v || !has)) W.violate("store-reverse", fmt("identity %u reads as %s instead of %s", id, mShow(v).c_str(), mShow(*exp).c_str()));
            if (o.st == OK_ && !exp && !may) W.violate("store-ghost", fmt("identity %u was never handed out but maps to %s", id, mShow(v).c_str()));
            if (o.st == OK_ && !exp && may && !W.smaybe[k].count(v)) W.violate("store-ghost", fmt("identity %u was never handed out but maps to %s", id, mShow(v).c_str()));
            if (o.failed() && !o.hard && exp) W.violate("store-reverse", fmt("identity %u is lost: %s", id, o.what.c_str()));
            if (o.failed() && !o.hard && !exp && o.st != OOR) W.violate("store-error", "unknown identity not reported as out of range");
            if (tried && !exp && has && !may) W.violate("store-ghost", fmt("identity %u was never handed out but is reported as known", id));
        }
        o.data = exp ? mShow(v) : "";
    }
    // ---- fuzzy index
    static void levErr(World &W, Outcome &o, const char *what) {
        if (!(W.orc & OR_X) || o.st == SKIPPED) return;
        if (o.failed() && !o.hard) W.violate("index-error", std::string(what) + " failed: " + statusNames[o.st] + " " + o.what);
        if (o.st == NONSTD) W.violate("index-error", "not an exception derived from std::exception");
    }
    static void xnew(World &W, const Op &op, Outcome &o) {
        drop(W, W.x, W.mx, "x", op.arg(0));
        LevenshteinIndex *p = nullptr;
        libCall(o, [&] { p = new LevenshteinIndex(); });
        if (o.st == OK_) { W.x[(int)op.arg(0)] = p; W.mx[(int)op.arg(0)] = MLev(); }
        levErr(W, o, "creating a fuzzy index");
    }
    static void xdel(World &W, const Op &op, Outcome &o) { if (!get(W.x, op.arg(0))) { o.st = SKIPPED; return; } drop(W, W.x, W.mx, "x", op.arg(0)); }
    static void xins(World &W, const Op &op, Outcome &o) {
        LevenshteinIndex *X = get(W.x, op.arg(0));
        MW v;
        if (!X || !mWordZ(op.str(0), v) || v.empty()) { o.st = SKIPPED; return; }
        MLev &M = W.mx[(int)op.arg(0)];
        u32 id = (u32)op.arg(1);
        auto it = M.words.find(v);
        if (it != M.words.end()) id = it->second.first;
        else for (auto &i : M.words) if (i.second.first == id) { o.st = SKIPPED; return; }
        Word *q = nullptr;
        quiet([&] { q = realWordZ(op.str(0)); });
        if (!q) { o.st = SKIPPED; return; }
        libCall(o, [&] { X->insertWord(*q, id); });
        quiet([&] { delete q; });
        auto &slot = M.words[v];
        slot.first = id;
        if (o.st == OK_) { slot.second++; M.maybe.erase(v); }
        else if (slot.second == 0) M.maybe.insert(v);
        if (o.st != OK_ && slot.second > 0) {}
        levErr(W, o, "adding a word");
        if ((W.orc & OR_X) && !W.bad()) xstate(W, (int)op.arg(0), X, v);
    }
    static void xstate(World &W, int k, LevenshteinIndex *X, const MW &v) {
        MLev &M = W.mx[k];
        size_t n = 0, mx = 0, nw = 0, live = 0;
        bool ok = quiet([&] { n = X->wordCount(M.words[v].first); mx = X->maxCount(); nw = X->numWords(); });
        for (auto &i : M.words) if (i.second.second) live++;
        if (!ok) W.violate("index-count", "reading the counts failed");
        else if (n != M.words[v].second) W.violate("index-count", fmt("word %s was added %zu times but counts %zu", mShow(v).c_str(), M.words[v].second, n));
        else if (mx != M.maxCount()) W.violate("index-count", fmt("largest count is %zu instead of %zu", mx, M.maxCount()));
        else if (nw < live || nw > live + M.maybe.size()) W.violate("index-count", fmt("%zu distinct words instead of %zu", nw, live));
    }
    static void xfind(World &W, const Op &op, Outcome &o) {
        LevenshteinIndex *X = get(W.x, op.arg(0));
        ErrorValues *E = W.realEv((int)op.arg(1)); MEV *M = W.modelEv((int)op.arg(1));
        MW q;
        if (!X || !E || !mWordZ(op.str(0), q) || q.empty()) { o.st = SKIPPED; return; }
        Word *qw = nullptr;
        quiet([&] { qw = realWordZ(op.str(0)); });
        if (!qw) { o.st = SKIPPED; return; }
        int maxe = (int)op.arg(2);
        std::vector<std::pair<u32, int>> got;
        libCall(o, [&] {
            IndexMatches im;
            X->findWords(*qw, *E, maxe, im);
            HostScope h;
            for (size_t i = 0; i < im.size(); i++) got.push_back(std::make_pair(im.getMatch(i), im.getMatchError(i)));
        });
        quiet([&] { delete qw; });
        o.data = "";
        for (auto &g : got) o.data += fmt("%u:%d ", g.first, g.second);
        if ((W.orc & OR_X) && o.st == OK_ && !M->unknown) {
            MLev &L = W.mx[(int)op.arg(0)];
            std::map<u32, int> exp; std::set<u32> may;
            std::map<u32, const MW *> name;
            for (auto &i : L.words) {
                int e = M->distance(q, i.first, maxe);
                name[i.second.first] = &i.first;
                if (e <= maxe) { exp[i.second.first] = e; if (L.maybe.count(i.first)) may.insert(i.second.first); }
            }
            std::set<u32> seen;
            for (size_t i = 0; i < got.size(); i++) {
                std::string nm = name.count(got[i].first) ? mShow(*name[got[i].first]) : "?";
                if (!exp.count(got[i].first)) { W.violate("lookup-extra", fmt("query %s with maximum %d reports %s (id %u, cost %d), which is not within the maximum", mShow(q).c_str(), maxe, nm.c_str(), got[i].first, got[i].second)); return; }
                if (exp[got[i].first] != got[i].second) { W.violate("lookup-cost", fmt("query %s reports %s with cost %d instead of %d", mShow(q).c_str(), nm.c_str(), got[i].second, exp[got[i].first])); return; }
                if (!seen.insert(got[i].first).second) { W.violate("lookup-twice", fmt("query %s reports %s twice", mShow(q).c_str(), nm.c_str())); return; }
                if (i && got[i].second < got[i - 1].second) { W.violate("lookup-order", fmt("query %s: costs not in growing order", mShow(q).c_str())); return; }
            }
            for (auto &e : exp) if (!seen.count(e.first) && !may.count(e.first)) { W.violate("lookup-missing", fmt("query %s with maximum %d misses %s (cost %d)", mShow(q).c_str(), maxe, mShow(*name[e.first]).c_str(), e.second)); return; }
        }
        levErr(W, o, "fuzzy lookup");
    }
    static void xhas(World &W, const Op &op, Outcome &o) {
        LevenshteinIndex *X = get(W.x, op.arg(0));
        MW q;
        if (!X || !mWordZ(op.str(0), q) || q.empty()) { o.st = SKIPPED; return; }
        Word *qw = nullptr;
        quiet([&] { qw = realWordZ(op.str(0)); });
        if (!qw) { o.st = SKIPPED; return; }
        bool has = false;
        libCall(o, [&] { has = X->hasWord(*qw); });
        quiet([&] { delete qw; });
        MLev &L = W.mx[(int)op.arg(0)];
        auto it = L.words.find(q);
        bool may = L.maybe.count(q) > 0;
        o.data = may ? "" : fmt("%d", has);
        if ((W.orc & OR_X) && o.st == OK_ && !may && has != (it != L.words.end() && it->second.second > 0)) W.violate("index-has", "presence of word " + mShow(q) + " is wrong");
        levErr(W, o, "asking for a word");
    }
    // Many words at once (never faulted): xbulk x n first step alphabet mode; mode 1: one word n times.
    static MW bulkWord(u64 i, int alpha) {
        MW w;
        do { w.push_back(alpha > 30 ? 0x4e00 + (u32)(i % alpha) : 'a' + (u32)(i % alpha)); i /= alpha; } while (i);
        return w;
    }
    static void xbulk(World &W, const Op &op, Outcome &o) {
        LevenshteinIndex *X = get(W.x, op.arg(0));
        if (!X) { o.st = SKIPPED; return; }
        MLev &M = W.mx[(int)op.arg(0)];
        long n = (long)op.arg(1); u64 first = (u64)op.arg(2), step = (u64)op.arg(3, 1); int alpha = (int)op.arg(4, 26);
        curFaults = nullptr;
        std::string err;
        for (long i = 0; i < n && err.empty(); i++) {
            MW v = bulkWord(first + (op.arg(5) ? 0 : (u64)i * step), alpha);
            auto it = M.words.find(v);
            u32 id = it != M.words.end() ? it->second.first : 1000000 + (u32)M.words.size();
            std::string t = mUtf8(v);
            std::string w;
            bool ok = quiet([&] { Word q(t.c_str()); X->insertWord(q, id); });
            if (!ok) { err = "adding a word failed"; break; }
            auto &slot = M.words[v]; slot.first = id; slot.second++;
        }
        if (!err.empty()) { if (W.orc & OR_X) W.violate("index-error", err); return; }
        if (!(W.orc & OR_X) || !n) return;
        size_t mx = 0, nw = 0, live = 0; std::string why;
        quiet([&] { mx = X->maxCount(); nw = X->numWords(); });
        for (auto &i : M.words) {
            if (i.second.second) live++;
            size_t c = 0;
            quiet([&] { c = X->wordCount(i.second.first); });
            if (c != i.second.second) { W.violate("index-count", fmt("word %s was added %zu times but counts %zu", mShow(i.first).c_str(), i.second.second, c)); return; }
        }
        if (mx != M.maxCount()) W.violate("index-count", fmt("largest count is %zu instead of %zu", mx, M.maxCount()));
        else if (nw < live || nw > live + M.maybe.size()) W.violate("index-count", fmt("%zu distinct words instead of %zu", nw, live));
    }
    // Simulated cost of a lookup (executed basic-block edges): at most a multiple of the branches that can
    // still be within the limit; what a branch costs is measured by the same code on the same index without limit.
    struct CostNode { std::map<u32, int> kids; };
    static void xcost(World &W, const Op &op, Outcome &o) {
        LevenshteinIndex *X = get(W.x, op.arg(0));
        ErrorValues *E = W.realEv((int)op.arg(1)); MEV *M = W.modelEv((int)op.arg(1));
        MW q;
        if (!X || !E || M->unknown || !mWordZ(op.str(0), q) || q.empty() || !(W.orc & OR_COST)) { o.st = SKIPPED; return; }
        std::vector<CostNode> t(1);
        size_t longest = 0;
        for (auto &w : W.mx[(int)op.arg(0)].words) {
            int at = 0;
            longest = std::max(longest, w.first.size());
            for (u32 u : w.first) {
                auto i = t[(size_t)at].kids.find(u);
                int nx;
                if (i == t[(size_t)at].kids.end()) { nx = (int)t.size(); t[(size_t)at].kids[u] = nx; t.push_back(CostNode()); } else nx = i->second;
                at = nx;
            }
        }
        if (longest > 2000) { o.st = SKIPPED; return; }
        int maxe = (int)op.arg(2);
        // Branches examined: the children of every node from which a word within the limit may still follow.
        size_t n = q.size(), allowed = 0, hits = 0;
        long start = M->startIns(n);
        std::vector<std::vector<long>> rows(longest + 2, std::vector<long>(n + 1));
        std::vector<long> mins(longest + 2);
        for (size_t i = 0; i <= n; i++) rows[0][i] = (long)i * M->ins;
        std::vector<u32> path;
        std::function<void(int, size_t)> walk = [&](int at, size_t d) {
            for (auto &k : t[(size_t)at].kids) {
                allowed++;
                auto &c = rows[d], &p1 = rows[d - 1];
                c[0] = p1[0] + start;
                long mn = c[0];
                for (size_t i = 1; i <= n; i++) {
                    long best = std::min(c[i - 1] + M->ins, p1[i] + (i == n ? M->edel : M->del));
                    best = std::min(best, p1[i - 1] + M->sub(q[i - 1], k.first));
                    if (i > 1 && d > 1 && q[i - 1] == path.back() && q[i - 2] == k.first) best = std::min(best, rows[d - 2][i - 2] + M->tr);
                    c[i] = best;
                    mn = std::min(mn, best);
                }
                mins[d] = mn;
                if (c[n] <= maxe) hits++;
                if (mn <= maxe || mins[d - 1] + M->tr <= maxe) { path.push_back(k.first); walk(k.second, d + 1); path.pop_back(); }
            }
        };
        walk(0, 1);
        if (allowed * 4 > t.size()) { o.data = "all"; return; } // nearly everything may be examined anyhow
        auto cost = [&](int lim, u64 &n_, size_t &found) {
            return quiet([&] {
                Word w(op.str(0).c_str());
                IndexMatches im;
                stepsReset();
                X->findWords(w, *E, lim, im);
                n_ = g_steps;
                found = im.size();
            });
        };
        u64 c0 = 0, c1 = 0, cAll = 0; size_t f = 0, fa = 0;
        if (!cost(maxe, c1, f) || !cost(-1, c0, fa) || !cost(1 << 28, cAll, fa) || !cost(maxe, c1, f)) { o.st = SKIPPED; return; }
        double per = (double)cAll / (double)t.size();
        double bound = 1.5 * (double)c0 + 3 * per * (double)allowed + 12.0 * (double)((longest + 1) * (n + 1)) + 4000;
        g_st->checks++;
        if ((double)c1 > bound) W.violate("lookup-cost-bound", fmt("a lookup of %s with maximum %d takes %llu steps; only %zu of %zu branches can be within the maximum, worth %.0f steps", mShow(q).c_str(), maxe, (unsigned long long)c1, allowed, t.size(), bound));
    }
    // The cost of a whole search against the cost of looking its words up in an index of the same words:
    // nothing is done for documents and words that no branch within the limit leads to. mcost documents seed words kind
    // Kinds 2 and up: a word that is in every document; each of the documents found costs about the same, however many there
    // are, also when they are filtered (3, 4), ranked with bonuses (5), found by several words (6) or in several fields (7).
    static void foundCost(World &W, const Op &op, Outcome &o) {
        long n = (long)op.arg(0), per = (long)op.arg(2, 2), kind = (long)op.arg(3);
        u64 few = 0, many = 0; size_t hitsFew = 0, hitsMany = 0;
        auto run = [&](long docs, u64 &steps, size_t &hits) {
            Rng r((u64)op.arg(1));
            Matcher *M = nullptr;
            bool ok = quiet([&] {
                M = new Matcher();
                Corpus c;
                Word f("title"), f2("text");
                for (long i = 0; i < docs; i++) {
                    std::string t;
                    { HostScope h; t = kind == 6 ? "shared common" : "common"; for (long k = 0; k < per; k++) { t += " "; for (int j = 0; j < 8; j++) t += (char)('a' + r.below(20)); } }
                    Document d((DocumentID)i + 1);
                    d.addText(f, t.c_str());
                    if (kind == 7) d.addText(f2, t.c_str());
                    c.addDocument(d);
                }
                stepsReset();
                M->index(c);
            });
            if (ok) ok = quiet([&] {
                Word f("title"), w("common"), none("nosuch");
                SearchParameters sp;
                if (kind == 3) sp.getResultFilter().addNewSubTerm(f, w);
                if (kind == 4) { sp.getResultFilter().addNewSubTerm(f, none); sp.getResultFilter().addNewTerm(); sp.getResultFilter().addNewSubTerm(f, w); sp.getResultFilter().addNewSubTerm(f, w); }
                WordList ql;
                ql.addWord(w);
                for (int k = 0; k < 2; k++) {
                    stepsReset();
                    MatchResults res = kind == 5 ? M->onlineMatch(ql, f) : M->match(kind == 6 ? "shared common" : "common", sp);
                    steps = g_steps; hits = res.size();
                }
            });
            quiet([&] { delete M; });
            return ok;
        };
        if (!run(n / 8, few, hitsFew) || !run(n, many, hitsMany)) { o.st = SKIPPED; return; }
        g_st->checks++;
        // Sorting what was found costs a logarithm more; three times as much is far above it.
        if ((double)many > 24.0 * (double)few + 50000) W.violate("search-cost-bound", fmt("a search that finds %zu documents takes %llu steps; one that finds %zu takes %llu", hitsMany, (unsigned long long)many, hitsFew, (unsigned long long)few));
    }
    static void mcost(World &W, const Op &op, Outcome &o) {
        if (!(W.orc & OR_COST)) { o.st = SKIPPED; return; }
        curFaults = nullptr;
        if (op.arg(3) >= 2) { foundCost(W, op, o); return; }
        long n = (long)op.arg(0), per = (long)op.arg(2, 2);
        Rng r((u64)op.arg(1));
        auto word = [&] { std::string w; for (int i = 0; i < 8; i++) w += (char)('a' + r.below(20)); return w; };
        Matcher *M = nullptr; LevenshteinIndex *X = nullptr;
        std::vector<std::string> some;
        u64 whole = 0, parts = 0; size_t hits = 0, words = 0;
        bool ok = quiet([&] {
            M = new Matcher(); X = new LevenshteinIndex();
            Corpus c;
            Word f("title");
            for (long i = 0; i < n; i++) {
                std::string t;
                { HostScope h; for (long k = 0; k < per; k++) { std::string w = word(); if (some.size() < 3 && (i + 1) * 5 > (long)(some.size() + 1) * n) some.push_back(w); t += (k ? " " : "") + w; g_inlib = 1; X->insertWord(Word(w.c_str()), (WordID)words++); g_inlib = 0; } }
                Document d((DocumentID)i + 1);
                d.addText(f, t.c_str());
                c.addDocument(d);
            }
            stepsReset();
            M->index(c);
        });
        std::string q;
        if (op.arg(3)) some = {"a", "z"}; // far from everything, so next to nothing is examined
        for (size_t i = 0; i < some.size(); i++) { if (!op.arg(3)) some[i][3] = 'z'; q += (i ? " " : "") + some[i]; }
        if (ok) ok = quiet([&] {
            for (int k = 0; k < 2; k++) { stepsReset(); MatchResults res = M->match(q.c_str()); whole = g_steps; hits = res.size(); }
            ErrorValues e;
            for (auto &s : some) {
                Word w(s.c_str());
                stepsReset();
                IndexMatches im;
                X->findWords(w, e, op.arg(3) ? 100 : 200, im);
                parts += g_steps;
            }
        });
        quiet([&] { delete M; delete X; });
        if (!ok) { o.st = SKIPPED; return; }
        g_st->checks++;
        double bound = 1.5 * (double)parts + 50000 + 3000.0 * (double)hits;
        if ((double)whole > bound) W.violate("search-cost-bound", fmt("a search among %ld documents takes %llu steps; looking its words up in an index of the same words takes %llu", n, (unsigned long long)whole, (unsigned long long)parts));
    }
    // A word far longer than the others: unit repeated up to len letters.
    static void xlong(World &W, const Op &op, Outcome &o) {
        MW u;
        if (!mWord(op.str(0), u) || u.empty()) { o.st = SKIPPED; return; }
        MW v;
        while ((long long)v.size() < op.arg(2)) v.push_back(u[v.size() % u.size()]);
        Op q("xins");
        q.A(op.arg(0)).A(op.arg(1)).S(mUtf8(v)); // (U+F8FF is translated there)
        q.faults = op.faults;
        xins(W, q, o);
    }
    // An index grown until it cannot grow any more, if that ever comes: every addition succeeds or throws a
    // std::exception, and what was added before is still there.
    static void xfill(World &W, const Op &op, Outcome &o) {
        curFaults = nullptr;
        LevenshteinIndex *X = nullptr;
        if (!quiet([&] { X = new LevenshteinIndex(); })) { o.st = SKIPPED; return; }
        long n = (long)op.arg(0);
        size_t len = (size_t)op.arg(1);
        auto text = [&](long k) { std::string t(len, 'a'); for (int i = 0; i < 6; i++) t[(size_t)i] = (char)('a' + (k >> (2 * i) & 3)); return t; };
        long have = 0;
        bool full = false;
        auto check = [&] {
            size_t nw = 0;
            if (!quiet([&] { nw = X->numWords(); }) || (long)nw != have) { W.violate("fill-lost", fmt("%zu distinct words instead of %ld", nw, have)); return; }
            for (long k = 0; k < have && !W.bad(); k = k + 1 < have && k + 16 >= have ? have - 1 : k + 16) {
                std::string t = text(k);
                bool has = false; size_t c = 0;
                bool ok = quiet([&] { Word q(t.c_str()); has = X->hasWord(q); c = X->wordCount((WordID)k); });
                if (!ok || !has || c != 1) W.violate("fill-lost", fmt("word %ld of %ld, added before the index was full, is gone", k, have));
            }
        };
        for (long k = 0; k < n && !W.bad(); k++) {
            std::string t = text(k);
            int st = 1;
            bool ok = quiet([&] {
                Word q(t.c_str());
                try { X->insertWord(q, (WordID)k); }
                catch (std::exception &e) { st = 0; }
                catch (...) { st = 2; }
            });
            if (!ok || st == 2) W.violate("fill-error", fmt("adding word %ld ended in something other than success or a std::exception", k));
            else if (st) have++;
            else { full = true; if (have < k - 1) break; }
        }
        if (!W.bad()) check();
        o.data = fmt("%d", full);
        quiet([&] { delete X; });
    }
    static void sbulk(World &W, const Op &op, Outcome &o) {
        WordStore *S = get(W.s, op.arg(0));
        if (!S) { o.st = SKIPPED; return; }
        auto &M = W.ms[(int)op.arg(0)];
        long n = (long)op.arg(1); u64 first = (u64)op.arg(2), step = (u64)op.arg(3, 1); int alpha = (int)op.arg(4, 26);
        curFaults = nullptr;
        for (long i = 0; i < n; i++) {
            MW v = bulkWord(first + (u64)i * step, alpha);
            std::string t = mUtf8(v);
            WordID id = 0;
            if (!quiet([&] { Word q(t.c_str()); id = S->getID(q); })) { if (W.orc & OR_S) W.violate("store-error", "registering a word failed"); return; }
            auto it = M.find(v);
            if ((W.orc & OR_S) && it != M.end() && it->second != id) { W.violate("store-id-changed", fmt("word %s had identity %u and now %u", mShow(v).c_str(), it->second, id)); return; }
            M[v] = id;
        }
        if (!(W.orc & OR_S)) return;
        std::map<u32, const MW *> back;
        for (auto &i : M) {
            auto ins = back.insert(std::make_pair(i.second, &i.first));
            if (!ins.second) { W.violate("store-id-shared", fmt("words %s and %s share identity %u", mShow(i.first).c_str(), mShow(*ins.first->second).c_str(), i.second)); return; }
            bool same = false; WordID again = 0; 
            bool ok = quiet([&] { HostScope h; Word b = S->getWord(i.second); Word q(wordOf(i.first)); same = b == q; again = S->getID(q); });
            if (!ok || !same || again != i.second) { W.violate("store-reverse", fmt("identity %u of %s does not map back to it", i.second, mShow(i.first).c_str())); return; }
        }
    }
    // ---- search parameters
    static void pnew(World &W, const Op &op, Outcome &o) {
        drop(W, W.p, W.mp, "p", op.arg(0));
        SearchParameters *q = nullptr;
        libCall(o, [&] { q = new SearchParameters(); });
        if (o.st == OK_) { W.p[(int)op.arg(0)] = q; W.mp[(int)op.arg(0)] = MParams(); }
    }
    static void pdel(World &W, const Op &op, Outcome &o) { if (!get(W.p, op.arg(0))) { o.st = SKIPPED; return; } drop(W, W.p, W.mp, "p", op.arg(0)); }
    static void pdyn(World &W, const Op &op, Outcome &o) {
        SearchParameters *q = get(W.p, op.arg(0));
        if (!q) { o.st = SKIPPED; return; }
        libCall(o, [&] { q->setDynamic(op.arg(1) != 0); });
        if (o.st == OK_) W.mp[(int)op.arg(0)].dynamic = op.arg(1) != 0;
    }
    static void pnos(World &W, const Op &op, Outcome &o) {
        SearchParameters *q = get(W.p, op.arg(0));
        MW v;
        if (!q || !mWord(op.str(0), v) || v.empty()) { o.st = SKIPPED; return; }
        Word *f = nullptr;
        quiet([&] { f = new Word(op.str(0).c_str()); });
        if (!f) { o.st = SKIPPED; return; }
        libCall(o, [&] { q->addNonsearchingField(*f); });
        quiet([&] { delete f; });
        if (o.st == OK_) W.mp[(int)op.arg(0)].nosearch.insert(v);
    }
    static void pterm(World &W, const Op &op, Outcome &o) {
        SearchParameters *q = get(W.p, op.arg(0));
        if (!q) { o.st = SKIPPED; return; }
        libCall(o, [&] { q->getResultFilter().addNewTerm(); });
        if (o.st == OK_) W.mp[(int)op.arg(0)].terms.push_back(std::vector<std::pair<MW, MW>>());
    }
    static void psub(World &W, const Op &op, Outcome &o) {
        SearchParameters *q = get(W.p, op.arg(0));
        MW f, v;
        if (!q || !mWord(op.str(0), f) || !mWord(op.str(1), v) || f.empty() || v.empty()) { o.st = SKIPPED; return; }
        Word *a = nullptr, *b = nullptr;
        quiet([&] { a = new Word(op.str(0).c_str()); b = new Word(op.str(1).c_str()); });
        if (!a || !b) { o.st = SKIPPED; return; }
        libCall(o, [&] { q->getResultFilter().addNewSubTerm(*a, *b); });
        quiet([&] { delete a; delete b; });
        if (o.st == OK_) W.mp[(int)op.arg(0)].terms.back().push_back(std::make_pair(f, v));
    }
    // ---- matchers
    static void mnew(World &W, const Op &op, Outcome &o) {
        drop(W, W.m, W.mm, "m", op.arg(0)); W.pending.erase((int)op.arg(0));
        Matcher *q = nullptr;
        libCall(o, [&] { q = new Matcher(); });
        if (o.st == OK_) { W.m[(int)op.arg(0)] = q; W.mm[(int)op.arg(0)] = MMatcher(); }
        matErr(W, o, "creating a matcher");
    }
    static void matErr(World &W, Outcome &o, const char *what) {
        if (!(W.orc & (OR_DOCS | OR_BOUNDS)) || o.st == SKIPPED) return;
        if (o.failed() && !o.hard) W.violate("matcher-error", std::string(what) + " failed: " + statusNames[o.st] + " " + o.what);
        if (o.st == NONSTD) W.violate("matcher-error", "not an exception derived from std::exception");
    }
    static void mdel(World &W, const Op &op, Outcome &o) { if (!get(W.m, op.arg(0))) { o.st = SKIPPED; return; } drop(W, W.m, W.mm, "m", op.arg(0)); W.pending.erase((int)op.arg(0)); }
    static bool sameCorpus(const MCorpus &a, const MCorpus &b) {
        if (a.size() != b.size()) return false;
        for (size_t i = 0; i < a.size(); i++) if (a[i].id != b[i].id || a[i].texts != b[i].texts) return false;
        return true;
    }
    static void mindex(World &W, const Op &op, Outcome &o) {
        Matcher *M = get(W.m, op.arg(0)); Corpus *C = get(W.c, op.arg(1));
        if (!M || !C) { o.st = SKIPPED; return; }
        for (auto &d : W.mc[(int)op.arg(1)]) for (auto &t : d.texts) if (t.first.empty()) { o.st = SKIPPED; return; }
        libCall(o, [&] { M->index(*C); });
        int k = (int)op.arg(0);
        MMatcher &mm = W.mm[k];
        const MCorpus &mc = W.mc[(int)op.arg(1)];
        if (o.st == OK_) {
            mm.index(mc);
            auto &p = W.pending[k];
            for (size_t i = 0; i < p.size(); i++) if (sameCorpus(p[i], mc)) { p.erase(p.begin() + (long)i); break; }
        } else {
            mm.interrupted = true;
            bool have = false;
            for (auto &p : W.pending[k]) if (sameCorpus(p, mc)) have = true;
            if (!have) W.pending[k].push_back(mc);
        }
        matErr(W, o, "indexing");
    }
    static void mwt(World &W, const Op &op, Outcome &o) {
        Matcher *M = get(W.m, op.arg(0));
        MW v;
        if (!M || !mWord(op.str(0), v) || v.empty()) { o.st = SKIPPED; return; }
        Word *f = nullptr;
        quiet([&] { f = new Word(op.str(0).c_str()); });
        if (!f) { o.st = SKIPPED; return; }
        libCall(o, [&] { M->getIndexWeights().setWeight(*f, op.dbl(0)); });
        quiet([&] { delete f; });
        if (o.st == OK_) W.mm[(int)op.arg(0)].weights[v] = op.dbl(0);
    }
    static void mgetw(World &W, const Op &op, Outcome &o) {
        Matcher *M = get(W.m, op.arg(0));
        MW v;
        if (!M || !mWord(op.str(0), v) || v.empty()) { o.st = SKIPPED; return; }
        Word *f = nullptr;
        quiet([&] { f = new Word(op.str(0).c_str()); });
        if (!f) { o.st = SKIPPED; return; }
        double x = -7;
        libCall(o, [&] { x = M->getIndexWeights().getWeight(*f); });
        quiet([&] { delete f; });
        o.data = ::dbl(x);
        auto it = W.mm[(int)op.arg(0)].weights.find(v);
        if ((W.orc & OR_REL) && o.st == OK_ && x != (it == W.mm[(int)op.arg(0)].weights.end() ? 1.0 : it->second)) W.violate("weight", "field weight reads as " + o.data);
    }
    // mq m [p] [form] s=text : form 0 const char*, 1 std::string, 2 word list
    static void mq(World &W, const Op &op, Outcome &o) {
        Matcher *M = get(W.m, op.arg(0));
        if (!M) { o.st = SKIPPED; return; }
        SearchParameters *P = nullptr;
        MParams mp;
        long long pk = op.arg(1, -1);
        if (pk >= 0) { P = get(W.p, pk); if (!P) { o.st = SKIPPED; return; } mp = W.mp[(int)pk]; }
        ML q; bool valid = mTokens(op.str(0), q);
        const std::string &t = op.str(0);
        WordList *L = nullptr;
        if (op.arg(2) == 2) { if (!valid) { o.st = SKIPPED; return; } quiet([&] { L = new WordList(Columbus::splitToWords(t.c_str())); }); if (!L) { o.st = SKIPPED; return; } }
        libCall(o, [&] {
            MatchResults R = P ? (L ? M->match(*L, *P) : M->match(t.c_str(), *P))
                               : (L ? M->match(*L) : op.arg(2) == 1 ? M->match(t) : M->match(t.c_str()));
            o.res = readRes(R);
        });
        { HostScope h; std::vector<std::pair<u64, double>> copy(o.res); g_inlib = 1; std::vector<std::pair<u64, double>>().swap(o.res); g_inlib = 0; o.res = copy; }
        o.hasRes = o.st == OK_;
        if (L) {
            if ((W.orc & (OR_ACC)) ) { ML back; quiet([&] { HostScope h; for (size_t i = 0; i < L->size(); i++) back.push_back(unitsOf((*L)[i])); }); if (back != q) W.violate("query-modified", "a search changed its query"); }
            quiet([&] { delete L; });
        }
        W.checkSearch(op, o, (int)op.arg(0), q, mp, valid);
    }
    static void mon(World &W, const Op &op, Outcome &o) {
        Matcher *M = get(W.m, op.arg(0));
        MW f; ML q;
        if (!M || !mTokens(op.str(0), q) || !mWord(op.str(1), f) || f.empty()) { o.st = SKIPPED; return; }
        WordList *L = nullptr; Word *F = nullptr;
        quiet([&] { L = new WordList(Columbus::splitToWords(op.str(0).c_str())); F = new Word(op.str(1).c_str()); });
        if (!L || !F) { o.st = SKIPPED; return; }
        MMatcher &mm = W.mm[(int)op.arg(0)];
        bool known = mm.fields.count(f) > 0, word = mm.words.count(f) > 0;
        if (!known && word) { quiet([&] { delete L; delete F; }); o.st = SKIPPED; return; } // neither seen nor unseen as a field
        libCall(o, [&] { MatchResults R = M->onlineMatch(*L, *F); o.res = readRes(R); });
        { HostScope h; std::vector<std::pair<u64, double>> copy(o.res); g_inlib = 1; std::vector<std::pair<u64, double>>().swap(o.res); g_inlib = 0; o.res = copy; }
        o.hasRes = o.st == OK_;
        if ((W.orc & OR_ACC)) { ML back; quiet([&] { HostScope h; for (size_t i = 0; i < L->size(); i++) back.push_back(unitsOf((*L)[i])); }); if (back != q) W.violate("query-modified", "an online search changed its query"); }
        if ((W.orc & OR_ONLINE) && !mm.interrupted) {
            if (o.st == OK_ && !known) W.violate("online-accepted", "an online search in field " + mShow(f) + ", which was never indexed, was not rejected");
            if (o.failed() && !o.hard && (known || o.st != INVARG)) W.violate("online-error", std::string("online search failed: ") + statusNames[o.st] + " " + o.what);
            if (o.st == OK_ && known && !W.bad()) {
                // Ordinary search by the library itself plus the bonuses.
                std::map<u64, double> ord;
                bool ok = quiet([&] { MatchResults R = M->match(*L); HostScope h; g_inlib = 1; auto v = readRes(R); g_inlib = 0; for (auto &x : v) ord[x.first] = x.second; });
                if (ok) {
                    std::map<u64, double> exp(ord);
                    std::map<u64, size_t> ex;
                    for (auto &w : q) { auto r = mm.rev.find(std::make_pair(f, w)); if (r != mm.rev.end()) for (u64 d : r->second) ex[d]++; }
                    for (auto &x : ex) { exp[x.first] += 2.0 * (double)x.second; if (x.second == q.size() && mm.sizes[std::make_pair(x.first, f)] == q.size()) exp[x.first] += 100; }
                    std::vector<std::pair<u64, double>> ev(exp.begin(), exp.end());
                    std::string why;
                    if (!sameResults(o.res, ev, false, 1e-9, &why)) W.violate("online-results", "online search for " + pct(op.str(0)) + " in " + mShow(f) + " returned " + why);
                    for (size_t i = 1; i < o.res.size(); i++) if (o.res[i].second > o.res[i - 1].second) { W.violate("online-order", "results are not in non-increasing relevancy"); break; }
                }
            }
        }
        if ((W.orc & OR_BOUNDS) && o.failed() && !o.hard && known) W.violate("matcher-error", std::string("online search failed: ") + statusNames[o.st] + " " + o.what);
        quiet([&] { delete L; delete F; });
    }
    // ---- environment
    static void quota(World &, const Op &op, Outcome &) { setSpaceQuota((u64)op.arg(0)); }
    static void letters(World &W, const Op &op, Outcome &) { W.letters.clear(); for (auto x : op.a) { u32 u = (u32)x; if (g_letterBits == 16) u &= 0xffff; if (std::find(W.letters.begin(), W.letters.end(), u) == W.letters.end()) W.letters.push_back(u); } }
    static void probes(World &W, const Op &op, Outcome &) { W.probes = op.s; }
    static void nop(World &, const Op &, Outcome &) {}
};

void World::checkTextOutcome(const Op &op, const Outcome &o, bool expectOk) {
    if (!(orc & (OR_W | OR_TOK)) || o.st == SKIPPED) return;
    if (o.st == OK_ && !expectOk) violate("text-accepted", "op " + op.name + " accepted " + pct(op.str(0)));
    if (o.failed() && !o.hard && expectOk) violate("value-error", "op " + op.name + " failed: " + statusNames[o.st] + " " + o.what);
    if (o.st == NONSTD) violate("value-error", "not an exception derived from std::exception");
}

void World::checkSearch(const Op &op, Outcome &o, int k, const ML &q, const MParams &p, bool valid) {
    MMatcher &mm_ = mm[k];
    if (o.st == SKIPPED) return;
    if (!valid) {
        if ((orc & OR_TOK) && o.st == OK_) violate("text-accepted", "a search accepted the malformed query " + pct(op.str(0)));
        return;
    }
    u32 so = OR_DOCS | OR_REL | OR_FILTER | OR_BOUNDS;
    if (!(orc & so) || mm_.ev.unknown) return;
    if (o.failed()) {
        if (!o.hard && (orc & (OR_DOCS | OR_BOUNDS | OR_FILTER))) violate("search-error", "search for " + pct(op.str(0)) + " failed: " + statusNames[o.st] + " " + o.what);
        if (o.st == NONSTD) violate("search-error", "not an exception derived from std::exception");
        return;
    }
    std::string why;
    if (orc & (OR_DOCS | OR_BOUNDS)) {
        std::set<u64> got;
        for (auto &x : o.res) if (!got.insert(x.first).second) { violate("search-twice", fmt("document %llu returned twice for ", (unsigned long long)x.first) + pct(op.str(0))); return; }
        MHit lo = mm_.filtered(q, p);
        bool pend = !pending[k].empty();
        if (!pend) {
            std::vector<std::pair<u64, double>> ev(lo.rel.begin(), lo.rel.end());
            if (!sameResults(o.res, ev, true, 0, &why)) { violate("search-docs", "search for " + pct(op.str(0)) + " returned " + why); return; }
        } else {
            MMatcher up(mm_);
            for (auto &c : pending[k]) up.index(c);
            MHit hi = up.filtered(q, p);
            for (auto &d : lo.rel) if (!got.count(d.first)) { violate("search-lost", fmt("acknowledged document %llu is not found by ", (unsigned long long)d.first) + pct(op.str(0))); return; }
            for (u64 d : got) if (!hi.rel.count(d)) { violate("search-misleading", fmt("document %llu is found by ", (unsigned long long)d) + pct(op.str(0)) + " but holds no such word"); return; }
        }
    }
    if ((orc & OR_REL) && !mm_.interrupted) {
        MHit h = mm_.filtered(q, p);
        for (auto &x : o.res) {
            auto e = h.rel.find(x.first);
            if (e != h.rel.end() && !close(x.second, e->second, 1e-9)) {
                violate("relevancy", fmt("document %llu has relevancy %.15g instead of %.15g for ", (unsigned long long)x.first, x.second, e->second) + pct(op.str(0)));
                return;
            }
        }
        for (size_t i = 1; i < o.res.size(); i++)
            if (!(o.res[i].second <= o.res[i - 1].second)) { violate("order", "results are not in non-increasing relevancy: " + resStr(o.res)); return; }
    }
    if ((orc & OR_FILTER) && op.arg(1, -1) >= 0) {
        // The same search without filter terms but with the same exclusions, and without anything, by the library.
        SearchParameters *P = nullptr;
        std::vector<std::pair<u64, double>> un;
        bool ok = quiet([&] {
            P = new SearchParameters();
            P->setDynamic(p.dynamic);
            for (auto &f : p.nosearch) { Word fw(mUtf8(f).c_str()); P->addNonsearchingField(fw); }
            MatchResults R = m[k]->match(op.str(0).c_str(), *P);
            auto v = readRes(R);
            HostScope h;
            un = std::vector<std::pair<u64, double>>(v);
        });
        quiet([&] { delete P; });
        if (!ok) { violate("filter-error", "the unfiltered search failed"); return; }
        std::vector<std::pair<u64, double>> exp;
        for (auto &x : un) if (mm_.passes(x.first, p)) exp.push_back(x);
        if (exp != o.res) { violate("filter-results", "filtered search for " + pct(op.str(0)) + " returned " + resStr(o.res) + " instead of " + resStr(exp)); return; }
        // Excluded fields contribute neither documents nor relevancy.
        if (!p.nosearch.empty()) {
            MHit h = mm_.filtered(q, p);
            std::vector<std::pair<u64, double>> ev(h.rel.begin(), h.rel.end());
            if (!sameResults(o.res, ev, mm_.interrupted, 1e-9, &why)) { violate("exclusion-results", "search with excluded fields for " + pct(op.str(0)) + " returned " + why); return; }
        }
    }
}

std::string World::targetOf(const Op &op) const {
    static const std::map<std::string, const char *> t = {
        {"wnew", "w"}, {"wstr", "w"}, {"wlet", "w"}, {"wcopy", "w"}, {"wmovc", "w"}, {"wasg", "w"}, {"wmov", "w"}, {"wtxt", "w"},
        {"wtxts", "w"}, {"wjoin", "w"}, {"wdel", "w"}, {"lnew", "l"}, {"lcopy", "l"}, {"lmovc", "l"}, {"lasg", "l"}, {"lmov", "l"},
        {"ladd", "l"}, {"laddl", "l"}, {"ldel", "l"}, {"lsplit", "l"}, {"dnew", "d"}, {"dcopy", "d"}, {"dasg", "d"}, {"daddl", "d"},
        {"daddt", "d"}, {"dalias", "d"}, {"ddel", "d"}, {"cnew", "c"}, {"cadd", "c"}, {"caddown", "c"}, {"cdel", "c"}, {"rnew", "r"},
        {"rcopy", "r"}, {"rmovc", "r"}, {"rasg", "r"}, {"rmov", "r"}, {"radd", "r"}, {"rcat", "r"}, {"rcpy", "r"}, {"rdel", "r"},
        {"enew", "e"}, {"edel", "e"}, {"eset", "e"}, {"egrp", "e"}, {"eclr", "e"}, {"ekbd", "e"}, {"esub", "e"}, {"ecost", "e"},
        {"eacc", "e"}, {"snew", "s"}, {"sdel", "s"}, {"sget", "s"}, {"xnew", "x"}, {"xdel", "x"}, {"xins", "x"}, {"pnew", "p"}, {"pdel", "p"},
        {"pdyn", "p"}, {"pnos", "p"}, {"pterm", "p"}, {"psub", "p"}, {"mnew", "m"}, {"mdel", "m"}, {"mindex", "m"}, {"mwt", "m"}};
    if (op.name == "dnames") return fmt("l%lld", op.arg(1));
    auto i = t.find(op.name);
    return i == t.end() ? "" : fmt("%s%lld", i->second, op.arg(0));
}

extern const std::map<std::string, Handler> &moreHandlers();
static const std::map<std::string, Handler> &table() {
#define H(n) {#n, &Handlers::n}
    static const std::map<std::string, Handler> t = {
        H(wnew), H(wstr), H(wlet), H(wcopy), H(wmovc), H(wasg), H(wmov), H(wtxt), H(wtxts), H(wjoin), H(wdel), H(wrd), H(wcmp), H(wcmpt),
        H(lnew), H(lcopy), H(lmovc), H(lasg), H(lmov), H(ladd), H(laddl), H(lget), H(lcmp), H(ldel), H(lsplit),
        H(dnew), H(dcopy), H(dasg), H(daddl), H(daddt), H(dalias), H(ddel), H(dnames), H(dget), H(dcount),
        H(cnew), H(cadd), H(caddown), H(cget), H(cdel), H(mkdoc),
        H(rnew), H(rcopy), H(rmovc), H(rasg), H(rmov), H(radd), H(rcat), H(rcpy), H(rget), H(rdel),
        H(enew), H(edel), H(eset), H(egrp), H(eclr), H(ekbd), H(esub), H(ecost), H(eget),
        H(snew), H(sdel), H(sget), H(shas), H(swrd), H(xbulk), H(sbulk), H(xlong), H(xfill), H(xcost), H(mcost), H(xnew), H(xdel), H(xins), H(xfind), H(xhas),
        H(pnew), H(pdel), H(pdyn), H(pnos), H(pterm), H(psub), H(mnew), H(mdel), H(mindex), H(mwt), H(mgetw), H(mq), H(mon),
        H(quota), H(letters), H(probes), H(nop)};
#undef H
    return t;
}

Outcome World::exec(const Op &op, bool withFaults) {
    Outcome o;
    curFaults = withFaults ? &op.faults : nullptr;
    memset(&g_op, 0, sizeof g_op);
    // Every call has to end. How many steps it may honestly take depends on how much text there is.
    u64 text = 0;
    for (auto &s : op.s) text += s.size();
    textBytes += text;
    largestText = std::max(largestText, text);
    if (g_stepLimit != ~0ULL) g_stepLimit = std::min<u64>(400000000ULL + 100 * textBytes * largestText, 6000000000ULL);
    auto &t = table();
    auto i = t.find(op.name);
    if (i != t.end()) i->second(*this, op, o);
    else {
        auto &t2 = moreHandlers();
        auto j = t2.find(op.name);
        if (j != t2.end()) j->second(*this, op, o);
#ifdef SIM_PYTHON
        else if (pyHandlers().count(op.name)) pyHandlers().at(op.name)(*this, op, o);
#endif
        else o.st = SKIPPED;
    }
    curFaults = nullptr;
    return o;
}
