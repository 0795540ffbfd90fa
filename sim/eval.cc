#include "eval.h"
#include "tsanrt.h"
#include "gen.h"
#include "calls.h"
#include <cmath>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>

static Stats localStats;
Stats *g_st = &localStats;
static Shared localShared;

void phase(int p, int op) { if (!g_sh) g_sh = &localShared; g_sh->phase = p; g_sh->op = op; }

// ------------------------------------------------------------------ data files of the run
static void prepareData(const Scenario &sc) {
    const char *share = getenv("SIM_SHARE");
    if (sc.dataFile[0].empty() && sc.dataFile[1].empty()) { setenv("COLUMBUS_DATADIR", share ? share : "/repo/share", 1); return; }
    const char *base = getenv("SIM_SCRATCH");
    std::string dir = fmt("%s/%d", base ? base : "/tmp", (int)getpid());
    mkdir(dir.c_str(), 0755);
    const char *nm[] = {"/latinAccentedLetterGroups.txt", "/greekAccentedLetterGroups.txt"};
    for (int i = 0; i < 2; i++) {
        std::string p = dir + nm[i];
        unlink(p.c_str());
        rmdir(p.c_str());
        if (sc.dataFile[i] == "!missing") continue;
        if (sc.dataFile[i] == "!dir") { mkdir(p.c_str(), 0755); continue; }
        std::ofstream o(p.c_str(), std::ios::binary | std::ios::trunc);
        o << sc.dataFile[i];
    }
    setenv("COLUMBUS_DATADIR", dir.c_str(), 1);
}

// ------------------------------------------------------------------ executions
struct Exec {
    World W;
    std::vector<Outcome> out;
    std::vector<OpCounts> counts;
    std::vector<u64> space, peak;
    u64 hash = 7;
    explicit Exec(const Scenario &sc, const Env &env, u32 orc) {
        prepareData(sc);
        W.orc = orc;
        W.data[0] = sc.dataFile[0]; W.data[1] = sc.dataFile[1];
        MW fw;
        for (auto &o : sc.ops) if ((o.name == "mwt" || o.name == "mgetw") && mWord(o.str(0), fw) && !fw.empty()) W.weightNames.insert(o.str(0));
        envBegin(env);
        g_st->executions++;
    }
    ~Exec() { close(); }
    bool closed = false;
    Ledger left;
    void close() {
        if (closed) return;
        closed = true;
        W.destroyAll();
        left = ledger();
        hash = mix64(hash ^ seamLogHash());
        envEnd();
    }
    void note(const Outcome &o) { hash = fnvs(o.str(), hash); }
    Outcome step(const Op &op, int i, bool faults) {
        W.curOp = i;
        if (g_sh) g_sh->op = i;
        g_peakSpace = tmpSpaceUsed();
        Outcome o = W.exec(op, faults);
        note(o);
        g_st->ops++;
        if (o.st == OK_) g_st->opsOk++;
        else if (o.st != SKIPPED && !o.hard) g_st->opsExpectedErr++;
        if (o.hard) { g_st->opsFaulted++; if (o.failed()) g_st->opsFailedByFault++; else g_st->opsMasked++; }
        if (op.name == "mq" || op.name == "mon" || op.name == "kms" || op.name == "xfind") g_st->searches++;
        return o;
    }
};

static Env benign() {
    Env e;
    e.garbage = 0x5a; e.layout = 3; e.clock = 1; e.clockMode = 0; e.rnd = 1;
    return e;
}

static void tooLong(const Scenario &sc) { if (sc.ops.size() > g_st->maxOps) g_st->maxOps = sc.ops.size(); }

// ------------------------------------------------------------------ model-checked runs
static u32 oracles(const std::string &p) {
    if (p == "C01") return OR_DOCS;
    if (p == "C02") return OR_REL;
    if (p == "C03") return OR_X;
    if (p == "C04") return OR_S;
    if (p == "C12") return OR_ACC | OR_E;
    if (p == "C13") return OR_CAPI;
    if (p == "C14") return OR_BOUNDS;
    if (p == "C15") return OR_FILTER;
    if (p == "C16") return OR_ONLINE;
    if (p == "C17") return OR_R;
    if (p == "C18") return OR_W;
    if (p == "C19") return OR_TOK | OR_W;
    if (p == "C20") return OR_E;
    if (p == "C24") return OR_PY;
    if (p == "C25") return OR_COST;
    return 0;
}
static Result evalModel(const Scenario &sc, Ledger *left = nullptr) {
    Result r;
    u32 orc = oracles(sc.prop);
    phase(PH_RUN);
    Exec x(sc, sc.env, orc);
    const u32 content = OR_W | OR_TOK | OR_R | OR_E | OR_S;
    size_t n = sc.ops.size();
    size_t every = n <= 60 ? 1 : n <= 150 ? 4 : 16;
    for (size_t i = 0; i < n && !x.W.bad(); i++) {
        Outcome o = x.step(sc.ops[i], (int)i, true);
        if (x.W.bad()) break;
        if ((orc & content) && o.st != SKIPPED && (i % every == 0 || o.failed() || i + 1 == n)) {
            phase(PH_CHECK, (int)i);
            x.W.verify(orc);
            g_st->checks++;
            phase(PH_RUN, (int)i);
        }
    }
    if (!x.W.bad() && (orc & content)) { phase(PH_CHECK); x.W.verify(orc); }
    r.cls = x.W.vcls; r.msg = x.W.vmsg;
    x.close();
    if (left) *left = x.left;
    r.hash = x.hash;
    return r;
}
// Python: as for every model, and whatever was acquired is released with the last reference.
static Result evalPython(const Scenario &sc) {
    Ledger a = Ledger(), b = Ledger();
    Result r = evalModel(sc, &a);
    if (r.bad() || !(a.blocks || a.fds || a.maps || a.iconvs || a.files)) return r;
    Result q = evalModel(sc, &b);
    if (q.bad()) return q;
    if ((a.blocks && b.blocks) || (a.fds && b.fds) || (a.maps && b.maps) || (a.iconvs && b.iconvs) || (a.files && b.files)) {
        r.cls = "py-released";
        r.msg = "after the last reference to every Python object is gone the library still holds " + ledgerStr(b) + ", and so again when repeated in the same process";
    }
    return r;
}

// ------------------------------------------------------------------ C05 / C06: failure, recovery, equivalence with a fault-free twin
static const char *const allKinds = "wldcresxpm";
struct TwinEnd { std::map<std::string, std::string> snap; std::map<int, std::vector<World::Probe>> probes; };
static TwinEnd endState(World &W) {
    TwinEnd t;
    t.snap = W.snapshot(allKinds, false);
    for (auto &m : W.m) t.probes[m.first] = W.probeMatcher(m.first);
    return t;
}
static bool looseData(const std::string &n) { return n == "sget" || n == "swrd"; }
static std::string differs(World &W, const Op &op, const Outcome &a, const Outcome &b) {
    if (a.st != b.st) return std::string("ended with ") + statusNames[a.st] + " (" + a.what + ") instead of " + statusNames[b.st] + " (" + b.what + ")";
    if (!looseData(op.name) && a.data != b.data) return "returned <" + a.data + "> instead of <" + b.data + ">";
    if (a.hasRes) {
        bool loose = false;
        auto m = W.mm.find((int)op.arg(0));
        if (m != W.mm.end() && m->second.interrupted) loose = true;
        std::string why;
        if (!sameResults(a.res, b.res, loose, 1e-9, &why)) return "returned " + why;
    }
    return "";
}
static bool probesEqual(const std::vector<World::Probe> &a, const std::vector<World::Probe> &b, int mode, std::string *why) { // 0 exact, 1 tolerance, 2 documents only, 3 documents may only be added
    for (size_t i = 0; i < a.size() && i < b.size(); i++) {
        if (a[i].st != b[i].st) { *why = "search for " + pct(a[i].what) + " ends differently from " + pct(b[i].what); return false; }
        if (mode == 0) { if (a[i].res != b[i].res) { *why = "search for " + pct(a[i].what) + " returns " + resStr(a[i].res) + " instead of " + resStr(b[i].res); return false; } }
        else if (mode == 3) {
            std::set<u64> s;
            for (auto &x : a[i].res) s.insert(x.first);
            for (auto &x : b[i].res) if (!s.count(x.first)) { *why = fmt("search for %s no longer finds document %llu", pct(a[i].what).c_str(), (unsigned long long)x.first); return false; }
        } else {
            std::string w;
            if (!sameResults(a[i].res, b[i].res, mode == 2, 1e-9, &w)) { *why = "search for " + pct(a[i].what) + " returns " + w; return false; }
        }
    }
    return true;
}
// What a failed operation may have changed.
static std::string unchanged(World &W, const Op &op, const std::map<std::string, std::string> &pre, const std::map<std::string, std::string> &post) {
    std::string t = W.targetOf(op);
    static const std::set<std::string> construct = {"wnew", "wstr", "wlet", "wcopy", "wmovc", "wjoin", "lnew", "lcopy", "lmovc", "lsplit", "dnew", "dcopy", "cnew",
        "rnew", "rcopy", "rmovc", "enew", "snew", "xnew", "pnew", "mnew", "mkdoc"};
    for (auto &k : pre) {
        auto q = post.find(k.first);
        std::string now = q == post.end() ? "(gone)" : q->second;
        if (now == k.second) continue;
        if (k.first == t) {
            if (construct.count(op.name)) continue;                                            // the slot was emptied by the harness
            if ((op.name == "wtxt" || op.name == "wtxts") && now == mShow(MW()) + " utf8=") continue; // empty is allowed
            if (op.name == "ekbd" || op.name == "eacc") continue;                              // a table may be partly loaded
        }
        if (op.name == "dnames" && k.first == t) continue;
        if (op.name == "mnew" && k.first == fmt("e%lld", op.arg(0) + 100)) continue;
        if (k.first[0] == 'p' && t[0] == 'w') continue;                                        // shown in terms of the words
        return "object " + k.first + " was <" + k.second + "> and is now <" + now + ">";
    }
    return "";
}

static Result evalTwin(const Scenario &sc) {
    Result r;
    const bool c05 = sc.prop == "C05";
    // 1. as if no failure had ever happened
    phase(PH_DRY);
    std::vector<Outcome> twin;
    std::vector<u64> peak;
    TwinEnd fin;
    {
        Env e = sc.env; e.quota = 0;
        Exec x(sc, e, 0);
        for (size_t i = 0; i < sc.ops.size(); i++) {
            if (sc.ops[i].name == "quota") { twin.push_back(Outcome()); peak.push_back(0); continue; }
            twin.push_back(x.step(sc.ops[i], (int)i, false));
            peak.push_back(g_peakSpace);
        }
        { int sl = 90; auto it = x.W.x.find(sl); if (it != x.W.x.end()) { auto *p = it->second; x.W.x.erase(it); x.W.mx.erase(sl); quiet([&] { delete p; }); } }
        fin = endState(x.W);
    }
    // 2. with failures
    phase(PH_RUN);
    Exec x(sc, sc.env, 0);
    World &W = x.W;
    u64 quota = 0, ballast = 0;
    bool ballastGone = false, ended = false;
    u64 failures = 0;
    auto fail = [&](const char *c, const std::string &m) { W.violate(c, m); };
    for (size_t i = 0; i < sc.ops.size() && !W.bad(); i++) {
        const Op &op = sc.ops[i];
        if (op.name == "quota") { quota = (u64)op.arg(0); if (!ballastGone) setSpaceQuota(quota); x.step(op, (int)i, true); continue; }
        if (ballastGone && op.name[0] == 'x' && op.arg(0) == 90) continue;
        bool may = !op.faults.empty() || quota;
        std::map<std::string, std::string> pre;
        std::vector<World::Probe> ppre;
        int pm = -1;
        if (may) {
            pre = W.snapshot(allKinds, true);
            if (op.name == "mq" || op.name == "mon" || op.name == "mindex" || op.name == "mwt") pm = (int)op.arg(0);
            if (pm >= 0 && W.m.count(pm)) ppre = W.probeMatcher(pm); else pm = -1;
        }
        u64 before = tmpSpaceUsed();
        Outcome o = x.step(op, (int)i, true);
        if (op.name[0] == 'x' && op.arg(0) == 90) ballast += tmpSpaceUsed() - before;
        phase(PH_CHECK, (int)i);
        if (o.st == NONSTD) { fail("report", "op " + op.name + " reported the failure by something that is not a std::exception"); break; }
        if (!o.hard || !o.failed()) {
            // Nothing failed, or the failure was masked: everything must be as without it.
            std::string d = differs(W, op, o, twin[i]);
            if (!d.empty()) { fail(o.hard ? "masked-failure" : "later-effect", "op " + op.name + " " + d + (o.hard ? " although it reported success" : "")); break; }
            phase(PH_RUN, (int)i);
            continue;
        }
        g_st->checks++;
        {
            auto post = W.snapshot(allKinds, true);
            std::string d = unchanged(W, op, pre, post);
            if (!d.empty()) { fail("lost-content", "after op " + op.name + " failed (" + statusNames[o.st] + "), " + d); break; }
            if (pm >= 0 && W.m.count(pm)) {
                std::string why;
                if (!probesEqual(W.probeMatcher(pm), ppre, op.name == "mindex" ? 3 : 0, &why)) { fail("lost-content", "after op " + op.name + " failed, " + why); break; }
            }
        }
        phase(PH_RUN, (int)i);
        // Some lives end with the failure: nothing is repeated, everything is destroyed as it is.
        if (mix64(sc.env.garbage + 77) % 4 == 0 && ++failures > mix64(sc.env.garbage + 78) % 3) { ended = true; break; }
        if (quota && !ballastGone && c05) {
            // The failure condition goes away because another index is destroyed.
            ballastGone = true;
            auto it = W.x.find(90);
            bool had = it != W.x.end();
            if (had) { auto *p = it->second; W.x.erase(it); W.mx.erase(90); quiet([&] { delete p; }); }
            g_st->retries++;
            g_st->quotaHits++;
            Outcome o2 = x.step(op, (int)i, false);
            if (o2.failed() && o2.hard) {
                if (had && ballast && peak[i] - ballast <= quota) { fail("no-recovery", fmt("op %s still fails after another index was destroyed and its %llu bytes of storage should have been given back", op.name.c_str(), (unsigned long long)ballast)); break; }
                quota = 0;
                setSpaceQuota(0);
                o2 = x.step(op, (int)i, false);
            }
            quota = 0;
            setSpaceQuota(0);
            o = o2;
        } else {
            if (quota) { quota = 0; setSpaceQuota(0); }
            g_st->retries++;
            o = x.step(op, (int)i, false);
        }
        phase(PH_CHECK, (int)i);
        std::string d = differs(W, op, o, twin[i]);
        if (!d.empty()) { fail("retry", "op " + op.name + ", repeated after its failure was over, " + d); break; }
        phase(PH_RUN, (int)i);
    }
    if (ended) setSpaceQuota(0);
    if (!W.bad() && !ended) {
        phase(PH_CHECK);
        setSpaceQuota(0);
        { auto it = W.x.find(90); if (it != W.x.end()) { auto *p = it->second; W.x.erase(it); W.mx.erase(90); quiet([&] { delete p; }); } }
        TwinEnd t = endState(W);
        for (auto &k : fin.snap)
            if (t.snap[k.first] != k.second) { fail("final-content", "object " + k.first + " ends as <" + t.snap[k.first] + "> instead of <" + k.second + ">"); break; }
        if (!W.bad())
            for (auto &p : fin.probes) {
                std::string why;
                if (!probesEqual(t.probes[p.first], p.second, W.mm[p.first].interrupted ? 2 : 1, &why)) { fail("final-search", why); break; }
            }
    }
    r.cls = W.vcls; r.msg = W.vmsg;
    phase(PH_RUN);
    x.close();
    r.hash = x.hash;
    return r;
}

// ------------------------------------------------------------------ C07: the ledger of acquired resources
static Result evalLedger(const Scenario &sc) {
    Result r;
    Ledger first = Ledger(), second = Ledger();
    for (int rep = 0; rep < 2; rep++) {
        phase(PH_RUN);
        Exec x(sc, sc.env, 0);
        int failed = 0;
        std::string last;
        for (size_t i = 0; i < sc.ops.size(); i++) { Outcome o = x.step(sc.ops[i], (int)i, true); if (o.failed()) { failed++; last = sc.ops[i].name; } }
        x.close();
        r.hash = x.hash;
        g_st->checks++;
        const Ledger &l = x.left;
        if (rep == 0) first = l; else second = l;
        if (!(l.blocks || l.fds || l.maps || l.iconvs || l.files)) return r;
    }
    // What is only acquired once per process is a cache, not a leak.
    auto kind = [&](u64 a, u64 b, const char *n) { if (a && b && r.cls.empty()) r.cls = std::string("leak:") + n; };
    kind(first.maps, second.maps, "mapping"); kind(first.fds, second.fds, "temporary-file"); kind(first.iconvs, second.iconvs, "conversion-handle");
    kind(first.files, second.files, "data-file"); kind(first.blocks, second.blocks, "memory");
    if (r.bad()) r.msg = "after all objects were destroyed the library still holds " + ledgerStr(second) + ", and so again when repeated in the same process";
    return r;
}

// ------------------------------------------------------------------ C08: searches are read-only
static bool isSearch(const Op &o) { return o.name == "mq" || o.name == "mon"; }
static bool differsExact(const Outcome &a, const Outcome &b, std::string *why) {
    if (a.st != b.st) { *why = std::string("ends with ") + statusNames[a.st] + " (" + a.what + ") instead of " + statusNames[b.st] + " (" + b.what + ")"; return true; }
    if (a.hasRes && a.res != b.res) { *why = "returns " + resStr(a.res) + " instead of " + resStr(b.res); return true; }
    if (a.data != b.data) { *why = "returns <" + a.data + "> instead of <" + b.data + ">"; return true; }
    return false;
}
static Result evalReadOnly(const Scenario &sc) {
    Result r;
    std::vector<size_t> searches;
    for (size_t i = 0; i < sc.ops.size(); i++) if (isSearch(sc.ops[i])) searches.push_back(i);
    Rng rr(mix64(sc.seed * 131 + (u64)sc.run));
    std::vector<size_t> pick(searches);
    while (pick.size() > 10) pick.erase(pick.begin() + (long)rr.below(pick.size()));
    // Each chosen search in the history without the other searches.
    std::map<size_t, Outcome> alone;
    for (size_t k : pick) {
        phase(PH_DRY, (int)k);
        Exec x(sc, sc.env, 0);
        for (size_t i = 0; i <= k; i++) {
            if (i != k && isSearch(sc.ops[i])) continue;
            Outcome o = x.step(sc.ops[i], (int)i, false);
            if (i == k) alone[k] = o;
        }
    }
    phase(PH_RUN);
    Exec x(sc, sc.env, OR_ACC);
    for (size_t i = 0; i < sc.ops.size() && !x.W.bad(); i++) {
        const Op &op = sc.ops[i];
        std::map<std::string, std::string> pre;
        if (isSearch(op)) pre = x.W.snapshot("pe");
        Outcome o = x.step(op, (int)i, true);
        if (!isSearch(op)) continue;
        g_st->checks++;
        if (x.W.snapshot("pe") != pre) x.W.violate("search-config", "a search changed its parameters or the cost configuration");
        auto a = alone.find(i);
        if (a == alone.end() || (o.hard && o.failed()) || o.st == SKIPPED || a->second.st == SKIPPED) continue;
        std::string why;
        if (differsExact(o, a->second, &why)) x.W.violate("search-effect", op.name + " for " + pct(op.str(0)) + " after other searches " + why + " (without them)");
    }
    r.cls = x.W.vcls; r.msg = x.W.vmsg;
    x.close();
    r.hash = x.hash;
    return r;
}

// ------------------------------------------------------------------ C09: incremental indexing
// Is everything that is as relevant as entry k, up to rounding, exactly as relevant?
static bool tied(const std::vector<std::pair<u64, double>> &v, size_t k) {
    for (auto &x : v) if (x.second != v[k].second && fabs(x.second - v[k].second) <= 1e-9 * fabs(v[k].second)) return false;
    return true;
}
static Result evalIncremental(const Scenario &sc) {
    Result r;
    // The reference: every document that was indexed, in one corpus.
    Scenario ref = sc;
    ref.ops.clear();
    std::map<long long, std::vector<Op>> corp;
    std::vector<Op> docs;
    size_t split = sc.ops.size();
    for (size_t i = 0; i < sc.ops.size(); i++) if (sc.ops[i].name == "nop") { split = i; break; }
    for (size_t i = 0; i < split; i++) {
        const Op &o = sc.ops[i];
        if (o.name == "mkdoc") corp[o.arg(0)].push_back(o);
        else if (o.name == "cdel") corp.erase(o.arg(0));
        else if (o.name == "mindex") for (auto d : corp[o.arg(1)]) { d.a[0] = 77; docs.push_back(d); }
    }
    if (sc.mode == 1) { Rng rr(mix64(sc.seed ^ (u64)sc.run * 77)); for (size_t i = docs.size(); i > 1; i--) std::swap(docs[i - 1], docs[rr.below(i)]); }
    ref.ops.push_back(Op("mnew").A(0));
    // Parameters, weights and costs set along the way.
    for (size_t i = 0; i < split; i++) {
        const Op &o = sc.ops[i];
        if (o.name != "mkdoc" && o.name != "mindex" && o.name != "mnew" && !isSearch(o) && o.name[0] != 'c') ref.ops.push_back(o);
    }
    ref.ops.push_back(Op("cnew").A(77));
    for (auto &d : docs) ref.ops.push_back(d);
    ref.ops.push_back(Op("mindex").A(0).A(77));
    std::vector<Outcome> want;
    size_t head = ref.ops.size();
    for (size_t i = split; i < sc.ops.size(); i++) ref.ops.push_back(sc.ops[i]);
    phase(PH_DRY);
    {
        Exec x(ref, sc.env2, 0);
        for (size_t i = 0; i < ref.ops.size(); i++) {
            Outcome o = x.step(ref.ops[i], (int)i, false);
            if (i >= head) want.push_back(o);
        }
    }
    phase(PH_RUN);
    Exec x(sc, sc.env, 0);
    for (size_t i = 0; i < sc.ops.size() && !x.W.bad(); i++) {
        Outcome o = x.step(sc.ops[i], (int)i, i < split);
        if (i < split) continue;
        const Outcome &w = want[i - split];
        g_st->checks++;
        if (!isSearch(sc.ops[i])) continue;
        std::string what = sc.ops[i].name + " for " + pct(sc.ops[i].str(0));
        if (o.st != w.st) x.W.violate("incremental-error", what + " ends with " + statusNames[o.st] + " (" + o.what + ") instead of " + statusNames[w.st] + " as in one corpus");
        else if (o.hasRes) {
            std::string why;
            if (!sameResults(o.res, w.res, false, 1e-9, &why)) x.W.violate("incremental-results", what + " returns " + why + " as in one corpus");
            else if (sc.mode == 0)
                for (size_t k = 0; k < o.res.size(); k++)
                    // Exactly equal relevancies keep their order; those that differ by rounding only need not.
                    if (o.res[k].first != w.res[k].first && tied(o.res, k) && tied(w.res, k)) { x.W.violate("incremental-order", what + " returns " + resStr(o.res) + " instead of " + resStr(w.res)); break; }
        }
    }
    r.cls = x.W.vcls; r.msg = x.W.vmsg;
    x.close();
    r.hash = x.hash;
    return r;
}

// ------------------------------------------------------------------ C11: independence of the environment
static Result evalEnvironment(const Scenario &sc) {
    Result r;
    std::vector<std::vector<Outcome>> all;
    std::vector<std::map<std::string, std::string>> snaps;
    for (int k = 0; k < 3; k++) {
        phase(k == 0 ? PH_DRY : PH_RUN);
        Exec x(sc, k == 0 ? benign() : k == 1 ? sc.env : sc.env2, 0);
        std::vector<Outcome> o;
        for (size_t i = 0; i < sc.ops.size(); i++) o.push_back(x.step(sc.ops[i], (int)i, false));
        phase(k == 0 ? PH_DRY : PH_CHECK);
        snaps.push_back(x.W.snapshot(allKinds, true));
        x.close();
        r.hash = mix64(r.hash ^ x.hash);
        all.push_back(o);
    }
    g_st->checks++;
    static const char *const names[] = {"a plain environment", "the first environment", "the second environment"};
    for (int k = 1; k < 3 && !r.bad(); k++) {
        for (size_t i = 0; i < sc.ops.size(); i++) {
            std::string why;
            if (differsExact(all[(size_t)k][i], all[0][i], &why)) { r.cls = "environment"; r.msg = fmt("op %zu (%s) in %s ", i, sc.ops[i].name.c_str(), names[k]) + why + ", as in " + names[0]; break; }
        }
        if (!r.bad())
            for (auto &s : snaps[0]) if (snaps[(size_t)k][s.first] != s.second) { r.cls = "environment"; r.msg = "object " + s.first + " ends in " + names[k] + " as <" + snaps[(size_t)k][s.first] + "> instead of <" + s.second + ">"; break; }
    }
    u64 h = 5;
    for (auto &o : all[0]) {
        std::string s = statusNames[o.st];
        s += o.data;
        for (auto &x : o.res) s += fmt(" %llu:%.9g", (unsigned long long)x.first, x.second);
        h = fnvs(s, h);
    }
    for (auto &s : snaps[0]) h = fnvs(s.first + s.second, h);
    r.digest = fmt("%016llx", (unsigned long long)h);
    if (!r.bad() && !sc.digest.empty()) {
        // Expected digests of other builds, as letter=digest pairs; kept in the replay file of a cross-build failure.
        if (sc.digest != r.digest) { r.cls = "build"; r.msg = "the history returns other results (" + r.digest + ") than in another build (" + sc.digest + ")"; }
    }
    return r;
}

#ifdef SIM_THREADS
// ------------------------------------------------------------------ C10: each thread's history alone and among the others
static std::set<int> threadsOf(const Scenario &sc) {
    std::set<int> t;
    for (auto &o : sc.ops) if (o.client >= 1 && o.client <= 4) t.insert(o.client);
    return t;
}
static const int NSHARED = 90; // slots below are shared values, prepared before the threads start
struct Together {
    ThreadRun run;
    std::map<int, std::vector<Outcome>> out;
    std::string changed;
    u64 hash = 0;
};
static void shareInto(World &t, World &w) {
    t.w = w.w; t.mw = w.mw; t.l = w.l; t.ml = w.ml; t.d = w.d; t.md = w.md; t.c = w.c; t.mc = w.mc; t.p = w.p; t.mp = w.mp;
    t.e = w.e; t.me = w.me; t.r = w.r; t.mr = w.mr; t.letters = w.letters; t.weightNames = w.weightNames;
    t.data[0] = w.data[0]; t.data[1] = w.data[1];
}
template <class M> static void unshareMap(M &m) { for (auto i = m.begin(); i != m.end();) if (i->first < NSHARED) i = m.erase(i); else ++i; }
static void unshare(World &t) { unshareMap(t.w); unshareMap(t.l); unshareMap(t.d); unshareMap(t.c); unshareMap(t.p); unshareMap(t.e); unshareMap(t.r); }

static void runTogether(const Scenario &sc, const std::set<int> &ids, Together &g) {
    Exec x(sc, sc.env, 0);
    for (size_t i = 0; i < sc.ops.size(); i++) if (!sc.ops[i].client) x.step(sc.ops[i], (int)i, false);
    auto before = x.W.snapshot("wldcrep", false);
    std::vector<World *> worlds;
    std::vector<std::function<void()>> bodies;
    int n = 0;
    for (int id : ids) {
        World *w = new World;
        shareInto(*w, x.W);
        worlds.push_back(w);
        std::vector<Outcome> *out = &g.out[id];
        (void)n;
        bodies.push_back([w, id, out, &sc, &x] {
            for (size_t i = 0; i < sc.ops.size(); i++) {
                if (sc.ops[i].client != id) continue;
                schedPoint();
                if (g_sh) g_sh->op = (int)i;
                w->curOp = (int)i;
                Outcome o = w->exec(sc.ops[i], true);
                g_st->ops++;
                if (o.hard) g_st->opsFaulted++;
                out->push_back(o);
            }
        });
    }
    g.run = runThreads(bodies, sc.schedule);
    phase(PH_CHECK);
    auto after = x.W.snapshot("wldcrep", false);
    for (auto &b : before) if (after[b.first] != b.second) { g.changed = "shared object " + b.first + " was <" + b.second + "> and is now <" + after[b.first] + ">"; break; }
    for (auto w : worlds) { unshare(*w); w->destroyAll(); delete w; }
    x.close();
    g.hash = x.hash;
}
static Result evalThreads(const Scenario &sc) {
    Result r;
    auto ids = threadsOf(sc);
    std::map<int, std::vector<Outcome>> alone;
    Together g;
    // A cold run: what the library does the first time in a process, it does with the threads.
    if (sc.mode) { phase(PH_RUN); runTogether(sc, ids, g); }
    for (int id : ids) {
        phase(PH_DRY);
        Exec x(sc, sc.env, 0);
        std::vector<Outcome> &o = alone[id];
        for (size_t i = 0; i < sc.ops.size(); i++) {
            if (sc.ops[i].client && sc.ops[i].client != id) continue;
            Outcome q = x.step(sc.ops[i], (int)i, sc.ops[i].client != 0);
            if (sc.ops[i].client) o.push_back(q);
        }
    }
    phase(sc.mode ? PH_CHECK : PH_RUN);
    if (!sc.mode) runTogether(sc, ids, g);
    g_st->steps += g.run.steps; g_st->switches += g.run.switches; g_st->accesses += g.run.accesses; g_st->checks++;
    if (!g.run.race.empty()) { r.cls = "race"; r.msg = g.run.race; }
    for (int id : ids) {
        if (r.bad()) break;
        size_t k = 0;
        for (size_t i = 0; i < sc.ops.size(); i++) {
            if (sc.ops[i].client != id) continue;
            std::string a = g.out[id].at(k).str(), b = alone[id].at(k).str();
            if (a != b) { r.cls = "interference"; r.msg = fmt("op %zu (%s) of thread %d ends with <", i, sc.ops[i].name.c_str(), id) + a + "> among other threads and with <" + b + "> alone"; break; }
            k++;
        }
    }
    if (!r.bad() && !g.changed.empty()) { r.cls = "shared-changed"; r.msg = g.changed; }
    r.hash = mix64(g.hash ^ g.run.hash ^ mix64(g.run.steps));
    for (auto &t : g.out) for (auto &o : t.second) r.hash = fnvs(o.str(), r.hash);
    return r;
}
// Where to switch: chosen over the scheduling points a run without switches passes.
static void placeSwitches(Scenario &sc) {
    auto ids = threadsOf(sc);
    sc.schedule.clear();
    if (ids.size() < 2) return;
    Together g;
    runTogether(sc, ids, g);
    u64 n = g.run.steps + 1, nt = ids.size();
    Rng r(mix64(sc.seed * 991 + (u64)sc.run * 17 + 3));
    std::set<u64> at;
    switch (r.range(0, 3)) {
    case 0: for (int i = r.range(1, 4); i > 0; i--) at.insert(1 + r.below(n)); break;              // few preemptions
    case 1: for (int i = r.range(5, 60); i > 0; i--) at.insert(1 + r.below(n)); break;             // many
    case 2: for (int b = r.range(1, 5); b > 0; b--) { u64 s = 1 + r.below(n); for (int i = r.range(10, 150); i > 0; i--) at.insert(s += 1 + r.below(6)); } break; // bursts
    case 3: { u64 s = 0, m = (u64)r.pick(std::vector<int>{1, 2, 3, 10, 100}); while (at.size() < 1200 && s < n * 2) at.insert(s += 1 + r.below(2 * m)); break; } // throughout
    }
    for (u64 s : at) { sc.schedule.push_back((u32)s); sc.schedule.push_back(1 + (u32)r.below(nt)); }
}
#endif

Result evaluate(const Scenario &sc) {
    tooLong(sc);
    Result r;
#ifdef SIM_THREADS
    r = evalThreads(sc);
#else
    if (sc.ops.size() == 1 && sc.ops[0].name == "xfill") r = evalModel(sc);
    else if (sc.prop == "C05" || sc.prop == "C06") r = evalTwin(sc);
    else if (sc.prop == "C07") r = evalLedger(sc);
    else if (sc.prop == "C08") r = evalReadOnly(sc);
    else if (sc.prop == "C09") r = evalIncremental(sc);
    else if (sc.prop == "C11") r = evalEnvironment(sc);
    else if (sc.prop == "C24") r = evalPython(sc);
    else r = evalModel(sc);
#endif
    phase(PH_IDLE);
    return r;
}

Scenario makeScenario(const std::string &prop, const std::string &variant, u64 seed, long run) {
    Scenario sc = generate(prop, variant, seed, run);
    GenInfo gi = genInfo(prop);
    if (!gi.seams || (sc.ops.size() == 1 && sc.ops[0].name == "xfill")) return sc;
    phase(PH_GEN);
    g_st->dryRuns++;
    std::vector<OpCounts> counts;
    std::vector<u64> space;
    std::vector<int> status;
    Stats keep = *g_st;
    {
        Exec x(sc, sc.env, 0);
        for (size_t i = 0; i < sc.ops.size(); i++) {
            Outcome o = x.step(sc.ops[i], (int)i, false);
            counts.push_back(g_op);
            space.push_back(g_peakSpace > tmpSpaceUsed() ? g_peakSpace : tmpSpaceUsed());
            status.push_back(o.st);
        }
    }
    *g_st = keep; // executions without faults are not counted
    placeFaults(sc, counts, space, status);
#ifdef SIM_THREADS
    placeSwitches(sc);
    *g_st = keep;
#endif
    phase(PH_IDLE);
    return sc;
}

bool crashCounts(const std::string &p, int ph, const std::string &cls) {
    if (ph != PH_RUN && ph != PH_CHECK) return false;
    if (p == "C07") return cls.find("free") != std::string::npos || cls.find("ledger") != std::string::npos || cls.find("release") != std::string::npos;
    return true;
}
