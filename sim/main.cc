// Driver of one simulator process: seeded runs in forked children, replay, minimisation.
#include "eval.h"
#include "gen.h"
#include <cerrno>
#include <csignal>
#include <ctime>
#include <dirent.h>
#include <fstream>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>

static double now() {
    struct timespec t;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
    return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}
static std::string scratch;
static std::string readFile(const std::string &p) {
    std::ifstream in(p.c_str(), std::ios::binary);
    std::stringstream s;
    s << in.rdbuf();
    return s.str();
}
template <class T> static T *shared(size_t n = 1) {
    long r = syscall(SYS_mmap, 0, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (r == -1) { perror("mmap"); _exit(2); }
    return (T *)r;
}
static void rmScratch(int pid) {
    std::string d = scratch + fmt("/%d", pid);
    const char *nm[] = {"/latinAccentedLetterGroups.txt", "/greekAccentedLetterGroups.txt"};
    for (auto n : nm) { std::string p = d + n; unlink(p.c_str()); rmdir(p.c_str()); }
    rmdir(d.c_str());
}

struct Death { std::string cls, msg; };
// How a child ended that did not end by itself.
static Death classify(int pid, int status) {
    Death d;
    std::string log = scratch + fmt("/asan.%d", pid), err = scratch + fmt("/err.%d", pid);
    std::string a = readFile(log), e = readFile(err);
    unlink(log.c_str());
    unlink(err.c_str());
    rmScratch(pid);
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0) return d;
    if (g_sh->died) { d.cls = g_sh->cls; d.msg = g_sh->msg; return d; }
    if (WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM) { d.cls = "wall"; d.msg = "wall-clock limit"; return d; }
    size_t p = a.find("AddressSanitizer: ");
    if (p != std::string::npos) {
        size_t q = a.find_first_of(" \n", p + 18);
        d.cls = "crash:" + a.substr(p + 18, q - p - 18);
        if (d.cls == "crash:attempting") { // "attempting double-free", "attempting free on address which was not malloc()-ed"
            size_t e2 = a.find_first_of(" \n", q + 1);
            d.cls = "crash:" + a.substr(q + 1, e2 - q - 1);
        }
        d.msg = "memory error (" + a.substr(p + 18, a.find('\n', p) - p - 18) + ")";
        int n = 0;
        for (size_t k = a.find("    #", p); k != std::string::npos && n < 7; k = a.find("    #", k + 1)) {
            size_t in = a.find(" in ", k), nl = a.find('\n', k);
            if (in == std::string::npos || nl == std::string::npos || in > nl) continue;
            std::string fr = a.substr(in + 4, nl - in - 4);
            if (fr.size() > 120) fr.resize(120);
            if (a.compare(k, 7, "    #0 ") == 0 && n > 0) break;
            d.msg += (n ? " < " : " at ") + fr;
            n++;
        }
    } else if (WIFSIGNALED(status)) {
        d.cls = fmt("crash:signal%d", WTERMSIG(status));
        d.msg = fmt("the process was ended by signal %d", WTERMSIG(status));
    } else {
        d.cls = fmt("crash:exit%d", WEXITSTATUS(status));
        d.msg = fmt("the library ended the process with status %d", WEXITSTATUS(status));
    }
    // The one listed finding: google sparsehash does not survive a failed allocation of its own (V1 builds only).
    if (g_sh->lastFault == S_MALLOC && ((d.cls == "crash:SEGV" && d.msg.find("google::spars") != std::string::npos) ||
                                        (d.cls == "crash:exit1" && e.find("sparsehash") != std::string::npos))) d.cls = "sparsehash-oom";
    if (e.size() > 300) e = e.substr(e.size() - 300);
    while (!e.empty() && e.back() == '\n') e.pop_back();
    if (!e.empty()) d.msg += " [" + e + "]";
    return d;
}

static pid_t spawn() {
    g_sh->phase = PH_IDLE; g_sh->op = -1; g_sh->died = 0; g_sh->hasViolation = 0; g_sh->cls[0] = g_sh->msg[0] = 0;
    fflush(stdout);
    pid_t p = fork();
    if (p) return p;
    std::string err = scratch + fmt("/err.%d", (int)getpid());
    int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd >= 0) { dup2(fd, 2); close(fd); }
    fd = open("/dev/null", O_WRONLY);
    if (fd >= 0) { dup2(fd, 1); close(fd); }
    return 0;
}
static int waitFor(pid_t p) {
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    return st;
}
static void setViolation(const std::string &c, const std::string &m) {
    snprintf(g_sh->cls, sizeof g_sh->cls, "%s", c.c_str());
    snprintf(g_sh->msg, sizeof g_sh->msg, "%s", m.c_str());
    g_sh->hasViolation = 1;
}
static void childEnd() { rmScratch(getpid()); _exit(0); }
static unsigned char *covShared;
static void mergeCov() { for (size_t i = 0; i < sizeof g_cov; i++) if (g_cov[i]) covShared[i] = 1; }

struct Verdict { std::string cls, msg; u64 hash = 0; int ph = 0; bool dryCrash = false; };
static u64 *hashOut;
// Evaluates the scenarios in order in a fresh child; the verdict is the last one's.
static Verdict evalFresh(const std::vector<Scenario> &v, int wall = 60) {
    Verdict r;
    *hashOut = 0;
    pid_t p = spawn();
    if (!p) {
        for (size_t i = 0; i < v.size(); i++) {
            alarm((unsigned)wall);
            Result q = evaluate(v[i]);
            *hashOut = q.hash;
            if (i + 1 == v.size() && q.bad()) setViolation(q.cls, q.msg);
        }
        mergeCov();
        childEnd();
    }
    int st = waitFor(p);
    r.ph = g_sh->phase;
    int op = g_sh->op;
    if (g_sh->hasViolation && !g_sh->died) { r.cls = g_sh->cls; r.msg = g_sh->msg; r.hash = *hashOut; classify(p, 0); return r; }
    Death d = classify(p, st);
    r.hash = *hashOut;
    if (!d.cls.empty() && d.cls != "wall") {
        if (crashCounts(v.back().prop, r.ph, d.cls)) { r.cls = d.cls; r.msg = fmt("at op %d: ", op) + d.msg; }
        else r.dryCrash = true;
    } else if (d.cls == "wall") r.dryCrash = true;
    return r;
}
// The explicit scenario of a run, even if making it crashes (then without faults).
static Scenario explicitScenario(const std::string &prop, const std::string &var, u64 seed, long run, bool *crashed = 0) {
    std::string f = scratch + fmt("/scn.%d", (int)getpid());
    unlink(f.c_str());
    pid_t p = spawn();
    if (!p) {
        alarm(120);
        Scenario sc = makeScenario(prop, var, seed, run);
        std::ofstream o(f.c_str());
        o << sc.text();
        o.close();
        childEnd();
    }
    int st = waitFor(p);
    Death d = classify(p, st);
    auto v = loadScenarios(f);
    unlink(f.c_str());
    if (crashed) *crashed = !d.cls.empty();
    if (!d.cls.empty() || v.empty()) return generate(prop, var, seed, run);
    return v[0];
}

// ------------------------------------------------------------------ minimisation
struct Minimiser {
    std::vector<Scenario> pre;
    Scenario best;
    std::string cls, msg;
    double deadline;
    long tried = 0;
    bool test(const Scenario &c) {
        if (now() > deadline) return false;
        tried++;
        std::vector<Scenario> v(pre);
        v.push_back(c);
        Verdict r = evalFresh(v, 20);
        if (r.cls != cls) return false;
        msg = r.msg;
        best = c;
        return true;
    }
    void dropOps() {
        for (size_t chunk = std::max<size_t>(1, best.ops.size() / 2);; chunk /= 2) {
            for (size_t i = 0; i < best.ops.size() && now() < deadline;) {
                Scenario c = best;
                size_t n = std::min(chunk, c.ops.size() - i);
                c.ops.erase(c.ops.begin() + (long)i, c.ops.begin() + (long)(i + n));
                if (c.ops.empty() || !test(c)) i += n;
            }
            if (chunk <= 1) break;
        }
    }
    void dropFaults() {
        { Scenario c = best; for (auto &o : c.ops) o.faults.clear(); if (c.text() != best.text()) test(c); }
        for (size_t i = 0; i < best.ops.size(); i++)
            for (size_t k = 0; k < best.ops[i].faults.size();) {
                Scenario c = best;
                c.ops[i].faults.erase(c.ops[i].faults.begin() + (long)k);
                if (!test(c)) k++;
            }
        for (size_t i = 0; i < best.ops.size(); i++)
            for (size_t k = 0; k < best.ops[i].faults.size(); k++) {
                if (best.ops[i].faults[k].mode == FM_STICKY) { Scenario c = best; c.ops[i].faults[k].mode = FM_ONCE; test(c); }
                while (best.ops[i].faults[k].nth > 1) { Scenario c = best; c.ops[i].faults[k].nth--; if (!test(c)) break; }
            }
    }
    void shrinkArgs() {
        for (size_t i = 0; i < best.ops.size(); i++) {
            if (best.ops[i].name == "mkdoc")
                for (size_t k = 0; k + 1 < best.ops[i].s.size();) {
                    Scenario c = best;
                    c.ops[i].s.erase(c.ops[i].s.begin() + (long)k, c.ops[i].s.begin() + (long)k + 2);
                    if (!test(c)) k += 2;
                }
            for (size_t k = 0; k < best.ops[i].s.size(); k++) {
                // Fewer words, then fewer bytes.
                for (size_t w = 0; now() < deadline;) {
                    auto parts = splitc(best.ops[i].s[k], ' ');
                    if (parts.size() < 2 || w >= parts.size()) break;
                    parts.erase(parts.begin() + (long)w);
                    std::string j;
                    for (size_t q = 0; q < parts.size(); q++) j += (q ? " " : "") + parts[q];
                    Scenario c = best;
                    c.ops[i].s[k] = j;
                    if (!test(c)) w++;
                }
                if (best.ops[i].s[k].size() > 12) {
                    Scenario c = best;
                    std::string &t = c.ops[i].s[k];
                    size_t h = t.size() / 2;
                    while (h && ((unsigned char)t[h] & 0xc0) == 0x80) h--;
                    t.resize(h);
                    if (h) test(c);
                }
            }
            if (best.ops[i].client) { Scenario c = best; c.ops[i].client = best.prop == "C10" ? c.ops[i].client : 0; if (c.text() != best.text()) test(c); }
        }
    }
    void shrinkEnv() {
        Env b; b.garbage = 1; b.layout = 1; b.clock = 1; b.rnd = 1;
        { Scenario c = best; c.env = b; c.env.quota = best.env.quota; if (c.text() != best.text()) test(c); }
        { Scenario c = best; c.env2 = b; if (c.text() != best.text()) test(c); }
        int Env::*f[] = {&Env::madviseFail, &Env::ntFail, &Env::shortRead, &Env::eintr, &Env::clockMode, &Env::reuse, &Env::err0, &Env::fd0, &Env::loc};
        for (auto m : f) if (best.env.*m) { Scenario c = best; c.env.*m = 0; test(c); }
        for (int i = 0; i < 2; i++) if (!best.dataFile[i].empty()) {
            for (size_t chunk = 256; chunk; chunk /= 4)
                for (size_t l = 0; now() < deadline;) {
                    auto lines = splitc(best.dataFile[i], '\n');
                    if (l >= lines.size() || lines.size() < 2) break;
                    size_t n = std::min(chunk, lines.size() - l);
                    lines.erase(lines.begin() + (long)l, lines.begin() + (long)(l + n));
                    std::string j;
                    for (size_t q = 0; q < lines.size(); q++) j += (q ? "\n" : "") + lines[q];
                    if (j.empty()) { l += n; continue; }
                    Scenario c = best;
                    c.dataFile[i] = j;
                    if (!test(c)) l += n;
                }
        }
    }
    void schedule() {
        // Pairs (step, thread): fewer switches.
        for (size_t chunk = std::max<size_t>(1, best.schedule.size() / 4);; chunk /= 2) {
            for (size_t i = 0; i + 1 < best.schedule.size() && now() < deadline;) {
                Scenario c = best;
                size_t n = std::min(chunk * 2, c.schedule.size() - i);
                c.schedule.erase(c.schedule.begin() + (long)i, c.schedule.begin() + (long)(i + n));
                if (!test(c)) i += n;
            }
            if (chunk <= 1) break;
        }
    }
    void run() {
        if (best.schedule.size() > 2) schedule();
        for (int round = 0; round < 3 && now() < deadline; round++) {
            std::string before = best.text();
            dropOps();
            dropFaults();
            shrinkArgs();
            shrinkEnv();
            if (best.schedule.size() > 2) schedule();
            if (best.text() == before) break;
        }
    }
};

static std::string jstr(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 0x20 || c >= 0x7f) r += fmt("\\u%04x", c);
        else r += (char)c;
    }
    return r + "\"";
}

int main(int argc, char **argv) {
    if (!getenv("SIM_NOASLR")) { // the placement of the heap is the simulator's choice, not the kernel's
        setenv("SIM_NOASLR", "1", 1);
        int p = personality(0xffffffff);
        if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality((unsigned long)p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    std::map<std::string, std::string> o;
    std::vector<std::string> pos;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (!a.compare(0, 2, "--") && i + 1 < argc) o[a.substr(2)] = argv[++i];
        else pos.push_back(a);
    }
    const char *sd = getenv("SIM_SCRATCH");
    scratch = sd ? sd : "/tmp/simscratch";
    mkdir(scratch.c_str(), 0700);
    setenv("SIM_SCRATCH", scratch.c_str(), 1);
    g_sh = shared<Shared>();
    g_st = shared<Stats>();
    hashOut = shared<u64>();
    covShared = shared<unsigned char>(1 << 16);
    g_stepLimit = 400000000ULL;
    signal(SIGPIPE, SIG_IGN);
    warmUp();
#ifdef SIM_PYTHON
    extern void pyStart();
    pyStart();
#endif
    std::string cmd = pos.empty() ? "" : pos[0];
    std::string prop = o["prop"], var = o.count("variant") ? o["variant"] : "V1";
    u64 seed = strtoull(o["seed"].c_str(), 0, 10);
    if (cmd == "emit") {
        Scenario sc = explicitScenario(prop, var, seed, atol(o["run"].c_str()));
        printf("%s", sc.text().c_str());
        return 0;
    }
    if (cmd == "replay") {
        auto v = loadScenarios(pos.at(1));
        if (v.empty()) { printf("no scenario\n"); return 2; }
        Verdict r = evalFresh(v, 300);
        printf("%s %016llx %s\n", r.cls.empty() ? (r.dryCrash ? "DRYCRASH" : "OK") : ("VIOLATED " + r.cls).c_str(), (unsigned long long)r.hash, r.msg.c_str());
        return r.cls.empty() ? 0 : 1;
    }
    if (cmd == "digest") { // C11: what the history returns, to be compared between builds
        auto v = loadScenarios(pos.at(1));
        if (v.empty()) return 2;
        v.back().digest.clear();
        pid_t p = spawn();
        if (!p) { alarm(100); Result q = evaluate(v.back()); setViolation("digest", q.digest); childEnd(); }
        int st = waitFor(p);
        std::string d = g_sh->hasViolation ? g_sh->msg : "none";
        classify(p, st);
        printf("%s\n", d.c_str());
        return 0;
    }
    if (cmd == "minimise") {
        Minimiser m;
        auto v = loadScenarios(pos.at(1));
        if (v.empty()) return 2;
        double budget = atof(o["budget"].c_str());
        m.deadline = now() + (budget > 0 ? budget : 60);
        m.pre.assign(v.begin(), v.end() - 1);
        m.best = v.back();
        Verdict r = evalFresh(v);
        if (r.cls.empty()) { printf("not reproduced\n"); return 2; }
        m.cls = r.cls;
        m.msg = r.msg;
        if (!m.pre.empty()) { // is the history of the process needed?
            Verdict q = evalFresh(std::vector<Scenario>(1, m.best));
            if (q.cls == m.cls) m.pre.clear();
            for (size_t i = 0; i < m.pre.size();) {
                std::vector<Scenario> w(m.pre);
                w.erase(w.begin() + (long)i);
                w.push_back(m.best);
                if (evalFresh(w).cls == m.cls) m.pre.erase(m.pre.begin() + (long)i); else i++;
                if (now() > m.deadline) break;
            }
        }
        m.run();
        std::ofstream out(pos.at(2).c_str());
        for (auto &p : m.pre) out << p.text();
        out << m.best.text();
        printf("%s\n%s\n%ld\n", m.cls.c_str(), m.msg.c_str(), m.tried);
        return 0;
    }
    if (cmd != "run") { fprintf(stderr, "usage: sim run|replay|minimise|emit\n"); return 2; }

    long from = atol(o["from"].c_str()), to = atol(o["to"].c_str()), step = std::max(1L, atol(o["step"].c_str()));
    double budget = atof(o["budget"].c_str()), start = now();
    int batch = o.count("batch") ? atoi(o["batch"].c_str()) : 40;
    std::set<std::string> known;
    for (auto &k : splitc(o["known"], ';')) if (!k.empty()) known.insert(unpct(k));
    std::string stop = o["stop"], out = o["out"];
    long total = to > from ? (to - from + step - 1) / step : 0;
    u64 *hashes = shared<u64>((size_t)total + 1), *digests = shared<u64>((size_t)total + 1);
    long executed = 0;
    std::vector<std::string> viol;   // file class message
    std::map<std::string, int> perClass;
    long unreproduced = 0, dryCrashes = 0, walls = 0;
    long *again = (long *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0), warm = 0;
    long idx = 0;
    while (idx < total) {
        if (budget > 0 && now() - start > budget) break;
        if (!stop.empty() && access(stop.c_str(), F_OK) == 0) break;
        long end = std::min(total, idx + batch);
        g_sh->run = idx;
        Scenario first_;
        bool cold = false;
        for (int k = 0; k < 9; k++) again[k] = -1;
#ifdef SIM_THREADS
        // Cold runs have a process of their own, in which the library has done nothing before.
        auto isCold = [&](long i) { return generate(prop, var, seed, from + i * step).mode != 0; };
        cold = isCold(idx);
        if (cold) { end = idx + 1; first_ = explicitScenario(prop, var, seed, from + idx * step, &cold); cold = !cold; } // a crash of the run without faults is met again below
        else for (long i = idx + 1; i < end; i++) if (isCold(i)) { end = i; break; }
#endif
        pid_t p = spawn();
        if (!p) {
            for (long i = idx; i < end; i++) {
                g_sh->run = i;
                alarm(100);
                long run = from + i * step;
                Scenario sc = cold ? first_ : makeScenario(prop, var, seed, run);
                Result q = evaluate(sc);
                g_st->runs++;
                hashes[i] = q.hash ? q.hash : 1;
                if (!q.digest.empty()) digests[i] = strtoull(q.digest.c_str(), 0, 16);
                if (q.bad()) { setViolation(q.cls, q.msg); break; }
                if (i % 16 == 3 && !cold) {
                    Stats keep = *g_st;
                    Result q2 = evaluate(sc);
                    *g_st = keep;
                    g_st->determinismChecked++;
                    if (q2.bad()) { setViolation(q2.cls, q2.msg); again[0] = i; break; }
                    // The library may keep something per process: then only fresh processes can be compared.
                    if (q2.hash != q.hash) for (int k = 1; k < 9; k++) if (again[k] < 0) { again[k] = i; break; }
                }
            }
            for (int k = 0; k < NSEAM; k++) { g_st->fired[k] += g_fired[k]; g_st->masked[k] += g_masked[k]; g_st->calls[k] += g_calls[k]; }
            g_st->simTimeUs += g_simTimeUs;
            g_st->relocations += g_relocations;
            g_st->reused += g_reused;
            mergeCov();
            childEnd();
        }
        int st = waitFor(p);
        long at = g_sh->run;
        int ph = g_sh->phase;
        bool hv = g_sh->hasViolation && !g_sh->died;
        std::string cls = g_sh->cls, msg = g_sh->msg;
        Death d = classify(p, hv ? 0 : st);
        for (int k = 1; k < 9 && again[k] >= 0 && warm < 24; k++) {
            warm++;
            std::vector<Scenario> one(1, explicitScenario(prop, var, seed, from + again[k] * step));
            Stats keep = *g_st;
            Verdict a = evalFresh(one), b = evalFresh(one);
            *g_st = keep;
            if (a.hash == b.hash && a.cls == b.cls) { g_st->determinismWarm++; continue; }
            g_st->determinismBad++;
            std::ofstream f((out + ".unrepeatable").c_str(), std::ios::app);
            f << var << " run " << from + again[k] * step << ": " << a.msg << b.msg << "\n";
        }
        if (!hv && d.cls.empty()) { executed += end - idx; idx = end; continue; }
        executed += at - idx + 1;
        long run = from + at * step;
        long first = idx;
        idx = at + 1;
        if (!hv) { cls = d.cls; msg = d.msg; }
        if (cls == "wall") { walls++; g_st->skippedRuns++; continue; }
        if (!hv && !crashCounts(prop, ph, cls) && ph != PH_GEN) { dryCrashes++; g_st->skippedRuns++; continue; }
        // Reproduce it alone, in a fresh process, from its explicit form.
        bool genCrash = false;
        Scenario sc = explicitScenario(prop, var, seed, run, &genCrash);
        std::vector<Scenario> v(1, sc);
        Verdict r = evalFresh(v);
        if (r.cls.empty() && ph == PH_GEN && genCrash) { dryCrashes++; g_st->skippedRuns++; continue; }
        if (r.cls.empty() || (!genCrash && r.cls != cls)) {
            // Perhaps it needs what the process did before.
            std::vector<Scenario> w;
            for (long i = first; i < at; i++) w.push_back(explicitScenario(prop, var, seed, from + i * step));
            w.push_back(sc);
            Verdict r2 = evalFresh(w, 200);
            if (!r2.cls.empty()) { r = r2; v = w; }
            else if (again[0] == at) { // or what it did in its own first execution
                w.push_back(sc);
                r2 = evalFresh(w, 200);
                if (!r2.cls.empty()) { r = r2; v = w; }
            }
        }
        if (r.cls.empty()) { unreproduced++; if (unreproduced < 5) viol.push_back("UNREPRODUCED " + std::to_string(run) + " " + pct(cls) + " " + pct(msg)); continue; }
        if (++perClass[r.cls] > 1) continue;
        std::string f = out + fmt(".v%zu.scn", viol.size());
        std::ofstream fo(f.c_str());
        for (auto &s : v) fo << s.text();
        fo.close();
        viol.push_back(f + " " + std::to_string(run) + " " + pct(r.cls) + " " + pct(r.msg));
        if (!known.count(r.cls) && !stop.empty()) { std::ofstream s(stop.c_str()); s << run << "\n"; break; }
        if (viol.size() > 12) break;
    }
    // Report.
    std::ofstream j(out.c_str());
    Stats &s = *g_st;
    long cov = 0;
    for (int i = 0; i < (1 << 16); i++) cov += covShared[i];
    j << "{\"executed\":" << executed << ",\"total\":" << total << ",\"wall\":" << now() - start << ",\"coverage_points\":" << cov
      << ",\"unreproduced\":" << unreproduced << ",\"dry_crashes\":" << dryCrashes << ",\"wall_kills\":" << walls;
#define F(n) j << ",\"" #n "\":" << s.n;
    F(runs) F(dryRuns) F(executions) F(ops) F(opsOk) F(opsExpectedErr) F(opsFaulted) F(opsFailedByFault) F(opsMasked) F(retries) F(checks)
    F(skippedRuns) F(searches) F(simTimeUs) F(relocations) F(reused) F(determinismChecked) F(determinismWarm) F(determinismBad) F(steps) F(switches) F(accesses) F(maxOps) F(quotaHits)
#undef F
    auto arr = [&](const char *n, u64 *v) { j << ",\"" << n << "\":{"; for (int i = 0; i < NSEAM; i++) j << (i ? "," : "") << "\"" << seamNames[i] << "\":" << v[i]; j << "}"; };
    arr("fired", s.fired); arr("masked", s.masked); arr("calls", s.calls);
    j << ",\"violations\":[";
    for (size_t i = 0; i < viol.size(); i++) j << (i ? "," : "") << jstr(viol[i]);
    j << "]}\n";
    j.close();
    std::ofstream h((out + ".hashes").c_str(), std::ios::binary);
    h.write((const char *)hashes, (std::streamsize)(sizeof(u64) * (size_t)total));
    h.close();
    if (prop == "C11") {
        std::ofstream g((out + ".digests").c_str(), std::ios::binary);
        g.write((const char *)digests, (std::streamsize)(sizeof(u64) * (size_t)total));
    }
    std::ofstream c((out + ".cov").c_str(), std::ios::binary);
    c.write((const char *)covShared, 1 << 16);
    return 0;
}
