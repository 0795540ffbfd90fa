#include "scenario.h"
#include <fstream>

std::string Op::text() const {
    std::string r = name;
    if (client) r += fmt(" @%d", client);
    if (!a.empty()) { r += " a="; for (size_t i = 0; i < a.size(); i++) r += (i ? "," : "") + std::to_string(a[i]); }
    if (!s.empty()) { r += " s="; for (size_t i = 0; i < s.size(); i++) r += (i ? "," : "") + pct(s[i]); }
    if (!f.empty()) { r += " f="; for (size_t i = 0; i < f.size(); i++) r += (i ? "," : "") + ::dbl(f[i]); }
    if (!faults.empty()) {
        static const char *const m[] = {"once", "sticky", "short", "eintr"};
        r += " !";
        for (size_t i = 0; i < faults.size(); i++)
            r += fmt("%s%s:%u:%s:%d", i ? "," : "", seamNames[faults[i].kind], faults[i].nth, m[faults[i].mode], faults[i].err);
    }
    return r;
}
bool Op::parse(const std::string &line) {
    auto tok = splitc(line, ' ');
    name = tok[0];
    for (size_t i = 1; i < tok.size(); i++) {
        const std::string &t = tok[i];
        if (t.empty()) continue;
        if (t[0] == '@') client = atoi(t.c_str() + 1);
        else if (!t.compare(0, 2, "a=")) { for (auto &x : splitc(t.substr(2), ',')) a.push_back(strtoll(x.c_str(), 0, 10)); }
        else if (!t.compare(0, 2, "s=")) { for (auto &x : splitc(t.substr(2), ',')) s.push_back(unpct(x)); }
        else if (!t.compare(0, 2, "f=")) { for (auto &x : splitc(t.substr(2), ',')) f.push_back(strtod(x.c_str(), 0)); }
        else if (t[0] == '!')
            for (auto &x : splitc(t.substr(1), ',')) {
                auto p = splitc(x, ':');
                if (p.size() < 4) return false;
                Fault q;
                q.kind = seamByName(p[0]);
                q.nth = (u32)atoi(p[1].c_str());
                q.mode = p[2] == "once" ? FM_ONCE : p[2] == "sticky" ? FM_STICKY : p[2] == "short" ? FM_SHORT : FM_EINTR;
                q.err = atoi(p[3].c_str());
                if (q.kind < 0) return false;
                faults.push_back(q);
            }
    }
    return true;
}
std::string Scenario::text() const {
    std::string r = fmt("scenario prop=%s variant=%s seed=%llu run=%ld mode=%d\n", prop.c_str(), variant.c_str(),
        (unsigned long long)seed, run, mode);
    r += "env " + env.str() + "\n";
    r += "env2 " + env2.str() + "\n";
    for (int i = 0; i < 2; i++) if (!dataFile[i].empty()) r += fmt("data%d ", i) + pct(dataFile[i]) + "\n";
    if (!digest.empty()) r += "digest " + digest + "\n";
    if (!schedule.empty()) { r += "schedule"; for (u32 x : schedule) r += " " + std::to_string(x); r += "\n"; }
    for (auto &o : ops) r += "op " + o.text() + "\n";
    return r + "end\n";
}
bool Scenario::parse(const std::vector<std::string> &l, size_t &i) {
    while (i < l.size() && l[i].compare(0, 9, "scenario ")) i++;
    if (i >= l.size()) return false;
    for (auto &kv : splitc(l[i], ' ')) {
        auto eq = kv.find('=');
        if (eq == std::string::npos) continue;
        std::string k = kv.substr(0, eq), v = kv.substr(eq + 1);
        if (k == "prop") prop = v; else if (k == "variant") variant = v; else if (k == "seed") seed = strtoull(v.c_str(), 0, 10);
        else if (k == "run") run = atol(v.c_str()); else if (k == "mode") mode = atoi(v.c_str());
    }
    for (i++; i < l.size(); i++) {
        const std::string &s = l[i];
        if (s == "end") { i++; return true; }
        if (!s.compare(0, 4, "env ")) env.parse(s.substr(4));
        else if (!s.compare(0, 5, "env2 ")) env2.parse(s.substr(5));
        else if (!s.compare(0, 6, "data0 ")) dataFile[0] = unpct(s.substr(6));
        else if (!s.compare(0, 6, "data1 ")) dataFile[1] = unpct(s.substr(6));
        else if (!s.compare(0, 7, "digest ")) digest = s.substr(7);
        else if (!s.compare(0, 9, "schedule ")) { for (auto &x : splitc(s.substr(9), ' ')) schedule.push_back((u32)strtoul(x.c_str(), 0, 10)); }
        else if (!s.compare(0, 3, "op ")) { Op o; if (!o.parse(s.substr(3))) return false; ops.push_back(o); }
    }
    return false;
}
std::vector<Scenario> loadScenarios(const std::string &path) {
    std::ifstream in(path);
    std::vector<std::string> l;
    std::string s;
    while (std::getline(in, s)) l.push_back(s);
    std::vector<Scenario> v;
    size_t i = 0;
    for (;;) { Scenario sc; if (!sc.parse(l, i)) break; v.push_back(sc); }
    return v;
}
