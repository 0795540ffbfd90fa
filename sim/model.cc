#include "model.h"
#include <unicode/uchar.h>

int g_letterBits = 16;

bool mIsWs(unsigned char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }

bool mDecode(const std::string &s, MW &out) {
    out.clear();
    size_t i = 0, n = s.size();
    while (i < n) {
        unsigned char c = (unsigned char)s[i];
        u32 cp; int k;
        if (c < 0x80) { cp = c; k = 0; }
        else if (c >= 0xc2 && c <= 0xdf) { cp = c & 0x1f; k = 1; }
        else if (c >= 0xe0 && c <= 0xef) { cp = c & 0x0f; k = 2; }
        else if (c >= 0xf0 && c <= 0xf4) { cp = c & 0x07; k = 3; }
        else return false;
        if (i + k >= n + 0 && k) { if (i + k > n - 1) return false; }
        for (int j = 1; j <= k; j++) {
            unsigned char d = (unsigned char)s[i + j];
            if ((d & 0xc0) != 0x80) return false;
            cp = (cp << 6) | (d & 0x3f);
        }
        if (k == 2 && cp < 0x800) return false;
        if (k == 3 && (cp < 0x10000 || cp > 0x10ffff)) return false;
        if (cp >= 0xd800 && cp < 0xe000) return false;
        if (cp >= 0x10000 && g_letterBits == 16) {
            out.push_back(0xd800 + ((cp - 0x10000) >> 10));
            out.push_back(0xdc00 + ((cp - 0x10000) & 0x3ff));
        } else out.push_back(cp);
        i += k + 1;
    }
    return true;
}
bool mWord(const std::string &s, MW &out, bool *ws) {
    if (ws) *ws = false;
    if (!mDecode(s, out)) return false;
    bool white = false;
    for (auto &l : out) {
        l = (u32)u_tolower((UChar32)l);
        if (g_letterBits == 16) l &= 0xffff;
        if (l < 0x80 && mIsWs((unsigned char)l)) white = true;
    }
    if (white) { if (ws) *ws = true; return false; }
    return true;
}
bool mTokens(const std::string &t, ML &out) {
    out.clear();
    size_t i = 0;
    while (i < t.size()) {
        while (i < t.size() && mIsWs((unsigned char)t[i])) i++;
        size_t b = i;
        while (i < t.size() && !mIsWs((unsigned char)t[i])) i++;
        if (i > b) {
            MW w;
            if (!mWord(t.substr(b, i - b), w)) return false;
            out.push_back(w);
        }
    }
    return true;
}
std::string mUtf8(const MW &w) {
    std::string r;
    for (size_t i = 0; i < w.size(); i++) {
        u32 c = w[i];
        if (g_letterBits == 16 && c >= 0xd800 && c < 0xdc00 && i + 1 < w.size()) {
            c = 0x10000 + ((c - 0xd800) << 10) + (w[i + 1] - 0xdc00);
            i++;
        }
        if (c < 0x80) r += (char)c;
        else if (c < 0x800) { r += (char)(0xc0 | c >> 6); r += (char)(0x80 | (c & 63)); }
        else if (c < 0x10000) { r += (char)(0xe0 | c >> 12); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
        else { r += (char)(0xf0 | c >> 18); r += (char)(0x80 | (c >> 12 & 63)); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
    }
    return r;
}
std::string mShow(const MW &w) {
    std::string r;
    for (u32 c : w) { if (c > 0x20 && c < 0x7f && c != '\\' && c != '|') r += (char)c; else r += fmt("\\%x;", c); }
    return r;
}

std::vector<std::pair<double, u64>> MRes::sorted() const {
    auto r = v;
    std::stable_sort(r.begin(), r.end(), [](const std::pair<double, u64> &a, const std::pair<double, u64> &b) { return a.first > b.first; });
    return r;
}

int MEV::sub(u32 a, u32 b) const {
    if (a == b) return 0;
    auto s = single.find(std::make_pair(std::min(a, b), std::max(a, b)));
    if (s != single.end()) return s->second;
    auto g1 = group.find(a), g2 = group.find(b);
    if (g1 != group.end() && g2 != group.end() && g1->second == g2->second) return gerr[g1->second];
    return 100;
}
void MEV::set(u32 a, u32 b, int v) { single[std::make_pair(std::min(a, b), std::max(a, b))] = v; }
bool MEV::groupOk(const MW &w) const {
    for (u32 l : w) if (group.count(l)) return false;
    return true;
}
void MEV::addGroup(const MW &w, int err) {
    int g = (int)gerr.size();
    gerr.push_back(err);
    for (u32 l : w) group[l] = g;
}
void MEV::keyboard() {
    // Rows of the Finnish keyboard; neighbours: next key in the row, and in the row below the key in the
    // same column and the one before it.
    std::vector<std::vector<u32>> rows = {
        {'1', '2', '3', '4', '5', '6', '7', '8', '9', '0', '+'},
        {'q', 'w', 'e', 'r', 't', 'y', 'u', 'i', 'o', 'p', 0xe5},
        {'a', 's', 'd', 'f', 'g', 'h', 'j', 'k', 'l', 0xf6, 0xe4, '\''},
        {'z', 'x', 'c', 'v', 'b', 'n', 'm', ',', '.', '-'}};
    for (size_t r = 0; r + 1 < rows.size(); r++)
        for (size_t j = 0; j < rows[r].size(); j++) {
            if (j + 1 < rows[r].size()) set(rows[r][j], rows[r][j + 1], 30);
            if (j > 0 && j - 1 < rows[r + 1].size()) set(rows[r][j], rows[r + 1][j - 1], 30);
            if (j < rows[r + 1].size()) set(rows[r][j], rows[r + 1][j], 30);
        }
}

// All costs are non-negative, so once two consecutive rows lie wholly above the limit no alignment can
// come back below it; returns any value above the limit then.
int MEV::distance(const MW &q, const MW &w, int lim) const {
    size_t n = q.size(), m = w.size();
    static std::vector<long> buf;
    if (buf.size() < 3 * (n + 1)) buf.resize(3 * (n + 1) + 64);
    long *d[3];
    auto row = [&](size_t j) { return &buf[(j % 3) * (n + 1)]; };
    int start = startIns(n);
    d[0] = row(0);
    for (size_t i = 0; i <= n; i++) d[0][i] = (long)i * ins;
    long prevMin = 0;
    for (size_t j = 1; j <= m; j++) {
        long *c = row(j), *p1 = row(j - 1), *p2 = row(j + 1);
        c[0] = p1[0] + start;
        long mn = c[0];
        for (size_t i = 1; i <= n; i++) {
            long best = c[i - 1] + ins;
            best = std::min(best, p1[i] + (i == n ? edel : del));
            best = std::min(best, p1[i - 1] + sub(q[i - 1], w[j - 1]));
            if (i > 1 && j > 1 && q[i - 1] == w[j - 2] && q[i - 2] == w[j - 1])
                best = std::min(best, p2[i - 2] + tr);
            c[i] = best;
            if (best < mn) mn = best;
        }
        if (lim >= 0 && mn > lim && prevMin > lim) return lim + 1;
        prevMin = mn;
    }
    return (int)row(m)[n];
}

int mMaxErr(const MW &w, const MParams &p) { return p.dynamic && w.size() < 2 ? 100 : 200; }

void MMatcher::index(const MCorpus &c) {
    for (auto &d : c)
        for (auto &t : d.texts) {
            fields.insert(t.first);
            sizes[std::make_pair(d.id, t.first)] = t.second.size();
            for (auto &w : t.second) {
                counts[t.first][w]++;
                words.insert(w);
                rev[std::make_pair(t.first, w)].insert(d.id);
            }
        }
}
size_t MMatcher::maxCount(const MW &f) const {
    size_t m = 0;
    auto it = counts.find(f);
    if (it != counts.end()) for (auto &w : it->second) m = std::max(m, w.second);
    return m;
}
MHit MMatcher::search(const ML &query, const MParams &p) const {
    MHit h;
    if (query.empty()) return h;
    ML qs(query);
    std::sort(qs.begin(), qs.end());
    qs.erase(std::unique(qs.begin(), qs.end()), qs.end());
    for (auto &f : counts) {
        if (p.nosearch.count(f.first)) continue;
        double wgt = 1.0;
        auto wi = weights.find(f.first);
        if (wi != weights.end()) wgt = wi->second;
        size_t mx = maxCount(f.first);
        for (auto &w : f.second) {
            int best = -1;
            for (auto &q : qs) {
                int lim = mMaxErr(q, p);
                int e = ev.distance(q, w.first, lim);
                if (e <= lim && (best < 0 || e < best)) best = e;
            }
            if (best < 0) continue;
            double r = 100.0 / (100.0 + best) * (1.0 - (double)w.second / (double)(mx + 1)) * wgt;
            auto rv = rev.find(std::make_pair(f.first, w.first));
            if (rv == rev.end()) continue;
            for (u64 d : rv->second) {
                auto ins = h.rel.insert(std::make_pair(d, 0.0));
                ins.first->second += r;
            }
        }
    }
    return h;
}
bool MMatcher::passes(u64 doc, const MParams &p) const {
    for (auto &t : p.terms) {
        bool ok = true;
        for (auto &c : t) {
            auto r = rev.find(std::make_pair(c.first, c.second));
            if (r == rev.end() || !r->second.count(doc)) { ok = false; break; }
        }
        if (ok) return true;
    }
    return false;
}
MHit MMatcher::filtered(const ML &q, const MParams &p) const {
    MHit a = search(q, p), b;
    for (auto &d : a.rel) if (passes(d.first, p)) b.rel.insert(d);
    return b;
}
MHit MMatcher::online(const ML &q, const MW &prim) const {
    MHit h = search(q, MParams());
    std::map<u64, size_t> ex;
    for (auto &w : q) {
        auto r = rev.find(std::make_pair(prim, w));
        if (r == rev.end()) continue;
        for (u64 d : r->second) ex[d]++;
    }
    for (auto &e : ex) {
        double b = 2.0 * (double)e.second;
        auto s = sizes.find(std::make_pair(e.first, prim));
        if (e.second == q.size() && s != sizes.end() && s->second == q.size()) b += 100;
        h.rel[e.first] += b;
    }
    return h;
}
