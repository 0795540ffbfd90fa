#include "gen.h"
#include <cerrno>

static std::string enc(u32 c) {
    std::string r;
    if (c == 0) c = 0xf8ff; // stands for the letter zero, see mWordZ
    if (c < 0x80) r += (char)c;
    else if (c < 0x800) { r += (char)(0xc0 | c >> 6); r += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { r += (char)(0xe0 | c >> 12); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
    else { r += (char)(0xf0 | c >> 18); r += (char)(0x80 | (c >> 12 & 63)); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
    return r;
}
typedef std::vector<u32> CW;
static std::string encw(const CW &w) { std::string r; for (u32 c : w) r += enc(c); return r; }

struct Vocab {
    Rng &r;
    std::vector<u32> letters;
    std::vector<CW> words;
    int maxLen = 8;
    bool bmp = true;
    explicit Vocab(Rng &rr, bool onlyBmp = false) : r(rr), bmp(onlyBmp) {
        int n = r.range(1, 3);
        for (int i = 0; i < n; i++) addLetters(r.range(0, 9));
        if (r.chance(0.5)) addLetters(0);
        if (r.chance(0.2)) addOdd();
        if (r.chance(0.08)) for (size_t i = 0, k = 1 + letters.size() / 8; i < k; i++) letters.push_back(0xf8ff); // the letter zero where letter arrays are used
        maxLen = r.pick(std::vector<int>{3, 5, 8, 8, 12});
    }
    // Letters that look like blanks, marks or ends of text, but are letters like any other.
    void addOdd() {
        static const std::vector<u32> odd = {0xfeff, 0xfeff, 0xfffe, 0xffff, 0xfffd, 0xa0, 0xad, 0x85, 0x200b, 0x200d, 0x2028, 0x3000, 0x301, 0x0b, 0x0c, 0x1b, 0x7f, 0x01, 0x80, 0x7ff, 0x800, 0xe000, '"', '\\', '%', '*', '/', '_'};
        for (int i = 0, n = r.range(1, 3); i < n; i++) letters.push_back(r.pick(odd));
    }
    void addLetters(int style) {
        auto add = [&](u32 a, u32 b) { for (u32 c = a; c <= b; c++) letters.push_back(c); };
        switch (style) {
        case 0: add('a', 'a' + (u32)r.pick(std::vector<int>{1, 2, 3, 7, 25})); break;
        case 1: add('a', 'z'); break;
        case 2: add('A', 'Z'); add('a', 'z'); break;
        case 3: { u32 l[] = {0xe4, 0xf6, 0xe5, 0xe9, 0xe8, 0xe1, 0xc4, 0xd6, 0xdf, 0xff}; letters.insert(letters.end(), l, l + 10); break; }
        case 4: { u32 l[] = {0x1fc, 0x1fd, 0x1fe, 0x1ff, 0x200, 0x201, 0x202, 0x203}; letters.insert(letters.end(), l, l + 8); break; }
        case 5: add(0x3b1, 0x3c9); add(0x391, 0x3a1); break;
        case 6: add(0x430, 0x44f); add(0x410, 0x41f); break;
        case 7: add(0x4e00, 0x4e00 + (u32)r.range(3, 40)); break;
        case 8: if (!bmp) { add(0x10428, 0x1042c); add(0x10400, 0x10404); add(0x1f600, 0x1f606); add(0x10ffe0, 0x10ffe3); } else add('0', '9'); break;
        case 9: { u32 l[] = {'0', '1', '9', '\'', '-', '.', 0xb5, 0x130, 0x212a, 0x3a3, 0x1e9e, 0x2c6f}; letters.insert(letters.end(), l, l + 12); break; }
        }
    }
    CW fresh(int lo = 1, int hi = 0) {
        CW w;
        int n = r.range(lo, hi ? hi : maxLen);
        for (int i = 0; i < n; i++) w.push_back(r.pick(letters));
        return w;
    }
    CW mutate(CW w) {
        int n = r.range(1, 3);
        for (int i = 0; i < n; i++) {
            switch (r.range(0, 5)) {
            case 0: w.insert(w.begin() + (long)r.below(w.size() + 1), r.pick(letters)); break;
            case 1: if (w.size() > 1) w.erase(w.begin() + (long)r.below(w.size())); break;
            case 2: if (!w.empty()) w[r.below(w.size())] = r.pick(letters); break;
            case 3: if (w.size() > 1) { size_t k = r.below(w.size() - 1); std::swap(w[k], w[k + 1]); } break;
            case 4: if (!w.empty()) { u32 c = r.pick(w); w.insert(w.begin() + (long)r.below(w.size() + 1), c); } break;
            case 5: if (!words.empty()) { const CW &o = r.pick(words); if (w.size() + o.size() < 40) w.insert(w.end(), o.begin(), o.end()); } break;
            }
        }
        if (w.empty()) w.push_back(r.pick(letters));
        return w;
    }
    void fill(int n) {
        for (int i = 0; i < n; i++) {
            if (!words.empty() && r.chance(0.45)) words.push_back(mutate(r.pick(words)));
            else if (r.chance(0.008)) words.push_back(fresh(30, r.pick(std::vector<int>{40, 70, 140, 300})));
            else words.push_back(fresh());
            // Every pair of long words costs the product of their lengths: two are enough.
            if (words.back().size() > 60 && ++lengthy > 2) words.back() = fresh();
        }
    }
    int lengthy = 0;
    const CW &any() { return r.chance(0.3) ? words[r.below(1 + words.size() / 8)] : r.pick(words); }
    std::string word() { return encw(any()); }
    std::string near() { return encw(r.chance(0.6) ? any() : r.chance(0.8) ? mutate(any()) : fresh()); }
    std::string sep() { return r.chance(0.8) ? " " : r.pick(std::vector<std::string>{"\t", "\n", "\r", "  ", " \t", "\r\n", "\n\n  "}); }
    std::string text(int lo, int hi) {
        std::string s;
        int n = r.range(lo, hi);
        if (r.chance(0.08)) s += sep();
        for (int i = 0; i < n; i++) { if (i) s += sep(); s += word(); }
        if (r.chance(0.08)) s += sep();
        return s;
    }
    std::string query() {
        if (r.chance(0.04)) return r.pick(std::vector<std::string>{"", " ", "\n\t"});
        int n = r.chance(0.6) ? 1 : r.range(2, 4);
        std::string s;
        for (int i = 0; i < n; i++) { if (i) s += sep(); s += near(); }
        if (r.chance(0.1)) s += " " + enc(r.pick(letters));
        if (r.chance(0.06)) { auto k = s.find(' '); s += " " + s.substr(0, k); }
        return s;
    }
};

static std::string malform(Rng &r, std::string t) {
    static const std::vector<std::string> bad = {"\xff", "\xc0\xaf", "\xed\xa0\x80", "\xed\xbf\xbf", "\xf4\x90\x80\x80", "\xe2\x82", "\xc3", "\xf0\x9f\x98", "\x80", "\xbf\xbf", "\xf8\x88\x80\x80\x80", "\xe0\x80\xaf", "\xfe", "\xf0\x80\x80\x80", "\xc1\x81"};
    switch (r.range(0, 4)) {
    case 0: t.insert(r.below(t.size() + 1), r.pick(bad)); break;
    case 1: t += r.pick(bad); break;
    case 2: { // torn inside a character
        std::string u = t + enc(r.pick(std::vector<u32>{0xe4, 0x3b1, 0x20ac, 0x1f600}));
        u.resize(u.size() - 1);
        t = u; break; }
    case 3: { // one corrupted bit
        if (t.empty()) t = "a";
        size_t k = r.below(t.size());
        t[k] = (char)(t[k] ^ (1 << r.below(8)));
        if (!t[k]) t[k] = 'x';
        break; }
    case 4: { // a lost byte
        t += enc(0xe4) + enc(0x20ac);
        t.erase(r.below(t.size()), 1);
        break; }
    }
    for (auto &c : t) if (!c) c = '?';
    return t;
}

static Env randomEnv(Rng &r) {
    Env e;
    e.garbage = r.next() % 1000000;
    e.layout = r.next() % 1000000;
    e.clock = r.next() % 1000000;
    e.rnd = r.next() % 1000000;
    e.clock0 = r.pick(std::vector<long long>{0, 1600000000LL, 1349000000LL, 4102444800LL, 86399});
    e.clockMode = r.range(0, 3);
    e.madviseFail = r.pick(std::vector<int>{0, 0, 50, 100});
    e.ntFail = r.pick(std::vector<int>{0, 0, 50, 100});
    e.shortRead = r.pick(std::vector<int>{0, 0, 60});
    e.eintr = r.pick(std::vector<int>{0, 0, 40});
    e.reuse = r.chance(0.35);
    e.err0 = r.pick(std::vector<int>{0, 0, EINTR, ENOMEM, ERANGE, EAGAIN, EILSEQ, EINVAL, ENOENT});
    e.fd0 = r.chance(0.3);
    e.loc = r.chance(0.4);
    return e;
}

static const std::vector<int> costPool = {0, 1, 10, 30, 50, 99, 100, 101, 150, 199, 200, 300};

struct G {
    Scenario sc;
    Rng r;
    explicit G(u64 s) : r(s) {}
    Op &op(const char *n) { sc.ops.push_back(Op(n)); return sc.ops.back(); }
    long long docId() {
        switch (r.range(0, 6)) {
        case 0: return (long long)r.below(5);
        case 1: return (long long)((1ULL << 32) + r.below(4));
        case 2: return (long long)((1ULL << 63) + r.below(3));
        case 3: return (long long)r.below(1ULL << 40);
        default: return (long long)r.below(60);
        }
    }
    long long costLetter(Vocab &v) { u32 c = lower(r.pick(v.letters)); return c == 0xf8ff ? 0 : c; }
    void costs(int slot, Vocab &v, int n, bool groups = true) {
        for (int i = 0; i < n; i++) {
            switch (r.range(0, groups ? 9 : 6)) {
            case 0: case 1: op("ecost").A(slot).A(r.range(0, 4)).A(r.pick(costPool)); break;
            case 2: op("ecost").A(slot).A(5).A(r.range(0, 6)); break;
            case 3: case 4: case 5: op("eset").A(slot).A(costLetter(v)).A(costLetter(v)).A(r.pick(costPool)); break;
            case 6: op("esub").A(slot); break;
            case 7: { CW w; int k = r.range(2, 5); for (int j = 0; j < k; j++) w.push_back(lower(r.pick(v.letters))); op("egrp").A(slot).A(r.pick(costPool)).S(encw(w)); break; }
            case 8: op("ekbd").A(slot).A(0); break;
            case 9: if (r.chance(0.3)) op("eclr").A(slot); break;
            }
        }
    }
    static u32 lower(u32 c) {
        if (c >= 'A' && c <= 'Z') return c + 32;
        if (c >= 0x391 && c <= 0x3a9) return c + 32;
        if (c >= 0x410 && c <= 0x42f) return c + 32;
        if (c >= 0x10400 && c <= 0x10427) return c + 40;
        return c;
    }
    // A corpus of documents over the vocabulary, at slot c.
    std::vector<long long> allIds;
    void corpus(int c, Vocab &v, const std::vector<std::string> &fields, int docs, bool distinctIds, int maxWords) {
        for (int i = 0; i < docs; i++) {
            long long id;
            if (distinctIds) { do id = docId() ^ (long long)r.below(1 << 20); while (std::find(allIds.begin(), allIds.end(), id) != allIds.end()); }
            else id = !allIds.empty() && r.chance(0.2) ? r.pick(allIds) : docId();
            if (id == -1) id = 7;
            allIds.push_back(id);
            Op o("mkdoc");
            o.A(c).A(id);
            int nf = r.range(1, (int)fields.size());
            if (r.chance(0.05)) nf = 0;
            std::set<std::string> used;
            for (int f = 0; f < nf; f++) {
                std::string fn = r.pick(fields);
                if (r.chance(0.95) && used.count(fn)) continue;
                used.insert(fn);
                o.S(fn).S(v.text(r.chance(0.05) ? 0 : 1, maxWords));
            }
            sc.ops.push_back(o);
        }
    }
    std::vector<std::string> fieldNames(Vocab &v, int n) {
        std::vector<std::string> f;
        static const std::vector<std::string> std_ = {"title", "text", "name", "author", "Keywords", "a", "\xc3\xa4rvo"};
        for (int i = 0; i < n; i++) f.push_back(r.chance(0.7) ? std_[(size_t)i % std_.size()] : v.word());
        return f;
    }
};

// ------------------------------------------------------------------------------------ matcher workloads
struct MOpt { bool costs = true, weights = true, filters = false, online = false, exclude = true, badQueries = true, distinct = false; int clients = 3; };

static void matcherQueries(G &g, Vocab &v, const std::vector<std::string> &fields, const MOpt &o, int matchers, int n) {
    Rng &r = g.r;
    for (int i = 0; i < n; i++) {
        int m = r.range(0, matchers - 1);
        int cl = 1 + (int)r.below((u64)o.clients);
        double x = (double)r.below(1000) / 1000;
        if (o.online && x < 0.55) {
            std::string f = r.pick(fields);
            // A primary field that is only an indexed word is neither clearly seen nor unseen.
            if (r.chance(0.07)) f = "nosuchfield" + std::to_string(r.below(9));
            std::string q = v.query();
            if (r.chance(0.5)) { q.clear(); int k = r.range(1, 4); for (int j = 0; j < k; j++) q += (j ? " " : "") + v.word(); }
            g.op("mon").A(m).S(q).S(f).C(cl);
            continue;
        }
        if (o.badQueries && r.chance(0.05)) { g.op("mq").A(m).A(-1).A(0).S(malform(r, v.query())).C(cl); continue; }
        int p = -1;
        if ((o.filters || o.exclude) && r.chance(o.filters ? 0.85 : 0.3)) {
            p = r.range(0, 2);
            if (r.chance(0.75)) {
                g.op("pnew").A(p).C(cl);
                if (r.chance(0.3)) g.op("pdyn").A(p).A(0).C(cl);
                if (o.exclude) while (r.chance(0.35)) g.op("pnos").A(p).S(r.chance(0.85) ? r.pick(fields) : v.word()).C(cl);
                if (o.exclude && r.chance(0.04)) for (int k = 0, z = r.pick(std::vector<int>{6, 10, 20, 40}); k < z; k++) g.op("pnos").A(p).S("x" + std::to_string(k)).C(cl);
                if (o.filters) {
                    int t = r.range(0, 3);
                    for (int k = 0; k < t; k++) {
                        if (k || r.chance(0.3)) g.op("pterm").A(p).C(cl);
                        int s = r.range(0, 2) + (r.chance(0.5) ? 1 : 0);
                        for (int q = 0; q < s; q++) {
                            std::string f = r.chance(0.93) ? r.pick(fields) : "unseen" + std::to_string(r.below(5));
                            std::string w = r.chance(0.85) ? v.word() : r.chance(0.5) ? v.near() : "unseenword" + std::to_string(r.below(5));
                            g.op("psub").A(p).S(f).S(w).C(cl);
                        }
                    }
                }
            }
        }
        g.op("mq").A(m).A(p).A(r.range(0, p >= 0 ? 2 : 2)).S(v.query()).C(cl);
    }
}

// Sizes and repetitions far beyond the usual: counters, caches and containers that only misbehave past 255,
// 256, 1000 or 2^k entries of one kind.
static void scaleRun(G &g, const MOpt &o, int force = -1) {
    Rng &r = g.r;
    Vocab v(r, g.sc.prop == "C11");
    v.maxLen = std::min(v.maxLen, 6);
    v.fill(r.range(3, 25));
    int kind = r.range(0, 11);
    if (kind == 8 && g.sc.prop == "C11") kind = 5;
    if (kind >= 7 && kind <= 9 && !r.chance(0.5)) kind = r.range(0, 6);
    if (kind == 9 && ((g.sc.prop != "C01" && g.sc.prop != "C02") || r.chance(0.4))) kind = 5;
    if (force >= 0) kind = force;
    auto fields = g.fieldNames(v, r.range(1, 3));
    if (kind == 4) for (int i = 0, n = r.pick(std::vector<int>{20, 70, 140, 270}); i < n; i++) { std::string f = "f"; for (int k = i; k; k /= 20) f += (char)('a' + k % 20); fields.push_back(f); }
    g.op("mnew").A(0);
    MOpt q = o; q.clients = 1;
    if (o.costs && r.chance(0.3)) g.costs(100, v, 2);
    auto doc = [&](int c, const std::string &text, const std::string &field) {
        long long id;
        do id = r.chance(0.8) ? (long long)r.below(100000) : g.docId() + (long long)r.below(1000); while (id == -1 || std::find(g.allIds.begin(), g.allIds.end(), id) != g.allIds.end());
        g.allIds.push_back(id);
        g.op("mkdoc").A(c).A(id).S(field).S(text);
    };
    switch (kind) {
    case 0: { // one word in very many documents
        std::string w = v.word();
        int n = r.pick(std::vector<int>{130, 260, 300, 520, 600, 1050});
        for (int i = 0; i < n; i++) doc(0, r.chance(0.93) ? (r.chance(0.7) ? w : w + " " + v.word()) : v.word(), r.pick(fields));
        g.op("mindex").A(0).A(0);
        g.op("mq").A(0).A(-1).A(0).S(w);
        matcherQueries(g, v, fields, q, 1, 2);
        if (r.chance(0.5)) { for (int i = 0; i < 5; i++) doc(1, w, r.pick(fields)); g.op("mindex").A(0).A(1); }
        g.op("mq").A(0).A(-1).A(0).S(w);
        if (o.online) g.op("mon").A(0).S(w).S(fields[0]);
        break; }
    case 1: // very many searches on one matcher
        for (int i = 0; i < 6; i++) doc(0, v.text(1, 5), r.pick(fields));
        g.op("mindex").A(0).A(0);
        matcherQueries(g, v, fields, q, 1, r.pick(std::vector<int>{70, 140, 270, 540}));
        break;
    case 2: { // very many batches
        int n = r.pick(std::vector<int>{10, 20, 40, 70, 140});
        for (int i = 0; i < n; i++) {
            doc(i % 3, v.text(1, 4), r.pick(fields));
            g.op("mindex").A(0).A(i % 3);
            if (r.chance(0.5)) g.op("cdel").A(i % 3);
            if (r.chance(0.1)) matcherQueries(g, v, fields, q, 1, 1);
        }
        matcherQueries(g, v, fields, q, 1, 5);
        break; }
    case 3: { // very many words in one field, one of them very often
        std::string t;
        int n = r.pick(std::vector<int>{130, 260, 300, 700, 1100});
        for (int i = 0; i < n; i++) t += (i ? " " : "") + (r.chance(0.6) ? encw(v.words[0]) : v.word());
        doc(0, t, fields[0]);
        for (int i = 0; i < 4; i++) doc(0, v.text(1, 6), r.pick(fields));
        g.op("mindex").A(0).A(0);
        matcherQueries(g, v, fields, q, 1, 6);
        if (o.online) g.op("mon").A(0).S(t).S(fields[0]);
        break; }
    case 7: { // past 2^16 occurrences of one word, or documents
        int n = r.range(65530, 66600);
        if (r.chance(0.5)) {
            std::string w = encw(v.words[0]), t;
            for (int i = 0; i < n; i++) t += (i ? " " : "") + w;
            doc(0, t, fields[0]);
        } else g.op("mkdoc").A(0).A(200000 + (long long)r.below(1000)).A(n).S(fields[0]).S(v.word());
        for (int i = 0; i < 3; i++) doc(0, v.text(1, 4), r.pick(fields));
        g.op("mindex").A(0).A(0);
        for (int i = 0; i < 2; i++) doc(1, v.text(1, 4), r.pick(fields));
        g.op("mindex").A(0).A(1);
        g.op("mq").A(0).A(-1).A(0).S(encw(v.words[0]));
        matcherQueries(g, v, fields, q, 1, 2);
        break; }
    case 9: { // past 2^16 different words
        while (fields.size() < 3) fields.push_back("fld" + std::to_string(fields.size()));
        for (int i = 0; i < 4; i++) doc(0, v.text(1, 4), fields[(size_t)i % 3]);
        g.op("mindex").A(0).A(0);
        int per = r.range(16300, 16360), id = 0;
        auto text = [&](int n) { std::string t; for (int i = 0; i < n; i++) { if (i) t += " "; t += "zq" + std::to_string(10000 + id++); } return t; };
        for (int b = 1; b <= 4; b++) {
            doc(b, text(per), fields[(size_t)b % 3]);
            g.op("mindex").A(0).A(b);
            g.op("cdel").A(b);
        }
        { // the words around the 65536th in every field
            std::string t = text(65600 + r.range(0, 300) - id);
            Op d("mkdoc"); d.A(5).A(900000);
            for (auto &f : fields) d.S(f).S(t);
            g.sc.ops.push_back(d);
        }
        doc(5, v.text(1, 4), r.pick(fields));
        g.op("mindex").A(0).A(5);
        for (size_t i = 0; i < v.words.size() && i < 12; i++) g.op("mq").A(0).A(-1).A(0).S(encw(v.words[i]));
        for (int i = 0; i < 3; i++) g.op("mq").A(0).A(-1).A(0).S("zq" + std::to_string(10000 + r.range(0, id - 1)));
        matcherQueries(g, v, fields, q, 1, 1);
        break; }
    case 10: { // words whose length is where narrow counters wrap
        std::vector<CW> ws;
        for (int i = 0; i < 5; i++) { int n = r.pick(std::vector<int>{127, 128, 129, 255, 256, 257, 258}); ws.push_back(i && r.chance(0.5) ? v.mutate(ws[0]) : v.fresh(n, n)); }
        for (auto &w : ws) doc(0, r.chance(0.5) ? encw(w) : encw(w) + " " + v.word(), r.pick(fields));
        g.op("mindex").A(0).A(0);
        for (int i = 0; i < 8; i++) {
            CW w = r.pick(ws);
            int want = r.pick(std::vector<int>{127, 128, 129, 255, 256, 257, 258});
            if (r.chance(0.5) && abs((int)w.size() - want) <= 2) w.resize((size_t)want, w[0]);
            for (int k = r.range(0, 2); k > 0; k--) w[r.below(w.size())] = r.pick(v.letters);
            g.op("mq").A(0).A(-1).A(r.range(0, 2)).S(encw(w));
        }
        matcherQueries(g, v, fields, q, 1, 2);
        break; }
    case 11: { // very many words so close to each other that one query reaches them all
        std::vector<u32> al;
        while (al.size() < 34) { u32 c = G::lower(r.chance(0.5) ? 'a' + (u32)r.below(26) : r.pick(v.letters)); if (r.chance(0.2)) c = 0x430 + (u32)r.below(32); if (std::find(al.begin(), al.end(), c) == al.end()) al.push_back(c); }
        bool brief = r.chance(0.5);
        CW base = v.fresh(6, 10);
        int n = r.pick(std::vector<int>{60, 130, 260, 520, 1050, 1050}), batches = r.range(1, 3);
        for (int i = 0; i < n; i++) {
            CW w;
            if (brief) { w.push_back(al[(size_t)i % 34]); w.push_back(al[(size_t)i / 34 % 34]); if (r.chance(0.1)) w.push_back(r.pick(al)); }
            else { w = base; w[(size_t)i % w.size()] = al[(size_t)i / w.size() % 34]; if (r.chance(0.5)) w[r.below(w.size())] = r.pick(al); }
            doc(i * batches / n, encw(w), r.chance(0.9) ? fields[0] : r.pick(fields));
            if (i + 1 == n || (i + 1) * batches / n != i * batches / n) g.op("mindex").A(0).A(i * batches / n);
        }
        for (int i = 0; i < 3; i++) {
            CW w = base;
            if (brief) { w.clear(); w.push_back(r.pick(al)); w.push_back(r.pick(al)); }
            std::string t = encw(w);
            if (r.chance(0.4)) t += " " + v.near();
            g.op("mq").A(0).A(-1).A(r.range(0, 2)).S(t);
            if (o.online && i == 1) g.op("mon").A(0).S(t).S(fields[0]);
        }
        matcherQueries(g, v, fields, q, 1, 2);
        break; }
    case 8: { // a word deeper than any stack
        std::string u = v.word(), big;
        size_t n = (size_t)r.range(90000, 130000), one = 0;
        for (char c : u) one += (c & 0xc0) != 0x80;
        for (size_t k = 0; k < n; k += one) big += u;
        for (int i = 0; i < 3; i++) doc(0, v.text(1, 4), r.pick(fields));
        doc(0, r.chance(0.5) ? big : big + " " + v.word(), fields[0]);
        g.op("mindex").A(0).A(0);
        if (o.costs) g.op("ecost").A(100).A(2).A(0);
        g.op("mq").A(0).A(-1).A(0).S(u);
        matcherQueries(g, v, fields, q, 1, 2);
        break; }
    case 6: { // parameters with very many exclusions, alternatives and conditions
        for (int i = 0; i < 8; i++) doc(0, v.text(1, 6), r.pick(fields));
        g.op("mindex").A(0).A(0);
        int n = r.pick(std::vector<int>{5, 9, 17, 33, 65, 130, 260});
        g.op("pnew").A(0);
        if (o.exclude) for (int i = 0; i < n; i++) g.op("pnos").A(0).S(i == 0 || r.chance(0.05) ? r.pick(fields) : "x" + std::to_string(i));
        if (o.filters) {
            // Alternatives that select nothing before, between and after those that may.
            int m = r.pick(std::vector<int>{1, 9, 33, 130, 255, 256, 257, 300, 520});
            double idle = r.chance(0.5) ? 0.98 : 0.2;
            for (int i = 0; i < m; i++) {
                if (r.chance(m >= 255 ? 0.995 : 0.7)) g.op("pterm").A(0);
                if (r.chance(idle) && i + 3 < m) g.op("psub").A(0).S("nofield" + std::to_string(i % 7)).S("noword" + std::to_string(i % 3));
                else g.op("psub").A(0).S(r.pick(fields)).S(v.word());
            }
        }
        for (int i = 0; i < 4; i++) { g.op("mq").A(0).A(0).A(r.range(0, 2)).S(v.query()); if (r.chance(0.4)) g.op("mq").A(0).A(-1).A(0).S(v.query()); }
        matcherQueries(g, v, fields, q, 1, 3);
        break; }
    case 4: // very many fields
        for (int i = 0; i < 3; i++) {
            long long id = 100 + i;
            g.allIds.push_back(id);
            Op d("mkdoc"); d.A(0).A(id);
            for (auto &f : fields) if (r.chance(0.7)) d.S(f).S(v.text(1, 2));
            g.sc.ops.push_back(d);
        }
        g.op("mindex").A(0).A(0);
        if (o.weights) for (int i = 0; i < 4; i++) g.op("mwt").A(0).S(r.pick(fields)).F(2.5);
        matcherQueries(g, v, fields, q, 1, 5);
        break;
    case 5: { // a very long query
        for (int i = 0; i < 8; i++) doc(0, v.text(1, 6), r.pick(fields));
        g.op("mindex").A(0).A(0);
        std::string t;
        int n = r.pick(std::vector<int>{33, 65, 130, 260, 300});
        for (int i = 0; i < n; i++) t += (i ? " " : "") + v.near();
        g.op("mq").A(0).A(-1).A(r.range(0, 2)).S(t);
        matcherQueries(g, v, fields, q, 1, 3);
        if (o.online) g.op("mon").A(0).S(t).S(fields[0]);
        break; }
    }
}

static void matcherRun(G &g, const MOpt &o) {
    Rng &r = g.r;
    if ((g.sc.prop == "C01" || (g.sc.prop == "C02" && g.sc.variant == "V2")) && g.sc.run == 20) { scaleRun(g, o, 9); return; }
    if (r.chance(0.03)) { scaleRun(g, o); return; }
    Vocab v(r, g.sc.prop == "C11");
    int size = (int)r.below(100);
    int words = size < 45 ? r.range(3, 25) : size < 90 ? r.range(30, 150) : size < 97 ? r.range(200, 500) : r.range(600, 1200);
    v.fill(words);
    int matchers = r.chance(0.75) ? 1 : r.range(2, 3);
    auto fields = g.fieldNames(v, r.range(1, 4));
    for (int m = 0; m < matchers; m++) g.op("mnew").A(m);
    int batches = r.range(1, 5), c = 0;
    bool big = words > 400;
    for (int b = 0; b < batches; b++) {
        int m = r.range(0, matchers - 1);
        int docs = big ? r.range(20, 60) : r.range(0, 12);
        g.corpus(c, v, fields, docs, o.distinct, big ? 20 : r.pick(std::vector<int>{2, 4, 8, 15}));
        if (docs == 0) g.op("cnew").A(c);
        if (o.costs && r.chance(0.5)) g.costs(100 + m, v, r.range(1, 4));
        if (o.weights && r.chance(0.4)) { double w[] = {0, 0.5, 2, 1, 10, 0.001, 3.75, 1e-8, 1e7, -1, -0.5}; g.op("mwt").A(m).S(r.chance(0.9) ? r.pick(fields) : v.word()).F(w[r.below(11)]); }
        if (o.badQueries && r.chance(0.2)) matcherQueries(g, v, fields, o, matchers, 2);
        g.op("mindex").A(m).A(c);
        if (r.chance(0.1)) g.op("mindex").A(m).A(c); // the same documents again
        if (r.chance(0.5)) g.op("cdel").A(c);
        c++;
        if (o.costs && r.chance(0.25)) g.costs(100 + m, v, r.range(1, 3));
        if (o.weights && r.chance(0.25)) { double w[] = {0, 0.25, 2, 1, 7}; g.op("mwt").A(m).S(r.pick(fields)).F(w[r.below(5)]); if (r.chance(0.5)) g.op("mgetw").A(m).S(r.pick(fields)); }
        matcherQueries(g, v, fields, o, matchers, r.range(2, big ? 4 : 7));
    }
    // A second field whose name is also an indexed word, seen only as a word: never used as a primary field.
}

// ------------------------------------------------------------------------------------ values
static const int NW = 5, NL = 4, ND = 4, NC = 3, NR = 4, NE = 2;

static std::string valueText(G &g, Vocab &v, bool tok) {
    Rng &r = g.r;
    if (tok && r.chance(0.35)) return malform(r, v.text(0, 5));
    if (r.chance(0.06)) return malform(r, v.text(0, 4));
    return v.text(0, r.chance(0.02) ? 200 : 6);
}
static std::string wordText(G &g, Vocab &v, bool tok) {
    Rng &r = g.r;
    double x = (double)r.below(1000) / 1000;
    if (x < 0.08) return v.text(2, 3);
    if (x < (tok ? 0.4 : 0.15)) return malform(r, v.word());
    if (x < 0.43 && r.chance(0.1)) return "";
    if (r.chance(0.03)) return encw(v.fresh(200, r.chance(0.1) ? 70000 : 600));
    return v.near();
}
static void valueOps(G &g, Vocab &v, int n, bool tok, bool noNames = false) {
    Rng &r = g.r;
    auto W = [&] { return r.range(0, NW - 1); };
    auto L = [&] { return r.range(0, NL - 1); };
    auto D = [&] { return r.range(0, ND - 1); };
    auto C = [&] { return r.range(0, NC - 1); };
    for (int i = 0; i < NW; i++) g.op("wnew").A(i).S(v.word());
    for (int i = 0; i < NL; i++) g.op("lsplit").A(i).S(v.text(0, 5));
    for (int i = 0; i < ND; i++) g.op("dnew").A(i).A(g.docId());
    for (int i = 0; i < NC; i++) g.op("cnew").A(i);
    for (int i = 0; i < n; i++) {
        int k = r.range(0, tok ? 60 : 49);
        if (k >= 50) k = r.pick(std::vector<int>{0, 1, 7, 8, 9, 21, 29, 30, 31, 31, 31});
        switch (k) {
        case 0: g.op("wnew").A(W()).S(wordText(g, v, tok)); break;
        case 1: g.op("wstr").A(W()).S(wordText(g, v, tok)); break;
        case 2: g.op("wlet").A(W()).S(r.chance(0.06) ? "" : v.word()); break;
        case 3: g.op("wcopy").A(W()).A(W()); break;
        case 4: g.op("wmovc").A(W()).A(W()); break;
        case 5: g.op("wasg").A(W()).A(W()); break;
        case 6: g.op("wmov").A(W()).A(W()); break;
        case 7: case 8: g.op("wtxt").A(W()).S(wordText(g, v, tok)); break;
        case 9: g.op("wtxts").A(W()).S(wordText(g, v, tok)); break;
        case 10: g.op("wjoin").A(W()).A(W()).A(W()); break;
        case 11: g.op("wdel").A(W()); g.op("wnew").A(W()).S(v.word()); break;
        case 12: g.op("wrd").A(W()); break;
        case 13: g.op("wcmp").A(W()).A(W()); break;
        case 14: g.op("wcmpt").A(W()).S(v.near()); break;
        case 15: g.op("lnew").A(L()); break;
        case 16: g.op("lcopy").A(L()).A(L()); break;
        case 17: g.op("lmovc").A(L()).A(L()); break;
        case 18: case 34: g.op("lasg").A(L()).A(L()); break;
        case 19: g.op("lmov").A(L()).A(L()); break;
        case 20: case 35: g.op("ladd").A(L()).A(W()); break;
        case 21: g.op("lsplit").A(L()).S(valueText(g, v, tok)); break;
        case 22: g.op("laddl").A(L()).A(L()).A(r.range(0, 4)); break;
        case 23: g.op("lget").A(L()).A(r.range(0, 7)); break;
        case 24: g.op("lcmp").A(L()).A(L()); break;
        case 25: g.op("ldel").A(L()); break;
        case 26: g.op("dnew").A(D()).A(g.docId()); break;
        case 27: g.op("dcopy").A(D()).A(D()); break;
        case 28: case 36: g.op("dasg").A(D()).A(D()); break;
        case 29: case 30: g.op("daddl").A(D()).A(W()).A(L()); break;
        case 31: case 32: case 37: g.op("daddt").A(D()).A(W()).A(r.range(0, 1)).S(valueText(g, v, tok)); break;
        case 33: g.op("dalias").A(D()).A(W()).A(W()); break;
        case 38: if (!noNames) g.op("dnames").A(D()).A(L()); break;
        case 39: g.op("dget").A(D()).A(W()); break;
        case 40: g.op("dcount").A(D()).A(W()).A(W()); break;
        case 41: g.op("ddel").A(D()); break;
        case 42: g.op("cnew").A(C()); break;
        case 43: case 44: case 45: g.op("cadd").A(C()).A(D()); break;
        case 46: g.op("caddown").A(C()).A(r.range(0, 3)); break;
        case 47: g.op("cget").A(C()).A(r.range(0, 5)); break;
        case 48: if (r.chance(0.3)) g.op("cdel").A(C()); break;
        case 49: g.op("wnew").A(W()).S(v.word()); break;
        }
    }
}
static void resultOps(G &g, int n) {
    Rng &r = g.r;
    auto R = [&] { return r.range(0, NR - 1); };
    std::vector<double> rels = {1, 1, 2, 2, 0.5, 0, -1, 100, 1e300, 3.25, 1e-300, 1 + 1e-8, 1 + 1e-15, 1e-9, 2 - 1e-7};
    if (r.chance(0.5)) { if (r.chance(0.5)) rels.resize(4); else rels = {1, 1 + 1e-8, 1 - 1e-7, 1 + 1e-15, 1}; }
    bool many = r.chance(0.1);
    for (int i = 0; i < NR; i++) g.op("rnew").A(i);
    for (int i = 0; i < n; i++) {
        switch (r.range(0, 20)) {
        case 0: case 1: case 2: case 3: case 4: case 5: g.op("radd").A(R()).A(g.docId()).F(r.pick(rels)); break;
        case 6: case 7: g.op("rcat").A(R()).A(R()); break;
        case 8: case 9: g.op("rcpy").A(R()).A(R()).A(r.range(0, 9)); break;
        case 10: g.op("rcopy").A(R()).A(R()); break;
        case 11: g.op("rmovc").A(R()).A(R()); break;
        case 12: g.op("rasg").A(R()).A(R()); break;
        case 13: g.op("rmov").A(R()).A(R()); break;
        case 14: case 15: case 16: g.op("rget").A(R()).A(r.range(0, 12)).A(r.range(0, 1)); break;
        case 17: g.op("rdel").A(R()); break;
        case 18: g.op("rnew").A(R()); break;
        case 19: {
            long long k = r.chance(0.5) ? (long long)-1 : r.pick(std::vector<long long>{1LL << 32, (1LL << 32) + 1, 1LL << 31, 65536, 256, (long long)(1ULL << 63)});
            if (r.chance(0.7)) g.op("rget").A(R()).A(k).A(0);
            else g.op("rcpy").A(R()).A(R()).A(k);
            break; }
        case 20: if (many) { int k = R(); int m = r.chance(0.85) ? r.range(20, 70) : r.range(200, 1100); for (int j = 0; j < m; j++) g.op("radd").A(k).A(g.docId()).F(r.pick(rels)); } break;
        }
    }
}
static void costOps(G &g, Vocab &v, int n, bool accents) {
    Rng &r = g.r;
    std::set<u32> used;
    Op ls("letters");
    for (int i = 0; i < 9; i++) { u32 c = G::lower(r.pick(v.letters)); if (used.insert(c).second) ls.A((long long)c); }
    u32 edge[] = {0x1ff, 0x200, 0x1fe, 0x201, 'a', 'b', 0x3b1, 0x4e00, 0xffdc, 0};
    for (int i = 0; i < 4; i++) { u32 c = edge[r.below(10)]; if (used.insert(c).second) ls.A((long long)c); }
    // Now and then many more letters, and groups of most of them.
    bool wide = r.chance(0.06);
    if (wide) {
        u32 base[] = {0x21, 0xdf, 0x1d0, 0x370, 0x4e00};
        u32 b = base[r.below(5)];
        for (u32 c = b, m = b + (u32)r.range(34, 90); c < m; c++) { u32 l = G::lower(c); if (l != 0x7f && used.insert(l).second) ls.A((long long)l); }
    }
    std::vector<u32> lv(used.begin(), used.end());
    g.sc.ops.push_back(ls);
    for (int i = 0; i < NE; i++) g.op("enew").A(i);
    if (wide) n = std::min(n, 15);
    for (int i = 0; i < n; i++) {
        int e = r.range(0, NE - 1);
        switch (r.range(0, 14)) {
        case 0: case 1: case 2: case 3: g.op("eset").A(e).A((long long)r.pick(lv)).A((long long)r.pick(lv)).A(r.pick(costPool)); break;
        case 4: case 5: case 6: case 7: {
            CW w; int k = r.range(1, 5);
            if (wide && r.chance(0.5)) { k = 0; for (u32 l : lv) if (!r.chance(0.1)) w.push_back(l); for (size_t j = w.size(); j > 1; j--) std::swap(w[j - 1], w[r.below(j)]); }
            for (int j = 0; j < k; j++) w.push_back(r.pick(lv));
            g.op("egrp").A(e).A(r.pick(costPool)).S(encw(w));
            break; }
        case 8: if (r.chance(0.4)) g.op("eclr").A(e); break;
        case 9: if (r.chance(0.5)) g.op("ekbd").A(e).A(r.range(0, 1)); break;
        case 10: case 11: g.op("eget").A(e).A((long long)r.pick(lv)).A((long long)r.pick(lv)); break;
        case 12: if (r.chance(0.3)) { g.op("edel").A(e); g.op("enew").A(e); } break;
        case 13: if (accents && r.chance(0.4)) g.op("eacc").A(e).A(r.range(0, 1)); break;
        case 14: g.op("ecost").A(e).A(r.range(0, 5)).A(r.pick(costPool)); break;
        }
    }
}
static void storeOps(G &g, Vocab &v, int n) {
    Rng &r = g.r;
    int st = r.range(1, 2), nid = 0;
    for (int i = 0; i < st; i++) g.op("snew").A(i);
    for (int i = 0; i < n; i++) {
        int s = r.range(0, st - 1);
        switch (r.range(0, 9)) {
        case 0: g.op("shas").A(s).S(v.near()); break;
        case 1: g.op("swrd").A(s).A(r.chance(0.85) ? r.range(0, nid + 1) : r.range(0, 1000000)); break;
        case 2: if (r.chance(0.04)) { g.op("sdel").A(s); g.op("snew").A(s); } break;
        case 3: g.op("shas").A(s).S(v.word()); break;
        default: g.op("sget").A(s).S(r.chance(0.85) ? v.word() : v.near()); nid++; break;
        }
    }
}
static void indexOps(G &g, Vocab &v, int n, bool cost, int slots) {
    Rng &r = g.r;
    g.op("enew").A(0); g.op("enew").A(1);
    for (int i = 0; i < slots; i++) g.op("xnew").A(i);
    int nid = r.pick(std::vector<int>{0, 0, 1000, 70000, 2000000000});
    for (int i = 0; i < n; i++) {
        int x = r.range(0, slots - 1);
        switch (r.range(0, 11)) {
        case 0: case 1: case 2: case 3: case 4: case 5: g.op("xins").A(x).A(nid++).S(v.word()); break;
        case 6: case 7: case 8: g.op("xfind").A(x).A(r.chance(0.8) ? 0 : 1).A(r.pick(std::vector<int>{0, 30, 50, 99, 100, 100, 150, 200, 200, 200, 250, 300, 500, 900})).S(v.near()); break;
        case 9: g.op("xhas").A(x).S(v.near()); break;
        case 10: if (cost && r.chance(0.5)) g.costs(0, v, 1); break;
        case 11: if (r.chance(0.03)) { g.op("xdel").A(x); g.op("xnew").A(x); } break;
        }
    }
}

static std::string accentFile(G &g, Vocab &) {
    Rng &r = g.r;
    if (r.chance(0.04)) return "!missing";
    if (r.chance(0.04)) return "!dir";
    std::string s;
    std::vector<u32> pool;
    int styles = r.range(1, 4);
    for (int k = 0; k < styles; k++) {
        u32 b = r.pick(std::vector<u32>{'a', 0xe0, 0x100, 0x1f0, 0x3b1, 0x430, 0x4e00, 0x1e00, 0xac00});
        u32 n = (u32)r.range(10, 60);
        for (u32 i = 0; i < n; i++) { u32 c = b + i; if ((c >= 'a' && c <= 'z') || c >= 0xe0) pool.push_back(c); }
    }
    int big = r.chance(0.35) ? r.range(200, 2200) : 0;
    for (int i = 0; i < big; i++) pool.push_back(0x5000 + (u32)i * 2);
    std::sort(pool.begin(), pool.end());
    pool.erase(std::unique(pool.begin(), pool.end()), pool.end());
    // Letters with a simple fold onto another one of the pool would make two groups share it.
    std::vector<u32> uniq;
    for (u32 c : pool) if (!(c >= 0xe0 && c < 0x24f && false)) uniq.push_back(c);
    for (size_t i = uniq.size(); i > 1; i--) std::swap(uniq[i - 1], uniq[r.below(i)]);
    size_t i = 0;
    int lines = 0;
    double longLines = r.chance(0.2) ? 0.05 : 0;
    size_t bad = r.chance(0.25) ? r.below(uniq.size()) : ~(size_t)0;
    while (i < uniq.size() && lines < 700) {
        CW w;
        size_t k = r.chance(longLines) ? r.below(350) + 1 : 1 + r.below(4);
        for (size_t j = 0; j < k && i < uniq.size(); j++, i++) w.push_back(uniq[i]);
        std::string ln = encw(w);
        if (bad != ~(size_t)0 && i > bad) {
            bad = ~(size_t)0;
            switch (r.range(0, 4)) {
            case 0: ln = malform(r, ln); break;
            case 1: ln += "\r"; break;
            case 2: ln.insert(0, " "); break;
            case 3: ln += encw(CW(1, uniq[r.below(i)])); break;
            case 4: ln += "\t" + ln; break;
            }
            for (auto &c : ln) if (c == '\n') c = ' ';
        }
        s += ln + "\n";
        lines++;
        if (r.chance(0.1)) s += "\n";
    }
    if (r.chance(0.2) && !s.empty()) s.resize(s.size() - 1);
    if (s.empty()) s = "\n";
    return s;
}

// Positions that a narrower integer would mistake for small ones.
static long long wide(Rng &r) {
    long long k = r.range(0, 3);
    switch (r.range(0, 5)) {
    case 0: return (1LL << 32) + k;
    case 1: return (1LL << 31) + k;
    case 2: return (1LL << 16) + k;
    case 3: return 256 + k;
    case 4: return -1 - k;
    default: return (long long)(1ULL << 63) + k;
    }
}
static void capiOps(G &g, Vocab &v, int n) {
    Rng &r = g.r;
    auto fields = g.fieldNames(v, 3);
    for (int i = 0; i < 3; i++) g.op("kw").A(i).S(fields[(size_t)i]);
    for (int i = 0; i < 2; i++) g.op("km").A(i);
    g.op("kc").A(0);
    if (r.chance(0.7)) { // a matcher that finds something
        for (int d = 0, k = r.range(1, 4); d < k; d++) {
            g.op("kd").A(0).A(g.docId());
            for (int f = r.range(1, 2); f > 0; f--) g.op("kdadd").A(0).A(r.range(0, 2)).S(v.text(1, 4));
            g.op("kcadd").A(0).A(0);
        }
        g.op("kmindex").A(0).A(0);
        g.op("kms").A(0).A(0).S(v.word());
    }
    for (int i = 0; i < n; i++) {
        switch (r.range(0, 24)) {
        case 0: g.op("kw").A(r.range(3, 5)).S(wordText(g, v, true)); break;
        case 1: case 2: { int w = r.range(0, 5); g.op("kwread").A(w).A(r.chance(0.3) ? r.range(0, 4) : r.range(0, 40)); break; }
        case 3: { // around the exact size of the word
            std::string t = v.word();
            g.op("kw").A(4).S(t);
            int d = (int)t.size() + r.range(-2, 3);
            g.op("kwread").A(4).A(d < 0 ? 0 : d);
            break; }
        case 4: g.op("kwlen").A(r.range(0, 5)); break;
        case 5: g.op("kd").A(r.range(0, 2)).A(g.docId()); break;
        case 6: case 7: case 8: g.op("kdadd").A(r.range(0, 2)).A(r.range(0, 2)).S(valueText(g, v, r.chance(0.2))); break;
        case 9: g.op("kdid").A(r.range(0, 2)); break;
        case 10: case 11: g.op("kcadd").A(r.range(0, 1)).A(r.range(0, 2)); break;
        case 12: g.op("kc").A(r.range(0, 1)); break;
        case 13: case 14: g.op("kmindex").A(r.range(0, 1)).A(r.range(0, 1)); break;
        case 15: case 16: case 17: {
            int q = r.range(0, 2);
            g.op("kms").A(r.range(0, 1)).A(q).S(r.chance(0.1) ? malform(r, v.query()) : v.query());
            for (int k = r.range(0, 3); k > 0; k--) g.op("kr").A(q).A(r.chance(0.6) ? r.range(0, 3) : wide(r)).A(r.range(0, 2));
            break; }
        case 18: case 19: g.op("kr").A(r.range(0, 2)).A(r.chance(0.7) ? r.range(0, 5) : r.chance(0.4) ? r.range(0, 100) : wide(r)).A(r.range(0, 2)); break;
        case 20: g.op("kwt").A(r.range(0, 1)).A(r.range(0, 5)).F(r.pick(std::vector<double>{0, 0.5, 2, 10, -1, -2.5, -0.0, 1e-310, 1e12})); break;
        case 21: g.op("kwtget").A(r.range(0, 1)).A(r.range(0, 5)); break;
        case 22: if (r.chance(0.3)) g.op("kstd").A(r.range(0, 1)); break;
        case 23: if (r.chance(0.3)) g.op("ksub").A(r.range(0, 1)); break;
        case 24:
            switch (r.range(0, 5)) {
            case 0: g.op("kddel").A(r.range(0, 2)); break;
            case 1: g.op("kcdel").A(1); break;
            case 2: g.op("krdel").A(r.range(0, 2)); break;
            case 3: g.op("krnew").A(r.range(0, 2)); break;
            case 4: g.op("kwdel").A(r.range(3, 5)); break;
            case 5: g.op("km").A(r.range(0, 1)); break;
            }
            break;
        }
    }
}

// Histories of Python objects: made, combined, searched, aliased, dropped and collected in any order, with objects that
// were handed out by others used after their owners' names are gone.
static void pyOps(G &g, Vocab &v, int n) {
    Rng &r = g.r;
    auto fields = g.fieldNames(v, 3);
    Op ls("letters");
    for (int i = 0; i < 5; i++) ls.A((long long)G::lower(r.pick(v.letters)));
    g.sc.ops.push_back(ls);
    auto letter = [&] { return (long long)G::lower(r.pick(v.letters)); };
    for (int i = 0; i < 3; i++) g.op("ywnew").A(i).S(fields[(size_t)i]);
    g.op("ycnew").A(0);
    g.op("ymnew").A(0);
    if (r.chance(0.8)) {
        for (int d = 0, k = r.range(1, 4); d < k; d++) {
            g.op("ydnew").A(0).A(g.docId());
            for (int f = r.range(1, 2); f > 0; f--) g.op("ydadd").A(0).A(r.range(0, 2)).S(v.text(1, 4));
            g.op("ycadd").A(0).A(0);
        }
        g.op("ymindex").A(0).A(0);
        g.op("ymq").A(0).A(0).S(v.word());
    }
    auto W = [&] { return r.range(0, 6); };
    auto L = [&] { return r.range(0, 3); };
    auto D = [&] { return r.range(0, 2); };
    auto C = [&] { return r.range(0, 1); };
    auto M = [&] { return r.range(0, 1); };
    auto R = [&] { return r.range(0, 3); };
    auto E = [&] { return r.range(0, 2); };
    auto I = [&] { return r.range(0, 1); };
    int slots[] = {7, 4, 3, 2, 2, 4, 3, 2};
    auto setCost = [&](int e) {
        switch (r.range(0, 9)) {
        case 0: g.op("yeset").A(e).A(1).A(0).A(0).A(r.pick(costPool)); break;
        case 1: g.op("yeset").A(e).A(2); break;
        case 2: g.op("yeset").A(e).A(3); break;
        case 3: if (r.chance(0.5)) { g.op("yeset").A(e).A(4); break; } // fall through
        default: g.op("yeset").A(e).A(0).A(letter()).A(letter()).A(r.pick(costPool)); break;
        }
    };
    for (int i = 0; i < n; i++) {
        switch (r.range(0, 33)) {
        case 0: case 1: g.op("ywnew").A(r.range(3, 6)).S(wordText(g, v, r.chance(0.3))); break;
        case 2: case 3: g.op("ywget").A(W()); break;
        case 4: { int k = r.range(0, 3); g.op("ylen").A(k).A(k == 0 ? W() : k == 1 ? L() : k == 2 ? C() : R()).A(r.range(0, 1)); break; }
        case 5: if (r.chance(0.4)) g.op("ylnew").A(L()); else g.op("ylcopy").A(L()).A(L()); break;
        case 6: case 7: g.op("ylsplit").A(L()).S(valueText(g, v, r.chance(0.2))); break;
        case 8: case 9: g.op("yladd").A(L()).A(W()); break;
        case 10: case 11: { // an element, used after the list changed or is gone
            int l = L(), w = r.range(3, 6);
            g.op("ylget").A(l).A(r.chance(0.8) ? r.range(0, 3) : r.chance(0.5) ? r.range(0, 300) : (long long)(r.next() >> r.range(0, 60))).A(w);
            if (r.chance(0.6)) {
                switch (r.range(0, 3)) {
                case 0: case 1: for (int k = r.range(1, 6); k > 0; k--) g.op("yladd").A(l).A(W()); break;
                case 2: g.op("ydrop").A(1).A(l); break;
                case 3: g.op("ylsplit").A(l).S(v.text(1, 4)); break;
                }
                g.op("ywget").A(w);
            }
            break; }
        case 12: g.op("yliter").A(L()).A(r.range(3, 6)).A(r.range(0, 5)); break;
        case 13: g.op("ydnew").A(D()).A(g.docId()); break;
        case 14: g.op("ydcopy").A(D()).A(D()); break;
        case 15: g.op("ydnum").A(D()).A(r.range(0, 1)); break;
        case 16: case 17: g.op("ydadd").A(D()).A(r.range(0, 2)).S(valueText(g, v, r.chance(0.2))); break;
        case 18: case 19: { // a document's text, used after the document is gone
            int d = D(), l = L();
            g.op("ydtext").A(d).A(r.range(0, 2)).A(l);
            switch (r.range(0, 5)) {
            case 0: g.op("ydrop").A(2).A(d); break;
            case 1: g.op("ydnew").A(d).A(g.docId()); break;
            case 2: g.op("ydadd").A(d).A(r.range(0, 2)).S(v.text(1, 4)); break;
            }
            if (r.chance(0.6)) g.op("yliter").A(l).A(r.range(3, 6)).A(r.range(0, 5));
            if (r.chance(0.3)) g.op("ylget").A(l).A(r.range(0, 3)).A(r.range(3, 6));
            break; }
        case 20: if (r.chance(0.3)) g.op("ycnew").A(C()); else g.op("ycadd").A(C()).A(D()); break;
        case 21: g.op("ycadd").A(C()).A(D()); break;
        case 22: if (r.chance(0.25)) g.op("ymnew").A(M()); else g.op("ymindex").A(M()).A(C()); break;
        case 23: case 24: {
            int q = R();
            g.op("ymq").A(M()).A(q).S(r.chance(0.1) ? malform(r, v.query()) : v.query());
            if (r.chance(0.3)) g.op("ydrop").A(4).A(M());
            for (int k = r.range(0, 3); k > 0; k--) g.op("yrget").A(q).A(r.chance(0.7) ? r.range(0, 3) : r.chance(0.5) ? r.range(0, 100) : (long long)(r.next() >> r.range(0, 60))).A(r.range(0, 1));
            break; }
        case 25: { // a matcher's costs, used after the matcher's name is gone or to change its results
            int m = M(), e = E();
            g.op("ymev").A(m).A(e);
            if (r.chance(0.3)) g.op("ydrop").A(4).A(m);
            for (int k = r.range(0, 3); k > 0; k--) setCost(e);
            if (r.chance(0.6)) g.op("ymq").A(m).A(R()).S(v.query());
            break; }
        case 26: {
            int m = M(), w = I();
            g.op("ymiw").A(m).A(w);
            if (r.chance(0.3)) g.op("ydrop").A(4).A(m);
            if (r.chance(0.7)) g.op("yiset").A(w).A(r.range(0, 2)).F(r.pick(std::vector<double>{0, 0.5, 2, 10, -1, -2.5, -0.0, 1e-310, 1e12}));
            if (r.chance(0.5)) g.op("yiget").A(w).A(r.range(0, 2));
            if (r.chance(0.6)) g.op("ymq").A(m).A(R()).S(v.query());
            break; }
        case 27: if (r.chance(0.2)) g.op("yrnew").A(R()); else g.op("yradd").A(R()).A(R()); break;
        case 28: g.op("yrget").A(R()).A(r.range(0, 4)).A(r.range(0, 1)); break;
        case 29: if (r.chance(0.3)) g.op("yenew").A(E()); else setCost(E()); break;
        case 30: if (r.chance(0.6)) g.op("yeget").A(E()).A(0).A(letter()).A(letter()); else g.op("yeget").A(E()).A(r.range(1, 2)).A(r.range(0, 1)); break;
        case 31:
            switch (r.range(0, 3)) {
            case 0: g.op("yinew").A(I()); break;
            case 1: g.op("yiset").A(I()).A(W()).F(r.pick(std::vector<double>{0, 0.5, 2, 10, -1, -2.5, -0.0, 1e-310, 1e12})); break;
            default: g.op("yiget").A(I()).A(W()); break;
            }
            break;
        case 32: { int k = r.range(0, 7); g.op("ydrop").A(k).A(r.range(0, slots[k] - 1)); if (r.chance(0.3)) g.op("ygc"); break; }
        case 33: { int k = r.range(0, 7); if (r.chance(0.5)) g.op("ybad").A(k).A(r.range(0, slots[k] - 1)).A(r.range(0, 1)); else g.op("yalias").A(k).A(r.range(0, slots[k] - 1)).A(r.range(0, slots[k] - 1)); break; }
        }
    }
}

// Everything at once: for resource and allocation failures.
static void mixedOps(G &g, int n, bool twin) {
    Rng &r = g.r;
    Vocab v(r);
    v.maxLen = std::min(v.maxLen, 6);
    v.fill(r.range(4, 30));
    int kinds = r.range(1, 63);
    auto fields = g.fieldNames(v, 2);
    MOpt mo; mo.filters = true; mo.clients = 1;
    if (kinds & 1) valueOps(g, v, n / 2, r.chance(0.3), twin);
    if (kinds & 2) resultOps(g, n / 2);
    if (kinds & 4) costOps(g, v, n / 2, !twin);
    else { Op ls("letters"); for (int i = 0; i < 5; i++) ls.A((long long)G::lower(r.pick(v.letters))); g.sc.ops.push_back(ls); }
    if (kinds & 8) storeOps(g, v, n / 2);
    if (kinds & 16) indexOps(g, v, n / 2, true, 2);
    if (kinds & 32) {
        g.op("mnew").A(0);
        g.corpus(10, v, fields, r.range(1, 4), true, 4);
        g.op("mindex").A(0).A(10);
        matcherQueries(g, v, fields, mo, 1, r.range(1, 4));
        int nw = r.range(0, 3);
        if (r.chance(0.4)) { g.costs(100, v, r.range(1, 3)); matcherQueries(g, v, fields, mo, 1, 1); }
        for (int i = 0; i < nw; i++) {
            std::string f = r.chance(0.8) ? r.pick(fields) : v.word();
            g.op("mwt").A(0).S(f).F(r.pick(std::vector<double>{2, 0.5, 4}));
            if (r.chance(0.6)) g.op("mgetw").A(0).S(f);
            if (r.chance(0.5)) matcherQueries(g, v, fields, mo, 1, 1);
        }
        if (r.chance(0.5)) { g.corpus(11, v, fields, r.range(1, 3), true, 4); g.op("mindex").A(0).A(11); }
        mo.online = true;
        matcherQueries(g, v, fields, mo, 1, r.range(1, 4));
        if (!twin && r.chance(0.5)) capiOps(g, v, 10);
    }
    Op p("probes");
    for (int i = 0; i < 3; i++) p.S(v.query());
    g.sc.ops.insert(g.sc.ops.begin(), p);
}

#define B(x) (1u << (x))
GenInfo genInfo(const std::string &p) {
    GenInfo i;
    const u32 MEM = B(S_NEW) | B(S_MALLOC), DISK = B(S_TMPFILE) | B(S_FTRUNC) | B(S_MMAP) | B(S_MUNMAP), CONV = B(S_ICONV), DATA = B(S_OPEN) | B(S_READ) | B(S_STAT);
    if (p == "C01") { i.seams = MEM | DISK | CONV; i.faultRuns = 0.4; i.faultyOps = 0.3; }
    else if (p == "C02") { i.seams = MEM | CONV; i.faultRuns = 0.25; i.faultyOps = 0.2; }
    else if (p == "C03") { i.seams = MEM | DISK; i.faultRuns = 0.5; i.faultyOps = 0.15; }
    else if (p == "C04") { i.seams = MEM | DISK; i.faultRuns = 0.6; i.faultyOps = 0.2; }
    else if (p == "C05") { i.seams = DISK; i.faultRuns = 1; i.faultyOps = 0.5; i.ballast = true; i.sticky = 0.3; }
    else if (p == "C06") { i.seams = MEM; i.faultRuns = 1; i.faultyOps = 0.35; i.sticky = 0.3; }
    else if (p == "C07") { i.seams = MEM | DISK | CONV | DATA; i.faultRuns = 0.85; i.faultyOps = 0.35; }
    else if (p == "C08") { i.seams = MEM | CONV; i.faultRuns = 0.3; i.faultyOps = 0.3; }
    else if (p == "C09") { i.seams = MEM | CONV; i.faultRuns = 0.2; i.faultyOps = 0.2; }
    else if (p == "C10") { i.seams = MEM | DISK | CONV | DATA; i.faultRuns = 0.35; i.faultyOps = 0.3; }
    else if (p == "C12") { i.seams = MEM | CONV | DATA; i.faultRuns = 0.75; i.faultyOps = 0.8; i.sticky = 0.3; }
    else if (p == "C13") { i.seams = MEM | DISK | CONV | DATA; i.faultRuns = 0.6; i.faultyOps = 0.3; }
    else if (p == "C14") { i.seams = MEM | DISK; i.faultRuns = 0.95; i.faultyOps = 0.75; }
    else if (p == "C15" || p == "C16") { i.seams = MEM | CONV; i.faultRuns = 0.3; i.faultyOps = 0.25; }
    else if (p == "C17") { i.seams = MEM; i.faultRuns = 0.6; i.faultyOps = 0.3; }
    else if (p == "C18") { i.seams = MEM | CONV; i.faultRuns = 0.7; i.faultyOps = 0.35; }
    else if (p == "C19") { i.seams = MEM | CONV; i.faultRuns = 0.5; i.faultyOps = 0.3; }
    else if (p == "C20") { i.seams = MEM; i.faultRuns = 0.6; i.faultyOps = 0.35; }
    else if (p == "C25") { i.seams = MEM | DISK; i.faultRuns = 0.5; i.faultyOps = 0.2; }
    else if (p == "C24") { i.seams = MEM | DISK | CONV | DATA; i.faultRuns = 0.5; i.faultyOps = 0.25; }
    return i;
}

// A few operations, one after another, far more often than anyone would write down: counters that wrap,
// caches that fill, buffers that are reused. Nothing that grows its operand from itself is repeated.
static void amplify(G &g) {
    Rng &r = g.r;
    static const std::set<std::string> reads = {"mq", "mon", "mgetw", "xfind", "xhas", "sget", "shas", "swrd", "wrd", "wcmp", "wcmpt", "lget", "lcmp", "dget", "dcount", "dnames",
        "cget", "rget", "eget", "kms", "kwread", "ksub", "kwlen", "kwtget", "ymq", "yrget", "ywget", "ylget", "ylen", "yliter", "yeget", "yiget", "ydnum", "ybad", "ygc"};
    static const std::set<std::string> writes = {"wnew", "wstr", "wlet", "wcopy", "wasg", "wtxt", "wtxts", "wdel", "lsplit", "lcopy", "lasg", "ladd", "lnew", "daddl", "daddt", "dcopy", "dasg",
        "radd", "rcopy", "rasg", "rmov", "rdel", "rnew", "ecost", "eset", "egrp", "esub", "eclr", "ekbd", "pnos", "pdyn", "mwt", "xins", "enew", "edel", "kw", "kwdel", "krnew", "krdel",
        "ywnew", "yeset", "ydrop"};
    std::vector<size_t> at;
    for (size_t i = 0; i < g.sc.ops.size(); i++) if (reads.count(g.sc.ops[i].name) || writes.count(g.sc.ops[i].name)) at.push_back(i);
    if (at.empty()) return;
    size_t i = r.pick(at), n = 1;
    if (r.chance(0.4)) while (n < 6 && i + n < g.sc.ops.size() && (reads.count(g.sc.ops[i + n].name) || writes.count(g.sc.ops[i + n].name))) n++;
    int times = r.pick(std::vector<int>{15, 40, 70, 140, 270, 300}) / (int)n + 1;
    std::vector<Op> block(g.sc.ops.begin() + (long)i, g.sc.ops.begin() + (long)(i + n)), more;
    for (int k = 0; k < times; k++) more.insert(more.end(), block.begin(), block.end());
    g.sc.ops.insert(g.sc.ops.begin() + (long)(i + n), more.begin(), more.end());
}

// A container filled past the sizes at which its storage is replaced.
static void enlarge(G &g) {
    Rng &r = g.r;
    static const std::set<std::string> adds = {"cadd", "radd", "daddl", "daddt", "ladd", "kcadd", "kdadd", "ycadd", "yradd", "yladd", "ydadd"};
    std::vector<size_t> at;
    for (size_t i = 0; i < g.sc.ops.size(); i++) if (adds.count(g.sc.ops[i].name)) at.push_back(i);
    if (at.empty()) return;
    std::string kind = g.sc.ops[r.pick(at)].name; // every kind of container as often
    std::vector<size_t> of;
    for (size_t i : at) if (g.sc.ops[i].name == kind) of.push_back(i);
    size_t i = r.pick(of);
    int times = r.pick(std::vector<int>{4, 8, 16, 16, 32, 64, 100}) + r.range(-1, 2);
    Op o = g.sc.ops[i];
    g.sc.ops.insert(g.sc.ops.begin() + (long)i, (size_t)times, o);
}

static void generateInto(G &g, const std::string &prop, const std::string &variant, long run);
// Indexes and stores that already hold so much that the next growth concerns several pages.
static void fillBefore(G &g) {
    Rng &r = g.r;
    for (size_t i = 0; i < g.sc.ops.size(); i++) {
        std::string n = g.sc.ops[i].name;
        if ((n != "xnew" && n != "snew") || g.sc.ops[i].arg(0) == 90 || g.sc.ops[i].client || r.chance(0.4)) continue;
        Op b(n == "xnew" ? "xbulk" : "sbulk");
        b.C(9).A(g.sc.ops[i].arg(0)).A(r.range(10, 240)).A((long long)r.below(1000000)).A(1 + (long long)r.below(1000)).A(26);
        g.sc.ops.insert(g.sc.ops.begin() + (long)i + 1, b);
        i++;
    }
}
Scenario generate(const std::string &prop, const std::string &variant, u64 seed, long run) {
    u64 s = mix64(seed * 0x51ed2701 + mix64((u64)run * 2654435761u + fnvs(prop + (prop == "C11" ? "" : variant))));
    G g(s);
    Rng &r = g.r;
    g.sc.prop = prop; g.sc.variant = variant; g.sc.seed = seed; g.sc.run = run;
    g.sc.env = randomEnv(r);
    g.sc.env2 = randomEnv(r);
    generateInto(g, prop, variant, run);
    if ((prop == "C05" || prop == "C07") && run != 7 && g.sc.ops.size() < 200 && r.chance(0.35)) fillBefore(g);
    if (prop != "C10" && prop != "C25" && g.sc.ops.size() > 1 && g.sc.ops.size() < 200 && r.chance(prop == "C17" || prop == "C18" ? 0.01 : 0.025)) amplify(g);
    if (prop != "C10" && prop != "C25" && g.sc.ops.size() > 1 && g.sc.ops.size() < 200 && r.chance(prop == "C06" ? 0.12 : 0.03)) enlarge(g);
    return g.sc;
}

static void generateInto(G &g, const std::string &prop, const std::string &variant, long run) {
    Rng &r = g.r;
    MOpt o;
    if (prop == "C01") { o.weights = r.chance(0.2); matcherRun(g, o); }
    else if (prop == "C02") { matcherRun(g, o); }
    else if (prop == "C03") {
        Vocab v(r);
        int sz = (int)r.below(100);
        v.fill(sz < 50 ? r.range(2, 20) : sz < 92 ? r.range(20, 120) : r.range(150, 600));
        if (r.chance(0.01)) {
            // Very many words, or one word very many times.
            g.op("enew").A(0); g.op("xnew").A(0);
            if (r.chance(0.5)) g.op("xbulk").A(0).A(r.range(65600, 70000)).A(0).A(1).A(26);
            else g.op("xbulk").A(0).A(r.range(65530, 65560)).A(777).A(1).A(26).A(1);
            for (int i = 0; i < 3; i++) { std::string q; for (int k = 0; k < 4; k++) q += (char)('a' + r.below(26)); g.op("xfind").A(0).A(0).A(100).S(q); }
            for (int i = 0; i < 4; i++) g.op("xins").A(0).A(i).S(v.word());
        } else if (r.chance(0.01)) {
            // A word deeper than any stack: longer words cost nothing, or next to it.
            g.op("enew").A(0); g.op("xnew").A(0);
            g.op("ecost").A(0).A(r.chance(0.7) ? 2 : 0).A(0);
            for (int i = 0; i < 4; i++) g.op("xins").A(0).A(i).S(v.word());
            std::string u = v.word();
            g.op("xlong").A(0).A(50).A(r.range(100000, 220000)).S(u);
            for (int i = 0; i < 2; i++) g.op("xfind").A(0).A(0).A(r.pick(std::vector<int>{0, 100, 200})).S(r.chance(0.7) ? u : v.near());
        } else if (r.chance(0.06)) {
            g.op("enew").A(0); g.op("xnew").A(0);
            int alpha = r.pick(std::vector<int>{2, 5, 26, 400});
            g.op("xbulk").A(0).A(r.range(300, 3000)).A(0).A(r.range(1, 37)).A(alpha);
            for (int i = 0; i < 4; i++) g.op("xins").A(0).A(i).S(v.word());
            g.costs(0, v, r.range(0, 2));
            for (int i = 0; i < 3; i++) {
                CW q;
                for (int k = r.range(1, 8); k > 0; k--) q.push_back((u32)((alpha > 30 ? 0x4e00 : 'a') + r.range(0, alpha - 1)));
                g.op("xfind").A(0).A(0).A(r.pick(std::vector<int>{0, 100, 200, 300, 500, 700, 1000})).S(r.chance(0.6) ? encw(q) : v.near()); // hundreds of matches
            }
        } else indexOps(g, v, r.range(10, sz < 92 ? 60 : 250), true, r.range(1, 2));
    } else if (prop == "C04") {
        Vocab v(r);
        int sz = (int)r.below(100);
        v.fill(sz < 50 ? r.range(2, 25) : sz < 90 ? r.range(25, 120) : r.range(150, 500));
        if (r.chance(0.008)) { g.op("snew").A(0); g.op("sbulk").A(0).A(r.range(65600, 68000)).A(0).A(1).A(26); g.op("sget").A(0).S(v.word()); }
        else {
            if (r.chance(0.06)) { g.op("snew").A(0); g.op("sbulk").A(0).A(r.range(100, 3000)).A(0).A(r.range(1, 37)).A(r.pick(std::vector<int>{2, 5, 26, 400})); }
            storeOps(g, v, r.range(8, sz < 90 ? 60 : 250));
        }
    } else if (prop == "C05" && variant == "V1" && run == 7) {
        g.op("xfill").A(120).A(1000000); // an index past every size its file can have
    } else if (prop == "C05") {
        Vocab v(r);
        v.maxLen = std::max(v.maxLen, 5);
        v.fill(r.range(8, 80));
        int which = r.range(0, 3);
        g.op("xnew").A(90);
        for (int i = 0; i < 3; i++) g.op("xins").A(90).A(i).S(v.word());
        auto fields = g.fieldNames(v, 2);
        if (which != 1) indexOps(g, v, r.range(8, 40), r.chance(0.3), r.range(1, 2));
        if (which != 0) storeOps(g, v, r.range(8, 40));
        if (which >= 2) {
            MOpt mo; mo.clients = 1; mo.costs = false;
            g.op("mnew").A(0);
            for (int b = 0; b < 2; b++) {
                g.corpus(20 + b, v, fields, r.range(1, 6), true, 8);
                g.op("mindex").A(0).A(20 + b);
                matcherQueries(g, v, fields, mo, 1, 2);
            }
        }
        Op p("probes");
        for (int i = 0; i < 3; i++) p.S(v.query());
        g.sc.ops.insert(g.sc.ops.begin(), p);
    } else if (prop == "C06") mixedOps(g, r.range(6, 26), true);
    else if (prop == "C07") mixedOps(g, r.range(6, 30), false);
    else if (prop == "C08") {
        Vocab v(r);
        v.fill(r.range(4, 60));
        auto fields = g.fieldNames(v, r.range(1, 3));
        g.op("mnew").A(0);
        o.filters = true;
        int b = r.range(1, 2);
        for (int i = 0; i < b; i++) {
            g.corpus(i, v, fields, r.range(1, 10), false, 6);
            g.op("mindex").A(0).A(i);
            if (r.chance(0.4)) g.costs(100, v, r.range(1, 3));
            if (r.chance(0.3)) g.op("mwt").A(0).S(r.pick(fields)).F(2);
            matcherQueries(g, v, fields, o, 1, r.range(2, 5));
            MOpt on = o; on.online = true;
            matcherQueries(g, v, fields, on, 1, r.range(1, 4));
            // Names only ever seen in filters, then indexed or used as a primary field.
            if (r.chance(0.4)) {
                std::string nm = "filteronly" + std::to_string(r.below(3));
                g.op("pnew").A(0); g.op("psub").A(0).S(r.chance(0.5) ? nm : r.pick(fields)).S(r.chance(0.5) ? nm : v.word());
                g.op("mq").A(0).A(0).A(0).S(v.query());
                if (r.chance(0.6)) g.op("mon").A(0).S(v.query()).S(nm);
                else { g.op("mkdoc").A(9).A(g.docId()).S(nm).S(v.word() + " " + nm); g.op("mindex").A(0).A(9); g.op("mq").A(0).A(-1).A(0).S(nm); }
            }
        }
    } else if (prop == "C09") {
        Vocab v(r);
        v.fill(r.chance(0.8) ? r.range(4, 60) : r.range(100, 300));
        auto fields = g.fieldNames(v, r.range(1, 3));
        g.sc.mode = r.chance(0.3) ? 1 : 0; // 1: the combined corpus is in another order
        g.op("mnew").A(0);
        int b = r.range(1, 5);
        for (int i = 0; i < b; i++) {
            int k = r.range(0, 2);
            g.op("cdel").A(k);
            g.corpus(k, v, fields, r.range(0, 6), g.sc.mode == 1 || r.chance(0.7), 6);
            g.op("mindex").A(0).A(k);
            if (r.chance(0.5)) matcherQueries(g, v, fields, o, 1, r.range(1, 2));
            if (r.chance(0.6)) g.op("cdel").A(k);
        }
        MOpt on = o; on.online = true; on.filters = true;
        g.op("nop"); // what follows is the comparison
        if (r.chance(0.5)) g.costs(100, v, r.range(1, 3));
        matcherQueries(g, v, fields, on, 1, r.range(4, 9));
    } else if (prop == "C10") {
        // Per-thread histories (client = thread) over shared values in slots 0..3 built first (client 0).
        Vocab v(r);
        v.fill(r.range(4, 15));
        auto fields = g.fieldNames(v, 2);
        // Cold runs: nothing of the library has been used in the process when the threads start - in mode 2 nothing at
        // all, each thread then makes the values that are otherwise shared for itself.
        g.sc.mode = r.chance(0.25) ? r.range(1, 2) : 0;
        bool own = g.sc.mode == 2;
        if (!own) {
        for (int i = 0; i < 2; i++) g.op("wnew").A(i).S(fields[(size_t)i]);
        g.op("wnew").A(2).S(v.word());
        for (int i = 0; i < 2; i++) g.op("lsplit").A(i).S(v.text(1, 4));
        g.op("dnew").A(0).A(g.docId()); g.op("daddl").A(0).A(0).A(0); g.op("daddl").A(0).A(1).A(1);
        g.corpus(0, v, fields, r.range(1, 3), true, 4);
        }
        int th = r.range(2, 3);
        for (int t = 1; t <= th; t++) {
            int n = r.range(2, 6);
            int b = t * 1000, S = own ? b + 500 : 0;
            if (own) {
                for (int i = 0; i < 3; i++) if (r.chance(0.6)) g.op("wnew").A(S + i).S(i < 2 ? fields[(size_t)i] : v.word()).C(t);
                for (int i = 0; i < 2; i++) if (r.chance(0.6)) g.op("lsplit").A(S + i).S(v.text(1, 4)).C(t);
                if (r.chance(0.6)) { g.op("dnew").A(S).A(g.docId()).C(t); g.op("daddl").A(S).A(S).A(S).C(t); g.op("daddl").A(S).A(S + 1).A(S + 1).C(t); }
                if (r.chance(0.6)) { g.op("cnew").A(S).C(t); g.op("cadd").A(S).A(S).C(t); }
            }
            for (int i = 0; i < n; i++) {
                switch (r.range(0, 13)) {
                case 0: g.op("mnew").A(b).C(t); g.op("mindex").A(b).A(S).C(t); g.op("mq").A(b).A(-1).A(0).S(v.query()).C(t); break;
                case 1: g.op("xnew").A(b).C(t); for (int k = 0; k < 4; k++) g.op("xins").A(b).A(k).S(v.word()).C(t); g.op("enew").A(b).C(t); g.op("xfind").A(b).A(b).A(200).S(v.near()).C(t); break;
                case 2: g.op("snew").A(b).C(t); for (int k = 0; k < 4; k++) g.op("sget").A(b).S(v.word()).C(t); g.op("swrd").A(b).A(0).C(t); break;
                case 3: g.op("wcopy").A(b).A(S + r.range(0, 2)).C(t); g.op("wrd").A(b).C(t); break;
                case 4: g.op("wnew").A(b + 1).S(r.chance(0.2) ? v.text(2, 2) : v.near()).C(t); g.op("wcmp").A(b + 1).A(S).C(t); break;
                case 5: g.op("lsplit").A(b).S(v.text(0, 4)).C(t); g.op("ladd").A(b).A(S + r.range(0, 2)).C(t); g.op("lcmp").A(b).A(S + r.range(0, 1)).C(t); break;
                case 6: g.op("lcopy").A(b + 1).A(S + r.range(0, 1)).C(t); break;
                case 7: g.op("dcopy").A(b).A(S).C(t); g.op("daddt").A(b).A(S).A(0).S(v.text(1, 3)).C(t); g.op("dcount").A(b).A(S + 2).A(S).C(t); break;
                case 8: g.op("dget").A(S).A(S + r.range(0, 1)).C(t); g.op("lnew").A(b + 2).C(t); g.op("dnames").A(S).A(b + 2).C(t); break;
                case 9: g.op("cnew").A(b).C(t); g.op("cadd").A(b).A(S).C(t); g.op("cget").A(S).A(0).C(t); break;
                case 10: g.op("rnew").A(b).C(t); g.op("radd").A(b).A(1).F(1).C(t); g.op("radd").A(b).A(2).F(2).C(t); g.op("rget").A(b).A(1).C(t); break;
                case 11: g.op("enew").A(b).C(t); g.op("eset").A(b).A('a').A('b').A(10).C(t); g.op("egrp").A(b).A(20).S("cde").C(t); g.op("ekbd").A(b).A(r.range(0, 1)).C(t); g.op("eget").A(b).A('c').A('d').C(t); break;
                case 12: g.op("enew").A(b + 1).C(t); g.op("eacc").A(b + 1).A(r.range(0, 2)).C(t); break;
                case 13: g.op("pnew").A(b).C(t); g.op("pnos").A(b).S(fields[0]).C(t); g.op("mnew").A(b + 1).C(t); g.op("mindex").A(b + 1).A(S).C(t); g.op("mq").A(b + 1).A(b).A(0).S(v.query()).C(t); g.op("mon").A(b + 1).S(v.word()).S(fields[0]).C(t); break;
                }
            }
        }
    } else if (prop == "C11") {
        switch (r.range(0, 3)) {
        case 0: { Vocab v(r, true); v.fill(r.range(5, 40)); valueOps(g, v, 20, false); resultOps(g, 15); costOps(g, v, 15, true); break; }
        case 1: { Vocab v(r, true); v.fill(r.range(5, 80)); storeOps(g, v, 25); indexOps(g, v, 30, true, 2); break; }
        default: { o.filters = true; o.online = r.chance(0.5); matcherRun(g, o); break; }
        }
    } else if (prop == "C12") {
        Vocab v(r);
        v.fill(5);
        if (r.chance(0.85)) { g.sc.dataFile[0] = accentFile(g, v); g.sc.dataFile[1] = accentFile(g, v); }
        Op ls("letters");
        for (int i = 0; i < 6; i++) ls.A((long long)G::lower(r.pick(v.letters)));
        ls.A('e').A(0xe9).A('a').A(0xe4);
        g.sc.ops.push_back(ls);
        g.op("enew").A(0); g.op("enew").A(1);
        int n = r.range(1, 4);
        for (int i = 0; i < n; i++) {
            int e = r.range(0, 1);
            if (r.chance(0.2)) g.op("eset").A(e).A('a').A(0xe4).A(r.pick(costPool));
            if (r.chance(0.15)) g.op("egrp").A(e).A(r.pick(costPool)).S(r.chance(0.5) ? "xyz" : "\xd0\xb0\xd0\xb1");
            int what = r.pick(std::vector<int>{0, 0, 1, 1, 2});
            g.op("eacc").A(e).A(what);
            if (r.chance(0.6)) { g.op("eclr").A(e); g.op("eacc").A(e).A(what); }
        }
    } else if (prop == "C13") {
        Vocab v(r);
        v.fill(r.range(4, 30));
        if (r.chance(0.15)) { g.sc.dataFile[0] = accentFile(g, v); g.sc.dataFile[1] = accentFile(g, v); }
        capiOps(g, v, r.range(8, 45));
    } else if (prop == "C25") {
        Vocab v(r);
        v.fill(r.range(5, 40));
        if (r.chance(0.2)) g.op("mcost").A(r.pick(std::vector<int>{100, 400, 1500, 4000})).A((long long)r.below(100000)).A(r.range(1, 3)).A(r.range(0, 7));
        else {
            g.op("enew").A(0); g.op("xnew").A(0);
            if (r.chance(0.4)) g.costs(0, v, r.range(1, 3));
            int alpha = r.pick(std::vector<int>{8, 20, 26, 26});
            u64 first = r.below(1ULL << 36), step = 1 + r.below(1ULL << 28);
            for (int b = r.range(1, 3); b > 0; b--) {
                int n = r.pick(std::vector<int>{300, 1000, 1000, 2500});
                g.op("xbulk").A(0).A(n).A((long long)first).A((long long)step).A(alpha);
                for (int i = r.range(0, 8); i > 0; i--) g.op("xins").A(0).A((long long)r.below(1000)).S(v.word());
                if (r.chance(0.3)) g.costs(0, v, 1);
                for (int i = r.range(3, 9); i > 0; i--) {
                    std::string q;
                    if (r.chance(0.8)) {
                        for (u64 x = first + step * r.below((u64)n); x; x /= (u64)alpha) q += (char)('a' + x % (u64)alpha);
                        if (r.chance(0.6)) q[r.below(q.size())] = (char)('a' + r.below((u64)alpha));
                        if (r.chance(0.2)) q.erase(r.below(q.size()), 1);
                        if (r.chance(0.2)) q += v.word();
                    } else q = v.near();
                    if (q.empty()) q = "a";
                    int lim = r.pick(std::vector<int>{0, 50, 100, 100, 200});
                    if (r.chance(0.4)) g.op("xfind").A(0).A(0).A(lim).S(q);
                    g.op("xcost").A(0).A(0).A(lim).S(q);
                }
                first += step * (u64)n + r.below(1000000);
            }
        }
    } else if (prop == "C24") {
        Vocab v(r);
        v.maxLen = std::min(v.maxLen, 7);
        v.fill(r.range(4, 30));
        if (r.chance(0.15)) { g.sc.dataFile[0] = accentFile(g, v); g.sc.dataFile[1] = accentFile(g, v); }
        pyOps(g, v, r.range(8, 60));
    } else if (prop == "C14") {
        Vocab v(r);
        v.fill(r.chance(0.8) ? r.range(4, 50) : r.range(80, 250));
        auto fields = g.fieldNames(v, r.range(1, 3));
        int nm = r.chance(0.8) ? 1 : 2;
        for (int i = 0; i < nm; i++) g.op("mnew").A(i);
        MOpt q; q.filters = r.chance(0.3); q.clients = 1;
        int b = r.range(1, 4);
        for (int i = 0; i < b; i++) {
            int m = r.range(0, nm - 1);
            g.corpus(i, v, fields, r.range(1, 8), false, r.pick(std::vector<int>{2, 6, 15}));
            if (r.chance(0.2)) g.costs(100 + m, v, 2);
            g.op("mindex").A(m).A(i);
            // Another corpus takes the place of this one, perhaps at its very address.
            if (r.chance(0.3)) { g.op("cdel").A(i); g.corpus(i, v, fields, r.range(1, 8), false, r.pick(std::vector<int>{2, 6, 15})); g.op("mindex").A(m).A(i).C(r.chance(0.7) ? 9 : 0); }
            matcherQueries(g, v, fields, q, nm, r.range(1, 4));
            if (r.chance(0.4)) { MOpt on = q; on.online = true; matcherQueries(g, v, fields, on, nm, 2); }
            if (r.chance(0.25)) g.op("mindex").A(m).A(i); // may be interrupted again
            if (r.chance(0.7)) { g.op("mindex").A(m).A(i).C(9); matcherQueries(g, v, fields, q, nm, r.range(1, 4)); } // client 9: never faulted
        }
        for (int i = 0; i < b; i++) for (int m = 0; m < nm; m++) if (r.chance(0.5)) { g.op("mindex").A(m).A(i).C(9); }
        matcherQueries(g, v, fields, q, nm, r.range(2, 5));
    } else if (prop == "C15") { o.filters = true; matcherRun(g, o); }
    else if (prop == "C16") { o.online = true; o.filters = r.chance(0.3); matcherRun(g, o); }
    else if (prop == "C17") resultOps(g, r.range(8, 60));
    else if (prop == "C18") { Vocab v(r); v.fill(r.range(3, 20)); valueOps(g, v, r.range(8, 60), false); }
    else if (prop == "C19") {
        Vocab v(r);
        v.fill(r.range(3, 20));
        valueOps(g, v, r.range(8, 45), true);
        if (r.chance(0.4)) {
            auto fields = g.fieldNames(v, 2);
            g.op("mnew").A(0);
            g.corpus(20, v, fields, 2, true, 4);
            g.op("mindex").A(0).A(20);
            for (int i = 0; i < 4; i++) g.op("mq").A(0).A(-1).A(r.range(0, 1)).S(r.chance(0.5) ? malform(r, v.query()) : v.query());
        }
        if (r.chance(0.05)) g.op("lsplit").A(0).S(v.text(2000, 4000));
    } else if (prop == "C20") { Vocab v(r); v.fill(3); costOps(g, v, r.range(6, 45), r.chance(0.2)); }
}

static int errFor(Rng &r, int kind) {
    switch (kind) {
    case S_TMPFILE: return r.pick(std::vector<int>{EMFILE, ENFILE, EACCES, EROFS, ENOSPC, EINTR});
    case S_FTRUNC: return r.pick(std::vector<int>{ENOSPC, EIO, EFBIG, EINTR, EDQUOT});
    case S_MMAP: return r.pick(std::vector<int>{ENOMEM, EAGAIN, ENFILE, EPERM});
    case S_MUNMAP: return ENOMEM;
    case S_ICONV: return r.pick(std::vector<int>{EMFILE, ENFILE, ENOMEM, EINVAL});
    case S_OPEN: return r.pick(std::vector<int>{EMFILE, ENFILE, EACCES, EIO, EINTR});
    case S_READ: return r.pick(std::vector<int>{EIO, EIO, EISDIR, ESTALE, EAGAIN});
    case S_STAT: return r.pick(std::vector<int>{EACCES, EIO, ENOENT, EINTR});
    default: return ENOMEM;
    }
}

void placeFaults(Scenario &sc, const std::vector<OpCounts> &cnt, const std::vector<u64> &space, const std::vector<int> &status) {
    GenInfo gi = genInfo(sc.prop);
    Rng r(mix64(sc.seed * 77777 + (u64)sc.run * 31 + fnvs(sc.prop) + 5));
    if (!gi.seams || !r.chance(gi.faultRuns)) return;
    const std::string &p = sc.prop;
    if (gi.ballast && r.chance(0.4)) {
        // Bound the temporary storage: the call that next needs more fails.
        std::vector<size_t> grow;
        for (size_t i = 6; i < sc.ops.size() && i < space.size(); i++) if (i && space[i] > space[i - 1] && sc.ops[i].name != "xbulk" && sc.ops[i].name != "sbulk") grow.push_back(i);
        if (!grow.empty()) {
            size_t i = r.pick(grow);
            Op q("quota");
            q.A((long long)(space[i] - 1 - r.below(std::min<u64>(space[i] - space[i - 1], 512))));
            sc.ops.insert(sc.ops.begin() + (long)i, q);
            return;
        }
    }
    // With google sparsehash an allocation failure inside a table ends the process: a known finding of its own.
    if ((sc.variant == "V1" || sc.variant == "VT") && !(p == "C06" && r.chance(0.02))) gi.seams &= ~B(S_MALLOC);
    u32 swarm = gi.seams;
    if (r.chance(0.4)) { u32 k = (u32)r.next(); if (swarm & k) swarm &= k; }
    double dens = gi.faultyOps * r.pick(std::vector<double>{0.3, 1, 1, 1.7});
    for (size_t i = 0; i < sc.ops.size() && i < cnt.size(); i++) {
        Op &o = sc.ops[i];
        if (p == "C10" && !o.client) continue;
        if (o.client == 9 || o.name == "mkdoc" || o.name == "probes" || o.name == "letters") continue;
        if (p == "C06" && (o.name == "dnames" || o.name == "eacc")) continue;
        if ((p == "C01" || p == "C02" || p == "C08" || p == "C09" || p == "C15" || p == "C16") && (o.name == "mindex" || o.name == "mnew")) continue;
        if ((p == "C08" || p == "C09") && o.name != "mq" && o.name != "mon") continue;
        if (p == "C14" && o.name != "mindex" && !(r.chance(0.2) && (o.name == "mq" || o.name == "mon"))) continue;
        if (status[i] == 7) continue;
        std::vector<int> ks;
        for (int k = 0; k < NSEAM; k++) if ((swarm >> k & 1) && cnt[i].n[k]) { ks.push_back(k); if (k != S_NEW) ks.push_back(k); }
        if (ks.empty() || !r.chance(dens)) continue;
        int nf = r.chance(gi.extra) ? 2 : 1;
        for (int f = 0; f < nf; f++) {
            Fault q;
            q.kind = r.pick(ks);
            u32 n = cnt[i].n[q.kind];
            switch (r.range(0, 3)) {
            case 0: q.nth = 1 + (u32)r.below(std::min<u32>(n, 4)); break;
            case 1: q.nth = n - (u32)r.below(std::min<u32>(n, 4)); break;
            default: q.nth = 1 + (u32)r.below(n); break;
            }
            q.err = errFor(r, q.kind);
            q.mode = r.chance(gi.sticky) ? FM_STICKY : FM_ONCE;
            if (q.kind == S_READ) { int x = r.range(0, 4); q.mode = x == 0 ? FM_SHORT : x == 1 ? FM_EINTR : x == 2 ? FM_STICKY : FM_ONCE; }
            o.faults.push_back(q);
        }
    }
}
