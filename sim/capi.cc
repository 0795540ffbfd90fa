// Calls through the C interface, each mirrored on a C++ object, and loading of accent tables.
#include "world.h"
#include "calls.h"
#include "columbus.h"
#include <cmath>

typedef std::map<int, CHandle> HM;
static CHandle *H(HM &m, long long k) { auto i = m.find((int)k); return i == m.end() || !i->second.h ? nullptr : &i->second; }

struct CApi {
    static bool on(World &W) { return (W.orc & OR_CAPI) != 0; }
    // A C call never lets an exception escape.
    template <class F> static void ccall(World &W, Outcome &o, const char *name, F f) {
        libCall(o, f);
        if (o.st != OK_ && on(W)) W.violate("capi-escape", std::string(name) + " let an exception escape: " + statusNames[o.st] + " " + o.what);
    }
    static void bad(World &W, const char *name, const std::string &m) { if (on(W)) W.violate(std::string("capi-") + name, std::string("col_") + name + " " + m); }

    // ---- words
    static void kw(World &W, const Op &op, Outcome &o) {
        kwdel_(W, op.arg(0));
        const char *t = op.str(0).c_str();
        ColWord h = nullptr; Word *tw = nullptr;
        bool ok = quiet([&] { tw = new Word(t); });
        ccall(W, o, "col_word_new", [&] { h = col_word_new(t); });
        check(W, o, "word_new", h, ok, [&] { h = col_word_new(t); });
        finish(W.kw, op.arg(0), h, tw);
        if (!h && tw) quiet([&] { delete tw; });
        o.data = h ? "made" : "none";
    }
    // Constructors: a handle exactly when the C++ constructor succeeds; after a fault NULL or a good object, and
    // the call succeeds when repeated.
    template <class F> static void check(World &W, Outcome &o, const char *name, void *&h, bool expectOk, F redo) {
        if (o.hard) {
            if (h && !expectOk) bad(W, name, "returned an object for arguments its C++ counterpart rejects");
            if (!h) quiet(redo);
        }
        if (W.bad()) return;
        if (expectOk && !h) bad(W, name, "returned NULL where its C++ counterpart succeeds");
        if (!expectOk && h) bad(W, name, "returned an object for arguments its C++ counterpart rejects");
    }
    template <class T> static void finish(HM &m, long long k, void *h, T *tw) { CHandle c; c.h = h; c.twin = h ? tw : nullptr; m[(int)k] = c; }
    static void kwdel_(World &W, long long k) {
        auto i = W.kw.find((int)k);
        if (i == W.kw.end()) return;
        CHandle c = i->second;
        W.kw.erase(i);
        quiet([&] { if (c.h) col_word_delete(c.h); delete (Word *)c.twin; });
    }
    static void kwdel(World &W, const Op &op, Outcome &o) { if (!W.kw.count((int)op.arg(0))) { o.st = SKIPPED; return; } kwdel_(W, op.arg(0)); }
    static void kwlen(World &W, const Op &op, Outcome &o) {
        CHandle *c = H(W.kw, op.arg(0));
        if (!c) { o.st = SKIPPED; return; }
        size_t n = 0;
        ccall(W, o, "col_word_length", [&] { n = col_word_length(c->h); });
        o.data = fmt("%zu", n);
        if (n != ((Word *)c->twin)->length() && !(o.hard && n == 0)) bad(W, "word_length", fmt("returned %zu", n));
    }
    static void kwread(World &W, const Op &op, Outcome &o) {
        CHandle *c = H(W.kw, op.arg(0));
        if (!c) { o.st = SKIPPED; return; }
        unsigned n = (unsigned)op.arg(1);
        const unsigned G = 64;
        std::vector<char> room(n + 2 * G, (char)0x5a);
        char *b = room.data() + G;
        ccall(W, o, "col_word_as_utf8", [&] { col_word_as_utf8(c->h, b, n); });
        for (unsigned i = 0; i < G; i++)
            if (room[i] != 0x5a || room[G + n + i] != 0x5a) { bad(W, "word_as_utf8", fmt("wrote outside a buffer of %u bytes", n)); return; }
        std::string exp;
        quiet([&] { std::string t = ((Word *)c->twin)->asUtf8(); HostScope h; exp = std::string(t.data(), t.size()); });
        if (exp.size() + 1 <= n && !o.hard) {
            if (strnlen(b, n) != exp.size() || memcmp(b, exp.data(), exp.size()))
                bad(W, "word_as_utf8", "produced " + pct(std::string(b, strnlen(b, n))) + " instead of " + pct(exp));
            o.data = pct(std::string(b, strnlen(b, n)));
        }
    }
    // ---- documents
    static void kd(World &W, const Op &op, Outcome &o) {
        kddel_(W, op.arg(0));
        ColDocument h = nullptr; Document *tw = nullptr;
        DocumentID id = (DocumentID)op.arg(1);
        quiet([&] { tw = new Document(id); });
        ccall(W, o, "col_document_new", [&] { h = col_document_new(id); });
        check(W, o, "document_new", h, true, [&] { h = col_document_new(id); });
        finish(W.kd, op.arg(0), h, tw);
        if (!h && tw) quiet([&] { delete tw; });
    }
    static void kddel_(World &W, long long k) {
        auto i = W.kd.find((int)k);
        if (i == W.kd.end()) return;
        CHandle c = i->second;
        W.kd.erase(i);
        quiet([&] { if (c.h) col_document_delete(c.h); delete (Document *)c.twin; });
    }
    static void kddel(World &W, const Op &op, Outcome &o) { if (!W.kd.count((int)op.arg(0))) { o.st = SKIPPED; return; } kddel_(W, op.arg(0)); }
    static void kdid(World &W, const Op &op, Outcome &o) {
        CHandle *c = H(W.kd, op.arg(0));
        if (!c) { o.st = SKIPPED; return; }
        DocumentID id = 0;
        ccall(W, o, "col_document_get_id", [&] { id = col_document_get_id(c->h); });
        o.data = fmt("%llu", (unsigned long long)id);
        if (id != ((Document *)c->twin)->getID() && !(o.hard && id == INVALID_DOCID)) bad(W, "document_get_id", "returned " + o.data);
    }
    static void kdadd(World &W, const Op &op, Outcome &o) {
        CHandle *c = H(W.kd, op.arg(0)), *f = H(W.kw, op.arg(1));
        if (!c || !f || ((Word *)f->twin)->length() == 0) { o.st = SKIPPED; return; }
        const char *t = op.str(0).c_str();
        ccall(W, o, "col_document_add_text", [&] { col_document_add_text(c->h, f->h, t); });
        if (o.hard) quiet([&] { col_document_add_text(c->h, f->h, t); });
        quiet([&] { ((Document *)c->twin)->addText(*(Word *)f->twin, t); });
    }
    // ---- corpora
    static void kc(World &W, const Op &op, Outcome &o) {
        kcdel_(W, op.arg(0));
        ColCorpus h = nullptr; Corpus *tw = nullptr;
        quiet([&] { tw = new Corpus(); });
        ccall(W, o, "col_corpus_new", [&] { h = col_corpus_new(); });
        check(W, o, "corpus_new", h, true, [&] { h = col_corpus_new(); });
        finish(W.kc, op.arg(0), h, tw);
        if (!h && tw) quiet([&] { delete tw; });
    }
    static void kcdel_(World &W, long long k) {
        auto i = W.kc.find((int)k);
        if (i == W.kc.end()) return;
        CHandle c = i->second;
        W.kc.erase(i);
        quiet([&] { if (c.h) col_corpus_delete(c.h); delete (Corpus *)c.twin; });
    }
    static void kcdel(World &W, const Op &op, Outcome &o) { if (!W.kc.count((int)op.arg(0))) { o.st = SKIPPED; return; } kcdel_(W, op.arg(0)); }
    static void kcadd(World &W, const Op &op, Outcome &o) {
        CHandle *c = H(W.kc, op.arg(0)), *d = H(W.kd, op.arg(1));
        if (!c || !d) { o.st = SKIPPED; return; }
        ccall(W, o, "col_corpus_add_document", [&] { col_corpus_add_document(c->h, d->h); });
        if (o.hard) { c->taint = std::max(c->taint, 1); quiet([&] { col_corpus_add_document(c->h, d->h); }); } // maybe twice: occurrence counts unknown
        quiet([&] { ((Corpus *)c->twin)->addDocument(*(Document *)d->twin); });
    }
    // ---- matchers. taint 1: occurrence counts unknown; 2: costs unknown
    static void km(World &W, const Op &op, Outcome &o) {
        kmdel_(W, op.arg(0));
        ColMatcher h = nullptr; Matcher *tw = nullptr;
        quiet([&] { tw = new Matcher(); });
        ccall(W, o, "col_matcher_new", [&] { h = col_matcher_new(); });
        check(W, o, "matcher_new", h, true, [&] { h = col_matcher_new(); });
        finish(W.km, op.arg(0), h, tw);
        if (!h && tw) quiet([&] { delete tw; });
    }
    static void kmdel_(World &W, long long k) {
        auto i = W.km.find((int)k);
        if (i == W.km.end()) return;
        CHandle c = i->second;
        W.km.erase(i);
        quiet([&] { if (c.h) col_matcher_delete(c.h); delete (Matcher *)c.twin; });
    }
    static void kmdel(World &W, const Op &op, Outcome &o) { if (!W.km.count((int)op.arg(0))) { o.st = SKIPPED; return; } kmdel_(W, op.arg(0)); }
    static void kmindex(World &W, const Op &op, Outcome &o) {
        CHandle *m = H(W.km, op.arg(0)), *c = H(W.kc, op.arg(1));
        if (!m || !c) { o.st = SKIPPED; return; }
        ccall(W, o, "col_matcher_index", [&] { col_matcher_index(m->h, c->h); });
        m->taint = std::max(m->taint, c->taint);
        if (o.hard) { m->taint = std::max(m->taint, 1); quiet([&] { col_matcher_index(m->h, c->h); }); }
        quiet([&] { ((Matcher *)m->twin)->index(*(Corpus *)c->twin); });
    }
    static std::vector<std::pair<u64, double>> readTwin(MatchResults *r) {
        std::vector<std::pair<u64, double>> v;
        quiet([&] { HostScope h; for (size_t i = 0; i < r->size(); i++) v.push_back(std::make_pair((u64)r->getDocumentID(i), r->getRelevancy(i))); });
        return v;
    }
    static void kms(World &W, const Op &op, Outcome &o) {
        CHandle *m = H(W.km, op.arg(0));
        if (!m) { o.st = SKIPPED; return; }
        krdel_(W, op.arg(1));
        const char *t = op.str(0).c_str();
        ColMatchResults h = nullptr; MatchResults *tw = nullptr;
        bool ok = quiet([&] { tw = new MatchResults(((Matcher *)m->twin)->match(t)); });
        ccall(W, o, "col_matcher_match", [&] { h = col_matcher_match(m->h, t); });
        check(W, o, "matcher_match", h, ok, [&] { h = col_matcher_match(m->h, t); });
        finish(W.kr, op.arg(1), h, tw);
        if (!h && tw) quiet([&] { delete tw; });
        if (h && tw) {
            W.kr[(int)op.arg(1)].taint = m->taint;
            compareRes(W, W.kr[(int)op.arg(1)], o);
        }
    }
    // The whole content, read through the C interface without faults.
    static void compareRes(World &W, CHandle &r, Outcome &o) {
        auto exp = readTwin((MatchResults *)r.twin);
        std::vector<std::pair<u64, double>> got;
        quiet([&] {
            HostScope h;
            size_t n = col_match_results_size(r.h);
            for (size_t i = 0; i < n && i < 100000; i++) { u64 id = col_match_results_get_id(r.h, i); double x = col_match_results_get_relevancy(r.h, i); got.push_back(std::make_pair(id, x)); }
        });
        std::string why;
        if (r.taint >= 2) return;
        if (!o.hard) { o.res = got; o.hasRes = true; }
        if (r.taint == 1) { if (!sameResults(got, exp, true, 0, &why)) bad(W, "matcher_match", "found " + why); return; }
        if (got != exp) bad(W, "matcher_match", "found " + resStr(got) + " instead of " + resStr(exp));
    }
    static void krnew(World &W, const Op &op, Outcome &o) {
        krdel_(W, op.arg(0));
        ColMatchResults h = nullptr; MatchResults *tw = nullptr;
        quiet([&] { tw = new MatchResults(); });
        ccall(W, o, "col_match_results_new", [&] { h = col_match_results_new(); });
        check(W, o, "match_results_new", h, true, [&] { h = col_match_results_new(); });
        finish(W.kr, op.arg(0), h, tw);
        if (!h && tw) quiet([&] { delete tw; });
    }
    static void krdel_(World &W, long long k) {
        auto i = W.kr.find((int)k);
        if (i == W.kr.end()) return;
        CHandle c = i->second;
        W.kr.erase(i);
        quiet([&] { if (c.h) col_match_results_delete(c.h); delete (MatchResults *)c.twin; });
    }
    static void krdel(World &W, const Op &op, Outcome &o) { if (!W.kr.count((int)op.arg(0))) { o.st = SKIPPED; return; } krdel_(W, op.arg(0)); }
    static void kr(World &W, const Op &op, Outcome &o) {
        CHandle *r = H(W.kr, op.arg(0));
        if (!r) { o.st = SKIPPED; return; }
        size_t i = (size_t)op.arg(1), n = 0;
        DocumentID id = 0; double rel = 0;
        // One call per operation, so that a fault is attributed to it.
        switch (op.arg(2)) {
        case 0: ccall(W, o, "col_match_results_size", [&] { n = col_match_results_size(r->h); }); break;
        case 1: ccall(W, o, "col_match_results_get_id", [&] { id = col_match_results_get_id(r->h, i); }); break;
        default: ccall(W, o, "col_match_results_get_relevancy", [&] { rel = col_match_results_get_relevancy(r->h, i); }); break;
        }
        if (r->taint >= 2) return;
        auto exp = readTwin((MatchResults *)r->twin);
        if (op.arg(2) == 0) { o.data = fmt("%zu", n); if (n != exp.size() && !(o.hard && n == 0)) bad(W, "match_results_size", fmt("returned %zu instead of %zu", n, exp.size())); }
        else if (op.arg(2) == 1) {
            DocumentID e = i < exp.size() ? exp[i].first : INVALID_DOCID;
            if (r->taint == 0) o.data = fmt("%llu", (unsigned long long)id);
            if (i >= exp.size() ? id != INVALID_DOCID : (r->taint == 0 && id != e && !(o.hard && id == INVALID_DOCID)))
                bad(W, "match_results_get_id", fmt("returned %llu instead of %llu for position %zu", (unsigned long long)id, (unsigned long long)e, i));
        } else {
            double e = i < exp.size() ? exp[i].second : -1.0;
            if (r->taint == 0) o.data = ::dbl(rel);
            if (i >= exp.size() ? rel != -1.0 : (r->taint == 0 && rel != e && !(o.hard && rel == -1.0)))
                bad(W, "match_results_get_relevancy", "returned " + ::dbl(rel) + " instead of " + ::dbl(e) + fmt(" for position %zu", i));
        }
    }
    static void kwt(World &W, const Op &op, Outcome &o) {
        CHandle *m = H(W.km, op.arg(0)), *f = H(W.kw, op.arg(1));
        if (!m || !f || ((Word *)f->twin)->length() == 0) { o.st = SKIPPED; return; }
        ColIndexWeights iw = nullptr;
        ccall(W, o, "col_index_weights_set_weight", [&] { iw = col_matcher_get_index_weights(m->h); if (iw) col_index_weights_set_weight(iw, f->h, op.dbl(0)); });
        if (!iw && !o.hard) { bad(W, "matcher_get_index_weights", "returned NULL"); return; }
        if (o.hard) quiet([&] { iw = col_matcher_get_index_weights(m->h); if (iw) col_index_weights_set_weight(iw, f->h, op.dbl(0)); });
        quiet([&] { ((Matcher *)m->twin)->getIndexWeights().setWeight(*(Word *)f->twin, op.dbl(0)); });
    }
    static void kwtget(World &W, const Op &op, Outcome &o) {
        CHandle *m = H(W.km, op.arg(0)), *f = H(W.kw, op.arg(1));
        if (!m || !f) { o.st = SKIPPED; return; }
        double x = -5, e = -6;
        ccall(W, o, "col_index_weights_get_weight", [&] { ColIndexWeights iw = col_matcher_get_index_weights(m->h); if (iw) x = col_index_weights_get_weight(iw, f->h); });
        quiet([&] { e = ((Matcher *)m->twin)->getIndexWeights().getWeight(*(Word *)f->twin); });
        o.data = ::dbl(x);
        if (x != e && !(o.hard && (x == 1.0 || x == -5))) bad(W, "index_weights_get_weight", "returned " + ::dbl(x) + " instead of " + ::dbl(e));
    }
    static void kstd(World &W, const Op &op, Outcome &o) {
        CHandle *m = H(W.km, op.arg(0));
        if (!m) { o.st = SKIPPED; return; }
        ccall(W, o, "col_error_values_add_standard_errors", [&] { ColErrorValues e = col_matcher_get_error_values(m->h); if (e) col_error_values_add_standard_errors(e); });
        quiet([&] { ((Matcher *)m->twin)->getErrorValues().addStandardErrors(); });
        if (o.hard) m->taint = 2;
        if (m->taint < 2) kcosts(W, m);
    }
    static void ksub(World &W, const Op &op, Outcome &o) {
        CHandle *m = H(W.km, op.arg(0));
        if (!m) { o.st = SKIPPED; return; }
        ccall(W, o, "col_error_values_set_substring_mode", [&] { ColErrorValues e = col_matcher_get_error_values(m->h); if (e) col_error_values_set_substring_mode(e); });
        if (o.hard) quiet([&] { ColErrorValues e = col_matcher_get_error_values(m->h); if (e) col_error_values_set_substring_mode(e); });
        quiet([&] { ((Matcher *)m->twin)->getErrorValues().setSubstringMode(); });
    }
    // The cost table behind the handle holds what the C++ counterpart's holds (seen through the C++ class).
    static void kcosts(World &W, CHandle *m) {
        quiet([&] {
            ErrorValues *a = (ErrorValues *)col_matcher_get_error_values(m->h);
            ErrorValues &b = ((Matcher *)m->twin)->getErrorValues();
            HostScope h;
            if (!a) { bad(W, "matcher_get_error_values", "returned NULL"); return; }
            for (u32 x : W.letters) for (u32 y : W.letters)
                if (a->getSubstituteError((Letter_)x, (Letter_)y) != b.getSubstituteError((Letter_)x, (Letter_)y)) {
                    bad(W, "error_values_add_standard_errors", fmt("left %d as the cost of %x for %x instead of %d", a->getSubstituteError((Letter_)x, (Letter_)y), x, y, b.getSubstituteError((Letter_)x, (Letter_)y)));
                    return;
                }
        });
    }

    // ---- accent tables
    struct Lines { bool exists = true, readable = true, ok = true; std::vector<MW> groups; };
    // The data file as a reader that knows only its format would understand it.
    static Lines parseFile(const std::string &content) {
        Lines r;
        if (content == "!missing") { r.exists = false; r.ok = false; return r; }
        if (content == "!dir") { r.readable = false; r.ok = false; return r; }
        size_t i = 0;
        while (i < content.size()) {
            size_t e = content.find('\n', i);
            std::string ln = content.substr(i, e == std::string::npos ? std::string::npos : e - i);
            i = e == std::string::npos ? content.size() : e + 1;
            MW w;
            if (!mWord(ln, w)) { r.ok = false; return r; } // lines after the malformed one need not count
            if (!w.empty()) r.groups.push_back(w);
        }
        return r;
    }
    // eacc e group (group 2: all standard tables)
    static void eacc(World &W, const Op &op, Outcome &o) {
        ErrorValues *E = W.realEv((int)op.arg(0)); MEV *M = W.modelEv((int)op.arg(0));
        if (!E || !M) { o.st = SKIPPED; return; }
        std::vector<int> files;
        if (op.arg(1) == 2) { files.push_back(0); files.push_back(1); } else files.push_back(op.arg(1) ? 1 : 0);
        if (op.arg(1) == 2) libCall(o, [&] { E->addStandardErrors(); });
        else libCall(o, [&] { E->addAccents(op.arg(1) ? Columbus::greekAccentGroup : Columbus::latinAccentGroup); });
        bool chk = (W.orc & (OR_ACC | OR_E)) != 0;
        MEV before(*M);
        bool expectOk = !M->unknown;
        MEV after(*M);
        std::map<u32, std::set<u32>> mates;
        std::vector<u32> lets;
        for (int f : files) {
            Lines L = parseFile(W.fileText(f));
            if (!L.ok) expectOk = false;
            for (auto &g : L.groups) {
                if (expectOk && !after.groupOk(g)) expectOk = false;
                if (expectOk) after.addGroup(g, 30);
                for (u32 a : g) { for (u32 b : g) if (a != b) mates[a].insert(b); if (lets.size() < 60) lets.push_back(a); }
            }
        }
        bool was = M->unknown;
        if (o.st == OK_ && !was) {
            if (op.arg(1) == 2) after.keyboard();
            if (chk && !expectOk) { W.violate("accents-accepted", "loading accents reported success although the data cannot be loaded completely"); return; }
            if (chk && g_op.fired[S_READ] && g_op.firedHard) { W.violate("accents-accepted", "loading accents reported success although reading the data failed"); return; }
            *M = after;
        }
        if (o.st == NONSTD && chk) W.violate("accents-error", "not an exception derived from std::exception");
        if (o.failed() && chk && !o.hard && expectOk) { W.violate("accents-error", "loading accents failed without a cause: " + o.what); return; }
        if (!chk) { if (o.failed() || was) M->unknown = true; return; }
        for (u32 x : W.letters) lets.push_back(x);
        std::string why;
        if (op.arg(1) == 2) for (u32 c = 'a'; c <= 'z'; c++) lets.push_back(c);
        MEV kb; kb.keyboard();
        quiet([&] {
            HostScope h;
            for (u32 a : lets) for (u32 b : lets) {
                int v = E->getSubstituteError((Letter_)a, (Letter_)b), u = E->getSubstituteError((Letter_)b, (Letter_)a);
                if (v != u) { why = fmt("substituting %x by %x costs %d but %d the other way round", a, b, v, u); return; }
                if (o.st == OK_ && !was) { if (v != M->sub(a, b)) { why = fmt("substituting %x by %x costs %d instead of %d after a successful load", a, b, v, M->sub(a, b)); return; } }
                else if (a == b) { if (v) { why = fmt("substituting %x by itself costs %d", a, v); return; } }
                else if (!was) {
                    bool explicitly = before.single.count(std::make_pair(std::min(a, b), std::max(a, b))) > 0;
                    bool okv = v == before.sub(a, b);
                    if (!explicitly && mates.count(a) && mates[a].count(b) && v == 30) okv = true;
                    if (op.arg(1) == 2 && v == 30 && kb.single.count(std::make_pair(std::min(a, b), std::max(a, b)))) okv = true;
                    if (!okv) { why = fmt("after a failed load substituting %x by %x costs %d, which neither the earlier table (%d) nor the file defines", a, b, v, before.sub(a, b)); return; }
                }
            }
        });
        if (!why.empty()) W.violate("accents-cost", why);
        if (o.failed()) M->unknown = true;
    }
};

extern "C" void capiDestroy(World *w) {
    World &W = *w;
    while (!W.kr.empty()) CApi::krdel_(W, W.kr.begin()->first);
    while (!W.km.empty()) CApi::kmdel_(W, W.km.begin()->first);
    while (!W.kc.empty()) CApi::kcdel_(W, W.kc.begin()->first);
    while (!W.kd.empty()) CApi::kddel_(W, W.kd.begin()->first);
    while (!W.kw.empty()) CApi::kwdel_(W, W.kw.begin()->first);
}

const std::map<std::string, Handler> &moreHandlers() {
#define C(n) {#n, &CApi::n}
    static const std::map<std::string, Handler> t = {
        C(kw), C(kwdel), C(kwlen), C(kwread), C(kd), C(kddel), C(kdid), C(kdadd), C(kc), C(kcdel), C(kcadd), C(km), C(kmdel), C(kmindex),
        C(kms), C(krnew), C(krdel), C(kr), C(kwt), C(kwtget), C(kstd), C(ksub), C(eacc)};
#undef C
    return t;
}
