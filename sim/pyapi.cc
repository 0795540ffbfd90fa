// Calls through the Python module (variant VP): the interpreter is embedded, the module is /repo/python/columbus.cc, and
// every Python object has a C++ object beside it that receives the C++ counterpart of every call.
#include "world.h"
#include "calls.h"
#ifdef SIM_PYTHON
#include <Python.h>
#include <memory>
#include <cerrno>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
extern "C" PyObject *PyInit_columbus();
void pyStart();

typedef std::shared_ptr<void> Twin;
struct Var {
    PyObject *o = nullptr;
    Twin t;
    int taint = 0;                        // 1: occurrence counts unknown, 2: costs unknown
    bool view = false;                    // a list handed out by a document: content when it was handed out below
    std::vector<std::string> then;
    std::shared_ptr<int> mark;            // taint shared by everything that belongs to one matcher
};
struct PyWorld { std::map<std::string, Var> v; };
static PyWorld &PW(World &W) { if (!W.py) W.py = new PyWorld(); return *(PyWorld *)W.py; }

// The exception a C++ exception is documented (and translated by boost) to become.
static int pyStatus(std::string *what) {
    if (!PyErr_Occurred()) return OK_;
    PyObject *t = nullptr, *v = nullptr, *tb = nullptr;
    PyErr_Fetch(&t, &v, &tb);
    PyErr_NormalizeException(&t, &v, &tb);
    int st = NONSTD;
    PyObject *x = v ? v : t;
    if (PyErr_GivenExceptionMatches(x, PyExc_MemoryError)) st = BADALLOC;
    else if (PyErr_GivenExceptionMatches(x, PyExc_UnicodeError)) st = STDEXC;
    else if (PyErr_GivenExceptionMatches(x, PyExc_ValueError)) st = INVARG;
    else if (PyErr_GivenExceptionMatches(x, PyExc_IndexError)) st = OOR;
    else if (PyErr_GivenExceptionMatches(x, PyExc_TypeError) || PyErr_GivenExceptionMatches(x, PyExc_OverflowError)) st = STDEXC;
    else if (PyErr_GivenExceptionMatches(x, PyExc_SystemError)) st = NONSTD;
    else if (PyErr_GivenExceptionMatches(x, PyExc_RuntimeError)) st = RTERR;
    if (what) {
        *what = t ? ((PyTypeObject *)t)->tp_name : "?";
        if (v) if (PyObject *s = PyObject_Str(v)) { if (const char *c = PyUnicode_AsUTF8(s)) *what += std::string(": ") + std::string(c).substr(0, 200); Py_DECREF(s); }
        PyErr_Clear();
    }
    Py_XDECREF(t); Py_XDECREF(v); Py_XDECREF(tb);
    return st;
}
static PyObject *module_;
static const char *const names[] = {"Word", "WordList", "Document", "Corpus", "Matcher", "MatchResults", "ErrorValues", "IndexWeights", "split_to_words"};
static PyObject *type_[9];
enum { T_W, T_L, T_D, T_C, T_M, T_R, T_E, T_I, T_SPLIT };

void pyStart() {
    PyPreConfig pc;
    PyPreConfig_InitIsolatedConfig(&pc);
    pc.allocator = PYMEM_ALLOCATOR_MALLOC;
    pc.utf8_mode = 1;
    Py_PreInitialize(&pc);
    PyImport_AppendInittab("columbus", PyInit_columbus);
    PyConfig c;
    PyConfig_InitIsolatedConfig(&c);
    c.use_hash_seed = 1; c.hash_seed = 0;
    c.site_import = 0; c.install_signal_handlers = 0; c.write_bytecode = 0;
    PyStatus s = Py_InitializeFromConfig(&c);
    if (PyStatus_Exception(s)) { fprintf(stderr, "no Python: %s\n", s.err_msg ? s.err_msg : ""); _exit(3); }
    PyConfig_Clear(&c);
    module_ = PyImport_ImportModule("columbus");
    if (!module_) { PyErr_Print(); _exit(3); }
    for (int i = 0; i < 9; i++) { type_[i] = PyObject_GetAttrString(module_, names[i]); if (!type_[i]) { PyErr_Print(); _exit(3); } }
    // Everything once, so that what the interpreter and the binding library keep is there before any run.
    static const char warm[] =
        "import columbus as c, gc\n"
        "def go(f, *a):\n"
        "    try: return f(*a)\n"
        "    except Exception as e: str(e)\n"
        "for k in range(3):\n"
        "    w=c.Word('abc'); w.get_string(); len(w); f=c.Word(b'xyz')\n"
        "    l=c.WordList(); l.add_word(w); len(l); l[0].get_string(); l2=c.WordList(l); [x.get_string() for x in l]\n"
        "    s=c.split_to_words('ab cd'); go(c.split_to_words,b'\\xff'); go(lambda: l[77]); go(l.add_word,3); go(c.Word,'a b'); go(c.Word,None)\n"
        "    d=c.Document(5); d.add_text(w,'ab cd'); d.field_count(); d.get_id(); t=d.get_text(w); len(t); t[0].get_string(); go(d.get_text,f); c.Document(d); go(c.Document,-1); go(d.add_text,1,2)\n"
        "    o=c.Corpus(); o.add_document(d); len(o); o.size(); go(o.add_document,w)\n"
        "    m=c.Matcher(); m.index(o); r=m.match('ab'); go(m.match,b'\\xff'); go(m.index,d); go(m.match,5)\n"
        "    q=c.MatchResults(); q.add_results(r); len(q); q.get_document_id(0); q.get_relevancy(0); go(q.get_document_id,99); go(q.get_relevancy,-1); go(q.add_results,o)\n"
        "    e=m.get_errorvalues(); e.set_error(97,98,3); e.get_substitute_error(97,98); e.set_substring_mode(); e.set_end_deletion_error(7); go(e.add_standard_errors); e.clear_errors()\n"
        "    e=c.ErrorValues(); e.get_default_error(); c.ErrorValues.get_default_error(); c.ErrorValues.get_substring_default_end_deletion_error(); go(e.set_error,-1,2,3); go(e.set_error,'a','b',3)\n"
        "    i=m.get_indexweights(); i.set_weight(w,2.5); i.get_weight(w); i=c.IndexWeights(); i.set_weight(w,3); i.get_weight(f); go(i.set_weight,3,w)\n"
        "    gc.collect()\n"
        "del w,f,l,l2,s,d,t,o,m,r,q,e,i,k\n"
        "gc.collect()\n";
    // If the module does not survive even this, the runs shall show it: then nothing is warmed up here.
    pid_t child = fork();
    if (!child) { int n = open("/dev/null", O_WRONLY); if (n >= 0) { dup2(n, 1); dup2(n, 2); } alarm(60); _exit(PyRun_SimpleString(warm) != 0); }
    int st = 0;
    while (waitpid(child, &st, 0) < 0 && errno == EINTR) {}
    if (st != 0) return;
    if (PyRun_SimpleString(warm) != 0) _exit(3);
}

struct PyApi {
    static bool on(World &W) { return (W.orc & OR_PY) != 0; }
    static void bad(World &W, const std::string &name, const std::string &m) { if (on(W)) W.violate("py-" + name, name + " " + m); }
    static std::string key(char k, long long s) { return fmt("%c%lld", k, s); }
    static Var *get(World &W, char k, long long s) { auto &v = PW(W).v; auto i = v.find(key(k, s)); return i == v.end() || !i->second.o ? nullptr : &i->second; }
    static void drop(World &W, const std::string &k) {
        auto &v = PW(W).v;
        auto i = v.find(k);
        if (i == v.end()) return;
        Var x = std::move(i->second);
        v.erase(i);
        quiet([&] { Py_XDECREF(x.o); PyErr_Clear(); });
        quiet([&] { x.t.reset(); });
    }
    template <class T> static Twin own(T *p) { return Twin(p, [](void *q) { int s = g_inlib; g_inlib = 1; delete (T *)q; g_inlib = s; }); }
    template <class T> static T *as(const Twin &t) { return (T *)t.get(); }
    template <class T> static T *as(Var *v) { return (T *)v->t.get(); }

    // The C++ counterpart: its status.
    template <class F> static int twin(F f) {
        int st = OK_;
        quiet([&] {
            try { f(); }
            catch (std::bad_alloc &) { st = BADALLOC; }
            catch (std::out_of_range &) { st = OOR; }
            catch (std::invalid_argument &) { st = INVARG; }
            catch (std::exception &) { st = RTERR; }
        });
        return st;
    }
    // One Python call with this operation's faults; if it fails because of one, it is repeated without.
    // Returns the result (a new reference, null if it raised) and the status the history continues with.
    static PyObject *call(World &W, Outcome &o, const char *name, int expect, PyObject *fn, PyObject *args, bool *retried = nullptr) {
        PyObject *res = nullptr;
        if (!fn || !args) { pyStatus(&o.what); bad(W, name, "cannot be called: " + o.what); Py_XDECREF(fn); Py_XDECREF(args); o.st = NONSTD; return nullptr; }
        libCall(o, [&] { res = PyObject_Call(fn, args, nullptr); });
        if (o.st != OK_) { bad(W, name, std::string("let a C++ exception through to the interpreter: ") + o.what); Py_DECREF(fn); Py_DECREF(args); return nullptr; }
        std::string what;
        int st = OK_;
        bool hard = o.hard;
        auto same = [&](int a, int b) { // a message that is not UTF-8 is itself reported as a UnicodeError
            return a == b || (a == STDEXC && b != OK_ && !what.compare(0, 7, "Unicode"));
        };
        auto settle = [&] {
            if (res && PyErr_Occurred()) { pyStatus(&what); bad(W, name, "returned a value and raised " + what); }
            st = OK_;
            if (!res) {
                if (!PyErr_Occurred()) { bad(W, name, "returned nothing without raising"); st = NONSTD; return; }
                int saved = g_inlib; OpCounts keep = g_op;
                opBegin(nullptr); g_inlib = 0;
                st = pyStatus(&what);
                opEnd(); g_inlib = saved; g_op = keep;
            }
        };
        settle();
        o.st = st; o.what = what;
        if (hard && st != OK_ && !W.bad()) {
            if (st == NONSTD) bad(W, name, "reported a failure by " + what);
            if (retried) *retried = true;
            quiet([&] { res = PyObject_Call(fn, args, nullptr); });
            settle();
            if (!same(st, expect) && !W.bad()) bad(W, name, std::string("repeated after a failure ends with ") + statusNames[st] + " (" + what + ") instead of " + statusNames[expect]);
        } else if (!same(st, expect) && !W.bad()) {
            bad(W, name, std::string("ends with ") + statusNames[st] + " (" + what + ") where its C++ counterpart ends with " + statusNames[expect]);
        }
        Py_DECREF(fn); Py_DECREF(args);
        if (st != expect) { if (res) quiet([&] { Py_DECREF(res); }); return nullptr; }
        return res;
    }
    static PyObject *meth(Var *v, const char *n) { return PyObject_GetAttrString(v->o, n); }
    static PyObject *fn(int t) { Py_INCREF(type_[t]); return type_[t]; }
    static PyObject *text(const std::string &s0) {
        std::string s(s0.c_str()); // what a C string can hold
        PyObject *u = PyUnicode_DecodeUTF8(s.data(), (Py_ssize_t)s.size(), "strict");
        if (u) return u;
        PyErr_Clear();
        return PyBytes_FromStringAndSize(s.data(), (Py_ssize_t)s.size()); // bytes that are no text
    }
    static std::string ctext(const std::string &s0) { return std::string(s0.c_str()); }
    static PyObject *args(PyObject *a = nullptr, PyObject *b = nullptr, PyObject *c = nullptr) { // steals
        PyObject *t = PyTuple_New(!a ? 0 : !b ? 1 : !c ? 2 : 3);
        if (a) PyTuple_SET_ITEM(t, 0, a);
        if (b) PyTuple_SET_ITEM(t, 1, b);
        if (c) PyTuple_SET_ITEM(t, 2, c);
        return t;
    }
    static PyObject *ref(Var *v) { Py_INCREF(v->o); return v->o; }
    static void keep(World &W, char k, long long s, PyObject *o, Twin t) {
        drop(W, key(k, s));
        Var v; v.o = o; v.t = t; v.mark = std::make_shared<int>(0);
        PW(W).v[key(k, s)] = v;
    }
    static bool isType(World &W, const char *name, PyObject *o, int t) {
        if (Py_TYPE(o) == (PyTypeObject *)type_[t]) return true;
        bad(W, name, std::string("returned a ") + Py_TYPE(o)->tp_name);
        quiet([&] { Py_DECREF(o); });
        return false;
    }
    // Results: released in library scope.
    static void done(PyObject *r) { if (r) quiet([&] { Py_DECREF(r); }); }
    static bool num(PyObject *r, unsigned long long &x, bool isSigned = false) {
        if (!PyLong_Check(r)) return false;
        x = PyLong_AsUnsignedLongLong(r);
        if (PyErr_Occurred()) { PyErr_Clear(); if (!isSigned) return false; x = (unsigned long long)PyLong_AsLongLong(r); if (PyErr_Occurred()) { PyErr_Clear(); return false; } }
        return true;
    }
    static void wantNum(World &W, Outcome &o, const char *name, PyObject *r, unsigned long long exp, bool isSigned = false) {
        if (!r) return;
        unsigned long long x = 0;
        bool ok = num(r, x, isSigned);
        done(r);
        o.data = fmt("%llu", x);
        if (!ok || x != exp) bad(W, name, ok ? fmt("returned %llu instead of %llu", x, exp) : "returned no such integer");
    }
    static void wantDbl(World &W, Outcome &o, const char *name, PyObject *r, double exp, bool check = true) {
        if (!r) return;
        bool ok = PyFloat_Check(r);
        double x = ok ? PyFloat_AS_DOUBLE(r) : 0;
        done(r);
        o.data = ::dbl(x);
        if (check && (!ok || !(x == exp || (x != x && exp != exp)))) bad(W, name, ok ? "returned " + ::dbl(x) + " instead of " + ::dbl(exp) : "returned no float");
        if (!check) o.data = "";
    }
    static void wantNone(World &W, const char *name, PyObject *r) {
        if (!r) return;
        if (r != Py_None) bad(W, name, "returned a value");
        done(r);
    }
    static std::string str(World &W, const char *name, PyObject *r) { // steals
        if (!r) return "";
        std::string s;
        Py_ssize_t n = 0;
        const char *c = PyUnicode_Check(r) ? PyUnicode_AsUTF8AndSize(r, &n) : nullptr;
        if (c) s.assign(c, (size_t)n);
        else { PyErr_Clear(); bad(W, name, "returned no text"); }
        done(r);
        return s;
    }
    static std::string utf8(const Word &w) { std::string r; quiet([&] { std::string t = w.asUtf8(); HostScope h; r.assign(t.data(), t.size()); }); return r; }
    static std::vector<std::string> strings(const WordList &l) {
        std::vector<std::string> r;
        for (size_t i = 0; i < l.size(); i++) r.push_back(utf8(l[i]));
        return r;
    }

    // ---- words
    static void ywnew(World &W, const Op &op, Outcome &o) {
        std::string t = ctext(op.str(0));
        Twin tw;
        int e = twin([&] { tw = own(new Word(t)); });
        PyObject *r = call(W, o, "Word()", e, fn(T_W), args(text(t)));
        if (r) keep(W, 'w', op.arg(0), r, tw); else drop(W, key('w', op.arg(0)));
    }
    static void ywget(World &W, const Op &op, Outcome &o) {
        Var *v = get(W, 'w', op.arg(0));
        if (!v) { o.st = SKIPPED; return; }
        std::string e = utf8(*as<Word>(v));
        PyObject *r = call(W, o, "Word.get_string", OK_, meth(v, "get_string"), args());
        if (!r) return;
        std::string s = str(W, "Word.get_string", r);
        o.data = pct(s);
        if (s != e) bad(W, "Word.get_string", "returned " + pct(s) + " instead of " + pct(e));
    }
    static void ylen(World &W, const Op &op, Outcome &o) { // ylen kind slot how
        char k = "wlcr"[op.arg(0) & 3];
        Var *v = get(W, k, op.arg(1));
        if (!v) { o.st = SKIPPED; return; }
        unsigned long long e = 0, alt;
        switch (k) {
        case 'w': e = as<Word>(v)->length(); break;
        case 'l': e = as<WordList>(v)->size(); break;
        case 'c': e = as<Corpus>(v)->size(); break;
        case 'r': e = as<MatchResults>(v)->size(); break;
        }
        alt = v->view ? v->then.size() : e;
        bool loose = k == 'r' && *v->mark >= 2;
        const char *n = k == 'c' && op.arg(2) ? "size" : "__len__";
        PyObject *r = call(W, o, n, OK_, meth(v, n), args());
        if (!r) return;
        unsigned long long x = 0;
        bool ok = num(r, x);
        done(r);
        o.data = loose ? "" : fmt("%llu", x);
        if (!loose && (!ok || (x != e && x != alt))) bad(W, n, fmt("of a %s returned %llu instead of %llu", Py_TYPE(v->o)->tp_name, x, e));
    }
    // ---- lists
    static void ylnew(World &W, const Op &op, Outcome &o) {
        Twin tw; twin([&] { tw = own(new WordList()); });
        PyObject *r = call(W, o, "WordList()", OK_, fn(T_L), args());
        if (r) keep(W, 'l', op.arg(0), r, tw); else drop(W, key('l', op.arg(0)));
    }
    static void ylcopy(World &W, const Op &op, Outcome &o) {
        Var *v = get(W, 'l', op.arg(1));
        if (!v || v->view) { o.st = SKIPPED; return; }
        Twin tw; twin([&] { tw = own(new WordList(*as<WordList>(v))); });
        PyObject *r = call(W, o, "WordList(list)", OK_, fn(T_L), args(ref(v)));
        if (r) keep(W, 'l', op.arg(0), r, tw); else drop(W, key('l', op.arg(0)));
    }
    static void ylsplit(World &W, const Op &op, Outcome &o) {
        std::string t = ctext(op.str(0));
        if (PyObject *u = PyUnicode_DecodeUTF8(t.data(), (Py_ssize_t)t.size(), "strict")) Py_DECREF(u);
        else { PyErr_Clear(); o.st = SKIPPED; return; } // only takes a str, which is always valid
        Twin tw;
        int e = twin([&] { tw = own(new WordList(Columbus::splitToWords(t.c_str()))); });
        PyObject *r = call(W, o, "split_to_words", e, fn(T_SPLIT), args(text(t)));
        if (r && isType(W, "split_to_words", r, T_L)) keep(W, 'l', op.arg(0), r, tw); else drop(W, key('l', op.arg(0)));
    }
    static void yladd(World &W, const Op &op, Outcome &o) {
        Var *l = get(W, 'l', op.arg(0)), *w = get(W, 'w', op.arg(1));
        if (!l || !w || l->view) { o.st = SKIPPED; return; }
        PyObject *r = call(W, o, "WordList.add_word", OK_, meth(l, "add_word"), args(ref(w)));
        if (!r) return;
        wantNone(W, "WordList.add_word", r);
        twin([&] { as<WordList>(l)->addWord(*as<Word>(w)); });
    }
    static void ylget(World &W, const Op &op, Outcome &o) { // ylget l i w
        Var *l = get(W, 'l', op.arg(0));
        if (!l) { o.st = SKIPPED; return; }
        size_t i = (size_t)op.arg(1);
        Twin tw;
        if (l->view && l->then != strings(*as<WordList>(l))) { o.st = SKIPPED; return; }
        int e = twin([&] { tw = own(new Word((*as<WordList>(l))[i])); }); // a word never changes once it is in a list
        PyObject *r = call(W, o, "WordList.__getitem__", e, meth(l, "__getitem__"), args(PyLong_FromUnsignedLongLong(i)));
        if (r && isType(W, "WordList.__getitem__", r, T_W)) keep(W, 'w', op.arg(2), r, tw); else drop(W, key('w', op.arg(2)));
    }
    static void yliter(World &W, const Op &op, Outcome &o) { // yliter l w: the list as a sequence; one element is kept
        Var *l = get(W, 'l', op.arg(0));
        if (!l) { o.st = SKIPPED; return; }
        std::vector<std::string> e = strings(*as<WordList>(l)), got;
        PyObject *r = call(W, o, "list(WordList)", OK_, PyObject_GetAttrString(PyEval_GetBuiltins() ? PyImport_AddModule("builtins") : nullptr, "list"), args(ref(l)));
        if (!r) return;
        Py_ssize_t n = PyList_Check(r) ? PyList_GET_SIZE(r) : 0;
        for (Py_ssize_t i = 0; i < n; i++) {
            PyObject *s = nullptr;
            quiet([&] { s = PyObject_CallMethod(PyList_GET_ITEM(r, i), "get_string", nullptr); });
            if (!s) { std::string w; pyStatus(&w); bad(W, "list(WordList)", "holds an element that cannot be read: " + w); break; }
            got.push_back(str(W, "Word.get_string", s));
        }
        if (got != e && !(l->view && got == l->then)) bad(W, "list(WordList)", "is <" + pct(joined(got)) + "> instead of <" + pct(joined(e)) + ">");
        else if (n && got == e) {
            size_t i = (size_t)(op.arg(2) % n);
            Twin tw; twin([&] { tw = own(new Word((*as<WordList>(l))[i])); });
            PyObject *x = PyList_GET_ITEM(r, (Py_ssize_t)i);
            Py_INCREF(x);
            keep(W, 'w', op.arg(1), x, tw);
        }
        done(r);
        o.data = pct(joined(got));
    }
    static std::string joined(const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += (s.empty() ? "" : " ") + x; return s; }
    // ---- documents
    static void ydnew(World &W, const Op &op, Outcome &o) {
        DocumentID id = (DocumentID)op.arg(1);
        Twin tw; twin([&] { tw = own(new Document(id)); });
        PyObject *r = call(W, o, "Document()", OK_, fn(T_D), args(PyLong_FromUnsignedLongLong(id)));
        if (r) keep(W, 'd', op.arg(0), r, tw); else drop(W, key('d', op.arg(0)));
    }
    static void ydcopy(World &W, const Op &op, Outcome &o) {
        Var *v = get(W, 'd', op.arg(1));
        if (!v) { o.st = SKIPPED; return; }
        Twin tw; twin([&] { tw = own(new Document(*as<Document>(v))); });
        PyObject *r = call(W, o, "Document(document)", OK_, fn(T_D), args(ref(v)));
        if (r) keep(W, 'd', op.arg(0), r, tw); else drop(W, key('d', op.arg(0)));
    }
    static void ydnum(World &W, const Op &op, Outcome &o) {
        Var *v = get(W, 'd', op.arg(0));
        if (!v) { o.st = SKIPPED; return; }
        const char *n = op.arg(1) ? "get_id" : "field_count";
        unsigned long long e = op.arg(1) ? as<Document>(v)->getID() : as<Document>(v)->fieldCount();
        wantNum(W, o, n, call(W, o, n, OK_, meth(v, n), args()), e);
    }
    static void ydadd(World &W, const Op &op, Outcome &o) {
        Var *d = get(W, 'd', op.arg(0)), *f = get(W, 'w', op.arg(1));
        if (!d || !f || as<Word>(f)->length() == 0) { o.st = SKIPPED; return; }
        std::string t = ctext(op.str(0));
        // Views of this text may show the text of then or of now.
        int e = twin([&] { as<Document>(d)->addText(*as<Word>(f), t); });
        wantNone(W, "Document.add_text", call(W, o, "Document.add_text", e, meth(d, "add_text"), args(ref(f), text(t))));
    }
    static void ydtext(World &W, const Op &op, Outcome &o) { // ydtext d f l
        Var *d = get(W, 'd', op.arg(0)), *f = get(W, 'w', op.arg(1));
        if (!d || !f) { o.st = SKIPPED; return; }
        const WordList *wl = nullptr;
        int e = twin([&] { wl = &as<Document>(d)->getText(*as<Word>(f)); });
        Twin tw(d->t, (void *)wl); // the document lives as long as its text is used
        PyObject *r = call(W, o, "Document.get_text", e, meth(d, "get_text"), args(ref(f)));
        if (r && isType(W, "Document.get_text", r, T_L)) {
            keep(W, 'l', op.arg(2), r, tw);
            Var *v = get(W, 'l', op.arg(2));
            v->view = true;
            v->then = strings(*wl);
        } else drop(W, key('l', op.arg(2)));
    }
    // ---- corpora
    static void ycnew(World &W, const Op &op, Outcome &o) {
        Twin tw; twin([&] { tw = own(new Corpus()); });
        PyObject *r = call(W, o, "Corpus()", OK_, fn(T_C), args());
        if (r) keep(W, 'c', op.arg(0), r, tw); else drop(W, key('c', op.arg(0)));
    }
    static void ycadd(World &W, const Op &op, Outcome &o) {
        Var *c = get(W, 'c', op.arg(0)), *d = get(W, 'd', op.arg(1));
        if (!c || !d) { o.st = SKIPPED; return; }
        PyObject *r = call(W, o, "Corpus.add_document", OK_, meth(c, "add_document"), args(ref(d)));
        if (!r) return;
        wantNone(W, "Corpus.add_document", r);
        twin([&] { as<Corpus>(c)->addDocument(*as<Document>(d)); });
    }
    // ---- matchers
    static void ymnew(World &W, const Op &op, Outcome &o) {
        Twin tw; twin([&] { tw = own(new Matcher()); });
        PyObject *r = call(W, o, "Matcher()", OK_, fn(T_M), args());
        if (r) keep(W, 'm', op.arg(0), r, tw); else drop(W, key('m', op.arg(0)));
    }
    static void ymindex(World &W, const Op &op, Outcome &o) {
        Var *m = get(W, 'm', op.arg(0)), *c = get(W, 'c', op.arg(1));
        if (!m || !c) { o.st = SKIPPED; return; }
        bool again = false;
        PyObject *r = call(W, o, "Matcher.index", OK_, meth(m, "index"), args(ref(c)), &again);
        if (again) *m->mark = std::max(*m->mark, 1);
        wantNone(W, "Matcher.index", r);
        twin([&] { as<Matcher>(m)->index(*as<Corpus>(c)); });
    }
    static std::vector<std::pair<u64, double>> readTwin(MatchResults *r) {
        std::vector<std::pair<u64, double>> v;
        quiet([&] { HostScope h; for (size_t i = 0; i < r->size(); i++) v.push_back(std::make_pair((u64)r->getDocumentID(i), r->getRelevancy(i))); });
        return v;
    }
    // The whole collection, read through Python without faults.
    static void compareRes(World &W, Var &v, Outcome &o, const char *name) {
        auto e = readTwin(as<MatchResults>(&v));
        std::vector<std::pair<u64, double>> got;
        bool broken = false;
        quiet([&] {
            Py_ssize_t n = PyObject_Length(v.o);
            for (Py_ssize_t i = 0; i < n && !broken; i++) {
                PyObject *a = PyObject_CallMethod(v.o, "get_document_id", "n", i), *b = a ? PyObject_CallMethod(v.o, "get_relevancy", "n", i) : nullptr;
                unsigned long long id = 0;
                if (!a || !b || !num(a, id) || !PyFloat_Check(b)) broken = true;
                else { double x = PyFloat_AS_DOUBLE(b); HostScope h; got.push_back(std::make_pair((u64)id, x)); }
                Py_XDECREF(a); Py_XDECREF(b);
            }
            PyErr_Clear();
        });
        if (broken) { bad(W, name, "returned results that cannot be read"); return; }
        int t = *v.mark;
        std::string why;
        if (t >= 2) return;
        if (t == 1) { if (!sameResults(got, e, true, 0, &why)) bad(W, name, "found " + why); return; }
        if (!o.hard) { o.res = got; o.hasRes = true; }
        if (got != e) bad(W, name, "found " + resStr(got) + " instead of " + resStr(e));
    }
    static void ymq(World &W, const Op &op, Outcome &o) { // ymq m r text
        Var *m = get(W, 'm', op.arg(0));
        if (!m) { o.st = SKIPPED; return; }
        std::string t = ctext(op.str(0));
        Twin tw;
        int e = twin([&] { tw = own(new MatchResults(as<Matcher>(m)->match(t))); });
        PyObject *r = call(W, o, "Matcher.match", e, meth(m, "match"), args(text(t)));
        if (r && isType(W, "Matcher.match", r, T_R)) {
            int mark = *m->mark;
            keep(W, 'r', op.arg(1), r, tw);
            Var *v = get(W, 'r', op.arg(1));
            *v->mark = mark;
            compareRes(W, *v, o, "Matcher.match");
        } else drop(W, key('r', op.arg(1)));
    }
    static void ymev(World &W, const Op &op, Outcome &o) { // ymev m e
        Var *m = get(W, 'm', op.arg(0));
        if (!m) { o.st = SKIPPED; return; }
        Twin tw(m->t, (void *)&as<Matcher>(m)->getErrorValues());
        auto mark = m->mark;
        PyObject *r = call(W, o, "Matcher.get_errorvalues", OK_, meth(m, "get_errorvalues"), args());
        if (r && isType(W, "Matcher.get_errorvalues", r, T_E)) { keep(W, 'e', op.arg(1), r, tw); get(W, 'e', op.arg(1))->mark = mark; }
        else drop(W, key('e', op.arg(1)));
    }
    static void ymiw(World &W, const Op &op, Outcome &o) {
        Var *m = get(W, 'm', op.arg(0));
        if (!m) { o.st = SKIPPED; return; }
        Twin tw(m->t, (void *)&as<Matcher>(m)->getIndexWeights());
        PyObject *r = call(W, o, "Matcher.get_indexweights", OK_, meth(m, "get_indexweights"), args());
        if (r && isType(W, "Matcher.get_indexweights", r, T_I)) keep(W, 'i', op.arg(1), r, tw); else drop(W, key('i', op.arg(1)));
    }
    // ---- results
    static void yrnew(World &W, const Op &op, Outcome &o) {
        Twin tw; twin([&] { tw = own(new MatchResults()); });
        PyObject *r = call(W, o, "MatchResults()", OK_, fn(T_R), args());
        if (r) keep(W, 'r', op.arg(0), r, tw); else drop(W, key('r', op.arg(0)));
    }
    static void yradd(World &W, const Op &op, Outcome &o) {
        Var *a = get(W, 'r', op.arg(0)), *b = get(W, 'r', op.arg(1));
        if (!a || !b) { o.st = SKIPPED; return; }
        PyObject *r = call(W, o, "MatchResults.add_results", OK_, meth(a, "add_results"), args(ref(b)));
        if (!r) return;
        wantNone(W, "MatchResults.add_results", r);
        twin([&] { as<MatchResults>(a)->addResults(*as<MatchResults>(b)); });
        *a->mark = std::max(*a->mark, *b->mark);
        if (*a->mark == 0) compareRes(W, *a, o, "MatchResults.add_results");
    }
    static void yrget(World &W, const Op &op, Outcome &o) { // yrget r i which
        Var *v = get(W, 'r', op.arg(0));
        if (!v) { o.st = SKIPPED; return; }
        size_t i = (size_t)op.arg(1);
        unsigned long long id = 0; double x = 0;
        bool which = op.arg(2) != 0;
        if (*v->mark >= 2) { o.st = SKIPPED; return; }
        int e = twin([&] { if (which) x = as<MatchResults>(v)->getRelevancy(i); else id = as<MatchResults>(v)->getDocumentID(i); });
        const char *n = which ? "get_relevancy" : "get_document_id";
        PyObject *r = call(W, o, n, e, meth(v, n), args(PyLong_FromUnsignedLongLong(i)));
        if (!r) return;
        if (which) wantDbl(W, o, n, r, x, *v->mark == 0);
        else if (*v->mark == 0) wantNum(W, o, n, r, id);
        else done(r);
    }
    // ---- costs
    static void yenew(World &W, const Op &op, Outcome &o) {
        Twin tw; twin([&] { tw = own(new ErrorValues()); });
        PyObject *r = call(W, o, "ErrorValues()", OK_, fn(T_E), args());
        if (r) keep(W, 'e', op.arg(0), r, tw); else drop(W, key('e', op.arg(0)));
    }
    static void yeset(World &W, const Op &op, Outcome &o) { // yeset e what a b c
        Var *v = get(W, 'e', op.arg(0));
        if (!v) { o.st = SKIPPED; return; }
        ErrorValues *e = as<ErrorValues>(v);
        if (op.arg(1) == 0 && ((u64)op.arg(2) > (Letter_)-1 || (u64)op.arg(3) > (Letter_)-1)) { o.st = SKIPPED; return; }
        long long a = op.arg(2), b = op.arg(3), c = op.arg(4);
        bool again = false;
        int ex = OK_;
        switch (op.arg(1)) {
        case 0:
            ex = twin([&] { e->setError((Letter_)a, (Letter_)b, (int)c); });
            wantNone(W, "set_error", call(W, o, "set_error", ex, meth(v, "set_error"), args(PyLong_FromLongLong(a), PyLong_FromLongLong(b), PyLong_FromLongLong(c)), &again));
            break;
        case 1:
            ex = twin([&] { e->setEndDeletionError((int)c); });
            wantNone(W, "set_end_deletion_error", call(W, o, "set_end_deletion_error", ex, meth(v, "set_end_deletion_error"), args(PyLong_FromLongLong(c)), &again));
            break;
        case 2:
            ex = twin([&] { e->setSubstringMode(); });
            wantNone(W, "set_substring_mode", call(W, o, "set_substring_mode", ex, meth(v, "set_substring_mode"), args(), &again));
            break;
        case 3:
            ex = twin([&] { e->clearErrors(); });
            wantNone(W, "clear_errors", call(W, o, "clear_errors", ex, meth(v, "clear_errors"), args(), &again));
            break;
        default:
            if (*v->mark >= 2) { o.st = SKIPPED; return; }
            ex = twin([&] { e->addStandardErrors(); });
            libCosts(W, v, o, ex);
            return;
        }
        if (*v->mark < 2) costs(W, v);
    }
    // Loading the tables may stop half-way; the costs are unknown from then on.
    static void libCosts(World &W, Var *v, Outcome &o, int ex) {
        PyObject *f = meth(v, "add_standard_errors"), *res = nullptr, *t = args();
        libCall(o, [&] { res = PyObject_Call(f, t, nullptr); });
        if (o.st != OK_) { bad(W, "add_standard_errors", "let a C++ exception through to the interpreter: " + o.what); return; }
        std::string what;
        int st = res ? OK_ : pyStatus(&what);
        done(res);
        Py_DECREF(f); Py_DECREF(t);
        o.st = st; o.what = what;
        if (st == NONSTD) bad(W, "add_standard_errors", "reported a failure by " + what);
        if (!o.hard && st != ex && !(ex != OK_ && !what.compare(0, 7, "Unicode"))) bad(W, "add_standard_errors", std::string("ends with ") + statusNames[st] + " (" + what + ") where its C++ counterpart ends with " + statusNames[ex]);
        if (st != OK_ || ex != OK_) *v->mark = 2;
        if (*v->mark < 2) costs(W, v);
    }
    static void costs(World &W, Var *v) {
        ErrorValues *e = as<ErrorValues>(v);
        for (u32 x : W.letters) for (u32 y : W.letters) {
            if (W.bad()) return;
            if (x > (Letter_)-1 || y > (Letter_)-1) continue;
            PyObject *r = nullptr;
            quiet([&] { r = PyObject_CallMethod(v->o, "get_substitute_error", "kk", (unsigned long)x, (unsigned long)y); });
            unsigned long long n = 0;
            if (!r) { std::string w; pyStatus(&w); bad(W, "get_substitute_error", "raised " + w); return; }
            bool ok = num(r, n, true);
            done(r);
            int exp = 0;
            quiet([&] { exp = e->getSubstituteError((Letter_)x, (Letter_)y); });
            if (!ok || (int)n != exp) { bad(W, "get_substitute_error", fmt("returned %d for %x and %x instead of %d", (int)n, x, y, exp)); return; }
        }
    }
    static void yeget(World &W, const Op &op, Outcome &o) { // yeget e what a b
        Var *v = get(W, 'e', op.arg(0));
        if (!v || (*v->mark >= 2 && op.arg(1) == 0)) { o.st = SKIPPED; return; }
        if (op.arg(1) == 0) {
            if ((u64)op.arg(2) > (Letter_)-1 || (u64)op.arg(3) > (Letter_)-1) { o.st = SKIPPED; return; }
            int e = 0;
            quiet([&] { e = as<ErrorValues>(v)->getSubstituteError((Letter_)op.arg(2), (Letter_)op.arg(3)); });
            wantNum(W, o, "get_substitute_error", call(W, o, "get_substitute_error", OK_, meth(v, "get_substitute_error"), args(PyLong_FromLongLong(op.arg(2)), PyLong_FromLongLong(op.arg(3)))), (unsigned long long)(long long)e, true);
        } else {
            const char *n = op.arg(1) == 1 ? "get_default_error" : "get_substring_default_end_deletion_error";
            int e = op.arg(1) == 1 ? ErrorValues::getDefaultError() : ErrorValues::getSubstringDefaultEndDeletionError();
            PyObject *f = op.arg(2) & 1 ? PyObject_GetAttrString(type_[T_E], n) : meth(v, n);
            wantNum(W, o, n, call(W, o, n, OK_, f, args()), (unsigned long long)(long long)e, true);
        }
    }
    // ---- weights
    static void yinew(World &W, const Op &op, Outcome &o) {
        Twin tw; twin([&] { tw = own(new IndexWeights()); });
        PyObject *r = call(W, o, "IndexWeights()", OK_, fn(T_I), args());
        if (r) keep(W, 'i', op.arg(0), r, tw); else drop(W, key('i', op.arg(0)));
    }
    static void yiset(World &W, const Op &op, Outcome &o) {
        Var *v = get(W, 'i', op.arg(0)), *f = get(W, 'w', op.arg(1));
        if (!v || !f) { o.st = SKIPPED; return; }
        twin([&] { as<IndexWeights>(v)->setWeight(*as<Word>(f), op.dbl(0)); });
        wantNone(W, "set_weight", call(W, o, "set_weight", OK_, meth(v, "set_weight"), args(ref(f), PyFloat_FromDouble(op.dbl(0)))));
    }
    static void yiget(World &W, const Op &op, Outcome &o) {
        Var *v = get(W, 'i', op.arg(0)), *f = get(W, 'w', op.arg(1));
        if (!v || !f) { o.st = SKIPPED; return; }
        double e = 0;
        quiet([&] { e = as<IndexWeights>(v)->getWeight(*as<Word>(f)); });
        wantDbl(W, o, "get_weight", call(W, o, "get_weight", OK_, meth(v, "get_weight"), args(ref(f))), e);
    }
    // ---- names
    static void ydrop(World &W, const Op &op, Outcome &o) {
        std::string k = key("wldcmrei"[op.arg(0) & 7], op.arg(1));
        if (!PW(W).v.count(k)) { o.st = SKIPPED; return; }
        drop(W, k);
    }
    static void yalias(World &W, const Op &op, Outcome &o) { // a second name for the same object
        char k = "wldcmrei"[op.arg(0) & 7];
        Var *v = get(W, k, op.arg(2));
        if (!v || op.arg(1) == op.arg(2)) { o.st = SKIPPED; return; }
        Var x = *v;
        Py_INCREF(x.o);
        drop(W, key(k, op.arg(1)));
        PW(W).v[key(k, op.arg(1))] = x;
    }
    static void ygc(World &W, const Op &, Outcome &) { quiet([&] { PyGC_Collect(); }); }
    // ---- wrong arguments: a TypeError (or OverflowError for numbers no C++ type holds), and nothing changes
    static void ybad(World &W, const Op &op, Outcome &o) { // ybad kind slot how
        char k = "wldcmrei"[op.arg(0) & 7];
        Var *v = get(W, k, op.arg(1)), *w = get(W, 'w', 0);
        if (!v || !w) { o.st = SKIPPED; return; }
        PyObject *f = nullptr, *a = nullptr;
        auto none = [] { Py_INCREF(Py_None); return Py_None; };
        bool alt = op.arg(2) & 1;
        switch (k) {
        case 'w': f = fn(T_W); a = alt ? args(none()) : args(PyLong_FromLong(5)); break;
        case 'l': f = meth(v, "add_word"); a = alt ? args(none()) : args(PyUnicode_FromString("word")); break;
        case 'd': f = meth(v, "add_text"); a = alt ? args(PyUnicode_FromString("title"), PyUnicode_FromString("text")) : args(ref(w), PyLong_FromLong(3)); break;
        case 'c': f = meth(v, "add_document"); a = alt ? args(none()) : args(ref(v)); break;
        case 'm': f = meth(v, alt ? "index" : "match"); a = alt ? args(ref(w)) : args(PyLong_FromLong(77)); break;
        case 'r': f = meth(v, alt ? "add_results" : "get_document_id"); a = alt ? args(ref(w)) : args(PyLong_FromLong(-1)); break;
        case 'e': f = meth(v, "set_error"); a = alt ? args(PyUnicode_FromString("a"), PyUnicode_FromString("b"), PyLong_FromLong(1)) : args(PyLong_FromLong(-3), PyLong_FromLong(98), PyLong_FromLong(1)); break;
        default: f = meth(v, "set_weight"); a = alt ? args(PyUnicode_FromString("title"), PyFloat_FromDouble(3)) : args(ref(w), ref(w)); break;
        }
        call(W, o, "a call with wrong arguments", STDEXC, f, a);
        o.st = OK_;
    }
};

void pyDestroy(World &W) {
    if (!W.py) return;
    auto &v = PW(W).v;
    while (!v.empty()) PyApi::drop(W, v.begin()->first);
    quiet([&] { PyGC_Collect(); });
    delete (PyWorld *)W.py;
    W.py = nullptr;
}
const std::map<std::string, Handler> &pyHandlers() {
#define Y(n) {#n, &PyApi::n}
    static const std::map<std::string, Handler> t = {
        Y(ywnew), Y(ywget), Y(ylen), Y(ylnew), Y(ylcopy), Y(ylsplit), Y(yladd), Y(ylget), Y(yliter), Y(ydnew), Y(ydcopy), Y(ydnum), Y(ydadd), Y(ydtext),
        Y(ycnew), Y(ycadd), Y(ymnew), Y(ymindex), Y(ymq), Y(ymev), Y(ymiw), Y(yrnew), Y(yradd), Y(yrget), Y(yenew), Y(yeset), Y(yeget), Y(yinew), Y(yiset),
        Y(yiget), Y(ydrop), Y(yalias), Y(ygc), Y(ybad)};
#undef Y
    return t;
}
#endif
