// One call into the library: with this operation's faults armed (libCall) or as fault-free bookkeeping (quiet).
#ifndef SIM_CALLS_H
#define SIM_CALLS_H
#include "world.h"
#include <stdexcept>
#include <new>
typedef void (*Handler)(World &, const Op &, Outcome &);
extern __thread const std::vector<Fault> *curFaults;

// One call into the library with this operation's faults armed.
template <class F> void libCall(Outcome &o, F f) {
    char what[400];
    what[0] = 0;
    o.st = OK_;
    opBegin(curFaults);
    dirtyStack();
    g_inlib = 1;
    int st = OK_;
    try { f(); g_inlib = 0; }
    catch (std::bad_alloc &e) { g_inlib = 0; st = BADALLOC; }
    catch (std::invalid_argument &e) { g_inlib = 0; st = INVARG; snprintf(what, sizeof what, "%s", e.what()); }
    catch (std::out_of_range &e) { g_inlib = 0; st = OOR; snprintf(what, sizeof what, "%s", e.what()); }
    catch (std::runtime_error &e) { g_inlib = 0; st = RTERR; snprintf(what, sizeof what, "%s", e.what()); }
    catch (std::exception &e) { g_inlib = 0; st = STDEXC; snprintf(what, sizeof what, "%s", e.what()); }
    catch (...) { g_inlib = 0; st = NONSTD; }
    o.st = st;
    o.hard = g_op.firedHard > 0;
    opEnd();
    o.what = what;
}
// A library call that belongs to the simulated program's bookkeeping: never hit by an injected fault.
template <class F> bool quiet(F f) {
    OpCounts keep = g_op;
    u64 st = g_steps;
    opBegin(nullptr);
    int saved = g_inlib;
    g_inlib = 1;
    bool ok = true;
    try { f(); } catch (std::exception &) { ok = false; }
    g_inlib = saved;
    opEnd();
    g_op = keep;
    g_steps = st;
    return ok;
}

#endif
