// Saving the monitor's measurement series and loading them again, into a run with the same or another maximum order.
#include "shim/realstr.h"
#include "utility/dictionary.h"
#include "module/markov/markov_monitor.h"
#include "module/diagram/diagram.h"
#include "module/parameter/parameter.h"
#include "module/weight/component.h"
#include "module/weight/gamma3.h"
#include "symrt.h"
#include <cstring>
#include <cstdlib>
using namespace weight; using namespace diag; using namespace mc;
namespace weight { real Norm::NormFactor = 1.0; }
static bool eqd(double a, double b) { return sym_is_native() ? fabs(a - b) <= 1e-9 * (1 + fabs(a) + fabs(b)) : sym_deq(a, b); }
static double fin(const char *n) { double d = sym_double(n); sym_assume(d >= -1e6 & d <= 1e6); return d; }
static void fill(Estimator<real> &e) { e._end = 2; e._interval = sym_int("interval", 1, 1000); e._counter = 0; e._accumulator = fin("acc"); e._norm = sym_double("norm"); sym_assume(e._norm >= 1.0 & e._norm <= 1e9); for (int i = 0; i < SIZE; i++) e._history[i] = fin("h"); }
static bool same(Estimator<real> &a, Estimator<real> &b) { bool ok = (a._end == b._end) & eqd(a._accumulator, b._accumulator) & eqd(a._norm, b._norm); if (a._end == b._end) for (uint i = 0; i < a._end; i++) ok = ok & eqd(a._history[i], b._history[i]); return ok; }
static bool fresh(Estimator<real> &a) { return (a._end == 0) & eqd(a._accumulator, 0) & eqd(a._norm, 1); }
template <class T> static T *raw() { T *p = (T *)malloc(sizeof(T)); NATIVE_ONLY(memset((void *)p, 0, sizeof(T));) return p; }
HARNESS(h_ck_mon)
{
    para::ParaMC *p = raw<para::ParaMC>(), *q = raw<para::ParaMC>(); Diagram *d1 = raw<Diagram>(), *d2 = raw<Diagram>(); Weight *w1 = raw<Weight>(), *w2 = raw<Weight>();
    int oa = sym_pick("ordera", 1, 2), ob = sym_pick("orderb", 1, 3); p->Order = oa; q->Order = ob; p->runGamma3 = sym_pick("gammaa", 0, 1); q->runGamma3 = sym_pick("gammab", 0, 1);
    MarkovMonitor *a = new MarkovMonitor, *b = new MarkovMonitor;
    a->BuildNew(*p, *d1, *w1);
    sym_check((a->WormEstimator.HowMany() == oa + 1) & (a->PhyEstimator.HowMany() == oa + 1) & (a->Para == p) & (a->Diag == d1) & (a->Weight == w1), "P25:a-series-per-order");
    for (int i = 0; i <= oa; i++) sym_check(fresh(a->WormEstimator[i]) & fresh(a->PhyEstimator[i]), "P25:new-run-starts-empty");
    Estimator<real> *ea[4] = {&a->SigmaEstimator, &a->PolarEstimator, &a->GammaGEstimator, &a->GammaWEstimator}, *eb[4] = {&b->SigmaEstimator, &b->PolarEstimator, &b->GammaGEstimator, &b->GammaWEstimator};
    for (int i = 0; i <= oa; i++) { fill(a->WormEstimator[i]); fill(a->PhyEstimator[i]); }
    for (int i = 0; i < 4; i++) fill(*ea[i]);
    Dictionary d = a->ToDict(); sym_check(b->FromDict(d, *q, *d2, *w2), "P25:loads");
    sym_check((b->WormEstimator.HowMany() == ob + 1) & (b->PhyEstimator.HowMany() == ob + 1) & (b->Para == q) & (b->Diag == d2) & (b->Weight == w2), "P25:b-series-per-order");
    for (int i = 0; i <= ob; i++) {
        if (i <= oa) sym_check(same(a->WormEstimator[i], b->WormEstimator[i]) & same(a->PhyEstimator[i], b->PhyEstimator[i]), "P25:series-per-order");
        else sym_check(fresh(b->WormEstimator[i]) & fresh(b->PhyEstimator[i]), "P25:new-order-starts-empty");
    }
    for (int i = 0; i < 4; i++)
        if (i < 2 | (p->runGamma3 & q->runGamma3)) sym_check(same(*ea[i], *eb[i]), "P25:series"); else sym_check(fresh(*eb[i]), "P25:series-absent");
    sym_reach("end");
}
