#include "estimator/estimator.h"
#include "symrt.h"
// A measurement series in an arbitrary state (any number of recorded entries, thinning interval and pending counter).
#ifndef CPX
typedef real T_; static T_ val(const char *n, const char *) { double d = sym_double(n); sym_assume(d >= -1e6 & d <= 1e6); return d; }
static bool eq(T_ a, T_ b) { return sym_is_native() ? fabs(a - b) <= 1e-9 * (1 + fabs(a) + fabs(b)) : sym_deq(a, b); }
#else
typedef Complex T_; static T_ val(const char *n, const char *m) { double d = sym_double(n), e = sym_double(m); sym_assume(d >= -1e6 & d <= 1e6 & e >= -1e6 & e <= 1e6); return Complex(d, e); }
static bool eq1(real a, real b) { return sym_is_native() ? fabs(a - b) <= 1e-9 * (1 + fabs(a) + fabs(b)) : sym_deq(a, b); }
static bool eq(const T_ &a, const T_ &b) { return eq1(a.Re, b.Re) & eq1(a.Im, b.Im); }
#endif
static bool eqr(real a, real b) { return sym_is_native() ? fabs(a - b) <= 1e-9 * (1 + fabs(a) + fabs(b)) : sym_deq(a, b); }
static T_ H[SIZE]; static T_ A; static real Nrm;
static void setup(Estimator<T_> &e)
{
    e._end = sym_pick("end", 0, SIZE); e._interval = sym_int("interval", 1, 1000); e._counter = sym_int("counter", 0, 999);
    sym_assume(e._counter < e._interval);
    A = e._accumulator = val("accr", "acci"); Nrm = sym_double("norm"); sym_assume(Nrm >= 1.0 & Nrm <= 1e9); e._norm = Nrm; e._ratio = 1.0;
    for (int i = 0; i < SIZE; i++) { char a[4] = {'h', 'r', (char)('a' + i), 0}, b[4] = {'h', 'i', (char)('a' + i), 0}; H[i] = e._history[i] = val(a, b); }
}
static bool hist(Estimator<T_> &e, int n) { bool ok = (int)e._end == n; for (int i = 0; i < n; i++) ok = ok & eq(e._history[i], H[i]); return ok; }
static bool acc(Estimator<T_> &e) { return eq(e._accumulator, A) & eqr(e._norm, Nrm); }
HARNESS(h_est_measure)
{
    Estimator<T_> e; setup(e); int n = e._end; T_ x = val("xr", "xi");
    e.Measure(x); A += x; Nrm += 1.0;
    sym_check(eq(e.Value(), A) & eqr(e.Norm(), Nrm), "measure"); sym_check(hist(e, n), "measure-history");
    sym_reach("end");
}
HARNESS(h_est_record)
{
    Estimator<T_> e; setup(e); int n = e._end; unsigned iv = e._interval, c = e._counter;
    e.AddStatistics();
    sym_check(acc(e), "record-keeps-sums");
    bool ok = true;
    if (n == SIZE) {                                             // full: keep every second entry, record half as often
        ok = e._end == SIZE / 2 & e._interval == 2 * iv;
        for (int i = 0; i < SIZE / 2; i++) ok = ok & eq(e._history[i], H[2 * i]);
        sym_check(ok, "record-thin");
    } else if (c + 1 < iv) sym_check(hist(e, n) & e._counter == c + 1 & e._interval == iv, "record-skip");
    else {
        for (int i = 0; i < n; i++) ok = ok & eq(e._history[i], H[i]);
        sym_check(ok & (int)e._end == n + 1 & e._counter == 0 & e._interval == iv, "record-append");
        sym_check(eq(e._history[n], A / Nrm), "record-mean");
    }
    sym_check(e._end <= SIZE & e._counter < e._interval, "record-bounds");
    sym_reach("end");
}
HARNESS(h_est_estimate)
{
    Estimator<T_> e; setup(e); int n = e._end;
    EstimateClass<T_> r = e.Estimate();
    sym_check(eq(r.Mean, A / Nrm), "estimate-mean"); sym_check(acc(e) & hist(e, n), "estimate-pure");
    if (n == 0) { sym_reach("end"); return; }
    int lo = n / 3;                                              // the first third is thrown away
#ifndef CPX
    real mn = H[lo], mx = H[lo]; for (int i = lo + 1; i < n; i++) { mn = H[i] < mn ? H[i] : mn; mx = H[i] > mx ? H[i] : mx; }
    sym_check(eqr(r.Error, (mx - mn) * 0.5), "estimate-error");
    if (mx > mn) sym_check(e.Ratio() >= -1.0 & e.Ratio() <= 1.0, "estimate-ratio");
#else
    real mn = H[lo].Re, mx = H[lo].Re, m2 = H[lo].Im, M2 = H[lo].Im;
    for (int i = lo + 1; i < n; i++) { mn = H[i].Re < mn ? H[i].Re : mn; mx = H[i].Re > mx ? H[i].Re : mx; m2 = H[i].Im < m2 ? H[i].Im : m2; M2 = H[i].Im > M2 ? H[i].Im : M2; }
    sym_check(eqr(r.Error.Re, (mx - mn) * 0.5) & eqr(r.Error.Im, (M2 - m2) * 0.5), "estimate-error");
#endif
    sym_reach("end");
}
HARNESS(h_est_squeeze)
{
    Estimator<T_> e; setup(e); int n = e._end; real f = sym_double("factor"); sym_assume(f >= -1000 & f <= 1000 & (f > 1e-6 | f <= 0));
    sym_abort_ok(!(f > 0), "squeeze-nonpositive"); e.SqueezeStatistics(f); sym_abort_default();
    sym_check(f > 0, "squeeze-refused");
    sym_check(eqr(e.Norm() * f, Nrm), "squeeze-norm");
#ifndef CPX
    sym_check(eqr(e.Value() * f, A), "squeeze-sum");
#else
    sym_check(eqr(e.Value().Re * f, A.Re) & eqr(e.Value().Im * f, A.Im), "squeeze-sum");
#endif
    sym_check(hist(e, n), "squeeze-history");
    sym_reach("end");
}
HARNESS(h_est_clear)
{
    Estimator<T_> e; setup(e); e.ClearStatistics();
    sym_check(e._end == 0 & eqr(e.Norm(), 1.0) & eq(e.Value(), T_(0.0)) & e._interval == 1 & e._counter == 0 & eqr(e.Ratio(), 1.0), "clear");
    Estimator<T_> f; sym_check(f._end == 0 & eqr(f.Norm(), 1.0) & eq(f.Value(), T_(0.0)) & f._interval == 1 & f._counter == 0, "fresh");
    sym_reach("end");
}
HARNESS(h_est_bundle)
{
    EstimatorBundle<T_> b; Estimator<T_> e; b._EstimatorVector.push_back(e); b._EstimatorVector.push_back(e); b._EstimatorVector.push_back(e);
    sym_check(b.HowMany() == 3, "bundle-count");
    T_ x = val("xr", "xi"); int k = sym_pick("k", 0, 2); real f = sym_double("factor"); sym_assume(f > 1e-3 & f < 1e3);
    b[k].Measure(x);
    for (int i = 0; i < 3; i++) sym_check(eq(b[i].Value(), i == k ? x : T_(0.0)) & eqr(b[i].Norm(), i == k ? 2.0 : 1.0), "bundle-independent");
    b.AddStatistics();
    for (int i = 0; i < 3; i++) sym_check(b[i]._end == 1 & eq(b[i]._history[0], i == k ? x / 2.0 : T_(0.0)), "bundle-record");
    b.SqueezeStatistics(f);
    for (int i = 0; i < 3; i++) sym_check(eqr(b[i].Norm() * f, i == k ? 2.0 : 1.0), "bundle-squeeze");
    b.ClearStatistics();
    for (int i = 0; i < 3; i++) sym_check(eq(b[i].Value(), T_(0.0)) & eqr(b[i].Norm(), 1.0) & b[i]._end == 0, "bundle-clear");
    sym_reach("end");
}
