// Saving measured data and weight tables and loading them again, into used objects.
#include "shim/realstr.h"
#include "utility/dictionary.h"
#include "estimator/estimator.h"
#include "module/weight/component.h"
#include "module/weight/gamma3.h"
#include "symrt.h"
using namespace weight;
static bool eqd(double a, double b) { return sym_is_native() ? fabs(a - b) <= 1e-9 * (1 + fabs(a) + fabs(b)) : sym_deq(a, b); }
static bool eqd(const Complex &a, const Complex &b) { return eqd(a.Re, b.Re) & eqd(a.Im, b.Im); }
static double fin(const char *n) { double d = sym_double(n); sym_assume(d >= -1e6 & d <= 1e6); return d; }
#ifndef CPX
typedef real T_; static T_ val(const char *n) { return fin(n); }
#else
typedef Complex T_; static T_ val(const char *n) { double a = fin(n); return Complex(a, fin(n)); }
#endif
static void setup(Estimator<T_> &e, int end)
{
    e._end = end; e._interval = sym_int("interval", 1, 1000); e._counter = sym_int("counter", 0, 999);
    sym_assume(e._counter < e._interval);
    e._accumulator = val("acc"); e._norm = sym_double("norm"); sym_assume(e._norm >= 1.0 & e._norm <= 1e9); e._ratio = 1.0;
    for (int i = 0; i < SIZE; i++) e._history[i] = val("h");
    e._value.Mean = val("mean"); e._value.Error = val("error");
}
struct Snap { unsigned iv, c, end; T_ acc, h[SIZE]; double norm; };
static Snap snap(Estimator<T_> &e) { Snap s; s.iv = e._interval; s.c = e._counter; s.end = e._end; s.acc = e._accumulator; s.norm = e._norm; for (int i = 0; i < SIZE; i++) s.h[i] = e._history[i]; return s; }
static bool same(Estimator<T_> &e, const Snap &s)
{
    bool ok = (e._end == s.end) & eqd(e._accumulator, s.acc) & eqd(e._norm, s.norm);
    for (int i = 0; i < SIZE; i++) if (i < (int)s.end) ok = ok & eqd(e._history[i], s.h[i]);
    return ok;
}
HARNESS(h_ck_est)
{
    Estimator<T_> a("a"), b("b"); setup(a, sym_pick("end", 0, SIZE)); setup(b, sym_pick("oldend", 0, SIZE) ? SIZE : 1);
    Snap s = snap(a); Dictionary d = a.ToDict();
    sym_check(same(a, s) & (a._interval == s.iv) & (a._counter == s.c), "P25:saving-changes-nothing");
    sym_check(b.FromDict(d), "P25:loads");
    sym_check(same(b, s), "P25:estimator-data");
    sym_check((b._interval == s.iv) & (b._counter == s.c), "P25:estimator-thinning");
    EstimateClass<T_> x = a.Estimate(), y = b.Estimate();
    sym_check(eqd(y.Mean, x.Mean) & (a._end == 0 | eqd(y.Error, x.Error)), "P25:estimate");
    sym_reach("end");
}
// a file holding a longer series than the memory reserved for it is refused, and never written past the end
HARNESS(h_ck_est_long)
{
    Estimator<T_> b("b"); setup(b, 1); int n = sym_pick("n", 0, SIZE + 3);
    T_ h[SIZE + 3]; for (int i = 0; i < SIZE + 3; i++) h[i] = val("file");
    Dictionary d; std::vector<uint> sh = {(uint)n}; d["Norm"] = (real)2.0; d["Accu"] = val("acc"); d["History"] = Python::ArrayObject(h, sh, 1);
    sym_abort_ok(n > SIZE, "P25:refused"); b.FromDict(d); sym_abort_default();
    sym_check((n <= SIZE) & ((int)b._end == n), "P25:loads"); sym_reach("end");
}
static int i0(int perm) { return perm; }
HARNESS(h_ck_bundle)
{
    EstimatorBundle<T_> a, b; int perm = sym_pick("perm", 0, 1), n = sym_pick("n", 1, 2); const char *nm[2] = {"1", "12"};
    for (int i = 0; i < n; i++) { a.AddEstimator(nm[i]); setup(a[i], 2); }
    for (int i = 0; i < 2; i++) { b.AddEstimator(nm[i ^ perm]); setup(b[i], 1); }
    Snap s[2], o = snap(b[1 ^ perm]); for (int i = 0; i < n; i++) s[i] = snap(a[i]);
    Dictionary d = a.ToDict();
    sym_abort_ok(n == 1 & !sym_param("ALLOW", 0), "P25:refused"); bool r = b.FromDict(d, sym_param("ALLOW", 0)); sym_abort_default();
    sym_check(r & (n == 2 | sym_param("ALLOW", 0)), "P25:loads");
    for (int i = 0; i < n; i++) sym_check(same(b[i ^ perm], s[i]) & same(a[i], s[i]), "P25:bundle-data");
    if (n == 1) sym_check(same(b[1 ^ perm], o), "P25:bundle-missing-kept");
    for (int i = 0; i < 2; i++) sym_check((&b[std::string(nm[i])] == &b[i ^ perm]) & (b[i ^ perm].Name == nm[i]), "P25:bundle-by-name");
    Estimator<T_> e("2"); setup(e, 1); Snap se = snap(e); b.AddEstimator(e);
    sym_check(b.HowMany() == 3, "P25:bundle-copy"); if (b.HowMany() != 3) return;
    sym_check(same(b[2], se) & (&b[std::string("2")] == &b[2]) & same(b[i0(perm)], s[0]), "P25:bundle-copy");
    int dup = sym_pick("dup", 0, 2); sym_abort_ok(dup, "P25:bundle-doubled-name");
    if (dup == 1) b.AddEstimator("12"); if (dup == 2) b.AddEstimator(e); sym_abort_default();
    sym_check(dup == 0, "P25:bundle-doubled-name-refused");
    sym_reach("end");
}
// ---------------------------------------------------------------- tables of complex numbers
static const double BETA = 1.5;
static Lattice LT;
static void lattice(int l0) { Vec<int> sz; sz[0] = l0; sz[1] = 1; LT.Initialize(sz, 1); }
template <typename A> static void fillc(A &a, const char *n) { for (uint i = 0; i < a.GetSize(); i++) { double x = fin(n); a._Data[i] = Complex(x, fin(n)); } }
template <typename A> struct Tab { Complex v[64]; uint n; Tab(A &a) { n = a.GetSize(); for (uint i = 0; i < n; i++) v[i] = a._Data[i]; } bool same(A &a) const { bool ok = a.GetSize() == n; for (uint i = 0; i < n; i++) ok = ok & eqd(a._Data[i], v[i]); return ok; } };
template <typename A> static Tab<A> tab(A &a) { return Tab<A>(a); }
HARNESS(h_ck_west)
{
    int oa = sym_pick("ordera", 1, 2), ob = sym_pick("orderb", 1, 2), bad = sym_pick("mismatch", 0, 3);
    WeightEstimator a, b; uint sa[7] = {(uint)oa, 1, 1, 2, 1, 1, 2}, sb[7] = {(uint)ob, 1, 1, 2, 1, 1, 2};
    if (bad) { int at[4] = {0, 1, 3, 6}; sb[at[bad]]++; }
    a._WeightAccu.Allocate(sa, SMOOTH); b._WeightAccu.Allocate(sb, SMOOTH); a._WeightSize = 4; b._WeightSize = b._WeightAccu.GetSize() / ob;
    a._Norm = fin("norm"); a._NormAccu = fin("accu"); a._Beta = b._Beta = BETA; b._Norm = fin("oldnorm"); b._NormAccu = fin("oldaccu");
    fillc(a._WeightAccu, "a"); fillc(b._WeightAccu, "b"); auto t = tab(a._WeightAccu); double n0 = a._Norm, n1 = a._NormAccu;
    Dictionary d = a.ToDict();
    sym_check(t.same(a._WeightAccu) & eqd(a._Norm, n0) & eqd(a._NormAccu, n1), "P25:saving-changes-nothing");
    sym_abort_ok(bad | oa > ob, "P25:refused"); bool r = b.FromDict(d); sym_abort_default();
    sym_check(r & !bad & oa <= ob, "P25:loads");
    bool ok = eqd(b._Norm, n0) & eqd(b._NormAccu, n1) & eqd(b._Beta, BETA);
    for (int i = 0; i < 4 * ob; i++) ok = ok & eqd(b._WeightAccu._Data[i], i < 4 * oa ? t.v[i] : Complex(0, 0));   // orders the file does not have start empty
    sym_check(ok, "P25:accumulators"); sym_reach("end");
}
HARNESS(h_ck_g)
{
    lattice(1); int M = sym_pick("M", 1, 2), l = sym_pick("L0", 1, 2); 
    GClass a(LT, BETA, 2, TauAntiSymmetric); lattice(l); GClass b(LT, BETA, M, TauAntiSymmetric); fillc(a._SmoothTWeight, "a"); fillc(b._SmoothTWeight, "b"); auto t = tab(a._SmoothTWeight), m = tab(b._MeasureWeight);
    Dictionary d = a.ToDict(); bool bad = M != 2 | l != 1;
    sym_abort_ok(bad, "P25:refused"); bool r = b.FromDict(d); sym_abort_default();
    sym_check(r & !bad, "P25:loads"); sym_check(t.same(a._SmoothTWeight), "P25:saving-changes-nothing"); sym_check(t.same(b._SmoothTWeight) & m.same(b._MeasureWeight), "P25:g-table"); sym_reach("end");
}
HARNESS(h_ck_w)
{
    lattice(1); int M = sym_pick("M", 1, 2);
    WClass a(LT, BETA, 2), b(LT, BETA, M); fillc(a._SmoothTWeight, "a"); fillc(b._SmoothTWeight, "b"); fillc(a._DeltaTWeight, "c"); fillc(b._DeltaTWeight, "d");
    auto t = tab(a._SmoothTWeight); auto u = tab(a._DeltaTWeight); auto m = tab(b._MeasureWeight);
    Dictionary d = a.ToDict();
    sym_abort_ok(M != 2, "P25:refused"); bool r = b.FromDict(d); sym_abort_default();
    sym_check(r & M == 2, "P25:loads"); sym_check(t.same(a._SmoothTWeight) & u.same(a._DeltaTWeight), "P25:saving-changes-nothing");
    sym_check(t.same(b._SmoothTWeight) & u.same(b._DeltaTWeight) & m.same(b._MeasureWeight), "P25:w-tables"); sym_reach("end");
}
HARNESS(h_ck_sigmapolar)
{
    lattice(1); int oa = sym_pick("ordera", 1, 2), pol = sym_pick("polar", 0, 1);
    SigmaClass s1(LT, BETA, 1, oa, TauAntiSymmetric, 2.0), s2(LT, BETA, 1, 2, TauAntiSymmetric, 2.0); PolarClass p1(LT, BETA, 1, oa, 2.0), p2(LT, BETA, 1, 2, 2.0);
    WeightEstimator &a = pol ? p1.Estimator : s1.Estimator, &b = pol ? p2.Estimator : s2.Estimator;
    fillc(a._WeightAccu, "a"); fillc(b._WeightAccu, "b"); auto t = tab(a._WeightAccu); double n0 = a._Norm, n1 = a._NormAccu = fin("accu"); b._NormAccu = fin("oldaccu");
    Dictionary d = pol ? p1.ToDict() : s1.ToDict(); bool r = pol ? p2.FromDict(d) : s2.FromDict(d); sym_check(r, "P25:loads");
    bool ok = eqd(b._Norm, n0) & eqd(b._NormAccu, n1); for (uint i = 0; i < b._WeightAccu.GetSize(); i++) ok = ok & eqd(b._WeightAccu._Data[i], i < t.n ? t.v[i] : Complex(0, 0));
    sym_check(ok, "P25:accumulators"); sym_reach("end");
}
HARNESS(h_ck_gammag)
{
    lattice(1); GammaGClass a(LT, BETA, 2, 2.0); int M = sym_pick("M", 1, 2), st = sym_pick("statistics", 0, 1); GammaGClass b(LT, BETA, M, 2.0);
    fillc(a._Weight, "a"); fillc(b._Weight, "b"); fillc(a._WeightAccu, "c"); fillc(b._WeightAccu, "d"); a._NormAccu = fin("accu"); b._NormAccu = fin("oldaccu");
    auto w = tab(a._Weight), x = tab(a._WeightAccu), wo = tab(b._Weight), xo = tab(b._WeightAccu); double n0 = a._Norm, n1 = a._NormAccu, o1 = b._NormAccu;
    Dictionary d = st ? a.StatisToDict() : a.WeightToDict();
    sym_abort_ok(M != 2, "P25:refused"); bool r = st ? b.StatisFromDict(d) : b.WeightFromDict(d); sym_abort_default(); sym_check(r & M == 2, "P25:loads");
    sym_check(w.same(a._Weight) & x.same(a._WeightAccu) & eqd(a._Norm, n0) & eqd(a._NormAccu, n1), "P25:saving-changes-nothing");
    if (st) sym_check(wo.same(b._Weight) & x.same(b._WeightAccu) & eqd(b._Norm, n0) & eqd(b._NormAccu, n1), "P25:three-vertex-statistics");
    else sym_check(w.same(b._Weight) & xo.same(b._WeightAccu) & eqd(b._NormAccu, o1), "P25:three-vertex-table");
    sym_reach("end");
}
static std::vector<int> symvec(const char *n, int sz) { std::vector<int> v; for (int i = 0; i < sz; i++) v.push_back(sym_int(n, -3, 3)); return v; }
static bool veq(const std::vector<int> &a, const std::vector<int> &b) { bool ok = a.size() == b.size(); if (!ok) return false; for (size_t i = 0; i < a.size(); i++) ok = ok & (a[i] == b[i]); return ok; }
HARNESS(h_ck_gammaw)
{
    lattice(1); std::vector<basis> ba, bb; ba.push_back(basis(2)); bb.push_back(basis(2)); GammaWClass a(LT, BETA, 2, ba, 2.0), b(LT, BETA, 2, bb, 2.0);
    int bad = sym_pick("bad", 0, 5), table = sym_pick("table", 0, 1);
    std::vector<int> v[5]; const char *nm[5] = {"RSqueeze", "RSymFactor", "TauSqueeze", "TauSymFactor", "TauFlag"};
    for (int i = 0; i < 5; i++) v[i] = symvec(nm[i], (i < 2 ? 1 : 4) + (bad == i + 1 ? sym_pick("len", 0, 1) * 2 - 1 : 0));
    Dictionary d; for (int i = 0; i < 5; i++) d[nm[i]] = v[i]; d["RSize"] = (uint)1; d["TauSize"] = (uint)2;
    Complex c[4]; for (int i = 0; i < 4; i++) { double x = fin("c"); c[i] = Complex(x, fin("c")); }
    uint sh[3] = {2, 1, 2}; if (table) d["SmoothT"] = Python::ArrayObject(c, sh, 3);
    sym_abort_ok(bad, "P25:refused"); bool r = a.WeightFromDict(d); sym_abort_default(); sym_check(r & !bad, "P25:loads");
    sym_check(veq(a._RSqueeze, v[0]) & veq(a._RSymFactor, v[1]) & veq(a._TauSqueeze, v[2]) & veq(a._TauSymFactor, v[3]) & veq(a._TauFlag, v[4]), "P25:three-vertex-index");
    bool ok = a._Weight.GetSize() == 4; if (table) for (int i = 0; i < 4; i++) ok = ok & eqd(a._Weight._Data[i], c[i]);
    sym_check(ok, "P25:three-vertex-table"); sym_check(a._WeightAccu.GetSize() == 4, "P25:three-vertex-accumulator");
    b.WeightFromDict(d); fillc(a._WeightAccu, "a"); fillc(b._WeightAccu, "b"); a._NormAccu = fin("accu"); a._Norm = fin("norm"); b._NormAccu = fin("oldaccu"); auto x = tab(a._WeightAccu); double n0 = a._Norm, n1 = a._NormAccu;
    Dictionary s = a.StatisToDict(); sym_check(b.StatisFromDict(s), "P25:loads");
    sym_check(x.same(a._WeightAccu) & eqd(a._Norm, n0) & eqd(a._NormAccu, n1), "P25:saving-changes-nothing");
    sym_check(x.same(b._WeightAccu) & eqd(b._Norm, n0) & eqd(b._NormAccu, n1), "P25:three-vertex-statistics");
    sym_reach("end");
}
