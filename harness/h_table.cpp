#include "module/weight/component.h"
#include "module/weight/gamma3.h"
#include "symrt.h"
using namespace weight;
// Tables, accumulators and their normalization under assignment, rescaling and a change of temperature.
static bool feq(double a, double b) { return sym_is_native() ? fabs(a - b) <= 1e-9 * (1 + fabs(a) + fabs(b)) : sym_deq(a, b); }
static bool near_(double a, double b) { double s = fabs(a) + fabs(b); return a - b <= 1e-9 * s & b - a <= 1e-9 * s; }
static bool ceq(const Complex &a, const Complex &b) { return feq(a.Re, b.Re) & feq(a.Im, b.Im); }
static double rng(const char *n, double lo, double hi) { double d = sym_double(n); sym_assume(d >= lo & d <= hi); return d; }
static Complex num(const char *n, int i)
{
    char a[5] = {n[0], 'r', (char)('a' + i / 26), (char)('a' + i % 26), 0}, b[5] = {n[0], 'i', (char)('a' + i / 26), (char)('a' + i % 26), 0};
    return Complex(rng(a, -1e3, 1e3), rng(b, -1e3, 1e3));
}
static const int N3 = 12;
HARNESS(h_array)
{
    WeightArray<3> a; sym_check(!a.IsAllocate(), "fresh"); uint sh[3] = {2, 2, 3}, s2[3] = {1, 3, 1};
    a.Allocate(sh, "SmoothT");
    sym_check(a.IsAllocate() & a.GetSize() == N3 & a.GetDim() == 3 & a.GetShape()[0] == 2 & a.GetShape()[1] == 2 & a.GetShape()[2] == 3, "allocate");
    Complex v[N3], c = num("c", 0); double k = rng("k", 0.01, 100); bool ok = true;
    for (int i = 0; i < N3; i++) v[i] = num("v", i);
    a.Assign(v); for (int i = 0; i < N3; i++) ok = ok & ceq(a[i], v[i]) & ceq(a(i), v[i]); sym_check(ok, "assign-array"); ok = true;
    sym_check(sym_is_native() | sym_size(a.Data()) == (long)(N3 * sizeof(Complex)), "allocate-size");
    a.Assign(a.Data()); a.Assign(a.Data(), 4); for (int i = 0; i < N3; i++) ok = ok & ceq(a[i], v[i]); sym_check(ok, "assign-self"); ok = true;
    a += c; for (int i = 0; i < N3; i++) ok = ok & ceq(a[i], v[i] + c); sym_check(ok, "add"); ok = true;
    a -= c; for (int i = 0; i < N3; i++) ok = ok & ceq(a[i], v[i]); sym_check(ok, "sub"); ok = true;
    a *= k; for (int i = 0; i < N3; i++) ok = ok & ceq(a[i], v[i] * k); sym_check(ok, "mul"); ok = true;
    a /= k; for (int i = 0; i < N3; i++) ok = ok & ceq(a[i], v[i]); sym_check(ok, "div"); ok = true;
    int n = sym_pick("n", 0, N3 + 2); Complex w[N3 + 2]; for (int i = 0; i < N3 + 2; i++) w[i] = num("w", i);
    sym_abort_ok(n > N3, "assign-too-long"); a.Assign(w, n); sym_abort_default();   // a longer source never fits
    sym_check(n <= N3, "assign-too-long-refused");
    for (int i = 0; i < N3; i++) ok = ok & ceq(a[i], i < n ? w[i] : v[i]); sym_check(ok, "assign-part"); ok = true;
    a.Assign(c); for (int i = 0; i < N3; i++) ok = ok & ceq(a[i], c); sym_check(ok, "assign-value");
    a.Allocate(s2, "DeltaT"); sym_check(a.IsAllocate() & a.GetSize() == 3 & a.GetShape()[0] == 1 & a.GetShape()[1] == 3 & a.GetShape()[2] == 1, "reallocate");
    a.Free(); sym_check(!a.IsAllocate(), "free"); a.Free();
    sym_reach("end");
}
HARNESS(h_array_unset)
{
    WeightArray<4> a; Complex v[2]; int k = sym_pick("k", 0, 2); sym_abort_ok(true, "unset");
    if (k == 0) a.Assign(Complex(1.0, 0.0)); else if (k == 1) a.Assign(v); else a.Assign(v, 2);
    sym_check(false, "unallocated-refused"); sym_reach("end");
}
// ---- the accumulator of one quantity, in an arbitrary state
static const int ORD = 2, SZ = 2 * 2 * 2;                     // two orders, 1x1 lattice, one sublattice, two bins, two spins in and out
static Lattice LAT;
static double BETA_(int i) { return i == 0 ? 0.5 : i == 1 ? 1.5 : 4.0; }
static void lat(int l0, int l1) { Vec<int> sz; sz[0] = l0; sz[1] = l1; LAT.Initialize(sz, 1); }
struct Pre { Complex v[ORD * SZ]; double acc, norm; };
template <typename E> static void pre(E &e, Pre &p, bool small)
{
    p.acc = rng("normaccu", 0.001, 1e6); e._NormAccu = p.acc; p.norm = e._Norm;
    for (int i = 0; i < ORD * SZ; i++) { p.v[i] = num("v", i); e._WeightAccu[i] = p.v[i]; }
}
template <typename E> static bool same(E &e, Pre &p, double f) { bool ok = true; for (int i = 0; i < ORD * SZ; i++) ok = ok & ceq(e._WeightAccu._Data[i] * f, p.v[i]); return ok; }
static double fac(const char *n) { double f = rng(n, -100, 100); sym_assume(f > 0.01 | f <= 0); return f; }
HARNESS(h_west)
{
    lat(1, 1); WeightEstimator e; IndexMapSPIN2 m(1.5, 2, LAT, TauAntiSymmetric); e.Allocate(m, ORD, 3.0); Pre p;
    sym_check(feq(e._NormAccu, 0) & feq(e._Norm * 1.5 * 1.5, 3.0 * 2), "west-norm"); sym_check(e._WeightAccu.GetSize() == ORD * SZ, "west-size");
    bool z = true; for (int i = 0; i < ORD * SZ; i++) z = z & ceq(e._WeightAccu[i], Complex(0, 0)); sym_check(z, "west-zero");
    pre(e, p, true); int op = sym_pick("op", 0, 3);
    if (op == 0) { double w = rng("w", -1e3, 1e3); e.MeasureNorm(w); sym_check(feq(e._NormAccu, p.acc + w) & feq(e._Norm, p.norm) & same(e, p, 1), "measure-norm"); }
    else if (op == 1) {
        double f = fac("f"); sym_abort_ok(!(f > 0), "squeeze-refuse"); e.SqueezeStatistics(f); sym_abort_default(); sym_check(f > 0, "squeeze-refused");
        sym_check(feq(e._NormAccu * f, p.acc) & feq(e._Norm, p.norm) & same(e, p, f), "squeeze");
    } else if (op == 2) {
        e.ClearStatistics(); bool ok = feq(e._NormAccu, 0) & feq(e._Norm, p.norm);
        for (int i = 0; i < ORD * SZ; i++) ok = ok & ceq(e._WeightAccu[i], Complex(0, 0)); sym_check(ok, "clear");
    } else {
        int o = sym_pick("order", 1, ORD), i = sym_int("i", 0, SZ - 1), at = (o - 1) * SZ + sym_conc(i); Complex w = num("w", 0); e.Measure(i, o, w);
        bool ok = feq(e._NormAccu, p.acc) & feq(e._Norm, p.norm);
        for (int j = 0; j < ORD * SZ; j++) ok = ok & ceq(e._WeightAccu[j], j == at ? p.v[j] + w : p.v[j]); sym_check(ok, "measure");
    }
    sym_reach("end");
}
// the accumulated weight (accumulator x norm / accumulated norm) survives a change of temperature, and the norm becomes that of a run
// started at the new temperature, as merging with the other processes requires
template <typename C, typename R> static void anneal(C &s, C &fresh, R reset, const char *)
{
    Pre p; pre(s, p, true); reset();
    sym_check(near_(s._Norm, fresh._Norm), "anneal-norm");
    sym_check(near_(s._Norm * p.acc, p.norm * s._NormAccu), "anneal-weight"); sym_check(same(s, p, 1), "anneal-data");
    double n1 = s._Norm, a1 = s._NormAccu; reset(); sym_check(near_(s._Norm, n1) & near_(s._NormAccu, a1), "anneal-twice");
}
HARNESS(h_anneal_sigma)
{
    lat(1, 1); double b0 = BETA_(sym_pick("b0", 0, 2)), b1 = BETA_(sym_pick("b1", 0, 2));
    SigmaClass s(LAT, b0, 2, ORD, TauAntiSymmetric, 3.0), f(LAT, b1, 2, ORD, TauAntiSymmetric, 3.0);
    anneal(s.Estimator, f.Estimator, [&] { s.Reset(b1); }, "s");
    PolarClass q(LAT, b0, 2, 1, 3.0), g(LAT, b1, 2, 1, 3.0); double a = rng("qacc", 0.001, 1e6), n0 = q.Estimator._Norm; q.Estimator._NormAccu = a;
    q.Reset(b1); sym_check(near_(q.Estimator._Norm, g.Estimator._Norm) & near_(q.Estimator._Norm * a, n0 * q.Estimator._NormAccu), "anneal-polar");
    sym_reach("end");
}
static bool bins(int M, double beta, const IndexMap &m, const IndexMap &f)
{
    bool ok = m.MaxTauBin == (uint)M & feq(m.Beta, beta) & m.Symmetry == f.Symmetry; double x = rng("x", -1.0, 0.999999); double t = x * beta;
    double y = t < 0 ? t + beta : t; for (int i = 0; i <= M; i++) sym_assume((y - beta / M * i > 1e-7) | (beta / M * i - y > 1e-7));
    int b = 0; for (int i = 1; i < M; i++) b += y >= beta / M * i;
    ok = ok & m.TauIndex(t) == b & m.GetTauSymmetryFactor(0.25, 0.125) == f.GetTauSymmetryFactor(0.25, 0.125) & m.GetTauSymmetryFactor(0.125, 0.25) == 1;
    for (int i = 0; i < 6; i++) ok = ok & m.GetShape()[i] == f.GetShape()[i]; return ok;
}
HARNESS(h_anneal_bins)
{
    int M = sym_pick("M", 1, 3); lat(2, 3); double b0 = BETA_(sym_pick("b0", 0, 2)), b1 = BETA_(sym_pick("b1", 0, 2)); int k = sym_pick("k", 0, 4);
    TauSymmetry ts = k == 4 ? TauSymmetric : TauAntiSymmetric;
    if (k == 0 | k == 4) { GClass s(LAT, b0, M, ts), f(LAT, b1, M, ts); s.Reset(b1); sym_check(bins(M, b1, s._Map, f._Map), "anneal-g"); }
    if (k == 1) { WClass s(LAT, b0, M), f(LAT, b1, M); s.Reset(b1); sym_check(bins(M, b1, s._Map, f._Map), "anneal-w"); }
    if (k == 2) { SigmaClass s(LAT, b0, M, 1, ts, 3.0), f(LAT, b1, M, 1, ts, 3.0); s.Reset(b1); sym_check(bins(M, b1, s._Map, f._Map), "anneal-s"); }
    if (k == 3) { PolarClass s(LAT, b0, M, 1, 3.0), f(LAT, b1, M, 1, 3.0); s.Reset(b1); sym_check(bins(M, b1, s._Map, f._Map), "anneal-p"); }
    sym_reach("end");
}
