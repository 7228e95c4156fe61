#include "module/weight/component.h"
#include "module/weight/gamma3.h"
#include "symrt.h"
using namespace weight;
// Tables hold a different value in every entry, so the value returned tells which entry was read.
static const double BETA = 1.5;
static int L0, L1, NS, M;
static Lattice LAT;
static void lattice()
{
    L0 = sym_pick("L0", 1, 2); L1 = sym_pick("L1", 1, sym_param("ML", 3)); NS = sym_pick("NS", 1, 2); M = sym_param("M", 2);
    Vec<int> sz; sz[0] = L0; sz[1] = L1; LAT.Initialize(sz, NS);
}
static Site site(const char *s, const char *x, const char *y)
{
    Vec<int> v; v[0] = sym_int(x, 0, L0 - 1); v[1] = sym_int(y, 0, L1 - 1); return Site(sym_int(s, 0, NS - 1), v);
}
static double tau(const char *n) { double t = sym_double(n); sym_assume(t >= 0 & t <= BETA * (1 - 1e-9)); return t; }
static int modp(int d, int L) { return d < 0 ? d + L : d; }
static int disp(const Site &a, const Site &b) { return modp(b.Coordinate[0] - a.Coordinate[0], L0) * L1 + modp(b.Coordinate[1] - a.Coordinate[1], L1); }
static int horner(int S, int si, const Site &a, int so, const Site &b) { return (((si * NS + a.Sublattice) * S + so) * NS + b.Sublattice) * (L0 * L1) + disp(a, b); }
static bool feq(double a, double b) { return sym_is_native() ? fabs(a - b) <= 1e-9 * (1 + fabs(a) + fabs(b)) : sym_deq(a, b); }
// symbolically a table is an arbitrary function of the entry number; natively every entry holds a different value
template <typename A> static void fill(A &a, const char *nm, double k)
{
    if (sym_is_native()) { for (uint i = 0; i < a.GetSize(); i++) a[i] = Complex(k + i, 1 - k * i); return; }
    sym_region(a._Data, 8, 2 * a.GetSize(), 0, 1, nm);
}
static bool ceq(const Complex &a, const Complex &b) { return feq(a.Re, b.Re) & feq(a.Im, b.Im); }
template <typename A> static bool at(const Complex &v, double s, A &t, int i) { return feq(v.Re, s * t._Data[i].Re) & feq(v.Im, s * t._Data[i].Im); }
static int bin(double dt) { double x = dt < 0 ? dt + BETA : dt; int b = 0; for (int i = 1; i < M; i++) b += x >= BETA / M * i; return b; }
static double offgrid(double dt) // keep rounding of the bin edges out of the comparison
{
    double x = dt < 0 ? dt + BETA : dt; bool ok = true;
    for (int i = 0; i <= M; i++) ok = ok & (x - BETA / M * i > 1e-7 | BETA / M * i - x > 1e-7);
    sym_assume(ok | (dt == 0)); return dt;
}
HARNESS(h_g_weight)
{
    lattice(); int anti = sym_pick("anti", 0, 1);
    GClass g(LAT, BETA, M, anti ? TauAntiSymmetric : TauSymmetric); fill(g._SmoothTWeight, "smooth", 1); fill(g._MeasureWeight, "meas", 1000);
    Site a = site("sa", "xa", "ya"), b = site("sb", "xb", "yb"); double t1 = tau("t1"), t2 = tau("t2"); spin s1 = (spin)sym_int("s1", 0, 1), s2 = (spin)sym_int("s2", 0, 1);
    bool m = sym_bool("measure"); offgrid(t2 - t1);
    int i = horner(2, s1, a, s2, b) * M + bin(t2 - t1); double sg = t2 > t1 ? 1.0 : (anti ? -1.0 : 1.0);
    Complex w = g.Weight(a, b, t1, t2, s1, s2, m, false), in = g.Weight(IN, a, b, t1, t2, s1, s2, m, false), out = g.Weight(OUT, b, a, t2, t1, s2, s1, m, false);
    if (m) { sym_check(at(w, 1, g._MeasureWeight, i), "g-measure"); sym_check(at(in, 1, g._MeasureWeight, i) & at(out, 1, g._MeasureWeight, i), "g-measure-directed"); }
    else { sym_check(at(w, sg, g._SmoothTWeight, i), "g-smooth"); sym_check(at(in, sg, g._SmoothTWeight, i) & at(out, sg, g._SmoothTWeight, i), "g-directed"); }
    sym_reach("end");
}
HARNESS(h_w_weight)
{
    lattice();
    WClass g(LAT, BETA, M); fill(g._SmoothTWeight, "smooth", 1); fill(g._MeasureWeight, "meas", 1000);
    fill(g._DeltaTWeight, "delta", -5000);
    Site a = site("sa", "xa", "ya"), b = site("sb", "xb", "yb"); double t1 = tau("t1"), t2 = tau("t2");
    spin s1[2] = {(spin)sym_int("s1", 0, 1), (spin)sym_int("s2", 0, 1)}, s2[2] = {(spin)sym_int("s3", 0, 1), (spin)sym_int("s4", 0, 1)};
    int kind = sym_pick("kind", 0, 2); bool worm = sym_pick("worm", 0, 1); bool m = kind == 1, d = kind == 2; offgrid(t2 - t1);
    int p = worm ? 3 : s1[0] * 2 + s1[1], q = worm ? 3 : s2[0] * 2 + s2[1];
    int h = horner(4, p, a, q, b), i = h * M + bin(t2 - t1);
    Complex w = g.Weight(a, b, t1, t2, s1, s2, worm, m, d, false), in = g.Weight(IN, a, b, t1, t2, s1, s2, worm, m, d, false), out = g.Weight(OUT, b, a, t2, t1, s2, s1, worm, m, d, false);
    if (m) sym_check(at(w, 1, g._MeasureWeight, i) & at(in, 1, g._MeasureWeight, i) & at(out, 1, g._MeasureWeight, i), "w-measure");
    else if (d) sym_check(at(w, 1, g._DeltaTWeight, h) & at(in, 1, g._DeltaTWeight, h) & at(out, 1, g._DeltaTWeight, h), "w-delta");
    else { sym_check(at(w, 1, g._SmoothTWeight, i), "w-smooth"); sym_check(at(in, 1, g._SmoothTWeight, i) & at(out, 1, g._SmoothTWeight, i), "w-directed"); }
    sym_reach("end");
}
// ---- Sigma / Polar accumulators
struct Probe { int j; Complex old; };                       // an arbitrary entry, remembered
static Probe probe(WeightEstimator &e, int size) { Probe p; p.j = sym_int("probe", 0, 1000000); sym_assume(p.j < size); p.old = e._WeightAccu._Data[p.j]; return p; }
static bool entry(WeightEstimator &e, const Probe &p, int at, double re, double im)
{
    Complex now = e._WeightAccu._Data[p.j]; bool hit = p.j == at;
    return feq(now.Re, hit ? p.old.Re + re : p.old.Re) & feq(now.Im, hit ? p.old.Im + im : p.old.Im);
}
static bool norm_is(WeightEstimator &e, double beta, double n, int vol) { return feq(e._Norm * (beta * beta * vol), n * M); }
HARNESS(h_sigma)
{
    lattice(); int order = sym_pick("maxorder", 1, 3), anti = sym_pick("anti", 0, 1);
    SigmaClass s(LAT, BETA, M, order, anti ? TauAntiSymmetric : TauSymmetric, 3.0);
    sym_check(norm_is(s.Estimator, BETA, 3.0, L0 * L1) & feq(s.Estimator._NormAccu, 0), "sigma-norm");
    int S = 4 * NS * NS * L0 * L1 * M; sym_check((int)s.Estimator._WeightAccu.GetSize() == order * S, "sigma-size");
    fill(s.Estimator._WeightAccu, "accu", 1); Probe pr = probe(s.Estimator, order * S);
    Site a = site("sa", "xa", "ya"), b = site("sb", "xb", "yb"); double t1 = tau("t1"), t2 = tau("t2"); spin s1 = (spin)sym_int("s1", 0, 1), s2 = (spin)sym_int("s2", 0, 1);
    offgrid(t2 - t1); int o = sym_int("order", 1, 3); sym_assume(o <= order); double re = sym_double("re"), im = sym_double("im"); sym_assume(re > -1e3 & re < 1e3 & im > -1e3 & im < 1e3);
    s.Measure(a, b, t1, t2, s1, s2, o, Complex(re, im));
    double sg = t2 > t1 ? 1.0 : (anti ? -1.0 : 1.0); int i = (o - 1) * S + horner(2, s1, a, s2, b) * M + bin(t2 - t1);
    sym_check(entry(s.Estimator, pr, i, sg * re, sg * im), "sigma-entry");
    sym_check(feq(s.Estimator._NormAccu, 0), "sigma-norm-kept");
    sym_reach("end");
}
HARNESS(h_polar)
{
    lattice(); int order = sym_pick("maxorder", 1, 2);
    PolarClass s(LAT, BETA, M, order, 3.0);
    sym_check(norm_is(s.Estimator, BETA, 3.0, L0 * L1) & feq(s.Estimator._NormAccu, 0), "polar-norm");
    int S = 16 * NS * NS * L0 * L1 * M; sym_check((int)s.Estimator._WeightAccu.GetSize() == order * S, "polar-size");
    fill(s.Estimator._WeightAccu, "accu", 1); Probe pr = probe(s.Estimator, order * S);
    Site a = site("sa", "xa", "ya"), b = site("sb", "xb", "yb"); double t1 = tau("t1"), t2 = tau("t2");
    spin s1[2] = {(spin)sym_int("s1", 0, 1), (spin)sym_int("s2", 0, 1)}, s2[2] = {(spin)sym_int("s3", 0, 1), (spin)sym_int("s4", 0, 1)};
    offgrid(t2 - t1); int o = sym_int("order", 1, 2); sym_assume(o <= order); double re = sym_double("re"), im = sym_double("im"); sym_assume(re > -1e3 & re < 1e3 & im > -1e3 & im < 1e3);
    s.Measure(a, b, t1, t2, s1, s2, o, Complex(re, im));
    int i = (o - 1) * S + horner(4, s1[0] * 2 + s1[1], a, s2[0] * 2 + s2[1], b) * M + bin(t2 - t1);
    sym_check(entry(s.Estimator, pr, i, re, im), "polar-entry");
    sym_reach("end");
}
