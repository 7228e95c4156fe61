#include "module/weight/component.h"
#include "module/weight/gamma3.h"
#include "module/weight/weight.h"
#include "module/parameter/parameter.h"
#include "symrt.h"
using namespace weight;
// Three-vertex tables: which entry a configuration reads or is accumulated in, and with what sign and symmetry factor.
static const double BETA = 1.5;
static int L0, L1, M;
static Lattice LAT;
static void lattice() { int lk = sym_param("LK", -1); if (lk < 0) lk = sym_pick("LK", 0, 3); L0 = lk == 4 ? 3 : lk == 5 ? 1 : 1 + (lk & 1); L1 = lk == 4 ? 1 : lk == 5 ? 3 : 1 + (lk >> 1); M = sym_param("M", 2); Vec<int> sz; sz[0] = L0; sz[1] = L1; LAT.Initialize(sz, 1); }
static Site site(const char *x, const char *y) { Vec<int> v; v[0] = sym_int(x, 0, L0 - 1); v[1] = sym_int(y, 0, L1 - 1); return Site(0, v); }
static double tau(const char *n) { double t = sym_double(n); sym_assume(t >= 0 & t <= BETA * (1 - 1e-9)); return t; }
static int modp(int d, int L) { return d < 0 ? d + L : d; }
static int disp(const Site &a, const Site &b) { return modp(b.Coordinate[0] - a.Coordinate[0], L0) * L1 + modp(b.Coordinate[1] - a.Coordinate[1], L1); }
static bool feq(double a, double b) { return sym_is_native() ? fabs(a - b) <= 1e-9 * (1 + fabs(a) + fabs(b)) : sym_deq(a, b); }
static bool ceq(const Complex &a, double re, double im) { return feq(a.Re, re) & feq(a.Im, im); }
static int bin(double dt) { double x = dt < 0 ? dt + BETA : dt; int b = 0; for (int i = 1; i < M; i++) b += x >= BETA / M * i; return b; }
static void offgrid(double dt)
{
    double x = dt < 0 ? dt + BETA : dt; bool ok = true;
    for (int i = 0; i <= M; i++) ok = ok & (x - BETA / M * i > 1e-7 | BETA / M * i - x > 1e-7);
    sym_assume(ok | (dt == 0));
}
template <typename A> static void fill(A &a, const char *nm, double k)
{
    if (sym_is_native()) { for (uint i = 0; i < a.GetSize(); i++) a[i] = Complex(k + i, 1 - k * i); return; }
    sym_region(a._Data, 8, 2 * a.GetSize(), 0, 1, nm);
}
struct Pt { Site i, o, u; double ti, to, tu; };
static void points(Pt &p)
{
    p.i = site("xi", "yi"); p.o = site("xo", "yo"); p.u = site("xu", "yu"); p.ti = tau("ti"); p.to = tau("to"); p.tu = tau("tu");
    offgrid(p.ti - p.tu); offgrid(p.to - p.tu);
}
HARNESS(h_gamma_g)
{
    lattice(); GammaGClass g(LAT, BETA, M, 3.0); int V = L0 * L1, S = 2 * V * M * M;
    sym_check((int)g._Weight.GetSize() == S & (int)g._WeightAccu.GetSize() == S, "gg-size");
    sym_check(feq(g._NormAccu, 0) & feq(g._Norm * BETA * BETA * BETA * V, 3.0 * M * M), "gg-norm");
    Pt p; points(p); spin s = (spin)sym_int("s", 0, 1), so = (spin)sym_int("so", 0, 1), su = (spin)sym_int("su", 0, 1);
    int at = s * V * M * M + disp(p.i, p.u) * M * M + bin(p.to - p.tu) * M + bin(p.ti - p.tu);
    double sg = (p.to < p.tu ? -1.0 : 1.0) * (p.ti < p.tu ? -1.0 : 1.0);
    if (sym_pick("measure", 0, 1) == 0) {
        fill(g._Weight, "tab", 1); Complex w = g.Weight(p.i, p.o, p.u, p.ti, p.to, p.tu, s, so, su);
        sym_check(ceq(w, sg * g._Weight._Data[at].Re, sg * g._Weight._Data[at].Im), "gg-weight");
    } else {
        fill(g._WeightAccu, "acc", 1); int j = sym_int("probe", 0, 1000); sym_assume(j < S); Complex old = g._WeightAccu._Data[j];
        double re = sym_double("re"), im = sym_double("im"); sym_assume(re > -1e3 & re < 1e3 & im > -1e3 & im < 1e3);
        g.Measure(p.i, p.o, p.u, p.ti, p.to, p.tu, s, so, su, Complex(re, im)); bool hit = j == at;
        sym_check(ceq(g._WeightAccu._Data[j], hit ? old.Re + sg * re : old.Re, hit ? old.Im + sg * im : old.Im), "gg-measure");
        sym_check(feq(g._NormAccu, 0), "gg-norm-kept");
    }
    sym_reach("end");
}
// the symmetry tables the Python side supplies, arbitrary within their ranges
static void tables(GammaWClass &g, int V, int RS, int TS)
{
    g._RSize = RS; g._TauSize = TS; bool nat = sym_is_native();
    for (int i = 0; i < V * V; i++) {
        char a[4] = {'R', (char)('a' + i), 0}, b[4] = {'F', (char)('a' + i), 0};
        g._RSqueeze.push_back(sym_int(a, 0, RS - 1)); g._RSymFactor.push_back(1 + i % 2);
    }
    for (int i = 0; i < M * M; i++) {
        char a[4] = {'T', (char)('a' + i), 0}, b[4] = {'G', (char)('a' + i), 0};
        g._TauSqueeze.push_back(sym_int(a, 0, TS - 1)); g._TauSymFactor.push_back(1 + (i / 2) % 2); g._TauFlag.push_back(sym_int(b, 0, 1));
    }
    uint sh[3] = {2, (uint)RS, (uint)TS}; g._Weight.Allocate(sh, "SmoothT"); g._WeightAccu.Allocate(sh, "SmoothT");
}
static void spins(int k, spin *out, spin *in)
{
    const spin t[6][4] = {{UP, UP, UP, UP}, {DOWN, DOWN, DOWN, DOWN}, {UP, UP, DOWN, DOWN}, {DOWN, DOWN, UP, UP}, {UP, DOWN, DOWN, UP}, {DOWN, UP, UP, DOWN}};
    out[0] = t[k][0]; out[1] = t[k][1]; in[0] = t[k][2]; in[1] = t[k][3];
}
static int get(const std::vector<int> &v, int n, int i) { int r = v[0]; for (int k = 1; k < n; k++) r = i == k ? v[k] : r; return r; }
HARNESS(h_gamma_w)
{
    lattice(); std::vector<basis> bs(1, basis(2, 1.0)); GammaWClass g(LAT, BETA, M, bs, 3.0); int V = L0 * L1, RS = V > 1 ? V : 1, TS = 2;
    sym_check(feq(g._Norm * BETA * BETA * BETA * V, 3.0 * M * M), "gw-norm");
    tables(g, V, RS, TS); Pt p; points(p); int k = sym_pick("spins", 0, 5); spin so[2], si[2], su = (spin)sym_int("su", 0, 1); spins(k, so, si);
    int r = disp(p.o, p.u) * V + disp(p.i, p.u), t = bin(p.to - p.tu) * M + bin(p.ti - p.tu);
    int at = (k >= 4 ? RS * TS : 0) + get(g._RSqueeze, V * V, r) * TS + get(g._TauSqueeze, M * M, t); bool fl = get(g._TauFlag, M * M, t) != 0;
    if (sym_pick("measure", 0, 1) == 0) {
        fill(g._Weight, "tab", 1); Complex w = g.Weight(p.i, p.o, p.u, p.ti, p.to, p.tu, si, so, su);
        double re = g._Weight._Data[at].Re, im = g._Weight._Data[at].Im; re = fl ? -re : re;            // minus the conjugate
        if (k == 2 | k == 3) { re = -re; im = -im; } if (k == 4) re = -re;
        sym_check(ceq(w, re, im), "gw-weight");
    } else {
        fill(g._WeightAccu, "acc", 1); int j = sym_int("probe", 0, 1000); sym_assume(j < 2 * RS * TS); Complex old = g._WeightAccu._Data[j]; g._NormAccu = 2.0;
        double a = sym_double("re"), b = sym_double("im"); sym_assume(a > -1e3 & a < 1e3 & b > -1e3 & b < 1e3);
        g.Measure(p.i, p.o, p.u, p.ti, p.to, p.tu, si, so, su, Complex(a, b)); bool hit = j == at;
        double f = get(g._RSymFactor, V * V, r) * get(g._TauSymFactor, M * M, t), re = a, im = b; re = fl ? -re : re;
        if (k == 2 | k == 3) { re = -re; im = -im; } if (k >= 4) f = 2 * f; if (k == 5) re = -re;
        Complex now = g._WeightAccu._Data[j];
        sym_check(feq((now.Re - old.Re) * f, hit ? re : 0.0) & feq((now.Im - old.Im) * f, hit ? im : 0.0), "gw-measure");
        sym_check(feq(g._NormAccu, 2.0), "gw-norm-kept");
    }
    sym_reach("end");
}
// a line marked as the three-vertex line takes its weight from the three-vertex table, from whichever end it is looked up
HARNESS(h_gamma_lines)
{
    lattice(); std::vector<basis> bs(1, basis(2, 1.0)); int V = L0 * L1, k = sym_pick("kind", 0, 2); Pt p; points(p); offgrid(p.to - p.ti); ExtPoint e; e.R = p.u; e.Tau = p.tu; e.Spin = (spin)sym_int("su", 0, 1);
    if (k == 0) {
        GammaGClass gg(LAT, BETA, M, 3.0); GClass g(LAT, BETA, M); g.GGGammaGWeight = &gg; fill(gg._Weight, "tab", 1);
        spin s = (spin)sym_int("s", 0, 1), so = (spin)sym_int("so", 0, 1);
        Complex x = gg.Weight(p.i, p.o, p.u, p.ti, p.to, p.tu, s, so, e.Spin), a = g.Weight(p.i, p.o, p.ti, p.to, s, so, false, true, &e),
                b = g.Weight(IN, p.i, p.o, p.ti, p.to, s, so, false, true, &e), c = g.Weight(OUT, p.o, p.i, p.to, p.ti, so, s, false, true, &e);
        sym_check(ceq(a, x.Re, x.Im), "line-g"); sym_check(ceq(b, x.Re, x.Im) & ceq(c, x.Re, x.Im), "line-g-directed");
    } else {
        GammaWClass gw(LAT, BETA, M, bs, 3.0); tables(gw, V, V, 2); WClass w(LAT, BETA, M); w.WWGammaWWeight = &gw; fill(gw._Weight, "tab", 1);
        bool worm = k == 2; spin so[2], si[2], uu[2] = {UP, UP}; spins(sym_pick("spins", 0, 5), so, si);
        Complex x = gw.Weight(p.i, p.o, p.u, p.ti, p.to, p.tu, worm ? uu : si, worm ? uu : so, e.Spin), a = w.Weight(p.i, p.o, p.ti, p.to, si, so, worm, false, false, true, &e),
                b = w.Weight(IN, p.i, p.o, p.ti, p.to, si, so, worm, false, false, true, &e), c = w.Weight(OUT, p.o, p.i, p.to, p.ti, so, si, worm, false, false, true, &e);
        sym_check(ceq(a, x.Re, x.Im), "line-w"); sym_check(ceq(b, x.Re, x.Im) & ceq(c, x.Re, x.Im), "line-w-directed");
    }
    sym_reach("end");
}
// statistics of the three-vertex
template <typename G> static void stat(G &g, int S)
{
    double acc = sym_double("acc"), f = sym_double("f"), w = sym_double("w"); sym_assume(acc > 0.001 & acc < 1e6 & f > -100 & f < 100 & (f > 0.01 | f <= 0) & w > -1e3 & w < 1e3);
    Complex v[32]; for (int i = 0; i < S; i++) { char a[4] = {'r', (char)('a' + i), 0}, b[4] = {'i', (char)('a' + i), 0}; v[i] = Complex(sym_double(a), sym_double(b)); sym_assume(v[i].Re > -1e3 & v[i].Re < 1e3 & v[i].Im > -1e3 & v[i].Im < 1e3); g._WeightAccu[i] = v[i]; }
    g._NormAccu = acc; double n = g._Norm; bool ok = true; int op = sym_pick("op", 0, 2);
    if (op == 0) { g.MeasureNorm(w); for (int i = 0; i < S; i++) ok = ok & ceq(g._WeightAccu[i], v[i].Re, v[i].Im); sym_check(ok & feq(g._NormAccu, acc + w) & feq(g._Norm, n), "g3-measure-norm"); }
    if (op == 1) {
        sym_abort_ok(!(f > 0), "g3-squeeze-refuse"); g.SqueezeStatistics(f); sym_abort_default(); sym_check(f > 0, "g3-squeeze-refused");
        for (int i = 0; i < S; i++) ok = ok & ceq(g._WeightAccu[i] * f, v[i].Re, v[i].Im); sym_check(ok & feq(g._NormAccu * f, acc) & feq(g._Norm, n), "g3-squeeze");
    }
    if (op == 2) { g.ClearStatistics(); for (int i = 0; i < S; i++) ok = ok & ceq(g._WeightAccu[i], 0, 0); sym_check(ok & feq(g._NormAccu, 0) & feq(g._Norm, n), "g3-clear"); }
    sym_reach("end");
}
HARNESS(h_gamma_stat)
{
    M = 2; L0 = 1; L1 = 2; Vec<int> sz; sz[0] = L0; sz[1] = L1; LAT.Initialize(sz, 1); std::vector<basis> bs(1, basis(2, 1.0));
    if (sym_pick("which", 0, 1) == 0) { GammaGClass g(LAT, BETA, M, 3.0); stat(g, 2 * 2 * 4); }
    else { GammaWClass g(LAT, BETA, M, bs, 3.0); tables(g, 2, 2, 2); stat(g, 8); }
}
// a change of temperature reaches the three-vertices: they then bin times and normalize as tables made at the new temperature, and the accumulated weight is kept
static bool near_(double a, double b) { double s = fabs(a) + fabs(b); return (a - b <= 1e-9 * s) & (b - a <= 1e-9 * s); }
template <typename G> static void anneal(Weight &w, G &g, G &f, double b1)
{
    double acc = sym_double("acc"), n0 = g._Norm; sym_assume(acc > 0.001 & acc < 1e6); g._NormAccu = acc;
    para::ParaMC *p = (para::ParaMC *)malloc(sizeof(para::ParaMC)); p->Beta = b1; w.Anneal(*p);
    sym_check(near_(g._Norm, f._Norm), "g3-anneal-norm"); sym_check(near_(g._Norm * acc, n0 * g._NormAccu), "g3-anneal-weight");
    sym_check(near_(g._Beta, b1) & near_(g._dBetaInverse, f._dBetaInverse) & near_(g._Map.Beta, b1) & g._Map.MaxTauBin == f._Map.MaxTauBin & g._Map.Symmetry == f._Map.Symmetry, "g3-anneal-bins");
}
HARNESS(h_gamma_anneal)
{
    const double B[3] = {0.5, 1.5, 4.0}; double b0 = B[sym_pick("b0", 0, 2)], b1 = B[sym_pick("b1", 0, 2)]; M = 2; L0 = 1; L1 = 2; Vec<int> sz; sz[0] = L0; sz[1] = L1; LAT.Initialize(sz, 1);
    std::vector<basis> bs(1, basis(2, 1.0)), bt(1, basis(2, 1.0)); Weight w; sym_check(w.GammaG == nullptr & w.GammaW == nullptr & w.G == nullptr & w.W == nullptr & w.Sigma == nullptr & w.Polar == nullptr, "nothing-at-first");
    w.G = new GClass(LAT, b0, M); w.W = new WClass(LAT, b0, M); w.Sigma = new SigmaClass(LAT, b0, M, 1, TauAntiSymmetric, 3.0); w.Polar = new PolarClass(LAT, b0, M, 1, 3.0);
    int k = sym_pick("k", 0, 2); if (k == 2) { para::ParaMC *p = (para::ParaMC *)malloc(sizeof(para::ParaMC)); p->Beta = b1; w.Anneal(*p); sym_check(near_(w.G->_Map.Beta, b1) & near_(w.W->_Map.Beta, b1) & near_(w.Sigma->_Map.Beta, b1) & near_(w.Polar->_Map.Beta, b1), "anneal-all"); sym_reach("end"); return; }
    GammaGClass g(LAT, b0, M, 3.0), gf(LAT, b1, M, 3.0); GammaWClass h(LAT, b0, M, bs, 3.0), hf(LAT, b1, M, bt, 3.0); w.GammaG = &g; w.GammaW = &h;
    if (k == 0) anneal(w, g, gf, b1); else anneal(w, h, hf, b1); w.GammaG = nullptr; w.GammaW = nullptr;
    sym_reach("end");
}
