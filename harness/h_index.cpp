#include "lattice/lattice.h"
#include "module/weight/index_map.h"
#include "symrt.h"
using namespace weight;
// Every size within the bound; the layout the Python side reads is the row-major one of
// [spin in][sublattice in][spin out][sublattice out][displacement][time bin].
static double symbeta() { double b = sym_double("beta"); sym_assume(b >= 0.01 & b <= 1000); return b; }
struct Cfg { int L0, L1, NS, M; double beta; Lattice lat; };
static double beta_of(int k) { const double b[6] = {0.5, 0.9, 1.3, 2.0, 7.0, 1000.0 / 3}; return b[k]; }
static void setup(Cfg &c)
{
    c.L0 = sym_pick("L0", 1, sym_param("MAXL", 3)); c.L1 = sym_pick("L1", 1, sym_param("MAXL", 3)); c.NS = sym_pick("NS", 1, sym_param("MAXS", 3));
    int m = sym_pick("M", 0, sym_param("NM", 2)); const int ms[5] = {1, 3, 8, 32, 128}; c.M = ms[m];
    int k = sym_pick("beta", 0, sym_param("NB", 1)); c.beta = beta_of(k);
    Vec<int> sz; sz[0] = c.L0; sz[1] = c.L1; c.lat.Initialize(sz, c.NS);
}
static Site site(const Cfg &c, const char *s, const char *x, const char *y)
{
    Vec<int> v; v[0] = sym_int(x, 0, c.L0 - 1); v[1] = sym_int(y, 0, c.L1 - 1); return Site(sym_int(s, 0, c.NS - 1), v);
}
static int modp(int d, int L) { return d < 0 ? d + L : d; }   // |d| < L
static int disp(const Cfg &c, const Site &a, const Site &b)
{
    return modp(b.Coordinate[0] - a.Coordinate[0], c.L0) * c.L1 + modp(b.Coordinate[1] - a.Coordinate[1], c.L1);
}
static unsigned horner(const Cfg &c, int S, int si, int a, int so, int b, int v) { return (((si * c.NS + a) * S + so) * c.NS + b) * (unsigned)(c.L0 * c.L1) + v; }
template <int S> static void shape_check(const Cfg &c, const uint *sh)
{
    sym_check(sh[0] == S & sh[1] == (uint)c.NS & sh[2] == S & sh[3] == (uint)c.NS & sh[4] == (uint)(c.L0 * c.L1) & sh[5] == (uint)c.M, "shape");
}
HARNESS(h_index2)
{
    Cfg c; setup(c); IndexMapSPIN2 m(c.beta, c.M, c.lat, TauAntiSymmetric); shape_check<2>(c, m.GetShape());
    spin si = (spin)sym_int("si", 0, 1), so = (spin)sym_int("so", 0, 1);
    Site a = site(c, "sa", "xa", "ya"), b = site(c, "sb", "xb", "yb");
    double t1;
    unsigned h = horner(c, 2, si, a.Sublattice, so, b.Sublattice, disp(c, a, b)), d = m.GetIndex(si, so, a, b);
    sym_check(d == h, "index2-delta");
    int bin = sym_pick("bin", 0, c.M - 1);
    t1 = m.IndexToTau(bin);
    sym_check(m.GetIndex(si, so, a, b, 0.0, t1) == h * c.M + bin, "index2-smooth");
    sym_check(m.GetIndex(si, so, a, b, c.beta, t1) == h * c.M + bin, "index2-smooth-wrapped");
    sym_observe("d", d); sym_reach("end");
}
HARNESS(h_index4)
{
    Cfg c; setup(c); IndexMapSPIN4 m(c.beta, c.M, c.lat, TauSymmetric); shape_check<4>(c, m.GetShape());
    spin si[2] = {(spin)sym_int("si0", 0, 1), (spin)sym_int("si1", 0, 1)}, so[2] = {(spin)sym_int("so0", 0, 1), (spin)sym_int("so1", 0, 1)};
    Site a = site(c, "sa", "xa", "ya"), b = site(c, "sb", "xb", "yb");
    unsigned h = horner(c, 4, si[0] * 2 + si[1], a.Sublattice, so[0] * 2 + so[1], b.Sublattice, disp(c, a, b)), d = m.GetIndex(si, so, a, b);
    sym_check(d == h, "index4-delta");
    int bin = sym_pick("bin", 0, c.M - 1);
    double t1 = m.IndexToTau(bin);
    sym_check(m.GetIndex(si, so, a, b, 0.0, t1) == h * c.M + bin, "index4-smooth");
    sym_check(m.GetIndex(si, so, a, b, c.beta, t1) == h * c.M + bin, "index4-smooth-wrapped");
    sym_observe("d", d); sym_reach("end");
}
HARNESS(h_tau)
{
    double beta = sym_param("SYMB", 0) ? symbeta() : beta_of(sym_pick("beta", 0, 5)); const int ms[6] = {1, 3, 8, 32, 100, 128}; int M = ms[sym_pick("M", 0, 5)];
    Lattice lat; IndexMapSPIN2 m(beta, M, lat, TauAntiSymmetric); IndexMapSPIN4 w(beta, M, lat, TauSymmetric);
    double db = beta / M;
    double tau = sym_double("tau"); sym_assume(tau >= -beta * (1 - 1e-9) & tau <= beta * (1 - 1e-9));
    int b = m.TauIndex(tau);
    sym_check(b >= 0 & b < M, "bin-range");
    double x = tau < 0 ? tau + beta : tau, mid = db * b + db * 0.5;
    sym_check(x - mid <= db * 0.5000001 & mid - x <= db * 0.5000001, "bin-contains");
    sym_check(w.TauIndex(tau) == b, "bin-same");
    sym_observe("bin", b); sym_reach("end");
}
HARNESS(h_tau_bin)
{
    double beta = sym_param("SYMB", 0) ? symbeta() : beta_of(sym_pick("beta", 0, 5)); const int ms[6] = {1, 3, 8, 32, 100, 128}; int M = ms[sym_pick("M", 0, 5)];
    Lattice lat; IndexMapSPIN2 m(beta, M, lat, TauAntiSymmetric); double db = beta / M;
    int b = sym_conc(sym_int("b", 0, M - 1));
    double t = m.IndexToTau(b);
    sym_check(t > db * b & t < db * (b + 1), "bin-centre");
    sym_check(m.TauIndex(t) == b & m.TauIndex(t - beta) == b, "bin-roundtrip");
    sym_reach("end");
}
HARNESS(h_tau_sign)
{
    Lattice lat; IndexMapSPIN2 m(1.5, 8, lat, TauAntiSymmetric); IndexMapSPIN2 s(1.5, 8, lat, TauSymmetric); IndexMapSPIN4 w(1.5, 8, lat, TauSymmetric);
    double a = sym_double("a"), b = sym_double("b"); sym_assume(a >= 0 & a < 1.5 & b >= 0 & b < 1.5);
    bool later = b > a;
    sym_check(m.GetTauSymmetryFactor(a, b) == (later ? 1 : -1), "sign-antisymmetric");
    sym_check(s.GetTauSymmetryFactor(a, b) == 1 & w.GetTauSymmetryFactor(a, b) == 1, "sign-symmetric");
    sym_check(m.TauIndex(a, b) == m.TauIndex(b - a), "bin-difference");
    sym_reach("end");
}
