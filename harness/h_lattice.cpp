#include "lattice/lattice.h"
#include "symrt.h"
// every size L0,L1 in [1,MAXL], NSublat in [1,4]; every coordinate in range
static void setup(Lattice &lat, int &L0, int &L1)
{
    int m = sym_param("MAXL", 8);
    L0 = sym_int("L0", 1, m); L1 = sym_int("L1", 1, m);
    if (sym_param("FL0", 0)) sym_assume(L0 == sym_param("FL0", 0));
    if (sym_param("PICK", 1)) { L0 = sym_conc(L0); L1 = sym_conc(L1); }
    Vec<int> sz; sz[0] = L0; sz[1] = L1;
    lat.Initialize(sz, 2);
}
static Vec<int> coord(const char *a, const char *b, int L0, int L1)
{
    Vec<int> v; v[0] = sym_int(a, 0, 1000); v[1] = sym_int(b, 0, 1000);
    sym_assume(v[0] < L0 & v[1] < L1);
    return v;
}
HARNESS(h_lat_bij)
{
    Lattice lat(Vec<int>(4), 2); int L0, L1; setup(lat, L0, L1);
    sym_check(lat.Vol == L0 * L1, "volume");
    sym_check(lat.SublatVol == 2, "sublattice-count");
    sym_check(lat.Size[0] == L0 & lat.Size[1] == L1, "size-kept");
    Vec<int> v = coord("x", "y", L0, L1);
    int i = lat.Vec2Index(v);
    sym_observe("index", i);
    sym_check(i >= 0 & i < L0 * L1, "index-range");
    Vec<int> b = lat.Index2Vec(i);
    sym_check(b[0] == v[0] & b[1] == v[1], "vec-index-vec");
    Vec<int> w = coord("x2", "y2", L0, L1);
    int k = lat.Vec2Index({w[0], w[1]});
    sym_check((k == i) == (v[0] == w[0] & v[1] == w[1]), "index-injective");
    int j = sym_int("j", 0, 1000000); sym_assume(j < L0 * L1);
    Vec<int> u = lat.Index2Vec(j);
    sym_check(u[0] >= 0 & u[0] < L0 & u[1] >= 0 & u[1] < L1, "vec-range");
    sym_check(lat.Vec2Index(u) == j, "index-vec-index");
    sym_reach("end");
}
HARNESS(h_lat_shift)
{
    Lattice lat(Vec<int>(4), 2); int L0, L1; setup(lat, L0, L1);
    Vec<int> v; v[0] = sym_int("x", -1000, 1000); v[1] = sym_int("y", -1000, 1000);
    sym_assume(v[0] > -L0 - 1 & v[0] < 2 * L0 & v[1] > -L1 - 1 & v[1] < 2 * L1);
    Vec<int> s = v; lat.Shift(s);
    sym_observe("sx", s[0]); sym_observe("sy", s[1]);
    sym_check(s[0] >= 0 & s[0] < L0 & s[1] >= 0 & s[1] < L1, "shift-range");
    sym_check((s[0] == v[0] | s[0] == v[0] + L0 | s[0] == v[0] - L0) & (s[1] == v[1] | s[1] == v[1] + L1 | s[1] == v[1] - L1), "shift-congruent");
    sym_reach("end");
}
HARNESS(h_lat_disp)
{
    Lattice lat(Vec<int>(4), 2); int L0, L1; setup(lat, L0, L1);
    Vec<int> a = coord("ax", "ay", L0, L1), b = coord("bx", "by", L0, L1), t = coord("tx", "ty", L0, L1);
    int sa = sym_int("sa", 0, 1), sb = sym_int("sb", 0, 1);
    int d = lat.CoordiIndex(Site(sa, a), Site(sb, b));
    sym_observe("disp", d);
    sym_check(d >= 0 & d < L0 * L1, "disp-range");
    sym_check((d == 0) == (a[0] == b[0] & a[1] == b[1]), "disp-zero-iff-same");
    // a + d == b on the torus
    Vec<int> dv = lat.Index2Vec(d), c = a + dv; lat.Shift(c);
    sym_check(c[0] == b[0] & c[1] == b[1], "disp-adds-back");
    // translation invariance
    Vec<int> at = a + t, bt = b + t; lat.Shift(at); lat.Shift(bt);
    sym_check(lat.CoordiIndex(Site(sa, at), Site(sb, bt)) == d, "translation-invariant");
    // reversal
    Vec<int> rv = lat.Index2Vec(lat.CoordiIndex(Site(sb, b), Site(sa, a)));
    Vec<int> z = rv + dv; lat.Shift(z);
    sym_check(z[0] == 0 & z[1] == 0, "reverse-is-negation");
    sym_check((Site(sa, a) == Site(sb, b)) == (sa == sb & a[0] == b[0] & a[1] == b[1]), "site-equality");
    sym_check((Site(sa, a) != Site(sb, b)) == !(Site(sa, a) == Site(sb, b)), "site-inequality");
    sym_reach("end");
}
