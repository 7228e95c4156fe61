// Symbolic diagram + Markov object shared by the update harnesses.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <new>
#include <map>
#include <set>
#include <list>
#include <vector>
#include <string>
#include <random>
#include <sstream>
#include <iostream>
#include <fstream>
#include <functional>
#include <memory>
#include <initializer_list>
#define private public
#define protected public
#include "utility/rng.h"
#include "utility/momentum.h"
#include "utility/complex.h"
#include "lattice/lattice.h"
#include "module/diagram/diagram.h"
#include "module/weight/component.h"
#include "module/markov/markov.h"
#undef private
#undef protected
#include "symrt.h"
using namespace diag; using namespace weight; using namespace mc;
#define NOINL static __attribute__((noinline))
static const int KM = 2 * MAX_K + 1, MAXN = 4;
static Diagram *D_; static Markov *M_; static Lattice *L_; static RandomFactory *RNG_;
static int N_;                        // order of the pre-state
static int P_[2 * MAXN];              // G_i runs from vertex i to vertex P_[i]
static double ORW[MAX_ORDER + 2], WSR, PR, GGR, GWR; static long long CNT;

// ---------------------------------------------------------------- weight tables: uninterpreted functions of what they may depend on
NOINL Complex mkWeight(const char *nm, long *a, int n)
{
#ifdef SYM_NATIVE
    double m = 0.2 + sym_ufd(nm, n, a); a[n] = 77; double ph = 6.283185307 * sym_ufd(nm, n + 1, a);
    return Complex(m * cos(ph), m * sin(ph));
#else
    return Complex(sym_ufd(nm, n, a), 0.0);
#endif
}
static long sel(bool c, long a, long b) { return c ? a : b; }
static int put(long *a, int i, const Site &r) { a[i++] = r.Sublattice; a[i++] = r.Coordinate[0]; a[i++] = r.Coordinate[1]; return i; }
#ifdef OWN_TABLES
static Complex gTable(const Site &, const Site &, double, double, int, int, bool, bool, ExtPoint *);
static Complex wTable(const Site &, const Site &, double, double, spin *, spin *, bool, bool, bool, bool, ExtPoint *);
#else
NOINL Complex gTable(const Site &ri, const Site &ro, double ti, double to, int si, int so, bool meas, bool gam, ExtPoint *e)
{
    long a[24]; int i = put(a, 0, ri); i = put(a, i, ro); a[i++] = sym_dbits(ti); a[i++] = sym_dbits(to); a[i++] = si; a[i++] = so;
    long kind = meas ? 1 : gam ? 2 : 0; a[i++] = kind;
    if (e) { bool g = kind == 2; a[i++] = sel(g, e->R.Sublattice, 0); a[i++] = sel(g, e->R.Coordinate[0], 0); a[i++] = sel(g, e->R.Coordinate[1], 0); a[i++] = sel(g, sym_dbits(e->Tau), 0); a[i++] = sel(g, e->Spin, 0); }
    else for (int k = 0; k < 5; k++) a[i++] = 0;
    return mkWeight("G", a, i);
}
NOINL Complex wTable(const Site &ri, const Site &ro, double ti, double to, spin *si, spin *so, bool worm, bool meas, bool delta, bool gam, ExtPoint *e)
{
    long a[28]; int i = put(a, 0, ri); i = put(a, i, ro);
    a[i++] = sel(delta, 0, sym_dbits(ti)); a[i++] = sel(delta, 0, sym_dbits(to));
    for (int d = 0; d < 2; d++) { a[i++] = sel(worm, UP, si[d]); a[i++] = sel(worm, UP, so[d]); }
    long kind = delta ? 3 : meas ? 1 : gam ? 2 : 0; a[i++] = kind;
    if (e) { bool g = kind == 2; a[i++] = sel(g, e->R.Sublattice, 0); a[i++] = sel(g, e->R.Coordinate[0], 0); a[i++] = sel(g, e->R.Coordinate[1], 0); a[i++] = sel(g, sym_dbits(e->Tau), 0); a[i++] = sel(g, e->Spin, 0); }
    else for (int k = 0; k < 5; k++) a[i++] = 0;
    return mkWeight("W", a, i);
}
#endif
namespace weight {
real Norm::NormFactor = 1.0;
Complex GClass::Weight(const Site &ri, const Site &ro, real ti, real to, spin si, spin so, bool m, bool g, ExtPoint *e) const { return gTable(ri, ro, ti, to, si, so, m, g, e); }
Complex GClass::Weight(int dir, const Site &r1, const Site &r2, real t1, real t2, spin s1, spin s2, bool m, bool g, ExtPoint *e) const
{
    if (dir == IN) return gTable(r1, r2, t1, t2, s1, s2, m, g, e);
    return gTable(r2, r1, t2, t1, s2, s1, m, g, e);
}
Complex WClass::Weight(const Site &ri, const Site &ro, real ti, real to, spin *si, spin *so, bool wo, bool m, bool d, bool g, ExtPoint *e) const { return wTable(ri, ro, ti, to, si, so, wo, m, d, g, e); }
Complex WClass::Weight(int dir, const Site &r1, const Site &r2, real t1, real t2, spin *s1, spin *s2, bool wo, bool m, bool d, bool g, ExtPoint *e) const
{
    if (dir == IN) return wTable(r1, r2, t1, t2, s1, s2, wo, m, d, g, e);
    return wTable(r2, r1, t2, t1, s2, s1, wo, m, d, g, e);
}
}
// ---------------------------------------------------------------- numeric helpers
static double pos(const char *n) { return sym_modpart(sym_double(n)); }
NOINL bool cdeq(const Complex &a, const Complex &b)
{
#ifdef SYM_NATIVE
    double s = fabs(a.Re) + fabs(a.Im) + fabs(b.Re) + fabs(b.Im); return fabs(a.Re - b.Re) + fabs(a.Im - b.Im) <= 1e-9 * s;
#else
    return sym_deq(a.Re, b.Re) & sym_deq(a.Im, b.Im);
#endif
}
static bool deq(double a, double b)
{
#ifdef SYM_NATIVE
    return fabs(a - b) <= 1e-9 * (fabs(a) + fabs(b));
#else
    return sym_deq(a, b);
#endif
}
static double cmod(const Complex &c)
{
#ifdef SYM_NATIVE
    return sqrt(c.Re * c.Re + c.Im * c.Im);
#else
    return sym_modpart(c.Re);
#endif
}
static Complex cphase(const Complex &c)
{
#ifdef SYM_NATIVE
    double m = cmod(c); return Complex(c.Re / m, c.Im / m);
#else
    return Complex(sym_phasepart(c.Re), 0.0);
#endif
}
// ---------------------------------------------------------------- pre-state
static int NG() { return 2 * N_; }
template <class T> static void initBundle(Bundle<T> &b, int n)
{
    for (int i = 0; i < MAX_BUNDLE; i++) { b._component_bundle[i].Name = i; b._component_name[i] = b._component_bundle + i; }
    b._available_space = n;
}
static Site symSite(const char *n)
{
    Site s; 
    s.Sublattice = sym_int(n, 0, L_->SublatVol - 1); s.Coordinate[0] = sym_int(n, 0, L_->Size[0] - 1); s.Coordinate[1] = sym_int(n, 0, L_->Size[1] - 1);
    return s;
}
NOINL void setIf(vertex *d, bool c, vertex v) { if (c) *d = v; }
NOINL void setIfG(gLine *d, bool c, gLine v) { if (c) *d = v; }
NOINL void setIfW(wLine *d, bool c, wLine v) { if (c) *d = v; }
NOINL void setIfP(vertex **d, bool c, vertex *v) { if (c) *d = v; }
NOINL double pickD(bool c, double a, double b) { return c ? a : b; }
static int mom(int v) { return v; }
static bool zmod(int s) { return sym_modzero(s, KM); }
static int parity(const int *p, int n) { int q = 0; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) q ^= p[j] > p[i]; return q; }  // 1: odd

static Complex tabG(gLine g) { vertex a = g->nVer[IN], b = g->nVer[OUT]; return gTable(a->R, b->R, a->Tau, b->Tau, a->_spin[OUT], b->_spin[IN], g->IsMeasure, g->IsGGGammaG, &D_->UExt); }
static Complex tabW(wLine w) { vertex a = w->nVer[IN], b = w->nVer[OUT]; return wTable(a->R, b->R, a->Tau, b->Tau, a->_spin, b->_spin, w->IsWorm, w->IsMeasure, w->IsDelta, w->IsWWGammaW, &D_->UExt); }

static void pickPerm(int n)
{
    int used = 0;
    for (int i = 0; i < n; i++) {
        int r = sym_pick("perm", 0, n - 1 - i), v = 0;
        for (;; v++) { if (used >> v & 1) continue; if (r-- == 0) break; }
        P_[i] = v; used |= 1 << v;
    }
}
static void alloc()
{
    D_ = (Diagram *)malloc(sizeof(Diagram)); M_ = (Markov *)malloc(sizeof(Markov)); L_ = (Lattice *)malloc(sizeof(Lattice));
    RNG_ = (RandomFactory *)malloc(sizeof(RandomFactory));
    NATIVE_ONLY(memset((void *)D_, 0, sizeof(Diagram)); memset((void *)M_, 0, sizeof(Markov)); new (RNG_) RandomFactory(1);)
    L_->Dimension = 2; L_->Size[0] = 9; L_->Size[1] = 8; L_->Vol = 72; L_->SublatVol = 7;
    sym_region(D_->GHash, 1, KM, 1, 0, "ghash"); sym_region(D_->WHash, 1, MAX_K + 1, 1, 0, "whash");
}
// worm: 0/1 given; maxOrder: configured maximum
static void buildState(int order, int worm, int maxOrder, bool gammaOn)
{
    N_ = order ? order : 1;
    alloc();
    pickPerm(2 * N_);
    if (order == 0 && parity(P_, 2) == 0) sym_assume(false);
    initBundle(D_->G, 2 * N_); initBundle(D_->W, N_); initBundle(D_->Ver, 2 * N_);
    D_->Lat = L_; D_->Order = order; 
    GLine *G = D_->G._component_bundle; WLine *W = D_->W._component_bundle; Vertex *V = D_->Ver._component_bundle;
    for (int i = 0; i < 2 * N_; i++) {
        V[i].nG[OUT] = &G[i]; V[P_[i]].nG[IN] = &G[i]; G[i].nVer[IN] = &V[i]; G[i].nVer[OUT] = &V[P_[i]];
        V[i].nW = &W[i / 2]; V[i].Dir = i % 2; W[i / 2].nVer[i % 2] = &V[i];
        int s = sym_int("spin", 0, 1); V[i]._spin[OUT] = (spin)s; V[P_[i]]._spin[IN] = (spin)s;
        V[i].R = symSite("R");
        V[i].Tau = sym_double("tau");
        G[i].K.K = sym_int("gk", -MAX_K, MAX_K);
    }
    // worm
    WormClass &wm = D_->Worm; wm.Exist = worm; wm.Ira = wm.Masha = nullptr; wm.K.K = 0; wm.dSpin = 0; wm.Weight = 1.0;
    int ira = 0, masha = 0;
    if (worm) {
        masha = sym_pick("masha", 0, sym_param("ANYMASHA", 0) ? N_ - 1 : 0) * 2 + 1;
        ira = sym_pick("ira", 0, 2 * N_ - 1); if (ira == masha) sym_assume(false);
        wm.Ira = &V[ira]; wm.Masha = &V[masha]; wm.K.K = sym_int("wk", -MAX_K, MAX_K); wm.dSpin = sym_int("dspin", 0, 1) * 2 - 1;
    }
    // flags
    int pm = sym_param("PICKM", 0);
    int m = pm ? sym_pick("measure", 0, 3 * N_ - 1) : sym_int("measure", 0, 3 * N_ - 1);
    int fg = sym_param("GK", -1), gk = 0, gl = 0; // FIXED kind of three-vertex line, or any
    if (gammaOn) { gk = fg >= 0 ? fg : sym_int("gamma", 0, 2); gl = sym_param("PICKG", 0) ? sym_pick("gammaline", 0, 2 * N_ - 1) : sym_int("gammaline", 0, 2 * N_ - 1); }
    if (order == 0) sym_assume(gk == 0);
    D_->HasGammaGW = gk;
    sym_assume(gk != 2 | gl < N_);
    D_->MeasureGLine = m < 2 * N_; D_->GMeasure = nullptr; D_->WMeasure = nullptr; D_->Vin = D_->Vout = nullptr;
    D_->UExt.R = symSite("extR"); D_->UExt.Tau = sym_double("exttau"); D_->UExt.Spin = UP;
    for (int i = 0; i < 2 * N_; i++) {
        G[i].IsMeasure = m == i; setIfG(&D_->GMeasure, m == i, &G[i]);
        bool g = gk == 1 & gl == i; G[i].IsGGGammaG = g; setIfP(&D_->Vin, g, &G[i].nVer[IN]); setIfP(&D_->Vout, g, &G[i].nVer[OUT]);
        sym_assume(!(g & (m == i)));
    }
    for (int j = 0; j < N_; j++) {
        bool me = m == 2 * N_ + j, g = gk == 2 & gl == j, de = sym_bool("delta");
        W[j].IsMeasure = me; setIfW(&D_->WMeasure, me, &W[j]); W[j].IsWWGammaW = g;
        setIfP(&D_->Vin, g, &W[j].nVer[IN]); setIfP(&D_->Vout, g, &W[j].nVer[OUT]);
        W[j].IsDelta = de; sym_assume(!(de & (me | g)) & !(me & g));
        if (order == 0) sym_assume(!de); // with no diagram drawn the interaction slot is a continuous one
        V[2 * j + 1].Tau = pickD(de, V[2 * j].Tau, V[2 * j + 1].Tau);
        W[j].IsWorm = worm && (ira / 2 == j || masha / 2 == j);
        W[j].K.K = sym_int("wlk", -MAX_K, MAX_K); sym_assume(W[j].K.K != 0);
        for (int l = 0; l < j; l++) sym_assume(W[j].K.K != W[l].K.K & W[j].K.K != -W[l].K.K);
        int s = (int)V[2 * j]._spin[OUT] - (int)V[2 * j]._spin[IN] + (int)V[2 * j + 1]._spin[OUT] - (int)V[2 * j + 1]._spin[IN];
        if (worm) s += ((ira / 2 == j) - (masha / 2 == j)) * wm.dSpin;
        if (order) sym_assume(s == 0);
    }
    for (int i = 0; i < 2 * N_; i++) {
        for (int l = 0; l < i; l++) sym_assume(G[i].K.K != G[l].K.K);
        int s = V[i].nG[IN]->K.K - V[i].nG[OUT]->K.K + (V[i].Dir == IN ? -1 : 1) * V[i].nW->K.K;
        if (worm && i == ira) s -= wm.K.K;
        if (worm && i == masha) s += wm.K.K;
        sym_assume(zmod(s));
        D_->GHash[G[i].K.K + MAX_K] = true;
    }
    for (int j = 0; j < N_; j++) D_->WHash[sel(W[j].K.K < 0, -W[j].K.K, W[j].K.K)] = true;
    // physical reachability facts used by detailed balance (each is checked to be preserved)
    if (sym_param("LOCAL", 0)) {
        if (order) for (int i = 0; i < 2 * N_; i++) sym_assume(V[i].R == V[P_[i]].R);
        for (int i = 0; i < 2 * N_; i++) sym_assume(!(gk == 1 & gl == i) | V[i].R == D_->UExt.R);
        if (worm && ira / 2 == masha / 2) { int si = (int)V[ira]._spin[OUT] - (int)V[ira]._spin[IN]; sym_assume(si != wm.dSpin); }
    }
    // parameters
    M_->Diag = D_; M_->Worm = &D_->Worm; M_->UExt = &D_->UExt; M_->Lat = L_; M_->RNG = RNG_; M_->G = (GClass *)malloc(8); M_->W = (WClass *)malloc(8);
    D_->GWeight = M_->G; D_->WWeight = M_->W;
    M_->Order = maxOrder; M_->runGamma3 = gammaOn; M_->Counter = &CNT; CNT = 0;
    M_->Beta = pos("beta"); M_->OrderReWeight = ORW; M_->WormSpaceReweight = &WSR; M_->PolarReweight = &PR; M_->GammaGReweight = &GGR; M_->GammaWReweight = &GWR;
    for (int i = 0; i <= N_ + 1; i++) ORW[i] = pos("orw");
    WSR = pos("wsr"); PR = pos("pr"); GGR = pos("ggr"); GWR = pos("gwr");
    for (int i = 0; i < NUpdates; i++) { M_->ProbofCall[i] = pos("pcall"); M_->SumofProbofCall[i] = 0; }
    for (int i = 0; i < NUpdates; i++) for (int o = 0; o < MAX_ORDER; o++) { M_->Accepted[i][o] = 0; M_->Proposed[i][o] = 0; }
    // weights
    for (int i = 0; i < 2 * N_; i++) G[i].Weight = tabG(&G[i]);
    for (int j = 0; j < N_; j++) W[j].Weight = tabW(&W[j]);
    D_->SignFermiLoop = parity(P_, 2 * N_) ? 1.0 : -1.0;
    if (order == 0) { D_->SignFermiLoop = 1.0; D_->Weight = Norm::Weight(); }
    else {
        Complex w(1.0, 0.0);
        for (int i = 0; i < 2 * N_; i++) w = w * G[i].Weight;
        for (int j = 0; j < N_; j++) w = w * W[j].Weight;
        D_->Weight = w * D_->SignFermiLoop * (order % 2 ? -1.0 : 1.0);
    }
    D_->Phase = cphase(D_->Weight);
}
