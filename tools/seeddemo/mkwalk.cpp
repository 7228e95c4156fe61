// Random walk with the real Monte Carlo updates and made-up weight tables; after every step the stated
// property of the diagram is recomputed from scratch.   usage: mkwalk PROPERTY STEPS SEED [GAMMA MAXORDER]
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <set>
#include <list>
#include <string>
#include <sstream>
#include <fstream>
#include <functional>
#include <memory>
#define private public
#define protected public
#include "utility/rng.h"
#include "utility/momentum.h"
#include "utility/complex.h"
#include "lattice/lattice.h"
#include "module/diagram/diagram.h"
#include "module/weight/component.h"
#include "module/markov/markov.h"
#undef private
#undef protected
using namespace diag; using namespace weight; using namespace mc; using namespace std;
static Diagram *Dg; static Markov *M; static Lattice *L; static RandomFactory *R;
static double ORW[MAX_ORDER + 2], WSR, PR, GGR, GWR; static long long CNT;
static unsigned long long H(unsigned long long h, long v) { h ^= (unsigned long long)v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 33); }
static long bits(double d) { long l; memcpy(&l, &d, 8); return l; }
static Complex val(unsigned long long h) { double m = 0.2 + (h >> 40) / 16777216.0, p = (H(h, 5) >> 40) / 16777216.0 * 6.283185307; return Complex(m * cos(p), m * sin(p)); }
static unsigned long long HS(unsigned long long h, const Site &s) { return H(H(H(h, s.Sublattice), s.Coordinate[0]), s.Coordinate[1]); }
static unsigned long long HE(unsigned long long h, bool g, ExtPoint *e) { if (!g || !e) return H(h, 3); return H(H(HS(h, e->R), bits(e->Tau)), e->Spin); }
static Complex gT(const Site &a, const Site &b, double ta, double tb, int sa, int sb, bool m, bool g, ExtPoint *e)
{ unsigned long long h = H(H(H(H(HS(HS(11, a), b), bits(ta)), bits(tb)), sa), sb); return val(HE(H(h, m ? 1 : g ? 2 : 0), !m && g, e)); }
static Complex wT(const Site &a, const Site &b, double ta, double tb, spin *sa, spin *sb, bool wo, bool m, bool d, bool g, ExtPoint *e)
{
    unsigned long long h = HS(HS(22, a), b); if (!d) h = H(H(h, bits(ta)), bits(tb));
    for (int i = 0; i < 2; i++) h = H(H(h, wo ? UP : sa[i]), wo ? UP : sb[i]);
    int k = d ? 3 : m ? 1 : g ? 2 : 0; return val(HE(H(h, k), k == 2, e));
}
namespace weight {
real Norm::NormFactor = 1.0;
Complex GClass::Weight(const Site &a, const Site &b, real ta, real tb, spin sa, spin sb, bool m, bool g, ExtPoint *e) const { return gT(a, b, ta, tb, sa, sb, m, g, e); }
Complex GClass::Weight(int dir, const Site &a, const Site &b, real ta, real tb, spin sa, spin sb, bool m, bool g, ExtPoint *e) const { return dir == IN ? gT(a, b, ta, tb, sa, sb, m, g, e) : gT(b, a, tb, ta, sb, sa, m, g, e); }
Complex WClass::Weight(const Site &a, const Site &b, real ta, real tb, spin *sa, spin *sb, bool wo, bool m, bool d, bool g, ExtPoint *e) const { return wT(a, b, ta, tb, sa, sb, wo, m, d, g, e); }
Complex WClass::Weight(int dir, const Site &a, const Site &b, real ta, real tb, spin *sa, spin *sb, bool wo, bool m, bool d, bool g, ExtPoint *e) const { return dir == IN ? wT(a, b, ta, tb, sa, sb, wo, m, d, g, e) : wT(b, a, tb, ta, sb, sa, wo, m, d, g, e); }
}
static Complex tabG(gLine g) { vertex a = g->nVer[IN], b = g->nVer[OUT]; return gT(a->R, b->R, a->Tau, b->Tau, a->_spin[OUT], b->_spin[IN], g->IsMeasure, g->IsGGGammaG, &Dg->UExt); }
static Complex tabW(wLine w) { vertex a = w->nVer[IN], b = w->nVer[OUT]; return wT(a->R, b->R, a->Tau, b->Tau, a->_spin, b->_spin, w->IsWorm, w->IsMeasure, w->IsDelta, w->IsWWGammaW, &Dg->UExt); }
static double mag(Complex c) { return sqrt(c.Re * c.Re + c.Im * c.Im); }
static Complex mul(Complex a, Complex b) { Complex r; r.Re = a.Re * b.Re - a.Im * b.Im; r.Im = a.Re * b.Im + a.Im * b.Re; return r; }
static bool near(Complex a, Complex b) { return fabs(a.Re - b.Re) + fabs(a.Im - b.Im) <= 1e-7 * (mag(a) + mag(b)); }
template <class T> static void initB(Bundle<T> &b, int n) { for (int i = 0; i < MAX_BUNDLE; i++) { b._component_bundle[i].Name = i; b._component_name[i] = b._component_bundle + i; } b._available_space = n; }
static void bad(const char *s) { printf("VIOLATED: %s (order %d worm %d)\n", s, Dg->Order, (int)Dg->Worm.Exist); exit(1); }
#define NEED(c, s) do { if (!(c)) bad(s); } while (0)
static int n() { return Dg->Order ? Dg->Order : 1; }
static gLine g(int i) { return Dg->G._component_name[i]; }
static wLine w(int i) { return Dg->W._component_name[i]; }
static vertex v(int i) { return Dg->Ver._component_name[i]; }
template <class T> static bool in(Bundle<T> &b, T *p, int k) { for (int i = 0; i < k; i++) if (b._component_name[i] == p) return true; return false; }
static void topo()
{
    int k = n(); NEED(Dg->Order >= 0 && Dg->Order <= M->Order, "order within the maximum");
    NEED(Dg->G._available_space == 2 * k && Dg->W._available_space == k && Dg->Ver._available_space == 2 * k, "counts match the order");
    for (int i = 0; i < 2 * k; i++) {
        NEED(g(i)->Name == i && v(i)->Name == i, "numbers");
        NEED(in(Dg->Ver, g(i)->nVer[0], 2 * k) && in(Dg->Ver, g(i)->nVer[1], 2 * k) && in(Dg->G, v(i)->nG[0], 2 * k) && in(Dg->G, v(i)->nG[1], 2 * k) && in(Dg->W, v(i)->nW, k), "links inside the diagram");
        NEED(g(i)->nVer[IN]->nG[OUT] == g(i) && g(i)->nVer[OUT]->nG[IN] == g(i), "propagator links mutual");
    }
    for (int i = 0; i < k; i++) for (int d = 0; d < 2; d++) NEED(w(i)->Name == i && in(Dg->Ver, w(i)->nVer[d], 2 * k) && w(i)->nVer[d]->nW == w(i) && w(i)->nVer[d]->Dir == d, "interaction links mutual");
}
static void mom()
{
    int k = n(); set<int> gs, ws;
    for (int i = 0; i < 2 * k; i++) { int x = g(i)->K.K; NEED(abs(x) <= MAX_K, "legal momentum"); NEED(gs.insert(x).second, "distinct momenta"); }
    for (int i = 0; i < k; i++) { int x = w(i)->K.K; NEED(x && abs(x) <= MAX_K, "legal interaction momentum"); NEED(ws.insert(abs(x)).second, "distinct interaction momenta"); }
    for (int i = 0; i < 2 * k; i++) {
        int s = v(i)->nG[IN]->K.K - v(i)->nG[OUT]->K.K + (v(i)->Dir == IN ? -1 : 1) * v(i)->nW->K.K;
        if (Dg->Worm.Exist && v(i) == Dg->Worm.Ira) s -= Dg->Worm.K.K;
        if (Dg->Worm.Exist && v(i) == Dg->Worm.Masha) s += Dg->Worm.K.K;
        NEED(s % (2 * MAX_K + 1) == 0, "momentum conserved");
    }
    for (int i = -MAX_K; i <= MAX_K; i++) NEED(Dg->GHash[i + MAX_K] == (gs.count(i) > 0), "propagator register exact");
    for (int i = 0; i <= MAX_K; i++) NEED(Dg->WHash[i] == (ws.count(i) > 0), "interaction register exact");
}
static void spins()
{
    if (!Dg->Order) return;
    for (int i = 0; i < 2 * n(); i++) NEED(g(i)->nVer[IN]->_spin[OUT] == g(i)->nVer[OUT]->_spin[IN], "propagator spin");
    for (int i = 0; i < n(); i++) {
        int s = 0; for (int d = 0; d < 2; d++) { vertex x = w(i)->nVer[d]; s += (int)x->_spin[OUT] - (int)x->_spin[IN]; if (Dg->Worm.Exist) s += ((x == Dg->Worm.Ira) - (x == Dg->Worm.Masha)) * Dg->Worm.dSpin; }
        NEED(s == 0, "interaction spin");
    }
}
static Complex full(double &sg)
{
    Complex t(1.0, 0.0); for (int i = 0; i < 2 * n(); i++) t = mul(t, tabG(g(i))); for (int i = 0; i < n(); i++) t = mul(t, tabW(w(i)));
    int q = 1; for (int i = 0; i < 2 * n(); i++) for (int j = 0; j < i; j++) q ^= v(j)->nG[OUT]->nVer[OUT]->Name > v(i)->nG[OUT]->nVer[OUT]->Name;
    sg = q ? -1 : 1; double f = sg * (Dg->Order % 2 ? -1 : 1); t.Re *= f; t.Im *= f; return t;
}
static void weights()
{
    double sg; if (!Dg->Order) { NEED(near(Dg->Weight, Complex(Norm::Weight(), 0)) && near(Dg->Phase, Complex(1, 0)), "order-0 weight"); return; }
    for (int i = 0; i < 2 * n(); i++) NEED(near(g(i)->Weight, tabG(g(i))), "propagator weight");
    for (int i = 0; i < n(); i++) NEED(near(w(i)->Weight, tabW(w(i))), "interaction weight");
    Complex t = full(sg); NEED(near(Dg->Weight, t), "diagram weight"); NEED(Dg->SignFermiLoop == sg, "fermion sign");
    double m = mag(t); NEED(near(Dg->Phase, Complex(t.Re / m, t.Im / m)), "phase");
}
static void marks()
{
    int m = 0, k = n(), ng = 0, nw = 0;
    for (int i = 0; i < 2 * k; i++) { if (g(i)->IsMeasure) { m++; NEED(Dg->MeasureGLine && Dg->GMeasure == g(i), "measuring pointer"); } if (g(i)->IsGGGammaG) { ng++; NEED(!g(i)->IsMeasure && Dg->Vin == &g(i)->nVer[IN] && Dg->Vout == &g(i)->nVer[OUT], "three-vertex ends"); } }
    for (int i = 0; i < k; i++) {
        if (w(i)->IsMeasure) { m++; NEED(!Dg->MeasureGLine && Dg->WMeasure == w(i), "measuring pointer"); }
        if (w(i)->IsWWGammaW) { nw++; NEED(!w(i)->IsMeasure && Dg->Vin == &w(i)->nVer[IN] && Dg->Vout == &w(i)->nVer[OUT], "three-vertex ends"); }
        if (w(i)->IsDelta) NEED(Dg->Order && !w(i)->IsMeasure && !w(i)->IsWWGammaW && w(i)->nVer[0]->Tau == w(i)->nVer[1]->Tau, "instantaneous interaction");
        bool on = false; if (Dg->Worm.Exist) for (int d = 0; d < 2; d++) on |= w(i)->nVer[d] == Dg->Worm.Ira || w(i)->nVer[d] == Dg->Worm.Masha;
        NEED((w(i)->IsWorm != 0) == on, "worm marks");
    }
    NEED(m == 1, "one measuring line");
    NEED(ng == (Dg->HasGammaGW == 1) && nw == (Dg->HasGammaGW == 2), "one three-vertex line");
    if (Dg->Worm.Exist) NEED(Dg->Worm.Ira != Dg->Worm.Masha, "worm ends distinct");
}
static string dump()
{
    ostringstream o; o.precision(17); int k = n(); o << Dg->Order << ' ' << Dg->Weight.Re << ' ' << Dg->Weight.Im << ' ' << Dg->Phase.Re << ' ' << Dg->Phase.Im << ' ' << Dg->SignFermiLoop << ' ' << Dg->Worm.Exist;
    o << ' ' << Dg->G._available_space << Dg->W._available_space << Dg->Ver._available_space;
    if (Dg->Worm.Exist) o << ' ' << Dg->Worm.Ira->Name << ' ' << Dg->Worm.Masha->Name << ' ' << Dg->Worm.K.K << ' ' << Dg->Worm.dSpin << ' ' << Dg->Worm.Weight;
    o << ' ' << Dg->HasGammaGW << Dg->MeasureGLine << (void *)Dg->GMeasure << (void *)Dg->WMeasure; 
    if (Dg->HasGammaGW) { o << (void *)Dg->Vin << (void *)Dg->Vout << Dg->UExt.R.Sublattice << ' ' << Dg->UExt.R.Coordinate[0] << ' ' << Dg->UExt.R.Coordinate[1] << ' ' << Dg->UExt.Tau << Dg->UExt.Spin; }
    for (int i = 0; i < 2 * k; i++) {
        o << "\nG " << (void *)g(i) << g(i)->Name << ' ' << g(i)->K.K << g(i)->IsMeasure << g(i)->IsGGGammaG << (void *)g(i)->nVer[0] << (void *)g(i)->nVer[1]; if (Dg->Order) o << g(i)->Weight.Re << ' ' << g(i)->Weight.Im;
        o << "\nV " << (void *)v(i) << v(i)->Name << v(i)->Dir << (void *)v(i)->nG[0] << (void *)v(i)->nG[1] << (void *)v(i)->nW; if (Dg->Order) o << ' ' << v(i)->R.Sublattice << ' ' << v(i)->R.Coordinate[0] << ' ' << v(i)->R.Coordinate[1] << ' ' << v(i)->Tau << v(i)->_spin[0] << v(i)->_spin[1];
    }
    for (int i = 0; i < k; i++) { o << "\nW " << (void *)w(i) << w(i)->Name << ' ' << w(i)->K.K << w(i)->IsMeasure << w(i)->IsWWGammaW << w(i)->IsDelta << w(i)->IsWorm << (void *)w(i)->nVer[0] << (void *)w(i)->nVer[1]; if (Dg->Order) o << w(i)->Weight.Re << ' ' << w(i)->Weight.Im; }
    for (int i = 0; i <= 2 * MAX_K; i++) if (Dg->GHash[i]) o << " g" << i; for (int i = 0; i <= MAX_K; i++) if (Dg->WHash[i]) o << " w" << i;
    return o.str();
}
static void call(int op)
{
    switch (op) {
#define O(i, f) case i: M->f(); break;
    O(0, CreateWorm) O(1, DeleteWorm) O(2, MoveWormOnG) O(3, MoveWormOnW) O(4, Reconnect) O(5, AddInteraction) O(6, DeleteInteraction) O(7, AddDeltaInteraction)
    O(8, DeleteDeltaInteraction) O(9, ChangeTauOnVertex) O(11, ChangeRLoop) O(12, ChangeMeasureFromGToW) O(13, ChangeMeasureFromWToG)
    O(14, ChangeDeltaToContinuous) O(15, ChangeContinuousToDelta) O(17, JumpToOrder0) O(18, JumpBackToOrder1) O(19, JumpToGGGammaG)
    O(20, JumpFromGGGammaGToG) O(21, JumpToWWGammaW) O(22, JumpFromWWGammaWToW)
    }
}
static double target()
{
    double t = mag(Dg->Weight) * ORW[Dg->Order]; if (Dg->Worm.Exist) t *= WSR * Dg->Worm.Weight; if (!Dg->MeasureGLine) t *= PR;
    if (Dg->HasGammaGW) t *= Dg->MeasureGLine ? GGR : GWR; return t;
}
static double propose(int op, int k, int &back)
{
    double pt = 1.0 / M->Beta, ps = 1.0 / (double)(L->Vol * L->SublatVol); back = op;
    switch (op) {
    case 0: back = 1; return 2.0 * k; case 1: back = 0; return 1.0 / (2.0 * k); case 5: back = 6; return 1 / (pt * pt); case 6: back = 5; return pt * pt;
    case 7: back = 8; return 1 / pt; case 8: back = 7; return pt; case 12: back = 13; return 0.5; case 13: back = 12; return 2; case 14: back = 15; return 1 / pt; case 15: back = 14; return pt;
    case 17: back = 18; return ps * pt * pt * 0.25; case 18: back = 17; return 4 / (ps * pt * pt); case 19: back = 20; return 2.0 * k / pt; case 20: back = 19; return pt / (2.0 * k);
    case 21: back = 22; return k / (pt * ps); case 22: back = 21; return pt * ps / k;
    }
    return 1;
}
static int OPI[23];   // operation numbers of the calls, in the order of the Operations enum
static double acc() { double a = 0; for (int i = 0; i < NUpdates; i++) for (int o = 0; o < MAX_ORDER; o++) a += M->Accepted[i][o]; return a; }
static vector<char> SD, SM; static string S0;
static void save() { SD.assign((char *)Dg, (char *)(Dg + 1)); SM.assign((char *)M, (char *)(M + 1)); }
static void load() { memcpy((void *)Dg, SD.data(), SD.size()); memcpy((void *)M, SM.data(), SM.size()); }
static void balance(int op)
{
    static vector<unsigned> sc; save(); auto s0 = R->_eng.s; int back; double t0 = target(), r = propose(op, n(), back);
    demo_engine::log().clear(); call(op); vector<unsigned> lg = demo_engine::log(); vector<char> ed((char *)Dg, (char *)(Dg + 1)), em((char *)M, (char *)(M + 1)); auto s1 = R->_eng.s;
    if (!lg.empty()) {
        auto tryu = [&](double u) { load(); sc = lg; sc.back() = (unsigned)(int)((u - 0.5) * 4294967296.0 > 2147483647.0 ? 2147483647.0 : (u - 0.5) * 4294967296.0); demo_engine::script() = &sc; demo_engine::log().clear(); double a0 = acc(); call(op); demo_engine::script() = nullptr; return acc() > a0 && demo_engine::log().size() == lg.size(); };
        bool same = tryu(0.0); double tg = same ? target() : 0; // does the last draw only decide, or does it also shape the proposal?
        for (int i = 1; same && i < 12; i++) same = tryu(i / 4294967296.0) && fabs(tg - target()) < 1e-12 * tg;
        if (same && tryu(0.0)) {
            double p = target() / t0 * r * M->ProbofCall[back] / M->ProbofCall[op]; if (p > 1) p = 1;
            double lo = 0, hi = 1; if (tryu(0.9999999999)) lo = hi; else for (int i = 0; i < 40; i++) { double m = (lo + hi) / 2; if (tryu(m)) lo = m; else hi = m; }
            if (fabs(lo - p) > 1e-5) { load(); printf("update %d accepted with probability %g, balance needs %g\n", op, lo, p); bad("detailed balance"); }
        }
    }
    memcpy((void *)Dg, ed.data(), ed.size()); memcpy((void *)M, em.data(), em.size()); R->_eng.s = s1; (void)s0;
}
int main(int c, char **a)
{
    string P = a[1]; int steps = atoi(a[2]), seed = atoi(a[3]); bool gam = c > 4 ? atoi(a[4]) : 1; int mo = c > 5 ? atoi(a[5]) : 3;
    Dg = (Diagram *)calloc(1, sizeof(Diagram)); M = (Markov *)calloc(1, sizeof(Markov)); L = (Lattice *)calloc(1, sizeof(Lattice)); R = new RandomFactory(seed);
    L->Dimension = 2; L->Size[0] = 4; L->Size[1] = 3; L->Vol = 12; L->SublatVol = 2;
    initB(Dg->G, 2); initB(Dg->W, 1); initB(Dg->Ver, 2); Dg->Lat = L; Dg->Order = 1;
    GLine *G = Dg->G._component_bundle; WLine *W = Dg->W._component_bundle; Vertex *V = Dg->Ver._component_bundle;
    for (int i = 0; i < 2; i++) {
        V[i].nG[OUT] = &G[i]; V[1 - i].nG[IN] = &G[i]; G[i].nVer[IN] = &V[i]; G[i].nVer[OUT] = &V[1 - i]; V[i].nW = W; V[i].Dir = i; W->nVer[i] = &V[i];
        V[i]._spin[0] = V[i]._spin[1] = UP; V[i].R = Site(); V[i].R.Sublattice = 0; V[i].Tau = 0.3 + 0.5 * i; G[i].K.K = 5 + 2 * i; Dg->GHash[G[i].K.K + MAX_K] = true;
    }
    W->K.K = 2; if ((V[0].nG[IN]->K.K - V[0].nG[OUT]->K.K - W->K.K)) W->K.K = -2; Dg->WHash[2] = true; 
    G[0].IsMeasure = true; Dg->MeasureGLine = true; Dg->GMeasure = &G[0]; Dg->Worm.Weight = 1.0; Dg->UExt.Spin = UP;
    M->Diag = Dg; M->Worm = &Dg->Worm; M->UExt = &Dg->UExt; M->Lat = L; M->RNG = R; M->G = (GClass *)malloc(8); M->W = (WClass *)malloc(8); Dg->GWeight = M->G; Dg->WWeight = M->W;
    M->Order = mo; M->runGamma3 = gam; M->Counter = &CNT; M->Beta = 0.9; M->OrderReWeight = ORW; M->WormSpaceReweight = &WSR; M->PolarReweight = &PR; M->GammaGReweight = &GGR; M->GammaWReweight = &GWR;
    for (int i = 0; i < MAX_ORDER + 2; i++) ORW[i] = 1.0 + 0.3 * i; WSR = 0.4; PR = 1.7; GGR = 0.8; GWR = 0.13;
    for (int i = 0; i < NUpdates; i++) M->ProbofCall[i] = 0.02 + 0.001 * i;
    for (int i = 0; i < 2; i++) G[i].Weight = tabG(&G[i]); W->Weight = tabW(W); double sg; Dg->Weight = full(sg); Dg->SignFermiLoop = sg; double m = mag(Dg->Weight); Dg->Phase = Complex(Dg->Weight.Re / m, Dg->Weight.Im / m);
    demo_engine own(seed + 77);
    for (int s = 0; s < steps; s++) {
        int op = own() % 23; if (op == 10 || op == 16) continue; if (!gam && op > 18) continue;
        if (P == "P06") { S0 = dump(); double a0 = acc(); call(op); if (acc() == a0 && dump() != S0) { printf("update %d\n%s\n---\n%s\n", op, S0.c_str(), dump().c_str()); bad("rejected update changed the diagram"); } continue; }
        if (P == "P05") { balance(op); continue; }
        call(op);
        if (P == "P01") topo(); else if (P == "P02") mom(); else if (P == "P03") spins(); else if (P == "P04") weights(); else if (P == "P07") marks();
        if (s % 1000 == 0) { topo(); }
    }
    printf("%s held for %d steps, accepted %.0f\n", a[1], steps, acc()); return 0;
}
