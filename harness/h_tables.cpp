// The container of all weight tables: built for the run's parameters, filled from the right entries, saved under the right names.
#include "shim/realstr.h"
#include <cstring>
#include <cstdlib>
#include "utility/dictionary.h"
#include "module/weight/weight.h"
#include "module/weight/component.h"
#include "module/weight/gamma3.h"
#include "module/parameter/parameter.h"
#include "symrt.h"
using namespace weight;
using namespace para;
namespace Shim { File file[8]; int files; }
typedef weight::Weight Tables;
static bool eqd(double a, double b) { return sym_is_native() ? fabs(a - b) <= 1e-9 * (1 + fabs(a) + fabs(b)) : sym_deq(a, b); }
static bool eqd(const Complex &a, const Complex &b) { return eqd(a.Re, b.Re) & eqd(a.Im, b.Im); }
static double fin(const char *n) { double d = sym_double(n); sym_assume(d >= -1e6 & d <= 1e6); return d; }
static void putFile(const char *name, const Dictionary &d, bool big) { Shim::File &f = Shim::open(name); f.d = d; f.big = big; f.exists = true; }
static ParaMC *para_(double beta, int l0, int bins, int tiny, int order)
{
    ParaMC *p = (ParaMC *)calloc(1, sizeof(ParaMC)); Vec<int> sz; sz[0] = l0; sz[1] = 1; new (&p->Lat) Lattice(); p->Lat.Initialize(sz, 1);
    p->Beta = beta; p->MaxTauBin = bins; p->MaxTauBinTiny = tiny; p->Order = order; p->NSublat = 1; return p;
}
static void basisFiles(double fermi, double bose)
{
    for (int i = 0; i < 2; i++) {
        Dictionary d; d["Beta"] = (real)(i ? bose : fermi); d["MaxTauBin"] = (real)2; d["Number"] = (real)1;
        std::vector<basis> b; b.push_back(basis(2, i ? 5.0 : 7.0)); d["Basis"] = b; putFile(i ? "./BoseBasis.dat" : "./FermiBasis.dat", d, false);
    }
}
template <typename A> static void fillc(A &a, const char *n) { for (uint i = 0; i < a.GetSize(); i++) a._Data[i] = Complex(i, 2.0 * i); uint at = a.GetSize() > 3 ? 3 : 0; double x = fin(n); a._Data[at] = Complex(x, fin(n)); }
template <typename A> struct Tab { Complex *v; uint n, dim, sh[8]; Complex *at;
    Tab(A &a) { n = a.GetSize(); dim = a.GetDim(); at = a._Data; for (uint i = 0; i < dim; i++) sh[i] = a.GetShape()[i]; v = new Complex[n]; for (uint i = 0; i < n; i++) v[i] = a._Data[i]; }
    bool same(A &a) const { bool ok = a.GetSize() == n; for (uint i = 0; i < dim; i++) ok = ok & a.GetShape()[i] == sh[i]; if (!ok) return false; for (uint i = 0; i < n; i++) ok = ok & eqd(a._Data[i], v[i]); return ok; }
    bool kept(A &a) const { return a._Data == at & same(a); } };
template <typename A> static Tab<A> *tab(A &a) { return new Tab<A>(a); }
static Dictionary gammaWFile(int V, int M, uint RS, uint TS, Complex *c)
{
    Dictionary d; const char *nm[5] = {"RSqueeze", "RSymFactor", "TauSqueeze", "TauSymFactor", "TauFlag"};
    for (int i = 0; i < 5; i++) { std::vector<int> v; for (int j = 0; j < (i < 2 ? V * V : M * M); j++) v.push_back(i + 1); d[nm[i]] = v; }
    d["RSize"] = RS; d["TauSize"] = TS; uint sh[3] = {2, RS, TS}; d["SmoothT"] = Python::ArrayObject(c, sh, 3); return d;
}
template <typename M> static bool mapOk(const M &m, double beta, int l0, int bins, int sym) { return eqd(m.Beta, beta) & eqd(m._dBetaInverse * beta, (double)bins) & (m.Lat.Vol == l0) & ((int)m.MaxTauBin == bins) & ((int)m.Symmetry == sym) & (m._TauSymmetryFactor == sym); }
static double BETA = 1.5, OLD = 0.75;
static void anyBeta() { BETA = sym_double("beta"); sym_assume(BETA >= 0.1 & BETA <= 100); }
// the temperature of a basis file: the run's own, or one that differs by more than rounding
static double basisBeta(const char *n, bool other) { if (!other) return BETA; double b = sym_double(n); sym_assume(b - BETA > 1e-9 | BETA - b > 1e-9); return b; }
struct All { Tab<WeightArray<6>> *g, *w; Tab<WeightArray<5>> *d; Tab<WeightArray<7>> *s, *p; Tab<WeightArray<4>> *gg, *ga; Tab<WeightArray<3>> *ww, *wa; double n[8]; GammaGClass *G; GammaWClass *W; };
static void norms(Tables &t, double *n) { n[0] = t.Sigma->Estimator._Norm; n[1] = t.Sigma->Estimator._NormAccu; n[2] = t.Polar->Estimator._Norm; n[3] = t.Polar->Estimator._NormAccu; n[4] = t.GammaG ? t.GammaG->_Norm : 0; n[5] = t.GammaG ? t.GammaG->_NormAccu : 0; n[6] = t.GammaW ? t.GammaW->_Norm : 0; n[7] = t.GammaW ? t.GammaW->_NormAccu : 0; }
static void all(Tables &t, All &a)
{
    a.g = tab(t.G->_SmoothTWeight); a.w = tab(t.W->_SmoothTWeight); a.d = tab(t.W->_DeltaTWeight); a.s = tab(t.Sigma->Estimator._WeightAccu); a.p = tab(t.Polar->Estimator._WeightAccu); norms(t, a.n); a.G = t.GammaG; a.W = t.GammaW;
    if (t.GammaG) { a.gg = tab(t.GammaG->_Weight); a.ga = tab(t.GammaG->_WeightAccu); } if (t.GammaW) { a.ww = tab(t.GammaW->_Weight); a.wa = tab(t.GammaW->_WeightAccu); }
}
static void fill(Tables &t, const char *n)
{
    fillc(t.G->_SmoothTWeight, n); fillc(t.W->_SmoothTWeight, n); fillc(t.W->_DeltaTWeight, n); fillc(t.Sigma->Estimator._WeightAccu, n); fillc(t.Polar->Estimator._WeightAccu, n);
    t.Sigma->Estimator._NormAccu = fin(n); t.Polar->Estimator._NormAccu = fin(n); t.Sigma->Estimator._Norm = fin(n); t.Polar->Estimator._Norm = fin(n);
    if (t.GammaG) { fillc(t.GammaG->_Weight, n); fillc(t.GammaG->_WeightAccu, n); t.GammaG->_NormAccu = fin(n); t.GammaG->_Norm = fin(n); }
    if (t.GammaW) { fillc(t.GammaW->_Weight, n); fillc(t.GammaW->_WeightAccu, n); t.GammaW->_NormAccu = fin(n); t.GammaW->_Norm = fin(n); }
}
static Tables *make(ParaMC *p, bool sym, bool gam, const char *n)
{
    Tables *t = new Tables(sym); t->_AllocateGW(*p); t->_AllocateSigmaPolar(*p);
    if (gam) { t->_BoseBasis.assign(1, basis(2, 1.0)); t->_AllocateGammaGW(*p); Complex c[8]; t->GammaW->WeightFromDict(gammaWFile(p->Lat.Vol, p->MaxTauBinTiny, 1, 2, c)); }
    fill(*t, n); return t;
}
// every part is saved under its own name and only what is asked for; loading puts each into its own table, built for the parameters given, and leaves the rest alone
HARNESS(h_tab_load)
{
    int sym = sym_pick("symmetric", 0, 1), f = sym_param("FLAG", 0), used = sym_param("USED", 0);
    anyBeta(); ParaMC *p = para_(BETA, 2, 2, 3, 2); Tables *a = make(p, sym, true, "a"); All x; all(*a, x);
    Dictionary d = a->ToDict(f);
    { bool ok = x.g->kept(a->G->_SmoothTWeight) & x.w->kept(a->W->_SmoothTWeight) & x.d->kept(a->W->_DeltaTWeight) & x.s->kept(a->Sigma->Estimator._WeightAccu) & x.p->kept(a->Polar->Estimator._WeightAccu) & x.gg->kept(a->GammaG->_Weight) & x.ga->kept(a->GammaG->_WeightAccu) & x.ww->kept(a->GammaW->_Weight) & x.wa->kept(a->GammaW->_WeightAccu);
      double n[8]; norms(*a, n); for (int i = 0; i < 8; i++) ok = ok & eqd(n[i], x.n[i]); sym_check(ok, "P32:saving-changes-nothing"); }
    sym_check((d.HasKey("G") == !!(f & GW)) & (d.HasKey("W") == !!(f & GW)) & (d.HasKey("Sigma") == !!(f & SigmaPolar)) & (d.HasKey("Polar") == !!(f & SigmaPolar)) & (d.HasKey("GGGammaG") == !!(f & GammaGW)) & (d.HasKey("WWGammaW") == !!(f & GammaGW)) & (d.HasKey("GammaGStatis") == !!(f & GammaGWStatis)) & (d.HasKey("GammaWStatis") == !!(f & GammaGWStatis)), "P32:saves-what-is-asked");
    if (f & GammaGW) { Complex c[4]; for (int i = 0; i < 4; i++) c[i] = x.ww->v[i]; d["WWGammaW"] = gammaWFile(2, 3, 1, 2, c); }   // the file also carries the symmetry maps
    // the receiver: holding tables of another run (without three-vertices, or with those of this run)
    ParaMC *o = used ? para_(BETA, 2, 2, 3, 2) : para_(OLD, 1, 1, 1, 1); Tables *b = make(o, sym, used, "b"); All y; all(*b, y); GClass *g0 = b->G; WClass *w0 = b->W; SigmaClass *s0 = b->Sigma; PolarClass *p0 = b->Polar;
    Norm::NormFactor = 77; int bad = sym_pick("otherbasis", 0, 2); basisFiles(basisBeta("fermibeta", bad == 1), basisBeta("bosebeta", bad == 2));
    bool none = !!(f & GammaGWStatis) & !(f & GammaGW) & !used;   // no tables the statistics could belong to
    sym_abort_ok(bad | none, "P32:refused"); bool r = b->FromDict(d, f, *p); sym_abort_default(); sym_check(r & !bad & !none, "P32:loads");
    sym_check(eqd(Norm::NormFactor, 2.0), "P32:norm-factor");
    int anti = sym ? 1 : -1; double n[8]; norms(*b, n);
    if (f & GW) sym_check(x.g->same(b->G->_SmoothTWeight) & x.w->same(b->W->_SmoothTWeight) & x.d->same(b->W->_DeltaTWeight) & mapOk(b->G->_Map, BETA, 2, 2, anti) & mapOk(b->W->_Map, BETA, 2, 2, 1), "P32:propagator-and-interaction");
    else sym_check((b->G == g0) & (b->W == w0) & y.g->kept(b->G->_SmoothTWeight) & y.w->kept(b->W->_SmoothTWeight) & y.d->kept(b->W->_DeltaTWeight), "P32:other-parts-kept");
    if (f & SigmaPolar) {
        bool ok = x.s->same(b->Sigma->Estimator._WeightAccu) & x.p->same(b->Polar->Estimator._WeightAccu) & mapOk(b->Sigma->_Map, BETA, 2, 2, anti) & mapOk(b->Polar->_Map, BETA, 2, 2, 1) & eqd(b->Sigma->Estimator._Beta, BETA) & eqd(b->Polar->Estimator._Beta, BETA);
        for (int i = 0; i < 4; i++) ok = ok & eqd(n[i], x.n[i]); sym_check(ok, "P32:sigma-and-polar");
    } else { bool ok = (b->Sigma == s0) & (b->Polar == p0) & y.s->kept(b->Sigma->Estimator._WeightAccu) & y.p->kept(b->Polar->Estimator._WeightAccu); for (int i = 0; i < 4; i++) ok = ok & eqd(n[i], y.n[i]); sym_check(ok, "P32:other-parts-kept"); }
    if (f & GammaGW) {
        sym_check((b->GammaG != nullptr) & (b->GammaW != nullptr), "P32:three-vertices"); if (!b->GammaG | !b->GammaW) return;
        bool ok = x.gg->same(b->GammaG->_Weight) & x.ww->same(b->GammaW->_Weight) & (b->GammaW->_WeightAccu.GetSize() == 4) & (b->G->GGGammaGWeight == b->GammaG) & (b->W->WWGammaWWeight == b->GammaW) & mapOk(b->GammaG->_Map, BETA, 2, 2, -1) & mapOk(b->GammaW->_Map, BETA, 2, 3, 1) & (b->GammaG->_MaxTauBin == 2) & (b->GammaW->_MaxTauBinTiny == 3);
        if (!used) ok = ok & (b->GammaW->_BasisNum == 1) & (b->GammaW->_BasisMaxTauBin == 2) & eqd(b->GammaW->_BasisVec[0][0], 5.0);
        sym_check(ok, "P32:three-vertices");
        if (!used & !(f & GammaGWStatis)) sym_check(eqd(n[4] * BETA * BETA * BETA * 2, 2.0 * 4) & eqd(n[6] * BETA * BETA * BETA * 2, 2.0 * 9) & eqd(n[5], 0), "P32:three-vertex-normalization");
    } else if (used) sym_check((b->GammaG == y.G) & (b->GammaW == y.W) & y.gg->kept(b->GammaG->_Weight) & y.ww->kept(b->GammaW->_Weight), "P32:other-parts-kept");
    else sym_check((b->GammaG == nullptr) & (b->GammaW == nullptr), "P32:other-parts-kept");
    if (f & GammaGWStatis) { bool ok = x.ga->same(b->GammaG->_WeightAccu) & x.wa->same(b->GammaW->_WeightAccu); for (int i = 4; i < 8; i++) ok = ok & eqd(n[i], x.n[i]); sym_check(ok, "P32:three-vertex-statistics"); }
    else if (used) { bool ok = y.ga->kept(b->GammaG->_WeightAccu) & y.wa->kept(b->GammaW->_WeightAccu); for (int i = 4; i < 8; i++) ok = ok & eqd(n[i], y.n[i]); sym_check(ok, "P32:other-parts-kept"); }
    sym_reach("end");
}
// three-vertex statistics that the file does not have start empty
HARNESS(h_tab_nostat)
{
    ParaMC *p = para_(BETA, 2, 2, 3, 2); Tables *b = make(p, false, true, "b"); All y; all(*b, y); basisFiles(BETA, BETA);
    Dictionary d; int k = sym_pick("only", 0, 2); if (k) d[k == 1 ? "GammaGStatis" : "GammaWStatis"] = k == 1 ? b->GammaG->StatisToDict() : b->GammaW->StatisToDict();
    sym_check(b->FromDict(d, GammaGWStatis, *p), "P32:loads"); bool ok = true;
    for (int i = 0; i < 16; i++) ok = ok & eqd(b->GammaG->_WeightAccu._Data[i], Complex(0, 0)); for (int i = 0; i < 4; i++) ok = ok & eqd(b->GammaW->_WeightAccu._Data[i], Complex(0, 0));
    sym_check(ok & eqd(b->GammaG->_NormAccu, 0) & eqd(b->GammaW->_NormAccu, 0), "P32:missing-statistics-start-empty"); sym_check(y.gg->kept(b->GammaG->_Weight) & y.ww->kept(b->GammaW->_Weight), "P32:other-parts-kept"); sym_reach("end");
}
// a new run: empty accumulators for its parameters, whatever was there; the tables stay
HARNESS(h_tab_new)
{
    int sym = sym_pick("symmetric", 0, 1), flag = sym_pick("flag", 0, 1) ? SigmaPolar : GW, zero = sym_pick("order0", 0, 1), bad = sym_pick("otherbasis", 0, 2), fresh = sym_pick("fresh", 0, 1);
    anyBeta(); ParaMC *p = para_(BETA, 2, 2, 3, zero ? 0 : 2), *o = para_(OLD, 1, 3, 1, 1); Tables *b = fresh ? new Tables(sym) : make(o, sym, false, "b"); All y; if (!fresh) all(*b, y); GClass *g0 = b->G; WClass *w0 = b->W; SigmaClass *s0 = b->Sigma; PolarClass *p0 = b->Polar;
    Norm::NormFactor = 77; basisFiles(basisBeta("fermibeta", bad == 1), basisBeta("bosebeta", bad == 2));
    sym_abort_ok(bad | zero, "P32:refused"); bool r = b->BuildNew(flag, *p); sym_abort_default(); sym_check(r & !bad & !zero, "P32:builds");
    sym_check(eqd(Norm::NormFactor, 2.0), "P32:norm-factor");
    sym_check((b->G == g0) & (b->W == w0) & (b->GammaG == nullptr) & (b->GammaW == nullptr), "P32:other-parts-kept");
    if (!fresh) sym_check(y.g->kept(b->G->_SmoothTWeight) & y.w->kept(b->W->_SmoothTWeight) & y.d->kept(b->W->_DeltaTWeight), "P32:other-parts-kept");
    if (flag != SigmaPolar) { sym_check((b->Sigma == s0) & (b->Polar == p0), "P32:other-parts-kept"); if (!fresh) sym_check(y.s->kept(b->Sigma->Estimator._WeightAccu) & y.p->kept(b->Polar->Estimator._WeightAccu), "P32:other-parts-kept"); sym_reach("end"); return; }
    sym_check((b->Sigma != nullptr) & (b->Polar != nullptr), "P32:sigma-and-polar"); if (!b->Sigma | !b->Polar) return;
    WeightEstimator &s = b->Sigma->Estimator, &q = b->Polar->Estimator; bool ok = (s._WeightAccu.GetSize() == 2 * 16) & (q._WeightAccu.GetSize() == 2 * 64) & (s._WeightSize == 16) & (q._WeightSize == 64);
    sym_check(ok & mapOk(b->Sigma->_Map, BETA, 2, 2, sym ? 1 : -1) & mapOk(b->Polar->_Map, BETA, 2, 2, 1) & eqd(s._Beta, BETA) & eqd(q._Beta, BETA), "P32:sigma-and-polar"); if (!ok) return;
    for (int i = 0; i < 32; i++) ok = ok & eqd(s._WeightAccu._Data[i], Complex(0, 0)); for (int i = 0; i < 128; i++) ok = ok & eqd(q._WeightAccu._Data[i], Complex(0, 0));
    sym_check(ok & eqd(s._NormAccu, 0) & eqd(q._NormAccu, 0), "P32:starts-empty");
    sym_check(eqd(s._Norm * BETA * BETA * 2, 2.0 * 2) & eqd(q._Norm * BETA * BETA * 2, 2.0 * 2), "P32:normalization"); sym_reach("end");
}
// annealing reaches every part that exists
HARNESS(h_tab_anneal)
{
    int gam = sym_pick("gamma", 0, 3); ParaMC *p = para_(BETA, 2, 2, 3, 2); Tables *t = make(p, false, true, "a"); if (!(gam & 1)) t->GammaG = nullptr; if (!(gam & 2)) t->GammaW = nullptr; All x; all(*t, x); GClass *g0 = t->G; WClass *w0 = t->W; SigmaClass *s0 = t->Sigma; PolarClass *p0 = t->Polar;
    p->Beta = OLD; t->Anneal(*p); double n[8]; norms(*t, n);
    bool ok = mapOk(t->G->_Map, OLD, 2, 2, -1) & mapOk(t->W->_Map, OLD, 2, 2, 1) & mapOk(t->Sigma->_Map, OLD, 2, 2, -1) & mapOk(t->Polar->_Map, OLD, 2, 2, 1) & eqd(t->Sigma->Estimator._Beta, OLD) & eqd(t->Polar->Estimator._Beta, OLD);
    if (gam & 1) ok = ok & mapOk(t->GammaG->_Map, OLD, 2, 2, -1) & eqd(t->GammaG->_Beta, OLD) & eqd(t->GammaG->_dBetaInverse * OLD, 2.0);
    if (gam & 2) ok = ok & mapOk(t->GammaW->_Map, OLD, 2, 3, 1) & eqd(t->GammaW->_Beta, OLD) & eqd(t->GammaW->_dBetaInverse * OLD, 3.0);
    sym_check(ok, "P32:anneal-every-part");
    double f[8] = {4, 4, 4, 4, 8, 8, 8, 8}; for (int i = 0; i < 8; i++) ok = ok & eqd(n[i], f[i] * x.n[i]); sym_check(ok, "P32:anneal-normalization");
    ok = (t->G == g0) & (t->W == w0) & (t->Sigma == s0) & (t->Polar == p0) & (t->GammaG == x.G) & (t->GammaW == x.W) & x.g->kept(t->G->_SmoothTWeight) & x.w->kept(t->W->_SmoothTWeight) & x.d->kept(t->W->_DeltaTWeight) & x.s->kept(t->Sigma->Estimator._WeightAccu) & x.p->kept(t->Polar->Estimator._WeightAccu);
    if (gam & 1) ok = ok & x.gg->kept(t->GammaG->_Weight) & x.ga->kept(t->GammaG->_WeightAccu); if (gam & 2) ok = ok & x.ww->kept(t->GammaW->_Weight) & x.wa->kept(t->GammaW->_WeightAccu);
    sym_check(ok, "P32:anneal-keeps-tables"); sym_reach("end");
}
