#include "module/markov/markov_monitor.h"
#include "module/diagram/diagram.h"
#include "module/parameter/parameter.h"
#include "module/weight/component.h"
#include "module/weight/gamma3.h"
#include "symrt.h"
#include <new>
#include <cstdlib>
#include <cstring>
using namespace weight; using namespace diag; using namespace mc;
// What a measurement of one configuration is recorded in. The four Measure routines and the norms of the three-vertices are replaced by recorders.
struct Call { int kind, n, order, rs, in0, in1, out0, out1; double ti, to; Site ri, ro, ru; double tu; int su; Complex w; };
static Call C; static int CALLS, NG3[2]; static double G3[2], SQ[2]; static int NSQ[2];
static void rec(int kind, const Site &ri, const Site &ro, double ti, double to, const Complex &w) { C.kind = kind; CALLS++; C.ri = ri; C.ro = ro; C.ti = ti; C.to = to; C.w = w; }
namespace weight {
real Norm::NormFactor = 1.0;
void SigmaClass::Measure(const Site &a, const Site &b, real t, real u, spin i, spin o, int ord, const Complex &w) { rec(1, a, b, t, u, w); C.in0 = i; C.out0 = o; C.order = ord; }
void PolarClass::Measure(const Site &a, const Site &b, real t, real u, spin *i, spin *o, int ord, const Complex &w) { rec(2, a, b, t, u, w); C.in0 = i[0]; C.in1 = i[1]; C.out0 = o[0]; C.out1 = o[1]; C.order = ord; }
void GammaGClass::Measure(const Site &a, const Site &b, const Site &c, real t, real u, real v, spin i, spin o, spin s, const Complex &w) { rec(3, a, b, t, u, w); C.ru = c; C.tu = v; C.su = s; C.in0 = i; C.out0 = o; }
void GammaWClass::Measure(const Site &a, const Site &b, const Site &c, real t, real u, real v, spin *i, spin *o, spin s, const Complex &w) { rec(4, a, b, t, u, w); C.ru = c; C.tu = v; C.su = s; C.in0 = i[0]; C.in1 = i[1]; C.out0 = o[0]; C.out1 = o[1]; }
void GammaGClass::MeasureNorm(real w) { NG3[0]++; G3[0] += w; }
void GammaWClass::MeasureNorm(real w) { NG3[1]++; G3[1] += w; }
void GammaGClass::SqueezeStatistics(real f) { NSQ[0]++; SQ[0] = f; }
void GammaWClass::SqueezeStatistics(real f) { NSQ[1]++; SQ[1] = f; }
}
static bool feq(double a, double b) { return sym_is_native() ? fabs(a - b) <= 1e-9 * (1 + fabs(a) + fabs(b)) : sym_deq(a, b); }
static double rng(const char *n, double lo, double hi) { double d = sym_double(n); sym_assume(d >= lo & d <= hi); return d; }
template <class T> static T *raw() { T *p = (T *)malloc(sizeof(T)); NATIVE_ONLY(memset((void *)p, 0, sizeof(T));) return p; }
static const int ORDER = 2;
static para::ParaMC *P_; static Diagram *D_; static Weight *W_; static MarkovMonitor *M_;
static double OW[ORDER + 1], WS_, PR, GG, GW_;
static void setup(bool gam)
{
    P_ = raw<para::ParaMC>(); D_ = raw<Diagram>(); W_ = raw<Weight>(); M_ = new MarkovMonitor;
    P_->Order = ORDER; P_->runGamma3 = gam; new (&P_->OrderReWeight) std::vector<real>(); new (&P_->OrderTimeRatio) std::vector<real>();
    for (int i = 0; i <= ORDER; i++) { OW[i] = rng("ow", 0.01, 100); P_->OrderReWeight.push_back(OW[i]); P_->OrderTimeRatio.push_back(rng("otr", 0.01, 100)); }
    P_->WormSpaceReweight = WS_ = rng("ws", 0.01, 100); P_->PolarReweight = PR = rng("pr", 0.01, 100); P_->GammaGReweight = GG = rng("gg", 0.01, 100); P_->GammaWReweight = GW_ = rng("gw", 0.01, 100);
    W_->Sigma = raw<SigmaClass>(); W_->Polar = raw<PolarClass>(); W_->GammaG = raw<GammaGClass>(); W_->GammaW = raw<GammaWClass>(); W_->G = nullptr; W_->W = nullptr;
    new (&W_->Sigma->Estimator) WeightEstimator; new (&W_->Polar->Estimator) WeightEstimator;
    uint sh[7] = {1, 1, 1, 1, 1, 1, 1};
    for (int k = 0; k < 2; k++) { WeightEstimator &e = k ? W_->Polar->Estimator : W_->Sigma->Estimator; e._NormAccu = 0; e._Norm = 1; e._WeightSize = 1; e._WeightAccu.Allocate(sh, "SmoothT"); e._WeightAccu.Assign(Complex(0, 0)); }
    M_->Para = P_; M_->Diag = D_; M_->Weight = W_; CALLS = 0; C.kind = 0;
    Estimator<real> e; for (int i = 0; i <= ORDER; i++) { M_->WormEstimator._EstimatorVector.push_back(e); M_->PhyEstimator._EstimatorVector.push_back(e); }
    for (int i = 0; i < 2; i++) { NG3[i] = NSQ[i] = 0; G3[i] = SQ[i] = 0; }
}
static Estimator<real> &est(int i) { return i == 0 ? M_->SigmaEstimator : i == 1 ? M_->PolarEstimator : i == 2 ? M_->GammaGEstimator : M_->GammaWEstimator; }
// every series got one measurement of 1.0 if listed (bit i: worm order i, bit 4+i: order i, bit 8..11: sigma, polarization, three-vertices), none otherwise
static bool hits(int mask)
{
    bool ok = true;
    for (int i = 0; i <= ORDER; i++) { double a = mask >> i & 1, b = mask >> (4 + i) & 1; ok = ok & feq(M_->WormEstimator[i].Value(), a) & feq(M_->WormEstimator[i].Norm(), 1 + a) & feq(M_->PhyEstimator[i].Value(), b) & feq(M_->PhyEstimator[i].Norm(), 1 + b); }
    for (int i = 0; i < 4; i++) { double a = mask >> (8 + i) & 1; ok = ok & feq(est(i).Value(), a) & feq(est(i).Norm(), 1 + a); }
    return ok;
}
static Vertex V[4]; static GLine G0; static WLine W0;
static void site(Vertex &v) { v.R.Sublattice = sym_int("sub", 0, 3); v.R.Coordinate[0] = sym_int("x", 0, 20); v.R.Coordinate[1] = sym_int("y", 0, 20); v.Tau = rng("tau", 0, 10); v._spin[IN] = (spin)sym_int("sp", 0, 1); v._spin[OUT] = (spin)sym_int("sp", 0, 1); }
static bool seq(const Site &a, const Site &b) { return a.Sublattice == b.Sublattice & a.Coordinate[0] == b.Coordinate[0] & a.Coordinate[1] == b.Coordinate[1]; }
HARNESS(h_measure)
{
    bool gam = sym_pick("gamma3", 0, 1); setup(gam); int order = sym_pick("order", 0, ORDER), worm = order ? sym_pick("worm", 0, 1) : 0, mg = sym_pick("mg", 0, 1), has = gam & (order > 0) ? sym_pick("has", 0, 2) : 0;
    for (int i = 0; i < 2; i++) site(V[i]);
    G0.nVer[IN] = &V[0]; G0.nVer[OUT] = &V[1]; V[0].nG[OUT] = &G0; V[1].nG[IN] = &G0; V[1]._spin[IN] = V[0]._spin[OUT];
    W0.nVer[IN] = &V[0]; W0.nVer[OUT] = &V[1]; V[0].nW = V[1].nW = &W0;
    D_->Order = order; D_->Worm.Exist = worm; D_->MeasureGLine = mg; D_->GMeasure = mg ? &G0 : nullptr; D_->WMeasure = mg ? nullptr : &W0; D_->HasGammaGW = has;
    double a = rng("pre", -1, 1), b = rng("pim", -1, 1); D_->Phase = Complex(a, b);
    D_->UExt.R.Sublattice = 0; D_->UExt.R.Coordinate[0] = sym_int("ux", 0, 20); D_->UExt.R.Coordinate[1] = sym_int("uy", 0, 20); D_->UExt.Tau = rng("ut", 0, 10); D_->UExt.Spin = UP;
    M_->Measure();
    double ow = 1.0 / OW[order];
    int sec = has ? (mg ? 2 : 3) : (mg ? 0 : 1);                 // the section of the configuration space: Sigma, Polar, GammaG, GammaW
    int mask = worm ? 1 << order | (has ? 0 : 1 << (8 + sec)) : 1 << (4 + order) | (order ? 1 << (8 + sec) : 0);
    sym_check(hits(mask), "measure-series");
    bool nrm = !worm & (order == 0);
    sym_check(feq(W_->Sigma->Estimator._NormAccu, nrm & mg ? ow : 0) & feq(W_->Polar->Estimator._NormAccu, nrm & !mg ? ow : 0), "measure-norm");
    sym_check(NG3[0] == (nrm & mg & gam) & NG3[1] == (nrm & !mg & gam) & feq(G3[0], nrm & mg & gam ? ow : 0) & feq(G3[1], nrm & !mg & gam ? ow : 0), "measure-norm-three-vertex");
    bool zero = true; for (int k = 0; k < 2; k++) { WeightEstimator &e = k ? W_->Polar->Estimator : W_->Sigma->Estimator; zero = zero & feq(e._WeightAccu[0].Re, 0) & feq(e._WeightAccu[0].Im, 0); } sym_check(zero, "measure-nothing-else");
    if (worm | (order == 0)) { sym_check(CALLS == 0, "measure-none"); sym_reach("end"); return; }
    sym_check(CALLS == 1 & C.kind == sec + 1, "measure-section"); if (C.kind != sec + 1) return;
    // removing the measured line leaves a diagram whose incoming point is where the line ends (and vice versa); by convention the GammaW line is read along its own direction
    Vertex *vi = sec == 3 ? &V[0] : &V[1], *vo = sec == 3 ? &V[1] : &V[0];
    sym_check(seq(C.ri, vi->R) & seq(C.ro, vo->R) & feq(C.ti, vi->Tau) & feq(C.to, vo->Tau), "measure-points");
    if (sec == 0 | sec == 2) sym_check(C.in0 == (int)V[1]._spin[IN] & C.out0 == (int)V[0]._spin[OUT], "measure-spin");
    else sym_check(C.in0 == (int)vi->_spin[0] & C.in1 == (int)vi->_spin[1] & C.out0 == (int)vo->_spin[0] & C.out1 == (int)vo->_spin[1], "measure-spins");
    if (sec < 2) sym_check(C.order == order, "measure-order"); else sym_check(seq(C.ru, D_->UExt.R) & feq(C.tu, D_->UExt.Tau) & C.su == (int)D_->UExt.Spin, "measure-external");
    double f = ow * (sec == 1 ? -1 : 1) / (sec == 2 ? GG : sec == 3 ? GW_ : 1); sym_check(feq(C.w.Re, a * f) & feq(C.w.Im, b * f), "measure-weight");
    sym_reach("end");
}
// ---- reweighting
static double VW[ORDER + 1], VP[ORDER + 1], NW[ORDER + 1], NP[ORDER + 1], VS[4], NS[4];
static void fillS(Estimator<real> &e, double &v, double &n) { v = rng("v", 0, 1e6); sym_assume(v == 0 | v > (sym_is_native() ? 0.99e-3 : 1e-3)); n = rng("n", 1, 1e6); e._accumulator = v; e._norm = n; }
static void fillAll()
{
    for (int i = 0; i <= ORDER; i++) { fillS(M_->WormEstimator[i], VW[i], NW[i]); fillS(M_->PhyEstimator[i], VP[i], NP[i]); }
    for (int i = 0; i < 4; i++) fillS(est(i), VS[i], NS[i]);
}
static bool sums(double f)
{
    bool ok = true;
    for (int i = 0; i <= ORDER; i++) ok = ok & feq(M_->WormEstimator[i].Value() * f, VW[i]) & feq(M_->WormEstimator[i].Norm() * f, NW[i]) & feq(M_->PhyEstimator[i].Value() * f, VP[i]) & feq(M_->PhyEstimator[i].Norm() * f, NP[i]);
    for (int i = 0; i < 4; i++) { double k = i < 2 | P_->runGamma3 ? f : 1; ok = ok & feq(est(i).Value() * k, VS[i]) & feq(est(i).Norm() * k, NS[i]); }
    return ok;
}
static bool factors() { bool ok = feq(P_->WormSpaceReweight, WS_) & feq(P_->PolarReweight, PR) & feq(P_->GammaGReweight, GG) & feq(P_->GammaWReweight, GW_); for (int i = 0; i <= ORDER; i++) ok = ok & feq(P_->OrderReWeight[i], OW[i]); return ok; }
HARNESS(h_reweight)
{
    bool gam = sym_pick("gamma3", 0, 1); setup(gam); fillAll(); double TR[ORDER + 1]; for (int i = 0; i <= ORDER; i++) TR[i] = P_->OrderTimeRatio[i];
    bool r = M_->AdjustOrderReWeight();
    double w[ORDER + 1], worm = 0, phy = 0; bool enough = true, old = true;
    for (int i = 0; i <= ORDER; i++) { w[i] = VW[i] + VP[i]; enough = enough & NP[i] >= 1000; if (i) { worm += VW[i]; phy += VP[i]; } }
    enough = enough & NS[1] >= 1000 & VS[1] != 0 & VS[0] != 0; if (gam) enough = enough & NS[2] >= 1000 & NS[3] >= 1000 & VS[2] != 0 & VS[3] != 0;
    sym_check(sums(1), "reweight-keeps-statistics"); for (int i = 0; i <= ORDER; i++) old = old & feq(P_->OrderTimeRatio[i], TR[i]); sym_check(old, "reweight-keeps-time-ratio");
    sym_check(r == (enough & worm != 0), "reweight-when");
    if (!r) { sym_check(factors(), "reweight-refused-changes-nothing"); sym_reach("end"); return; }
    bool ok = feq(P_->OrderReWeight[0], 1); for (int i = 1; i <= ORDER; i++) ok = ok & (w[i] != 0 ? feq(P_->OrderReWeight[i] * w[i], OW[i] * TR[i] * w[0]) : feq(P_->OrderReWeight[i], OW[i]));
    sym_check(ok, "reweight-order"); sym_check(feq(P_->WormSpaceReweight * worm, WS_ * phy), "reweight-worm"); sym_check(feq(P_->PolarReweight * VS[1], PR * VS[0]), "reweight-polar");
    sym_check(gam ? feq(P_->GammaGReweight * VS[2], GG * VS[0]) & feq(P_->GammaWReweight * VS[3], GW_ * VS[1]) : feq(P_->GammaGReweight, GG) & feq(P_->GammaWReweight, GW_), "reweight-three-vertex");
    sym_reach("end");
}
HARNESS(h_print)
{
    setup(sym_pick("gamma3", 0, 1)); fillAll(); M_->PrintOrderReWeight(); sym_check(factors(), "print-changes-nothing"); sym_check(sums(1), "print-keeps-statistics"); sym_reach("end");
}
HARNESS(h_squeeze)
{
    bool gam = sym_pick("gamma3", 0, 1); setup(gam); fillAll(); double f = rng("f", 0.01, 100), a = rng("sn", 0, 100), b = rng("pn", 0, 100), c = rng("sw", -100, 100), d = rng("pw", -100, 100);
    W_->Sigma->Estimator._NormAccu = a; W_->Polar->Estimator._NormAccu = b; W_->Sigma->Estimator._WeightAccu[0] = Complex(c, d); W_->Polar->Estimator._WeightAccu[0] = Complex(d, c);
    M_->SqueezeStatistics(f); sym_check(sums(f), "squeeze-series"); sym_check(factors(), "squeeze-keeps-factors");
    sym_check(feq(W_->Sigma->Estimator._NormAccu * f, a) & feq(W_->Polar->Estimator._NormAccu * f, b), "squeeze-norms");
    Complex s = W_->Sigma->Estimator._WeightAccu[0], p = W_->Polar->Estimator._WeightAccu[0]; sym_check(feq(s.Re * f, c) & feq(s.Im * f, d) & feq(p.Re * f, d) & feq(p.Im * f, c), "squeeze-tables");
    sym_check(NSQ[0] == gam & NSQ[1] == gam & (!gam | (feq(SQ[0], f) & feq(SQ[1], f))), "squeeze-three-vertex"); sym_reach("end");
}
