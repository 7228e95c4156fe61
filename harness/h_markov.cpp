// One Monte Carlo update from every consistent diagram: does it stay consistent?
#include "markov_state.h"
enum { C_TOPO = 1, C_K = 2, C_SPIN = 4, C_WEIGHT = 8, C_ACC = 16, C_REJ = 32, C_FLAG = 64 };
static void (Markov::*const OPS[23])() = {
    &Markov::CreateWorm, &Markov::DeleteWorm, &Markov::MoveWormOnG, &Markov::MoveWormOnW, &Markov::Reconnect, &Markov::AddInteraction,
    &Markov::DeleteInteraction, &Markov::AddDeltaInteraction, &Markov::DeleteDeltaInteraction, &Markov::ChangeTauOnVertex, &Markov::ChangeROnVertex,
    &Markov::ChangeRLoop, &Markov::ChangeMeasureFromGToW, &Markov::ChangeMeasureFromWToG, &Markov::ChangeDeltaToContinuous, &Markov::ChangeContinuousToDelta,
    &Markov::ChangeSpinOnVertex, &Markov::JumpToOrder0, &Markov::JumpBackToOrder1, &Markov::JumpToGGGammaG, &Markov::JumpFromGGGammaGToG,
    &Markov::JumpToWWGammaW, &Markov::JumpFromWWGammaWToW};
static void callOp(int op)
{
    switch (op) {
#define O(i, f) case i: M_->f(); break;
    O(0, CreateWorm) O(1, DeleteWorm) O(2, MoveWormOnG) O(3, MoveWormOnW) O(4, Reconnect) O(5, AddInteraction) O(6, DeleteInteraction) O(7, AddDeltaInteraction)
    O(8, DeleteDeltaInteraction) O(9, ChangeTauOnVertex) O(10, ChangeROnVertex) O(11, ChangeRLoop) O(12, ChangeMeasureFromGToW) O(13, ChangeMeasureFromWToG)
    O(14, ChangeDeltaToContinuous) O(15, ChangeContinuousToDelta) O(16, ChangeSpinOnVertex) O(17, JumpToOrder0) O(18, JumpBackToOrder1) O(19, JumpToGGGammaG)
    O(20, JumpFromGGGammaGToG) O(21, JumpToWWGammaW) O(22, JumpFromWWGammaWToW)
    }
}
// ---------------------------------------------------------------- snapshot of the configuration
struct Snap {
    int order, ng, nw, nv; Complex phase, weight; double sign;
    gLine g[2 * MAXN]; wLine w[MAXN]; vertex v[2 * MAXN];
    GLine gs[2 * MAXN]; WLine ws[MAXN]; Vertex vs[2 * MAXN];
    bool exist; vertex ira, masha; int wk, dspin; double wweight;
    bool mg; gLine gm; wLine wm; int has; int er[3]; double et; int es; vertex *vin, *vout;
    bool gh, wh;
};
static Snap S_; static int HK_, WK_;
static void take()
{
    Snap &s = S_; s.order = D_->Order; s.ng = D_->G._available_space; s.nw = D_->W._available_space; s.nv = D_->Ver._available_space;
    s.phase = D_->Phase; s.weight = D_->Weight; s.sign = D_->SignFermiLoop;
    for (int i = 0; i < 2 * N_; i++) { s.g[i] = D_->G._component_name[i]; s.gs[i] = *s.g[i]; s.v[i] = D_->Ver._component_name[i]; s.vs[i] = *s.v[i]; }
    for (int i = 0; i < N_; i++) { s.w[i] = D_->W._component_name[i]; s.ws[i] = *s.w[i]; }
    WormClass &m = D_->Worm; s.exist = m.Exist; s.ira = m.Ira; s.masha = m.Masha; s.wk = m.K.K; s.dspin = m.dSpin; s.wweight = m.Weight;
    s.mg = D_->MeasureGLine; s.gm = D_->GMeasure; s.wm = D_->WMeasure; s.has = D_->HasGammaGW;
    s.er[0] = D_->UExt.R.Sublattice; s.er[1] = D_->UExt.R.Coordinate[0]; s.er[2] = D_->UExt.R.Coordinate[1]; s.et = D_->UExt.Tau; s.es = D_->UExt.Spin;
    s.vin = D_->Vin; s.vout = D_->Vout;
    HK_ = sym_int("hk", 0, 2 * MAX_K); WK_ = sym_int("whk", 0, MAX_K); s.gh = D_->GHash[HK_]; s.wh = D_->WHash[WK_];
}
static bool sameR(const Site &a, const Site &b) { return (a.Sublattice == b.Sublattice) & (a.Coordinate[0] == b.Coordinate[0]) & (a.Coordinate[1] == b.Coordinate[1]); }
static bool cexact(const Complex &a, const Complex &b) { return sym_deq(a.Re, b.Re) & sym_deq(a.Im, b.Im); }
NOINL bool sameV(const Vertex &a, const Vertex &b, bool attr)
{
    bool t = (a.Name == b.Name) & (a.nG[0] == b.nG[0]) & (a.nG[1] == b.nG[1]) & (a.nW == b.nW) & (a.Dir == b.Dir);
    return t & (!attr | (sameR(a.R, b.R) & (a._spin[0] == b._spin[0]) & (a._spin[1] == b._spin[1]) & sym_deq(a.Tau, b.Tau)));
}
NOINL bool sameG(const GLine &a, const GLine &b, bool attr)
{
    return (a.Name == b.Name) & (a.IsMeasure == b.IsMeasure) & (a.IsGGGammaG == b.IsGGGammaG) & (a.nVer[0] == b.nVer[0]) & (a.nVer[1] == b.nVer[1]) & (a.K.K == b.K.K) & (!attr | cexact(a.Weight, b.Weight));
}
NOINL bool sameW(const WLine &a, const WLine &b, bool attr)
{
    return (a.Name == b.Name) & (a.IsMeasure == b.IsMeasure) & (a.IsWorm == b.IsWorm) & (a.IsDelta == b.IsDelta) & (a.IsWWGammaW == b.IsWWGammaW) & (a.nVer[0] == b.nVer[0]) & (a.nVer[1] == b.nVer[1]) & (a.K.K == b.K.K) & (!attr | cexact(a.Weight, b.Weight));
}
static bool unchanged()
{
    Snap &s = S_; bool at = s.order != 0, ok = (s.order == D_->Order) & (s.ng == D_->G._available_space) & (s.nw == D_->W._available_space) & (s.nv == D_->Ver._available_space);
    ok &= cexact(s.phase, D_->Phase) & cexact(s.weight, D_->Weight) & sym_deq(s.sign, D_->SignFermiLoop);
    for (int i = 0; i < 2 * N_; i++) ok &= (s.g[i] == D_->G._component_name[i]) & (s.v[i] == D_->Ver._component_name[i]) & sameG(s.gs[i], *s.g[i], at) & sameV(s.vs[i], *s.v[i], at);
    for (int i = 0; i < N_; i++) ok &= (s.w[i] == D_->W._component_name[i]) & sameW(s.ws[i], *s.w[i], at);
    WormClass &m = D_->Worm; ok &= s.exist == m.Exist;
    if (s.exist) ok &= (s.ira == m.Ira) & (s.masha == m.Masha) & (s.wk == m.K.K) & (s.dspin == m.dSpin) & sym_deq(s.wweight, m.Weight);
    ok &= (s.mg == D_->MeasureGLine) & (s.gm == D_->GMeasure) & (s.wm == D_->WMeasure) & (s.has == D_->HasGammaGW);
    bool e = (s.er[0] == D_->UExt.R.Sublattice) & (s.er[1] == D_->UExt.R.Coordinate[0]) & (s.er[2] == D_->UExt.R.Coordinate[1]) & sym_deq(s.et, D_->UExt.Tau) & (s.es == D_->UExt.Spin) & (s.vin == D_->Vin) & (s.vout == D_->Vout);
    ok &= (s.has == 0) | e;
    ok &= (s.gh == D_->GHash[HK_]) & (s.wh == D_->WHash[WK_]);
    return ok;
}
// ---------------------------------------------------------------- invariants of a diagram
static int cls(int n) { return n ? n : 1; }
template <class T> static bool inPool(Bundle<T> &b, T *p, int n)
{
    bool r = false; for (int i = 0; i < n; i++) r |= b._component_name[i] == p; return r;
}
static void invariants(int mask, int op, int maxOrder)
{
    int order = sym_conc(D_->Order);
    int n = cls(order);
    bool cnt = (D_->G._available_space == 2 * n) & (D_->W._available_space == n) & (D_->Ver._available_space == 2 * n) & (order >= 0) & (order <= maxOrder);
    if (mask & C_TOPO) sym_check(cnt, "P01:counts");
    if (!cnt || n > MAXN) return;
    gLine g[2 * MAXN]; wLine w[MAXN]; vertex v[2 * MAXN];
    for (int i = 0; i < 2 * n; i++) { g[i] = D_->G._component_name[i]; v[i] = D_->Ver._component_name[i]; }
    for (int i = 0; i < n; i++) w[i] = D_->W._component_name[i];
    bool named = true, gin = true, win = true, gl = true, wl = true, dist = true;
    for (int i = 0; i < 2 * n; i++) { named &= (g[i]->Name == i) & (v[i]->Name == i); for (int j = 0; j < i; j++) dist &= (g[i] != g[j]) & (v[i] != v[j]); }
    for (int i = 0; i < n; i++) { named &= w[i]->Name == i; for (int j = 0; j < i; j++) dist &= w[i] != w[j]; }
    for (int i = 0; i < 2 * n; i++) gin &= inPool(D_->Ver, g[i]->nVer[IN], 2 * n) & inPool(D_->Ver, g[i]->nVer[OUT], 2 * n);
    for (int i = 0; i < n; i++) win &= inPool(D_->Ver, w[i]->nVer[IN], 2 * n) & inPool(D_->Ver, w[i]->nVer[OUT], 2 * n);
    bool vinp = true;
    for (int i = 0; i < 2 * n; i++) vinp &= inPool(D_->G, v[i]->nG[IN], 2 * n) & inPool(D_->G, v[i]->nG[OUT], 2 * n) & inPool(D_->W, v[i]->nW, n);
    bool struc = named & gin & win & vinp & dist;
    if (mask & C_TOPO) { sym_check(named, "P01:names"); sym_check(dist, "P01:distinct"); sym_check(gin & win & vinp, "P01:endpoints-in-diagram"); }
    if (!struc) return;
    for (int i = 0; i < 2 * n; i++) gl &= (g[i]->nVer[IN]->nG[OUT] == g[i]) & (g[i]->nVer[OUT]->nG[IN] == g[i]);
    for (int i = 0; i < n; i++) for (int d = 0; d < 2; d++) wl &= (w[i]->nVer[d]->nW == w[i]) & (w[i]->nVer[d]->Dir == d);
    if (mask & C_TOPO) {
        sym_check(gl, "P01:g-links"); sym_check(wl, "P01:w-links");
        for (int i = 0; i < n; i++) wl &= w[i]->nVer[IN] != w[i]->nVer[OUT];
        sym_check(wl, "P01:w-ends-distinct");
    }
    WormClass &m = D_->Worm;
    if (mask & C_K) {
        bool leg = true, cons = true, dg = true, dw = true, nz = true, hg = false, hw = false;
        for (int i = 0; i < 2 * n; i++) {
            int k = g[i]->K.K; leg &= (k >= -MAX_K) & (k <= MAX_K); hg |= k + MAX_K == HK_;
            for (int j = 0; j < i; j++) dg &= k != g[j]->K.K;
        }
        for (int i = 0; i < n; i++) {
            int k = w[i]->K.K; leg &= (k >= -MAX_K) & (k <= MAX_K); nz &= k != 0; hw |= (k == WK_) | (k == -WK_);
            for (int j = 0; j < i; j++) dw &= (k != w[j]->K.K) & (k != -w[j]->K.K);
        }
        if (m.Exist) leg &= (m.K.K >= -MAX_K) & (m.K.K <= MAX_K);
        for (int i = 0; i < 2 * n; i++) {
            int s = v[i]->nG[IN]->K.K - v[i]->nG[OUT]->K.K - (v[i]->Dir == IN ? v[i]->nW->K.K : -v[i]->nW->K.K);
            int wk = m.Exist ? m.K.K : 0;
            s -= (m.Ira == v[i]) * wk; s += (m.Masha == v[i]) * wk;
            cons &= zmod(s);
        }
        sym_check(leg, "P02:legal-range"); sym_check(cons, "P02:conserved"); sym_check(dg & dw, "P02:distinct"); sym_check(nz, "P02:interaction-nonzero");
        sym_check(D_->GHash[HK_] == hg, "P02:g-register"); sym_check(D_->WHash[WK_] == hw, "P02:w-register");
    }
    if ((mask & C_SPIN) && order) {
        bool gs = true, ws = true;
        for (int i = 0; i < 2 * n; i++) gs &= g[i]->nVer[IN]->_spin[OUT] == g[i]->nVer[OUT]->_spin[IN];
        int ds = m.Exist ? m.dSpin : 0;
        for (int i = 0; i < n; i++) {
            int s = 0;
            for (int d = 0; d < 2; d++) { vertex x = w[i]->nVer[d]; s += (int)x->_spin[OUT] - (int)x->_spin[IN] + ((x == m.Ira) - (x == m.Masha)) * ds; }
            ws &= s == 0;
        }
        sym_check(gs, "P03:propagator"); 
        if (op != 16) sym_check(ws, "P03:interaction");
        if (m.Exist) sym_check((m.dSpin == 1) | (m.dSpin == -1), "P03:worm-spin");
    }
    if (mask & C_WEIGHT) {
        bool lw = true; Complex tot(1.0, 0.0);
        if (order) {
            for (int i = 0; i < 2 * n; i++) { Complex t = tabG(g[i]); lw &= cdeq(g[i]->Weight, t); tot = tot * t; }
            for (int i = 0; i < n; i++) { Complex t = tabW(w[i]); lw &= cdeq(w[i]->Weight, t); tot = tot * t; }
            // fermion sign: parity of i -> name of the vertex where the propagator leaving vertex i ends
            int q = 0;
            for (int i = 0; i < 2 * n; i++) for (int j = 0; j < i; j++) q ^= v[j]->nG[OUT]->nVer[OUT]->Name > v[i]->nG[OUT]->nVer[OUT]->Name;
            double sg = pickD(q, 1.0, -1.0);
            sym_check(lw, "P04:line-weights");
            sym_check(deq(D_->SignFermiLoop, sg), "P04:fermi-sign");
            sym_check(cdeq(D_->Weight, tot * sg * (order % 2 ? -1.0 : 1.0)), "P04:diagram-weight");
        } else {
            sym_check(cdeq(D_->Weight, Complex(Norm::Weight(), 0.0)), "P04:diagram-weight");
            sym_check(deq(D_->SignFermiLoop, 1.0), "P04:fermi-sign");
        }
        sym_check(cdeq(D_->Phase, cphase(D_->Weight)), "P04:phase");
    }
    if (mask & C_FLAG) {
        int meas = 0; bool mp = true, de = true, wf = true; int ng = 0, nwg = 0; bool gp = true;
        for (int i = 0; i < 2 * n; i++) { bool x = g[i]->IsMeasure; meas += x; mp &= !x | (D_->GMeasure == g[i] & D_->MeasureGLine); bool y = g[i]->IsGGGammaG; ng += y; gp &= !y | ((D_->Vin == &g[i]->nVer[IN]) & (D_->Vout == &g[i]->nVer[OUT]) & !x); }
        for (int i = 0; i < n; i++) {
            bool x = w[i]->IsMeasure, y = w[i]->IsWWGammaW, d = w[i]->IsDelta; meas += x; mp &= !x | (D_->WMeasure == w[i] & !D_->MeasureGLine); nwg += y;
            gp &= !y | ((D_->Vin == &w[i]->nVer[IN]) & (D_->Vout == &w[i]->nVer[OUT]) & !x);
            de &= !d | (!x & !y & (order != 0) & sym_deq(w[i]->nVer[IN]->Tau, w[i]->nVer[OUT]->Tau));
            bool on = m.Exist & ((w[i]->nVer[IN] == m.Ira) | (w[i]->nVer[OUT] == m.Ira) | (w[i]->nVer[IN] == m.Masha) | (w[i]->nVer[OUT] == m.Masha));
            wf &= (w[i]->IsWorm != 0) == on;
        }
        sym_check(meas == 1, "P07:one-measuring-line"); sym_check(mp, "P07:measuring-pointer"); sym_check(de, "P07:instantaneous"); sym_check(wf, "P07:worm-marks");
        if (m.Exist) sym_check((m.Ira != m.Masha) & inPool(D_->Ver, m.Ira, 2 * n) & inPool(D_->Ver, m.Masha, 2 * n) & (order > 0), "P07:worm-ends");
        int h = D_->HasGammaGW;
        sym_check((h == 0 & ng == 0 & nwg == 0) | (h == 1 & ng == 1 & nwg == 0) | (h == 2 & ng == 0 & nwg == 1), "P07:one-three-vertex-line");
        sym_check(gp, "P07:three-vertex-ends");
        sym_check(h == 0 | D_->UExt.Spin == UP, "P07:external-spin");
        if (sym_param("LOCAL", 0)) {
            if (order && op != 10) { bool lo = true; for (int i = 0; i < 2 * n; i++) lo &= sameR(g[i]->nVer[IN]->R, g[i]->nVer[OUT]->R); sym_check(lo, "P07:propagator-on-site"); }
            if (m.Exist && m.Ira->nW == m.Masha->nW) sym_check((int)m.Ira->_spin[OUT] - (int)m.Ira->_spin[IN] != m.dSpin, "P07:worm-can-leave");
        }
    }
}
NOINL void moved() { sym_reach("moved"); }
NOINL void still() { sym_reach("still"); }
static void mark(bool same) { if (same) still(); else moved(); }
static bool accepted()
{
    bool acc = false; for (int i = 0; i < NUpdates; i++) for (int o = 0; o <= MAXN && o < MAX_ORDER; o++) acc |= M_->Accepted[i][o] != 0.0;
    return acc;
}
// ---------------------------------------------------------------- what an update is sampled from
static double target()
{
    int o = sym_conc(D_->Order);
    double t = cmod(D_->Weight) * ORW[o];
    if (D_->Worm.Exist) t = t * WSR * D_->Worm.Weight;
    if (!D_->MeasureGLine) t = t * PR;
    if (D_->HasGammaGW != 0) t = t * (D_->MeasureGLine ? GGR : GWR);
    return t;
}
// (chance of proposing the way back) / (chance of proposing the step), without the call frequencies
static double proposal(int op, int n, Markov::Operations &back)
{
    double pt = 1.0 / M_->Beta, ps = 1.0 / (double)(L_->Vol * L_->SublatVol);
    switch (op) {
    case Markov::CREATE_WORM: back = Markov::DELETE_WORM; return 2.0 * n;
    case Markov::DELETE_WORM: back = Markov::CREATE_WORM; return 1.0 / (2.0 * n);
    case Markov::ADD_INTERACTION: back = Markov::DEL_INTERACTION; return 1.0 / (pt * pt);
    case Markov::DEL_INTERACTION: back = Markov::ADD_INTERACTION; return pt * pt;
    case Markov::ADD_DELTA_INTERACTION: back = Markov::DEL_DELTA_INTERACTION; return 1.0 / pt;
    case Markov::DEL_DELTA_INTERACTION: back = Markov::ADD_DELTA_INTERACTION; return pt;
    case Markov::CHANGE_MEASURE_G2W: back = Markov::CHANGE_MEASURE_W2G; return 0.5;
    case Markov::CHANGE_MEASURE_W2G: back = Markov::CHANGE_MEASURE_G2W; return 2.0;
    case Markov::CHANGE_DELTA2CONTINUS: back = Markov::CHANGE_CONTINUS2DELTA; return 1.0 / pt;
    case Markov::CHANGE_CONTINUS2DELTA: back = Markov::CHANGE_DELTA2CONTINUS; return pt;
    case Markov::JUMP_TO_ORDER0: back = Markov::JUMP_BACK_TO_ORDER1; return ps * pt * pt * 0.25;
    case Markov::JUMP_BACK_TO_ORDER1: back = Markov::JUMP_TO_ORDER0; return 4.0 / (ps * pt * pt);
    case Markov::JUMP_TO_GGGAMMAG: back = Markov::JUMP_FROM_GGGAMMAG_TO_G; return 2.0 * n / pt;
    case Markov::JUMP_FROM_GGGAMMAG_TO_G: back = Markov::JUMP_TO_GGGAMMAG; return pt / (2.0 * n);
    case Markov::JUMP_TO_WWGAMMAW: back = Markov::JUMP_FROM_WWGAMMAW_TO_W; return n / (pt * ps);
    case Markov::JUMP_FROM_WWGAMMAW_TO_W: back = Markov::JUMP_TO_WWGAMMAW; return pt * ps / n;
    default: back = (Markov::Operations)op; return 1.0;
    }
}
NOINL bool acceptOk(bool acc, int last, double p)
{
    bool ok;
    if (last < 0) { ok = true; if (acc) ok = !sym_lt(p, 1.0); return ok; }
    double c = sym_draw_cmpval(last); ok = !sym_lt(sym_draw_urn(last), c);
    if (acc) ok = deq(c, p);
    return ok;
}
HARNESS(h_balance)
{
    int op = sym_param("OP", 0), order = sym_param("N", 1), gam = sym_param("GAMMA", 1);
    int worm = order ? sym_param("WORM", 2) : 0; if (worm == 2) worm = sym_pick("worm", 0, 1);
    int maxOrder = sym_param("MAXO", order + 1);
    buildState(order, worm, maxOrder, gam);
    double t0 = target(); Markov::Operations back; double r = proposal(op, cls(order), back);
    r = r * M_->ProbofCall[back] / M_->ProbofCall[op];
#ifdef SYM_NATIVE
    // the solver's magnitudes are group elements without an order: replays are repeated with the step made rarer or more likely than its way back
    if (back != (Markov::Operations)op && sym_seed % 3 != 1) { double z = sym_seed % 3 == 2 ? 1e4 : 1e-4; M_->ProbofCall[op] *= z; r = r / z; }
    std::vector<char> d0((char *)D_, (char *)D_ + sizeof(Diagram)), m0((char *)M_, (char *)M_ + sizeof(Markov));
    double po = native_acceptance(RNG_->_eng, [&]() { memcpy((void *)D_, d0.data(), d0.size()); memcpy((void *)M_, m0.data(), m0.size()); CNT = 0; callOp(op); return accepted(); });
    if (accepted()) { double p = target() / t0 * r; if (p > 1) p = 1; sym_check(fabs(po - p) <= 1e-6 * (1 + p), "P05:acceptance"); }
    else sym_check(true, "P05:acceptance");
    return;
#endif
    callOp(op);
    bool acc = accepted();
    int last = -1, dc = sym_draw_count(); for (int i = 0; i < dc; i++) if (sym_draw_cmp(i) == 1) last = i;
    sym_check(acceptOk(acc, last, target() / t0 * r), "P05:acceptance");
    mark(!acc); sym_reach("end");
}
HARNESS(h_update)
{
    int op = sym_param("OP", 0), order = sym_param("N", 1), mask = sym_param("MASK", 127), gam = sym_param("GAMMA", 1);
    int worm = order ? sym_param("WORM", 2) : 0; if (worm == 2) worm = sym_pick("worm", 0, 1);
    int maxOrder = sym_param("MAXO", order + 1);
    buildState(order, worm, maxOrder, gam);
    take();
    NATIVE_ONLY(sym_rng_force(RNG_->_eng);)
    callOp(op);
    bool same = unchanged();
    if (mask & C_REJ) sym_check(accepted() | same, "P06:rejected-leaves-unchanged");
    invariants(mask, op, maxOrder);
    mark(same);
    sym_reach("end");
}
// ---------------------------------------------------------------- rebuilding what is derived
NOINL Complex junk(const char *n) { return Complex(pos(n), 0.0); }
HARNESS(h_fix)
{
    int order = sym_param("N", 1), pw = sym_param("WORM", 2), ph = sym_param("HOW", 2);
    int worm = pw == 2 ? sym_pick("worm", 0, 1) : pw;
    buildState(order, worm, order + 1, 1);
    take();
    GLine *G = D_->G._component_bundle; WLine *W = D_->W._component_bundle; Vertex *V = D_->Ver._component_bundle;
    bool none = D_->HasGammaGW == 0;
    for (int i = 0; i < 2 * N_; i++) {
        for (int d = 0; d < 2; d++) { V[i].nG[d] = nullptr; setIfG(&V[i].nG[d], sym_bool("stale"), &G[0]); }
        V[i].nW = nullptr; setIfW(&V[i].nW, sym_bool("stale"), &W[0]); V[i].Dir = sym_int("staledir", 0, 1);
        G[i].Weight = junk("jg"); G[i].IsGGGammaG = (none & sym_bool("jgg")) | (!none & G[i].IsGGGammaG);
    }
    for (int j = 0; j < N_; j++) { W[j].Weight = junk("jw"); W[j].IsWorm = sym_bool("jworm"); W[j].IsWWGammaW = (none & sym_bool("jww")) | (!none & W[j].IsWWGammaW); }
    D_->Weight = junk("jd"); D_->Phase = junk("jp"); D_->Order = sym_int("jorder", 0, 5); D_->Worm.Weight = pos("jwormw");
    if (!worm) { setIf(&D_->Worm.Ira, sym_bool("staleira"), &V[0]); setIf(&D_->Worm.Masha, sym_bool("stalemasha"), &V[2 * N_ - 1]); D_->Worm.K.K = sym_int("stalek", -5, 5); }
    GClass *g = D_->GWeight; WClass *w = D_->WWeight; Lattice *l = D_->Lat; int how = ph == 2 ? sym_pick("how", 0, 1) : ph;
    if (how) { D_->GWeight = nullptr; D_->WWeight = nullptr; D_->Lat = nullptr; }
    sym_abort_ok(!none, "P24:refuses-three-vertex");
    if (how) D_->Reset(*l, *g, *w); else D_->FixDiagram();
    sym_abort_default();
    sym_check(none, "P24:three-vertex-refused");
    sym_check((D_->GWeight == g) & (D_->WWeight == w) & (D_->Lat == l), "P24:tables-and-lattice");
    sym_check(unchanged(), "P24:configuration-kept");
    invariants(127, 0, order + 1);
    mark(true); sym_reach("end");
}
