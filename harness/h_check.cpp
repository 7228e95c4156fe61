// The diagram self-check: accepts exactly the consistent diagrams.
#define OWN_TABLES
#include "markov_state.h"
static Complex TG[2 * MAXN], TW[MAXN], JUNK; static bool CONST1 = true; static int WANTW, WANTG;
static Vertex *V; static GLine *G; static WLine *W;
static bool sameSite(const Site &a, const Site &b) { return a.Sublattice == b.Sublattice && a.Coordinate[0] == b.Coordinate[0] && a.Coordinate[1] == b.Coordinate[1]; }
NOINL Complex gTable(const Site &ri, const Site &ro, double ti, double to, int si, int so, bool m, bool g, ExtPoint *e)
{
    if (CONST1) return Complex(1.0, 0.0);
    for (int i = 0; i < 2 * N_; i++) {
        vertex a = &V[i], b = &V[P_[i]];
        if (sameSite(a->R, ri) && sameSite(b->R, ro) && a->Tau == ti && b->Tau == to && a->_spin[OUT] == si && b->_spin[IN] == so && G[i].IsMeasure == m && G[i].IsGGGammaG == g && (!g || e == &D_->UExt)) return TG[i];
    }
    return JUNK;
}
NOINL Complex wTable(const Site &ri, const Site &ro, double ti, double to, spin *si, spin *so, bool wo, bool m, bool d, bool g, ExtPoint *e)
{
    if (CONST1) return Complex(1.0, 0.0);
    for (int j = 0; j < N_; j++) {
        vertex a = &V[2 * j], b = &V[2 * j + 1];
        if (sameSite(a->R, ri) && sameSite(b->R, ro) && a->Tau == ti && b->Tau == to && a->_spin[0] == si[0] && a->_spin[1] == si[1] && b->_spin[0] == so[0] && b->_spin[1] == so[1] &&
            W[j].IsWorm == wo && W[j].IsMeasure == m && W[j].IsDelta == d && W[j].IsWWGammaW == g && (!g || e == &D_->UExt)) return TW[j];
    }
    return JUNK;
}
void Diagram::WriteDiagram2gv(std::string) {}
static const double PW[4][2] = {{0.75, 0.5}, {1.25, -0.5}, {-0.5, 1.5}, {1, 1}};
NOINL bool close9(const Complex &a, const Complex &b) { double x = a.Re - b.Re, y = a.Im - b.Im; return (x < 1e-9) & (x > -1e-9) & (y < 1e-9) & (y > -1e-9); }
NOINL Complex cmul(const Complex &a, const Complex &b) { return Complex(a.Re * b.Re - a.Im * b.Im, a.Re * b.Im + a.Im * b.Re); }
NOINL bool far9(double x) { double y = x < 0 ? -x : x; return (y < 0.9e-9) | (y > 1.1e-9); }
// a fixed consistent diagram of order N (every topology), then arbitrary values in the slots of one kind
HARNESS(h_check)
{
    int order = sym_param("N", 1), kind = sym_param("KIND", 0);
    N_ = order; alloc();
    pickPerm(2 * N_);
    initBundle(D_->G, 2 * N_); initBundle(D_->W, N_); initBundle(D_->Ver, 2 * N_);
    D_->Lat = L_; D_->Order = order; D_->GWeight = (GClass *)malloc(8); D_->WWeight = (WClass *)malloc(8);
    V = D_->Ver._component_bundle; G = D_->G._component_bundle; W = D_->W._component_bundle;
    D_->HasGammaGW = 0; D_->UExt.Spin = UP; D_->UExt.Tau = 0.1; D_->UExt.R.Sublattice = 0; D_->UExt.R.Coordinate[0] = D_->UExt.R.Coordinate[1] = 0;
    D_->Vin = D_->Vout = nullptr;
    WormClass &wm = D_->Worm; wm.Exist = false; wm.Ira = wm.Masha = nullptr; wm.K.K = 0; wm.dSpin = 1; wm.Weight = 1.0;
    for (int i = 0; i < 2 * N_; i++) {
        V[i].nG[OUT] = &G[i]; V[P_[i]].nG[IN] = &G[i]; G[i].nVer[IN] = &V[i]; G[i].nVer[OUT] = &V[P_[i]];
        V[i].nW = &W[i / 2]; V[i].Dir = i % 2; W[i / 2].nVer[i % 2] = &V[i];
        int s = kind == 4 ? sym_pick("spin", 0, 1) : 0;
        V[i]._spin[OUT] = (spin)s; V[P_[i]]._spin[IN] = (spin)s;
        V[i].R.Sublattice = i; V[i].R.Coordinate[0] = i + 1; V[i].R.Coordinate[1] = 7 - i; V[i].Tau = 0.1 * (i + 1);
        G[i].K.K = 1; G[i].IsMeasure = i == 0; G[i].IsGGGammaG = false; G[i].Weight = Complex(1.0, 0.0);
    }
    for (int j = 0; j < N_; j++) { W[j].IsMeasure = W[j].IsWorm = W[j].IsDelta = W[j].IsWWGammaW = false; W[j].K.K = 0; W[j].Weight = Complex(1.0, 0.0); }
    D_->MeasureGLine = true; D_->GMeasure = &G[0]; D_->WMeasure = nullptr;
    D_->SignFermiLoop = 1.0; D_->Weight = Complex(order % 2 ? -1.0 : 1.0, 0.0); D_->Phase = D_->Weight;
    bool good = true;
    if (kind == 0) { // numbers and links (one spare object of each pool is out of use)
        D_->G._available_space = sym_int("ng", 2 * N_ - 1, 2 * N_ + 1); D_->W._available_space = sym_int("nw", N_ - 1, N_ + 1); D_->Ver._available_space = sym_int("nv", 2 * N_ - 1, 2 * N_ + 1);
        good = (D_->G._available_space == 2 * N_) & (D_->W._available_space == N_) & (D_->Ver._available_space == 2 * N_);
        V[2 * N_] = V[0]; V[2 * N_].Name = 2 * N_; G[2 * N_] = G[0]; G[2 * N_].Name = 2 * N_; W[N_] = W[0]; W[N_].Name = N_;
        int which = sym_pick("which", 0, 7 * N_ + 1); // the end of a G, of a W, a direction, nothing
        if (which < 4 * N_) {
            for (int k = 0; k < 2; k++) { // this end and another one are arbitrary
                int e = k ? sym_pick("other", 0, 4 * N_ - 1) : which; vertex nv = &V[0]; int c = sym_int("to", 0, 2 * N_);
                for (int i = 1; i <= 2 * N_; i++) setIf(&nv, c == i, &V[i]);
                G[e / 2].nVer[e % 2] = nv;
            }
        } else if (which < 6 * N_) {
            for (int k = 0; k < 2; k++) {
                int e = k ? sym_pick("other", 0, 2 * N_ - 1) : which - 4 * N_; vertex nv = &V[0]; int c = sym_int("to", 0, 2 * N_);
                for (int i = 1; i <= 2 * N_; i++) setIf(&nv, c == i, &V[i]);
                W[e / 2].nVer[e % 2] = nv;
            }
        } else if (which < 7 * N_) { // links of two vertices
            for (int k = 0; k < 2; k++) {
                int v = k ? sym_pick("other", 0, 2 * N_ - 1) : (which - 6 * N_) * 2;
                for (int d = 0; d < 2; d++) { int c = sym_int("to", 0, 2 * N_); gLine g = &G[0]; for (int i = 1; i <= 2 * N_; i++) setIfG(&g, c == i, &G[i]); V[v].nG[d] = g; }
                int c = sym_int("to", 0, N_); wLine w = &W[0]; for (int j = 1; j <= N_; j++) setIfW(&w, c == j, &W[j]); V[v].nW = w;
            }
        } else if (which == 7 * N_) for (int i = 0; i < 2 * N_; i++) V[i].Dir = sym_int("dir", 0, 1);
        for (int i = 0; i < 2 * N_; i++) good = good & (G[i].nVer[IN]->nG[OUT] == &G[i]) & (G[i].nVer[OUT]->nG[IN] == &G[i]) & (G[i].nVer[0] != &V[2 * N_]) & (G[i].nVer[1] != &V[2 * N_]);
        for (int j = 0; j < N_; j++) for (int d = 0; d < 2; d++) { vertex v = W[j].nVer[d]; good = good & (v->nW == &W[j]) & (v->Dir == d) & (v != &V[2 * N_]); }
        for (int i = 0; i < 2 * N_; i++) for (int d = 0; d < 2; d++) good = good & (V[i].nG[d] != &G[2 * N_]) & (V[i].nW != &W[N_]);
    } else if (kind == 1) { // marks
        int ira = sym_int("ira", -1, 2 * N_ - 1), masha = sym_int("masha", -1, 2 * N_ - 1); // -1: never set
        bool ex = sym_bool("wormexist"); wm.Exist = ex; sym_assume(!ex | ((ira >= 0) & (masha >= 0) & (ira != masha)));
        for (int i = 0; i < 2 * N_; i++) { setIf(&wm.Ira, ira == i, &V[i]); setIf(&wm.Masha, masha == i, &V[i]); }
        D_->MeasureGLine = sym_bool("measg"); int gm = sym_int("gm", -1, 2 * N_ - 1), wl = sym_int("wm", -1, N_ - 1), n = 0, nw = 0;
        D_->GMeasure = nullptr;
        for (int i = 0; i < 2 * N_; i++) { setIfG(&D_->GMeasure, gm == i, &G[i]); G[i].IsMeasure = sym_bool("gmeas"); n += G[i].IsMeasure; good = good & (!G[i].IsMeasure | (gm == i)); }
        for (int j = 0; j < N_; j++) {
            setIfW(&D_->WMeasure, wl == j, &W[j]); W[j].IsMeasure = sym_bool("wmeas"); nw += W[j].IsMeasure; good = good & (!W[j].IsMeasure | (wl == j));
            W[j].IsDelta = sym_bool("delta"); W[j].IsWorm = sym_bool("worm");
            bool same = sym_bool("sametau"); V[2 * j + 1].Tau = pickD(same, V[2 * j].Tau, V[2 * j + 1].Tau);
            good = good & (!W[j].IsDelta | (same & !W[j].IsMeasure)) & (W[j].IsWorm == (ex & ((ira == 2 * j) | (ira == 2 * j + 1) | (masha == 2 * j) | (masha == 2 * j + 1))));
        }
        good = good & (n == (D_->MeasureGLine ? 1 : 0)) & (nw == (D_->MeasureGLine ? 0 : 1));
    } else if (kind == 2) { // momentum
        int worm = sym_pick("worm", 0, 1), ira = 0, masha = 0;
        if (worm) {
            ira = sym_pick("ira", 0, 2 * N_ - 1); masha = sym_pick("masha", 0, 2 * N_ - 1); if (ira == masha) sym_assume(false);
            wm.Exist = true; wm.Ira = &V[ira]; wm.Masha = &V[masha]; wm.K.K = sym_int("wk", -MAX_K, MAX_K); W[ira / 2].IsWorm = W[masha / 2].IsWorm = true;
        } else wm.K.K = sym_int("stalek", -MAX_K, MAX_K);
        for (int i = 0; i < 2 * N_; i++) G[i].K.K = sym_int("gk", -MAX_K, MAX_K);
        for (int j = 0; j < N_; j++) W[j].K.K = sym_int("wlk", -MAX_K, MAX_K);
        for (int i = 0; i < 2 * N_; i++) {
            int s = V[i].nG[IN]->K.K - G[i].K.K + (i % 2 == 0 ? -1 : 1) * W[i / 2].K.K;
            if (worm && i == ira) s -= wm.K.K;
            if (worm && i == masha) s += wm.K.K;
            good = good & zmod(s);
        }
    } else if (kind == 3) { // spin
        for (int i = 0; i < 2 * N_; i++) { V[i]._spin[0] = (spin)sym_int("s", 0, 1); V[i]._spin[1] = (spin)sym_int("s", 0, 1); }
        for (int i = 0; i < 2 * N_; i++) good = good & (V[i]._spin[OUT] == V[P_[i]]._spin[IN]);
    } else { // weights: every line kind; one line (or the diagram weight, sign or order-0 weight) arbitrary
        CONST1 = false;
        int m = sym_pick("measure", 0, 3 * N_ - 1), gl = sym_pick("gamma", 0, 3 * N_), bad = sym_pick("bad", 0, 3 * N_ + 1);
        G[0].IsMeasure = false; D_->MeasureGLine = m < 2 * N_; D_->GMeasure = nullptr;
        if (m < 2 * N_) { D_->GMeasure = &G[m]; G[m].IsMeasure = true; } else { D_->WMeasure = &W[m - 2 * N_]; D_->WMeasure->IsMeasure = true; }
        if (gl != m && gl < 2 * N_) G[gl].IsGGGammaG = true;
        if (gl != m && gl >= 2 * N_ && gl < 3 * N_) W[gl - 2 * N_].IsWWGammaW = true;
        for (int j = 0; j < N_; j++) if (!W[j].IsMeasure && !W[j].IsWWGammaW && sym_pick("delta", 0, 1)) { W[j].IsDelta = true; V[2 * j + 1].Tau = V[2 * j].Tau; }
        if (sym_pick("worm", 0, 1)) { wm.Exist = true; wm.Ira = &V[0]; wm.Masha = &V[1]; W[0].IsWorm = true; }
        JUNK = Complex(7.0, 7.0);
        Complex w(1.0, 0.0);
        for (int i = 0; i < 2 * N_; i++) { TG[i] = G[i].Weight = Complex(PW[i % 4][0], PW[i % 4][1]); }
        for (int j = 0; j < N_; j++) { TW[j] = W[j].Weight = Complex(PW[(j + 2) % 4][0] * 2, PW[(j + 2) % 4][1]); }
        if (bad < 3 * N_) { // both the table and the stored weight of that line are arbitrary
            Complex t(sym_double("tre"), sym_double("tim")), s(sym_double("sre"), sym_double("sim"));
            sym_assume((t.Re > -10) & (t.Re < 10) & (t.Im > -10) & (t.Im < 10) & (s.Re > -10) & (s.Re < 10) & (s.Im > -10) & (s.Im < 10));
            sym_assume(far9(t.Re - s.Re) & far9(t.Im - s.Im) & far9(s.Re) & far9(s.Im));
            if (bad < 2 * N_) { TG[bad] = t; G[bad].Weight = s; } else { TW[bad - 2 * N_] = t; W[bad - 2 * N_].Weight = s; }
            good = close9(t, s) & !close9(s, Complex(0.0, 0.0));
        }
        for (int i = 0; i < 2 * N_; i++) w = cmul(w, G[i].Weight);
        for (int j = 0; j < N_; j++) w = cmul(w, W[j].Weight);
        double sg = sym_pick("sign", 0, 1) * 2 - 1; D_->SignFermiLoop = sg; if (order % 2) sg = -sg;
        w = Complex(w.Re * sg, w.Im * sg); D_->Weight = w;
        if (bad == 3 * N_) {
            D_->Weight = Complex(sym_double("dre"), sym_double("dim")); sym_assume((D_->Weight.Re > -10) & (D_->Weight.Re < 10) & (D_->Weight.Im > -10) & (D_->Weight.Im < 10));
            sym_assume(far9(D_->Weight.Re - w.Re) & far9(D_->Weight.Im - w.Im)); good = close9(D_->Weight, w);
        }
        if (bad == 3 * N_ + 1) { // order 0: only the weight matters
            D_->Order = 0; Norm::NormFactor = 1.5; D_->Weight = Complex(sym_double("dre"), sym_double("dim"));
            sym_assume((D_->Weight.Re > -10) & (D_->Weight.Re < 10) & (D_->Weight.Im > -10) & (D_->Weight.Im < 10) & far9(D_->Weight.Re - 1.5) & far9(D_->Weight.Im)); good = close9(D_->Weight, Complex(1.5, 0.0));
        }
    }
    sym_abort_ok(!good, "P23:consistent-accepted");
    bool ok = D_->CheckDiagram();
    sym_abort_default();
    sym_check(ok | !good, "P23:consistent-accepted");
    sym_check(!ok | good, "P23:inconsistent-rejected");
    sym_reach("end");
}
