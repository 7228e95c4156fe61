// One step of the chain: which update is tried, how often, and what the chain is connected to.
#include "module/markov/markov.h"
#include "module/diagram/diagram.h"
#include "module/parameter/parameter.h"
#include "module/weight/weight.h"
#include "module/weight/component.h"
#include "symrt.h"
#include <cstdlib>
#include <cstring>
using namespace mc;
static int got, calls, draws, X;
template <> std::mt19937::result_type std::mt19937::operator()() { draws++; return (unsigned)X; }
RandomFactory::RandomFactory() {}
RandomFactory::RandomFactory(int) {}
static void hit(int op) { got = op; calls++; }
#ifdef SYM_NATIVE
#define REC(f, op) void mc::Markov::f() { hit(op); }
#else
#define REC(f, op) extern "C" void rec_##f(Markov *) { hit(Markov::op); }
#endif
REC(CreateWorm, CREATE_WORM) REC(DeleteWorm, DELETE_WORM) REC(MoveWormOnG, MOVE_WORM_G) REC(MoveWormOnW, MOVE_WORM_W) REC(Reconnect, RECONNECT) REC(AddInteraction, ADD_INTERACTION)
REC(DeleteInteraction, DEL_INTERACTION) REC(AddDeltaInteraction, ADD_DELTA_INTERACTION) REC(DeleteDeltaInteraction, DEL_DELTA_INTERACTION) REC(JumpToOrder0, JUMP_TO_ORDER0) REC(JumpBackToOrder1, JUMP_BACK_TO_ORDER1) REC(ChangeTauOnVertex, CHANGE_TAU_VERTEX)
REC(ChangeROnVertex, CHANGE_R_VERTEX) REC(ChangeRLoop, CHANGE_R_LOOP) REC(ChangeMeasureFromGToW, CHANGE_MEASURE_G2W) REC(ChangeMeasureFromWToG, CHANGE_MEASURE_W2G) REC(ChangeDeltaToContinuous, CHANGE_DELTA2CONTINUS) REC(ChangeContinuousToDelta, CHANGE_CONTINUS2DELTA)
REC(ChangeSpinOnVertex, CHANGE_SPIN_VERTEX) REC(JumpToGGGammaG, JUMP_TO_GGGAMMAG) REC(JumpFromGGGammaGToG, JUMP_FROM_GGGAMMAG_TO_G) REC(JumpToWWGammaW, JUMP_TO_WWGAMMAW) REC(JumpFromWWGammaWToW, JUMP_FROM_WWGAMMAW_TO_W)
template <class T> static T *raw() { T *p = (T *)malloc(sizeof(T)); NATIVE_ONLY(memset((void *)p, 0, sizeof(T));) return p; }
static para::ParaMC *P; static diag::Diagram *DG; static weight::Weight *WT; static Markov *M;
static double posd(const char *n) { double d = sym_double(n); sym_assume(d >= 1e-3 & d <= 1e6); return d; }
static void setup(bool g3)
{
    P = raw<para::ParaMC>(); DG = raw<diag::Diagram>(); WT = raw<weight::Weight>(); M = new Markov;
    P->Beta = posd("Beta"); P->Order = sym_int("Order", 1, 9); P->runGamma3 = g3; P->Counter = ((long long)sym_int("hi", 0, 1000000) << 31) + sym_int("lo", 0, 2147483647); new (&P->OrderReWeight) std::vector<real>(3, 1.0);
    WT->G = raw<weight::GClass>(); WT->W = raw<weight::WClass>(); WT->Sigma = raw<weight::SigmaClass>(); WT->Polar = raw<weight::PolarClass>();
}
static bool wired()
{
    return (M->Beta == P->Beta) & (M->Order == P->Order) & (M->runGamma3 == P->runGamma3) & (M->Counter == &P->Counter) & (M->Lat == &P->Lat) & (M->OrderReWeight == P->OrderReWeight.data()) & (M->WormSpaceReweight == &P->WormSpaceReweight) & (M->PolarReweight == &P->PolarReweight)
        & (M->GammaGReweight == &P->GammaGReweight) & (M->GammaWReweight == &P->GammaWReweight) & (M->Diag == DG) & (M->Worm == &DG->Worm) & (M->UExt == &DG->UExt) & (M->Sigma == WT->Sigma) & (M->Polar == WT->Polar) & (M->G == WT->G) & (M->W == WT->W) & (M->RNG == &P->RNG);
}
static double uniform(int raw) { return raw * (1.0 / 4294967296.0) + 0.5; }
static int draw(const char *n) { return sym_int(n, -2147483647 - 1, 2147483647); }
static int once(int x) { X = x; got = -1; calls = 0; draws = 0; M->Hop(1); return got; }
static const double eps = 1e-9;
static bool idle(int op) { return op == Markov::CHANGE_R_VERTEX | op == Markov::CHANGE_SPIN_VERTEX; }
// the chain is connected to this run's parameters, diagram and tables, again after a reset to others
HARNESS(h_hop_wire)
{
    bool g3 = sym_pick("gamma", 0, 1); setup(g3); sym_check(M->BuildNew(*P, *DG, *WT), "P29:builds"); sym_check(wired(), "P29:connected");
    for (int i = 0; i < NUpdates; i++) for (int j = 0; j < MAX_ORDER; j++) sym_check((M->Accepted[i][j] == 0) & (M->Proposed[i][j] == 0), "P29:statistics-start-empty");
    double sum = 0; bool ok = true; for (int i = 0; i < NUpdates; i++) { double p = M->ProbofCall[i]; sum += p; ok = ok & (p >= 0); if (i >= MCUpdates) ok = ok & ((p > 0) == g3); else if (!idle(i)) ok = ok & (p > 0); }
    sym_check(ok & sum <= 1 + eps & sum >= 1 - eps, "P29:probabilities");
    bool same = true; double keep[NUpdates]; for (int i = 0; i < NUpdates; i++) keep[i] = M->ProbofCall[i];
    Markov *m = M; setup(g3); M = m; M->Reset(*P, *DG, *WT); sym_check(wired(), "P29:reconnected"); for (int i = 0; i < NUpdates; i++) same = same & (keep[i] == M->ProbofCall[i]); sym_check(same, "P29:reset-keeps-the-probabilities");
    sym_reach("end");
}
// two draws that try the same update are closer than its declared probability
HARNESS(h_hop_pair)
{
    bool g3 = sym_param("GAMMA", 0); setup(g3); M->BuildNew(*P, *DG, *WT); long long c = P->Counter;
    int rx = draw("x"), ry = draw("y"); double x = uniform(rx), y = uniform(ry); int a = once(rx); sym_check((calls <= 1) & (draws == 1) & (P->Counter == c + 1), "P29:one-update-per-step"); sym_check((a < 0) | (g3 | a < MCUpdates), "P29:only-enabled-updates"); sym_check(!idle(a), "P29:only-enabled-updates");
    if (a >= 0) { int b = once(ry); if (b == a) sym_check((x - y <= M->ProbofCall[a] + eps) & (y - x <= M->ProbofCall[a] + eps), "P29:no-more-often-than-declared"); }
    sym_reach("end");
}
// what is left tries nothing, and no more often than the two disabled updates are declared
HARNESS(h_hop_idle)
{
    bool g3 = sym_param("GAMMA", 0); setup(g3); M->BuildNew(*P, *DG, *WT);
    int rx = draw("x"), ry = draw("y"), rz = draw("z"); double x = uniform(rx), y = uniform(ry), z = uniform(rz); int a = once(rx); if (a >= 0) return; int b = once(ry); if (b >= 0) return; int c = once(rz); if (c >= 0) return;
    double p = M->ProbofCall[Markov::CHANGE_R_VERTEX], q = M->ProbofCall[Markov::CHANGE_SPIN_VERTEX], w = (p > q ? p : q) + eps; sym_check(!((y - x > w) & (z - y > w)), "P29:idle-steps-are-rare"); sym_reach("end");
}
// a sweep is that many steps
HARNESS(h_hop_sweep)
{
    bool g3 = sym_pick("gamma", 0, 1); setup(g3); M->BuildNew(*P, *DG, *WT); long long c = P->Counter; int n = sym_pick("sweep", 0, 4); X = 0; calls = 0; draws = 0; M->Hop(n); sym_check((P->Counter == c + n) & (draws == n), "P29:sweep"); sym_reach("end");
}
