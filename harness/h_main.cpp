// The main program: choosing the input file, and the Monte Carlo loop that drives sweeps, measurements, checkpoints, messages and reweighting.
// The environment, the timers and the interrupt handler are stand-ins that record what they are asked to do and when.
#include "shim/realstr.h"
#include "utility/convention.h"
#include "symrt.h"
#include <cstring>
#include <cstdlib>
#include <cmath>
#include <sstream>
#include <iostream>
#include <fstream>
#include <iomanip>
#define __Feynman_Simulator__environment__      // in place of environment.h, job.h and the Python glue
#define __Feynman_Simulator__job__
#define PYWRAPPER_H
#include "utility/abort.h"
#include "utility/timer.h"
struct End {};

#ifdef VERIF_SYM
extern "C" int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return *a - *b; }
#endif
static struct {
    bool loads, brief, broke; int toss, hops, measured, added, built, loaded, messages, starts, tests, runs; bool delaying, handler, verdict; int due, done; timer *who[4]; bool openHop, initPy, argsOk; int order; std::string *input, *type; int last;
} R;
#define need(c, id) do { bool ok_ = (c); sym_check(ok_, id); if (!ok_) throw End(); } while (0)
enum { PRINT, DISK, MESSAGE, REWEIGHT };
static void act(int k, const char *) { sym_check(((R.due >> k) & 1) & !((R.done >> k) & 1), "action-only-when-due"); R.done |= 1 << k; }
namespace para {
struct Job { std::string Type, InputFile; bool DoesLoad; int Sample, PID; Job(const std::string &f) : Type(*R.type), InputFile(f), DoesLoad(R.loads), Sample(0), PID(1) { *R.input = f; } };
struct ParaMC { int Version; double Beta, T; int Order; long long Counter; int Toss, Sweep, Seed; bool runGamma3; int PrinterTimer, DiskWriterTimer, MessageTimer, ReweightTimer; };
}
namespace diag {
struct WormClass_ { bool Exist; };
struct Diagram { int Order; bool MeasureGLine; int HasGammaGW; WormClass_ Worm; bool CheckDiagram() { R.broke = R.broke | !R.verdict; sym_check((R.due >> PRINT) & 1, "action-only-when-due"); R.done |= 1 << PRINT; return R.verdict; } void WriteDiagram2gv(const std::string &) {} };
}
static para::ParaMC *P_; static diag::Diagram *D_;
// everything asked for at the last look at the timers must have happened before the walk goes on
static void quiet() { sym_check(R.due == R.done, "due-action-done"); sym_check(!R.delaying, "released-after-checkpoint"); R.due = R.done = 0; }
namespace mc {
struct Markov {
    diag::Diagram *Diag;
    void Hop(int n)
    {
        need(!R.broke, "stops-on-broken-diagram");
        sym_check(R.built + R.loaded == 1 & R.handler & R.argsOk, "started-once"); sym_check(R.messages == 1, "messages-before-start"); quiet(); sym_check(n == P_->Sweep, "sweep-length");
        if (R.hops >= R.toss) { int m = R.hops - R.toss; need(R.measured == m, "one-measurement-per-sweep"); need(R.added == m / 100, "series-every-100"); need(R.last >= m / 100 * 4, "timers-looked-at"); }
        else need(R.measured == 0 & R.added == 0, "no-measurement-while-thermalizing");
        R.hops++; if (R.brief | (R.hops == R.toss + 202)) throw End();
        D_->Order = R.hops % 3 == 0 ? R.order : R.hops % 2; D_->Worm.Exist = R.hops % 5 == 0; D_->MeasureGLine = R.hops & 1;
    }
    void PrintDetailBalanceInfo() {}
};
struct MarkovMonitor {
    void Measure() { sym_check(R.hops > R.toss, "no-measurement-while-thermalizing"); R.measured++; sym_check(R.measured == R.hops - R.toss, "one-measurement-per-sweep"); }
    void AddStatistics() { need(R.measured == R.hops - R.toss, "series-after-measurement"); R.added++; need(R.added * 100 == R.measured, "series-every-100"); }
    void PrintOrderReWeight() {}
};
}
struct EnvMonteCarlo {
    para::Job Job; para::ParaMC Para; diag::Diagram Diag; mc::Markov Markov; mc::MarkovMonitor MarkovMonitor;
    EnvMonteCarlo(const para::Job &j, bool sym = false) : Job(j) { R.argsOk = !sym & (j.DoesLoad == R.loads); P_ = &Para; D_ = &Diag; Markov.Diag = &Diag; R.runs++; init(); }
    void init() { Para.Toss = R.toss; Para.Sweep = sym_int("sweep", 0, 1 << 30); Para.PrinterTimer = 11; Para.DiskWriterTimer = 12; Para.MessageTimer = 13; Para.ReweightTimer = 14; Para.Order = 3; Para.runGamma3 = false; Para.Counter = 0; Diag.Order = 1; Diag.MeasureGLine = true; Diag.Worm.Exist = false; Diag.HasGammaGW = 0; }
    bool BuildNew() { R.built++; sym_check(!R.loads, "new-or-resumed"); return true; }
    bool Load() { R.loaded++; sym_check(R.loads, "new-or-resumed"); return true; }
    void Save() { sym_check(R.delaying, "checkpoint-protected"); act(DISK, "save"); }
    bool ListenToMessage() { if (R.hops == 0 & R.messages == 0) sym_check(R.built + R.loaded == 1, "messages-after-start"); else act(MESSAGE, "message"); R.messages += R.hops == 0; return sym_bool("message"); }
    void AdjustOrderReWeight() { act(REWEIGHT, "reweight"); }
    void DeleteSavedFiles() { sym_check(false, "checkpoint-protected"); }
};
InterruptHandler::InterruptHandler() { __IsDelaying = false; R.handler = true; }
InterruptHandler::~InterruptHandler() { R.handler = false; }
void InterruptHandler::Delay() { __IsDelaying = R.delaying = true; }
void InterruptHandler::Resume() { __IsDelaying = R.delaying = false; }
static int which(int iv) { return iv - 11; }
void timer::start(const char *) { running = true; }
void timer::restart(const char *) { running = true; }
bool timer::check(time_t iv)
{
    sym_check(running, "timer-runs"); int k = which(iv); sym_check(k >= 0 & k < 4, "timer-interval"); if (!(k >= 0 & k < 4)) return false;
    if (!R.who[k]) { for (int i = 0; i < 4; i++) sym_check(R.who[i] != this, "timer-of-its-own"); R.who[k] = this; }
    sym_check(R.who[k] == this, "timer-of-its-own"); R.last++; bool f = sym_pick("due", 0, 1); if (f) { R.due |= 1 << k; R.done &= ~(1 << k); } return f;
}
int RunTest() { R.tests++; return 0; }
namespace Python { inline void Initialize() { R.initPy = true; } inline void ArrayInitialize() {} inline void Finalize() {} }
#define main feynman_main
#include "main.cpp"
#undef main
static void reset() { R.hops = R.measured = R.added = R.built = R.loaded = R.messages = R.tests = R.runs = R.due = R.done = R.last = 0; R.delaying = R.handler = R.initPy = false; R.verdict = true; for (auto &w : R.who) w = nullptr; R.order = 0; R.input = new std::string; R.type = new std::string("MC"); R.argsOk = R.brief = R.broke = false; }
HARNESS(h_loop)
{
    reset(); R.loads = sym_pick("resume", 0, 1); R.toss = sym_pick("thermalization", 0, 1) * 3; R.order = sym_int("order", 0, MAX_ORDER - 1); para::Job j("in"); bool ended = false;
    try { MonteCarlo(j); } catch (End) { ended = true; }
    sym_check(ended, "goes-on-until-stopped"); sym_check(R.hops == R.toss + 202, "goes-on-until-stopped"); sym_reach("end");
}
// a broken diagram stops the run instead of being measured further
HARNESS(h_broken)
{
    reset(); R.loads = false; R.toss = 0; R.verdict = false; para::Job j("in"); bool ended = false; sym_abort_ok(true, "stops-on-broken-diagram");
    try { MonteCarlo(j); } catch (End) { ended = true; }
    sym_abort_default(); sym_check(ended & !R.broke, "stops-on-broken-diagram"); sym_reach("end");
}
HARNESS(h_args)
{
    reset(); R.loads = false; R.toss = 0; R.brief = true; static const char *OPT[] = {"-p", "--PID", "-f", "--file", "-q", ""}; int o = sym_pick("option", 0, 5), n = sym_pick("count", 2, 4); bool mc = sym_pick("mc", 0, 1); if (!mc) *R.type = "DiagCount";
    const char *av[] = {"prog", OPT[o], o < 2 ? "7" : "dir/file", "x"}; bool ok = n == 3 & o < 4, ended = false; sym_abort_ok(!ok, "bad-arguments-refused");
    try { feynman_main(n, av); } catch (End) { ended = true; }
    sym_abort_default(); sym_check(ok, "bad-arguments-refused"); sym_check(*R.input == (o < 2 ? "infile/_in_MC_7" : "dir/file"), "input-file"); sym_check(ended == mc & R.runs == mc, "runs-the-job"); sym_check(R.tests == 1 & R.initPy, "self-test-first"); sym_reach("end");
}
