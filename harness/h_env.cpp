// The Monte Carlo environment: starting, resuming, saving, and following the messages of the self-consistency loop.
// The parts it wires together (tables, diagram, chain, monitor) are stand-ins that record what they are given and when.
#include "shim/realstr.h"
#include "utility/dictionary.h"
#include "environment/environment.h"
#include "module/weight/component.h"
#include "symrt.h"
#include <cstring>
#include <cstdlib>
using namespace para;
namespace Shim { File file[8]; int files; }
static bool eqd(double a, double b) { return sym_is_native() ? fabs(a - b) <= 1e-9 * (1 + fabs(a) + fabs(b)) : sym_deq(a, b); }
static double posd(const char *n) { double d = sym_double(n); sym_assume(d >= 1e-3 & d <= 1e6); return d; }
RandomFactory::RandomFactory() { _eng._M_p = 7; }
RandomFactory::RandomFactory(int s) { _eng._M_p = s; }
void RandomFactory::Reset(int s) { _eng._M_p = 100000 + s; }
#ifndef SYM_NATIVE
const std::string LOGFILE("x");
#endif
// ---- what the stand-ins saw
static EnvMonteCarlo *E; static char room[64]; static int nroom; template <class T> static T *newTable() { return (T *)(room + nroom++); }
static struct {
    int loaded, fresh, annealed, diagBuilt, diagLoaded, diagReset, chainBuilt, chainReset, monBuilt, monLoaded, monReset, squeezed, checked; bool argsOk, verdict; double annealBeta, loadBeta, squeeze, chainBeta;
    void *G, *W, *S, *P, *diagG, *diagW, *chainG, *chainW, *chainS, *chainP; int weightTag, statisTag, gammaTag, gstatTag, diagTag, monTag, chainOrder; double *rew; bool resetBeforeCheck;
} R;
static bool mine(const para::ParaMC &p) { return &p == &E->Para; }
static int src[6];     // the values the stand-ins store and expect back: tables, statistics, three-vertex tables, three-vertex statistics, diagram, monitor
namespace weight {
bool Weight::FromDict(const Dictionary &d, flag f, const ParaMC &p)
{
    R.argsOk = R.argsOk & mine(p) & (this == &E->Weight); R.loaded |= f; R.loadBeta = p.Beta;
    if (f & GW) { R.G = G = newTable<GClass>(); R.W = W = newTable<WClass>(); R.weightTag = d.Get<int>("G"); }
    if (f & SigmaPolar) { R.S = Sigma = newTable<SigmaClass>(); R.P = Polar = newTable<PolarClass>(); R.statisTag = d.Get<int>("Sigma"); }
    if (f & GammaGW) { if (!GammaG) { GammaG = newTable<GammaGClass>(); GammaW = newTable<GammaWClass>(); } R.gammaTag = d.Get<int>("GGGammaG"); }
    if (f & GammaGWStatis) { if (!GammaG) ABORT("GammaG and GammaW has to be initialized first!"); R.gstatTag = d.Get<int>("GammaGStatis"); }
    return true;
}
Dictionary Weight::ToDict(flag f)
{
    Dictionary d; if (f & GW) d["G"] = src[0]; if (f & SigmaPolar) d["Sigma"] = src[1]; if (f & GammaGW) d["GGGammaG"] = src[2]; if (f & GammaGWStatis) d["GammaGStatis"] = src[3]; return d;
}
bool Weight::BuildNew(flag f, const ParaMC &p) { R.argsOk = R.argsOk & mine(p) & (this == &E->Weight); R.fresh |= f; if (f & SigmaPolar) { R.S = Sigma = newTable<SigmaClass>(); R.P = Polar = newTable<PolarClass>(); } return true; }
void Weight::Anneal(const ParaMC &p) { R.argsOk = R.argsOk & mine(p) & (this == &E->Weight) & (G != nullptr) & (Sigma != nullptr); R.annealed++; R.annealBeta = p.Beta; }
}
namespace diag {
static void wired(Diagram *d, Lattice &l, weight::GClass &g, weight::WClass &w) { R.argsOk = R.argsOk & (d == &E->Diag) & (&l == &E->Para.Lat); R.diagG = &g; R.diagW = &w; }
void Diagram::BuildNew(Lattice &l, weight::GClass &g, weight::WClass &w) { wired(this, l, g, w); R.diagBuilt++; HasGammaGW = 0; }
bool Diagram::FromDict(const Dictionary &d, Lattice &l, weight::GClass &g, weight::WClass &w) { wired(this, l, g, w); R.diagLoaded++; R.diagTag = d.Get<int>("Diag"); HasGammaGW = 0; return true; }
void Diagram::Reset(Lattice &l, weight::GClass &g, weight::WClass &w) { wired(this, l, g, w); R.diagReset++; }
Dictionary Diagram::ToDict() { Dictionary d; d["Diag"] = src[4]; return d; }
bool Diagram::CheckDiagram() { R.checked++; R.resetBeforeCheck = R.resetBeforeCheck & (R.diagReset > 0) & (R.diagG == R.G) & (R.diagW == R.W); return R.verdict; }
}
namespace mc {
static void seen(ParaMC &p, diag::Diagram &d, weight::Weight &w) { R.argsOk = R.argsOk & mine(p) & (&d == &E->Diag) & (&w == &E->Weight); R.chainBeta = p.Beta; R.chainOrder = p.Order; R.rew = p.OrderReWeight.data(); R.chainG = w.G; R.chainW = w.W; R.chainS = w.Sigma; R.chainP = w.Polar; }
bool Markov::BuildNew(ParaMC &p, diag::Diagram &d, weight::Weight &w) { seen(p, d, w); R.argsOk = R.argsOk & (this == &E->Markov); R.chainBuilt++; return true; }
void Markov::Reset(ParaMC &p, diag::Diagram &d, weight::Weight &w) { seen(p, d, w); R.argsOk = R.argsOk & (this == &E->Markov); R.chainReset++; }
static bool mon(MarkovMonitor *m, ParaMC &p, diag::Diagram &d, weight::Weight &w) { R.argsOk = R.argsOk & (m == &E->MarkovMonitor) & mine(p) & (&d == &E->Diag) & (&w == &E->Weight); return true; }
bool MarkovMonitor::BuildNew(ParaMC &p, diag::Diagram &d, weight::Weight &w) { R.monBuilt++; return mon(this, p, d, w); }
void MarkovMonitor::Reset(ParaMC &p, diag::Diagram &d, weight::Weight &w) { R.monReset++; mon(this, p, d, w); }
bool MarkovMonitor::FromDict(const Dictionary &k, ParaMC &p, diag::Diagram &d, weight::Weight &w) { R.monLoaded++; R.monTag = k.Get<int>("Monitor"); return mon(this, p, d, w); }
Dictionary MarkovMonitor::ToDict() { Dictionary d; d["Monitor"] = src[5]; return d; }
void MarkovMonitor::SqueezeStatistics(real f) { R.argsOk = R.argsOk & (this == &E->MarkovMonitor); R.squeezed++; R.squeeze = f; }
}
static EnvMonteCarlo *env()
{
    EnvMonteCarlo *e = (EnvMonteCarlo *)malloc(sizeof(EnvMonteCarlo)); NATIVE_ONLY(memset((void *)e, 0, sizeof(*e));)
    new (&e->Job.Type) std::string("MC"); new (&e->Job.WeightFile) std::string("weight"); new (&e->Job.MessageFile) std::string("message"); new (&e->Job.StatisticsFile) std::string("statis");
    new (&e->Job.ParaFile) std::string("para"); new (&e->Job.LogFile) std::string("log"); new (&e->Job.InputFile) std::string("input"); e->Job.PID = 7;
    new (&e->Para) ParaMC; e->Weight.Sigma = nullptr; e->Weight.Polar = nullptr; e->Weight.G = nullptr; e->Weight.W = nullptr; e->Weight.GammaG = nullptr; e->Weight.GammaW = nullptr; e->Diag.HasGammaGW = 0;
    R.argsOk = true; R.verdict = true; R.resetBeforeCheck = true; R.loaded = R.fresh = R.annealed = R.diagBuilt = R.diagLoaded = R.diagReset = R.chainBuilt = R.chainReset = R.monBuilt = R.monLoaded = R.monReset = R.squeezed = R.checked = 0;
    R.G = R.W = R.S = R.P = R.diagG = R.diagW = R.chainG = R.chainW = R.chainS = R.chainP = nullptr;
    return E = e;
}
static void fill(ParaMC &p, int order)
{
    p.Version = sym_int("Version", -5, 1000000); p.Beta = posd("Beta"); p.T = posd("T"); p.MaxTauBin = sym_int("MaxTauBin", 1, 1000); p.MaxTauBinTiny = sym_int("MaxTauBinTiny", 1, 1000);
    p.Order = order; p.NSublat = 2; p.L[0] = sym_int("L0", 1, 100); p.L[1] = sym_int("L1", 1, 100); p.Lat.Initialize(p.L, p.NSublat);
    p.Counter = sym_int("Counter", 0, 2147483647); p.Toss = sym_int("Toss", 0, 1 << 30); p.Sweep = sym_int("Sweep", 0, 1 << 30); p.Seed = sym_int("Seed", 0, 1 << 30);
    p.RNG._eng._M_p = sym_int("mtpos", 0, 624); p.RNG._eng._M_x[0] = sym_int("mt", 0, 2147483647);
    p.WormSpaceReweight = posd("worm"); p.PolarReweight = posd("polar"); p.runGamma3 = sym_pick("gamma3", 0, 1); p.GammaGReweight = posd("gg"); p.GammaWReweight = posd("gw");
    for (int i = 0; i <= order; i++) { p.OrderReWeight.push_back(posd("rew")); p.OrderTimeRatio.push_back(posd("ratio")); }
    p.PrinterTimer = sym_int("t1", 0, 1 << 30); p.DiskWriterTimer = sym_int("t2", 0, 1 << 30); p.MessageTimer = sym_int("t3", 0, 1 << 30); p.ReweightTimer = sym_int("t4", 0, 1 << 30);
}
static bool veq(const std::vector<real> &a, const std::vector<real> &b) { if (a.size() != b.size()) return false; bool ok = true; for (size_t i = 0; i < a.size(); i++) ok = ok & eqd(a[i], b[i]); return ok; }
static bool same(ParaMC &a, ParaMC &b, bool version, bool rng)
{
    bool ok = (a.MaxTauBin == b.MaxTauBin) & (a.MaxTauBinTiny == b.MaxTauBinTiny) & (a.Order == b.Order) & (a.NSublat == b.NSublat) & (a.L[0] == b.L[0]) & (a.L[1] == b.L[1]) & (a.Counter == b.Counter) & (a.Toss == b.Toss) & (a.Sweep == b.Sweep);
    ok = ok & eqd(a.WormSpaceReweight, b.WormSpaceReweight) & eqd(a.PolarReweight, b.PolarReweight) & (a.runGamma3 == b.runGamma3) & eqd(a.GammaGReweight, b.GammaGReweight) & eqd(a.GammaWReweight, b.GammaWReweight) & veq(a.OrderReWeight, b.OrderReWeight) & veq(a.OrderTimeRatio, b.OrderTimeRatio);
    ok = ok & (a.PrinterTimer == b.PrinterTimer) & (a.DiskWriterTimer == b.DiskWriterTimer) & (a.MessageTimer == b.MessageTimer) & (a.ReweightTimer == b.ReweightTimer);
    if (version) ok = ok & (a.Version == b.Version) & eqd(a.Beta, b.Beta);
    if (rng) ok = ok & (a.RNG._eng._M_p == b.RNG._eng._M_p) & (a.RNG._eng._M_x[0] == b.RNG._eng._M_x[0]);
    return ok;
}
static void copy(ParaMC &a, ParaMC &b)     // b becomes a
{
    b.Version = a.Version; b.Beta = a.Beta; b.T = a.T; b.MaxTauBin = a.MaxTauBin; b.MaxTauBinTiny = a.MaxTauBinTiny; b.Order = a.Order; b.NSublat = a.NSublat; b.L = a.L; b.Lat.Initialize(b.L, b.NSublat); b.Counter = a.Counter; b.Toss = a.Toss; b.Sweep = a.Sweep;
    b.RNG._eng._M_p = a.RNG._eng._M_p; b.RNG._eng._M_x[0] = a.RNG._eng._M_x[0]; b.WormSpaceReweight = a.WormSpaceReweight; b.PolarReweight = a.PolarReweight; b.runGamma3 = a.runGamma3; b.GammaGReweight = a.GammaGReweight; b.GammaWReweight = a.GammaWReweight;
    b.OrderReWeight = a.OrderReWeight; b.OrderTimeRatio = a.OrderTimeRatio; b.PrinterTimer = a.PrinterTimer; b.DiskWriterTimer = a.DiskWriterTimer; b.MessageTimer = a.MessageTimer; b.ReweightTimer = a.ReweightTimer;
}
static void putFile(const char *name, const Dictionary &d, bool big) { Shim::File &f = Shim::open(name); f.d = d; f.big = big; f.exists = true; }
static Dictionary tables() { Dictionary d; d["G"] = src[0]; d["GGGammaG"] = src[2]; return d; }
static Dictionary statistics() { Dictionary d; d["Sigma"] = src[1]; d["GammaGStatis"] = src[3]; d["Monitor"] = src[5]; return d; }
static void names() { for (int i = 0; i < 6; i++) src[i] = sym_int("content", 0, 1 << 20); }
static bool chain(EnvMonteCarlo *e) { return eqd(R.chainBeta, e->Para.Beta) & (R.chainOrder == e->Para.Order) & (R.rew == e->Para.OrderReWeight.data()) & (R.chainG == e->Weight.G) & (R.chainW == e->Weight.W) & (R.chainS == e->Weight.Sigma) & (R.chainP == e->Weight.Polar); }

// ---- P26: following a message
HARNESS(h_anneal)
{
    EnvMonteCarlo *e = env(); ParaMC before; names(); fill(e->Para, 1); copy(e->Para, before); const bool g3 = e->Para.runGamma3;
    e->Diag.HasGammaGW = sym_int("active", 0, 2); if (!g3) sym_assume(e->Diag.HasGammaGW == 0); const int active = e->Diag.HasGammaGW;
    e->Weight.G = newTable<weight::GClass>(); e->Weight.W = newTable<weight::WClass>(); e->Weight.Sigma = newTable<weight::SigmaClass>(); e->Weight.Polar = newTable<weight::PolarClass>(); if (g3) { e->Weight.GammaG = newTable<weight::GammaGClass>(); e->Weight.GammaW = newTable<weight::GammaWClass>(); }
    void *oldG = e->Weight.G, *oldS = e->Weight.Sigma;
    Message m; m.Version = sym_int("newVersion", -5, 1000000); m.Beta = posd("newBeta"); m.SqueezeFactor = posd("squeeze");
    const bool hasMsg = sym_pick("message", 0, 1), hasTab = sym_pick("tables", 0, 1);
    if (hasMsg) m.Save("message"); 
    if (hasTab) putFile("weight", tables(), true);
    R.verdict = sym_bool("verdict");
    const bool apply = hasMsg & hasTab & (active == 0) & (m.Version > before.Version);
    sym_abort_ok(apply & !R.verdict, "P26:bad-diagram-is-refused");
    bool r = e->ListenToMessage();
    sym_abort_default();
    sym_check(r == apply, "P26:applied-exactly-when-due");
    sym_check(R.argsOk & same(before, e->Para, false, true) & (e->Para.Lat.Size[0] == before.L[0]) & (e->Para.Lat.Size[1] == before.L[1]), "P26:only-version-and-temperature-change");
    if (apply) {
        sym_check(R.verdict & (R.checked > 0) & R.resetBeforeCheck, "P26:the-reset-diagram-is-checked");
        sym_check((e->Para.Version == m.Version) & eqd(e->Para.Beta, m.Beta) & eqd(e->Para.T * m.Beta, 1.0), "P26:new-temperature");
        sym_check(((R.loaded & (weight::GW | (g3 ? weight::GammaGW : 0))) == (weight::GW | (g3 ? weight::GammaGW : 0))) & ((R.loaded & (weight::SigmaPolar | weight::GammaGWStatis)) == 0) & (R.fresh == 0) & (R.weightTag == src[0]) & (!g3 | (R.gammaTag == src[2])) & eqd(R.loadBeta, m.Beta), "P26:new-tables-are-loaded");
        sym_check((R.annealed > 0) & eqd(R.annealBeta, m.Beta) & (e->Weight.Sigma == oldS), "P26:statistics-move-to-the-new-temperature");
        sym_check((R.diagReset > 0) & (R.diagBuilt == 0) & (R.diagLoaded == 0) & (R.diagG == e->Weight.G) & (R.diagW == e->Weight.W), "P26:diagram-uses-the-new-tables");
        sym_check((R.chainReset > 0) & (R.chainBuilt == 0) & chain(e), "P26:chain-uses-the-new-tables");
        sym_check((R.monReset > 0) & (R.monBuilt == 0) & (R.monLoaded == 0), "P26:monitor-is-kept");
        sym_check((R.squeezed == 1) & eqd(R.squeeze, m.SqueezeFactor), "P26:squeezed-once-by-the-factor");
    } else {
        sym_check((e->Para.Version == before.Version) & eqd(e->Para.Beta, before.Beta) & eqd(e->Para.T, before.T), "P26:nothing-changes:temperature");
        sym_check((R.loaded == 0) & (R.fresh == 0) & (R.annealed == 0) & (R.diagReset == 0) & (R.chainReset == 0) & (R.squeezed == 0) & (R.monReset == 0) & (R.monBuilt == 0) & (R.chainBuilt == 0) & (R.diagBuilt == 0) & (e->Weight.G == oldG), "P26:nothing-changes:state");
    }
    sym_reach("end");
}
// a message is applied once
HARNESS(h_anneal_twice)
{
    EnvMonteCarlo *e = env(); names(); fill(e->Para, 1); e->Weight.G = newTable<weight::GClass>(); e->Weight.Sigma = newTable<weight::SigmaClass>(); putFile("weight", tables(), true);
    Message m; m.Version = e->Para.Version + 1; m.Beta = posd("newBeta"); m.SqueezeFactor = posd("squeeze"); m.Save("message");
    sym_check(e->ListenToMessage(), "P26:first-applies"); sym_check(!e->ListenToMessage() & (R.squeezed == 1) & (R.annealed == 1), "P26:second-does-nothing");
    m.Version = sym_int("nextVersion", -5, 1000001); m.Beta = posd("nextBeta"); m.Save("message"); bool due = m.Version > e->Para.Version; double b = e->Para.Beta; sym_check(e->ListenToMessage() == due, "P26:next-applies-when-newer"); sym_check(due ? eqd(e->Para.Beta, m.Beta) : eqd(e->Para.Beta, b), "P26:next-temperature");
    sym_reach("end");
}
HARNESS(h_message)
{
    Message m, k; m.Version = sym_int("v", -5, 1000000); m.Beta = posd("b"); m.SqueezeFactor = posd("s"); k.Version = -7; k.Beta = -1; k.SqueezeFactor = -2;
    sym_check(!k.Load("message") & (k.Version == -7), "P26:no-message"); m.Save("message"); sym_check(k.Load("message"), "P26:message"); sym_check((k.Version == m.Version) & eqd(k.Beta, m.Beta) & eqd(k.SqueezeFactor, m.SqueezeFactor), "P26:message-content");
    ParaMC p; p.Version = m.Version; p.Beta = m.Beta; Message g = p.GenerateMessage(); sym_check((g.Version == m.Version) & eqd(g.Beta, m.Beta), "P26:message-of-the-parameters"); sym_reach("end");
}
// ---- P27: starting, saving, resuming
HARNESS(h_start)
{
    EnvMonteCarlo *e = env(); ParaMC p; names(); fill(p, 1); Dictionary in; in["Para"] = p.ToDict(); putFile("input", in, false);
    const bool hasTab = sym_pick("tables", 0, 1); if (hasTab) putFile("weight", tables(), true);
    sym_abort_ok(!hasTab, "P27:tables-are-required"); bool r = e->BuildNew(); sym_abort_default();
    const bool g3 = p.runGamma3; const int want = weight::GW | (g3 ? weight::GammaGW : 0);
    sym_check(r & hasTab & R.argsOk & same(p, e->Para, true, true) & eqd(e->Para.T * p.Beta, 1.0), "P27:start:parameters");
    sym_check((R.loaded == want) & (R.fresh == weight::SigmaPolar) & (R.weightTag == src[0]) & (!g3 | (R.gammaTag == src[2])) & eqd(R.loadBeta, p.Beta), "P27:start:tables");
    sym_check((R.diagBuilt == 1) & (R.diagLoaded == 0) & (R.diagG == e->Weight.G) & (R.diagW == e->Weight.W), "P27:start:diagram");
    sym_check((R.chainBuilt == 1) & chain(e), "P27:start:chain"); sym_check((R.monBuilt == 1) & (R.monLoaded == 0), "P27:start:monitor");
    Shim::File &f = Shim::open("para"); sym_check(f.exists & !f.big & (Shim::open("statis").writes == 0) & (Shim::open("weight").writes == 0) & (Shim::open("input").writes == 0), "P27:start:files");
    ParaMC q; q.FromDict(f.d.Get<Dictionary>("Para")); sym_check(same(p, q, true, true) & (f.d.Get<Dictionary>("Config").Get<int>("Diag") == src[4]), "P27:start:can-be-resumed"); sym_reach("end");
}
HARNESS(h_resume)
{
    EnvMonteCarlo *e = env(); ParaMC p, in; names(); fill(p, 1); copy(p, in); in.Version = sym_int("inVersion", -5, 1000000); in.Beta = posd("inBeta");
    const bool hasPara = sym_pick("para", 0, 1), hasIn = sym_pick("input", 0, 1), hasTab = sym_pick("tables", 0, 1), hasStat = sym_pick("statis", 0, 1);
    if (hasPara) { Dictionary d, c; d["Para"] = p.ToDict(); c["Diag"] = src[4]; d["Config"] = c; putFile("para", d, false); }
    if (hasIn) { Dictionary d; d["Para"] = in.ToDict(); putFile("input", d, false); }
    if (hasTab) putFile("weight", tables(), true); 
    if (hasStat) putFile("statis", statistics(), true);
    const bool can = (hasPara | hasIn) & hasTab & hasStat; sym_abort_ok(!can, "P27:missing-file"); bool r = e->Load(); sym_abort_default();
    const bool g3 = p.runGamma3; const int want = weight::GW | weight::SigmaPolar | (g3 ? weight::GammaGW | weight::GammaGWStatis : 0);
    sym_check(r & can & R.argsOk, "P27:resume");
    sym_check(hasPara ? same(p, e->Para, true, true) : same(in, e->Para, true, true), "P27:resume:parameters");
    sym_check((R.loaded == want) & (R.fresh == 0) & (R.weightTag == src[0]) & (R.statisTag == src[1]) & (!g3 | ((R.gammaTag == src[2]) & (R.gstatTag == src[3]))) & eqd(R.loadBeta, e->Para.Beta), "P27:resume:tables-and-statistics");
    sym_check((R.diagLoaded == (hasPara ? 1 : 0)) & (R.diagBuilt == (hasPara ? 0 : 1)) & (!hasPara | (R.diagTag == src[4])) & (R.diagG == e->Weight.G) & (R.diagW == e->Weight.W), "P27:resume:diagram");
    sym_check((R.chainBuilt == 1) & chain(e), "P27:resume:chain"); sym_check((R.monLoaded == 1) & (R.monBuilt == 0) & (R.monTag == src[5]), "P27:resume:monitor");
    for (int i = 0; i < Shim::files; i++) sym_check(Shim::file[i].writes == 0, "P27:resume:writes-nothing");
    sym_reach("end");
}
HARNESS(h_save)
{
    EnvMonteCarlo *e = env(); ParaMC keep; names(); fill(e->Para, 1); copy(e->Para, keep); e->Diag.HasGammaGW = sym_int("active", 0, 2); const int active = e->Diag.HasGammaGW; const bool g3 = keep.runGamma3; if (!g3) sym_assume(active == 0);
    // an older checkpoint is already there
    ParaMC old; copy(e->Para, old); old.Counter = 5; Dictionary d, c, s; d["Para"] = old.ToDict(); c["Diag"] = -1; d["Config"] = c; putFile("para", d, false); s["Sigma"] = -1; s["GammaGStatis"] = -1; s["Monitor"] = -1; putFile("statis", s, true); putFile("weight", tables(), true);
    e->Save();
    sym_check(same(keep, e->Para, true, true) & (e->Diag.HasGammaGW == active), "P27:saving-changes-nothing");
    sym_check((Shim::open("weight").writes == 0) & (Shim::open("input").writes == 0) & (Shim::open("message").writes == 0), "P27:save:only-its-own-files");
    int wp = Shim::open("para").writes, wsr = Shim::open("statis").writes;
    sym_check((wp == wsr) & ((wp > 0) == (active == 0)), "P27:saved-exactly-without-a-three-vertex");
    EnvMonteCarlo *f = env(); f->Load();
    if (active == 0) {
        sym_check(same(keep, f->Para, true, true), "P27:saved:parameters");
        sym_check((R.diagTag == src[4]) & (R.statisTag == src[1]) & (R.monTag == src[5]) & (!g3 | (R.gstatTag == src[3])) & (R.weightTag == src[0]), "P27:saved:components");
    } else sym_check(same(old, f->Para, true, true) & (R.diagTag == -1) & (R.statisTag == -1) & (R.monTag == -1), "P27:old-checkpoint-survives");
    sym_reach("end");
}
