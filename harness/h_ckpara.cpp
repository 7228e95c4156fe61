// Saving the run parameters and loading them again.
#include "shim/realstr.h"
#include "utility/dictionary.h"
#include "module/parameter/parameter.h"
#include "symrt.h"
using namespace para;
// the generator itself belongs to the standard library: stand-ins that record how it was seeded
RandomFactory::RandomFactory() { _eng._M_p = 7; }
RandomFactory::RandomFactory(int s) { _eng._M_p = s; }
void RandomFactory::Reset(int s) { _eng._M_p = 100000 + s; }
static bool eqd(double a, double b) { return sym_is_native() ? fabs(a - b) <= 1e-9 * (1 + fabs(a) + fabs(b)) : sym_deq(a, b); }
static double posd(const char *n) { double d = sym_double(n); sym_assume(d >= 1e-3 & d <= 1e6); return d; }
static void fill(ParaMC &p, int order, int nrew)
{
    p.Version = sym_int("Version", -5, 1000000); p.Beta = posd("Beta"); p.T = posd("T"); p.MaxTauBin = sym_int("MaxTauBin", 1, 1000000); p.MaxTauBinTiny = sym_int("MaxTauBinTiny", 1, 1000000);
    p.Order = order; p.NSublat = sym_int("NSublat", 1, 1000); p.L[0] = sym_int("L0", 1, 1000); p.L[1] = sym_int("L1", 1, 1000); p.Lat.Initialize(p.L, p.NSublat);
    p.Counter = ((long long)sym_int("CounterHi", 0, 1000000) << 31) + sym_int("CounterLo", 0, 2147483647); p.Toss = sym_int("Toss", 0, 1 << 30); p.Sweep = sym_int("Sweep", 0, 1 << 30); p.Seed = sym_int("Seed", 0, 1 << 30);
    p.RNG._eng._M_p = sym_int("mtpos", 0, 624); for (int i = 0; i < 4; i++) p.RNG._eng._M_x[i] = sym_int("mt", 0, 2147483647);
    p.WormSpaceReweight = posd("worm"); p.PolarReweight = posd("polar"); p.runGamma3 = sym_bool("gamma3"); p.GammaGReweight = posd("gg"); p.GammaWReweight = posd("gw");
    p.OrderReWeight.clear(); p.OrderTimeRatio.clear(); for (int i = 0; i < nrew; i++) { p.OrderReWeight.push_back(posd("rew")); p.OrderTimeRatio.push_back(posd("ratio")); }
    p.PrinterTimer = sym_int("t1", 0, 1 << 30); p.DiskWriterTimer = sym_int("t2", 0, 1 << 30); p.MessageTimer = sym_int("t3", 0, 1 << 30); p.ReweightTimer = sym_int("t4", 0, 1 << 30);
}
static bool veq(const std::vector<real> &a, const std::vector<real> &b) { if (a.size() != b.size()) return false; bool ok = true; for (size_t i = 0; i < a.size(); i++) ok = ok & eqd(a[i], b[i]); return ok; }
static void checkSame(ParaMC &a, ParaMC &b)
{
    sym_check((a.Version == b.Version) & eqd(a.Beta, b.Beta) & (a.MaxTauBin == b.MaxTauBin) & (a.MaxTauBinTiny == b.MaxTauBinTiny) & (a.Order == b.Order), "P25:parameters");
    sym_check((a.NSublat == b.NSublat) & (a.L[0] == b.L[0]) & (a.L[1] == b.L[1]) & (b.Lat.Size[0] == a.L[0]) & (b.Lat.Size[1] == a.L[1]) & (b.Lat.SublatVol == a.NSublat) & (b.Lat.Vol == a.L[0] * a.L[1]), "P25:lattice");
    sym_check((a.Counter == b.Counter) & (a.Toss == b.Toss) & (a.Sweep == b.Sweep), "P25:progress");
    sym_check(eqd(a.WormSpaceReweight, b.WormSpaceReweight) & eqd(a.PolarReweight, b.PolarReweight) & (a.runGamma3 == b.runGamma3) & eqd(a.GammaGReweight, b.GammaGReweight) & eqd(a.GammaWReweight, b.GammaWReweight), "P25:reweighting");
    sym_check(veq(a.OrderReWeight, b.OrderReWeight) & veq(a.OrderTimeRatio, b.OrderTimeRatio), "P25:order-reweighting");
    sym_check((a.PrinterTimer == b.PrinterTimer) & (a.DiskWriterTimer == b.DiskWriterTimer) & (a.MessageTimer == b.MessageTimer) & (a.ReweightTimer == b.ReweightTimer), "P25:timers");
    bool r = a.RNG._eng._M_p == b.RNG._eng._M_p; for (int i = 0; i < 4; i++) r = r & (a.RNG._eng._M_x[i] == b.RNG._eng._M_x[i]);
    sym_check(r, "P25:random-state");
}
HARNESS(h_ck_para)
{
    ParaMC a, b; fill(a, sym_int("order", 0, 1), 2); fill(b, 3, 4);
    Dictionary d = a.ToDict(); sym_check(b.FromDict(d), "P25:loads"); checkSame(a, b);
    sym_check(eqd(b.T * b.Beta, 1.0), "P25:temperature"); sym_reach("end");
}
// a parameter set that does not fit the program is refused
HARNESS(h_ck_para_bad)
{
    ParaMC a, b; int order = sym_int("order", 0, 2 * MAX_ORDER), n = sym_pick("n", 0, 3); fill(a, order, n);
    int rng = sym_pick("rng", 0, 1), seed = sym_pick("seed", 0, 1), ver = sym_pick("version", 0, 1), cnt = sym_pick("counter", 0, 1);
    Dictionary d = a.ToDict(), m = d.Get<Dictionary>("Markov"), e, f;
    for (int i = 0; i < m.n; i++) { if (!rng && m.k[i].is("RNG")) continue; if (!cnt && m.k[i].is("Counter")) continue; e.k[e.n] = m.k[i]; e.v[e.n++] = m.v[i]; }
    if (seed) e["Seed"] = a.Seed;
    for (int i = 0; i < d.n; i++) { if (!ver && d.k[i].is("Version")) continue; f.k[f.n] = d.k[i]; f.v[f.n++] = d.v[i]; }
    f["Markov"] = e; 
    bool bad = order >= MAX_ORDER | n < order + 1;
    sym_abort_ok(bad, "P25:refused"); bool r = b.FromDict(f); sym_abort_default(); sym_check(r & !bad, "P25:loads");
    if (!ver) a.Version = 0; if (!cnt) a.Counter = 0; if (!rng) { a.RNG._eng._M_p = 100000 + (seed ? a.Seed : 0); for (int i = 0; i < 4; i++) a.RNG._eng._M_x[i] = b.RNG._eng._M_x[i]; }
    checkSame(a, b); sym_reach("end");
}
