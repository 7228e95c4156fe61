// The diagram a new run starts from, built in a fresh object or over a used one.
#include <cstring>
#include <cstdlib>
#include <string.h>
#include "h_markov.cpp"
#include "utility/dictionary.h"
#include "shim/realstr.h"
template <class T> static void swapPool(Bundle<T> &b, int i, int j)
{
    T *x = b._component_name[i], *y = b._component_name[j]; b._component_name[i] = y; b._component_name[j] = x; y->Name = i; x->Name = j;
}
HARNESS(h_new)
{
    int used = sym_param("USED", 0), test = sym_param("TEST", 0);
    buildState(1, 0, 2, 0);
    Lattice *lat = D_->Lat; GClass *g = D_->GWeight; WClass *w = D_->WWeight;
    Diagram *B;
    if (!used) B = new Diagram();
    else {                                                      // any earlier diagram of the same object: other order, registers, pools, worm
        B = (Diagram *)malloc(sizeof(Diagram)); NATIVE_ONLY(memset((void *)B, 0, sizeof(Diagram));)
        sym_region(B->GHash, 1, KM, 1, 0, "ghashB"); sym_region(B->WHash, 1, MAX_K + 1, 1, 0, "whashB");
        int on = sym_param("ON", 1); initBundle(B->G, 2 * on); initBundle(B->W, on); initBundle(B->Ver, 2 * on);
        B->GHash[sym_int("oldk", 0, 2 * MAX_K)] = true; B->WHash[sym_int("oldwk", 0, MAX_K)] = true;
        swapPool(B->G, 0, 1); swapPool(B->Ver, 0, MAX_BUNDLE - 2); swapPool(B->W, 0, 3);
        for (int i = 0; i < MAX_BUNDLE; i++) { GLine &l = B->G._component_bundle[i]; l.IsMeasure = sym_bool("oldmeas"); l.IsGGGammaG = sym_bool("oldgg"); l.Weight = junk("oldgw"); l.nVer[0] = l.nVer[1] = B->Ver(0); }
        for (int i = 0; i < MAX_BUNDLE / 2; i++) { WLine &l = B->W._component_bundle[i]; l.IsMeasure = l.IsDelta = l.IsWorm = l.IsWWGammaW = sym_bool("oldflags"); l.Weight = junk("oldgw"); l.nVer[0] = l.nVer[1] = B->Ver(1); }
        for (int i = 0; i < MAX_BUNDLE; i++) { Vertex &l = B->Ver._component_bundle[i]; l._spin[0] = l._spin[1] = DOWN; l.R.Sublattice = 0; l.R.Coordinate[0] = l.R.Coordinate[1] = 0; l.Tau = pos("oldtau"); l.Dir = IN; l.nG[0] = l.nG[1] = B->G(0); l.nW = B->W(0); }
        B->HasGammaGW = 0; B->Order = on; B->Worm.Exist = sym_bool("oldworm"); B->Worm.Ira = B->Ver(0); B->Worm.Masha = B->Ver(1); B->Worm.K.K = sym_int("oldwormk", -MAX_K, MAX_K); B->Worm.dSpin = 1; B->Worm.Weight = pos("oldww");
        B->MeasureGLine = sym_bool("oldmg"); B->GMeasure = B->G(0); B->WMeasure = B->W(0); B->SignFermiLoop = pos("oldsign"); B->Weight = junk("oldw"); B->Phase = junk("oldp");
    }
    take();
    if (test) B->SetTest(*lat, *g, *w); else B->BuildNew(*lat, *g, *w);
    D_ = B; N_ = 1;
    sym_check((B->Lat == lat) & (B->GWeight == g) & (B->WWeight == w), "P31:tables-and-lattice");
    sym_check((B->Order == 1) & (B->G._available_space == 2) & (B->W._available_space == 1) & (B->Ver._available_space == 2), "P31:order-one");
    sym_check(!B->Worm.Exist, "P31:no-worm"); sym_check(B->HasGammaGW == 0, "P31:no-three-vertex");
    invariants(127, 0, 2);
    bool at = true; for (int i = 0; i < 2; i++) { vertex v = B->Ver._component_name[i]; at &= sym_deq(v->Tau, 0.0) & (v->R.Sublattice == 0); }
    sym_check(at, "P31:time-and-sublattice");      // the only ones that exist at every temperature and on every lattice
    sym_reach("end");
}
