// Saving a diagram and loading it again, into a used diagram object.
#include "h_markov.cpp"
#include "utility/dictionary.h"
template <class T> static void swapPool(Bundle<T> &b, int i, int j)
{
    T *x = b._component_name[i], *y = b._component_name[j]; b._component_name[i] = y; b._component_name[j] = x; y->Name = i; x->Name = j;
}
HARNESS(h_ckpt_diag)
{
    int order = sym_param("N", 1), worm = sym_param("WORM", 2); if (worm == 2) worm = sym_pick("worm", 0, 1);
    buildState(order, worm, order + 1, 0);
    Diagram *A = D_;
    int perm = sym_param("POOL", 2); if (perm == 2) perm = sym_pick("pool", 0, 1);
    if (perm) { swapPool(A->G, 0, 2 * N_ - 1); swapPool(A->Ver, 0, 2 * N_ - 1); if (N_ > 1) swapPool(A->W, 0, N_ - 1); }
    take();
    Dictionary cfg = A->ToDict();
    sym_check(unchanged(), "P25:saving-changes-nothing");
    // a used diagram object of another order, with other contents
    int on = 3 - N_; 
    Diagram *B = (Diagram *)malloc(sizeof(Diagram)); NATIVE_ONLY(memset((void *)B, 0, sizeof(Diagram));)
    sym_region(B->GHash, 1, KM, 1, 0, "ghashB"); sym_region(B->WHash, 1, MAX_K + 1, 1, 0, "whashB");
    initBundle(B->G, 2 * on); initBundle(B->W, on); initBundle(B->Ver, 2 * on);
    B->GHash[sym_int("oldk", 0, 2 * MAX_K)] = true; B->WHash[sym_int("oldwk", 0, MAX_K)] = true;
    swapPool(B->G, 0, 1); swapPool(B->Ver, 0, MAX_BUNDLE - 2);
    B->Lat = A->Lat; B->GWeight = A->GWeight; B->WWeight = A->WWeight; B->HasGammaGW = 0; B->Order = on;
    B->Worm.Exist = sym_bool("oldworm"); B->Worm.Ira = B->Ver(0); B->Worm.Masha = B->Ver(1); B->Worm.K.K = sym_int("oldwormk", -MAX_K, MAX_K); B->Worm.dSpin = 1; B->Worm.Weight = pos("oldww");
    B->MeasureGLine = sym_bool("oldmg"); B->GMeasure = B->G(0); B->WMeasure = B->W(0); B->SignFermiLoop = pos("oldsign"); B->Weight = junk("oldw"); B->Phase = junk("oldp");
    for (int i = 0; i < MAX_BUNDLE; i++) { GLine &g = B->G._component_bundle[i]; g.IsMeasure = sym_bool("oldmeas"); g.IsGGGammaG = sym_bool("oldgg"); g.Weight = junk("oldgw"); g.nVer[0] = g.nVer[1] = B->Ver(0); }
    for (int i = 0; i < MAX_BUNDLE / 2; i++) { WLine &w = B->W._component_bundle[i]; w.IsMeasure = w.IsDelta = w.IsWorm = w.IsWWGammaW = sym_bool("oldflags"); w.Weight = junk("oldgw"); w.nVer[0] = w.nVer[1] = B->Ver(1); }
    sym_check(B->FromDict(cfg), "P25:loads");
    sym_check((B->Order == order) & (B->G._available_space == 2 * N_) & (B->W._available_space == N_) & (B->Ver._available_space == 2 * N_), "P25:same-order");
    bool g = true, w = true, v = true, wt = true, m;
    for (int i = 0; i < 2 * N_; i++) {
        gLine a = A->G._component_name[i], b = B->G._component_name[i];
        g &= (b->Name == i) & (a->K.K == b->K.K) & (a->IsMeasure == b->IsMeasure) & !b->IsGGGammaG & (B->Ver._component_name[a->nVer[0]->Name] == b->nVer[0]) & (B->Ver._component_name[a->nVer[1]->Name] == b->nVer[1]);
        wt &= cdeq(a->Weight, b->Weight);
        vertex x = A->Ver._component_name[i], y = B->Ver._component_name[i];
        v &= (y->Name == i) & sameR(x->R, y->R) & sym_deq(x->Tau, y->Tau) & (x->_spin[0] == y->_spin[0]) & (x->_spin[1] == y->_spin[1]) & (x->Dir == y->Dir) &
             (B->G._component_name[x->nG[0]->Name] == y->nG[0]) & (B->G._component_name[x->nG[1]->Name] == y->nG[1]) & (B->W._component_name[x->nW->Name] == y->nW);
    }
    for (int i = 0; i < N_; i++) {
        wLine a = A->W._component_name[i], b = B->W._component_name[i];
        w &= (b->Name == i) & (a->K.K == b->K.K) & (a->IsMeasure == b->IsMeasure) & (a->IsDelta == b->IsDelta) & (a->IsWorm == b->IsWorm) & !b->IsWWGammaW & (B->Ver._component_name[a->nVer[0]->Name] == b->nVer[0]) & (B->Ver._component_name[a->nVer[1]->Name] == b->nVer[1]);
        wt &= cdeq(a->Weight, b->Weight);
    }
    sym_check(g, "P25:propagators"); sym_check(w, "P25:interactions"); sym_check(v, "P25:vertices"); sym_check(wt & cdeq(A->Weight, B->Weight) & cdeq(A->Phase, B->Phase) & deq(A->SignFermiLoop, B->SignFermiLoop), "P25:weights");
    m = (A->MeasureGLine == B->MeasureGLine);
    for (int i = 0; i < 2 * N_; i++) m &= !A->MeasureGLine | ((A->GMeasure == A->G._component_name[i]) == (B->GMeasure == B->G._component_name[i]));
    for (int i = 0; i < N_; i++) m &= A->MeasureGLine | ((A->WMeasure == A->W._component_name[i]) == (B->WMeasure == B->W._component_name[i]));
    sym_check(m, "P25:measuring-line");
    sym_check(A->Worm.Exist == B->Worm.Exist, "P25:worm");
    if (worm) sym_check((B->Worm.Ira == B->Ver._component_name[A->Worm.Ira->Name]) & (B->Worm.Masha == B->Ver._component_name[A->Worm.Masha->Name]) & (A->Worm.K.K == B->Worm.K.K) & (A->Worm.dSpin == B->Worm.dSpin) & sym_deq(A->Worm.Weight, B->Worm.Weight), "P25:worm-ends");
    sym_check((B->GHash[HK_] == A->GHash[HK_]) & (B->WHash[WK_] == A->WHash[WK_]), "P25:registers");
    sym_reach("end");
}
