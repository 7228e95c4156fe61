#define private public
#include "utility/rng.h"
#undef private
#include "symrt.h"
extern RandomFactory RNG;
HARNESS(h_urn)
{
    NATIVE_ONLY(sym_rng_force(RNG._eng));
    double u = RNG.urn();
    sym_check(u >= 0.0, "urn-nonnegative"); sym_check(u < 1.0, "urn-below-one");
    sym_check(sym_draw_count() == 1, "urn-one-draw");
    sym_reach("end");
}
HARNESS(h_irn)
{
    NATIVE_ONLY(sym_rng_force(RNG._eng));
    int lo = sym_int("lo", -1000000, 1000000), hi = sym_int("hi", -1000000, 1000000);
    sym_assume(lo <= hi);
    int i = RNG.irn(lo, hi);
    sym_observe("i", i);
    sym_check(i >= lo & i <= hi, "irn-range");
    sym_check(sym_draw_count() == 1, "irn-one-draw");
    sym_reach("end");
}
// every value of the closed interval can be produced: raw = v - lo maps onto v
HARNESS(h_rng_onto)
{
    RandomFactory *r = &RNG;
    NATIVE_ONLY(sym_rng_force(RNG._eng));
    int lo = sym_int("lo", -20000, 20000), hi = sym_int("hi", -20000, 20000), v = sym_int("v", -20000, 20000);
    sym_assume(lo <= v & v <= hi);
    int i = r->irn(lo, hi);
    unsigned n = (unsigned)(hi - lo + 1);
    unsigned raw = (unsigned)sym_draw_int(0);
    sym_assume(raw < n);
    sym_check(lo + (int)raw == i, "irn-bijective-on-residues");
    sym_reach("end");
}
HARNESS(h_urn_mono)
{
    RandomFactory *r = &RNG;
    NATIVE_ONLY(sym_rng_force(RNG._eng));
    double u = r->urn(), v = r->urn();
    int a = sym_draw_int(0), b = sym_draw_int(1);
    sym_check((a < b) == (u < v), "urn-injective-monotone");
    sym_reach("end");
}
