#include "utility/momentum.h"
#include "symrt.h"
static const int M = 2 * MAX_K + 1;
static int mod(long v) { long r = v % M; if (r > MAX_K) r -= M; if (r < -MAX_K) r += M; return (int)r; }
static int mod1(int v) { return v > MAX_K ? v - M : v < -MAX_K ? v + M : v; }  // |v| <= 2*MAX_K
static bool ok(const Momentum &m) { return m.K >= -MAX_K & m.K <= MAX_K; }
static Momentum legal(const char *n) { Momentum m; m.K = sym_int(n, -MAX_K, MAX_K); return m; }
static bool is(const Momentum &m, int v) { return ok(m) & m.K == mod1(v); }
HARNESS(h_mom_add)
{
    Momentum a = legal("a"), b = legal("b");
    int k = sym_int("k", -MAX_K, MAX_K);
    sym_check(is(a + b, a.K + b.K), "add"); sym_check(is(a - b, a.K - b.K), "sub");
    sym_check(is(a + k, a.K + k) & is(k + a, a.K + k), "add-int"); sym_check(is(a - k, a.K - k) & is(k - a, k - a.K), "sub-int");
    Momentum p = a; p += b; sym_check(is(p, a.K + b.K), "iadd");
    p = a; p -= b; sym_check(is(p, a.K - b.K), "isub");
    p = a; p += k; sym_check(is(p, a.K + k), "iadd-int");
    p = a; p -= k; sym_check(is(p, a.K - k), "isub-int");
    sym_observe("sum", (a + b).K);
    sym_check((a - b) + b == a, "sub-then-add");
    Momentum z; sym_check(z.K == 0 & (a - a) == z, "zero");
    sym_check((a == b) == (a.K == b.K) & (a != b) == (a.K != b.K), "eq");
    sym_check((a == k) == (a.K == k) & (k == a) == (a.K == k) & (a != k) == (a.K != k) & (k != a) == (a.K != k), "eq-int");
    Momentum e(a); sym_check(e.K == a.K, "copy");
    Momentum f; f = b; sym_check(f.K == b.K, "assign");
    sym_reach("end");
}
HARNESS(h_mom_slots)
{
    Momentum a = legal("a"), b = legal("b");
    sym_check(a.index() >= 0 & a.index() < M, "slot-range");
    sym_check((a.index() == b.index()) == (a.K == b.K), "slot-injective");
    sym_check(a.abs() >= 0 & a.abs() <= MAX_K, "abs-range");
    sym_check((a.abs() == b.abs()) == (a.K == b.K | a.K == -b.K), "abs-pairs");
    sym_reach("end");
}
HARNESS(h_mom_sign)
{
    Momentum a = legal("a");
    sym_check(is(1 * a, a.K), "times-plus-one"); sym_check(is(-1 * a, -a.K), "times-minus-one"); sym_check(is(0 * a, 0), "times-zero");
    int s = sym_int("s", -1, 1);
    sym_check(is(s * a, s * a.K), "times-sign");
    sym_reach("end");
}
HARNESS(h_mom_scale)
{
    Momentum a = legal("a"); int k = sym_int("k", -sym_param("KR", 8), sym_param("KR", 8));
    Momentum p = k * a;
    sym_check(ok(p), "scaled-in-range"); sym_check(p.K == mod((long)k * a.K), "scaled-congruent");
    sym_reach("end");
}
HARNESS(h_mom_int)
{
    int k = sym_int("k", -1000000, 1000000);
    Momentum p(k);
    sym_check(ok(p), "from-int-in-range"); sym_check(p.K == mod(k), "from-int-congruent");
    sym_reach("end");
}
