#include "utility/vector.h"
#include "utility/utility.h"
#include "symrt.h"
HARNESS(h_vec_int)
{
    int R = sym_param("R", 1000000);
    Vec<int> a, b; a[0] = sym_int("a0", -R, R); a[1] = sym_int("a1", -R, R); b[0] = sym_int("b0", -R, R); b[1] = sym_int("b1", -R, R);
    int k = sym_int("k", -2000, 2000);
    Vec<int> s = a + b, d = a - b, m = a * k, p = a, q = a;
    p += b; q -= b;
    sym_check(s[0] == a[0] + b[0] & s[1] == a[1] + b[1], "add");
    sym_check(d[0] == a[0] - b[0] & d[1] == a[1] - b[1], "sub");
    sym_check(m[0] == a[0] * k & m[1] == a[1] * k, "scale");
    sym_check(p == s & q == d, "compound");
    sym_check((a == b) == (a[0] == b[0] & a[1] == b[1]), "eq");
    sym_check((a != b) == !(a == b), "ne");
    Vec<int> u(k); sym_check(u[0] == k & u[1] == k, "fill");
    int arr[2] = {0, 0}; a.CopyToArray(arr); sym_check(arr[0] == a[0] & arr[1] == a[1], "to-array");
    Vec<int> f(arr); sym_check(f == a, "from-array");
    Vec<int> g{a[0], a[1]}; sym_check(g == a, "from-list");
    sym_check(a.size() == 2 & a.end() - a.begin() == 2 & a.begin()[1] == a[1], "iterate");
    sym_observe("s0", s[0]);
    sym_reach("end");
}
HARNESS(h_vec_real)
{
    Vec<real> a, b; a[0] = sym_double("a0"); a[1] = sym_double("a1"); b[0] = sym_double("b0"); b[1] = sym_double("b1");
    real k = sym_double("k");
    Vec<real> s = a + b, d = a - b, m = a * k, p = a, q = a;
    p += b; q -= b;
    sym_check(sym_deq(s[0], a[0] + b[0]) & sym_deq(s[1], a[1] + b[1]), "radd");
    sym_check(sym_deq(d[0], a[0] - b[0]) & sym_deq(d[1], a[1] - b[1]), "rsub");
    sym_check(sym_deq(m[0], a[0] * k) & sym_deq(m[1], a[1] * k), "rscale");
    sym_check(sym_deq(p[0], s[0]) & sym_deq(p[1], s[1]) & sym_deq(q[0], d[0]) & sym_deq(q[1], d[1]), "rcompound");
    sym_assume(fabs(a[0]) <= 1e6 & fabs(a[1]) <= 1e6 & fabs(b[0]) <= 1e6 & fabs(b[1]) <= 1e6);   // equality is up to a rounding tolerance
    bool c0 = sym_bool("same0"), c1 = sym_bool("same1"); sym_assume((c0 | fabs(a[0] - b[0]) > 1e-3) & (c1 | fabs(a[1] - b[1]) > 1e-3));
    Vec<real> e; e[0] = c0 ? a[0] : b[0]; e[1] = c1 ? a[1] : b[1];
    sym_check((a == e) == (c0 & c1), "req"); sym_check((a != e) == !(c0 & c1), "rne");
    sym_reach("end");
}
