#include "utility/complex.h"
#include "symrt.h"
static double R(const char *n) { double d = sym_double(n); sym_assume(d >= -1e3 & d <= 1e3); return d; }
static bool eq(const Complex &a, double re, double im) { return sym_deq(a.Re, re) & sym_deq(a.Im, im); }
HARNESS(h_complex_add)
{
    Complex a(R("ar"), R("ai")), b(R("br"), R("bi")); double k = R("k");
    sym_check(eq(a + b, a.Re + b.Re, a.Im + b.Im), "add"); sym_check(eq(a - b, a.Re - b.Re, a.Im - b.Im), "sub");
    sym_check(eq(a + k, a.Re + k, a.Im), "add-real"); sym_check(eq(k + a, k + a.Re, a.Im), "real-add");
    sym_check(eq(a - k, a.Re - k, a.Im), "sub-real"); sym_check(eq(k - a, k - a.Re, -a.Im), "real-sub");
    sym_check(eq(-a, -a.Re, -a.Im) & eq(+a, a.Re, a.Im), "negate");
    Complex c(a); c += b; sym_check(eq(c, a.Re + b.Re, a.Im + b.Im), "add-assign");
    c = a; c -= b; sym_check(eq(c, a.Re - b.Re, a.Im - b.Im), "sub-assign");
    c = a; c += k; sym_check(eq(c, a.Re + k, a.Im), "add-assign-real"); c = a; c -= k; sym_check(eq(c, a.Re - k, a.Im), "sub-assign-real");
    c = k; sym_check(eq(c, k, 0.0), "assign-real"); Complex d, e(k); sym_check(eq(d, 0, 0) & eq(e, k, 0.0), "construct");
    c = a; c = c; sym_check(eq(c, a.Re, a.Im), "self-assign");
    c = a; c += c; sym_check(eq(c, a.Re + a.Re, a.Im + a.Im), "self-add"); c = a; c -= c; sym_check(eq(c, 0.0, 0.0), "self-sub");
    sym_check(eq(conjugate(a), a.Re, -a.Im), "conjugate"); sym_check(IsZero(a) == (a.Re == 0 & a.Im == 0), "is-zero");
    bool near = fabs(a.Re - b.Re) < 1e-9 & fabs(a.Im - b.Im) < 1e-9;
    sym_check(Equal(a, b) == near & Equal(a, b.Re, b.Im) == near, "equal");
    double eps = R("eps"); bool nearE = fabs(a.Re - b.Re) < eps & fabs(a.Im - b.Im) < eps;
    sym_check(Equal(a, b, eps) == nearE & Equal(a, b.Re, b.Im, eps) == nearE, "equal-eps");
    sym_reach("end");
}
HARNESS(h_complex_mul)
{
    Complex a(R("ar"), R("ai")), b(R("br"), R("bi")); double k = R("k");
    double re = a.Re * b.Re - a.Im * b.Im, im = a.Re * b.Im + a.Im * b.Re;
    sym_check(eq(a * b, re, im), "mul"); Complex c(a); c *= b; sym_check(eq(c, re, im), "mul-assign");
    sym_check(eq(a * k, a.Re * k, a.Im * k) & eq(k * a, a.Re * k, a.Im * k), "mul-real"); c = a; c *= k; sym_check(eq(c, a.Re * k, a.Im * k), "mul-assign-real");
    c = a; c *= c; sym_check(eq(c, a.Re * a.Re - a.Im * a.Im, a.Re * a.Im + a.Im * a.Re), "self-mul");
    sym_check(sym_deq(mod2(a), a.Re * a.Re + a.Im * a.Im), "mod2");
    sym_reach("end");
}
HARNESS(h_complex_div)
{
    Complex a(R("ar"), R("ai")), b(R("br"), R("bi")); double k = R("k"); double m = b.Re * b.Re + b.Im * b.Im;
    sym_assume(m > 1e-6 & (k > 1e-3 | k < -1e-3));
    Complex q = a / b; sym_check(eq(q * b, a.Re, a.Im), "div"); Complex c(a); c /= b; sym_check(eq(c, q.Re, q.Im), "div-assign");
    c = a; c /= k; sym_check(eq(c, a.Re / k, a.Im / k), "div-assign-real"); sym_check(eq(a / k, a.Re / k, a.Im / k), "div-real");
    Complex r = k / b; sym_check(eq(r * b, k, 0.0), "real-div");
    c = b; c /= c; sym_check(eq(c, 1.0, 0.0), "self-div");
    sym_reach("end");
}
static bool near_(double a, double b) { return sym_is_native() ? fabs(a - b) <= 1e-9 * (1 + fabs(a) + fabs(b)) : sym_deq(a, b); }
static bool ceq(const Complex &a, double re, double im) { return near_(a.Re, re) & near_(a.Im, im); }
HARNESS(h_complex_mod)
{
    Complex a(R("ar"), R("ai")); double m = mod(a), m2 = a.Re * a.Re + a.Im * a.Im;
    sym_check(m >= 0 & near_(m * m, m2), "mod");
    Complex p = phase(a); bool z = a.Re == 0 & a.Im == 0;
    if (z) sym_check(ceq(p, 0, 0), "phase-zero");
    else { sym_check(ceq(p * m, a.Re, a.Im), "phase-times-mod"); sym_check(near_(mod2(p), 1.0), "phase-unit"); }
    sym_reach("end");
}
HARNESS(h_complex_sqrt)
{
    Complex a(R("ar"), R("ai")); Complex s = sqrt(a);
    sym_check(s.Re >= 0, "sqrt-branch");
    sym_check(ceq(s * s, a.Re, a.Im), "sqrt-square");
    sym_reach("end");
}
HARNESS(h_complex_fn)
{
    Complex a(R("ar"), R("ai")); double r = R("r"), t = R("t");
    sym_check(ceq(polar(r, t), r * cos(t), r * sin(t)), "polar");
    double x = exp(a.Re); sym_check(ceq(exp(a), x * cos(a.Im), x * sin(a.Im)), "exp");
    sym_check(near_(arg(a), (a.Re == 0 & a.Im == 0) ? 0.0 : atan2(a.Im, a.Re)), "arg");
    sym_reach("end");
}
HARNESS(h_complex_pow)
{
    Complex a(R("ar"), R("ai")), w(R("wr"), R("wi")); double u = R("u"); bool z = a.Re == 0 & a.Im == 0;
    if (sym_param("SMALL", 0)) sym_assume(a.Re >= 1.5 & a.Re <= 3 & a.Im >= 1.5 & a.Im <= 3 & u >= 1.5 & u <= 3 & w.Re >= 1.5 & w.Re <= 3 & w.Im >= 1.5 & w.Im <= 3);   // moderate values: the functions are far from overflow there, so that a counterexample shows in floating point
    if (z) { sym_check(ceq(pow(a, u), u == 0 ? 1.0 : 0.0, 0.0), "pow-zero"); sym_check(ceq(pow(a, w), w.Re == 0 & w.Im == 0 ? 1.0 : 0.0, 0.0), "cpow-zero"); }
    else {
        double l = 0.5 * log(a.Re * a.Re + a.Im * a.Im), th = atan2(a.Im, a.Re);
        double m = exp(l * u), ph = u * th; sym_check(ceq(pow(a, u), m * cos(ph), m * sin(ph)), "pow");
        double m2 = exp(l * w.Re - th * w.Im), p2 = l * w.Im + th * w.Re; sym_check(ceq(pow(a, w), m2 * cos(p2), m2 * sin(p2)), "cpow");
    }
    sym_reach("end");
}
