#include "module/diagram/component_bundle.h"
#include "symrt.h"
using namespace diag;
// An arbitrary consistent pool: any assignment of the objects to names (a permutation), any number in use.
// The check that follows shows that every operation keeps it consistent and does what it is for.
template <typename T> struct Pre { int n; T *at[MAX_BUNDLE]; };
template <typename T> static void setup(Bundle<T> &b, Pre<T> &p)
{
    p.n = sym_pick("used", 0, MAX_BUNDLE);
    for (int i = 0; i < MAX_BUNDLE; i++) {                       // every permutation, as a product of transpositions
        char nm[4] = {'p', (char)('0' + i / 10), (char)('0' + i % 10), 0};
        int j = sym_int(nm, i, MAX_BUNDLE - 1);
        T *t = b._component_name[i]; b._component_name[i] = b._component_name[j]; b._component_name[j] = t;
    }
    for (int i = 0; i < MAX_BUNDLE; i++) { b._component_name[i]->Name = i; p.at[i] = b._component_name[i]; }
    b._available_space = p.n;
}
template <typename T> static bool consistent(Bundle<T> &b)
{
    bool ok = true;
    for (int i = 0; i < MAX_BUNDLE; i++) {
        T *t = b._component_name[i];
        ok = ok & t->Name == i & t >= b._component_bundle & t < b._component_bundle + MAX_BUNDLE;
        for (int k = 0; k < i; k++) ok = ok & t != b._component_name[k];
    }
    return ok;
}
template <typename T> static void lookup(Bundle<T> &b, int n)
{
    bool ok = b.HowMany() == n;
    for (int i = 0; i < n; i++) ok = ok & &b[i] == b._component_name[i] & b(i) == b._component_name[i] & b.Exist(b._component_name[i]);
    for (int i = n; i < MAX_BUNDLE; i++) ok = ok & !b.Exist(b._component_name[i]);
    sym_check(ok & !b.Exist(nullptr), "lookup");
}
template <typename T> static void run()
{
    Bundle<T> b("B"); Pre<T> p; setup(b, p);
    int op = sym_param("OP", 0); bool same = true;
    if (op == 0) {                                               // Add
        sym_abort_ok(p.n >= MAX_BUNDLE, "add-full");
        T *t = b.Add();
        sym_check(p.n < MAX_BUNDLE, "add-refused-when-full");
        sym_abort_default();
        sym_check(t == p.at[p.n] & t->Name == p.n, "add-fresh"); lookup(b, p.n + 1);
        for (int i = 0; i < MAX_BUNDLE; i++) same = same & b._component_name[i] == p.at[i];
        sym_check(same, "add-keeps-others"); sym_check(consistent(b), "add-consistent");
        b.Recover(-1); same = b.HowMany() == p.n;
        for (int i = 0; i < MAX_BUNDLE; i++) same = same & b._component_name[i] == p.at[i];
        sym_check(same & consistent(b), "add-undo");
    } else {                                                     // Remove by object (1) or by name (2)
        if (p.n == 0) { sym_reach("end"); return; }
        int k = sym_pick("which", 0, p.n - 1); T *t = p.at[k];
        if (op == 1) b.Remove(t); else b.Remove(k);
        lookup(b, p.n - 1); sym_check(consistent(b), "remove-consistent");
        sym_check(!b.Exist(t) & t->Name == p.n - 1, "remove-gone");
        for (int i = 0; i < p.n - 1; i++) same = same & b._component_name[i] == (i == k ? p.at[p.n - 1] : p.at[i]);
        sym_check(same, "remove-keeps-others");
        b.Recover(1);
        bool in = b.HowMany() == p.n & b.Exist(t); for (int i = 0; i < p.n; i++) in = in & b.Exist(p.at[i]);
        sym_check(in & consistent(b), "remove-undo");
        if (op == 1 & p.n < MAX_BUNDLE) {                        // an object that is not in use is refused
            sym_abort_ok(true, "foreign"); b.Remove(p.at[p.n]); sym_check(false, "remove-foreign-refused");
        }
    }
    sym_reach("end");
}
HARNESS(h_pool_g) { run<GLine>(); }
HARNESS(h_pool_w) { run<WLine>(); }
HARNESS(h_pool_v) { run<Vertex>(); }
HARNESS(h_pool_new)
{
    Bundle<GLine> g("G"); Bundle<WLine> w("W"); Bundle<Vertex> v("V");
    sym_check(consistent(g) & consistent(w) & consistent(v), "new-consistent");
    sym_check(g.HowMany() == 0 & w.HowMany() == 0 & v.HowMany() == 0, "new-empty");
    bool in = sym_bool("x"); sym_check(in | !in, "new"); sym_reach("end");
}
