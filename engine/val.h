// Symbolic values: concrete-first integers, floats (three encodings), guarded pointer sets.
#pragma once
#include <z3++.h>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <map>
#include <cmath>
#include <cstring>

enum FpMode { FP_IEEE, FP_REAL, FP_GROUP };
extern z3::context C;
extern FpMode FPM;

struct PT;
struct Val {
  enum K : uint8_t { UNDEF, INT, FP, PTR, AGG } k = UNDEF;
  uint32_t w = 0; // INT: bit width; FP: 32/64
  bool conc = false;
  uint64_t c = 0;
  double d = 0;
  z3::expr e;
  std::shared_ptr<std::vector<PT>> p;
  std::shared_ptr<std::vector<Val>> a;
  Val() : e(C) {}
};
struct PT {
  z3::expr cond; // Bool
  int obj;
  Val off; // INT 64
  PT(z3::expr c, int o, Val f) : cond(c), obj(o), off(f) {}
};

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sext64(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ull << (w - 1);
  v &= maskw(w);
  return (int64_t)((v ^ m) - m);
}
inline Val mkInt(uint64_t v, unsigned w) {
  Val r; r.k = Val::INT; r.w = w; r.conc = true; r.c = v & maskw(w); return r;
}
inline bool isTrue(const z3::expr &e) { return e.is_true(); }
inline bool isFalse(const z3::expr &e) { return e.is_false(); }
inline Val mkBool(const z3::expr &e) {
  Val r; r.k = Val::INT; r.w = 1;
  if (e.is_true()) { r.conc = true; r.c = 1; }
  else if (e.is_false()) { r.conc = true; r.c = 0; }
  else r.e = e;
  return r;
}
inline Val mkIntE(const z3::expr &e0) {
  z3::expr e = e0;
  if (e.is_bool()) return mkBool(e);
  Val r; r.k = Val::INT; r.w = e.get_sort().bv_size();
  uint64_t v;
  if (r.w <= 64 && e.is_numeral_u64(v)) { r.conc = true; r.c = v; return r; }
  r.e = e;
  return r;
}
// expr of an INT value (Bool sort for width 1)
inline z3::expr ex(const Val &v) {
  if (v.conc) {
    if (v.w == 1) return C.bool_val(v.c != 0);
    return C.bv_val((uint64_t)v.c, v.w);
  }
  return v.e;
}
inline z3::expr bx(const Val &v) { // as BV (width 1 -> BV1)
  if (v.w == 1) return v.conc ? C.bv_val((unsigned)v.c, 1) : z3::ite(v.e, C.bv_val(1, 1), C.bv_val(0, 1));
  return ex(v);
}
inline z3::expr bvToVal(const z3::expr &b) { return b; }

inline z3::expr zand(const z3::expr &a, const z3::expr &b) {
  if (a.is_true()) return b;
  if (b.is_true()) return a;
  if (a.is_false() || b.is_false()) return C.bool_val(false);
  if (z3::eq(a, b)) return a;
  return a && b;
}
inline z3::expr zor(const z3::expr &a, const z3::expr &b) {
  if (a.is_false()) return b;
  if (b.is_false()) return a;
  if (a.is_true() || b.is_true()) return C.bool_val(true);
  if (z3::eq(a, b)) return a;
  return a || b;
}
inline z3::expr znot(const z3::expr &a) {
  if (a.is_true()) return C.bool_val(false);
  if (a.is_false()) return C.bool_val(true);
  if (a.is_app() && a.decl().decl_kind() == Z3_OP_NOT) return a.arg(0);
  return !a;
}
inline z3::expr zite(const z3::expr &c, const z3::expr &a, const z3::expr &b) {
  if (c.is_true()) return a;
  if (c.is_false()) return b;
  if (z3::eq(a, b)) return a;
  if (c.is_app() && c.num_args() == 2 && c.decl().decl_kind() == Z3_OP_EQ) { // ite(x = y, x, y) is y
    if ((z3::eq(c.arg(0), a) && z3::eq(c.arg(1), b)) || (z3::eq(c.arg(0), b) && z3::eq(c.arg(1), a))) return b;
  }
  if (a.is_bool()) {
    if (a.is_true() && b.is_false()) return c;
    if (a.is_false() && b.is_true()) return znot(c);
  }
  return z3::ite(c, a, b);
}
inline z3::expr zeq(const z3::expr &a, const z3::expr &b) {
  if (z3::eq(a, b)) return C.bool_val(true);
  if (a.is_numeral() && b.is_numeral() && a.is_bv()) return C.bool_val(false);
  return a == b;
}
// ---- floats
z3::sort fpSort(unsigned w);
z3::expr fx(const Val &v);            // expr in the current mode
Val mkFpE(const z3::expr &e, unsigned w);
inline Val mkFp(double d, unsigned w) {
  Val r; r.k = Val::FP; r.w = w; r.conc = true; r.d = w == 32 ? (double)(float)d : d; return r;
}
