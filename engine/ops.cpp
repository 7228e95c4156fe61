#include "ops.h"
#include <algorithm>
#include <unordered_map>
#include <llvm/IR/Instruction.h>
#include <llvm/IR/InstrTypes.h>
using namespace z3;
typedef llvm::Instruction I;
typedef llvm::CmpInst P;
z3::context C;
FpMode FPM = FP_IEEE;
std::vector<z3::expr> AXIOMS;

static expr W(Z3_ast a) { C.check_error(); return expr(C, a); }
static expr rne() { static Z3_ast r = [] { Z3_ast a = Z3_mk_fpa_rne(C); Z3_inc_ref(C, a); return a; }(); return W(r); }
static expr rtz() { static Z3_ast r = [] { Z3_ast a = Z3_mk_fpa_rtz(C); Z3_inc_ref(C, a); return a; }(); return W(r); }
z3::sort fpSort(unsigned w) {
  if (FPM == FP_IEEE) return w == 32 ? C.fpa_sort(8, 24) : C.fpa_sort(11, 53);
  if (FPM == FP_REAL) return C.real_sort();
  return C.bv_sort(16);
}
static std::string pow2str(int k) {
  std::string s = "1";
  for (int i = 0; i < k; i++) {
    int c = 0;
    for (int j = (int)s.size() - 1; j >= 0; j--) { int v = (s[j] - '0') * 2 + c; s[j] = '0' + v % 10; c = v / 10; }
    if (c) s = std::string(1, '0' + c) + s;
  }
  return s;
}
static expr realConst(double d) {
  if (!std::isfinite(d)) return C.real_const(std::isnan(d) ? "nan!" : d > 0 ? "inf!" : "ninf!");
  if (d == (double)(long long)d && std::fabs(d) < 1e15) return C.real_val(std::to_string((long long)d).c_str());
  int ex; double m = std::frexp(d, &ex);
  long long mi = (long long)std::ldexp(m, 53); ex -= 53;
  while (mi && !(mi & 1)) { mi >>= 1; ex++; }
  if (ex >= 0) return C.real_val(std::to_string(mi).c_str()) * C.real_val(pow2str(ex).c_str());
  return C.real_val((std::to_string(mi) + "/" + pow2str(-ex)).c_str());
}
static expr low(const expr &g) { return g.extract(7, 0); }
static expr high(const expr &g) { return g.extract(15, 8); }
static expr gmk(const expr &h, const expr &l) { return z3::concat(h, l); }
static expr gconst(double d) {
  static std::map<uint64_t, Z3_ast> memo;
  uint64_t bits; memcpy(&bits, &d, 8);
  auto it = memo.find(bits);
  if (it != memo.end()) return W(it->second);
  expr r(C);
  if (d == 0) r = C.bv_const("g!zero", 16);
  else {
    double a = std::fabs(d);
    expr l = C.bv_val(0, 8); bool ok = false;
    for (long den = 1; den <= 20000 && !ok; den++) {
      double n = a * den;
      if (n > 1e9) break;
      long num = lround(n);
      if (num <= 0 || num / (double)den != a) continue;
      long N = num, Dn = den; expr s = C.bv_val(0, 8);
      for (long pr : {2, 3, 5, 7, 11, 13, 17, 19, 23}) {
        int k = 0;
        while (N % pr == 0) { N /= pr; k++; }
        while (Dn % pr == 0) { Dn /= pr; k--; }
        if (k) s = s + C.bv_const(("g!p" + std::to_string(pr)).c_str(), 8) * C.bv_val(k & 255, 8);
      }
      if (N == 1 && Dn == 1) { l = s.simplify(); ok = true; }
      break;
    }
    if (!ok) l = C.bv_const(("g!c" + std::to_string(bits & ~(1ull << 63))).c_str(), 8);
    r = gmk(C.bv_val(d < 0 ? 128 : 0, 8), l).simplify();
  }
  Z3_inc_ref(C, r); memo.emplace(bits, (Z3_ast)r);
  return r;
}
expr valOf(const expr &g) {
  static Z3_func_decl fd = nullptr;
  func_decl f = C.function("g!val", C.bv_sort(16), C.bv_sort(16));
  if (!fd) {
    fd = f; 
    AXIOMS.push_back(f(gconst(0.0)) == C.bv_val(0, 16));
    AXIOMS.push_back(f(gconst(1.0)) == C.bv_val(0x4000, 16));
  }
  return f(g);
}
expr fx(const Val &v) {
  if (!v.conc) return v.e;
  if (FPM == FP_IEEE) return v.w == 32 ? C.fpa_val((float)v.d) : C.fpa_val(v.d);
  if (FPM == FP_REAL) return realConst(v.d);
  return gconst(v.d);
}
Val mkFpE(const expr &e, unsigned w) { Val r; r.k = Val::FP; r.w = w; r.e = e; return r; }

bool sameVal(const Val &a, const Val &b) {
  if (a.k != b.k || a.w != b.w || a.conc != b.conc) return false;
  switch (a.k) {
  case Val::UNDEF: return true;
  case Val::INT: return a.conc ? a.c == b.c : z3::eq(a.e, b.e);
  case Val::FP: return a.conc ? memcmp(&a.d, &b.d, 8) == 0 : z3::eq(a.e, b.e);
  case Val::PTR:
    if (a.p == b.p) return true;
    if (a.p->size() != b.p->size()) return false;
    for (size_t i = 0; i < a.p->size(); i++) {
      auto &x = (*a.p)[i], &y = (*b.p)[i];
      if (x.obj != y.obj || !z3::eq(x.cond, y.cond) || !sameVal(x.off, y.off)) return false;
    }
    return true;
  case Val::AGG:
    if (a.a->size() != b.a->size()) return false;
    for (size_t i = 0; i < a.a->size(); i++) if (!sameVal((*a.a)[i], (*b.a)[i])) return false;
    return true;
  }
  return false;
}
Val iteVal(const expr &c, const Val &a, const Val &b, bool &ok) {
  if (isTrue(c)) return a;
  if (isFalse(c)) return b;
  if (sameVal(a, b)) return a;
  if (a.k == Val::UNDEF) return b;
  if (b.k == Val::UNDEF) return a;
  if (a.k == Val::PTR && b.k == Val::INT && b.conc && b.c == 0) {
    Val n; n.k = Val::PTR; n.w = 64; n.p = std::make_shared<std::vector<PT>>();
    n.p->push_back(PT(C.bool_val(true), 0, mkInt(0, 64)));
    return iteVal(c, a, n, ok);
  }
  if (b.k == Val::PTR && a.k == Val::INT && a.conc && a.c == 0) return iteVal(znot(c), b, a, ok);
  if (a.k != b.k) { ok = false; return a; }
  switch (a.k) {
  case Val::INT:
    if (a.w != b.w) { ok = false; return a; }
    return mkIntE(zite(c, ex(a), ex(b)));
  case Val::FP: return mkFpE(zite(c, fx(a), fx(b)), a.w);
  case Val::PTR: {
    Val r; r.k = Val::PTR; r.w = 64; r.p = std::make_shared<std::vector<PT>>();
    auto add = [&](const PT &t, const expr &g) {
      expr cd = zand(g, t.cond);
      if (isFalse(cd)) return;
      for (auto &q : *r.p)
        if (q.obj == t.obj && sameVal(q.off, t.off)) { q.cond = zor(q.cond, cd); return; }
      r.p->push_back(PT(cd, t.obj, t.off));
    };
    expr nc = znot(c);
    for (auto &t : *a.p) add(t, c);
    for (auto &t : *b.p) add(t, nc);
    // same target under (c and x) or (not c and y): simplify the trivial full case
    if (r.p->size() == 1) (*r.p)[0].cond = C.bool_val(true);
    return r;
  }
  case Val::AGG: {
    if (a.a->size() != b.a->size()) { ok = false; return a; }
    Val r = a; r.a = std::make_shared<std::vector<Val>>();
    for (size_t i = 0; i < a.a->size(); i++) r.a->push_back(iteVal(c, (*a.a)[i], (*b.a)[i], ok));
    return r;
  }
  default: return a;
  }
}
// signed interval of a bit-vector term, from the declared bounds of the input symbols
static std::map<std::string, std::pair<int64_t, int64_t>> RB;
static std::unordered_map<unsigned, std::pair<int64_t, int64_t>> RMEMO;
static std::vector<expr> RKEEP;
static void rangeReset();
void rangeDecl(const std::string &n, int64_t lo, int64_t hi) {
  auto it = RB.find(n);
  if (it == RB.end()) { RB[n] = {lo, hi}; return; }
  if (lo < it->second.first || hi > it->second.second) { it->second.first = std::min(lo, it->second.first); it->second.second = std::max(hi, it->second.second); rangeReset(); }
}
// ranges of particular terms (zero-extended inputs); unions over re-declarations
static std::unordered_map<unsigned, std::pair<int64_t, int64_t>> RSET;
static std::unordered_map<unsigned, unsigned> NMEMO; static std::vector<expr> NKEEP;
static void rangeReset() { RMEMO.clear(); NMEMO.clear(); NKEEP.clear(); }
void rangeSet(const expr &e, int64_t lo, int64_t hi) {
  unsigned id = Z3_get_ast_id(C, e);
  auto it = RSET.find(id);
  if (it == RSET.end()) { RSET[id] = {lo, hi}; RKEEP.push_back(e); return; }
  if (lo < it->second.first || hi > it->second.second) { it->second.first = std::min(lo, it->second.first); it->second.second = std::max(hi, it->second.second); rangeReset(); }
}
static bool fitsW(__int128 lo, __int128 hi, unsigned w) { __int128 m = (__int128)1 << (w - 1); return lo >= -m && hi < m; }
bool rangeOf(const expr &e, int64_t &lo, int64_t &hi, int depth) {
  if (!e.is_bv()) return false;
  unsigned w = e.get_sort().bv_size();
  if (w > 64) return false;
  lo = w == 64 ? INT64_MIN : -((int64_t)1 << (w - 1)); hi = -(lo + 1);
  uint64_t u;
  if (e.is_numeral_u64(u)) { lo = hi = sext64(u, w); return true; }
  if (!e.is_app() || depth > 24) return true;
  auto it = RMEMO.find(Z3_get_ast_id(C, e));
  if (it != RMEMO.end()) { lo = it->second.first; hi = it->second.second; return true; }
  { auto rs = RSET.find(Z3_get_ast_id(C, e)); if (rs != RSET.end()) { lo = rs->second.first; hi = rs->second.second; return true; } }
  int64_t a, b, c, d; __int128 L = lo, H = hi;
  auto k = e.decl().decl_kind(); unsigned n = e.num_args();
  if (n == 0) { auto r = RB.find(e.decl().name().str()); if (r != RB.end()) { lo = r->second.first; hi = r->second.second; } return true; }
  if (k == Z3_OP_BADD) {
    __int128 l = 0, h = 0; bool ok = true;
    for (unsigned i = 0; i < n && ok; i++) { ok = rangeOf(e.arg(i), a, b, depth + 1); l += a; h += b; }
    if (ok && fitsW(l, h, w)) { L = l; H = h; }
  } else if (k == Z3_OP_BSUB && n == 2) {
    if (rangeOf(e.arg(0), a, b, depth + 1) && rangeOf(e.arg(1), c, d, depth + 1)) { __int128 l = (__int128)a - d, h = (__int128)b - c; if (fitsW(l, h, w)) { L = l; H = h; } }
  } else if (k == Z3_OP_BNEG) {
    if (rangeOf(e.arg(0), a, b, depth + 1) && fitsW(-(__int128)b, -(__int128)a, w)) { L = -(__int128)b; H = -(__int128)a; }
  } else if (k == Z3_OP_BMUL && n == 2) {
    if (rangeOf(e.arg(0), a, b, depth + 1) && rangeOf(e.arg(1), c, d, depth + 1) && a > INT32_MIN && b < INT32_MAX && c > INT32_MIN && d < INT32_MAX) {
      __int128 p[4] = {(__int128)a * c, (__int128)a * d, (__int128)b * c, (__int128)b * d};
      __int128 l = *std::min_element(p, p + 4), h = *std::max_element(p, p + 4);
      if (fitsW(l, h, w)) { L = l; H = h; }
    }
  } else if (k == Z3_OP_ITE) {
    expr cnd = e.arg(0); bool neg = false;
    if (cnd.is_app() && cnd.decl().decl_kind() == Z3_OP_NOT) { cnd = cnd.arg(0); neg = true; }
    auto ck = cnd.is_app() ? cnd.decl().decl_kind() : Z3_OP_TRUE; uint64_t cv;
    auto branch = [&](const expr &br, bool taken, int64_t &l, int64_t &h) -> bool {
      if (!rangeOf(br, l, h, depth + 1)) return false;
      if ((ck == Z3_OP_SGT || ck == Z3_OP_SLT || ck == Z3_OP_SGEQ || ck == Z3_OP_SLEQ) && cnd.arg(1).is_numeral_u64(cv)) {
        expr x = cnd.arg(0); int64_t v = sext64(cv, w); if (x.get_sort().bv_size() != w) return true;
        bool t = taken != neg; int64_t xl, xh; if (!rangeOf(x, xl, xh, depth + 1)) return true;
        auto K = ck; if (!t) K = ck == Z3_OP_SGT ? Z3_OP_SLEQ : ck == Z3_OP_SLT ? Z3_OP_SGEQ : ck == Z3_OP_SGEQ ? Z3_OP_SLT : Z3_OP_SGT;
        if (K == Z3_OP_SGT && v < INT64_MAX) xl = std::max(xl, v + 1); if (K == Z3_OP_SGEQ) xl = std::max(xl, v);
        if (K == Z3_OP_SLT && v > INT64_MIN) xh = std::min(xh, v - 1); if (K == Z3_OP_SLEQ) xh = std::min(xh, v);
        if (xl > xh) { l = 1; h = 0; return true; } // branch impossible
        if (z3::eq(br, x)) { l = std::max(l, xl); h = std::min(h, xh); return true; }
        if (br.is_app() && br.num_args() == 2 && (br.decl().decl_kind() == Z3_OP_BADD || br.decl().decl_kind() == Z3_OP_BSUB)) {
          uint64_t q; __int128 sh; bool hit = false;
          if (z3::eq(br.arg(0), x) && br.arg(1).is_numeral_u64(q)) { sh = sext64(q, w); hit = true; if (br.decl().decl_kind() == Z3_OP_BSUB) sh = -sh; }
          else if (br.decl().decl_kind() == Z3_OP_BADD && z3::eq(br.arg(1), x) && br.arg(0).is_numeral_u64(q)) { sh = sext64(q, w); hit = true; }
          if (hit && fitsW(xl + sh, xh + sh, w)) { l = (int64_t)(xl + sh); h = (int64_t)(xh + sh); }
        }
      }
      return true;
    };
    if (branch(e.arg(1), true, a, b) && branch(e.arg(2), false, c, d)) {
      if (a > b) { L = c; H = d; } else if (c > d) { L = a; H = b; } else { L = std::min(a, c); H = std::max(b, d); }
      if (L > H) { L = lo; H = hi; }
    }
  } else if (k == Z3_OP_SIGN_EXT) {
    if (rangeOf(e.arg(0), a, b, depth + 1)) { L = a; H = b; }
  } else if (k == Z3_OP_ZERO_EXT) {
    unsigned w0 = e.arg(0).get_sort().bv_size();
    if (rangeOf(e.arg(0), a, b, depth + 1) && a >= 0) { L = a; H = b; }
    else if (w0 < 63) { L = 0; H = ((int64_t)1 << w0) - 1; }
  } else if (k == Z3_OP_CONCAT && n == 2 && e.arg(0).is_numeral_u64(u) && u == 0) {
    unsigned w0 = e.arg(1).get_sort().bv_size();
    if (rangeOf(e.arg(1), a, b, depth + 1) && a >= 0) { L = a; H = b; }
    else if (w0 < 63) { L = 0; H = ((int64_t)1 << w0) - 1; }
  } else if (k == Z3_OP_EXTRACT) {
    if (Z3_get_decl_int_parameter(C, e.decl(), 1) == 0 && rangeOf(e.arg(0), a, b, depth + 1) && fitsW(a, b, w)) { L = a; H = b; }
  }
  lo = (int64_t)L; hi = (int64_t)H;
  RMEMO[Z3_get_ast_id(C, e)] = {lo, hi}; RKEEP.push_back(e);
  return true;
}
// ---- narrowing: the same formula with every bounded term computed in the fewest bits
static unsigned bitsOf(int64_t lo, int64_t hi) { unsigned n = 1; while (n < 64 && (lo < -((int64_t)1 << (n - 1)) || hi > ((int64_t)1 << (n - 1)) - 1)) n++; return n; }
static expr resize(const expr &e, unsigned n) {
  unsigned w = e.get_sort().bv_size(); uint64_t u;
  if (w == n) return e;
  if (e.is_numeral_u64(u)) return C.bv_val((uint64_t)sext64(u, w) & maskw(n), n);
  if (w < n) return z3::sext(e, n - w);
  if (e.is_app() && e.decl().decl_kind() == Z3_OP_SIGN_EXT && e.arg(0).get_sort().bv_size() >= n) return resize(e.arg(0), n);
  return e.extract(n - 1, 0);
}
static expr rebuild(const expr &e, const std::vector<expr> &a) {
  std::vector<Z3_ast> v; for (auto &x : a) v.push_back(x);
  return expr(C, Z3_mk_app(C, e.decl(), v.size(), v.data()));
}
static expr mkOp(Z3_decl_kind k, const expr &x, const expr &y) {
  switch (k) {
  case Z3_OP_BADD: return x + y; case Z3_OP_BSUB: return x - y; case Z3_OP_BMUL: return x * y;
  case Z3_OP_BAND: return x & y; case Z3_OP_BOR: return x | y; case Z3_OP_BXOR: return x ^ y;
  case Z3_OP_BSREM: return z3::srem(x, y); case Z3_OP_BSDIV: return x / y; case Z3_OP_BUDIV: return z3::udiv(x, y); case Z3_OP_BUREM: return z3::urem(x, y);
  case Z3_OP_SLT: return x < y; case Z3_OP_SLEQ: return x <= y; case Z3_OP_SGT: return x > y; case Z3_OP_SGEQ: return x >= y;
  case Z3_OP_ULT: return z3::ult(x, y); case Z3_OP_ULEQ: return z3::ule(x, y); case Z3_OP_UGT: return z3::ugt(x, y); case Z3_OP_UGEQ: return z3::uge(x, y);
  default: return x == y;
  }
}
static expr narrowBV(const expr &e);
expr narrow(const expr &e) {
  if (!e.is_app() || e.num_args() == 0) return e;
  auto it = NMEMO.find(Z3_get_ast_id(C, e));
  if (it != NMEMO.end()) return NKEEP[it->second];
  expr r = e; auto k = e.decl().decl_kind(); unsigned n = e.num_args();
  if (e.is_bv() && e.get_sort().bv_size() <= 64) r = resize(narrowBV(e), e.get_sort().bv_size());
  else if (n == 2 && e.arg(0).is_bv() && e.arg(0).get_sort().bv_size() <= 64 && e.is_bool() &&
      (k == Z3_OP_EQ || k == Z3_OP_DISTINCT || k == Z3_OP_SLT || k == Z3_OP_SLEQ || k == Z3_OP_SGT || k == Z3_OP_SGEQ || k == Z3_OP_ULT || k == Z3_OP_ULEQ || k == Z3_OP_UGT || k == Z3_OP_UGEQ)) {
    expr x = narrowBV(e.arg(0)), y = narrowBV(e.arg(1)); unsigned m = std::max(x.get_sort().bv_size(), y.get_sort().bv_size());
    r = mkOp(k, resize(x, m), resize(y, m)); if (k == Z3_OP_DISTINCT) r = !r;
  } else {
    std::vector<expr> a; bool same = true;
    for (unsigned i = 0; i < n; i++) { expr c = e.arg(i); a.push_back(narrow(c)); same = same && z3::eq(c, a.back()); }
    if (!same) r = rebuild(e, a);
  }
  NMEMO[Z3_get_ast_id(C, e)] = NKEEP.size(); NKEEP.push_back(r); RKEEP.push_back(e);
  return r;
}
static expr narrowBV(const expr &e) {
  uint64_t u; unsigned w = e.get_sort().bv_size();
  if (w <= 64 && e.is_numeral_u64(u)) { int64_t v = sext64(u, w); unsigned n = std::min(w, bitsOf(v, v)); return C.bv_val((uint64_t)v & maskw(n), n); }
  if (!e.is_app() || e.num_args() == 0 || w > 64) return e;
  unsigned key = Z3_get_ast_id(C, e) ; // separate namespace from narrow(): keyed with the top bit
  auto it = NMEMO.find(key | 0x80000000u);
  if (it != NMEMO.end()) return NKEEP[it->second];
  auto k = e.decl().decl_kind(); unsigned n = e.num_args();
  int64_t lo, hi; unsigned nb = w;
  if (rangeOf(e, lo, hi)) nb = std::min(w, bitsOf(lo, hi));
  expr r = e; bool done = true;
  switch (k) {
  case Z3_OP_SIGN_EXT: r = narrowBV(e.arg(0)); break;
  case Z3_OP_ZERO_EXT: { expr a = narrow(e.arg(0)); unsigned w0 = a.get_sort().bv_size(); int64_t l2, h2;
    if (RSET.count(key)) r = z3::zext(a, 1);
    else if (rangeOf(e.arg(0), l2, h2) && l2 >= 0 && e.arg(0).num_args()) r = narrowBV(e.arg(0)); else r = w0 + 1 <= w ? z3::zext(a, 1) : a; break; }
  case Z3_OP_EXTRACT: if (Z3_get_decl_int_parameter(C, e.decl(), 1) == 0) { expr a = narrowBV(e.arg(0)); r = a.get_sort().bv_size() <= w ? a : resize(a, std::min(w, nb)); } else done = false; break;
  case Z3_OP_BADD: case Z3_OP_BSUB: case Z3_OP_BMUL: {
    r = resize(narrowBV(e.arg(0)), nb);
    for (unsigned i = 1; i < n; i++) r = mkOp(k, r, resize(narrowBV(e.arg(i)), nb));
    break;
  }
  case Z3_OP_BNEG: r = -resize(narrowBV(e.arg(0)), nb); break;
  case Z3_OP_ITE: { expr a = resize(narrowBV(e.arg(1)), nb), b = resize(narrowBV(e.arg(2)), nb); r = z3::eq(a, b) ? a : z3::ite(narrow(e.arg(0)), a, b); break; }
  case Z3_OP_BAND: case Z3_OP_BOR: case Z3_OP_BXOR: case Z3_OP_BSREM: case Z3_OP_BSDIV: {
    if (n != 2) { done = false; break; }
    expr a = narrowBV(e.arg(0)), b = narrowBV(e.arg(1)); unsigned m = std::max(a.get_sort().bv_size(), b.get_sort().bv_size());
    if (k == Z3_OP_BSDIV) m = std::min(w, m + 1);
    r = mkOp(k, resize(a, m), resize(b, m)); break;
  }
  case Z3_OP_BUDIV: case Z3_OP_BUREM: {
    int64_t a0, a1, b0, b1;
    if (n != 2 || !rangeOf(e.arg(0), a0, a1) || !rangeOf(e.arg(1), b0, b1) || a0 < 0 || b0 <= 0) { done = false; break; }
    expr a = narrowBV(e.arg(0)), b = narrowBV(e.arg(1)); unsigned m = std::max(a.get_sort().bv_size(), b.get_sort().bv_size());
    r = mkOp(k, resize(a, m), resize(b, m)); break;
  }
  default: done = false;
  }
  if (!done) {
    std::vector<expr> a; bool same = true;
    for (unsigned i = 0; i < n; i++) { expr c = e.arg(i); a.push_back(narrow(c)); same = same && z3::eq(c, a.back()); }
    if (!same) r = rebuild(e, a);
    if (nb < w) r = resize(r, nb);
  }
  NMEMO[key | 0x80000000u] = NKEEP.size(); NKEEP.push_back(r); RKEEP.push_back(e);
  return r;
}
// ---- linear forms modulo M: sums of terms that stay in range, reductions x -> x +- M dropped
struct Lin { std::map<unsigned, int64_t> c; int64_t k = 0; bool operator==(const Lin &o) const { return k == o.k && c == o.c; } };
static std::map<unsigned, expr> ATOM;
typedef std::map<unsigned, bool> Asg; // branch conditions fixed while splitting
static void linAdd(Lin &a, const Lin &b, int64_t f, int64_t M) {
  f %= M;
  a.k = (a.k + b.k * f % M) % M; if (a.k < 0) a.k += M;
  for (auto &t : b.c) { int64_t v = (a.c[t.first] + t.second * f % M) % M; if (v < 0) v += M; if (v) a.c[t.first] = v; else a.c.erase(t.first); }
}
static Lin linOf(const expr &e, int64_t M, const Asg &as, int depth) {
  Lin r; uint64_t u; unsigned w = e.get_sort().bv_size();
  if (e.is_numeral_u64(u)) { r.k = sext64(u, w) % M; if (r.k < 0) r.k += M; return r; }
  int64_t a, b, c, d; 
  if (e.is_app() && depth < 60 && e.num_args()) {
    auto k = e.decl().decl_kind(); unsigned n = e.num_args();
    if (k == Z3_OP_SIGN_EXT) return linOf(e.arg(0), M, as, depth + 1);
    if ((k == Z3_OP_BADD || k == Z3_OP_BSUB) && n == 2 && rangeOf(e.arg(0), a, b) && rangeOf(e.arg(1), c, d)) {
      __int128 l = k == Z3_OP_BADD ? (__int128)a + c : (__int128)a - d, h = k == Z3_OP_BADD ? (__int128)b + d : (__int128)b - c;
      if (fitsW(l, h, w)) { r = linOf(e.arg(0), M, as, depth + 1); linAdd(r, linOf(e.arg(1), M, as, depth + 1), k == Z3_OP_BADD ? 1 : -1, M); return r; }
    }
    if (k == Z3_OP_BNEG && rangeOf(e.arg(0), a, b) && fitsW(-(__int128)b, -(__int128)a, w)) { linAdd(r, linOf(e.arg(0), M, as, depth + 1), -1, M); return r; }
    if (k == Z3_OP_BMUL && n == 2) for (int i = 0; i < 2; i++) if (e.arg(i).is_numeral_u64(u)) {
      int64_t f = sext64(u, w);
      if (f > -1000000 && f < 1000000 && rangeOf(e.arg(1 - i), a, b) && fitsW((__int128)a * f, (__int128)a * f, w) && fitsW((__int128)b * f, (__int128)b * f, w)) { linAdd(r, linOf(e.arg(1 - i), M, as, depth + 1), f, M); return r; }
    }
    if (k == Z3_OP_EXTRACT && Z3_get_decl_int_parameter(C, e.decl(), 1) == 0 && rangeOf(e.arg(0), a, b) && fitsW(a, b, w)) return linOf(e.arg(0), M, as, depth + 1);
    if (k == Z3_OP_ITE) {
      auto it = as.find(Z3_get_ast_id(C, e.arg(0)));
      if (it != as.end()) return linOf(e.arg(it->second ? 1 : 2), M, as, depth + 1);
      Lin x = linOf(e.arg(1), M, as, depth + 1), y = linOf(e.arg(2), M, as, depth + 1);
      if (x == y) return x;
    }
  }
  unsigned id = Z3_get_ast_id(C, e); ATOM.emplace(id, e);
  r.c[id] = 1; return r;
}
static std::unordered_map<unsigned, std::pair<expr, int64_t>> MODF; // bool term -> (sum, modulus) it says is zero
static expr modSplit(const expr &s, int64_t M, const std::vector<std::pair<unsigned, Lin>> &facts, Asg &as, const expr &full, int depth) {
  Lin l = linOf(s, M, as, 0);
  for (auto &f : facts) { auto it = l.c.find(f.first); if (it != l.c.end()) linAdd(l, f.second, -it->second, M); }
  if (l.c.empty() && l.k == 0) return C.bool_val(true);
  if (depth < 8) for (auto &t : l.c) {
    expr a = ATOM.at(t.first);
    if (a.is_app() && a.decl().decl_kind() == Z3_OP_ITE) {
      expr c = a.arg(0); unsigned id = Z3_get_ast_id(C, c);
      as[id] = true; expr x = modSplit(s, M, facts, as, full, depth + 1);
      as[id] = false; expr y = modSplit(s, M, facts, as, full, depth + 1);
      as.erase(id);
      return zite(c, x, y);
    }
  }
  return full;
}
// Bool: s is a multiple of M (|s| < range of the caller); decided from the assumed sums in pc when possible
expr modZero(const expr &s, int64_t M, const std::vector<expr> &pc) {
  int64_t lo = 0, hi = 0; rangeOf(s, lo, hi);
  expr full = C.bool_val(false); unsigned w = s.get_sort().bv_size();
  if (lo < -20 * M || hi > 20 * M) full = z3::srem(s, C.bv_val((uint64_t)M & maskw(w), w)) == C.bv_val(0, w);
  else for (int64_t q = lo / M; q <= hi / M; q++) full = zor(full, zeq(s, C.bv_val((uint64_t)(q * M) & maskw(w), w)));
  std::vector<std::pair<unsigned, Lin>> facts; Asg as;
  for (auto &p : pc) {
    auto it = MODF.find(Z3_get_ast_id(C, p));
    if (it == MODF.end() || it->second.second != M) continue;
    Lin l = linOf(it->second.first, M, as, 0);
    for (auto &f : facts) { auto q = l.c.find(f.first); if (q != l.c.end()) linAdd(l, f.second, -q->second, M); }
    for (auto &t : l.c) if (t.second == 1 || t.second == M - 1) { // pivot with a unit coefficient
      unsigned pv = t.first; Lin n; linAdd(n, l, t.second == 1 ? 1 : -1, M);
      for (auto &f : facts) { auto q = f.second.c.find(pv); if (q != f.second.c.end()) linAdd(f.second, n, -q->second, M); }
      facts.push_back({pv, n}); break;
    }
  }
  expr r = modSplit(s, M, facts, as, full, 0);
  if (!isTrue(r) && !isFalse(full)) { unsigned id = Z3_get_ast_id(C, r); if (!MODF.count(id) && z3::eq(r, full)) { MODF.emplace(id, std::make_pair(s, M)); RKEEP.push_back(r); } }
  return r;
}
Val binInt(unsigned opc, const Val &a, const Val &b) {
  unsigned w = a.w;
  if (a.conc && b.conc && w <= 64) {
    uint64_t x = a.c, y = b.c; int64_t sx = sext64(x, w), sy = sext64(y, w);
    switch (opc) {
    case I::Add: return mkInt(x + y, w);
    case I::Sub: return mkInt(x - y, w);
    case I::Mul: return mkInt(x * y, w);
    case I::UDiv: if (y) return mkInt(x / y, w); break;
    case I::URem: if (y) return mkInt(x % y, w); break;
    case I::SDiv: if (sy && !(sy == -1)) return mkInt(sx / sy, w); if (sy == -1) return mkInt(0 - x, w); break;
    case I::SRem: if (sy == -1) return mkInt(0, w); if (sy) return mkInt(sx % sy, w); break;
    case I::Shl: return mkInt(y >= w ? 0 : x << y, w);
    case I::LShr: return mkInt(y >= w ? 0 : x >> y, w);
    case I::AShr: return mkInt(y >= w ? (sx < 0 ? -1 : 0) : sx >> y, w);
    case I::And: return mkInt(x & y, w);
    case I::Or: return mkInt(x | y, w);
    case I::Xor: return mkInt(x ^ y, w);
    }
  }
  if (w == 1) {
    expr x = ex(a), y = ex(b);
    switch (opc) {
    case I::And: case I::Mul: return mkBool(zand(x, y));
    case I::Or: return mkBool(zor(x, y));
    case I::Xor: case I::Add: case I::Sub:
      if (isTrue(x)) return mkBool(znot(y));
      if (isTrue(y)) return mkBool(znot(x));
      if (isFalse(x)) return mkBool(y);
      if (isFalse(y)) return mkBool(x);
      return mkBool(x != y);
    default: return mkBool(x);
    }
  }
  // neutral elements
  if (b.conc) {
    if (b.c == 0 && (opc == I::Add || opc == I::Sub || opc == I::Or || opc == I::Xor || opc == I::Shl || opc == I::LShr || opc == I::AShr)) return a;
    if (b.c == 1 && (opc == I::Mul || opc == I::UDiv || opc == I::SDiv)) return a;
    if (b.c == 0 && (opc == I::Mul || opc == I::And)) return b;
    if (opc == I::And && b.c == maskw(w) && w <= 64) return a;
  }
  if (a.conc) {
    if (a.c == 0 && (opc == I::Add || opc == I::Or || opc == I::Xor)) return b;
    if (a.c == 1 && opc == I::Mul) return b;
    if (a.c == 0 && (opc == I::Mul || opc == I::And)) return a;
  }
  expr x = ex(a), y = ex(b);
  // push constants through small ite trees whose leaves are constants
  switch (opc) {
  case I::Add: return mkIntE(x + y);
  case I::Sub: if (z3::eq(x, y)) return mkInt(0, w); return mkIntE(x - y);
  case I::Mul: return mkIntE(x * y);
  case I::UDiv: return mkIntE(z3::udiv(x, y));
  case I::URem: return mkIntE(z3::urem(x, y));
  case I::SDiv: return mkIntE(x / y);
  case I::SRem: {
    int64_t lo, hi; int64_t c = sext64(b.c, w);
    if (b.conc && w <= 64 && c > 1 && c < ((int64_t)1 << 40) && rangeOf(x, lo, hi)) {
      if (lo > -c && hi < c) return a;
      if (lo > -2 * c && hi < 2 * c) {
        expr r = x;
        if (hi >= c) r = zite(x >= C.bv_val((uint64_t)c & maskw(w), w), x - y, r);
        if (lo <= -c) r = zite(x <= C.bv_val((uint64_t)-c & maskw(w), w), x + y, r);
        return mkIntE(r);
      }
    }
    return mkIntE(z3::srem(x, y));
  }
  case I::Shl: return mkIntE(z3::shl(x, y));
  case I::LShr: return mkIntE(z3::lshr(x, y));
  case I::AShr: return mkIntE(z3::ashr(x, y));
  case I::And: return mkIntE(x & y);
  case I::Or: return mkIntE(x | y);
  case I::Xor: return mkIntE(x ^ y);
  }
  return a;
}
// comparison against a constant distributes over ite trees with constant leaves
static bool distribute(const expr &e, const std::function<expr(const expr &)> &f, expr &out, int depth) {
  if (e.is_numeral()) { out = f(e); return true; }
  if (depth > 12) return false;
  if (e.is_app() && e.decl().decl_kind() == Z3_OP_ITE) {
    expr a(C), b(C);
    if (!distribute(e.arg(1), f, a, depth + 1) || !distribute(e.arg(2), f, b, depth + 1)) return false;
    out = zite(e.arg(0), a, b);
    return true;
  }
  return false;
}
Val icmpInt(unsigned pred, const Val &a, const Val &b) {
  unsigned w = a.w;
  if (a.conc && b.conc && w <= 64) {
    uint64_t x = a.c, y = b.c; int64_t sx = sext64(x, w), sy = sext64(y, w); bool r = false;
    switch (pred) {
    case P::ICMP_EQ: r = x == y; break; case P::ICMP_NE: r = x != y; break;
    case P::ICMP_UGT: r = x > y; break; case P::ICMP_UGE: r = x >= y; break;
    case P::ICMP_ULT: r = x < y; break; case P::ICMP_ULE: r = x <= y; break;
    case P::ICMP_SGT: r = sx > sy; break; case P::ICMP_SGE: r = sx >= sy; break;
    case P::ICMP_SLT: r = sx < sy; break; case P::ICMP_SLE: r = sx <= sy; break;
    }
    return mkInt(r, 1);
  }
  if (w == 1) {
    expr x = ex(a), y = ex(b);
    switch (pred) {
    case P::ICMP_EQ: return mkBool(isTrue(y) ? x : isFalse(y) ? znot(x) : isTrue(x) ? y : isFalse(x) ? znot(y) : x == y);
    case P::ICMP_NE: return mkBool(isTrue(y) ? znot(x) : isFalse(y) ? x : isTrue(x) ? znot(y) : isFalse(x) ? y : x != y);
    case P::ICMP_UGT: case P::ICMP_SLT: return mkBool(zand(x, znot(y)));
    case P::ICMP_ULT: case P::ICMP_SGT: return mkBool(zand(znot(x), y));
    case P::ICMP_UGE: case P::ICMP_SLE: return mkBool(zor(x, znot(y)));
    default: return mkBool(zor(znot(x), y));
    }
  }
  expr x = ex(a), y = ex(b);
  {
    int64_t l1, h1, l2, h2;
    if (w <= 64 && w > 1 && rangeOf(x, l1, h1) && rangeOf(y, l2, h2)) {
      bool sgn = pred == P::ICMP_SGT || pred == P::ICMP_SGE || pred == P::ICMP_SLT || pred == P::ICMP_SLE;
      bool uns = pred == P::ICMP_UGT || pred == P::ICMP_UGE || pred == P::ICMP_ULT || pred == P::ICMP_ULE;
      if (sgn || (uns && l1 >= 0 && l2 >= 0)) {
        bool gt = pred == P::ICMP_SGT || pred == P::ICMP_UGT, ge = pred == P::ICMP_SGE || pred == P::ICMP_UGE, lt = pred == P::ICMP_SLT || pred == P::ICMP_ULT, le = pred == P::ICMP_SLE || pred == P::ICMP_ULE;
        if (gt || le) { if (l1 > h2) return mkInt(gt, 1); if (h1 <= l2) return mkInt(le, 1); }
        if (lt || ge) { if (h1 < l2) return mkInt(lt, 1); if (l1 >= h2) return mkInt(ge, 1); }
      }
      if ((pred == P::ICMP_EQ || pred == P::ICMP_NE) && (l1 > h2 || l2 > h1)) return mkInt(pred == P::ICMP_NE, 1);
    }
  }
  auto mk = [&](const expr &x, const expr &y) -> expr {
    if (x.is_numeral() && y.is_numeral() && w <= 64) {
      uint64_t u, v;
      if (x.is_numeral_u64(u) && y.is_numeral_u64(v)) return ex(icmpInt(pred, mkInt(u, w), mkInt(v, w)));
    }
    switch (pred) {
    case P::ICMP_EQ: return zeq(x, y); case P::ICMP_NE: return znot(zeq(x, y));
    case P::ICMP_UGT: return z3::ugt(x, y); case P::ICMP_UGE: return z3::uge(x, y);
    case P::ICMP_ULT: return z3::ult(x, y); case P::ICMP_ULE: return z3::ule(x, y);
    case P::ICMP_SGT: return x > y; case P::ICMP_SGE: return x >= y;
    case P::ICMP_SLT: return x < y; default: return x <= y;
    }
  };
  if (z3::eq(x, y)) {
    bool r = pred == P::ICMP_EQ || pred == P::ICMP_UGE || pred == P::ICMP_ULE || pred == P::ICMP_SGE || pred == P::ICMP_SLE;
    return mkInt(r, 1);
  }
  expr out(C);
  if (b.conc && distribute(x, [&](const expr &l) { return mk(l, y); }, out, 0)) return mkBool(out);
  if (a.conc && distribute(y, [&](const expr &l) { return mk(x, l); }, out, 0)) return mkBool(out);
  return mkBool(mk(x, y));
}
Val castInt(unsigned opc, const Val &a, unsigned w) {
  if (a.w == w) return a;
  if (opc == I::Trunc) {
    if (a.conc) return mkInt(a.c, w);
    if (w == 1) return mkBool(a.e.extract(0, 0) == C.bv_val(1, 1));
    return mkIntE(a.e.extract(w - 1, 0).simplify());
  }
  bool s = opc == I::SExt;
  if (a.conc && w <= 64) return mkInt(s ? (uint64_t)sext64(a.c, a.w) : a.c, w);
  if (a.w == 1) {
    if (w <= 64) return mkIntE(z3::ite(ex(a), C.bv_val((uint64_t)(s ? maskw(w) : 1), w), C.bv_val(0, w)));
  }
  expr x = bx(a);
  return mkIntE(s ? z3::sext(x, w - a.w) : z3::zext(x, w - a.w));
}
// ---- group mode: canonical sums (exponents modulo 256 of the atomic magnitudes / phases)
struct LinG { // k + sum c_i*atom_i + sum over conditions (cond ? m : 0)
  std::map<unsigned, unsigned> c; unsigned k = 0; std::map<unsigned, LinG> m;
  bool operator==(const LinG &o) const { return k == o.k && c == o.c && m == o.m; }
  bool none() const { return c.empty() && m.empty(); }
};
static std::unordered_map<unsigned, LinG> GMEMO[2];
static std::vector<expr> GKEEP;
static void addG(LinG &a, const LinG &b, unsigned f) {
  a.k = (a.k + b.k * f) & 255;
  for (auto &t : b.c) { unsigned &x = a.c[t.first]; x = (x + t.second * f) & 255; if (!x) a.c.erase(t.first); }
  for (auto &t : b.m) { LinG &x = a.m[t.first]; addG(x, t.second, f); if (x.none() && !x.k) a.m.erase(t.first); }
}
static LinG atomG(const expr &e) { LinG r; unsigned id = Z3_get_ast_id(C, e); ATOM.emplace(id, e); r.c[id] = 1; return r; }
static LinG iteG(expr c, LinG x, LinG y) { // y + (c ? x - y : 0)
  if (x == y) return x;
  if (c.is_app() && c.decl().decl_kind() == Z3_OP_NOT) return iteG(c.arg(0), y, x);
  unsigned id = Z3_get_ast_id(C, c);
  auto fix = [&](LinG &l, bool t) { auto it = l.m.find(id); if (it == l.m.end()) return; LinG d = it->second; l.m.erase(it); if (t) addG(l, d, 1); };
  fix(x, true); fix(y, false);
  LinG d = x; addG(d, y, 255);
  if (d.none() && !d.k) return y;
  ATOM.emplace(id, c); LinG r = y; LinG &t = r.m[id]; addG(t, d, 1); if (t.none() && !t.k) r.m.erase(id);
  return r;
}
static int asgOf(const Asg &as, expr c) { // fixed value of a condition, -1 when free
  bool neg = false; while (c.is_app() && c.decl().decl_kind() == Z3_OP_NOT) { c = c.arg(0); neg = !neg; }
  auto it = as.find(Z3_get_ast_id(C, c)); return it == as.end() ? -1 : it->second ^ neg;
}
static LinG lin8(const expr &e, const Asg &as);
static LinG linH(const expr &e, int half, const Asg &as) {
  if (e.is_app() && e.num_args()) {
    auto k = e.decl().decl_kind();
    if (k == Z3_OP_CONCAT && e.num_args() == 2 && e.arg(0).get_sort().bv_size() == 8) return lin8(e.arg(half ? 0 : 1), as);
    if (k == Z3_OP_ITE) {
      if (!as.empty()) { int t = asgOf(as, e.arg(0)); if (t >= 0) return linH(e.arg(t ? 1 : 2), half, as); }
      if (as.empty()) { auto m = GMEMO[half].find(Z3_get_ast_id(C, e)); if (m != GMEMO[half].end()) return m->second; }
      LinG x = linH(e.arg(1), half, as), y = linH(e.arg(2), half, as);
      LinG r = iteG(e.arg(0), x, y);
      if (as.empty()) { GMEMO[half][Z3_get_ast_id(C, e)] = r; GKEEP.push_back(e); }
      return r;
    }
  }
  uint64_t u; if (e.is_numeral_u64(u)) { LinG r; r.k = half ? (u >> 8) & 255 : u & 255; return r; }
  return atomG(half ? high(e) : low(e));
}
static LinG lin8(const expr &e, const Asg &as) {
  LinG r; uint64_t u;
  if (e.is_numeral_u64(u)) { r.k = u & 255; return r; }
  if (!e.is_app() || !e.num_args()) return atomG(e);
  if (as.empty()) { auto m = GMEMO[0].find(Z3_get_ast_id(C, e)); if (m != GMEMO[0].end()) return m->second; }
  auto k = e.decl().decl_kind(); unsigned n = e.num_args(); bool ok = true;
  if (k == Z3_OP_BADD) for (unsigned i = 0; i < n; i++) addG(r, lin8(e.arg(i), as), 1);
  else if (k == Z3_OP_BSUB && n == 2) { addG(r, lin8(e.arg(0), as), 1); addG(r, lin8(e.arg(1), as), 255); }
  else if (k == Z3_OP_BNEG) addG(r, lin8(e.arg(0), as), 255);
  else if (k == Z3_OP_BMUL && n == 2 && e.arg(0).is_numeral_u64(u)) addG(r, lin8(e.arg(1), as), u & 255);
  else if (k == Z3_OP_BMUL && n == 2 && e.arg(1).is_numeral_u64(u)) addG(r, lin8(e.arg(0), as), u & 255);
  else if (k == Z3_OP_BXOR && n == 2 && e.arg(1).is_numeral_u64(u) && u == 128) { addG(r, lin8(e.arg(0), as), 1); r.k = (r.k + 128) & 255; }
  else if (k == Z3_OP_BXOR && n == 2 && e.arg(0).is_numeral_u64(u) && u == 128) { addG(r, lin8(e.arg(1), as), 1); r.k = (r.k + 128) & 255; }
  else if (k == Z3_OP_EXTRACT && e.arg(0).get_sort().bv_size() == 16 && (Z3_get_decl_int_parameter(C, e.decl(), 1) == 0 || Z3_get_decl_int_parameter(C, e.decl(), 1) == 8)) {
    int half = Z3_get_decl_int_parameter(C, e.decl(), 1) == 8; expr a = e.arg(0);
    if (a.is_app() && a.num_args() && (a.decl().decl_kind() == Z3_OP_CONCAT || a.decl().decl_kind() == Z3_OP_ITE)) r = linH(a, half, as); else ok = false;
  } else if (k == Z3_OP_ITE) {
    int t = as.empty() ? -1 : asgOf(as, e.arg(0));
    if (t >= 0) r = lin8(e.arg(t ? 1 : 2), as);
    else r = iteG(e.arg(0), lin8(e.arg(1), as), lin8(e.arg(2), as));
  } else ok = false;
  if (!ok) r = atomG(e);
  if (as.empty()) { GMEMO[0][Z3_get_ast_id(C, e)] = r; GKEEP.push_back(e); }
  return r;
}
static expr unlin(const LinG &l) {
  expr s(C); bool first = true;
  for (auto &t : l.c) { expr a = ATOM.at(t.first); if (t.second != 1) a = t.second == 255 ? -a : a * C.bv_val(t.second, 8); s = first ? a : s + a; first = false; }
  for (auto &t : l.m) { expr a = zite(ATOM.at(t.first), unlin(t.second), C.bv_val(0, 8)); s = first ? a : s + a; first = false; }
  if (first) return C.bv_val(l.k, 8);
  return l.k ? s + C.bv_val(l.k, 8) : s;
}
static expr gcan(const expr &h, const expr &l) { Asg none; return gmk(unlin(lin8(h, none)), unlin(lin8(l, none))); }
static expr gcanE(const expr &e) {
  if (e.is_numeral() || !e.is_app() || !e.num_args()) return e;
  auto k = e.decl().decl_kind(); if (k != Z3_OP_ITE && k != Z3_OP_CONCAT) return e;
  Asg none; return gmk(unlin(linH(e, 1, none)), unlin(linH(e, 0, none)));
}
static expr gdiff(const expr &a, const expr &b, Asg &as, int depth) {
  LinG d[2]; bool zero = true;
  for (int h = 0; h < 2; h++) { addG(d[h], linH(a, h, as), 1); addG(d[h], linH(b, h, as), 255); if (!d[h].none()) zero = false; else if (d[h].k) return C.bool_val(false); }
  if (zero) return C.bool_val(true);
  if (depth < 8) for (int h = 0; h < 2; h++) for (auto &t : d[h].m) {
    expr c = ATOM.at(t.first); unsigned id = t.first;
    as[id] = true; expr p = gdiff(a, b, as, depth + 1);
    as[id] = false; expr q = gdiff(a, b, as, depth + 1);
    as.erase(id); return zite(c, p, q);
  }
  expr r = C.bool_val(true);
  for (int h = 0; h < 2; h++) { // positive part = negative part, so that equal-looking applications face each other
    LinG p, n; for (auto &t : d[h].c) if (t.second < 128) p.c[t.first] = t.second; else n.c[t.first] = 256 - t.second;
    n.k = (256 - d[h].k) & 255; p.m = d[h].m;
    if (!d[h].none()) r = zand(r, zeq(unlin(p), unlin(n)));
  }
  return r;
}
expr grpEq(const expr &a, const expr &b) { if (z3::eq(a, b)) return C.bool_val(true); Asg as; return gdiff(a, b, as, 0); }
Val binFp(unsigned opc, const Val &a, const Val &b) {
  unsigned w = a.w;
  if (a.conc && b.conc) {
    double x = a.d, y = b.d, r = 0;
    switch (opc) {
    case I::FAdd: r = x + y; break; case I::FSub: r = x - y; break;
    case I::FMul: r = x * y; break; case I::FDiv: r = x / y; break;
    case I::FRem: r = std::fmod(x, y); break;
    }
    return mkFp(r, w);
  }
  auto uf = [&](const char *n) {
    func_decl f = C.function(n, fpSort(w), fpSort(w), fpSort(w));
    return mkFpE(f(fx(a), fx(b)), w);
  };
  if (FPM == FP_IEEE) {
    expr x = fx(a), y = fx(b);
    switch (opc) {
    case I::FAdd: return mkFpE(W(Z3_mk_fpa_add(C, rne(), x, y)), w);
    case I::FSub: return mkFpE(W(Z3_mk_fpa_sub(C, rne(), x, y)), w);
    case I::FMul: return mkFpE(W(Z3_mk_fpa_mul(C, rne(), x, y)), w);
    case I::FDiv: return mkFpE(W(Z3_mk_fpa_div(C, rne(), x, y)), w);
    default: return uf("f!rem");
    }
  }
  auto is = [](const Val &v, double d) { return v.conc && v.d == d; };
  if (opc == I::FAdd) { if (is(b, 0)) return a; if (is(a, 0)) return b; }
  if (opc == I::FSub) { if (is(b, 0)) return a; if (is(a, 0)) return fnegV(b); }
  if (opc == I::FMul) { if (is(a, 0)) return a; if (is(b, 0)) return b; if (is(a, 1)) return b; if (is(b, 1)) return a; }
  if (opc == I::FDiv) { if (is(b, 1)) return a; if (is(a, 0)) return a; }
  expr x = fx(a), y = fx(b);
  if (FPM == FP_REAL) {
    switch (opc) {
    case I::FAdd: return mkFpE(x + y, w);
    case I::FSub: return mkFpE(x - y, w);
    case I::FMul: return mkFpE(x * y, w);
    case I::FDiv: return mkFpE(x / y, w);
    default: return uf("f!rem");
    }
  }
  switch (opc) {
  case I::FMul: return mkFpE(gcan(high(x) + high(y), low(x) + low(y)), w);
  case I::FDiv: return mkFpE(gcan(high(x) - high(y), low(x) - low(y)), w);
  case I::FAdd: return uf("g!add");
  case I::FSub: return uf("g!sub");
  default: return uf("g!rem");
  }
}
Val fnegV(const Val &a) {
  if (a.conc) return mkFp(-a.d, a.w);
  if (FPM == FP_IEEE) return mkFpE(W(Z3_mk_fpa_neg(C, fx(a))), a.w);
  if (FPM == FP_REAL) return mkFpE(-fx(a), a.w);
  expr x = fx(a);
  return mkFpE(gcan(high(x) ^ C.bv_val(128, 8), low(x)), a.w);
}
Val fcmpV(unsigned pred, const Val &a, const Val &b) {
  if (pred == P::FCMP_TRUE) return mkInt(1, 1);
  if (pred == P::FCMP_FALSE) return mkInt(0, 1);
  if (a.conc && b.conc) {
    double x = a.d, y = b.d; bool un = std::isnan(x) || std::isnan(y), r = false;
    switch (pred) {
    case P::FCMP_OEQ: r = x == y; break; case P::FCMP_OGT: r = x > y; break; case P::FCMP_OGE: r = x >= y; break;
    case P::FCMP_OLT: r = x < y; break; case P::FCMP_OLE: r = x <= y; break; case P::FCMP_ONE: r = !un && x != y; break;
    case P::FCMP_ORD: r = !un; break; case P::FCMP_UNO: r = un; break;
    case P::FCMP_UEQ: r = un || x == y; break; case P::FCMP_UGT: r = !(x <= y); break; case P::FCMP_UGE: r = !(x < y); break;
    case P::FCMP_ULT: r = !(x >= y); break; case P::FCMP_ULE: r = !(x > y); break; case P::FCMP_UNE: r = x != y; break;
    }
    return mkInt(r, 1);
  }
  expr x = fx(a), y = fx(b);
  if (FPM == FP_IEEE) {
    auto eq = [&] { return W(Z3_mk_fpa_eq(C, x, y)); };
    auto lt = [&](expr p, expr q) { return W(Z3_mk_fpa_lt(C, p, q)); };
    auto le = [&](expr p, expr q) { return W(Z3_mk_fpa_leq(C, p, q)); };
    expr un = W(Z3_mk_fpa_is_nan(C, x)) || W(Z3_mk_fpa_is_nan(C, y));
    switch (pred) {
    case P::FCMP_OEQ: return mkBool(eq()); case P::FCMP_UNE: return mkBool(!eq());
    case P::FCMP_ONE: return mkBool(!eq() && !un); case P::FCMP_UEQ: return mkBool(eq() || un);
    case P::FCMP_OGT: return mkBool(lt(y, x)); case P::FCMP_OGE: return mkBool(le(y, x));
    case P::FCMP_OLT: return mkBool(lt(x, y)); case P::FCMP_OLE: return mkBool(le(x, y));
    case P::FCMP_UGT: return mkBool(!le(x, y)); case P::FCMP_UGE: return mkBool(!lt(x, y));
    case P::FCMP_ULT: return mkBool(!le(y, x)); case P::FCMP_ULE: return mkBool(!lt(y, x));
    case P::FCMP_ORD: return mkBool(!un); default: return mkBool(un);
    }
  }
  bool grp = FPM == FP_GROUP;
  auto lt = [&](expr p, expr q) { return grp ? z3::ult(valOf(gcanE(p)), valOf(gcanE(q))) : p < q; };
  auto le = [&](expr p, expr q) { return grp ? z3::ule(valOf(gcanE(p)), valOf(gcanE(q))) : p <= q; };
  switch (pred) {
  case P::FCMP_OEQ: case P::FCMP_UEQ: return mkBool(zeq(x, y));
  case P::FCMP_ONE: case P::FCMP_UNE: return mkBool(znot(zeq(x, y)));
  case P::FCMP_OGT: case P::FCMP_UGT: return mkBool(lt(y, x));
  case P::FCMP_OGE: case P::FCMP_UGE: return mkBool(le(y, x));
  case P::FCMP_OLT: case P::FCMP_ULT: return mkBool(lt(x, y));
  case P::FCMP_OLE: case P::FCMP_ULE: return mkBool(le(x, y));
  case P::FCMP_ORD: return mkInt(1, 1);
  default: return mkInt(0, 1);
  }
}
Val intToFp(const Val &a, bool s, unsigned w) {
  if (a.conc) return mkFp(s ? (double)sext64(a.c, a.w) : (double)a.c, w);
  // small ite trees of constants stay exact
  expr x = bx(a);
  std::function<bool(const expr &, expr &, int)> rec = [&](const expr &e, expr &out, int dep) -> bool {
    uint64_t v;
    if (e.is_numeral_u64(v)) { out = fx(mkFp(s ? (double)sext64(v, a.w) : (double)v, w)); return true; }
    if (dep < 12 && e.is_app() && e.decl().decl_kind() == Z3_OP_ITE) {
      expr p(C), q(C);
      if (!rec(e.arg(1), p, dep + 1) || !rec(e.arg(2), q, dep + 1)) return false;
      out = zite(e.arg(0), p, q); return true;
    }
    return false;
  };
  expr out(C);
  if (rec(x, out, 0)) return mkFpE(out, w);
  if (FPM == FP_IEEE)
    return mkFpE(W(s ? Z3_mk_fpa_to_fp_signed(C, rne(), x, fpSort(w)) : Z3_mk_fpa_to_fp_unsigned(C, rne(), x, fpSort(w))), w);
  if (FPM == FP_REAL) {
    expr i = W(Z3_mk_bv2int(C, x, s));
    return mkFpE(W(Z3_mk_int2real(C, i)), w);
  }
  if (a.w < 32) x = s ? z3::sext(x, 32 - a.w) : z3::zext(x, 32 - a.w);
  func_decl f = C.function(("g!i2f" + std::to_string(x.get_sort().bv_size())).c_str(), x.get_sort(), C.bv_sort(16));
  return mkFpE(f(x), w);
}
Val fpToInt(const Val &a, bool s, unsigned w) {
  if (a.conc) return s ? mkInt((uint64_t)(int64_t)a.d, w) : mkInt((uint64_t)a.d, w);
  expr x = fx(a);
  if (FPM == FP_IEEE) return mkIntE(W(s ? Z3_mk_fpa_to_sbv(C, rtz(), x, w) : Z3_mk_fpa_to_ubv(C, rtz(), x, w)));
  if (FPM == FP_REAL) {
    expr fl = W(Z3_mk_real2int(C, x));
    expr neg = -W(Z3_mk_real2int(C, -x));
    expr t = z3::ite(x >= C.real_val(0), fl, neg);
    return mkIntE(W(Z3_mk_int2bv(C, w, t)));
  }
  func_decl f = C.function(("g!f2i" + std::to_string(w)).c_str(), C.bv_sort(16), C.bv_sort(w));
  return mkIntE(f(x));
}
Val grpPart(const Val &a, int part) {
  expr x = fx(a);
  if (part == 0) return mkFpE(gcan(C.bv_val(0, 8), low(x)), 64);
  if (part == 1) return mkFpE(gcan(high(x), C.bv_val(0, 8)), 64);
  return mkFpE(gcan(-high(x), low(x)), 64);
}
Val mathFn(const std::string &nm, const std::vector<Val> &a) {
  unsigned w = a[0].w;
  bool allc = true;
  for (auto &v : a) allc = allc && v.conc;
  if (allc) {
    double x = a[0].d, y = a.size() > 1 ? a[1].d : 0;
    if (nm == "fabs") return mkFp(std::fabs(x), w);
    if (nm == "floor") return mkFp(std::floor(x), w);
    if (nm == "ceil") return mkFp(std::ceil(x), w);
    if (nm == "trunc") return mkFp(std::trunc(x), w);
    if (nm == "round") return mkFp(std::round(x), w);
    if (nm == "rint") return mkFp(std::rint(x), w);
    if (nm == "sqrt") return mkFp(std::sqrt(x), w);
    if (nm == "exp") return mkFp(std::exp(x), w);
    if (nm == "log") return mkFp(std::log(x), w);
    if (nm == "sin") return mkFp(std::sin(x), w);
    if (nm == "cos") return mkFp(std::cos(x), w);
    if (nm == "atan2") return mkFp(std::atan2(x, y), w);
    if (nm == "pow") return mkFp(std::pow(x, y), w);
    if (nm == "fmax") return mkFp(std::fmax(x, y), w);
    if (nm == "fmin") return mkFp(std::fmin(x, y), w);
  }
  expr x = fx(a[0]);
  if (FPM == FP_IEEE) {
    auto rnd = [&](Z3_ast rm) { Z3_inc_ref(C, rm); return mkFpE(W(Z3_mk_fpa_round_to_integral(C, rm, x)), w); };
    if (nm == "fabs") return mkFpE(W(Z3_mk_fpa_abs(C, x)), w);
    if (nm == "floor") return rnd(Z3_mk_fpa_rtn(C));
    if (nm == "ceil") return rnd(Z3_mk_fpa_rtp(C));
    if (nm == "trunc") return rnd(Z3_mk_fpa_rtz(C));
    if (nm == "round") return rnd(Z3_mk_fpa_rna(C));
    if (nm == "rint") return rnd(Z3_mk_fpa_rne(C));
    if (nm == "sqrt") return mkFpE(W(Z3_mk_fpa_sqrt(C, rne(), x)), w);
  }
  if (FPM == FP_REAL) {
    if (nm == "fabs") return mkFpE(z3::ite(x >= C.real_val(0), x, -x), w);
    expr fl = W(Z3_mk_int2real(C, W(Z3_mk_real2int(C, x))));
    if (nm == "floor") return mkFpE(fl, w);
    if (nm == "ceil") return mkFpE(-W(Z3_mk_int2real(C, W(Z3_mk_real2int(C, -x)))), w);
    if (nm == "trunc") return mkFpE(z3::ite(x >= C.real_val(0), fl, -W(Z3_mk_int2real(C, W(Z3_mk_real2int(C, -x))))), w);
    if (nm == "pow" && a[1].conc && a[1].d >= 1 && a[1].d <= 4 && a[1].d == std::floor(a[1].d)) {
      expr r = x; for (int i = 1; i < (int)a[1].d; i++) r = r * x; return mkFpE(r, w);
    }
    if (nm == "sqrt") {
      func_decl f = C.function("f!sqrt", C.real_sort(), C.real_sort());
      expr r = f(x);
      AXIOMS.push_back(z3::implies(x >= C.real_val(0), r * r == x && r >= C.real_val(0)));
      return mkFpE(r, w);
    }
  }
  if (nm == "fabs" && FPM == FP_GROUP) { // |x|: drop the phase of a real
    return mkFpE(gmk(C.bv_val(0, 8), low(x)), w);
  }
  if (a.size() == 1) {
    func_decl f = C.function(("f!" + nm).c_str(), fpSort(w), fpSort(w));
    return mkFpE(f(x), w);
  }
  func_decl f = C.function(("f!" + nm).c_str(), fpSort(w), fpSort(w), fpSort(w));
  return mkFpE(f(x, fx(a[1])), w);
}
