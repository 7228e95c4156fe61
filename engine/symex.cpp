#include <fstream>
// Path-merging symbolic executor over LLVM IR (clang output of the repository's own sources).
#include "symex.h"
#include <chrono>
#include <cstdio>
#include <cstring>
#include <unistd.h>
#include <llvm/ADT/SmallString.h>
using namespace llvm;
Opt OPT; Stats ST;
static const DataLayout *DL;
static std::unique_ptr<Module> M;
static std::chrono::steady_clock::time_point T0;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }
#include "solver.cpp.inc"
#include "mem.cpp.inc"
#include "trace.cpp.inc"

struct FnInfo {
  Function *F; std::string dem; int n = 0; long instrs = 0;
  DenseMap<const Value *, int> num; int kind = -1; Function *over = nullptr; std::string bi;
};
static std::unordered_map<const Function *, std::shared_ptr<FnInfo>> FI;
struct Frame { FnInfo *fi; std::vector<Val> regs; BasicBlock *bb, *prev; BasicBlock::iterator ip; std::vector<int> allocas; };
struct Path { State st; Frame fr; };

static bool starts(const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }
static bool has(const std::string &s, const char *p) { return s.find(p) != std::string::npos; }

static FnInfo &info(Function *F) {
  auto &p = FI[F];
  if (p) return *p;
  p = std::make_shared<FnInfo>();
  p->F = F; p->dem = demangle(F->getName().str());
  for (auto &a : F->args()) p->num[&a] = p->n++;
  for (auto &b : *F) for (auto &i : b) { p->num[&i] = p->n++; p->instrs++; }
  // classification: 0 execute, 1 builtin by name, 2 no-op stub, 3 unknown external
  std::string nm = F->getName().str(), d = p->dem;
  std::string base = d; { auto k = base.find('('); if (k != std::string::npos) base = base.substr(0, k); }
  p->bi = nm;
  auto ov = OPT.over.find(d);
  if (ov != OPT.over.end()) { p->over = M->getFunction(ov->second); if (!p->over) p->bi = ov->second; p->kind = p->over ? 0 : 1; return *p; }
  bool io = has(base, "std::__cxx11::basic_string") || has(base, "std::__cxx11::basic_ostringstream") || has(base, "std::__cxx11::basic_stringstream") || has(base, "std::__cxx11::basic_istringstream");
  io = io || starts(d, "std::basic_ostream") || starts(d, "std::ostream") || starts(d, "std::istream") || starts(d, "std::basic_istream") || starts(d, "std::ios") || starts(d, "std::basic_ios") || starts(d, "std::operator<<") || starts(d, "std::operator>>") || starts(d, "operator<<(std::ostream") || starts(d, "std::basic_ofstream") || starts(d, "std::basic_ifstream") || starts(d, "std::locale");
  io = io || starts(d, "Logger::") || starts(d, "ToString") || has(d, " ToString<") || starts(d, "std::runtime_error::") || has(d, "Invalid::") || starts(d, "RunTimeException::") || starts(d, "std::allocator") || starts(d, "std::setw") || starts(d, "std::setprecision") || has(d, "std::basic_ostream<char");
  if (!F->isDeclaration() && (starts(d, "std::vector") || starts(d, "void std::vector") || starts(d, "std::map") || starts(d, "std::_Rb_tree") || starts(d, "std::unordered"))) io = false;
  if (OPT.strings && !F->isDeclaration() && !has(base, "stream") && !starts(d, "ToString") && !has(d, " ToString<") && (has(base, "basic_string<char") || starts(d, "std::allocator"))) io = false;
  for (auto &q : OPT.noop) if (starts(d, q.c_str())) io = true;
  if (OPT.rng && (d == "RandomFactory::urn()" || d == "RandomFactory::irn(int, int)")) { p->kind = 1; p->bi = d == "RandomFactory::urn()" ? "!urn" : "!irn"; }
  else if (starts(d, "std::mersenne_twister_engine") && has(d, "::operator()()") && !(F && !F->isDeclaration() && F->hasExternalLinkage())) { p->kind = 1; p->bi = "!mt"; }
  else if (FPM == FP_GROUP && OPT.heur && (base == "mod" || base == "phase" || base == "conjugate" || base == "mod2") && has(d, "(Complex const&)")) { p->kind = 1; p->bi = "!" + base; }
  else if (FPM == FP_GROUP && OPT.heur && d == "Complex::operator/=(Complex const&)") { p->kind = 1; p->bi = "!cdiv"; }
  else if (io) p->kind = 2;
  else if (F->isDeclaration()) p->kind = 1;
  else p->kind = 0;
  return *p;
}

// ---------------------------------------------------------------- constants
static int globalObj(State &s, const GlobalVariable *g);
static Val constVal(State &s, const Constant *c);
static void initGlobal(State &s, int id, int64_t off, const Constant *c) {
  Type *t = c->getType();
  int64_t sz = DL->getTypeAllocSize(t);
  if (c->isNullValue() && !t->isPointerTy()) { wobj(s, id).fills.push_back(Fill{off, off + sz, 0}); return; }
  if (isa<UndefValue>(c)) return;
  if (auto *cs = dyn_cast<ConstantStruct>(c)) {
    auto *sl = DL->getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); i++) initGlobal(s, id, off + sl->getElementOffset(i), cs->getOperand(i));
    return;
  }
  if (auto *ca = dyn_cast<ConstantArray>(c)) {
    int64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
    for (unsigned i = 0; i < ca->getNumOperands(); i++) initGlobal(s, id, off + i * es, ca->getOperand(i));
    return;
  }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    int64_t es = cd->getElementByteSize();
    for (unsigned i = 0; i < cd->getNumElements(); i++) initGlobal(s, id, off + i * es, cd->getElementAsConstant(i));
    return;
  }
  Val v = constVal(s, c);
  storeConc(s, id, off, DL->getTypeStoreSize(t), v, C.bool_val(true));
}
static const int GLOBAL_BASE = 1500000000;  // above every id newObj can hand out
static std::unordered_map<int, const GlobalVariable *> GLOBAL_OF;
static int globalObj(State &s, const GlobalVariable *g) {
  static std::unordered_map<const GlobalVariable *, int> ids;
  auto it = ids.find(g);
  int id;
  if (it == ids.end()) { id = GLOBAL_BASE + ids.size(); ids[g] = id; GLOBAL_OF[id] = g; } else id = it->second;
  if (!s.mem.count(id)) {
    newObj(s, DL->getTypeAllocSize(g->getValueType()), "@" + g->getName().str(), id);
    if (g->hasInitializer() && !g->isExternallyInitialized()) initGlobal(s, id, 0, g->getInitializer());
    else s.mem[id]->known = false;
    s.mem[id]->constant = g->isConstant() && g->hasInitializer();
  }
  return id;
}
static Val gepVal(State &s, const Val &base, const Val &off);
static Val constVal(State &s, const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() <= 64) return mkInt(ci->getZExtValue(), ci->getBitWidth());
    SmallString<64> str; ci->getValue().toString(str, 10, false);
    return mkIntE(C.bv_val(str.c_str(), ci->getBitWidth()));
  }
  if (auto *cf = dyn_cast<ConstantFP>(c)) {
    if (c->getType()->isDoubleTy()) return mkFp(cf->getValueAPF().convertToDouble(), 64);
    if (c->getType()->isFloatTy()) return mkFp(cf->getValueAPF().convertToFloat(), 32);
    return Val();
  }
  if (isa<ConstantPointerNull>(c)) return nullPtr();
  if (isa<UndefValue>(c)) {
    TD t = tdOf(c->getType());
    if (t.k == Val::INT) return mkInt(0, t.w);
    if (t.k == Val::FP) return mkFp(0, t.w);
    if (auto *st = dyn_cast<StructType>(c->getType())) {
      Val r; r.k = Val::AGG; r.a = std::make_shared<std::vector<Val>>();
      for (auto *e : st->elements()) r.a->push_back(constVal(s, UndefValue::get(e)));
      return r;
    }
    if (auto *st = dyn_cast<ArrayType>(c->getType())) {
      Val r; r.k = Val::AGG; r.a = std::make_shared<std::vector<Val>>(st->getNumElements(), constVal(s, UndefValue::get(st->getElementType())));
      return r;
    }
    if (auto *st = dyn_cast<FixedVectorType>(c->getType())) {
      Val r; r.k = Val::AGG; r.a = std::make_shared<std::vector<Val>>(st->getNumElements(), constVal(s, UndefValue::get(st->getElementType())));
      return r;
    }
    return Val();
  }
  if (auto *g = dyn_cast<GlobalVariable>(c)) return ptrTo(globalObj(s, g), 0);
  if (auto *f = dyn_cast<Function>(c)) {
    static std::unordered_map<const Function *, int> ids;
    auto it = ids.find(f); int id = it == ids.end() ? (ids[f] = 1800000000 + ids.size()) : it->second;
    if (!s.mem.count(id)) { newObj(s, 1, "fn " + f->getName().str(), id); }
    return ptrTo(id, 0);
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (ce->getOpcode() == Instruction::GetElementPtr) {
      APInt off(64, 0);
      if (cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off))
        return gepVal(s, constVal(s, ce->getOperand(0)), mkInt(off.getSExtValue(), 64));
    }
    if (ce->getOpcode() == Instruction::PtrToInt) return asIntBits(s, constVal(s, ce->getOperand(0)));
    if (ce->isCast()) return constVal(s, ce->getOperand(0));
    if (ce->getOpcode() == Instruction::Sub || ce->getOpcode() == Instruction::Add)
      return binInt(ce->getOpcode(), asIntBits(s, constVal(s, ce->getOperand(0))), asIntBits(s, constVal(s, ce->getOperand(1))));
    return Val();
  }
  if (isa<ConstantAggregateZero>(c) || isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantVector>(c) || isa<ConstantDataSequential>(c)) {
    Val r; r.k = Val::AGG; r.a = std::make_shared<std::vector<Val>>();
    unsigned n = 0;
    if (auto *st = dyn_cast<StructType>(c->getType())) n = st->getNumElements();
    else if (auto *st = dyn_cast<ArrayType>(c->getType())) n = st->getNumElements();
    else if (auto *st = dyn_cast<FixedVectorType>(c->getType())) n = st->getNumElements();
    for (unsigned i = 0; i < n; i++) r.a->push_back(constVal(s, c->getAggregateElement(i)));
    return r;
  }
  if (auto *al = dyn_cast<GlobalAlias>(c)) return constVal(s, al->getAliasee());
  return Val();
}
static Val get(Path &p, const Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) return constVal(p.st, c);
  auto it = p.fr.fi->num.find(v);
  if (it == p.fr.fi->num.end()) return Val();
  return p.fr.regs[it->second];
}
static void setv(Path &p, const Value *i, const Val &v) { p.fr.regs[p.fr.fi->num[i]] = v; }
static Val gepVal(State &s, const Val &base0, const Val &off) {
  Val base = base0;
  if (base.k == Val::INT && base.conc) base = viewAs(s, base, TD{Val::PTR, 64, 8});
  if (base.k != Val::PTR) return base;
  if (off.conc && off.c == 0) return base;
  Val r = base; r.p = std::make_shared<std::vector<PT>>();
  for (auto &t : *base.p) r.p->push_back(PT(t.cond, t.obj, binInt(Instruction::Add, t.off, off)));
  return r;
}
// ---------------------------------------------------------------- accesses
struct Acc { z3::expr cond; int obj; bool region; int ri; Val idx; int64_t off; Acc(z3::expr c, int o, bool r, int i, Val x, int64_t f) : cond(c), obj(o), region(r), ri(i), idx(x), off(f) {} };
static bool leaves(const z3::expr &e, std::set<int64_t> &out, int dep) {
  uint64_t v;
  if (e.is_numeral_u64(v)) { out.insert((int64_t)v); return true; }
  if (dep > 24) return false;
  if (e.is_app() && e.decl().decl_kind() == Z3_OP_ITE) return leaves(e.arg(1), out, dep + 1) && leaves(e.arg(2), out, dep + 1);
  return false;
}
static bool enumOff(State &s, const z3::expr &cond, const z3::expr &off, std::vector<int64_t> &vals) {
  std::set<int64_t> lv;
  if (leaves(off, lv, 0) && lv.size() <= 64) { vals.assign(lv.begin(), lv.end()); return true; }
  z3::expr blk = cond;
  for (int i = 0; i <= OPT.enumLimit; i++) {
    std::shared_ptr<z3::model> m;
    auto r = i == 0 ? feasible(s, blk, &m) : SOL->check(s.pc, blk, &m);
    if (r == z3::unsat) return true;
    if (r != z3::sat || !m) return false;
    z3::expr v = m->eval(off, true); uint64_t u;
    if (!v.is_numeral_u64(u)) return false;
    vals.push_back((int64_t)u);
    blk = blk && off != C.bv_val(u, 64);
  }
  return false;
}
// resolves a pointer for an access of `size` bytes; false = path dies
static bool resolve(Path &p, const Val &ptr0, int64_t size, bool wr, std::vector<Acc> &out) {
  State &s = p.st;
  Val ptr = viewAs(s, ptr0, TD{Val::PTR, 64, 8});
  std::string where = p.fr.fi->dem;
  if (ptr.k != Val::PTR) { reportError(s, "memory-safety", C.bool_val(true), "access through undefined pointer in " + where); return false; }
  z3::expr bad = C.bool_val(false); std::string why;
  auto mark = [&](const z3::expr &c, const std::string &w) { bad = zor(bad, c); if (why.empty()) why = w; };
  for (auto &t : *ptr.p) {
    auto it = s.mem.find(t.obj);
    if (t.obj == 0 || it == s.mem.end()) { mark(t.cond, t.obj == 0 ? "null dereference in " + where : "dangling pointer in " + where); continue; }
    Obj &o = *it->second;
    if (o.freed) { mark(t.cond, "use after free in " + where); continue; }
    if (wr && o.constant) { mark(t.cond, "write to constant in " + where); continue; }
    auto inb = [&](int64_t off) { return !o.known || (off >= 0 && off + size <= o.size); };
    if (t.off.conc) {
      int64_t off = (int64_t)t.off.c;
      if (!inb(off)) { mark(t.cond, "out-of-bounds access (" + o.name + ") in " + where); continue; }
      out.push_back(Acc(t.cond, t.obj, false, 0, Val(), off));
      continue;
    }
    z3::expr off = t.off.e;
    bool done = false;
    for (size_t ri = 0; ri < o.regs.size() && !done; ri++) {
      Region &r = o.regs[ri];
      if (r.es != size) continue;
      z3::expr lo = C.bv_val((uint64_t)r.start, 64), hi = C.bv_val((uint64_t)(r.start + r.es * r.cnt), 64);
      z3::expr in = z3::uge(off, lo) && z3::ult(off, hi);
      if (mdlEval(s, zand(t.cond, in)) == 0 && feasible(s, zand(t.cond, in)) != z3::sat) continue;
      // in region for some inputs: is it for all?
      auto all = feasible(s, zand(t.cond, znot(in)));
      if (all != z3::unsat) {
        // outside the region is reachable: treat as out of bounds of the array
        mark(zand(t.cond, znot(in)), "index outside array (" + o.name + "." + r.name + ") in " + where);
      }
      Val idx = binInt(Instruction::Sub, t.off, mkInt(r.start, 64));
      if (r.es > 1) idx = binInt(Instruction::UDiv, idx, mkInt(r.es, 64));
      out.push_back(Acc(zand(t.cond, in), t.obj, true, ri, idx, 0));
      done = true;
    }
    if (done) continue;
    std::vector<int64_t> vals;
    if (!enumOff(s, t.cond, off, vals)) { incomplete(s, "symbolic offset has too many values in " + where); return false; }
    for (int64_t v : vals) {
      z3::expr c = zand(t.cond, zeq(off, C.bv_val((uint64_t)v, 64)));
      if (!inb(v)) { mark(c, "out-of-bounds access (" + o.name + ") in " + where); continue; }
      out.push_back(Acc(c, t.obj, false, 0, Val(), v));
    }
  }
  if (!isFalse(bad)) {
    auto r = feasible(s, bad);
    if (r != z3::unsat) {
      if (OPT.memcheck) reportError(s, "memory-safety", bad, why);
      if (!assume(s, znot(bad))) return false;
    }
  }
  if (out.empty()) return false;
  if (out.size() == 1) out[0].cond = C.bool_val(true);
  return true;
}
static bool loadVal(Path &p, const Val &ptr, Type *t, Val &out) {
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
    Val r; r.k = Val::AGG; r.a = std::make_shared<std::vector<Val>>();
    unsigned n; 
    if (auto *st = dyn_cast<StructType>(t)) n = st->getNumElements();
    else if (auto *at = dyn_cast<ArrayType>(t)) n = at->getNumElements();
    else n = cast<FixedVectorType>(t)->getNumElements();
    for (unsigned i = 0; i < n; i++) {
      int64_t off; Type *et;
      if (auto *st = dyn_cast<StructType>(t)) { off = DL->getStructLayout(st)->getElementOffset(i); et = st->getElementType(i); }
      else if (auto *at = dyn_cast<ArrayType>(t)) { et = at->getElementType(); off = i * DL->getTypeAllocSize(et); }
      else { et = cast<FixedVectorType>(t)->getElementType(); off = i * DL->getTypeStoreSize(et); }
      Val v;
      if (!loadVal(p, gepVal(p.st, ptr, mkInt(off, 64)), et, v)) return false;
      r.a->push_back(v);
    }
    out = r; return true;
  }
  TD td = tdOf(t);
  std::vector<Acc> acc;
  if (!resolve(p, ptr, td.size, false, acc)) return false;
  bool first = true, ok = true; Val cur;
  for (int i = (int)acc.size() - 1; i >= 0; i--) {
    auto &a = acc[i];
    Val v = a.region ? viewAs(p.st, regionRead(p.st, p.st.mem[a.obj]->regs[a.ri], a.idx), td) : loadConc(p.st, a.obj, a.off, td);
    if (td.k == Val::INT && td.w == 1 && v.k == Val::INT && v.w == 8) v = castInt(Instruction::Trunc, v, 1);
    if (first) cur = v;
    else {
      if (v.k != cur.k && v.k != Val::UNDEF && cur.k != Val::UNDEF) { v = asIntBits(p.st, v); cur = asIntBits(p.st, cur); }
      cur = iteVal(a.cond, v, cur, ok);
    }
    first = false;
  }
  if (!ok) { incomplete(p.st, "cannot merge loaded values in " + p.fr.fi->dem); return false; }
  out = cur;
  return true;
}
static bool storeVal(Path &p, const Val &ptr, Type *t, const Val &v) {
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
    if (v.k != Val::AGG) return true;
    for (unsigned i = 0; i < v.a->size(); i++) {
      int64_t off; Type *et;
      if (auto *st = dyn_cast<StructType>(t)) { off = DL->getStructLayout(st)->getElementOffset(i); et = st->getElementType(i); }
      else if (auto *at = dyn_cast<ArrayType>(t)) { et = at->getElementType(); off = i * DL->getTypeAllocSize(et); }
      else { et = cast<FixedVectorType>(t)->getElementType(); off = i * DL->getTypeStoreSize(et); }
      if (!storeVal(p, gepVal(p.st, ptr, mkInt(off, 64)), et, (*v.a)[i])) return false;
    }
    return true;
  }
  TD td = tdOf(t);
  std::vector<Acc> acc;
  if (!resolve(p, ptr, td.size, true, acc)) return false;
  Val sv = v;
  if (td.k == Val::INT && td.w == 1 && sv.k == Val::INT) sv = castInt(Instruction::ZExt, sv, 8);
  if (sv.k == Val::UNDEF) sv = td.k == Val::INT ? mkInt(0, td.w == 1 ? 8 : td.w) : td.k == Val::FP ? mkFp(0, td.w) : nullPtr();
  for (auto &a : acc) {
    if (a.region) {
      Obj &o = wobj(p.st, a.obj); Region &r = o.regs[a.ri];
      auto nl = std::make_shared<std::vector<RegStore>>(*r.log);
      nl->push_back(RegStore(a.idx, sv, a.cond));
      r.log = nl;
    } else storeConc(p.st, a.obj, a.off, td.size, sv, a.cond);
  }
  return true;
}
#include "builtins.cpp.inc"
#include "exec.cpp.inc"
#include "main.cpp.inc"
