// memory model (included by symex.cpp)
struct TD { Val::K k; unsigned w; int64_t size; };
static TD tdOf(llvm::Type *t) {
  if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); return {Val::INT, w, (int64_t)DL->getTypeStoreSize(t)}; }
  if (t->isPointerTy()) return {Val::PTR, 64, 8};
  if (t->isDoubleTy()) return {Val::FP, 64, 8};
  if (t->isFloatTy()) return {Val::FP, 32, 4};
  return {Val::UNDEF, 0, (int64_t)DL->getTypeStoreSize(t)};
}
static std::string freshName(State &s, const std::string &n) {
  int k = s.names[n]++;
  return k ? n + "#" + std::to_string(k) : n;
}
static Val freshVal(State &s, const TD &t, const std::string &n) {
  std::string nm = freshName(s, n);
  if (t.k == Val::INT) {
    if (t.w == 1) return mkBool(C.bool_const(nm.c_str()));
    return mkIntE(C.bv_const(nm.c_str(), t.w));
  }
  if (t.k == Val::FP) return mkFpE(C.constant(nm.c_str(), fpSort(t.w)), t.w);
  return Val();
}
static Val nullPtr() {
  Val r; r.k = Val::PTR; r.w = 64; r.p = std::make_shared<std::vector<PT>>();
  r.p->push_back(PT(C.bool_val(true), 0, mkInt(0, 64)));
  return r;
}
static Val ptrTo(int obj, int64_t off) {
  Val r; r.k = Val::PTR; r.w = 64; r.p = std::make_shared<std::vector<PT>>();
  r.p->push_back(PT(C.bool_val(true), obj, mkInt(off, 64)));
  return r;
}
static int newObj(State &s, int64_t size, const std::string &name, int id = 0) {
  static int next = 100;
  auto o = std::make_shared<Obj>();
  o->id = id ? id : next++; o->size = size; o->name = name;
  s.mem[o->id] = o;
  return o->id;
}
static Obj &wobj(State &s, int id) {
  auto &p = s.mem[id];
  if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
  return *p;
}
// convert a stored value to the requested view (same byte size)
static Val viewAs(State &s, const Val &v, const TD &t) {
  if (v.k == t.k && (v.k != Val::INT || v.w == t.w)) return v;
  if (v.k == Val::UNDEF) return v;
  if (t.k == Val::INT) {
    if (v.k == Val::INT) return v.w > t.w ? castInt(llvm::Instruction::Trunc, v, t.w) : castInt(llvm::Instruction::ZExt, v, t.w);
    return v; // FP or PTR carried through an integer copy
  }
  if (t.k == Val::FP) {
    if (v.k == Val::INT) {
      if (v.conc) { double d; if (t.w == 32) { float f; uint32_t u = v.c; memcpy(&f, &u, 4); d = f; } else memcpy(&d, &v.c, 8); return mkFp(d, t.w); }
      if (FPM == FP_IEEE) { z3::expr r(C, Z3_mk_fpa_to_fp_bv(C, v.e, fpSort(t.w))); return mkFpE(r, t.w); }
      z3::func_decl f = C.function("f!frombits", v.e.get_sort(), fpSort(t.w));
      return mkFpE(f(v.e), t.w);
    }
    return v;
  }
  if (t.k == Val::PTR) {
    if (v.k == Val::INT && v.conc && v.c == 0) return nullPtr();
    if (v.k == Val::INT && v.conc) return ptrTo((int)(v.c >> 32), (int64_t)(v.c & 0xffffffff));
    return v;
  }
  return v;
}
static Val asIntBits(State &s, const Val &v) {
  if (v.k == Val::INT) return v;
  if (v.k == Val::FP) {
    if (v.conc) { uint64_t u = 0; if (v.w == 32) { float f = v.d; uint32_t q; memcpy(&q, &f, 4); u = q; } else memcpy(&u, &v.d, 8); return mkInt(u, v.w); }
    if (FPM == FP_IEEE) return mkIntE(z3::expr(C, Z3_mk_fpa_to_ieee_bv(C, v.e)));
    z3::func_decl f = C.function(("f!bits" + std::to_string(v.w)).c_str(), v.e.get_sort(), C.bv_sort(v.w));
    return mkIntE(f(v.e));
  }
  if (v.k == Val::PTR) {
    Val r; bool first = true; bool ok = true;
    for (auto &t : *v.p) {
      Val a = binInt(llvm::Instruction::Add, mkInt((uint64_t)(uint32_t)t.obj << 32, 64), t.off);
      r = first ? a : iteVal(t.cond, a, r, ok); first = false;
    }
    return r;
  }
  return v;
}
static Val regionRead(State &s, const Region &r, const Val &idx) {
  Val cur;
  if (r.zero) cur = r.fp ? mkFp(0, 64) : mkInt(0, r.es * 8);
  else {
    z3::sort rs = r.fp ? fpSort(64) : C.bv_sort(r.es * 8);
    z3::func_decl f = C.function(("mem!" + r.name).c_str(), C.bv_sort(64), rs);
    z3::expr e = f(ex(idx));
    cur = r.fp ? mkFpE(e, 64) : mkIntE(e);
  }
  bool ok = true;
  for (auto &st : *r.log) {
    Val eq = icmpInt(llvm::CmpInst::ICMP_EQ, idx, st.idx);
    z3::expr g = zand(ex(eq), st.guard);
    cur = iteVal(g, st.val, cur, ok);
  }
  return cur;
}
static int findRegion(const Obj &o, int64_t off) {
  for (size_t i = 0; i < o.regs.size(); i++) {
    auto &r = o.regs[i];
    if (off >= r.start && off < r.start + r.es * r.cnt) return i;
  }
  return -1;
}
static size_t lbCell(const Obj &o, int64_t off) {
  size_t lo = 0, hi = o.cells.size();
  while (lo < hi) { size_t m = (lo + hi) / 2; if (o.cells[m].off < off) lo = m + 1; else hi = m; }
  return lo;
}
static void splitCells(State &s, Obj &o, int64_t off, int64_t size) {
  // make every cell overlapping [off,off+size) lie inside it, splitting to bytes at the edges
  std::vector<Cell> out; 
  for (auto &c : o.cells) {
    bool ov = c.off < off + size && off < c.off + c.size;
    bool in = c.off >= off && c.off + c.size <= off + size;
    if (!ov || in) { out.push_back(c); continue; }
    Val b = asIntBits(s, c.v);
    int64_t cut[4] = {c.off, std::max(c.off, off), std::min(c.off + c.size, off + size), c.off + c.size};
    for (int q = 0; q < 3; q++) {
      int64_t lo = cut[q], hi = cut[q + 1]; if (lo >= hi) continue;
      Cell n; n.off = lo; n.size = hi - lo;
      unsigned w = 8 * (hi - lo), sh = 8 * (lo - c.off);
      if (b.k == Val::INT) {
        Val bb = b.w < 8 ? castInt(llvm::Instruction::ZExt, b, 8) : b;
        if (bb.conc && sh < 64) n.v = mkInt(bb.c >> sh, w);
        else if (bb.w == w) n.v = bb;
        else n.v = mkIntE(ex(bb).extract(sh + w - 1, sh).simplify());
      }
      out.push_back(n);
    }
  }
  o.cells.swap(out);
}
static Val loadConc(State &s, int id, int64_t off, const TD &t) {
  Obj *o = s.mem[id].get();
  int ri = findRegion(*o, off);
  if (ri >= 0) {
    Region &r = o->regs[ri];
    if (t.size == r.es && (off - r.start) % r.es == 0) return viewAs(s, regionRead(s, r, mkInt((off - r.start) / r.es, 64)), t);
  }
  size_t i = lbCell(*o, off);
  if (i < o->cells.size() && o->cells[i].off == off && o->cells[i].size == t.size) {
    Val v = viewAs(s, o->cells[i].v, t);
    return v;
  }
  bool overlap = (i < o->cells.size() && o->cells[i].off < off + t.size) || (i > 0 && o->cells[i - 1].off + o->cells[i - 1].size > off);
  if (!overlap) {
    for (int k = (int)o->fills.size() - 1; k >= 0; k--) {
      auto &f = o->fills[k];
      if (f.lo <= off && off + t.size <= f.hi) {
        uint64_t v = 0; for (int b = 0; b < 8; b++) v = v << 8 | f.byte;
        if (t.k == Val::INT && t.w > 64) return mkIntE(C.bv_val(0, t.w));
        Val r = mkInt(v, t.k == Val::INT ? std::max<unsigned>(t.w, 1) : t.size * 8);
        return viewAs(s, r, t);
      }
      if (f.lo < off + t.size && off < f.hi) { overlap = true; break; }
    }
  }
  if (!overlap) {
    Val v = freshVal(s, t, "uninit!" + std::to_string(id) + "!" + std::to_string(off));
    Obj &w = wobj(s, id);
    w.cells.insert(w.cells.begin() + lbCell(w, off), Cell{off, t.size, v});
    return v;
  }
  // compose bytes
  z3::expr acc(C); bool have = false; Val res; bool allc = true; uint64_t cv = 0;
  std::vector<Val> bytes;
  for (int64_t b = 0; b < t.size; b++) {
    Obj *oo = s.mem[id].get();
    Val bv; bool got = false;
    for (auto &c : oo->cells)
      if (c.off <= off + b && off + b < c.off + c.size) {
        Val x = asIntBits(s, c.v); int64_t k = off + b - c.off;
        if (x.k == Val::INT) {
          if (x.w < 8) x = castInt(llvm::Instruction::ZExt, x, 8);
          bv = x.conc ? mkInt(x.c >> (8 * k), 8) : (x.w == 8 ? x : mkIntE(x.e.extract(8 * k + 7, 8 * k)));
          got = true;
        }
        break;
      }
    if (!got)
      for (int k = (int)oo->fills.size() - 1; k >= 0 && !got; k--)
        if (oo->fills[k].lo <= off + b && off + b < oo->fills[k].hi) { bv = mkInt(oo->fills[k].byte, 8); got = true; }
    if (!got) bv = freshVal(s, TD{Val::INT, 8, 1}, "uninit!" + std::to_string(id) + "!" + std::to_string(off + b));
    if (!bv.conc) allc = false; else if (b < 8) cv |= bv.c << (8 * b);
    bytes.push_back(bv);
  }
  Val v;
  if (allc && t.size <= 8) v = mkInt(cv, t.size * 8);
  else {
    z3::expr r = ex(bytes.back());
    for (int64_t b = t.size - 2; b >= 0; b--) r = z3::concat(r, ex(bytes[b]));
    v = mkIntE(r.simplify());
  }
  return viewAs(s, v, t);
}
static void storeConc(State &s, int id, int64_t off, int64_t size, const Val &v0, const z3::expr &guard) {
  Val v = v0;
  Obj &o = wobj(s, id);
  int ri = findRegion(o, off);
  if (ri >= 0 && size == o.regs[ri].es) {
    Region &r = o.regs[ri];
    auto nl = std::make_shared<std::vector<RegStore>>(*r.log);
    Val sv = v;
    if (!r.fp && sv.k == Val::INT && sv.w != r.es * 8) sv = castInt(llvm::Instruction::ZExt, sv, r.es * 8);
    nl->push_back(RegStore(mkInt((off - r.start) / r.es, 64), sv, guard));
    r.log = nl;
    return;
  }
  if (!isTrue(guard)) {
    TD t; t.k = v.k; t.w = v.w; t.size = size;
    if (v.k == Val::UNDEF) return;
    Val old = loadConc(s, id, off, t);
    bool ok = true;
    if (old.k != v.k && old.k != Val::UNDEF) { Val a = asIntBits(s, v), b = asIntBits(s, old); if (a.k == Val::INT && b.k == Val::INT && a.w == b.w) { v = iteVal(guard, a, b, ok); } }
    else v = iteVal(guard, v, old, ok);
  }
  Obj &o2 = wobj(s, id);
  size_t i = lbCell(o2, off);
  if (i < o2.cells.size() && o2.cells[i].off == off && o2.cells[i].size == size) { o2.cells[i].v = v; return; }
  bool overlap = (i < o2.cells.size() && o2.cells[i].off < off + size) || (i > 0 && o2.cells[i - 1].off + o2.cells[i - 1].size > off);
  if (overlap) {
    splitCells(s, o2, off, size);
    std::vector<Cell> out;
    for (auto &c : o2.cells) if (!(c.off >= off && c.off + c.size <= off + size)) out.push_back(c);
    o2.cells.swap(out);
    i = lbCell(o2, off);
  }
  o2.cells.insert(o2.cells.begin() + i, Cell{off, size, v});
}
static void copyRange(State &s, int did, int64_t doff, int sid, int64_t soff, int64_t n, const z3::expr &guard) {
  if (n <= 0 || (did == sid && doff == soff)) return;
  Obj src = *s.mem[sid];
  // regions inside the copied range: only whole-region copies are supported
  { Obj tmp = src; splitCells(s, tmp, soff, n); src.cells = tmp.cells; }
  std::vector<Cell> in;
  for (auto &c : src.cells) if (c.off >= soff && c.off + c.size <= soff + n) in.push_back(c);
  std::vector<Fill> fl;
  for (auto &f : src.fills) { int64_t lo = std::max(f.lo, soff), hi = std::min(f.hi, soff + n); if (lo < hi) fl.push_back(Fill{lo, hi, f.byte}); }
  if (isTrue(guard)) {
    Obj &d = wobj(s, did);
    splitCells(s, d, doff, n);
    std::vector<Cell> out;
    for (auto &c : d.cells) if (!(c.off >= doff && c.off + c.size <= doff + n)) out.push_back(c);
    d.cells.swap(out);
    for (auto &f : fl) d.fills.push_back(Fill{f.lo - soff + doff, f.hi - soff + doff, f.byte});
    for (auto &r : src.regs)
      if (r.start >= soff && r.start + r.es * r.cnt <= soff + n) {
        Region q = r; q.start = r.start - soff + doff;
        std::vector<Region> keep;
        for (auto &x : d.regs) if (x.start != q.start) keep.push_back(x);
        keep.push_back(q); d.regs = keep;
      }
  }
  for (auto &c : in) storeConc(s, did, c.off - soff + doff, c.size, c.v, guard);
}
