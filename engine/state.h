#pragma once
#include "ops.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <set>
#include <functional>
#include <unordered_map>

struct Cell { int64_t off; int64_t size; Val v; };
struct Fill { int64_t lo, hi; uint8_t byte; };
struct RegStore { Val idx, val; z3::expr guard; RegStore(Val i, Val v, z3::expr g) : idx(i), val(v), guard(g) {} };
struct Region {
  int64_t start, es, cnt; bool fp; bool zero; std::string name;
  std::shared_ptr<std::vector<RegStore>> log;
};
struct Obj {
  int id = 0; int64_t size = 0; std::string name;
  bool freed = false, heap = false, stack = false, constant = false, known = true;
  std::vector<Cell> cells; // sorted by offset, disjoint
  std::vector<Fill> fills; // later wins
  std::vector<Region> regs;
};
typedef std::shared_ptr<Obj> ObjP;
struct Draw { int kind; Val v; Val lo; z3::expr cmpOther; bool cmp = false; Draw(int k, Val x, Val l) : kind(k), v(x), lo(l), cmpOther(C) {} };
struct Input { std::string name; Val v; bool dbl; };
struct Pending { z3::expr cond; std::string id; };
struct State {
  std::map<int, ObjP> mem;
  std::vector<z3::expr> pc;
  std::vector<Draw> draws;
  std::vector<Input> inputs;
  std::vector<Pending> checks;
  std::vector<std::pair<std::string, Val>> obs;
  std::map<std::string, int> names;
  std::set<std::string> reach;
  std::shared_ptr<z3::model> mdl;
  z3::expr abortOk; std::string abortId; bool abortSet = false;
  std::map<const llvm::Value *, int> globals;
  std::vector<std::string> notes;
  std::vector<uint64_t> sig; // values picked by sym_pick/sym_conc: such paths are never merged
  struct Exc { Val obj; const llvm::GlobalVariable *type; };
  std::shared_ptr<Exc> exc; std::vector<std::shared_ptr<Exc>> caught; // exception in flight; exceptions being handled
  long steps = 0;
  State() : abortOk(C) {}
};
struct Outcome { State st; Val ret; };
