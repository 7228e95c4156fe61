#pragma once
#include "val.h"
Val iteVal(const z3::expr &c, const Val &a, const Val &b, bool &ok);
bool sameVal(const Val &a, const Val &b);
void rangeDecl(const std::string &n, int64_t lo, int64_t hi);
bool rangeOf(const z3::expr &e, int64_t &lo, int64_t &hi, int depth = 0);
void rangeSet(const z3::expr &e, int64_t lo, int64_t hi); // exact term
z3::expr narrow(const z3::expr &e);                        // equivalent formula over minimal-width arithmetic
z3::expr modZero(const z3::expr &s, int64_t M, const std::vector<z3::expr> &pc);
z3::expr grpEq(const z3::expr &a, const z3::expr &b);
Val binInt(unsigned opc, const Val &a, const Val &b);
Val icmpInt(unsigned pred, const Val &a, const Val &b);
Val castInt(unsigned opc, const Val &a, unsigned w);
Val binFp(unsigned opc, const Val &a, const Val &b);
Val fnegV(const Val &a);
Val fcmpV(unsigned pred, const Val &a, const Val &b);
Val intToFp(const Val &a, bool sgn, unsigned w);
Val fpToInt(const Val &a, bool sgn, unsigned w);
Val mathFn(const std::string &nm, const std::vector<Val> &a);
z3::expr valOf(const z3::expr &g); // group mode: numeric rank used by comparisons
extern std::vector<z3::expr> AXIOMS; // assertions about interpreted constants
Val grpPart(const Val &a, int part); // 0: modulus part, 1: phase part, 2: conjugate
