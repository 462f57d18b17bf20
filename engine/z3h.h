// thin Z3 layer. ASTs are created reference-counted and retained for the life of the process.
#pragma once
#include "engine.h"
namespace sx {
extern Z3_context C;
struct QStats { uint64_t queries=0, sat=0, unsat=0, unknown=0, simp=0; double secs=0; };
extern QStats QS;
inline Z3_ast K(Z3_ast a){ Z3_inc_ref(C,a); return a; }
Z3_sort bvS(unsigned b); Z3_sort realS(); Z3_sort boolS(); Z3_sort fpS(unsigned b); Z3_sort intS();
inline Z3_ast mkTrue(){ static Z3_ast t=K(Z3_mk_true(C)); return t; }
inline Z3_ast mkFalse(){ static Z3_ast t=K(Z3_mk_false(C)); return t; }
inline bool isTrue(Z3_ast a){ return a==mkTrue(); }
inline bool isFalse(Z3_ast a){ return a==mkFalse(); }
Z3_ast bvNum(uint64_t v, unsigned b);
Z3_ast mkNot(Z3_ast a); Z3_ast mkAnd(Z3_ast a, Z3_ast b); Z3_ast mkOr(Z3_ast a, Z3_ast b);
Z3_ast mkEq(Z3_ast a, Z3_ast b); Z3_ast mkIte(Z3_ast c, Z3_ast a, Z3_ast b);
Z3_ast realNum(double d); Z3_ast realInt(int64_t v);
Z3_ast fpNum(double d, unsigned bits);
bool realConst(Z3_ast a, double& out);        // numeral?
Z3_ast freshConst(const char* base, Z3_sort s);
int normSqrtCmp(Z3_ast a,Z3_ast b,Z3_ast& lhs,Z3_ast& rhs,bool& flip); void normBound(Z3_ast a,double lo,double hi); Z3_ast normLinear(Z3_ast a,Z3_ast& side); void normRegSqrt(Z3_ast y, Z3_ast x); bool normConst(Z3_ast a,double& v); bool normDiffConst(Z3_ast a,Z3_ast b,double& v);
enum class Res { Sat, Unsat, Unknown };
}
