// Bit-vector expression DAG (hash-consed, never freed) used by the symbolic executor.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

enum class Op : uint8_t {
    Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, ZExt, SExt
};

struct VarSet {
    uint32_t id;
    std::vector<uint32_t> v; // sorted variable ids
};

struct Expr {
    Op op;
    uint8_t nk;
    uint16_t width; // 1..64
    uint32_t id;
    uint64_t c;     // Const: value; Var: variable id; Extract: low bit
    const Expr *k[3];
    const VarSet *vars;
    uint64_t umin, umax; // unsigned interval that holds for every valuation
    uint64_t zeros;      // bits known to be zero
};
typedef const Expr *E;

inline uint64_t maskOf(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sextOf(uint64_t v, unsigned w) {
    if (w >= 64) return (int64_t)v;
    const uint64_t s = 1ull << (w - 1);
    v &= maskOf(w);
    return (int64_t)((v ^ s) - s);
}
inline bool isC(E a) { return a->op == Op::Const; }

E mkConst(uint64_t v, unsigned w);
E mkVar(const std::string &name, unsigned w);
const std::string &varName(uint32_t id);
unsigned varWidth(uint32_t id);
uint32_t numVars();
uint32_t numExprs();

E mkBin(Op op, E a, E b);
E mkIte(E c, E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned lo, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkNot(E a); // bitwise complement (logical negation for width 1)
inline E mkEq(E a, E b) { return mkBin(Op::Eq, a, b); }
inline E mkAnd(E a, E b) { return mkBin(Op::And, a, b); }
inline E mkOr(E a, E b) { return mkBin(Op::Or, a, b); }
// Folds one operator over constants. Division by zero follows SMT-LIB.
uint64_t foldBin(Op op, uint64_t a, uint64_t b, unsigned w);
std::string exprStr(E e, int depth = 5);

// A valuation: one value per variable id; ids beyond the end are 0.
typedef std::vector<uint64_t> Model;
uint64_t evalExpr(E e, const Model &m);
