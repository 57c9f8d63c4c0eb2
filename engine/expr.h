// Hash-consed bit-vector expressions (widths 1..64) with a linear normal form.
#pragma once
#include <cstdint>
#include <cstring>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

namespace sx {
enum class K : uint8_t {
    Const, Var, Select, Lin, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Not, Shl, LShr, AShr,
    Concat, Extract, ZExt, SExt, Ite, Eq, Ult, Ule, Slt, Sle
};

struct Expr;
typedef const Expr* E;

struct Expr {
    K k;
    uint8_t w;
    uint32_t id;
    uint64_t hash;
    uint64_t c = 0;  // Const value, Lin constant, Extract low bit, Var/array symbol id
    uint64_t umin = 0, umax = ~0ULL;
    E a = nullptr, b = nullptr, d = nullptr;             // operands
    std::vector<std::pair<E, uint64_t>> terms;           // Lin
    mutable uint64_t stamp = 0;                          // evaluation memo
    mutable uint64_t val = 0;
    mutable std::shared_ptr<std::vector<uint32_t>> sup;  // support (symbol ids)
};

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline int64_t sext64(uint64_t v, unsigned w)
{
    if (w >= 64) return (int64_t)v;
    uint64_t m = 1ULL << (w - 1);
    v &= maskw(w);
    return (int64_t)((v ^ m) - m);
}

struct Symbol {
    std::string name;
    unsigned w;          // width of a variable; 0 for an array of bytes
    uint64_t lo, hi;     // declared range
    int kind = 0;        // 0 input, 1 schedule, 2 uninitialised memory
};

// interpretation of symbols: missing variables take their lower bound, missing array bytes are 0
struct Model {
    std::unordered_map<uint32_t, uint64_t> vars;
    std::unordered_map<uint64_t, uint8_t> bytes;  // (array<<40 ^ index)
    static uint64_t key(uint32_t arr, uint64_t idx) { return ((uint64_t)arr << 40) ^ (idx & 0xFFFFFFFFFFULL); }
};
typedef std::shared_ptr<const Model> ModelP;

extern std::vector<Symbol> symbols;
extern uint64_t exprCount;

uint32_t newSymbol(const std::string& name, unsigned w, uint64_t lo, uint64_t hi, int kind);
E mkConst(uint64_t v, unsigned w);
E mkVar(uint32_t sym);
E mkSelect(uint32_t arr, E idx);
E mkAdd(E a, E b);
E mkSub(E a, E b);
E mkNeg(E a);
E mkMul(E a, E b);
E mkUDiv(E a, E b);
E mkSDiv(E a, E b);
E mkURem(E a, E b);
E mkSRem(E a, E b);
E mkAnd(E a, E b);
E mkOr(E a, E b);
E mkXor(E a, E b);
E mkNot(E a);
E mkShl(E a, E b);
E mkLShr(E a, E b);
E mkAShr(E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned lo, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkIte(E c, E t, E f);
E mkEq(E a, E b);
E mkUlt(E a, E b);
E mkUle(E a, E b);
E mkSlt(E a, E b);
E mkSle(E a, E b);
extern E eTrue, eFalse;
void initExpr();
static inline bool isC(E e) { return e->k == K::Const; }
uint64_t evalE(E e, const Model& m);   // new evaluation stamp each call
const std::vector<uint32_t>& support(E e);
std::string str(E e, int depth = 6);
}  // namespace sx
