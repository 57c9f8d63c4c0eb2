#include "expr.h"
#include <algorithm>
#include <cassert>
#include <functional>
#include <unordered_set>

namespace sx {
std::vector<Symbol> symbols;
uint64_t exprCount = 0;
E eTrue, eFalse;

uint32_t newSymbol(const std::string& name, unsigned w, uint64_t lo, uint64_t hi, int kind)
{
    symbols.push_back({name, w, lo, hi, kind});
    return (uint32_t)symbols.size() - 1;
}

static inline uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    return h ^ (h >> 29);
}
static uint64_t hashE(const Expr& e)
{
    uint64_t h = mix((uint64_t)e.k * 131 + e.w, e.c);
    h = mix(h, e.a ? e.a->id + 1 : 0);
    h = mix(h, e.b ? e.b->id + 1 : 0);
    h = mix(h, e.d ? e.d->id + 1 : 0);
    for (auto& t : e.terms) h = mix(mix(h, t.first->id), t.second);
    return h;
}
struct HS {
    size_t operator()(const Expr* e) const { return e->hash; }
};
struct EQ {
    bool operator()(const Expr* x, const Expr* y) const
    {
        return x->k == y->k && x->w == y->w && x->c == y->c && x->a == y->a && x->b == y->b && x->d == y->d &&
               x->terms == y->terms;
    }
};
static std::unordered_set<const Expr*, HS, EQ> table;

static E intern(Expr& e)
{
    e.hash = hashE(e);
    auto it = table.find(&e);
    if (it != table.end()) return *it;
    e.id = (uint32_t)exprCount++;
    Expr* n = new Expr(e);
    table.insert(n);
    return n;
}
static Expr mk(K k, unsigned w, E a = nullptr, E b = nullptr, E d = nullptr)
{
    Expr e;
    e.k = k;
    e.w = (uint8_t)w;
    e.a = a;
    e.b = b;
    e.d = d;
    e.umin = 0;
    e.umax = maskw(w);
    return e;
}
void initExpr()
{
    eFalse = mkConst(0, 1);
    eTrue = mkConst(1, 1);
}
E mkConst(uint64_t v, unsigned w)
{
    assert(w >= 1 && w <= 64);
    Expr e = mk(K::Const, w);
    e.c = v & maskw(w);
    e.umin = e.umax = e.c;
    return intern(e);
}
E mkVar(uint32_t s)
{
    Expr e = mk(K::Var, symbols[s].w);
    e.c = s;
    e.umin = symbols[s].lo;
    e.umax = symbols[s].hi;
    return intern(e);
}
E mkSelect(uint32_t arr, E idx)
{
    Expr e = mk(K::Select, 8, idx);
    e.c = arr;
    return intern(e);
}

struct LinB {
    unsigned w;
    uint64_t c = 0;
    std::vector<std::pair<E, uint64_t>> t;
};
static void linAdd(LinB& l, E e, uint64_t coef)
{
    coef &= maskw(l.w);
    if (!coef) return;
    if (e->k == K::Const) {
        l.c += coef * e->c;
        return;
    }
    if (e->k == K::Lin) {
        l.c += coef * e->c;
        for (auto& p : e->terms) l.t.push_back({p.first, (p.second * coef) & maskw(l.w)});
        return;
    }
    l.t.push_back({e, coef});
}
static E linFin(LinB& l)
{
    l.c &= maskw(l.w);
    std::sort(l.t.begin(), l.t.end(), [](auto& x, auto& y) { return x.first->id < y.first->id; });
    std::vector<std::pair<E, uint64_t>> o;
    for (auto& p : l.t) {
        if (!o.empty() && o.back().first == p.first)
            o.back().second = (o.back().second + p.second) & maskw(l.w);
        else
            o.push_back(p);
        if (o.back().second == 0) o.pop_back();
    }
    if (o.empty()) return mkConst(l.c, l.w);
    if (l.c == 0 && o.size() == 1 && o[0].second == 1) return o[0].first;
    Expr e = mk(K::Lin, l.w);
    e.c = l.c;
    e.terms = std::move(o);
    // ranges: only when the sum cannot wrap (negative coefficients are handled as subtraction)
    __int128 lo = l.c, hi = l.c;
    if (l.c > maskw(l.w) / 2 + 1) lo = hi = (__int128)l.c - ((__int128)maskw(l.w) + 1);
    bool ok = true;
    for (auto& p : e.terms) {
        int64_t s = sext64(p.second, l.w);
        __int128 x = (__int128)s * (__int128)p.first->umin, y = (__int128)s * (__int128)p.first->umax;
        lo += x < y ? x : y;
        hi += x < y ? y : x;
        if (hi > ((__int128)1 << 100) || lo < -((__int128)1 << 100)) {
            ok = false;
            break;
        }
    }
    if (ok && lo >= 0 && hi <= (__int128)maskw(l.w)) {
        e.umin = (uint64_t)lo;
        e.umax = (uint64_t)hi;
    } else if (ok) {
        // maybe the constant was meant as a large positive number
        __int128 M = (__int128)maskw(l.w) + 1;
        if (lo < 0 && hi < 0 && lo >= -M) {
            e.umin = (uint64_t)(lo + M);
            e.umax = (uint64_t)(hi + M);
        } else if (lo >= M && hi < 2 * M) {
            e.umin = (uint64_t)(lo - M);
            e.umax = (uint64_t)(hi - M);
        }
    }
    if (e.umin == e.umax) return mkConst(e.umin, l.w);
    return intern(e);
}
E mkAdd(E a, E b)
{
    if (isC(a) && isC(b)) return mkConst(a->c + b->c, a->w);
    if (a->w == 1) return mkXor(a, b);
    if (isC(b) && b->c == 0) return a;
    if (isC(a) && a->c == 0) return b;
    LinB l{a->w};
    linAdd(l, a, 1);
    linAdd(l, b, 1);
    return linFin(l);
}
E mkSub(E a, E b)
{
    if (isC(a) && isC(b)) return mkConst(a->c - b->c, a->w);
    if (a->w == 1) return mkXor(a, b);
    if (a == b) return mkConst(0, a->w);
    LinB l{a->w};
    linAdd(l, a, 1);
    linAdd(l, b, ~0ULL);
    return linFin(l);
}
E mkNeg(E a) { return mkSub(mkConst(0, a->w), a); }
static E mulC(E a, uint64_t c)
{
    if (a->w == 1) return (c & 1) ? a : eFalse;
    LinB l{a->w};
    linAdd(l, a, c);
    return linFin(l);
}
static bool isPow2(uint64_t v) { return v && !(v & (v - 1)); }
static unsigned lg2(uint64_t v) { return __builtin_ctzll(v); }
static E bin(K k, E a, E b)
{
    Expr e = mk(k, a->w, a, b);
    return intern(e);
}
E mkMul(E a, E b)
{
    if (isC(a) && isC(b)) return mkConst(a->c * b->c, a->w);
    if (isC(b)) return mulC(a, b->c);
    if (isC(a)) return mulC(b, a->c);
    if (a->w == 1) return mkAnd(a, b);
    if (a->id > b->id) std::swap(a, b);
    return bin(K::Mul, a, b);
}
E mkUDiv(E a, E b)
{
    if (isC(b) && b->c) {
        if (isC(a)) return mkConst(a->c / b->c, a->w);
        if (b->c == 1) return a;
        if (isPow2(b->c)) return mkLShr(a, mkConst(lg2(b->c), a->w));
    }
    Expr e = mk(K::UDiv, a->w, a, b);
    if (isC(b) && b->c) {
        e.umin = a->umin / b->c;
        e.umax = a->umax / b->c;
    }
    return intern(e);
}
E mkSDiv(E a, E b)
{
    if (isC(a) && isC(b) && b->c) {
        int64_t x = sext64(a->c, a->w), y = sext64(b->c, a->w);
        if (y == -1) return mkNeg(a);
        return mkConst((uint64_t)(x / y), a->w);
    }
    uint64_t half = maskw(a->w) >> 1;
    if (a->umax <= half && b->umax <= half) return mkUDiv(a, b);
    return bin(K::SDiv, a, b);
}
E mkURem(E a, E b)
{
    if (isC(b) && b->c) {
        if (isC(a)) return mkConst(a->c % b->c, a->w);
        if (b->c == 1) return mkConst(0, a->w);
        if (isPow2(b->c)) return mkAnd(a, mkConst(b->c - 1, a->w));
        if (a->umax < b->c) return a;
    }
    Expr e = mk(K::URem, a->w, a, b);
    if (isC(b) && b->c) e.umax = std::min<uint64_t>(b->c - 1, a->umax);
    return intern(e);
}
E mkSRem(E a, E b)
{
    if (isC(a) && isC(b) && b->c) {
        int64_t x = sext64(a->c, a->w), y = sext64(b->c, a->w);
        if (y == -1) return mkConst(0, a->w);
        return mkConst((uint64_t)(x % y), a->w);
    }
    uint64_t half = maskw(a->w) >> 1;
    if (a->umax <= half && b->umax <= half) return mkURem(a, b);
    return bin(K::SRem, a, b);
}
E mkNot(E a)
{
    if (isC(a)) return mkConst(~a->c, a->w);
    if (a->w > 1) return mkSub(mkConst(~0ULL, a->w), a);
    switch (a->k) {
        case K::Not: return a->a;
        case K::Ult: return mkUle(a->b, a->a);
        case K::Ule: return mkUlt(a->b, a->a);
        case K::Slt: return mkSle(a->b, a->a);
        case K::Sle: return mkSlt(a->b, a->a);
        default: break;
    }
    Expr e = mk(K::Not, 1, a);
    return intern(e);
}
static bool isNeg(E a, E b) { return (a->k == K::Not && a->a == b) || (b->k == K::Not && b->a == a); }
E mkAnd(E a, E b)
{
    if (isC(a) && isC(b)) return mkConst(a->c & b->c, a->w);
    if (isC(a)) std::swap(a, b);
    if (a == b) return a;
    if (isC(b)) {
        if (b->c == 0) return b;
        if (b->c == maskw(a->w)) return a;
        if (isPow2(b->c + 1)) {
            if (a->umax <= b->c) return a;
            unsigned n = lg2(b->c + 1);
            return mkZExt(mkExtract(a, 0, n), a->w);
        }
        // mask of contiguous high bits: keep the high part, clear the low
        uint64_t inv = ~b->c & maskw(a->w);
        if (isPow2(inv + 1)) {
            unsigned n = lg2(inv + 1);
            return mkConcat(mkExtract(a, n, a->w - n), mkConst(0, n));
        }
        // contiguous field
        unsigned lo = lg2(b->c);
        uint64_t f = b->c >> lo;
        if (isPow2(f + 1)) {
            unsigned n = lg2(f + 1);
            E x = mkExtract(a, lo, n);
            return mkZExt(lo ? mkConcat(x, mkConst(0, lo)) : x, a->w);
        }
    }
    if (a->w == 1 && isNeg(a, b)) return eFalse;
    if (a->id > b->id) std::swap(a, b);
    Expr e = mk(K::And, a->w, a, b);
    e.umax = std::min(a->umax, b->umax);
    return intern(e);
}
E mkOr(E a, E b)
{
    if (isC(a) && isC(b)) return mkConst(a->c | b->c, a->w);
    if (isC(a)) std::swap(a, b);
    if (a == b) return a;
    if (isC(b)) {
        if (b->c == 0) return a;
        if (b->c == maskw(a->w)) return b;
    }
    if (a->w == 1) {
        if (isNeg(a, b)) return eTrue;
        // boolean: keep as Not(And(Not,Not))?  a plain Or is easier to read back
    } else {
        // x | (y << n) with x < 2^n  ==> concat
        for (int i = 0; i < 2; i++) {
            E x = i ? b : a, y = i ? a : b;
            E yy = y;
            unsigned zx = 0;
            if (yy->k == K::ZExt) {
                zx = yy->w - yy->a->w;
                yy = yy->a;
            }
            if (yy->k == K::Concat && isC(yy->b) && yy->b->c == 0 && x->umax <= maskw(yy->b->w)) {
                E r = mkConcat(yy->a, mkExtract(x, 0, yy->b->w));
                return zx ? mkZExt(r, a->w) : r;
            }
        }
    }
    if (a->id > b->id) std::swap(a, b);
    Expr e = mk(K::Or, a->w, a, b);
    e.umin = std::max(a->umin, b->umin);
    return intern(e);
}
E mkXor(E a, E b)
{
    if (isC(a) && isC(b)) return mkConst(a->c ^ b->c, a->w);
    if (isC(a)) std::swap(a, b);
    if (a == b) return mkConst(0, a->w);
    if (isC(b)) {
        if (b->c == 0) return a;
        if (b->c == maskw(a->w)) return mkNot(a);
    }
    if (a->w == 1) {
        if (isNeg(a, b)) return eTrue;
        if (a->k == K::Not && b->k == K::Not) return mkXor(a->a, b->a);
    }
    if (a->id > b->id) std::swap(a, b);
    return bin(K::Xor, a, b);
}
E mkShl(E a, E b)
{
    if (isC(b)) {
        if (b->c >= a->w) return mkConst(0, a->w);
        if (b->c == 0) return a;
        if (isC(a)) return mkConst(a->c << b->c, a->w);
        if (a->k == K::Lin || a->k == K::Var || a->umax <= 0xFFFF || a->umax <= (maskw(a->w) >> b->c))
            if (a->w > 1 && !(a->k == K::Concat)) return mulC(a, 1ULL << b->c);
        return mkConcat(mkExtract(a, 0, a->w - (unsigned)b->c), mkConst(0, (unsigned)b->c));
    }
    if (isC(a) && a->c == 0) return a;
    return bin(K::Shl, a, b);
}
E mkLShr(E a, E b)
{
    if (isC(b)) {
        if (b->c >= a->w) return mkConst(0, a->w);
        if (b->c == 0) return a;
        if (isC(a)) return mkConst(a->c >> b->c, a->w);
        return mkZExt(mkExtract(a, (unsigned)b->c, a->w - (unsigned)b->c), a->w);
    }
    if (isC(a) && a->c == 0) return a;
    return bin(K::LShr, a, b);
}
E mkAShr(E a, E b)
{
    if (isC(b)) {
        uint64_t s = std::min<uint64_t>(b->c, a->w - 1u);
        if (s == 0) return a;
        if (isC(a)) return mkConst((uint64_t)(sext64(a->c, a->w) >> s), a->w);
        return mkSExt(mkExtract(a, (unsigned)s, a->w - (unsigned)s), a->w);
    }
    return bin(K::AShr, a, b);
}
E mkConcat(E hi, E lo)
{
    unsigned w = hi->w + lo->w;
    assert(w <= 64);
    if (isC(hi) && isC(lo)) return mkConst((hi->c << lo->w) | lo->c, w);
    if (isC(hi) && hi->c == 0) return mkZExt(lo, w);
    if (hi->k == K::Extract && lo->k == K::Extract && hi->a == lo->a && hi->c == lo->c + lo->w)
        return mkExtract(hi->a, (unsigned)lo->c, w);
    // (x ++ extract) ++ extract  merging
    if (hi->k == K::Concat && hi->b->k == K::Extract && lo->k == K::Extract && hi->b->a == lo->a &&
        hi->b->c == lo->c + lo->w)
        return mkConcat(hi->a, mkExtract(lo->a, (unsigned)lo->c, hi->b->w + lo->w));
    if (hi->k == K::Extract && hi->c >= lo->w && lo->k != K::Extract) {
        // extract(e,n..) ++ lowpart(e) where lowpart was simplified (e.g. a truncation)
        unsigned at = (unsigned)hi->c - lo->w;
        if (mkExtract(hi->a, at, lo->w) == lo) return mkExtract(hi->a, at, w);
    }
    if (hi->k == K::Concat && hi->b->k == K::Extract && hi->b->c >= lo->w && lo->k != K::Extract) {
        unsigned at = (unsigned)hi->b->c - lo->w;
        if (mkExtract(hi->b->a, at, lo->w) == lo) return mkConcat(hi->a, mkExtract(hi->b->a, at, hi->b->w + lo->w));
    }
    if (hi->k == K::ZExt) return mkZExt(mkConcat(hi->a, lo), w);
    Expr e = mk(K::Concat, w, hi, lo);
    e.umin = (hi->umin << lo->w) + lo->umin;
    e.umax = (hi->umax << lo->w) + lo->umax;
    return intern(e);
}
E mkExtract(E a, unsigned lo, unsigned w)
{
    assert(w >= 1 && lo + w <= a->w);
    if (w == a->w) return a;
    if (isC(a)) return mkConst(a->c >> lo, w);
    switch (a->k) {
        case K::Extract: return mkExtract(a->a, lo + (unsigned)a->c, w);
        case K::Concat: {
            unsigned lw = a->b->w;
            if (lo + w <= lw) return mkExtract(a->b, lo, w);
            if (lo >= lw) return mkExtract(a->a, lo - lw, w);
            return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo));
        }
        case K::ZExt: {
            unsigned iw = a->a->w;
            if (lo >= iw) return mkConst(0, w);
            if (lo + w <= iw) return mkExtract(a->a, lo, w);
            return mkZExt(mkExtract(a->a, lo, iw - lo), w);
        }
        case K::SExt: {
            unsigned iw = a->a->w;
            if (lo + w <= iw) return mkExtract(a->a, lo, w);
            if (lo < iw) return mkSExt(mkExtract(a->a, lo, iw - lo), w);
            return mkSExt(mkExtract(a->a, iw - 1, 1), w);
        }
        case K::Lin:
            if (lo == 0) {
                LinB l{w};
                l.c = a->c;
                for (auto& t : a->terms) linAdd(l, mkExtract(t.first, 0, w), t.second);
                if (w == 1) break;
                return linFin(l);
            } else {
                // every term is a multiple of 2^lo: shift the whole form
                uint64_t low = maskw(lo);
                bool all = !(a->c & low);
                for (auto& t : a->terms)
                    if (t.second & low) all = false;
                unsigned nw = a->w - lo;
                if (!all || nw == 1) break;
                LinB l{nw};
                l.c = (a->c >> lo) & maskw(nw);
                for (auto& t : a->terms) linAdd(l, mkExtract(t.first, 0, nw), (t.second >> lo) & maskw(nw));
                E x = linFin(l);
                return mkExtract(x, 0, w);
            }
            break;
        case K::Ite:
            if (isC(a->b) || isC(a->d)) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->d, lo, w));
            break;
        case K::And:
        case K::Or:
        case K::Xor:
            if (isC(a->a) || isC(a->b) || true) {
                E x = mkExtract(a->a, lo, w), y = mkExtract(a->b, lo, w);
                return a->k == K::And ? mkAnd(x, y) : a->k == K::Or ? mkOr(x, y) : mkXor(x, y);
            }
            break;
        default: break;
    }
    if (a->umax < (lo >= 64 ? 0 : (1ULL << lo))) return mkConst(0, w);
    Expr e = mk(K::Extract, w, a);
    e.c = lo;
    if (lo == 0 && a->umax <= maskw(w)) {
        e.umin = a->umin;
        e.umax = a->umax;
    } else if ((a->umax >> lo) <= maskw(w)) {
        e.umax = a->umax >> lo;
        e.umin = a->umin >> lo;
    }
    return intern(e);
}
E mkZExt(E a, unsigned w)
{
    if (w == a->w) return a;
    if (isC(a)) return mkConst(a->c, w);
    if (a->k == K::ZExt) return mkZExt(a->a, w);
    if (a->k == K::Ite && isC(a->b) && isC(a->d)) return mkIte(a->a, mkConst(a->b->c, w), mkConst(a->d->c, w));
    if (a->k == K::Extract && a->c == 0 && a->a->umax <= maskw(a->w)) {
        // truncation that loses nothing
        if (a->a->w == w) return a->a;
        if (a->a->w < w) return mkZExt(a->a, w);
        return mkExtract(a->a, 0, w);
    }
    if (a->k == K::Lin) {
        // push the extension inside when no wrap can happen
        bool ok = true;
        __int128 lo = 0, hi = 0;
        int64_t sc = sext64(a->c, a->w);
        lo = hi = sc;
        for (auto& t : a->terms) {
            int64_t s = sext64(t.second, a->w);
            __int128 x = (__int128)s * (__int128)t.first->umin, y = (__int128)s * (__int128)t.first->umax;
            lo += x < y ? x : y;
            hi += x < y ? y : x;
        }
        if (lo < 0 || hi > (__int128)maskw(a->w)) ok = false;
        if (ok) {
            LinB l{w};
            l.c = (uint64_t)sc;
            for (auto& t : a->terms) linAdd(l, mkZExt(t.first, w), (uint64_t)sext64(t.second, a->w));
            return linFin(l);
        }
    }
    Expr e = mk(K::ZExt, w, a);
    e.umin = a->umin;
    e.umax = a->umax;
    return intern(e);
}
E mkSExt(E a, unsigned w)
{
    if (w == a->w) return a;
    if (isC(a)) return mkConst((uint64_t)sext64(a->c, a->w), w);
    if (a->umax <= (maskw(a->w) >> 1)) return mkZExt(a, w);
    if (a->k == K::SExt) return mkSExt(a->a, w);
    if (a->k == K::ZExt) return mkZExt(a->a, w);
    if (a->k == K::Ite && isC(a->b) && isC(a->d)) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->d, w));
    if (a->k == K::Lin) {
        // no signed wrap: extend term by term
        __int128 lo, hi;
        int64_t sc = sext64(a->c, a->w);
        lo = hi = sc;
        bool ok = true;
        for (auto& t : a->terms) {
            int64_t s = sext64(t.second, a->w);
            __int128 x = (__int128)s * (__int128)t.first->umin, y = (__int128)s * (__int128)t.first->umax;
            lo += x < y ? x : y;
            hi += x < y ? y : x;
        }
        __int128 H = (__int128)(maskw(a->w) >> 1);
        if (lo < -H - 1 || hi > H) ok = false;
        if (ok) {
            LinB l{w};
            l.c = (uint64_t)sc;
            for (auto& t : a->terms) linAdd(l, mkZExt(t.first, w), (uint64_t)sext64(t.second, a->w));
            return linFin(l);
        }
    }
    Expr e = mk(K::SExt, w, a);
    return intern(e);
}
E mkIte(E c, E t, E f)
{
    if (isC(c)) return c->c ? t : f;
    if (t == f) return t;
    if (c->k == K::Not) return mkIte(c->a, f, t);
    if (t->w == 1) {
        if (isC(t) && isC(f)) return t->c ? c : mkNot(c);
        if (isC(t)) return t->c ? mkOr(c, f) : mkAnd(mkNot(c), f);
        if (isC(f)) return f->c ? mkOr(mkNot(c), t) : mkAnd(c, t);
    }
    if (t->k == K::Ite && t->a == c) t = t->b;
    if (f->k == K::Ite && f->a == c) f = f->d;
    if (t == f) return t;
    Expr e = mk(K::Ite, t->w, c, t, f);
    e.umin = std::min(t->umin, f->umin);
    e.umax = std::max(t->umax, f->umax);
    return intern(e);
}
E mkEq(E a, E b)
{
    if (a == b) return eTrue;
    if (isC(a) && isC(b)) return mkConst(a->c == b->c, 1);
    if (isC(a)) std::swap(a, b);
    if (a->umax < b->umin || b->umax < a->umin) return eFalse;
    if (a->w == 1) {
        if (isC(b)) return b->c ? a : mkNot(a);
        return mkNot(mkXor(a, b));
    }
    if (!isC(b)) {
        if (a->k == K::ZExt && b->k == K::ZExt) {
            unsigned m = std::max(a->a->w, b->a->w);
            return mkEq(mkZExt(a->a, m), mkZExt(b->a, m));
        }
        if (a->k == K::Lin || b->k == K::Lin) {
            E d = mkSub(a, b);
            if (d->k != K::Lin) return mkEq(d, mkConst(0, a->w));
            // move: one side keeps a single positive-unit term when possible
            return mkEq(d, mkConst(0, a->w));
        }
        if (a->id > b->id) std::swap(a, b);
        Expr e = mk(K::Eq, 1, a, b);
        return intern(e);
    }
    // b constant
    switch (a->k) {
        case K::ZExt:
            if (b->c > maskw(a->a->w)) return eFalse;
            return mkEq(a->a, mkConst(b->c, a->a->w));
        case K::SExt: {
            uint64_t t = b->c & maskw(a->a->w);
            if (((uint64_t)sext64(t, a->a->w) & maskw(a->w)) != b->c) return eFalse;
            return mkEq(a->a, mkConst(t, a->a->w));
        }
        case K::Concat: {
            E h = mkEq(a->a, mkConst(b->c >> a->b->w, a->a->w));
            if (h == eFalse) return h;
            return mkAnd(h, mkEq(a->b, mkConst(b->c, a->b->w)));
        }
        case K::Ite:
            if (isC(a->b) && isC(a->d)) {
                bool x = a->b->c == b->c, y = a->d->c == b->c;
                return x ? (y ? eTrue : a->a) : (y ? mkNot(a->a) : eFalse);
            }
            if (isC(a->b)) {
                if (a->b->c == b->c) return mkOr(a->a, mkEq(a->d, b));
                return mkAnd(mkNot(a->a), mkEq(a->d, b));
            }
            if (isC(a->d)) {
                if (a->d->c == b->c) return mkOr(mkNot(a->a), mkEq(a->b, b));
                return mkAnd(a->a, mkEq(a->b, b));
            }
            break;
        case K::Lin: {
            uint64_t k = (b->c - a->c) & maskw(a->w);  // sum(terms) == k
            if (a->terms.size() == 1) {
                uint64_t c = a->terms[0].second;
                if (c == 1) return mkEq(a->terms[0].first, mkConst(k, a->w));
                if (c == maskw(a->w)) return mkEq(a->terms[0].first, mkConst(0 - k, a->w));
                if (isPow2(c) && (k & (c - 1))) return eFalse;
                if (isPow2(c) && a->terms[0].first->umax <= maskw(a->w) / c)
                    return mkEq(a->terms[0].first, mkConst(k / c, a->w));
            }
            // normalise sign so that x-y==0 and y-x==0 coincide
            LinB l{a->w};
            bool neg = sext64(a->terms[0].second, a->w) < 0;
            for (auto& t : a->terms) linAdd(l, t.first, neg ? 0 - t.second : t.second);
            E s = linFin(l);
            Expr e = mk(K::Eq, 1, s, mkConst(neg ? 0 - k : k, a->w));
            if (e.a->umax < e.b->umin || e.b->umax < e.a->umin) return eFalse;
            return intern(e);
        }
        default: break;
    }
    Expr e = mk(K::Eq, 1, a, b);
    return intern(e);
}
E mkUlt(E a, E b)
{
    if (a == b) return eFalse;
    if (isC(a) && isC(b)) return mkConst(a->c < b->c, 1);
    if (a->umax < b->umin) return eTrue;
    if (a->umin >= b->umax) return eFalse;
    if (a->w == 1) return mkAnd(mkNot(a), b);
    if (isC(b) && b->c == 1) return mkEq(a, mkConst(0, a->w));
    if (isC(a) && a->c == 0) return mkNot(mkEq(b, a));
    if (a->k == K::ZExt && (b->k == K::ZExt || isC(b))) {
        unsigned m = a->a->w;
        if (!isC(b)) m = std::max(m, (unsigned)b->a->w);
        if (m < a->w) {
            if (isC(b)) return mkUlt(a->a, mkConst(b->c, m));  // b <= umax of a (else decided above)
            return mkUlt(mkZExt(a->a, m), mkZExt(b->a, m));
        }
    }
    if (isC(a) && b->k == K::ZExt) return mkUlt(mkConst(a->c, b->a->w), b->a);
    Expr e = mk(K::Ult, 1, a, b);
    return intern(e);
}
E mkUle(E a, E b)
{
    if (a == b) return eTrue;
    if (isC(a) && isC(b)) return mkConst(a->c <= b->c, 1);
    if (a->umax <= b->umin) return eTrue;
    if (a->umin > b->umax) return eFalse;
    if (a->w == 1) return mkOr(mkNot(a), b);
    if (isC(b) && b->c == 0) return mkEq(a, b);
    if (isC(b) && b->c != maskw(b->w)) return mkUlt(a, mkConst(b->c + 1, b->w));
    if (isC(a) && a->c != 0) return mkUlt(mkConst(a->c - 1, a->w), b);
    if (a->k == K::ZExt && b->k == K::ZExt) {
        unsigned m = std::max(a->a->w, b->a->w);
        if (m < a->w) return mkUle(mkZExt(a->a, m), mkZExt(b->a, m));
    }
    Expr e = mk(K::Ule, 1, a, b);
    return intern(e);
}
E mkSlt(E a, E b)
{
    if (a == b) return eFalse;
    if (isC(a) && isC(b)) return mkConst(sext64(a->c, a->w) < sext64(b->c, a->w), 1);
    uint64_t half = maskw(a->w) >> 1;
    if (a->umax <= half && b->umax <= half) return mkUlt(a, b);
    if (a->umin > half && b->umin > half) return mkUlt(a, b);
    if (a->umin > half && b->umax <= half) return eTrue;
    if (a->umax <= half && b->umin > half) return eFalse;
    Expr e = mk(K::Slt, 1, a, b);
    return intern(e);
}
E mkSle(E a, E b)
{
    if (a == b) return eTrue;
    if (isC(a) && isC(b)) return mkConst(sext64(a->c, a->w) <= sext64(b->c, a->w), 1);
    uint64_t half = maskw(a->w) >> 1;
    if (a->umax <= half && b->umax <= half) return mkUle(a, b);
    if (a->umin > half && b->umin > half) return mkUle(a, b);
    if (a->umin > half && b->umax <= half) return eTrue;
    if (a->umax <= half && b->umin > half) return eFalse;
    Expr e = mk(K::Sle, 1, a, b);
    return intern(e);
}

static uint64_t curStamp = 0;
static uint64_t ev(E e, const Model& m)
{
    if (e->k == K::Const) return e->c;
    if (e->stamp == curStamp) return e->val;
    uint64_t r = 0;
    unsigned w = e->w;
    switch (e->k) {
        case K::Const: break;
        case K::Var: {
            auto it = m.vars.find((uint32_t)e->c);
            r = it == m.vars.end() ? symbols[e->c].lo : it->second;
            break;
        }
        case K::Select: {
            uint64_t i = ev(e->a, m);
            auto it = m.bytes.find(Model::key((uint32_t)e->c, i));
            r = it == m.bytes.end() ? 0 : it->second;
            break;
        }
        case K::Lin:
            r = e->c;
            for (auto& t : e->terms) r += t.second * ev(t.first, m);
            break;
        case K::Mul: r = ev(e->a, m) * ev(e->b, m); break;
        case K::UDiv: {
            uint64_t x = ev(e->a, m), y = ev(e->b, m);
            r = y ? x / y : ~0ULL;
            break;
        }
        case K::URem: {
            uint64_t x = ev(e->a, m), y = ev(e->b, m);
            r = y ? x % y : x;
            break;
        }
        case K::SDiv: {
            int64_t x = sext64(ev(e->a, m), w), y = sext64(ev(e->b, m), w);
            r = y == 0 ? (x < 0 ? 1 : ~0ULL) : y == -1 ? 0 - (uint64_t)x : (uint64_t)(x / y);
            break;
        }
        case K::SRem: {
            int64_t x = sext64(ev(e->a, m), w), y = sext64(ev(e->b, m), w);
            r = y == 0 ? (uint64_t)x : y == -1 ? 0 : (uint64_t)(x % y);
            break;
        }
        case K::And: r = ev(e->a, m) & ev(e->b, m); break;
        case K::Or: r = ev(e->a, m) | ev(e->b, m); break;
        case K::Xor: r = ev(e->a, m) ^ ev(e->b, m); break;
        case K::Not: r = ~ev(e->a, m); break;
        case K::Shl: {
            uint64_t s = ev(e->b, m);
            r = s >= w ? 0 : ev(e->a, m) << s;
            break;
        }
        case K::LShr: {
            uint64_t s = ev(e->b, m);
            r = s >= w ? 0 : ev(e->a, m) >> s;
            break;
        }
        case K::AShr: {
            uint64_t s = ev(e->b, m);
            r = (uint64_t)(sext64(ev(e->a, m), w) >> (s >= w ? w - 1 : s));
            break;
        }
        case K::Concat: r = (ev(e->a, m) << e->b->w) | ev(e->b, m); break;
        case K::Extract: r = ev(e->a, m) >> e->c; break;
        case K::ZExt: r = ev(e->a, m); break;
        case K::SExt: r = (uint64_t)sext64(ev(e->a, m), e->a->w); break;
        case K::Ite: r = ev(e->a, m) ? ev(e->b, m) : ev(e->d, m); break;
        case K::Eq: r = ev(e->a, m) == ev(e->b, m); break;
        case K::Ult: r = ev(e->a, m) < ev(e->b, m); break;
        case K::Ule: r = ev(e->a, m) <= ev(e->b, m); break;
        case K::Slt: r = sext64(ev(e->a, m), e->a->w) < sext64(ev(e->b, m), e->a->w); break;
        case K::Sle: r = sext64(ev(e->a, m), e->a->w) <= sext64(ev(e->b, m), e->a->w); break;
    }
    r &= maskw(w);
    e->stamp = curStamp;
    e->val = r;
    return r;
}
uint64_t evalE(E e, const Model& m)
{
    ++curStamp;
    return ev(e, m);
}

static const std::shared_ptr<std::vector<uint32_t>>& supp(E e)
{
    static const std::shared_ptr<std::vector<uint32_t>> none = std::make_shared<std::vector<uint32_t>>();
    if (e->k == K::Const) return none;
    if (e->sup) return e->sup;
    std::vector<const std::shared_ptr<std::vector<uint32_t>>*> ks;
    for (E x : {e->a, e->b, e->d})
        if (x && x->k != K::Const) ks.push_back(&supp(x));
    for (auto& t : e->terms) ks.push_back(&supp(t.first));
    if (e->k == K::Var || e->k == K::Select) {
        auto v = std::make_shared<std::vector<uint32_t>>();
        if (!ks.empty()) *v = **ks[0];
        v->insert(std::lower_bound(v->begin(), v->end(), (uint32_t)e->c), (uint32_t)e->c);
        v->erase(std::unique(v->begin(), v->end()), v->end());
        e->sup = v;
        return e->sup;
    }
    if (ks.size() == 1) {
        e->sup = *ks[0];
        return e->sup;
    }
    bool same = true;
    for (auto k : ks)
        if (**k != **ks[0]) same = false;
    if (same && !ks.empty()) {
        e->sup = *ks[0];
        return e->sup;
    }
    auto v = std::make_shared<std::vector<uint32_t>>();
    for (auto k : ks) v->insert(v->end(), (*k)->begin(), (*k)->end());
    std::sort(v->begin(), v->end());
    v->erase(std::unique(v->begin(), v->end()), v->end());
    e->sup = v;
    return e->sup;
}
const std::vector<uint32_t>& support(E e) { return *supp(e); }

std::string str(E e, int depth)
{
    static const char* nm[] = {"const", "var", "select", "lin", "mul", "udiv", "sdiv", "urem", "srem",
                               "and", "or", "xor", "not", "shl", "lshr", "ashr", "concat", "extract",
                               "zext", "sext", "ite", "eq", "ult", "ule", "slt", "sle"};
    if (e->k == K::Const) return std::to_string((long long)sext64(e->c, e->w));
    if (e->k == K::Var) return symbols[e->c].name;
    if (depth == 0) return "...";
    if (e->k == K::Select) return symbols[e->c].name + "[" + str(e->a, depth - 1) + "]";
    std::string s = "(";
    s += nm[(int)e->k];
    if (e->k == K::Extract) s += ":" + std::to_string(e->c) + "+" + std::to_string(e->w);
    if (e->k == K::Lin) {
        if (e->c) s += " " + std::to_string((long long)sext64(e->c, e->w));
        for (auto& t : e->terms) s += " " + std::to_string((long long)sext64(t.second, e->w)) + "*" + str(t.first, depth - 1);
    }
    for (E x : {e->a, e->b, e->d})
        if (x) s += " " + str(x, depth - 1);
    return s + ")";
}
}  // namespace sx
