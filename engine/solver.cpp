#include "solver.h"
#include <algorithm>
#include <chrono>
#include <map>
#include <set>
#include <unordered_set>
#include <z3.h>

namespace sx {
SolverStats sstats;
unsigned solverTimeoutMs = 20000;
static Z3_context ctx;
static Z3_solver slv, islv;
static std::unordered_map<E, Z3_ast> bvMemo, boolMemo;
static std::unordered_map<E, Z3_ast> selVar;

static void z3err(Z3_context, Z3_error_code) {}
static void init()
{
    if (ctx) return;
    Z3_config cfg = Z3_mk_config();
    ctx = Z3_mk_context(cfg);
    Z3_set_error_handler(ctx, z3err);
    slv = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
    Z3_solver_inc_ref(ctx, slv);
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), solverTimeoutMs);
    Z3_solver_set_params(ctx, slv, p);
    islv = Z3_mk_simple_solver(ctx);
    Z3_solver_inc_ref(ctx, islv);
    Z3_solver_set_params(ctx, islv, p);
}
static Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(ctx, w); }
static Z3_ast num(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(ctx, v & maskw(w), bvs(w)); }
static Z3_ast toBV(E e);
static Z3_ast toBool(E e)
{
    auto it = boolMemo.find(e);
    if (it != boolMemo.end()) return it->second;
    Z3_ast r;
    switch (e->k) {
        case K::Const: r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
        case K::Not: r = Z3_mk_not(ctx, toBool(e->a)); break;
        case K::And: {
            Z3_ast x[2] = {toBool(e->a), toBool(e->b)};
            r = Z3_mk_and(ctx, 2, x);
            break;
        }
        case K::Or: {
            Z3_ast x[2] = {toBool(e->a), toBool(e->b)};
            r = Z3_mk_or(ctx, 2, x);
            break;
        }
        case K::Xor: r = Z3_mk_xor(ctx, toBool(e->a), toBool(e->b)); break;
        case K::Ite: r = Z3_mk_ite(ctx, toBool(e->a), toBool(e->b), toBool(e->d)); break;
        case K::Eq: r = Z3_mk_eq(ctx, toBV(e->a), toBV(e->b)); break;
        case K::Ult: r = Z3_mk_bvult(ctx, toBV(e->a), toBV(e->b)); break;
        case K::Ule: r = Z3_mk_bvule(ctx, toBV(e->a), toBV(e->b)); break;
        case K::Slt: r = Z3_mk_bvslt(ctx, toBV(e->a), toBV(e->b)); break;
        case K::Sle: r = Z3_mk_bvsle(ctx, toBV(e->a), toBV(e->b)); break;
        default: r = Z3_mk_eq(ctx, toBV(e), num(1, 1)); break;
    }
    Z3_inc_ref(ctx, r);
    boolMemo[e] = r;
    return r;
}
static Z3_ast toBV(E e)
{
    auto it = bvMemo.find(e);
    if (it != bvMemo.end()) return it->second;
    Z3_ast r;
    switch (e->k) {
        case K::Const: r = num(e->c, e->w); break;
        case K::Var:
            r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("v" + std::to_string(e->c)).c_str()), bvs(e->w));
            break;
        case K::Select:
            r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("s" + std::to_string(e->id)).c_str()), bvs(8));
            break;
        case K::Lin: {
            r = nullptr;
            for (auto& t : e->terms) {
                Z3_ast x = toBV(t.first);
                int64_t s = sext64(t.second, e->w);
                if (s == 1)
                    r = r ? Z3_mk_bvadd(ctx, r, x) : x;
                else if (s == -1)
                    r = r ? Z3_mk_bvsub(ctx, r, x) : Z3_mk_bvneg(ctx, x);
                else {
                    x = Z3_mk_bvmul(ctx, x, num(t.second, e->w));
                    r = r ? Z3_mk_bvadd(ctx, r, x) : x;
                }
            }
            if (e->c) r = Z3_mk_bvadd(ctx, r, num(e->c, e->w));
            break;
        }
        case K::Mul: r = Z3_mk_bvmul(ctx, toBV(e->a), toBV(e->b)); break;
        case K::UDiv: r = Z3_mk_bvudiv(ctx, toBV(e->a), toBV(e->b)); break;
        case K::SDiv: r = Z3_mk_bvsdiv(ctx, toBV(e->a), toBV(e->b)); break;
        case K::URem: r = Z3_mk_bvurem(ctx, toBV(e->a), toBV(e->b)); break;
        case K::SRem: r = Z3_mk_bvsrem(ctx, toBV(e->a), toBV(e->b)); break;
        case K::And: if (e->w == 1) goto asbool; r = Z3_mk_bvand(ctx, toBV(e->a), toBV(e->b)); break;
        case K::Or: if (e->w == 1) goto asbool; r = Z3_mk_bvor(ctx, toBV(e->a), toBV(e->b)); break;
        case K::Xor: if (e->w == 1) goto asbool; r = Z3_mk_bvxor(ctx, toBV(e->a), toBV(e->b)); break;
        case K::Shl: r = Z3_mk_bvshl(ctx, toBV(e->a), toBV(e->b)); break;
        case K::LShr: r = Z3_mk_bvlshr(ctx, toBV(e->a), toBV(e->b)); break;
        case K::AShr: r = Z3_mk_bvashr(ctx, toBV(e->a), toBV(e->b)); break;
        case K::Concat: r = Z3_mk_concat(ctx, toBV(e->a), toBV(e->b)); break;
        case K::Extract: r = Z3_mk_extract(ctx, (unsigned)e->c + e->w - 1, (unsigned)e->c, toBV(e->a)); break;
        case K::ZExt: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, toBV(e->a)); break;
        case K::SExt: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, toBV(e->a)); break;
        case K::Ite: r = Z3_mk_ite(ctx, toBool(e->a), toBV(e->b), toBV(e->d)); break;
        default:
        asbool:
            r = Z3_mk_ite(ctx, toBool(e), num(1, 1), num(0, 1));
            break;
    }
    Z3_inc_ref(ctx, r);
    bvMemo[e] = r;
    return r;
}
// leaves (variables and selects) of an expression DAG
static void leaves(E e, std::unordered_set<E>& seen, std::vector<E>& vars, std::vector<E>& sels)
{
    if (e->k == K::Const || !seen.insert(e).second) return;
    if (e->k == K::Var) {
        vars.push_back(e);
        return;
    }
    if (e->k == K::Select) sels.push_back(e);
    for (E x : {e->a, e->b, e->d})
        if (x) leaves(x, seen, vars, sels);
    for (auto& t : e->terms) leaves(t.first, seen, vars, sels);
}

// ---- integer encoding, used when no operation of the query can wrap in a way the ranges do not settle.
// toI(e) is an exact integer congruent to e modulo 2^w within [lo,hi] (hi-lo small enough, see uns/sgn).
typedef __int128 i128;
struct IV {
    Z3_ast a = nullptr;
    i128 lo = 0, hi = 0;
    bool ok = false;
};
static std::unordered_map<E, IV> intMemo;
struct OptB {
    Z3_ast a = nullptr;
};
static std::unordered_map<E, OptB> intBool;
static Z3_sort intSort() { return Z3_mk_int_sort(ctx); }
static Z3_ast inum(i128 v)
{
    bool neg = v < 0;
    unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v;
    std::string s;
    do {
        s.insert(s.begin(), (char)('0' + (int)(u % 10)));
        u /= 10;
    } while (u);
    if (neg) s = "-" + s;
    return Z3_mk_numeral(ctx, s.c_str(), intSort());
}
static Z3_ast iadd(Z3_ast a, Z3_ast b)
{
    Z3_ast x[2] = {a, b};
    return Z3_mk_add(ctx, 2, x);
}
static IV toI(E e);
static Z3_ast toIB(E e);
static IV fitRange(IV v, i128 lo, i128 hi, unsigned w)  // shift by 2^w where needed so that the value lies in [lo,hi]
{
    if (!v.ok) return v;
    i128 M = (i128)1 << w;
    if (v.lo >= lo && v.hi <= hi) return v;
    if (v.lo < lo - M || v.hi > hi + M) return IV();
    Z3_ast r = v.a;
    if (v.lo < lo) r = Z3_mk_ite(ctx, Z3_mk_lt(ctx, v.a, inum(lo)), iadd(v.a, inum(M)), r);
    if (v.hi > hi) r = Z3_mk_ite(ctx, Z3_mk_gt(ctx, v.a, inum(hi)), iadd(v.a, inum(-M)), r);
    IV o;
    o.a = r;
    o.lo = lo;
    o.hi = hi;
    o.ok = true;
    return o;
}
static IV uns(E e) { return fitRange(toI(e), 0, ((i128)1 << e->w) - 1, e->w); }
static IV sgn(E e) { return fitRange(toI(e), -((i128)1 << (e->w - 1)), ((i128)1 << (e->w - 1)) - 1, e->w); }
static IV toI(E e)
{
    auto it = intMemo.find(e);
    if (it != intMemo.end()) return it->second;
    IV r;
    switch (e->k) {
        case K::Const: {
            // small negative constants are kept negative
            int64_t s = sext64(e->c, e->w);
            i128 v = (s < 0 && s > -(1LL << 32) && e->w > 33) ? (i128)s : (i128)e->c;
            r.a = inum(v);
            r.lo = r.hi = v;
            r.ok = true;
            break;
        }
        case K::Var:
            r.a = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("iv" + std::to_string(e->c)).c_str()), intSort());
            r.lo = symbols[e->c].lo;
            r.hi = symbols[e->c].hi;
            r.ok = true;
            break;
        case K::Select:
            r.a = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("is" + std::to_string(e->id)).c_str()), intSort());
            r.lo = 0;
            r.hi = 255;
            r.ok = true;
            break;
        case K::Lin: {
            i128 lo, hi;
            int64_t c = sext64(e->c, e->w);
            lo = hi = c;
            Z3_ast a = nullptr;
            bool ok = true;
            for (auto& t : e->terms) {
                IV x = toI(t.first);
                if (!x.ok) {
                    ok = false;
                    break;
                }
                int64_t k = sext64(t.second, e->w);
                if (k > (1LL << 40) || k < -(1LL << 40)) {
                    ok = false;
                    break;
                }
                i128 p = x.lo * k, q = x.hi * k;
                if (p > q) std::swap(p, q);
                lo += p;
                hi += q;
                Z3_ast ta = x.a;
                if (k != 1) {
                    Z3_ast mm[2] = {inum(k), x.a};
                    ta = Z3_mk_mul(ctx, 2, mm);
                }
                a = a ? iadd(a, ta) : ta;
            }
            if (!ok) break;
            if (c || !a) a = a ? iadd(a, inum(c)) : inum(c);
            i128 M = (i128)1 << e->w;
            if (lo < -M || hi >= 2 * M) break;
            r.a = a;
            r.lo = lo;
            r.hi = hi;
            r.ok = true;
            break;
        }
        case K::ZExt: r = uns(e->a); break;
        case K::SExt: r = sgn(e->a); break;
        case K::Extract:
            if (e->c == 0) {
                IV x = toI(e->a);
                i128 M = (i128)1 << e->w;
                if (x.ok && x.lo >= -M && x.hi < 2 * M) r = x;
            }
            break;
        case K::Ite: {
            if (e->w == 1) break;
            Z3_ast c = toIB(e->a);
            IV x = toI(e->b), y = toI(e->d);
            if (!c || !x.ok || !y.ok) break;
            r.a = Z3_mk_ite(ctx, c, x.a, y.a);
            r.lo = std::min(x.lo, y.lo);
            r.hi = std::max(x.hi, y.hi);
            r.ok = true;
            break;
        }
        default: break;
    }
    if (!r.ok && e->w == 1 && e->k != K::Var) {
        Z3_ast b = toIB(e);
        if (b) {
            r.a = Z3_mk_ite(ctx, b, inum(1), inum(0));
            r.lo = 0;
            r.hi = 1;
            r.ok = true;
        }
    }
    if (r.a) Z3_inc_ref(ctx, r.a);
    return intMemo[e] = r;
}
static Z3_ast toIB(E e)
{
    auto it = intBool.find(e);
    if (it != intBool.end()) return it->second.a;
    Z3_ast r = nullptr;
    auto two = [&](auto f) {
        Z3_ast x[2] = {toIB(e->a), toIB(e->b)};
        return x[0] && x[1] ? f(x) : nullptr;
    };
    switch (e->k) {
        case K::Const: r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
        case K::Not: {
            Z3_ast x = toIB(e->a);
            if (x) r = Z3_mk_not(ctx, x);
            break;
        }
        case K::And: r = two([&](Z3_ast* x) { return Z3_mk_and(ctx, 2, x); }); break;
        case K::Or: r = two([&](Z3_ast* x) { return Z3_mk_or(ctx, 2, x); }); break;
        case K::Xor: r = two([&](Z3_ast* x) { return Z3_mk_xor(ctx, x[0], x[1]); }); break;
        case K::Ite: {
            Z3_ast x = toIB(e->a), y = toIB(e->b), z = toIB(e->d);
            if (x && y && z) r = Z3_mk_ite(ctx, x, y, z);
            break;
        }
        case K::Eq: {
            if (e->a->w == 1) {
                r = two([&](Z3_ast* x) { return Z3_mk_iff(ctx, x[0], x[1]); });
                break;
            }
            IV x = toI(e->a), y = toI(e->b);
            if (!x.ok || !y.ok) break;
            i128 M = (i128)1 << e->a->w;
            if (x.lo - y.hi > -M && x.hi - y.lo < M)
                r = Z3_mk_eq(ctx, x.a, y.a);
            else {
                x = uns(e->a);
                y = uns(e->b);
                if (x.ok && y.ok) r = Z3_mk_eq(ctx, x.a, y.a);
            }
            break;
        }
        case K::Ult:
        case K::Ule: {
            IV x = uns(e->a), y = uns(e->b);
            if (x.ok && y.ok) r = e->k == K::Ult ? Z3_mk_lt(ctx, x.a, y.a) : Z3_mk_le(ctx, x.a, y.a);
            break;
        }
        case K::Slt:
        case K::Sle: {
            IV x = sgn(e->a), y = sgn(e->b);
            if (x.ok && y.ok) r = e->k == K::Slt ? Z3_mk_lt(ctx, x.a, y.a) : Z3_mk_le(ctx, x.a, y.a);
            break;
        }
        default: {
            if (e->k == K::Var || e->k == K::Extract || e->k == K::Lin) {
                IV x = e->k == K::Var || e->k == K::Lin ? uns(e) : IV();
                if (x.ok) r = Z3_mk_eq(ctx, x.a, inum(1));
            }
        }
    }
    if (r) Z3_inc_ref(ctx, r);
    intBool[e].a = r;
    return r;
}

struct CacheEnt {
    Res r;
    std::vector<std::pair<uint32_t, uint64_t>> vars;
    std::vector<std::pair<uint64_t, uint8_t>> bytes;
};
static std::map<std::vector<uint32_t>, CacheEnt> cache;

static void overlay(const CacheEnt& c, const ModelP& base, ModelP& out)
{
    auto m = std::make_shared<Model>(*base);
    for (auto& v : c.vars) m->vars[v.first] = v.second;
    for (auto& b : c.bytes) m->bytes[b.first] = b.second;
    out = m;
}

Res checkSat(const std::vector<E>& pc, E cond, const ModelP& base, ModelP& out)
{
    sstats.queries++;
    if (cond == eFalse) return Res::Unsat;
    if (evalE(cond, *base)) {
        sstats.byModel++;
        out = base;
        return Res::Sat;
    }
    // slice: constraints transitively sharing symbols with cond
    std::set<uint32_t> syms(support(cond).begin(), support(cond).end());
    std::vector<E> q{cond};
    std::vector<char> used(pc.size(), 0);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < pc.size(); i++) {
            if (used[i]) continue;
            auto& s = support(pc[i]);
            bool hit = false;
            for (auto x : s)
                if (syms.count(x)) {
                    hit = true;
                    break;
                }
            if (hit) {
                used[i] = 1;
                q.push_back(pc[i]);
                syms.insert(s.begin(), s.end());
                ch = true;
            }
        }
    }
    std::vector<uint32_t> key;
    for (E e : q) key.push_back(e->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = cache.find(key);
    if (it != cache.end()) {
        sstats.byCache++;
        if (it->second.r == Res::Sat) overlay(it->second, base, out);
        return it->second.r;
    }
    init();
    std::unordered_set<E> seen;
    std::vector<E> vars, sels;
    for (E e : q) leaves(e, seen, vars, sels);
    auto t0 = std::chrono::steady_clock::now();
    bool useInt = !getenv("SX_BV");
    for (E e : q)
        if (useInt && !toIB(e)) useInt = false;
    std::vector<E> ack;
    for (size_t i = 0; i < sels.size(); i++)
        for (size_t j = 0; j < i; j++) {
            if (sels[i]->c != sels[j]->c) continue;
            E eq = mkEq(sels[i]->a, sels[j]->a);
            if (eq == eFalse) continue;
            E c = mkOr(mkNot(eq), mkEq(sels[i], sels[j]));
            if (c == eTrue) continue;
            ack.push_back(c);
            if (useInt && !toIB(c)) useInt = false;
        }
    for (E x : sels)
        if (useInt && !uns(x->a).ok) useInt = false;
    if (!useInt && getenv("SX_DBG"))
        for (E e : q)
            if (!toIB(e)) fprintf(stderr, "no int form: %s\n", str(e, 12).c_str());
    Z3_solver S = useInt ? islv : slv;
    Z3_solver_push(ctx, S);
    for (E e : q) Z3_solver_assert(ctx, S, useInt ? toIB(e) : toBool(e));
    for (E e : ack) Z3_solver_assert(ctx, S, useInt ? toIB(e) : toBool(e));
    auto bnd = [&](E v, uint64_t lo, uint64_t hi) {
        if (useInt) {
            Z3_solver_assert(ctx, S, Z3_mk_ge(ctx, toI(v).a, inum(lo)));
            Z3_solver_assert(ctx, S, Z3_mk_le(ctx, toI(v).a, inum(hi)));
            return;
        }
        if (lo > 0) Z3_solver_assert(ctx, S, Z3_mk_bvuge(ctx, toBV(v), num(lo, v->w)));
        if (hi < maskw(v->w)) Z3_solver_assert(ctx, S, Z3_mk_bvule(ctx, toBV(v), num(hi, v->w)));
    };
    for (E v : vars) bnd(v, symbols[v->c].lo, symbols[v->c].hi);
    for (E v : sels) bnd(v, 0, 255);
    Z3_lbool r = Z3_solver_check(ctx, S);
    sstats.z3calls++;
    if (useInt) sstats.intCalls++;
    CacheEnt ce;
    ce.r = r == Z3_L_TRUE ? Res::Sat : r == Z3_L_FALSE ? Res::Unsat : Res::Unknown;
    if (r == Z3_L_TRUE) {
        sstats.sat++;
        Z3_model m = Z3_solver_get_model(ctx, S);
        Z3_model_inc_ref(ctx, m);
        auto get = [&](E e) {
            Z3_ast o = nullptr;
            uint64_t v = 0;
            if (Z3_model_eval(ctx, m, useInt ? uns(e).a : toBV(e), true, &o) && o) {
                Z3_inc_ref(ctx, o);
                if (!Z3_get_numeral_uint64(ctx, o, &v)) ce.r = Res::Unknown;
                Z3_dec_ref(ctx, o);
            } else
                ce.r = Res::Unknown;
            return v;
        };
        Model tmp;
        for (E v : vars) {
            uint64_t x = get(v);
            ce.vars.push_back({(uint32_t)v->c, x});
        }
        for (E s : sels) {
            // the index is evaluated by z3 too, so nested reads are consistent
            Z3_ast o = nullptr;
            uint64_t iv = 0;
            if (Z3_model_eval(ctx, m, useInt ? uns(s->a).a : toBV(s->a), true, &o) && o) {
                Z3_inc_ref(ctx, o);
                Z3_get_numeral_uint64(ctx, o, &iv);
                Z3_dec_ref(ctx, o);
            }
            ce.bytes.push_back({Model::key((uint32_t)s->c, iv), (uint8_t)get(s)});
        }
        Z3_model_dec_ref(ctx, m);
    } else if (r == Z3_L_FALSE)
        sstats.unsat++;
    else
        sstats.unknown++;
    Z3_solver_pop(ctx, S, 1);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    sstats.z3time += dt;
    if (dt > sstats.maxtime) sstats.maxtime = dt;
    if (ce.r == Res::Sat) {
        overlay(ce, base, out);
        // the model must satisfy what was asked (guards the translation to z3)
        for (E e : q)
            if (!evalE(e, *out)) {
                fprintf(stderr, "solver model does not satisfy %s\n", str(e).c_str());
                ce.r = Res::Unknown;
                break;
            }
    }
    if (ce.r != Res::Unknown) cache[key] = ce;
    return ce.r;
}
}  // namespace sx
