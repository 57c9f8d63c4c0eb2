// Operations the executor models directly: the harness interface, allocation, memory intrinsics, exception ABI,
// mutexes, condition variables, futexes, threads, clocks.
#include "exec.h"
#include <cmath>
#include <cstring>
#include <llvm/IR/Instructions.h>
#include <algorithm>
#include <cstdio>

using namespace llvm;
namespace sx {
static const uint64_t MAXALLOC = (1ULL << 20) - 0x8000;

struct Builtins {
    typedef Exec::Handler H;
    static void ret(Exec& X, State& s, const DI& d, const Val& v)
    {
        if (d.dst >= 0) X.setReg(s, d.dst, v);
        X.callDone(s, d);
    }
    static void done(Exec& X, State& s, const DI& d) { X.callDone(s, d); }
    static Val arg(Exec& X, State& s, const DI& d, int i) { return X.operand(s, d, i); }
    static uint64_t carg(Exec& X, State& s, const DI& d, int i) { return X.concretize(s, X.operand(s, d, i), d.w[i]); }
    static void dropRef(Exec& X, State& s, uint64_t o)
    {
        auto it = s.exc.find(o);
        if (it == s.exc.end()) return;
        if (--it->second.refs <= 0) {
            bool known;
            ObjP* p = X.findSlot(s, o, known);
            if (p) p->reset();
            s.exc.erase(it);
        }
    }
    static void alloc(Exec& X, State& s, const DI& d, ObjKind k, bool nothrow)
    {
        Val n = arg(X, s, d, 0);
        bool fits = n.e ? X.decide(s, mkUle(n.e, mkConst(MAXALLOC, 64))) : n.c <= MAXALLOC;
        if (!fits) {
            if (nothrow) {
                ret(X, s, d, Val(0));
                return;
            }
            X.throwStd(s, "_ZTISt9bad_alloc");
            return;
        }
        uint64_t a = X.allocHeap(s, n, k);
        ret(X, s, d, Val(a));
    }
    // a recursive mutex locked again, or unlocked fewer times than locked, by its owner
    static bool again(Exec& X, State& s, uint64_t m, int by)
    {
        auto it = s.mutexOwner.find(m);
        if (it == s.mutexOwner.end() || it->second != s.cur || s.th[s.cur].pend != PNone) return false;
        bool rc = X.cfg.race;
        X.cfg.race = false;
        uint64_t kind = X.concretize(s, X.load(s, Val(m + 16), 32), 32), n = 0;
        bool r = kind == 1;
        if (r) {
            n = X.concretize(s, X.load(s, Val(m + 4), 32), 32);
            r = by > 0 || n > 0;
            if (r) X.store(s, Val(m + 4), Val((uint32_t)(n + by)), 32);
        }
        X.cfg.race = rc;
        return r;
    }
    // condition wait; returns true when the call is complete and the result is in rv
    static bool condWait(Exec& X, State& s, uint64_t c, uint64_t m, bool timed, uint64_t deadline, uint64_t& rv)
    {
        Thread& t = s.th[s.cur];
        if (t.pend == PReacquire && s.granted) {
            s.mutexOwner[m] = s.cur;
            rv = t.timedOut ? 110 : 0;
            t.pend = PNone;
            t.timedOut = false;
            t.timed = false;
            t.deadline = 0;
            return true;
        }
        X.visible(s, PAny);
        auto it = s.mutexOwner.find(m);
        if (it == s.mutexOwner.end() || it->second != s.cur) throw Bug{"mutex", "condition wait without holding the mutex"};
        if (!X.multi(s)) {
            if (!timed) throw Bug{"deadlock", "deadlock: waiting on a condition variable with no other thread running"};
            if (deadline > s.clock) s.clock = deadline;
            rv = 110;
            return true;
        }
        s.mutexOwner.erase(it);
        X.releaseEdge(s);
        s.waiters[c].push_back(s.cur);
        t.pend = PWaiting;
        t.pa = c;
        t.pb = m;
        t.timed = timed;
        t.deadline = deadline;
        t.timedOut = false;
        throw Yield{};
    }
    static void overflowOp(Exec& X, State& s, const DI& d, int op, bool sg)
    {
        unsigned w = d.w[0];
        Val a = arg(X, s, d, 0), b = arg(X, s, d, 1);
        E x = toE(a, w), y = toE(b, w), r, o;
        if (op == 2) {
            r = mkMul(x, y);
            if (w <= 32) {
                E xx = sg ? mkSExt(x, 64) : mkZExt(x, 64), yy = sg ? mkSExt(y, 64) : mkZExt(y, 64);
                E p = mkMul(xx, yy);
                o = mkNot(mkEq(p, sg ? mkSExt(r, 64) : mkZExt(r, 64)));
            } else {
                if (sg) throw Inconclusive{"signed 64-bit multiply overflow"};
                // x*y overflows iff y != 0 and x > max / y
                o = mkAnd(mkNot(mkEq(y, mkConst(0, w))), mkUlt(mkUDiv(mkConst(maskw(w), w), y), x));
            }
        } else if (op == 0) {
            r = mkAdd(x, y);
            if (!sg)
                o = mkUlt(r, x);
            else {
                E z = mkConst(0, w);
                E sx_ = mkSlt(x, z), sy = mkSlt(y, z), sr = mkSlt(r, z);
                o = mkAnd(mkEq(sx_, sy), mkNot(mkEq(sx_, sr)));
            }
        } else {
            r = mkSub(x, y);
            if (!sg)
                o = mkUlt(x, y);
            else {
                E z = mkConst(0, w);
                E sx_ = mkSlt(x, z), sy = mkSlt(y, z), sr = mkSlt(r, z);
                o = mkAnd(mkNot(mkEq(sx_, sy)), mkNot(mkEq(sx_, sr)));
            }
        }
        X.setReg(s, d.dst, VE(r));
        X.setReg(s, d.dst + 1, VE(o));
        X.callDone(s, d);
    }
    static void reg(Exec& X);
};

void Exec::wake(State& s, uint64_t c, bool all)
{
    auto it = s.waiters.find(c);
    if (it == s.waiters.end() || it->second.empty()) return;
    std::vector<int> w = it->second;
    if (!all && w.size() > 1) {
        E sv = mkVar(namedSym("wake" + std::to_string(s.level), 8, 0, 255, 1));
        E any = eFalse;
        for (int t : w) any = mkOr(any, mkEq(sv, mkConst((uint64_t)t, 8)));
        assume(s, any);
        int pick = -1;
        for (size_t i = 0; i + 1 < w.size() && pick < 0; i++)
            if (decide(s, mkEq(sv, mkConst((uint64_t)w[i], 8)))) pick = w[i];
        if (pick < 0) pick = w.back();
        w = {pick};
    }
    auto& l = s.waiters[c];
    for (int t : w) {
        l.erase(std::remove(l.begin(), l.end(), t), l.end());
        s.th[t].pend = PReacquire;
        s.th[t].timedOut = false;
    }
    if (l.empty()) s.waiters.erase(c);
}

int Exec::findHandler(const std::string& n)
{
    auto it = handlerByName.find(n);
    if (it != handlerByName.end()) return it->second;
    // intrinsics: strip type suffixes
    if (n.compare(0, 5, "llvm.") == 0) {
        std::string p = n;
        while (true) {
            size_t k = p.rfind('.');
            if (k == std::string::npos || k < 5) break;
            p = p.substr(0, k);
            it = handlerByName.find(p);
            if (it != handlerByName.end()) return handlerByName[n] = it->second;
        }
        return 0;
    }
    Function* F = M.getFunction(n);
    if (F && F->isDeclaration()) {
        // constructors and destructors of the standard exception classes carry no state the checks depend on
        static const char* ex[] = {"St9exception", "St11logic_error", "St13runtime_error", "St12length_error", "St12out_of_range",
                                   "St16invalid_argument", "St12domain_error", "St11range_error", "St14overflow_error", "St15underflow_error",
                                   "St9bad_alloc", "St12future_error", "St12system_error", "St17bad_function_call", "St19bad_optional_access"};
        for (const char* e : ex) {
            std::string p = std::string("_ZN") + e;
            if (n.compare(0, p.size(), p) == 0) {
                std::string r = n.substr(p.size(), 2);
                if (r == "C1" || r == "C2" || r == "D1" || r == "D2" || r == "aS") return handlerByName[n] = handlerByName["$nop"];
            }
        }
    }
    return 0;
}
void Exec::registerBuiltins()
{
    handlers.push_back(nullptr);
    Builtins::reg(*this);
}
void Builtins::reg(Exec& X0)
{
    auto add = [&](std::initializer_list<const char*> names, H h) {
        X0.handlers.push_back(h);
        for (auto n : names) X0.handlerByName[n] = (int)X0.handlers.size() - 1;
    };
#define HH [](Exec & X, State & s, const DI& d)
    // ---- harness interface
    add({"sym_u64"}, HH {
        std::string nm = X.cstr(s, carg(X, s, d, 0));
        uint64_t lo = carg(X, s, d, 1), hi = carg(X, s, d, 2);
        if (lo > hi) throw Inconclusive{"empty input range"};
        unsigned w = hi < 256 ? 8 : hi < 65536 ? 16 : hi <= 0xFFFFFFFFULL ? 32 : 64;
        uint32_t id = X.inputSym(s, nm, w, lo, hi);
        if (!s.model->vars.count(id)) {
            auto m = std::make_shared<Model>(*s.model);
            m->vars[id] = lo;
            s.model = m;
        }
        ret(X, s, d, lo == hi ? Val(lo) : VE(mkZExt(mkVar(id), 64)));
    });
    add({"sym_pick"}, HH {
        // a choice between alternatives: one path each; the first few choices distribute the work over processes
        std::string nm = X.cstr(s, carg(X, s, d, 0));
        uint64_t n = carg(X, s, d, 1);
        if (n == 0 || n > 250) throw Inconclusive{"choice range"};
        Thread& t = s.th[s.cur];
        uint32_t id = X.namedSym("t" + std::to_string(s.cur) + "#" + std::to_string(t.seq) + ":" + nm, 8, 0, n - 1, 0);
        uint64_t v = 0;
        if (n > 1)
            while (v + 1 < n && !X.decide(s, mkEq(mkVar(id), mkConst(v, 8)))) v++;
        s.inputs.push_back({id, {s.cur, (int)t.seq}});
        t.seq++;
        if (X.cfg.shards > 1 && n > 1 && s.chooseCount < X.cfg.shardDepth) {
            s.chooseHash = (s.chooseHash ^ (v + 1)) * 0x9E3779B97F4A7C15ULL;
            s.chooseHash ^= s.chooseHash >> 29;
            if (++s.chooseCount == X.cfg.shardDepth && s.chooseHash % (uint64_t)X.cfg.shards != (uint64_t)X.cfg.shard) throw PathEnd{"shard"};
        }
        ret(X, s, d, Val(v));
    });
    add({"sym_data"}, HH {
        uint64_t p = carg(X, s, d, 0), n = carg(X, s, d, 1);
        if (n) {
            Val off;
            X.resolve(s, Val(p), Val(n), true, off);
        }
        uint32_t id = X.inputSym(s, "data", 0, 0, n);
        if (n) {
            bool known;
            ObjP* o = X.findSlot(s, p, known);
            Obj* w = X.mutObj(s, (*o)->base);
            if (p == w->base && !w->size.e && w->size.c == n) {
                w->c = Content();
                w->c.flat = std::make_shared<Flat>();
                w->c.arr = id;
                w->c.tag = w->base;
            } else {
                std::vector<Cell> cs(n);
                for (uint64_t i = 0; i < n; i++) cs[i].e = mkSelect(id, mkConst(i, 64));
                X.writeCells(w, Val(p - w->base), cs);
            }
        }
        done(X, s, d);
    });
    add({"sym_assume"}, HH {
        Val v = arg(X, s, d, 0);
        unsigned w = d.w[0];
        X.assume(s, v.e ? mkNot(mkEq(v.e, mkConst(0, w))) : (v.c ? eTrue : eFalse));
        done(X, s, d);
    });
    add({"sym_assert"}, HH {
        if (X.cfg.race) {
            // only races count
            done(X, s, d);
            return;
        }
        Val v = arg(X, s, d, 0);
        unsigned w = d.w[0];
        E c = v.e ? mkNot(mkEq(v.e, mkConst(0, w))) : (v.c ? eTrue : eFalse);
        X.nAsserts++;
        X.check(s, c, "assert", c == eTrue ? std::string() : X.cstr(s, carg(X, s, d, 1)));
        done(X, s, d);
    });
    add({"sym_reach"}, HH {
        X.reached[X.cstr(s, carg(X, s, d, 0))]++;
        done(X, s, d);
    });
    add({"sym_observe"}, HH {
        s.observed.push_back({"t" + std::to_string(s.cur), arg(X, s, d, 0)});
        done(X, s, d);
    });
    add({"sym_param"}, HH {
        std::string nm = X.cstr(s, carg(X, s, d, 0));
        auto it = X.cfg.params.find(nm);
        uint64_t dflt = carg(X, s, d, 1);
        ret(X, s, d, Val(it == X.cfg.params.end() ? dflt : it->second));
    });
    add({"sym_concretize"}, HH { ret(X, s, d, Val(carg(X, s, d, 0))); });
    add({"sym_live_allocs"}, HH { ret(X, s, d, Val((uint64_t)s.liveAllocs)); });
    add({"sym_thread_id"}, HH { ret(X, s, d, Val((uint64_t)s.cur)); });
    add({"sym_discard"}, HH { throw PathEnd{"assume"}; });
    add({"sym_spawn"}, HH {
        X.visible(s, PAny, 0, 7);
        uint64_t f = carg(X, s, d, 0);
        Val a = arg(X, s, d, 1);
        auto it = X.funcByAddr.find(f);
        if (it == X.funcByAddr.end()) throw Inconclusive{"spawn of an unknown function"};
        int id = X.spawn(s, it->second, {a});
        ret(X, s, d, Val((uint64_t)id));
    });
    add({"sym_join"}, HH {
        uint64_t t = carg(X, s, d, 0);
        if (t >= s.th.size()) throw Bug{"threads", "join of an unknown thread"};
        if (!s.granted) {
            if (X.multi(s)) X.visible(s, PJoin, t);
        } else
            s.th[s.cur].pend = PNone;
        if (!s.th[t].done) throw Bug{"deadlock", "join of a thread that cannot end"};
        s.th[t].seg.clear();
        done(X, s, d);
    });
    // ---- allocation
    add({"_Znwm", "_ZnwmSt11align_val_t"}, HH { alloc(X, s, d, ONew, false); });
    add({"_Znam", "_ZnamSt11align_val_t"}, HH { alloc(X, s, d, ONewArr, false); });
    add({"_ZnwmRKSt9nothrow_t", "_ZnwmSt11align_val_tRKSt9nothrow_t"}, HH { alloc(X, s, d, ONew, true); });
    add({"_ZnamRKSt9nothrow_t", "_ZnamSt11align_val_tRKSt9nothrow_t"}, HH { alloc(X, s, d, ONewArr, true); });
    add({"malloc"}, HH { alloc(X, s, d, OMalloc, true); });
    add({"_ZdlPvm", "_ZdlPvmSt11align_val_t"}, HH {
        Val z = arg(X, s, d, 1);
        X.freeHeap(s, arg(X, s, d, 0), ONew, &z);
        done(X, s, d);
    });
    add({"_ZdaPvm", "_ZdaPvmSt11align_val_t"}, HH {
        Val z = arg(X, s, d, 1);
        X.freeHeap(s, arg(X, s, d, 0), ONewArr, &z);
        done(X, s, d);
    });
    add({"_ZdlPv", "_ZdlPvSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}, HH {
        X.freeHeap(s, arg(X, s, d, 0), ONew);
        done(X, s, d);
    });
    add({"_ZdaPv", "_ZdaPvSt11align_val_t", "_ZdaPvRKSt9nothrow_t"}, HH {
        X.freeHeap(s, arg(X, s, d, 0), ONewArr);
        done(X, s, d);
    });
    add({"free"}, HH {
        X.freeHeap(s, arg(X, s, d, 0), OMalloc);
        done(X, s, d);
    });
    // ---- memory
    add({"llvm.memcpy", "llvm.memcpy.inline"}, HH {
        X.memCopy(s, arg(X, s, d, 0), arg(X, s, d, 1), arg(X, s, d, 2), false);
        done(X, s, d);
    });
    add({"llvm.memmove"}, HH {
        X.memCopy(s, arg(X, s, d, 0), arg(X, s, d, 1), arg(X, s, d, 2), true);
        done(X, s, d);
    });
    add({"llvm.memset"}, HH {
        X.memSet(s, arg(X, s, d, 0), arg(X, s, d, 1), arg(X, s, d, 2));
        done(X, s, d);
    });
    add({"memcpy"}, HH {
        Val p = arg(X, s, d, 0);
        X.memCopy(s, p, arg(X, s, d, 1), arg(X, s, d, 2), false);
        ret(X, s, d, p);
    });
    add({"memmove"}, HH {
        Val p = arg(X, s, d, 0);
        X.memCopy(s, p, arg(X, s, d, 1), arg(X, s, d, 2), true);
        ret(X, s, d, p);
    });
    add({"memset"}, HH {
        Val p = arg(X, s, d, 0), v = arg(X, s, d, 1);
        X.memSet(s, p, v.e ? VE(mkExtract(v.e, 0, 8)) : Val(v.c & 255), arg(X, s, d, 2));
        ret(X, s, d, p);
    });
    // ---- intrinsics without effect
    auto nop = HH { done(X, s, d); };
    add({"$nop", "llvm.lifetime.start", "llvm.lifetime.end", "llvm.dbg.value", "llvm.dbg.declare", "llvm.dbg.label", "llvm.dbg.assign",
         "llvm.experimental.noalias.scope.decl", "llvm.invariant.end", "llvm.donothing", "llvm.prefetch", "llvm.stackrestore",
         "llvm.assume", "_ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev",
         "pthread_mutex_destroy", "pthread_mutex_init", "pthread_cond_init", "pthread_cond_destroy", "__cxa_free_exception_nop"},
        nop);
    auto zero = HH { ret(X, s, d, Val(0)); };
    add({"llvm.invariant.start", "llvm.stacksave", "__cxa_atexit", "__cxa_thread_atexit", "llvm.is.constant", "atexit"}, zero);
    add({"pthread_mutex_destroy", "pthread_mutex_init", "pthread_cond_init", "pthread_cond_destroy"}, zero);
    add({"llvm.expect", "llvm.launder.invariant.group", "llvm.strip.invariant.group", "llvm.ssa.copy", "llvm.expect.with.probability"},
        HH { ret(X, s, d, arg(X, s, d, 0)); });
    add({"llvm.objectsize"}, HH { ret(X, s, d, Val(~0ULL & maskw(X.leaves(d.I->getType())[0].w))); });
    add({"llvm.threadlocal.address"}, HH {
        Val a = arg(X, s, d, 0);
        ret(X, s, d, Val(a.c | ((uint64_t)s.cur << 36)));
    });
    add({"llvm.trap", "abort", "_ZSt9terminatev", "__cxa_pure_virtual", "llvm.debugtrap", "exit", "_exit", "__assert_fail"},
        HH { throw Bug{"abort", "the program aborts (terminate/abort/trap)"}; });
    add({"llvm.eh.typeid.for"}, HH { ret(X, s, d, Val(X.typeId(carg(X, s, d, 0)))); });
    // ---- integer intrinsics
    auto mm = [&](const char* n, bool sg, bool mx) {
        add({n}, [sg, mx](Exec& X, State& s, const DI& d) {
            std::vector<Val> r;
            for (int k = 0; k < d.nd; k++) {
                Val a = X.operand(s, d, 0, k), b = X.operand(s, d, 1, k);
                E x = toE(a, d.w[0]), y = toE(b, d.w[0]);
                E lt = sg ? mkSlt(x, y) : mkUlt(x, y);
                r.push_back(VE(mx ? mkIte(lt, y, x) : mkIte(lt, x, y)));
            }
            for (int k = 0; k < d.nd; k++) X.setReg(s, d.dst + k, r[k]);
            X.callDone(s, d);
        });
    };
    mm("llvm.umin", false, false);
    mm("llvm.umax", false, true);
    mm("llvm.smin", true, false);
    mm("llvm.smax", true, true);
    auto fl = [&](const char* n, double (*f)(double)) {
        add({n}, [f](Exec& X, State& s, const DI& d) {
            Val v = arg(X, s, d, 0);
            if (v.e) throw Inconclusive{"symbolic floating point"};
            double x;
            memcpy(&x, &v.c, 8);
            x = f(x);
            uint64_t b;
            memcpy(&b, &x, 8);
            ret(X, s, d, Val(b));
        });
    };
    fl("llvm.ceil.f64", +[](double x) { return std::ceil(x); });
    fl("llvm.floor.f64", +[](double x) { return std::floor(x); });
    fl("llvm.fabs.f64", +[](double x) { return std::fabs(x); });
    add({"llvm.abs"}, HH {
        E x = toE(arg(X, s, d, 0), d.w[0]);
        ret(X, s, d, VE(mkIte(mkSlt(x, mkConst(0, d.w[0])), mkNeg(x), x)));
    });
    add({"llvm.usub.sat"}, HH {
        E x = toE(arg(X, s, d, 0), d.w[0]), y = toE(arg(X, s, d, 1), d.w[0]);
        ret(X, s, d, VE(mkIte(mkUlt(x, y), mkConst(0, d.w[0]), mkSub(x, y))));
    });
    add({"llvm.uadd.sat"}, HH {
        E x = toE(arg(X, s, d, 0), d.w[0]), y = toE(arg(X, s, d, 1), d.w[0]), r = mkAdd(x, y);
        ret(X, s, d, VE(mkIte(mkUlt(r, x), mkConst(maskw(d.w[0]), d.w[0]), r)));
    });
    auto ov = [&](const char* n, int op, bool sg) {
        add({n}, [op, sg](Exec& X, State& s, const DI& d) { overflowOp(X, s, d, op, sg); });
    };
    ov("llvm.uadd.with.overflow", 0, false);
    ov("llvm.sadd.with.overflow", 0, true);
    ov("llvm.usub.with.overflow", 1, false);
    ov("llvm.ssub.with.overflow", 1, true);
    ov("llvm.umul.with.overflow", 2, false);
    ov("llvm.smul.with.overflow", 2, true);
    auto bits = [&](const char* n, int kind) {
        add({n}, [kind](Exec& X, State& s, const DI& d) {
            unsigned w = d.w[0];
            uint64_t v = X.concretize(s, X.operand(s, d, 0), w), r = 0;
            if (kind == 0) {
                while (r < w && !(v >> (w - 1 - r) & 1)) r++;
            } else if (kind == 1) {
                while (r < w && !(v >> r & 1)) r++;
            } else if (kind == 2)
                r = (uint64_t)__builtin_popcountll(v);
            else {
                for (unsigned i = 0; i < w / 8; i++) r |= ((v >> (8 * i)) & 255) << (w - 8 - 8 * i);
            }
            ret(X, s, d, Val(r));
        });
    };
    bits("llvm.ctlz", 0);
    bits("llvm.cttz", 1);
    bits("llvm.ctpop", 2);
    add({"llvm.bswap"}, HH {
        unsigned w = d.w[0];
        E x = toE(arg(X, s, d, 0), w), r = mkExtract(x, 0, 8);
        for (unsigned i = 8; i < w; i += 8) r = mkConcat(r, mkExtract(x, i, 8));
        ret(X, s, d, VE(r));
    });
    auto fsh = [&](const char* n, bool left) {
        add({n}, [left](Exec& X, State& s, const DI& d) {
            unsigned w = d.w[0];
            E a = toE(arg(X, s, d, 0), w), b = toE(arg(X, s, d, 1), w);
            uint64_t k = X.concretize(s, arg(X, s, d, 2), w) % w;
            E r;
            if (left)
                r = k == 0 ? a : mkOr(mkShl(a, mkConst(k, w)), mkLShr(b, mkConst(w - k, w)));
            else
                r = k == 0 ? b : mkOr(mkShl(a, mkConst(w - k, w)), mkLShr(b, mkConst(k, w)));
            ret(X, s, d, VE(r));
        });
    };
    fsh("llvm.fshl", true);
    fsh("llvm.fshr", false);
    add({"llvm.ptrmask"}, HH {
        ret(X, s, d, VE(mkAnd(toE(arg(X, s, d, 0), 64), toE(arg(X, s, d, 1), 64))));
    });
    add({"llvm.vector.reduce.add"}, HH {
        const Type* T = cast<CallBase>(d.I)->getArgOperand(0)->getType();
        unsigned n = (unsigned)X.leaves(T).size();
        E a = toE(X.operand(s, d, 0, 0), d.w[0]);
        for (unsigned i = 1; i < n; i++) a = mkAdd(a, toE(X.operand(s, d, 0, (int)i), d.w[0]));
        ret(X, s, d, VE(a));
    });
    // ---- exceptions
    add({"__cxa_allocate_exception"}, HH {
        uint64_t a = X.allocHeap(s, Val(carg(X, s, d, 0)), OExc);
        s.exc[a] = ExcInfo();
        ret(X, s, d, Val(a));
    });
    add({"__cxa_free_exception"}, HH {
        uint64_t a = carg(X, s, d, 0);
        s.exc[a].refs = 1;
        dropRef(X, s, a);
        done(X, s, d);
    });
    add({"__cxa_throw"}, HH {
        uint64_t a = carg(X, s, d, 0);
        s.exc[a].tinfo = carg(X, s, d, 1);
        s.exc[a].refs = 1;
        X.throwExc(s, a);
    });
    add({"__cxa_init_primary_exception"}, HH {
        uint64_t a = carg(X, s, d, 0);
        s.exc[a].tinfo = carg(X, s, d, 1);
        s.exc[a].refs = 0;
        ret(X, s, d, Val(a));
    });
    add({"__cxa_begin_catch", "__cxa_get_exception_ptr"}, HH {
        uint64_t a = carg(X, s, d, 0);
        if (d.callee && d.callee->name == "__cxa_begin_catch") s.th[s.cur].caught.push_back(a);
        ret(X, s, d, Val(a));
    });
    add({"__cxa_end_catch"}, HH {
        auto& c = s.th[s.cur].caught;
        if (c.empty()) throw Inconclusive{"end_catch without a caught exception"};
        uint64_t a = c.back();
        c.pop_back();
        dropRef(X, s, a);
        done(X, s, d);
    });
    add({"__cxa_rethrow"}, HH {
        auto& c = s.th[s.cur].caught;
        if (c.empty()) throw Bug{"abort", "rethrow without a caught exception"};
        uint64_t a = c.back();
        s.exc[a].refs++;
        X.throwExc(s, a);
    });
    add({"_ZSt17current_exceptionv"}, HH {
        uint64_t p = carg(X, s, d, 0);
        auto& c = s.th[s.cur].caught;
        uint64_t a = c.empty() ? 0 : c.back();
        X.store(s, Val(p), Val(a), 64);
        if (a) s.exc[a].refs++;
        done(X, s, d);
    });
    add({"_ZNSt15__exception_ptr13exception_ptrC1EPv", "_ZNSt15__exception_ptr13exception_ptrC2EPv"}, HH {
        uint64_t a = carg(X, s, d, 1);
        X.store(s, Val(carg(X, s, d, 0)), Val(a), 64);
        if (a) s.exc[a].refs++;
        done(X, s, d);
    });
    add({"_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv"}, HH {
        Val v = X.load(s, arg(X, s, d, 0), 64);
        uint64_t a = X.concretize(s, v, 64);
        if (a) s.exc[a].refs++;
        done(X, s, d);
    });
    add({"_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv"}, HH {
        Val p = arg(X, s, d, 0);
        Val v = X.load(s, p, 64);
        uint64_t a = X.concretize(s, v, 64);
        X.store(s, p, Val(0), 64);
        if (a) dropRef(X, s, a);
        done(X, s, d);
    });
    add({"_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE"}, HH {
        Val v = X.load(s, arg(X, s, d, 0), 64);
        uint64_t a = X.concretize(s, v, 64);
        if (!a) throw Bug{"abort", "rethrow of an empty exception_ptr"};
        s.exc[a].refs++;
        X.throwExc(s, a);
    });
    auto ts = [&](const char* n, const char* ti) {
        add({n}, [ti](Exec& X, State& s, const DI&) { X.throwStd(s, ti); });
    };
    ts("__cxa_throw_bad_array_new_length", "_ZTISt20bad_array_new_length");
    ts("__cxa_bad_cast", "_ZTISt8bad_cast");
    ts("_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc");
    ts("_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length");
    ts("_ZSt20__throw_length_errorPKc", "_ZTISt12length_error");
    ts("_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range");
    ts("_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range");
    ts("_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error");
    ts("_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error");
    ts("_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument");
    ts("_ZSt20__throw_system_errori", "_ZTISt12system_error");
    ts("_ZSt20__throw_future_errori", "_ZTISt12future_error");
    ts("_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call");
    add({"__cxa_guard_acquire"}, HH {
        Val p = arg(X, s, d, 0);
        Val v = X.load(s, p, 8);
        if (v.e) throw Inconclusive{"symbolic guard"};
        if (!v.c) X.store(s, p, Val(1), 8);
        ret(X, s, d, Val(v.c ? 0 : 1));
    });
    add({"__cxa_guard_release"}, nop);
    add({"__cxa_guard_abort"}, HH {
        X.store(s, arg(X, s, d, 0), Val(0), 8);
        done(X, s, d);
    });
    // ---- mutexes, condition variables
    add({"_ZSt18uncaught_exceptionv", "_ZSt19uncaught_exceptionsv"}, HH {
        if (!s.exc.empty()) throw Inconclusive{"uncaught_exception with an exception around"};
        ret(X, s, d, Val(0));
    });
    add({"pthread_mutex_lock"}, HH {
        uint64_t m = carg(X, s, d, 0);
        if (!again(X, s, m, 1)) X.lockOp(s, m);
        ret(X, s, d, Val(0));
    });
    add({"pthread_mutex_trylock"}, HH {
        uint64_t m = carg(X, s, d, 0);
        if (again(X, s, m, 1)) {
            ret(X, s, d, Val(0));
            return;
        }
        X.visible(s, PAny);
        bool free_ = !s.mutexOwner.count(m);
        if (free_) s.mutexOwner[m] = s.cur;
        ret(X, s, d, Val(free_ ? 0 : 16));
    });
    add({"pthread_mutex_unlock"}, HH {
        uint64_t m = carg(X, s, d, 0);
        if (!again(X, s, m, -1)) X.unlockOp(s, m);
        ret(X, s, d, Val(0));
    });
    add({"pthread_cond_wait"}, HH {
        uint64_t rv;
        if (condWait(X, s, carg(X, s, d, 0), carg(X, s, d, 1), false, 0, rv)) ret(X, s, d, Val(0));
    });
    add({"pthread_cond_clockwait", "pthread_cond_timedwait"}, HH {
        bool clk = d.callee && d.callee->name == "pthread_cond_clockwait";
        uint64_t ts_ = carg(X, s, d, clk ? 3 : 2);
        bool rc = X.cfg.race;
        X.cfg.race = false;
        uint64_t sec = X.concretize(s, X.load(s, Val(ts_), 64), 64), ns = X.concretize(s, X.load(s, Val(ts_ + 8), 64), 64);
        X.cfg.race = rc;
        uint64_t rv;
        int64_t isec = (int64_t)sec;
        uint64_t dl = isec < 0 ? 0 : sec > 9000000000ULL ? ~0ULL >> 1 : sec * 1000000000ULL + ns;
        if (condWait(X, s, carg(X, s, d, 0), carg(X, s, d, 1), true, dl, rv)) ret(X, s, d, Val(rv));
    });
    add({"pthread_cond_signal"}, HH {
        X.visible(s, PAny);
        X.wake(s, carg(X, s, d, 0), false);
        X.releaseEdge(s);
        ret(X, s, d, Val(0));
    });
    add({"pthread_cond_broadcast"}, HH {
        X.visible(s, PAny);
        X.wake(s, carg(X, s, d, 0), true);
        X.releaseEdge(s);
        ret(X, s, d, Val(0));
    });
    add({"sym_await"}, HH {
        Thread& t = s.th[s.cur];
        if (s.granted) {
            t.pend = PNone;
            done(X, s, d);
            return;
        }
        uint64_t a = carg(X, s, d, 0), v = carg(X, s, d, 1);
        if (!X.multi(s)) {
            bool rc = X.cfg.race;
            X.cfg.race = false;
            Val cv = X.load(s, Val(a), 32);
            X.cfg.race = rc;
            if (X.concretize(s, cv, 32) == v) throw Bug{"deadlock", "waiting with no other thread running"};
            done(X, s, d);
            return;
        }
        X.visible(s, PFutex, a, v);
    });
    add({"_ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE",
         "_ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE"},
        HH {
            Thread& t = s.th[s.cur];
            if (s.granted) {
                t.pend = PNone;
                ret(X, s, d, Val(1));
                return;
            }
            uint64_t a = carg(X, s, d, 1), v = carg(X, s, d, 2);
            if (carg(X, s, d, 3) & 1) throw Inconclusive{"timed wait on a future"};
            bool rc = X.cfg.race;
            X.cfg.race = false;
            Val cv = X.load(s, Val(a), 32);
            X.cfg.race = rc;
            uint64_t c = X.concretize(s, cv, 32);
            if (c != v) {
                ret(X, s, d, Val(1));
                return;
            }
            if (!X.multi(s)) throw Bug{"deadlock", "deadlock: waiting on a future nobody will complete"};
            X.visible(s, PFutex, a, v);
            ret(X, s, d, Val(1));
        });
    // ---- time and scheduling hints
    add({"_ZNSt6chrono3_V212steady_clock3nowEv", "_ZNSt6chrono3_V212system_clock3nowEv"}, HH { ret(X, s, d, Val(s.clock)); });
    add({"sched_yield"}, HH {
        X.visible(s, PAny);
        ret(X, s, d, Val(0));
    });
    add({"nanosleep", "clock_nanosleep"}, HH {
        X.visible(s, PAny);
        ret(X, s, d, Val(0));
    });
    add({"_ZNSt6thread20hardware_concurrencyEv"}, HH { ret(X, s, d, Val(2)); });
    add({"pthread_self"}, HH { ret(X, s, d, Val((uint64_t)s.cur + 1)); });
#undef HH
}
}  // namespace sx
