#include "exec.h"
#include <llvm/IR/Operator.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/IR/CFG.h>
#include <algorithm>
#include <cstdio>
#include <fstream>
#include <set>
#include <sstream>

using namespace llvm;
namespace sx {
static const uint64_t R_HEAP = 1ULL << 44, R_STACK = 2ULL << 44, R_GLOB = 3ULL << 44, R_FUNC = 4ULL << 44;
static const uint64_t R_MASK = 15ULL << 44;
static const uint64_t SLOT = 1ULL << 20, SLOTBASE = 0x1000, MAXOBJ = SLOT - 0x8000;

std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += (char)c;
        } else if (c < 32 || c > 126) {
            char b[8];
            snprintf(b, 8, "\\u%04x", c);
            o += b;
        } else
            o += (char)c;
    }
    return o + "\"";
}
static Val vadd(const Val& a, const Val& b)
{
    if (!a.e && !b.e) return Val(a.c + b.c);
    return VE(mkAdd(toE(a, 64), toE(b, 64)));
}
static Val vsub(const Val& a, const Val& b)
{
    if (!a.e && !b.e) return Val(a.c - b.c);
    return VE(mkSub(toE(a, 64), toE(b, 64)));
}
static E vule(const Val& a, const Val& b)
{
    if (!a.e && !b.e) return a.c <= b.c ? eTrue : eFalse;
    return mkUle(toE(a, 64), toE(b, 64));
}
static E veq(const Val& a, const Val& b)
{
    if (!a.e && !b.e) return a.c == b.c ? eTrue : eFalse;
    return mkEq(toE(a, 64), toE(b, 64));
}

// ------------------------------------------------------------------ setup
bool quietFunction(const std::string& n)
{
    for (const char* p : {"_Sp_counted_base", "__shared_count", "__exchange_and_add", "__atomic_add", "__shared_ptr", "12__weak_count"})
        if (n.find(p) != std::string::npos) return true;
    return false;
}
Exec::Exec(Module& M_, Config& c) : M(M_), DL(M_.getDataLayout()), cfg(c)
{
    initExpr();
    rng = cfg.seed * 0x9E3779B97F4A7C15ULL + 12345;
    uint64_t n = 1;
    for (auto& F : M) {
        Func* f = new Func;
        f->F = &F;
        f->name = F.getName().str();
        f->addr = R_FUNC + (n++ << 4);
        // reference counting of shared_ptr control blocks commutes: not a scheduling point
        if (quietFunction(f->name))
            f->quietAtomics = true;
        funcs[&F] = f;
        funcByAddr[f->addr] = f;
    }
    registerBuiltins();
}
unsigned Exec::widthOf(const Type* T)
{
    if (T->isPointerTy()) return 64;
    if (T->isIntegerTy()) return T->getIntegerBitWidth();
    if (T->isFloatTy()) return 32;
    if (T->isDoubleTy()) return 64;
    if (T->isHalfTy()) return 16;
    throw Inconclusive{"unsupported type"};
}
const std::vector<Leaf>& Exec::leaves(const Type* T)
{
    auto it = leafMemo.find(T);
    if (it != leafMemo.end()) return it->second;
    std::vector<Leaf> v;
    if (T->isVoidTy()) {
    } else if (auto* S = dyn_cast<StructType>(T)) {
        auto* L = DL.getStructLayout(const_cast<StructType*>(S));
        for (unsigned i = 0; i < S->getNumElements(); i++)
            for (auto l : leaves(S->getElementType(i))) v.push_back({L->getElementOffset(i) + l.off, l.w});
    } else if (auto* A = dyn_cast<ArrayType>(T)) {
        uint64_t es = DL.getTypeAllocSize(A->getElementType());
        for (uint64_t i = 0; i < A->getNumElements(); i++)
            for (auto l : leaves(A->getElementType())) v.push_back({i * es + l.off, l.w});
    } else if (auto* V = dyn_cast<FixedVectorType>(T)) {
        uint64_t es = DL.getTypeStoreSize(V->getElementType());
        for (uint64_t i = 0; i < V->getNumElements(); i++)
            for (auto l : leaves(V->getElementType())) v.push_back({i * es + l.off, l.w});
    } else {
        unsigned w = widthOf(T);
        if (w > 64) throw Inconclusive{"unsupported wide integer i" + std::to_string(w)};
        v.push_back({0, w});
    }
    return leafMemo[T] = v;
}
Func* Exec::getFunc(const Function* F) { return funcs[F]; }
uint32_t Exec::getGlobal(const GlobalVariable* G)
{
    auto it = globalId.find(G);
    if (it != globalId.end()) return it->second;
    uint32_t id = (uint32_t)globalVar.size();
    if (id >= 65000) throw Inconclusive{"too many globals"};
    globalId[G] = id;
    globalVar.push_back(G);
    globalInit.push_back(nullptr);
    auto o = std::make_shared<Obj>();
    uint64_t sz = 64;
    if (G->getValueType()->isSized()) sz = std::max<uint64_t>(1, DL.getTypeAllocSize(G->getValueType()));
    o->base = R_GLOB | ((uint64_t)id << 20) | SLOTBASE;
    o->size = Val(sz);
    o->maxSize = sz;
    o->kind = OGlobal;
    o->ro = G->isConstant();
    o->c.flat = std::make_shared<Flat>();
    o->c.zero = true;
    o->c.tag = o->base;
    if (sz > MAXOBJ) throw Inconclusive{"global too large"};
    o->c.flat->need(sz);
    globalInit[id] = o;
    if (G->hasInitializer()) initBytes(G->getInitializer(), *o->c.flat, 0);
    return id;
}
uint64_t Exec::globalAddr(const GlobalVariable* G)
{
    return R_GLOB | ((uint64_t)getGlobal(G) << 20) | SLOTBASE;
}
uint64_t Exec::constInt(const Constant* C)
{
    std::vector<Val> v;
    constLeaves(C, v);
    if (v.size() != 1) throw Inconclusive{"aggregate constant where a scalar was expected"};
    return v[0].c;
}
void Exec::constLeaves(const Constant* C, std::vector<Val>& out)
{
    if (auto* CI = dyn_cast<ConstantInt>(C)) {
        if (CI->getBitWidth() > 64) throw Inconclusive{"wide constant"};
        out.push_back(Val(CI->getZExtValue()));
    } else if (auto* CF = dyn_cast<ConstantFP>(C)) {
        APInt b = CF->getValueAPF().bitcastToAPInt();
        if (b.getBitWidth() > 64) throw Inconclusive{"wide float"};
        out.push_back(Val(b.getZExtValue()));
    } else if (isa<ConstantPointerNull>(C)) {
        out.push_back(Val(0));
    } else if (isa<UndefValue>(C)) {
        for (size_t i = 0; i < leaves(C->getType()).size(); i++) out.push_back(Val(0));
    } else if (auto* F = dyn_cast<Function>(C)) {
        out.push_back(Val(getFunc(F)->addr));
    } else if (auto* GA = dyn_cast<GlobalAlias>(C)) {
        constLeaves(GA->getAliasee(), out);
    } else if (auto* G = dyn_cast<GlobalVariable>(C)) {
        out.push_back(Val(globalAddr(G)));
    } else if (isa<ConstantAggregateZero>(C)) {
        for (size_t i = 0; i < leaves(C->getType()).size(); i++) out.push_back(Val(0));
    } else if (isa<ConstantStruct>(C) || isa<ConstantArray>(C) || isa<ConstantVector>(C)) {
        for (unsigned i = 0; i < C->getNumOperands(); i++) constLeaves(cast<Constant>(C->getOperand(i)), out);
    } else if (auto* CD = dyn_cast<ConstantDataSequential>(C)) {
        for (unsigned i = 0; i < CD->getNumElements(); i++) constLeaves(CD->getElementAsConstant(i), out);
    } else if (auto* CE = dyn_cast<ConstantExpr>(C)) {
        switch (CE->getOpcode()) {
            case Instruction::BitCast:
            case Instruction::AddrSpaceCast:
            case Instruction::PtrToInt:
            case Instruction::IntToPtr: {
                uint64_t v = constInt(CE->getOperand(0));
                out.push_back(Val(v & maskw(widthOf(CE->getType()))));
                break;
            }
            case Instruction::GetElementPtr: {
                APInt off(64, 0);
                auto* GO = cast<GEPOperator>(CE);
                if (!GO->accumulateConstantOffset(DL, off)) throw Inconclusive{"constant gep"};
                out.push_back(Val(constInt(CE->getOperand(0)) + off.getZExtValue()));
                break;
            }
            case Instruction::Add: out.push_back(Val(constInt(CE->getOperand(0)) + constInt(CE->getOperand(1)))); break;
            case Instruction::Sub: out.push_back(Val((constInt(CE->getOperand(0)) - constInt(CE->getOperand(1))) & maskw(widthOf(CE->getType())))); break;
            case Instruction::Trunc: out.push_back(Val(constInt(CE->getOperand(0)) & maskw(widthOf(CE->getType())))); break;
            default: throw Inconclusive{std::string("unsupported constant expression ") + CE->getOpcodeName()};
        }
    } else
        throw Inconclusive{"unsupported constant"};
}
void Exec::initBytes(const Constant* C, Flat& f, uint64_t off)
{
    if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
    if (auto* CD = dyn_cast<ConstantDataSequential>(C)) {
        StringRef r = CD->getRawDataValues();
        for (size_t i = 0; i < r.size(); i++) {
            f.v[off + i] = (uint8_t)r[i];
            f.k[off + i] = 1;
        }
        return;
    }
    auto* T = C->getType();
    if (auto* S = dyn_cast<StructType>(T)) {
        auto* L = DL.getStructLayout(S);
        for (unsigned i = 0; i < C->getNumOperands(); i++)
            initBytes(cast<Constant>(C->getOperand(i)), f, off + L->getElementOffset(i));
        return;
    }
    if (T->isArrayTy() || T->isVectorTy()) {
        uint64_t es = DL.getTypeAllocSize(T->isArrayTy() ? T->getArrayElementType() : cast<VectorType>(T)->getElementType());
        for (unsigned i = 0; i < C->getNumOperands(); i++) initBytes(cast<Constant>(C->getOperand(i)), f, off + i * es);
        return;
    }
    uint64_t v = constInt(C);
    unsigned n = (widthOf(T) + 7) / 8;
    for (unsigned i = 0; i < n; i++) {
        f.v[off + i] = (uint8_t)(v >> (8 * i));
        f.k[off + i] = 1;
    }
}

void Exec::decode(Func* f)
{
    if (f->decoded) return;
    f->decoded = true;
    const Function& F = *f->F;
    std::unordered_map<const Value*, int> slot;
    std::unordered_map<const Value*, int> cpool;
    std::unordered_map<const BasicBlock*, int> bid;
    int n = 0;
    for (auto& A : F.args()) {
        slot[&A] = n;
        f->argSlot.push_back(n);
        n += (int)leaves(A.getType()).size();
    }
    int b = 0;
    for (auto& BB : F) {
        bid[&BB] = b++;
        for (auto& I : BB)
            if (!I.getType()->isVoidTy() && !I.getType()->isTokenTy() && !I.getType()->isMetadataTy()) {
                slot[&I] = n;
                n += (int)leaves(I.getType()).size();
            }
    }
    f->nslots = n;
    auto ref = [&](const Value* V) -> int {
        if (auto* C = dyn_cast<Constant>(V)) {
            auto it = cpool.find(V);
            if (it != cpool.end()) return ~it->second;
            int at = (int)f->consts.size();
            constLeaves(C, f->consts);
            cpool[V] = at;
            return ~at;
        }
        auto it = slot.find(V);
        if (it == slot.end()) return ~0x3fffffff;  // metadata, labels, inline asm
        return it->second;
    };
    f->phis.resize(b);
    for (auto& BB : F) {
        f->blockStart.push_back((int)f->code.size());
        int bi = bid[&BB];
        for (auto& I : BB) {
            if (auto* P = dyn_cast<PHINode>(&I)) {
                int nl = (int)leaves(P->getType()).size();
                std::vector<std::pair<int, int>> in;
                for (unsigned i = 0; i < P->getNumIncomingValues(); i++)
                    in.push_back({bid[P->getIncomingBlock(i)], ref(P->getIncomingValue(i))});
                for (int l = 0; l < nl; l++) {
                    auto inl = in;
                    for (auto& x : inl) x.second = x.second >= 0 ? x.second + l : ~(~x.second + l);
                    f->phis[bi].push_back({slot[P] + l, inl});
                }
                continue;
            }
            DI d;
            d.I = &I;
            d.op = I.getOpcode();
            if (!I.getType()->isVoidTy() && slot.count(&I)) {
                d.dst = slot[&I];
                d.nd = (int)leaves(I.getType()).size();
            }
            if (auto* CB = dyn_cast<CallBase>(&I)) {
                if (isa<DbgInfoIntrinsic>(CB)) continue;
                for (auto& A : CB->args()) {
                    if (A->getType()->isMetadataTy()) {
                        d.ops.push_back(~0x3fffffff);
                        d.w.push_back(0);
                        continue;
                    }
                    d.ops.push_back(ref(A.get()));
                    auto& lv = leaves(A->getType());
                    d.w.push_back(lv.empty() ? 0 : lv[0].w);
                }
                const Value* cv = CB->getCalledOperand()->stripPointerCasts();
                if (auto* GA = dyn_cast<GlobalAlias>(cv)) cv = GA->getAliasee()->stripPointerCasts();
                if (auto* CF = dyn_cast<Function>(cv)) {
                    d.callee = getFunc(CF);
                    std::string nm = CF->getName().str();
                    d.intr = findHandler(nm);
                } else {
                    d.ops.push_back(CB->isInlineAsm() ? ~0x3fffffff : ref(CB->getCalledOperand()));  // last operand: target
                    d.w.push_back(64);
                }
                if (auto* II = dyn_cast<InvokeInst>(&I)) {
                    d.t0 = bid[II->getNormalDest()];
                    d.t1 = bid[II->getUnwindDest()];
                }
            } else if (auto* G = dyn_cast<GetElementPtrInst>(&I)) {
                d.ops.push_back(ref(G->getPointerOperand()));
                d.w.push_back(64);
                for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
                    const Value* ix = it.getOperand();
                    if (StructType* ST = it.getStructTypeOrNull()) {
                        d.gconst += (int64_t)DL.getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
                        continue;
                    }
                    uint64_t es = DL.getTypeAllocSize(it.getIndexedType());
                    if (auto* CI = dyn_cast<ConstantInt>(ix)) {
                        d.gconst += CI->getSExtValue() * (int64_t)es;
                        continue;
                    }
                    d.gidx.push_back({ref(ix), {widthOf(ix->getType()), es}});
                }
            } else if (auto* Br = dyn_cast<BranchInst>(&I)) {
                if (Br->isConditional()) {
                    d.ops.push_back(ref(Br->getCondition()));
                    d.w.push_back(1);
                    d.t0 = bid[Br->getSuccessor(0)];
                    d.t1 = bid[Br->getSuccessor(1)];
                } else
                    d.t0 = bid[Br->getSuccessor(0)];
            } else if (auto* Sw = dyn_cast<SwitchInst>(&I)) {
                d.ops.push_back(ref(Sw->getCondition()));
                d.w.push_back(widthOf(Sw->getCondition()->getType()));
                d.t0 = bid[Sw->getDefaultDest()];
                for (auto c : Sw->cases()) {
                    d.gidx.push_back({bid[c.getCaseSuccessor()], {0, c.getCaseValue()->getZExtValue()}});
                }
            } else if (isa<LandingPadInst>(&I)) {
            } else {
                for (auto& O : I.operands()) {
                    if (isa<BasicBlock>(O.get())) continue;
                    d.ops.push_back(ref(O.get()));
                    auto& lv = leaves(O->getType());
                    d.w.push_back(lv.empty() ? 0 : lv[0].w);
                }
            }
            f->code.push_back(std::move(d));
        }
    }
}
// backward liveness of registers, used only to canonicalise states before merging
void Exec::liveness(Func* f)
{
    if (f->liveDone) return;
    f->liveDone = true;
    size_t W = (f->nslots + 63) / 64;
    size_t NB = f->blockStart.size();
    std::vector<std::vector<uint64_t>> in(NB, std::vector<uint64_t>(W, 0));
    f->liveIn.assign(f->code.size(), {});
    std::vector<const BasicBlock*> bbs;
    for (auto& BB : *f->F) bbs.push_back(&BB);
    std::unordered_map<const BasicBlock*, int> bid;
    for (size_t i = 0; i < NB; i++) bid[bbs[i]] = (int)i;
    auto setb = [](std::vector<uint64_t>& v, int i) { v[i / 64] |= 1ULL << (i % 64); };
    auto clr = [](std::vector<uint64_t>& v, int i) { v[i / 64] &= ~(1ULL << (i % 64)); };
    bool ch = true;
    while (ch) {
        ch = false;
        for (int b = (int)NB - 1; b >= 0; b--) {
            std::vector<uint64_t> cur(W, 0);
            for (auto* S : successors(bbs[b])) {
                int sb = bid[S];
                for (size_t i = 0; i < W; i++) cur[i] |= in[sb][i];
                for (auto& p : f->phis[sb]) clr(cur, p.first);
            }
            for (auto* S : successors(bbs[b])) {
                int sb = bid[S];
                for (auto& p : f->phis[sb])
                    for (auto& x : p.second)
                        if (x.first == b && x.second >= 0) setb(cur, x.second);
            }
            int end = b + 1 < (int)NB ? f->blockStart[b + 1] : (int)f->code.size();
            for (int i = end - 1; i >= f->blockStart[b]; i--) {
                DI& d = f->code[i];
                for (int k = 0; k < d.nd; k++) clr(cur, d.dst + k);
                auto use = [&](int r, const Type* T) {
                    if (r < 0) return;
                    int nl = (int)leaves(T).size();
                    for (int k = 0; k < nl; k++) setb(cur, r + k);
                };
                if (d.op == Instruction::GetElementPtr) {
                    if (d.ops[0] >= 0) setb(cur, d.ops[0]);
                    for (auto& g : d.gidx)
                        if (g.first >= 0) setb(cur, g.first);
                } else if (d.op == Instruction::Br || d.op == Instruction::Switch) {
                    if (!d.ops.empty() && d.ops[0] >= 0) setb(cur, d.ops[0]);
                } else if (auto* CB = dyn_cast<CallBase>(d.I)) {
                    for (size_t k = 0; k < d.ops.size(); k++)
                        if (d.ops[k] >= 0) use(d.ops[k], k < CB->arg_size() ? CB->getArgOperand(k)->getType() : CB->getCalledOperand()->getType());
                } else {
                    int k = 0;
                    for (auto& O : d.I->operands()) {
                        if (isa<BasicBlock>(O.get())) continue;
                        if (k < (int)d.ops.size()) use(d.ops[k], O->getType());
                        k++;
                    }
                }
                f->liveIn[i] = cur;
            }
            // phi destinations are live-in only through their uses; keep them in `in`
            if (cur != in[b]) {
                in[b] = cur;
                ch = true;
            }
        }
    }
}

// ------------------------------------------------------------------ deciding
bool Exec::timeUp()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > cfg.timeLimit;
}
bool Exec::decide(State& s, E cond)
{
    if (isC(cond)) return cond->c != 0;
    bool b = evalE(cond, *s.model) != 0;
    E holds = b ? cond : mkNot(cond), other = b ? mkNot(cond) : cond;
    for (size_t i = s.pc.size(); i-- > 0;)
        if (s.pc[i] == holds) return b;
    ModelP m;
    Res r = checkSat(s.pc, other, s.model, m);
    if (r == Res::Unsat) return b;
    if (r == Res::Unknown) throw Inconclusive{"solver gave no answer"};
    throw Fork{holds, m};
}
void Exec::assume(State& s, E cond)
{
    if (isC(cond)) {
        if (!cond->c) throw PathEnd{"assume"};
        return;
    }
    ModelP m;
    Res r = checkSat(s.pc, cond, s.model, m);
    if (r == Res::Unsat) throw PathEnd{"assume"};
    if (r == Res::Unknown) throw Inconclusive{"solver gave no answer"};
    s.model = m;
    std::vector<E> st{cond};
    while (!st.empty()) {
        E e = st.back();
        st.pop_back();
        if (e->k == K::And) {
            st.push_back(e->a);
            st.push_back(e->b);
        } else if (e != eTrue)
            s.pc.push_back(e);
    }
}
uint64_t Exec::concretize(State& s, const Val& v, unsigned w)
{
    if (!v.e) return v.c;
    uint64_t x = evalE(v.e, *s.model);
    if (!decide(s, mkEq(v.e, mkConst(x, w)))) throw Inconclusive{"concretisation"};
    return x;
}
void Exec::check(State& s, E cond, const char* kind, const std::string& msg)
{
    if (cond == eTrue) return;
    if (!evalE(cond, *s.model)) throw Bug{kind, msg};
    ModelP m;
    Res r = checkSat(s.pc, mkNot(cond), s.model, m);
    if (r == Res::Unsat) return;
    if (r == Res::Unknown) throw Inconclusive{"solver gave no answer"};
    s.model = m;
    throw Bug{kind, msg};
}

// ------------------------------------------------------------------ memory
ObjP* Exec::findSlot(State& s, uint64_t addr, bool& known)
{
    known = false;
    uint64_t reg = addr >> 44, t = (addr >> 36) & 0xFF, n = (addr >> 20) & 0xFFFF;
    if (reg == 1) {
        if (t < s.heap.size() && n < s.heap[t].size()) {
            known = true;
            return s.heap[t][n] ? &s.heap[t][n] : nullptr;
        }
    } else if (reg == 2) {
        if (t < s.stack.size() && n < s.stack[t].size()) {
            known = true;
            return s.stack[t][n] ? &s.stack[t][n] : nullptr;
        }
    } else if (reg == 3) {
        uint32_t key = (uint32_t)(n | (t << 16));
        if (n >= globalInit.size()) return nullptr;
        known = true;
        auto it = s.globals.find(key);
        if (it != s.globals.end()) return &it->second;
        if (t) {  // per-thread copy of a thread_local
            auto o = std::make_shared<Obj>(*globalInit[n]);
            o->base |= t << 36;
            return &(s.globals[key] = o);
        }
        return &globalInit[n];
    }
    return nullptr;
}
static std::string describe(uint64_t a)
{
    char b[64];
    snprintf(b, 64, "0x%llx", (unsigned long long)a);
    return b;
}
bool libraryGlobal(const std::string& n);
void Exec::touch(State& s, const Val& addr, const Val& n, bool write)
{
    if (!cfg.race || s.th.size() < 2) return;
    uint64_t a = addr.e ? evalE(addr.e, *s.model) : addr.c;
    uint64_t l = n.e ? evalE(n.e, *s.model) : n.c;
    if ((a & R_MASK) == R_GLOB) {
        // variables of the harness are not the library's
        uint32_t id = (uint32_t)((a & ~R_MASK) >> 20);
        if (id >= globalVar.size() || !libraryGlobal(globalVar[id]->getName().str())) return;
    }
    Access x{a, (uint32_t)l, write, s.th[s.cur].st.back().f->code[s.th[s.cur].st.back().pc].I};
    raceCheck(s, x);
    auto& seg = s.th[s.cur].seg;
    auto it = std::lower_bound(seg.begin(), seg.end(), x);
    if (it == seg.end() || !(*it == x)) seg.insert(it, x);
}
Obj* Exec::resolve(State& s, const Val& addr, const Val& n, bool write, Val& off)
{
    nMemChecks++;
    uint64_t a = addr.e ? evalE(addr.e, *s.model) : addr.c;
    bool known;
    ObjP* p = findSlot(s, a, known);
    if (!p) {
        if (addr.e && a >= 4096 && known == false && false) {}
        std::string k = a < 65536 ? "null pointer access" : known ? "use after free" : "wild pointer access";
        throw Bug{"memory", k + (write ? " (write) at " : " (read) at ") + describe(a)};
    }
    Obj* o = p->get();
    off = vsub(addr, Val(o->base));
    E in;
    if (!off.e && !n.e && !o->size.e)
        in = (n.c <= o->size.c && off.c <= o->size.c - n.c) ? eTrue : eFalse;
    else
        in = mkAnd(vule(n, o->size), vule(off, vsub(o->size, n)));
    if (in != eTrue) {
        bool ok = evalE(in, *s.model) != 0;
        auto msg = [&]() {
            uint64_t nn = n.e ? evalE(n.e, *s.model) : n.c, sz = o->size.e ? evalE(o->size.e, *s.model) : o->size.c;
            return std::string("out-of-bounds ") + (write ? "write" : "read") + " of " + std::to_string(nn) + " bytes at offset " +
                   std::to_string((int64_t)(a - o->base)) + " of a " + std::to_string(sz) + "-byte " +
                   (o->kind == OStack ? "stack object" : o->kind == OGlobal ? "global" : "heap block");
        };
        if (!ok) throw Bug{"memory", msg()};
        if (!addr.e) {
            // single object: any violation is a bug
            ModelP m;
            Res r = checkSat(s.pc, mkNot(in), s.model, m);
            if (r == Res::Unknown) throw Inconclusive{"solver gave no answer"};
            if (r == Res::Sat) {
                s.model = m;
                throw Bug{"memory", msg()};
            }
        } else if (!decide(s, in))
            throw Bug{"memory", msg()};
    }
    if (write && o->ro) throw Bug{"memory", "write to read-only object"};
    touch(s, addr, n, write);
    return o;
}
static void unshare(ObjP& p)
{
    if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
    if (p->c.flat.use_count() > 1) p->c.flat = std::make_shared<Flat>(*p->c.flat);
    p->hashed = false;
}
Obj* Exec::mutObj(State& s, uint64_t base)
{
    bool known;
    ObjP* p = findSlot(s, base, known);
    uint64_t reg = base >> 44, t = (base >> 36) & 0xFF, n = (base >> 20) & 0xFFFF;
    if (reg == 3) {
        uint32_t key = (uint32_t)(n | (t << 16));
        auto it = s.globals.find(key);
        if (it == s.globals.end()) {
            ObjP c = *p;
            it = s.globals.emplace(key, c).first;
        }
        unshare(it->second);
        return it->second.get();
    }
    unshare(*p);
    return p->get();
}
ObjP Exec::newObj(State&, uint64_t base, Val size, uint64_t maxSize, ObjKind k)
{
    auto o = std::make_shared<Obj>();
    o->base = base;
    o->size = size;
    o->maxSize = maxSize;
    o->kind = k;
    o->c.flat = std::make_shared<Flat>();
    o->c.tag = base;
    if (!size.e) o->c.flat->need(size.c);
    return o;
}
uint64_t Exec::allocHeap(State& s, Val size, ObjKind k, uint64_t)
{
    auto& h = s.heap[s.cur];
    if (h.size() >= 65000) throw Inconclusive{"too many allocations on one path"};
    uint64_t mx = size.e ? std::min<uint64_t>(size.e->umax, MAXOBJ) : size.c;
    uint64_t base = R_HEAP | ((uint64_t)s.cur << 36) | ((uint64_t)h.size() << 20) | SLOTBASE;
    h.push_back(newObj(s, base, size, mx, k));
    if (k == ONew || k == ONewArr || k == OMalloc) s.liveAllocs++;
    return base;
}
uint64_t Exec::allocStack(State& s, Val size, uint64_t maxSize)
{
    auto& h = s.stack[s.cur];
    if (h.size() >= 65000) throw Inconclusive{"stack too deep"};
    uint64_t base = R_STACK | ((uint64_t)s.cur << 36) | ((uint64_t)h.size() << 20) | SLOTBASE;
    h.push_back(newObj(s, base, size, maxSize, OStack));
    return base;
}
void Exec::freeHeap(State& s, const Val& p, ObjKind k, const Val* size)
{
    if (!p.e && p.c == 0) return;
    if (p.e && decide(s, mkEq(p.e, mkConst(0, 64)))) return;
    uint64_t a = concretize(s, p, 64);
    bool known;
    ObjP* o = findSlot(s, a, known);
    if (!o) throw Bug{"memory", known ? "double free" : "free of a wild pointer"};
    if ((*o)->base != a || (a >> 44) != 1) throw Bug{"memory", "free of a pointer that was not allocated"};
    if ((*o)->kind != k) throw Bug{"memory", "mismatched allocation and release functions"};
    if (size) {
        const Val& z = (*o)->size;
        bool same = !z.e && !size->e ? z.c == size->c : decide(s, mkEq(z.e ? z.e : mkConst(z.c, 64), size->e ? size->e : mkConst(size->c, 64)));
        if (!same) throw Bug{"memory", "storage released with another size than it was allocated with"};
        o = findSlot(s, a, known);
    }
    touch(s, p, (*o)->size, true);
    o->reset();
    s.liveAllocs--;
}
uint32_t Exec::undefArray(uint64_t tag)
{
    auto it = undefArr.find(tag);
    if (it != undefArr.end()) return it->second;
    uint32_t id = newSymbol("uninit@" + describe(tag), 0, 0, 0, 2);
    undefArr[tag] = id;
    return id;
}
void Exec::readFrom(State& s, const Content& c, const Flat* fl, const Node* nx, const Val& off, unsigned n, std::vector<Cell>& out)
{
    if (!off.e) {
        unsigned i = 0;
        while (i < n) {
            if (fl && fl->has(off.c + i)) {
                out.push_back(fl->get(off.c + i));
                i++;
                continue;
            }
            unsigned j = i;
            while (j < n && !(fl && fl->has(off.c + j))) j++;
            readNode(s, c, nx, Val(off.c + i), j - i, out);
            i = j;
        }
        return;
    }
    if (fl) {
        size_t lo = 0, hi = fl->k.size();
        while (lo < hi && !fl->k[lo]) lo++;
        while (hi > lo && !fl->k[hi - 1]) hi--;
        if (lo < hi) {
            E o = off.e;
            E D = mkOr(mkUle(mkAdd(o, mkConst(n, 64)), mkConst(lo, 64)), mkUle(mkConst(hi, 64), o));
            if (!decide(s, D)) {
                uint64_t v = concretize(s, off, 64);
                readFrom(s, c, fl, nx, Val(v), n, out);
                return;
            }
        }
    }
    readNode(s, c, nx, off, n, out);
}
void Exec::readNode(State& s, const Content& c, const Node* nd, const Val& off, unsigned n, std::vector<Cell>& out)
{
    if (!nd) {
        for (unsigned i = 0; i < n; i++) {
            Cell x;
            if (!c.zero) {
                uint32_t arr = c.arr != 0xFFFFFFFF ? c.arr : undefArray(c.tag);
                x.e = mkSelect(arr, toE(vadd(off, Val(i)), 64));
            }
            out.push_back(x);
        }
        return;
    }
    auto older = [&](const Val& o, unsigned k) { readFrom(s, c, nd->flat.get(), nd->next.get(), o, k, out); };
    Val rel = vsub(off, nd->off);
    if (nd->kind == Node::W) {
        uint64_t m = nd->cells.size();
        if (rel.e) {
            E D = mkOr(vule(vadd(off, Val(n)), nd->off), vule(vadd(nd->off, Val(m)), off));
            if (decide(s, D)) {
                older(off, n);
                return;
            }
            rel = Val(concretize(s, rel, 64));
        }
        for (unsigned i = 0; i < n; i++) {
            uint64_t p = rel.c + i;
            if (p < m)
                out.push_back(nd->cells[p]);
            else
                older(vadd(off, Val(i)), 1);
        }
        return;
    }
    E D = mkOr(vule(vadd(off, Val(n)), nd->off), vule(vadd(nd->off, nd->len), off));
    if (decide(s, D)) {
        older(off, n);
        return;
    }
    E In = mkAnd(vule(Val(n), nd->len), vule(rel, vsub(nd->len, Val(n))));
    if (decide(s, In)) {
        if (nd->kind == Node::S) {
            for (unsigned i = 0; i < n; i++) out.push_back(nd->fill);
        } else
            readFrom(s, nd->src, nd->src.flat.get(), nd->src.older.get(), vadd(nd->soff, rel), n, out);
        return;
    }
    if (n == 1) throw Inconclusive{"inconsistent range"};
    for (unsigned i = 0; i < n; i++) readNode(s, c, nd, vadd(off, Val(i)), 1, out);
}
void Exec::readCells(State& s, const Content& c, const Val& off, unsigned n, std::vector<Cell>& out)
{
    readFrom(s, c, c.flat.get(), c.older.get(), off, n, out);
}
void Exec::writeCells(Obj* o, const Val& off, const std::vector<Cell>& cells)
{
    if (!off.e) {
        o->c.flat->need(off.c + cells.size());
        for (size_t i = 0; i < cells.size(); i++) o->c.flat->set(off.c + i, cells[i]);
        return;
    }
    auto nd = std::make_shared<Node>();
    nd->kind = Node::W;
    nd->off = off;
    nd->len = Val(cells.size());
    nd->cells = cells;
    nd->flat = o->c.flat->any() ? o->c.flat : nullptr;
    nd->next = o->c.older;
    o->c.older = nd;
    o->c.flat = std::make_shared<Flat>();
}
Val Exec::load(State& s, const Val& addr, unsigned w)
{
    unsigned n = (w + 7) / 8;
    Val off;
    Obj* o = resolve(s, addr, Val(n), false, off);
    if (!off.e) {
        // fast path: all concrete
        Flat& f = *o->c.flat;
        bool all = true;
        uint64_t v = 0;
        for (unsigned i = 0; i < n; i++) {
            uint64_t p = off.c + i;
            if (p >= f.k.size() || f.k[p] != 1) {
                all = false;
                break;
            }
            v |= (uint64_t)f.v[p] << (8 * i);
        }
        if (all) return Val(v & maskw(w));
    }
    std::vector<Cell> cs;
    readCells(s, o->c, off, n, cs);
    E acc = nullptr;
    if (cs[0].e && cs[0].e->w == 8 * n && cs[0].idx == 0) {
        bool same = true;
        for (unsigned i = 0; i < n; i++)
            if (cs[i].e != cs[0].e || cs[i].idx != i) same = false;
        if (same) acc = cs[0].e;
    }
    if (!acc) {
        acc = cellE(cs[n - 1]);
        for (int i = (int)n - 2; i >= 0; i--) acc = mkConcat(acc, cellE(cs[i]));
    }
    if (acc->w != w) acc = mkExtract(acc, 0, w);
    return VE(acc);
}
static void toCells(const Val& v, unsigned w, std::vector<Cell>& cs)
{
    unsigned n = (w + 7) / 8;
    if (!v.e) {
        for (unsigned i = 0; i < n; i++) {
            Cell c;
            c.v = (uint8_t)(v.c >> (8 * i));
            cs.push_back(c);
        }
        return;
    }
    E e = v.e->w == 8 * n ? v.e : mkZExt(v.e, 8 * n);
    if (isC(e)) {
        toCells(Val(e->c), 8 * n, cs);
        return;
    }
    for (unsigned i = 0; i < n; i++) {
        E b = mkExtract(e, 8 * i, 8);
        Cell c;
        if (isC(b))
            c.v = (uint8_t)b->c;
        else {
            c.e = e;
            c.idx = (uint8_t)i;
        }
        cs.push_back(c);
    }
    // keep the whole-value form when every byte is symbolic or mixed: loads re-assemble either way
}
void Exec::store(State& s, const Val& addr, const Val& v, unsigned w)
{
    unsigned n = (w + 7) / 8;
    Val off;
    Obj* o = resolve(s, addr, Val(n), true, off);
    o = mutObj(s, o->base);
    if (!off.e && !v.e) {
        Flat& f = *o->c.flat;
        f.need(off.c + n);
        for (unsigned i = 0; i < n; i++) {
            f.k[off.c + i] = 1;
            f.v[off.c + i] = (uint8_t)(v.c >> (8 * i));
        }
        return;
    }
    std::vector<Cell> cs;
    toCells(v, w, cs);
    writeCells(o, off, cs);
}
void Exec::memCopy(State& s, const Val& d, const Val& src, const Val& n, bool move)
{
    if (!n.e && n.c == 0) return;
    if (n.e && decide(s, mkEq(n.e, mkConst(0, 64)))) return;
    Val so, dof;
    Obj* sob = resolve(s, src, n, false, so);
    Obj* dob = resolve(s, d, n, true, dof);
    if (sob == dob) {
        E same = veq(so, dof);
        if (same == eTrue) return;
        if (!move) {
            E D = mkOr(mkOr(vule(vadd(so, n), dof), vule(vadd(dof, n), so)), same);
            check(s, D, "memory", "memcpy between overlapping ranges");
        }
    }
    if (!n.e && !so.e && !dof.e) {
        std::vector<Cell> cs;
        std::vector<char> un;
        Content sc = sob->c;
        bool canUnset = !sc.older && !sc.zero && sc.arr == 0xFFFFFFFF && !dob->c.older && !dob->c.zero && dob->c.arr == 0xFFFFFFFF;
        if (canUnset) {
            Obj* w = mutObj(s, dob->base);
            Flat& f = *w->c.flat;
            f.need(dof.c + n.c);
            // copy through a temporary (ranges may overlap for memmove)
            std::vector<std::pair<bool, Cell>> tmp(n.c);
            for (uint64_t i = 0; i < n.c; i++)
                if (sc.flat->has(so.c + i)) tmp[i] = {true, sc.flat->get(so.c + i)};
            for (uint64_t i = 0; i < n.c; i++) {
                if (tmp[i].first)
                    f.set(dof.c + i, tmp[i].second);
                else
                    f.k[dof.c + i] = 0;
            }
            return;
        }
        readCells(s, sc, so, (unsigned)n.c, cs);
        Obj* w = mutObj(s, dob->base);
        writeCells(w, dof, cs);
        return;
    }
    Content snap = sob->c;
    Obj* w = mutObj(s, dob->base);
    auto nd = std::make_shared<Node>();
    nd->kind = Node::C;
    nd->off = dof;
    nd->len = n;
    nd->src = snap;
    nd->soff = so;
    nd->flat = w->c.flat->any() ? w->c.flat : nullptr;
    nd->next = w->c.older;
    w->c.older = nd;
    w->c.flat = std::make_shared<Flat>();
}
void Exec::memSet(State& s, const Val& d, const Val& b, const Val& n)
{
    if (!n.e && n.c == 0) return;
    if (n.e && decide(s, mkEq(n.e, mkConst(0, 64)))) return;
    Val off;
    Obj* o = resolve(s, d, n, true, off);
    o = mutObj(s, o->base);
    Cell c;
    if (b.e)
        c.e = b.e;
    else
        c.v = (uint8_t)b.c;
    if (!n.e && !off.e) {
        o->c.flat->need(off.c + n.c);
        for (uint64_t i = 0; i < n.c; i++) o->c.flat->set(off.c + i, c);
        return;
    }
    auto nd = std::make_shared<Node>();
    nd->kind = Node::S;
    nd->off = off;
    nd->len = n;
    nd->fill = c;
    nd->flat = o->c.flat->any() ? o->c.flat : nullptr;
    nd->next = o->c.older;
    o->c.older = nd;
    o->c.flat = std::make_shared<Flat>();
}
std::string Exec::cstr(State& s, uint64_t a)
{
    std::string r;
    for (int i = 0; i < 300; i++) {
        Val v = load(s, Val(a + i), 8);
        if (v.e || !v.c) break;
        r += (char)v.c;
    }
    return r;
}

// ------------------------------------------------------------------ instructions
std::string Exec::where(State& s)
{
    std::string r;
    auto& st = s.th[s.cur].st;
    int n = 0;
    for (size_t i = st.size(); i-- > 0 && n < 12; n++) {
        Frame& f = st[i];
        std::string nm = demangle(f.f->name);
        if (nm.size() > 120) nm = nm.substr(0, 117) + "...";
        if (n) r += " < ";
        r += nm;
        if (f.pc < (int)f.f->code.size())
            if (auto& dl = f.f->code[f.pc].I->getDebugLoc())
                if (auto* sc = dyn_cast<DIScope>(dl.getScope()))
                    r += "@" + sc->getFilename().str().substr(sc->getFilename().str().find_last_of('/') + 1) + ":" + std::to_string(dl.getLine());
    }
    return r;
}
void Exec::jump(State& s, int block)
{
    Frame& fr = s.th[s.cur].st.back();
    auto& ph = fr.f->phis[block];
    if (!ph.empty()) {
        // current block = block containing pc
        int cur = (int)(std::upper_bound(fr.f->blockStart.begin(), fr.f->blockStart.end(), fr.pc) - fr.f->blockStart.begin()) - 1;
        // empty blocks share a start index; pick the block owning the terminator
        const BasicBlock* BB = fr.f->code[fr.pc].I->getParent();
        (void)BB;
        std::vector<Val> vals;
        vals.reserve(ph.size());
        for (auto& p : ph) {
            int ref = 0;
            bool ok = false;
            for (auto& x : p.second)
                if (x.first == cur) {
                    ref = x.second;
                    ok = true;
                    break;
                }
            if (!ok) throw Inconclusive{"phi without incoming edge"};
            vals.push_back(ref >= 0 ? fr.regs[ref] : fr.f->consts[~ref]);
        }
        for (size_t i = 0; i < ph.size(); i++) fr.regs[ph[i].first] = vals[i];
    }
    fr.pc = fr.f->blockStart[block];
}
void Exec::pushFrame(State& s, Func* f, const std::vector<Val>& args, int retSlot, bool isInvoke)
{
    decode(f);
    if (!f->executed) {
        f->executed = true;
        executedFns.insert(f->name);
    }
    if (s.th[s.cur].st.size() > 400) throw Bug{"stack", "unbounded recursion"};
    Frame fr;
    fr.f = f;
    fr.regs.resize(f->nslots);
    for (size_t i = 0; i < args.size() && i < (size_t)f->nslots; i++) fr.regs[i] = args[i];
    fr.stackMark = s.stack[s.cur].size();
    fr.retSlot = retSlot;
    fr.isInvoke = isInvoke;
    s.th[s.cur].st.push_back(std::move(fr));
}
void Exec::popFrameObjs(State& s, size_t mark) { s.stack[s.cur].resize(mark); }
void Exec::doReturn(State& s, const std::vector<Val>& v)
{
    Thread& t = s.th[s.cur];
    Frame fr = std::move(t.st.back());
    t.st.pop_back();
    popFrameObjs(s, fr.stackMark);
    if (t.st.empty()) {
        t.done = true;
        if (s.cur == 0) throw PathEnd{"done"};
        throw Yield{};
    }
    Frame& c = t.st.back();
    if (fr.retSlot >= 0)
        for (size_t i = 0; i < v.size(); i++) c.regs[fr.retSlot + i] = v[i];
    const DI& d = c.f->code[c.pc];
    if (d.op == Instruction::Invoke)
        jump(s, d.t0);
    else
        c.pc++;
}
void Exec::callDone(State& s, const DI& d)
{
    if (d.op == Instruction::Invoke)
        jump(s, d.t0);
    else
        s.th[s.cur].st.back().pc++;
}
Val Exec::icmp(unsigned pred, const Val& a, const Val& b, unsigned w)
{
    if (!a.e && !b.e) {
        uint64_t x = a.c & maskw(w), y = b.c & maskw(w);
        int64_t sx_ = sext64(x, w), sy = sext64(y, w);
        switch (pred) {
            case CmpInst::ICMP_EQ: return Val(x == y);
            case CmpInst::ICMP_NE: return Val(x != y);
            case CmpInst::ICMP_UGT: return Val(x > y);
            case CmpInst::ICMP_UGE: return Val(x >= y);
            case CmpInst::ICMP_ULT: return Val(x < y);
            case CmpInst::ICMP_ULE: return Val(x <= y);
            case CmpInst::ICMP_SGT: return Val(sx_ > sy);
            case CmpInst::ICMP_SGE: return Val(sx_ >= sy);
            case CmpInst::ICMP_SLT: return Val(sx_ < sy);
            case CmpInst::ICMP_SLE: return Val(sx_ <= sy);
        }
    }
    E x = toE(a, w), y = toE(b, w);
    switch (pred) {
        case CmpInst::ICMP_EQ: return VE(mkEq(x, y));
        case CmpInst::ICMP_NE: return VE(mkNot(mkEq(x, y)));
        case CmpInst::ICMP_UGT: return VE(mkUlt(y, x));
        case CmpInst::ICMP_UGE: return VE(mkUle(y, x));
        case CmpInst::ICMP_ULT: return VE(mkUlt(x, y));
        case CmpInst::ICMP_ULE: return VE(mkUle(x, y));
        case CmpInst::ICMP_SGT: return VE(mkSlt(y, x));
        case CmpInst::ICMP_SGE: return VE(mkSle(y, x));
        case CmpInst::ICMP_SLT: return VE(mkSlt(x, y));
        case CmpInst::ICMP_SLE: return VE(mkSle(x, y));
    }
    throw Inconclusive{"icmp"};
}
Val Exec::binop(State& s, unsigned op, const Val& a, const Val& b, unsigned w, const Instruction* I)
{
    if (op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem)
        check(s, mkNot(mkEq(toE(b, w), mkConst(0, w))), "arith", "division by zero");
    if (!a.e && !b.e) {
        uint64_t x = a.c & maskw(w), y = b.c & maskw(w), r = 0;
        switch (op) {
            case Instruction::Add: r = x + y; break;
            case Instruction::Sub: r = x - y; break;
            case Instruction::Mul: r = x * y; break;
            case Instruction::And: r = x & y; break;
            case Instruction::Or: r = x | y; break;
            case Instruction::Xor: r = x ^ y; break;
            case Instruction::Shl: r = y >= w ? 0 : x << y; break;
            case Instruction::LShr: r = y >= w ? 0 : x >> y; break;
            case Instruction::AShr: r = (uint64_t)(sext64(x, w) >> (y >= w ? w - 1 : y)); break;
            default: return VE(op == Instruction::UDiv ? mkUDiv(toE(a, w), toE(b, w)) :
                               op == Instruction::SDiv ? mkSDiv(toE(a, w), toE(b, w)) :
                               op == Instruction::URem ? mkURem(toE(a, w), toE(b, w)) :
                                                         mkSRem(toE(a, w), toE(b, w)));
        }
        return Val(r & maskw(w));
    }
    E x = toE(a, w), y = toE(b, w);
    switch (op) {
        case Instruction::Add: return VE(mkAdd(x, y));
        case Instruction::Sub: return VE(mkSub(x, y));
        case Instruction::Mul: return VE(mkMul(x, y));
        case Instruction::And: return VE(mkAnd(x, y));
        case Instruction::Or:
            if (auto* P = dyn_cast_or_null<PossiblyDisjointInst>(I))
                if (P->isDisjoint() && w > 1) return VE(mkAdd(x, y));
            return VE(mkOr(x, y));
        case Instruction::Xor: return VE(mkXor(x, y));
        case Instruction::Shl: return VE(mkShl(x, y));
        case Instruction::LShr: return VE(mkLShr(x, y));
        case Instruction::AShr: return VE(mkAShr(x, y));
        case Instruction::UDiv: return VE(mkUDiv(x, y));
        case Instruction::SDiv: return VE(mkSDiv(x, y));
        case Instruction::URem: return VE(mkURem(x, y));
        case Instruction::SRem: return VE(mkSRem(x, y));
    }
    throw Inconclusive{"binop"};
}
void Exec::step(State& s)
{
    Frame& fr = s.th[s.cur].st.back();
    const DI& d = fr.f->code[fr.pc];
    d.hit = true;
    exec(s, d);
    s.granted = false;
    s.steps++;
    nSteps++;
}
static double asD(uint64_t c, unsigned w)
{
    if (w == 32) {
        float f;
        uint32_t x = (uint32_t)c;
        memcpy(&f, &x, 4);
        return f;
    }
    double r;
    memcpy(&r, &c, 8);
    return r;
}
static uint64_t fromD(double d, unsigned w)
{
    if (w == 32) {
        float f = (float)d;
        uint32_t x;
        memcpy(&x, &f, 4);
        return x;
    }
    uint64_t r;
    memcpy(&r, &d, 8);
    return r;
}
void Exec::exec(State& s, const DI& d)
{
    Frame& fr = s.th[s.cur].st.back();
    const Instruction* I = d.I;
    switch (d.op) {
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
        case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor:
        case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
            std::vector<Val> r;
            for (int k = 0; k < d.nd; k++) r.push_back(binop(s, d.op, operand(s, d, 0, k), operand(s, d, 1, k), d.w[0], I));
            for (int k = 0; k < d.nd; k++) setReg(s, d.dst + k, r[k]);
            break;
        }
        case Instruction::ICmp: {
            for (int k = 0; k < d.nd; k++)
                setReg(s, d.dst + k, icmp(cast<ICmpInst>(I)->getPredicate(), operand(s, d, 0, k), operand(s, d, 1, k), d.w[0]));
            break;
        }
        case Instruction::Load: {
            auto* L = cast<LoadInst>(I);
            if (L->isAtomic() && !fr.f->quietAtomics) visible(s, PAny);
            Val a = operand(s, d, 0);
            std::vector<Val> r;
            bool rc = cfg.race;
            if (L->isAtomic()) cfg.race = false;
            try {
                for (auto& l : leaves(L->getType())) r.push_back(load(s, vadd(a, Val(l.off)), l.w));
            } catch (...) {
                cfg.race = rc;
                throw;
            }
            cfg.race = rc;
            for (size_t i = 0; i < r.size(); i++) setReg(s, d.dst + (int)i, r[i]);
            break;
        }
        case Instruction::Store: {
            auto* S = cast<StoreInst>(I);
            if (S->isAtomic() && !fr.f->quietAtomics) {
                visible(s, PAny);
                releaseEdge(s);
            }
            Val a = operand(s, d, 1);
            auto& lv = leaves(S->getValueOperand()->getType());
            bool rc = cfg.race;
            if (S->isAtomic()) cfg.race = false;
            try {
                for (size_t i = 0; i < lv.size(); i++) store(s, vadd(a, Val(lv[i].off)), operand(s, d, 0, (int)i), lv[i].w);
            } catch (...) {
                cfg.race = rc;
                throw;
            }
            cfg.race = rc;
            break;
        }
        case Instruction::AtomicCmpXchg: {
            auto* X = cast<AtomicCmpXchgInst>(I);
            if (!fr.f->quietAtomics) {
                visible(s, PAny);
                releaseEdge(s);
            }
            unsigned w = widthOf(X->getCompareOperand()->getType());
            bool rc = cfg.race;
            cfg.race = false;
            try {
                Val a = operand(s, d, 0), old = load(s, a, w);
                Val ok = icmp(CmpInst::ICMP_EQ, old, operand(s, d, 1), w);
                bool b = ok.e ? decide(s, ok.e) : ok.c;
                if (b) store(s, a, operand(s, d, 2), w);
                setReg(s, d.dst, old);
                setReg(s, d.dst + 1, Val(b));
            } catch (...) {
                cfg.race = rc;
                throw;
            }
            cfg.race = rc;
            break;
        }
        case Instruction::AtomicRMW: {
            auto* X = cast<AtomicRMWInst>(I);
            if (!fr.f->quietAtomics) {
                visible(s, PAny);
                releaseEdge(s);
            }
            unsigned w = widthOf(X->getType());
            bool rc = cfg.race;
            cfg.race = false;
            try {
                Val a = operand(s, d, 0), v = operand(s, d, 1), old = load(s, a, w), nv;
                switch (X->getOperation()) {
                    case AtomicRMWInst::Xchg: nv = v; break;
                    case AtomicRMWInst::Add: nv = binop(s, Instruction::Add, old, v, w, nullptr); break;
                    case AtomicRMWInst::Sub: nv = binop(s, Instruction::Sub, old, v, w, nullptr); break;
                    case AtomicRMWInst::And: nv = binop(s, Instruction::And, old, v, w, nullptr); break;
                    case AtomicRMWInst::Or: nv = binop(s, Instruction::Or, old, v, w, nullptr); break;
                    case AtomicRMWInst::Xor: nv = binop(s, Instruction::Xor, old, v, w, nullptr); break;
                    default: throw Inconclusive{"atomicrmw kind"};
                }
                store(s, a, nv, w);
                setReg(s, d.dst, old);
            } catch (...) {
                cfg.race = rc;
                throw;
            }
            cfg.race = rc;
            break;
        }
        case Instruction::Fence: break;
        case Instruction::Alloca: {
            auto* A = cast<AllocaInst>(I);
            uint64_t n = concretize(s, operand(s, d, 0), d.w[0]);
            uint64_t sz = DL.getTypeAllocSize(A->getAllocatedType()) * n;
            if (sz > MAXOBJ) throw Inconclusive{"stack object too large"};
            setReg(s, d.dst, Val(allocStack(s, Val(sz), sz)));
            break;
        }
        case Instruction::GetElementPtr: {
            Val r = vadd(operand(s, d, 0), Val((uint64_t)d.gconst));
            for (auto& g : d.gidx) {
                Val ix = refVal(s, g.first);
                unsigned w = g.second.first;
                if (!ix.e)
                    r = vadd(r, Val((uint64_t)(sext64(ix.c, w) * (int64_t)g.second.second)));
                else
                    r = vadd(r, VE(mkMul(mkSExt(ix.e, 64), mkConst(g.second.second, 64))));
            }
            setReg(s, d.dst, r);
            break;
        }
        case Instruction::Trunc: {
            unsigned w = leaves(I->getType())[0].w;
            for (int k = 0; k < d.nd; k++) {
                Val v = operand(s, d, 0, k);
                setReg(s, d.dst + k, v.e ? VE(mkExtract(v.e, 0, w)) : Val(v.c & maskw(w)));
            }
            break;
        }
        case Instruction::ZExt: {
            unsigned w = leaves(I->getType())[0].w;
            for (int k = 0; k < d.nd; k++) {
                Val v = operand(s, d, 0, k);
                setReg(s, d.dst + k, v.e ? VE(mkZExt(v.e, w)) : v);
            }
            break;
        }
        case Instruction::SExt: {
            unsigned w = leaves(I->getType())[0].w;
            for (int k = 0; k < d.nd; k++) {
                Val v = operand(s, d, 0, k);
                setReg(s, d.dst + k, v.e ? VE(mkSExt(v.e, w)) : Val((uint64_t)sext64(v.c, d.w[0]) & maskw(w)));
            }
            break;
        }
        case Instruction::PtrToInt:
        case Instruction::IntToPtr: {
            unsigned w = leaves(I->getType())[0].w;
            Val v = operand(s, d, 0);
            if (w < d.w[0])
                v = v.e ? VE(mkExtract(v.e, 0, w)) : Val(v.c & maskw(w));
            else if (w > d.w[0] && v.e)
                v = VE(mkZExt(v.e, w));
            setReg(s, d.dst, v);
            break;
        }
        case Instruction::BitCast:
        case Instruction::AddrSpaceCast:
        case Instruction::Freeze: {
            if (leaves(I->getType()).size() != leaves(I->getOperand(0)->getType()).size())
                throw Inconclusive{"bitcast between shapes"};
            std::vector<Val> r;
            for (int k = 0; k < d.nd; k++) r.push_back(operand(s, d, 0, k));
            for (int k = 0; k < d.nd; k++) setReg(s, d.dst + k, r[k]);
            break;
        }
        case Instruction::Select: {
            Val c = operand(s, d, 0);
            bool vec = I->getOperand(0)->getType()->isVectorTy();
            if (vec) throw Inconclusive{"vector select"};
            if (!c.e) {
                std::vector<Val> r;
                for (int k = 0; k < d.nd; k++) r.push_back(operand(s, d, c.c ? 1 : 2, k));
                for (int k = 0; k < d.nd; k++) setReg(s, d.dst + k, r[k]);
                break;
            }
            bool same = true, ptr = false;
            auto& lv = leaves(I->getType());
            for (int k = 0; k < d.nd; k++)
                if (operand(s, d, 1, k) != operand(s, d, 2, k)) same = false;
            ptr = I->getType()->isPointerTy();
            std::vector<Val> r;
            if (!same && (ptr || d.nd > 1)) {
                bool b = decide(s, c.e);
                for (int k = 0; k < d.nd; k++) r.push_back(operand(s, d, b ? 1 : 2, k));
            } else
                for (int k = 0; k < d.nd; k++)
                    r.push_back(VE(mkIte(c.e, toE(operand(s, d, 1, k), lv[k].w), toE(operand(s, d, 2, k), lv[k].w))));
            for (int k = 0; k < d.nd; k++) setReg(s, d.dst + k, r[k]);
            break;
        }
        case Instruction::ExtractValue: {
            auto* X = cast<ExtractValueInst>(I);
            const Type* T = X->getAggregateOperand()->getType();
            int at = 0;
            for (unsigned ix : X->indices()) {
                if (auto* ST = dyn_cast<StructType>(T)) {
                    for (unsigned i = 0; i < ix; i++) at += (int)leaves(ST->getElementType(i)).size();
                    T = ST->getElementType(ix);
                } else {
                    T = T->getArrayElementType();
                    at += (int)(ix * leaves(T).size());
                }
            }
            for (int k = 0; k < d.nd; k++) setReg(s, d.dst + k, operand(s, d, 0, at + k));
            break;
        }
        case Instruction::InsertValue: {
            auto* X = cast<InsertValueInst>(I);
            const Type* T = X->getType();
            int at = 0;
            for (unsigned ix : X->indices()) {
                if (auto* ST = dyn_cast<StructType>(T)) {
                    for (unsigned i = 0; i < ix; i++) at += (int)leaves(ST->getElementType(i)).size();
                    T = ST->getElementType(ix);
                } else {
                    T = T->getArrayElementType();
                    at += (int)(ix * leaves(T).size());
                }
            }
            std::vector<Val> r;
            for (int k = 0; k < d.nd; k++) r.push_back(operand(s, d, 0, k));
            for (size_t k = 0; k < leaves(T).size(); k++) r[at + k] = operand(s, d, 1, (int)k);
            for (int k = 0; k < d.nd; k++) setReg(s, d.dst + k, r[k]);
            break;
        }
        case Instruction::ExtractElement: {
            uint64_t ix = concretize(s, operand(s, d, 1), d.w[1]);
            setReg(s, d.dst, operand(s, d, 0, (int)ix));
            break;
        }
        case Instruction::InsertElement: {
            uint64_t ix = concretize(s, operand(s, d, 2), d.w[2]);
            std::vector<Val> r;
            for (int k = 0; k < d.nd; k++) r.push_back(operand(s, d, 0, k));
            r[ix] = operand(s, d, 1);
            for (int k = 0; k < d.nd; k++) setReg(s, d.dst + k, r[k]);
            break;
        }
        case Instruction::ShuffleVector: {
            auto* X = cast<ShuffleVectorInst>(I);
            int n = (int)leaves(X->getOperand(0)->getType()).size();
            std::vector<Val> r;
            for (int m : X->getShuffleMask()) r.push_back(m < 0 ? Val(0) : m < n ? operand(s, d, 0, m) : operand(s, d, 1, m - n));
            for (int k = 0; k < d.nd; k++) setReg(s, d.dst + k, r[k]);
            break;
        }
        case Instruction::Br: {
            if (d.ops.empty()) {
                jump(s, d.t0);
                return;
            }
            Val c = operand(s, d, 0);
            bool b = c.e ? decide(s, c.e) : (c.c & 1);
            jump(s, b ? d.t0 : d.t1);
            return;
        }
        case Instruction::Switch: {
            Val c = operand(s, d, 0);
            for (auto& g : d.gidx) {
                bool b = c.e ? decide(s, mkEq(c.e, mkConst(g.second.second, d.w[0]))) : c.c == g.second.second;
                if (b) {
                    jump(s, g.first);
                    return;
                }
            }
            jump(s, d.t0);
            return;
        }
        case Instruction::Ret: {
            std::vector<Val> v;
            if (!d.ops.empty())
                for (size_t k = 0; k < leaves(I->getOperand(0)->getType()).size(); k++) v.push_back(operand(s, d, 0, (int)k));
            doReturn(s, v);
            return;
        }
        case Instruction::Call:
        case Instruction::Invoke: doCall(s, d); return;
        case Instruction::LandingPad: {
            auto* LP = cast<LandingPadInst>(I);
            uint64_t obj = s.th[s.cur].unwinding, sel = 0;
            uint64_t ti = s.exc[obj].tinfo;
            for (unsigned i = 0; i < LP->getNumClauses(); i++) {
                if (!LP->isCatch(i)) continue;
                uint64_t want = constInt(LP->getClause(i));
                if (!want || typeMatches(ti, want)) {
                    sel = typeId(want);
                    break;
                }
            }
            setReg(s, d.dst, Val(obj));
            setReg(s, d.dst + 1, Val(sel));
            break;
        }
        case Instruction::Resume: {
            Val obj = operand(s, d, 0, 0);
            throwExc(s, concretize(s, obj, 64));
            return;
        }
        case Instruction::Unreachable: throw Bug{"unreachable", "reached code the compiler proved unreachable (undefined behaviour)"};
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
            Val a = operand(s, d, 0), b = operand(s, d, 1);
            if (a.e || b.e) throw Inconclusive{"symbolic floating point"};
            double x = asD(a.c, d.w[0]), y = asD(b.c, d.w[0]);
            double r = d.op == Instruction::FAdd ? x + y : d.op == Instruction::FSub ? x - y : d.op == Instruction::FMul ? x * y : x / y;
            setReg(s, d.dst, Val(fromD(r, d.w[0])));
            break;
        }
        case Instruction::FCmp: {
            Val a = operand(s, d, 0), b = operand(s, d, 1);
            if (a.e || b.e) throw Inconclusive{"symbolic floating point"};
            double x = asD(a.c, d.w[0]), y = asD(b.c, d.w[0]);
            bool un = x != x || y != y, r;
            switch (cast<FCmpInst>(I)->getPredicate()) {
                case CmpInst::FCMP_OEQ: r = !un && x == y; break;
                case CmpInst::FCMP_ONE: r = !un && x != y; break;
                case CmpInst::FCMP_OLT: r = !un && x < y; break;
                case CmpInst::FCMP_OLE: r = !un && x <= y; break;
                case CmpInst::FCMP_OGT: r = !un && x > y; break;
                case CmpInst::FCMP_OGE: r = !un && x >= y; break;
                case CmpInst::FCMP_UEQ: r = un || x == y; break;
                case CmpInst::FCMP_UNE: r = un || x != y; break;
                case CmpInst::FCMP_ULT: r = un || x < y; break;
                case CmpInst::FCMP_ULE: r = un || x <= y; break;
                case CmpInst::FCMP_UGT: r = un || x > y; break;
                case CmpInst::FCMP_UGE: r = un || x >= y; break;
                case CmpInst::FCMP_UNO: r = un; break;
                case CmpInst::FCMP_ORD: r = !un; break;
                default: throw Inconclusive{"fcmp"};
            }
            setReg(s, d.dst, Val(r));
            break;
        }
        case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToUI: case Instruction::FPToSI:
        case Instruction::FPExt: case Instruction::FPTrunc: {
            Val a = operand(s, d, 0);
            if (a.e) throw Inconclusive{"symbolic floating point"};
            unsigned w = leaves(I->getType())[0].w;
            uint64_t r = 0;
            if (d.op == Instruction::UIToFP) r = fromD((double)a.c, w);
            if (d.op == Instruction::SIToFP) r = fromD((double)sext64(a.c, d.w[0]), w);
            if (d.op == Instruction::FPToUI) r = (uint64_t)asD(a.c, d.w[0]) & maskw(w);
            if (d.op == Instruction::FPToSI) r = (uint64_t)(int64_t)asD(a.c, d.w[0]) & maskw(w);
            if (d.op == Instruction::FPExt || d.op == Instruction::FPTrunc) r = fromD(asD(a.c, d.w[0]), w);
            setReg(s, d.dst, Val(r));
            break;
        }
        default: throw Inconclusive{std::string("unsupported instruction ") + I->getOpcodeName()};
    }
    s.th[s.cur].st.back().pc++;
}
void Exec::doCall(State& s, const DI& d)
{
    if (d.intr > 0) {
        handlers[d.intr](*this, s, d);
        return;
    }
    Func* f = d.callee;
    if (!f) {
        if (d.ops.back() == ~0x3fffffff) throw Inconclusive{"inline assembly"};
        Val t = operand(s, d, (int)d.ops.size() - 1);
        if (t.e) t = Val(concretize(s, t, 64));
        auto it = funcByAddr.find(t.c);
        if (it == funcByAddr.end()) {
            if (t.c < 65536) throw Bug{"memory", "call through a null pointer"};
            throw Bug{"memory", "call through a wild pointer"};
        }
        f = it->second;
        int h = findHandler(f->name);
        if (h > 0) {
            handlers[h](*this, s, d);
            return;
        }
    }
    if (f->F->isDeclaration()) throw Inconclusive{"call of external function " + demangle(f->name) + " [" + f->name + "]"};
    std::vector<Val> args;
    auto* CB = cast<CallBase>(d.I);
    for (unsigned i = 0; i < CB->arg_size(); i++) {
        size_t nl = leaves(CB->getArgOperand(i)->getType()).size();
        if (CB->isByValArgument(i)) {
            const Type* T = CB->getParamByValType(i);
            uint64_t sz = DL.getTypeAllocSize(const_cast<Type*>(T));
            uint64_t a = allocStack(s, Val(sz), sz);
            memCopy(s, Val(a), operand(s, d, (int)i), Val(sz), false);
            args.push_back(Val(a));
            continue;
        }
        for (size_t k = 0; k < nl; k++) args.push_back(operand(s, d, (int)i, (int)k));
    }
    pushFrame(s, f, args, d.dst, d.op == Instruction::Invoke);
}

// ------------------------------------------------------------------ exceptions
static const std::map<std::string, std::string>& stdBases()
{
    static const std::map<std::string, std::string> m = {
        {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"},
        {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"},
        {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
        {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
        {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
        {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"},
        {"_ZTISt12future_error", "_ZTISt11logic_error"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"},
        {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}};
    return m;
}
static std::string globalNameOf(uint64_t a, std::vector<const GlobalVariable*>& gv)
{
    uint64_t n = (a >> 20) & 0xFFFF;
    if ((a >> 44) != 3 || n >= gv.size()) return "";
    return gv[n]->getName().str();
}
bool Exec::typeMatches(uint64_t thrown, uint64_t want)
{
    std::vector<std::string> work{globalNameOf(thrown, globalVar)};
    std::string w = globalNameOf(want, globalVar);
    while (!work.empty()) {
        std::string n = work.back();
        work.pop_back();
        if (n == w) return true;
        auto* G = M.getNamedGlobal(n);
        if (G && G->hasInitializer()) {
            if (auto* CS = dyn_cast<ConstantStruct>(G->getInitializer())) {
                for (unsigned i = 2; i < CS->getNumOperands(); i++) {
                    auto* O = CS->getOperand(i)->stripPointerCasts();
                    if (auto* B = dyn_cast<GlobalVariable>(O)) work.push_back(B->getName().str());
                }
            }
        } else {
            auto it = stdBases().find(n);
            if (it != stdBases().end()) work.push_back(it->second);
        }
    }
    return false;
}
uint64_t Exec::typeId(uint64_t ti)
{
    auto it = typeIds.find(ti);
    if (it != typeIds.end()) return it->second;
    uint64_t n = typeIds.size() + 1;
    return typeIds[ti] = n;
}
uint64_t Exec::throwStd(State& s, const char* ti)
{
    auto* G = M.getNamedGlobal(ti);
    if (!G)
        G = new GlobalVariable(M, PointerType::getUnqual(M.getContext()), true, GlobalValue::ExternalLinkage, nullptr, ti);
    uint64_t o = allocHeap(s, Val(64), OExc);
    s.exc[o] = {globalAddr(G), 1, 0};
    throwExc(s, o);
    return o;
}
void Exec::throwExc(State& s, uint64_t obj)
{
    Thread& t = s.th[s.cur];
    uint64_t ti = s.exc[obj].tinfo;
    // search phase
    bool found = false;
    for (size_t i = t.st.size(); i-- > 0 && !found;) {
        const DI& d = t.st[i].f->code[t.st[i].pc];
        if (d.op != Instruction::Invoke) continue;
        auto* LP = cast<InvokeInst>(d.I)->getLandingPadInst();
        for (unsigned k = 0; k < LP->getNumClauses(); k++) {
            if (!LP->isCatch(k)) continue;
            uint64_t want = constInt(LP->getClause(k));
            if (!want || typeMatches(ti, want)) found = true;
        }
    }
    if (!found) throw Bug{"exception", "uncaught exception of type " + demangle(globalNameOf(ti, globalVar))};
    while (true) {
        Frame& f = t.st.back();
        const DI& d = f.f->code[f.pc];
        if (d.op == Instruction::Invoke) {
            auto* LP = cast<InvokeInst>(d.I)->getLandingPadInst();
            bool enter = LP->isCleanup();
            for (unsigned k = 0; k < LP->getNumClauses() && !enter; k++) {
                if (!LP->isCatch(k)) continue;
                uint64_t want = constInt(LP->getClause(k));
                if (!want || typeMatches(ti, want)) enter = true;
            }
            if (enter) {
                t.unwinding = obj;
                jump(s, d.t1);
                return;
            }
        }
        popFrameObjs(s, f.stackMark);
        t.st.pop_back();
        if (t.st.empty()) throw Bug{"exception", "exception left a thread"};
    }
}

// ------------------------------------------------------------------ threads
bool Exec::multi(State& s)
{
    int n = 0;
    for (auto& t : s.th)
        if (!t.done) n++;
    return n > 1;
}
void Exec::releaseEdge(State& s)
{
    if (cfg.race) s.th[s.cur].seg.clear();
}
void Exec::raceCheck(State& s, const Access& a)
{
    for (size_t u = 0; u < s.th.size(); u++) {
        if ((int)u == s.cur) continue;
        for (auto& b : s.th[u].seg) {
            if (!(a.write || b.write)) continue;
            if (a.addr < b.addr + b.len && b.addr < a.addr + a.len) {
                std::string w;
                for (const void* p : {a.where, b.where}) {
                    auto* I = (const Instruction*)p;
                    std::string x = demangle(I->getFunction()->getName().str());
                    if (auto& dl = I->getDebugLoc())
                        if (auto* sc = dyn_cast<DIScope>(dl.getScope()))
                            x = sc->getFilename().str().substr(sc->getFilename().str().find_last_of('/') + 1) + ":" + std::to_string(dl.getLine());
                    w += (w.empty() ? "" : " and ") + x;
                }
                throw Bug{"race", "data race between threads " + std::to_string(s.cur) + " and " + std::to_string(u) + " at " + w};
            }
        }
    }
}
// Called by a visible operation before it has any effect.
void Exec::visible(State& s, PendKind k, uint64_t a, uint64_t b)
{
    if (s.granted) {
        s.th[s.cur].pend = PNone;
        return;
    }
    if (!multi(s)) return;
    Thread& t = s.th[s.cur];
    t.pend = k;
    t.pa = a;
    t.pb = b;
    throw Yield{};
}
bool Exec::enabled(State& s, int ti)
{
    Thread& t = s.th[ti];
    if (t.done) return false;
    switch (t.pend) {
        case PStart:
        case PAny:
        case PNone: return true;
        case PLock: return !s.mutexOwner.count(t.pa);
        case PJoin: return t.pa < s.th.size() && s.th[t.pa].done;
        case PReacquire: return !s.mutexOwner.count(t.pb);
        case PWaiting: return false;
        case PFutex: {
            bool rc = cfg.race;
            cfg.race = false;
            Val v = load(s, Val(t.pa), 32);
            cfg.race = rc;
            return v.e || v.c != t.pb;
        }
    }
    return false;
}
bool Exec::lockOp(State& s, uint64_t m)
{
    visible(s, PLock, m);
    if (s.mutexOwner.count(m)) throw Bug{"deadlock", "a thread locks a mutex that will never be released"};
    s.mutexOwner[m] = s.cur;
    return true;
}
void Exec::unlockOp(State& s, uint64_t m)
{
    // the accesses made with the lock held have to stay visible to the other threads until then
    if (cfg.race) visible(s, PAny);
    auto it = s.mutexOwner.find(m);
    if (it == s.mutexOwner.end() || it->second != s.cur) throw Bug{"mutex", "unlock of a mutex the thread does not hold"};
    s.mutexOwner.erase(it);
    releaseEdge(s);
}
int Exec::spawn(State& s, Func* f, const std::vector<Val>& args)
{
    if (s.th.size() >= 16) throw Inconclusive{"too many threads"};
    releaseEdge(s);
    int id = (int)s.th.size();
    s.th.emplace_back();
    s.heap.emplace_back();
    s.stack.emplace_back();
    int cur = s.cur;
    s.cur = id;
    pushFrame(s, f, args, -1, false);
    s.th[id].pend = PStart;
    s.cur = cur;
    return id;
}

// ------------------------------------------------------------------ exploration
uint32_t Exec::namedSym(const std::string& name, unsigned w, uint64_t lo, uint64_t hi, int kind)
{
    std::string key = name + "/" + std::to_string(w) + "/" + std::to_string(lo) + "/" + std::to_string(hi);
    auto it = symByName.find(key);
    if (it != symByName.end()) return it->second;
    uint32_t id = newSymbol(name, w, lo, hi, kind);
    symByName[key] = id;
    return id;
}
uint32_t Exec::inputSym(State& s, const std::string& name, unsigned w, uint64_t lo, uint64_t hi)
{
    Thread& t = s.th[s.cur];
    uint32_t id = namedSym("t" + std::to_string(s.cur) + "#" + std::to_string(t.seq) + ":" + name, w, lo, hi, 0);
    s.inputs.push_back({id, {s.cur, (int)t.seq}});
    t.seq++;
    return id;
}
std::string Exec::traceJson(State& s, const Model& m)
{
    std::ostringstream o;
    o << "{\"inputs\":[";
    bool first = true;
    for (auto& in : s.inputs) {
        auto& sy = symbols[in.first];
        if (!first) o << ",";
        first = false;
        o << "{\"t\":" << in.second.first << ",\"n\":" << in.second.second << ",\"name\":" << jstr(sy.name);
        if (sy.w) {
            auto it = m.vars.find(in.first);
            o << ",\"v\":\"" << (it == m.vars.end() ? sy.lo : it->second) << "\"}";
        } else {
            o << ",\"len\":" << sy.hi << ",\"bytes\":{";
            bool f2 = true;
            for (auto& b : m.bytes)
                if ((b.first >> 40) == in.first && (b.first & 0xFFFFFFFFFFULL) < sy.hi) {
                    if (!f2) o << ",";
                    f2 = false;
                    o << "\"" << (b.first & 0xFFFFFFFFFFULL) << "\":" << (int)b.second;
                }
            o << "}}";
        }
    }
    o << "],\"sched\":[";
    for (int l = 0; l < s.level; l++) {
        auto it = symByName.find("sched" + std::to_string(l) + "/8/0/255");
        uint64_t v = 0;
        if (it != symByName.end()) {
            auto mi = m.vars.find(it->second);
            if (mi != m.vars.end()) v = mi->second;
        }
        o << (l ? "," : "") << v;
    }
    o << "],\"wake\":{";
    first = true;
    for (int l = 0; l <= s.level; l++) {
        auto it = symByName.find("wake" + std::to_string(l) + "/8/0/255");
        if (it == symByName.end()) continue;
        auto mi = m.vars.find(it->second);
        if (mi == m.vars.end()) continue;
        o << (first ? "" : ",") << "\"" << l << "\":" << mi->second;
        first = false;
    }
    o << "},\"observed\":[";
    first = true;
    for (auto& ob : s.observed) {
        o << (first ? "" : ",") << "[" << jstr(ob.first) << ",\"" << (ob.second.e ? evalE(ob.second.e, m) : ob.second.c) << "\"]";
        first = false;
    }
    o << "],\"forks\":" << s.forks << ",\"steps\":" << s.steps << "}";
    return o.str();
}
void Exec::report(State& s, const Bug& b, const ModelP& m)
{
    if (cfg.race && b.kind != "race") {
        nOther++;
        return;
    }
    Violation v;
    v.kind = b.kind;
    v.msg = b.msg;
    if (!s.th[s.cur].st.empty()) v.where = where(s);
    v.json = traceJson(s, *m);
    viols.push_back(v);
    stop = true;
}
void Exec::pathDone(State& s)
{
    nPaths++;
    if (s.level > maxLevel) maxLevel = s.level;
    // reservoir sampling of complete paths for translator validation
    rng ^= rng << 13;
    rng ^= rng >> 7;
    rng ^= rng << 17;
    if ((int)samples.size() < cfg.samples)
        samples.push_back(traceJson(s, *s.model));
    else if (cfg.samples && rng % nPaths < (uint64_t)cfg.samples)
        samples[rng % cfg.samples] = traceJson(s, *s.model);
}
// Run one state (and everything it forks into) up to scheduling points or completion.
void Exec::runLocal(State init, std::vector<State>& parked)
{
    std::vector<State> work;
    work.push_back(std::move(init));
    while (!work.empty() && !stop) {
        State s = std::move(work.back());
        work.pop_back();
        nStates++;
        try {
            uint64_t n = 0;
            while (true) {
                try {
                    while (true) {
                        step(s);
                        if (s.steps > cfg.maxSteps) throw Bug{"hang", "a path exceeded the step bound of " + std::to_string(cfg.maxSteps)};
                        if ((++n & 0xFFFF) == 0 && timeUp()) throw Inconclusive{"time limit"};
                    }
                } catch (Fork& f) {
                    nForks++;
                    nStates++;
                    if ((nForks & 0xFF) == 0 && timeUp()) throw Inconclusive{"time limit"};
                    s.forks++;
                    State o = s;
                    s.pc.push_back(f.cond);
                    o.pc.push_back(mkNot(f.cond));
                    o.model = f.other;
                    work.push_back(std::move(o));
                }
            }
        } catch (Yield&) {
            s.granted = false;
            bool all = true;
            for (auto& t : s.th)
                if (!t.done) all = false;
            if (all)
                pathDone(s);
            else
                parked.push_back(std::move(s));
        } catch (PathEnd& e) {
            if (e.why == "assume")
                nAssumeDrop++;
            else if (e.why == "shard") {
            } else if (cfg.shards > 1 && s.chooseCount < cfg.shardDepth && cfg.shard != 0) {
                // short paths are counted by the first shard only
            } else {
                bool live = false;
                for (size_t i = 1; i < s.th.size(); i++)
                    if (!s.th[i].done) live = true;
                if (live)
                    report(s, Bug{"threads", "harness ended with running threads"}, s.model);
                else
                    pathDone(s);
            }
        } catch (Inconclusive& e) {
            incon.insert(e.why + (e.why == "time limit" ? "" : " at " + where(s)));
            if (e.why == "time limit") stop = true;
        } catch (Bug& b) {
            report(s, b, s.model);
        }
    }
}
// What may happen next: thread t performs its pending operation (kind 0), or leaves a wait by timeout (1) or spuriously (2).
std::vector<Exec::Ch> Exec::choices(State& s, bool& idle)
{
    std::vector<Ch> ch;
    bool only = false;
    for (size_t t = 0; t < s.th.size(); t++)
        if (enabled(s, (int)t)) ch.push_back({(int)t, 0});
    idle = ch.empty();
    // starting a thread, creating one and an enabled join commute with everything the other threads do: no alternatives
    for (auto& c : ch) {
        Thread& th = s.th[c.t];
        if (th.pend == PStart || th.pend == PJoin || (th.pend == PAny && th.pb == 7)) {
            ch = {c};
            only = true;
            break;
        }
    }
    bool pre = cfg.maxPreempt >= 0 && !ch.empty() && s.lastRun >= 0 && s.preempt >= cfg.maxPreempt;
    if (pre) {
        for (auto& c : ch)
            if (c.t == s.lastRun) {
                ch = {c};
                break;
            }
    }
    for (size_t t = 0; t < s.th.size(); t++) {
        Thread& th = s.th[t];
        if (only || th.done || th.pend != PWaiting) continue;
        if (th.timed && (idle || th.deadline <= s.clock || s.timeouts < cfg.maxTimeouts)) ch.push_back({(int)t, 1});
        if (s.spurious < cfg.maxSpurious) ch.push_back({(int)t, 2});
    }
    return ch;
}
void Exec::schedule(State& s, std::vector<State>& out)
{
    bool idle = false;
    std::vector<Ch> ch = choices(s, idle);
    if (ch.empty()) {
        std::string m = "deadlock: no thread can make progress (";
        for (size_t t = 0; t < s.th.size(); t++) {
            if (s.th[t].done) continue;
            static const char* nm[] = {"?", "start", "op", "waiting for a mutex", "joining", "waiting on a condition variable", "waiting for a mutex", "waiting on a future"};
            m += " t" + std::to_string(t) + ": " + nm[s.th[t].pend];
        }
        for (size_t t = s.th.size(); t-- > 0;)
            if (!s.th[t].done) {
                s.cur = (int)t;
                if (s.th[t].pend == PWaiting) break;
            }
        report(s, Bug{"deadlock", m + " )"}, s.model);
        return;
    }
    E sv = mkVar(namedSym("sched" + std::to_string(s.level), 8, 0, 255, 1));
    for (size_t i = 0; i < ch.size(); i++) {
        int lastRun = s.lastRun;
        State c = i + 1 < ch.size() ? State(s) : std::move(s);
        int t = ch[i].t;
        uint64_t code = (uint64_t)t + 16 * ch[i].kind;
        E con = mkEq(sv, mkConst(code, 8));
        c.pc.push_back(con);
        auto m = std::make_shared<Model>(*c.model);
        m->vars[(uint32_t)sv->c] = code;
        c.model = m;
        bool lastEn = false;
        for (auto& x : ch)
            if (x.t == lastRun && x.kind == 0) lastEn = true;
        if (cfg.maxPreempt >= 0 && lastEn && t != lastRun) c.preempt++;
        c.level++;
        c.lastRun = cfg.maxPreempt >= 0 ? t : -1;
        c.cur = t;
        nTrans++;
        Thread& th = c.th[t];
        if (ch[i].kind) {
            // leaves the wait: by timeout or spuriously
            auto& w = c.waiters[th.pa];
            w.erase(std::remove(w.begin(), w.end(), t), w.end());
            if (w.empty()) c.waiters.erase(th.pa);
            if (ch[i].kind == 1) {
                if (!idle && th.deadline > c.clock) c.timeouts++;
                th.timedOut = true;
                if (th.deadline > c.clock) c.clock = th.deadline;
            } else
                c.spurious++;
            th.pend = PReacquire;
            th.timed = false;
            // parked again, waiting for the mutex
            c.granted = false;
            out.push_back(std::move(c));
            continue;
        }
        if (th.pend == PStart) {
            th.pend = PNone;
            c.granted = false;
        } else
            c.granted = true;
        if (cfg.race) th.seg.clear();
        out.push_back(std::move(c));
    }
}
static inline uint64_t hm(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    return h * 0xff51afd7ed558ccdULL;
}
static uint64_t hv(const Val& v) { return v.e ? v.e->hash * 31 + 7 : v.c; }
static uint64_t hashObj(const Obj& o)
{
    if (o.hashed) return o.hash;
    uint64_t h = hm(hv(o.size), o.kind);
    const Flat& f = *o.c.flat;
    for (size_t i = 0; i < f.k.size(); i++)
        if (f.k[i]) h = hm(h, i * 256 + (f.k[i] == 1 ? f.v[i] : f.sym[i]->hash + f.k[i]));
    h = hm(h, (uint64_t)(uintptr_t)o.c.older.get());
    o.hash = h;
    o.hashed = true;
    return h;
}
static bool eqFlat(const Flat& a, const Flat& b)
{
    size_t n = std::max(a.k.size(), b.k.size());
    for (size_t i = 0; i < n; i++) {
        uint8_t x = i < a.k.size() ? a.k[i] : 0, y = i < b.k.size() ? b.k[i] : 0;
        if (x != y) return false;
        if (x == 1 && a.v[i] != b.v[i]) return false;
        if (x > 1 && a.sym[i] != b.sym[i]) return false;
    }
    return true;
}
static bool eqObj(const ObjP& a, const ObjP& b)
{
    if (a == b) return true;
    if (!a || !b) return false;
    return a->base == b->base && a->size == b->size && a->kind == b->kind && a->c.older == b->c.older && a->c.arr == b->c.arr &&
           (a->c.flat == b->c.flat || eqFlat(*a->c.flat, *b->c.flat));
}
uint64_t Exec::hashState(State& s)
{
    uint64_t h = 1;
    for (auto& t : s.th) {
        h = hm(h, t.done + 2 * t.pend + 32 * t.timed + 64 * t.timedOut);
        h = hm(hm(h, t.pa), t.pb);
        h = hm(h, t.seq);
        for (size_t i = 0; i < t.st.size(); i++) {
            Frame& f = t.st[i];
            liveness(f.f);
            h = hm(hm(h, (uint64_t)(uintptr_t)f.f), f.pc);
            const DI& d = f.f->code[f.pc];
            auto& L = f.f->liveIn[f.pc];
            (void)d;
            for (int r = 0; r < f.f->nslots; r++)
                if (L[r / 64] >> (r % 64) & 1) h = hm(h, hv(f.regs[r]));
        }
        if (cfg.race)
            for (auto& a : t.seg) h = hm(h, a.addr * 2 + a.write);
    }
    for (auto& v : s.heap) {
        h = hm(h, v.size());
        for (auto& o : v) h = hm(h, o ? hashObj(*o) : 5);
    }
    for (auto& v : s.stack) {
        h = hm(h, v.size());
        for (auto& o : v) h = hm(h, o ? hashObj(*o) : 5);
    }
    for (auto& g : s.globals) h = hm(hm(h, g.first), hashObj(*g.second));
    for (auto& m : s.mutexOwner) h = hm(hm(h, m.first), m.second);
    for (auto& w : s.waiters) {
        h = hm(h, w.first);
        for (int x : w.second) h = hm(h, x);
    }
    h = hm(hm(hm(h, s.clock), s.timeouts), s.spurious * 100 + s.preempt);
    for (auto& o : s.observed) h = hm(h, hv(o.second));
    return h;
}
std::pair<uint64_t, uint64_t> Exec::visitKey(State& s, uint64_t h)
{
    uint64_t a = 77, b = h * 0x9e3779b97f4a7c15ULL;
    a = hm(hm(a, s.liveAllocs), s.lastRun + 1);
    for (auto& x : s.inputs) a = hm(a, x.first);
    for (auto& t : s.th) {
        a = hm(hm(hm(hm(a, t.deadline), t.unwinding), t.seq), t.caught.size());
        for (auto& f : t.st) a = hm(hm(a, f.retSlot), f.stackMark);
        if (cfg.race)
            for (auto& x : t.seg) a = hm(a, x.addr * 2 + x.write);
    }
    for (auto& m : s.mutexOwner) a = hm(hm(a, m.first), m.second);
    return {h, hm(a, b)};
}
bool Exec::seenBefore(State& s, uint64_t h)
{
    E& before = visited[visitKey(s, h)];  // the constraints under which the state was explored
    E c = eTrue;
    for (E e : s.pc) c = mkAnd(c, e);
    if (before) {
        ModelP m;
        if (before == eTrue || before == c || checkSat(s.pc, mkNot(before), s.model, m) == Res::Unsat) return true;
    }
    before = before ? mkOr(before, c) : c;
    return false;
}
bool Exec::equalState(State& a, State& b)
{
    if (a.th.size() != b.th.size() || a.liveAllocs != b.liveAllocs || a.clock != b.clock || a.timeouts != b.timeouts ||
        a.spurious != b.spurious || a.preempt != b.preempt || a.lastRun != b.lastRun || a.level != b.level)
        return false;
    if (a.mutexOwner != b.mutexOwner || a.waiters != b.waiters || a.exc != b.exc) return false;
    if (a.observed != b.observed || a.inputs.size() != b.inputs.size()) return false;
    for (size_t t = 0; t < a.th.size(); t++) {
        Thread &x = a.th[t], &y = b.th[t];
        if (x.done != y.done || x.pend != y.pend || x.pa != y.pa || x.pb != y.pb || x.timed != y.timed || x.timedOut != y.timedOut ||
            x.deadline != y.deadline || x.caught != y.caught || x.unwinding != y.unwinding || x.seq != y.seq || x.st.size() != y.st.size())
            return false;
        if (cfg.race && x.seg != y.seg) return false;
        for (size_t i = 0; i < x.st.size(); i++) {
            Frame &f = x.st[i], &g = y.st[i];
            if (f.f != g.f || f.pc != g.pc || f.stackMark != g.stackMark || f.retSlot != g.retSlot) return false;
            auto& L = f.f->liveIn[f.pc];
            for (int r = 0; r < f.f->nslots; r++)
                if ((L[r / 64] >> (r % 64) & 1) && f.regs[r] != g.regs[r]) return false;
        }
    }
    auto eqv = [&](std::vector<std::vector<ObjP>>& p, std::vector<std::vector<ObjP>>& q) {
        if (p.size() != q.size()) return false;
        for (size_t t = 0; t < p.size(); t++) {
            if (p[t].size() != q[t].size()) return false;
            for (size_t i = 0; i < p[t].size(); i++)
                if (!eqObj(p[t][i], q[t][i])) return false;
        }
        return true;
    };
    if (!eqv(a.heap, b.heap) || !eqv(a.stack, b.stack)) return false;
    if (a.globals.size() != b.globals.size()) return false;
    for (auto i = a.globals.begin(), j = b.globals.begin(); i != a.globals.end(); ++i, ++j)
        if (i->first != j->first || !eqObj(i->second, j->second)) return false;
    // the same inputs must have been created (symbols are named by thread and position)
    std::set<uint32_t> ia, ib;
    for (auto& x : a.inputs) ia.insert(x.first);
    for (auto& x : b.inputs) ib.insert(x.first);
    return ia == ib;
}
void Exec::mergeInto(State& a, State& b)
{
    // pc := common && (restA || restB)
    std::set<E> sa(a.pc.begin(), a.pc.end()), sb(b.pc.begin(), b.pc.end());
    std::vector<E> common, ra, rb;
    for (E e : a.pc) (sb.count(e) ? common : ra).push_back(e);
    for (E e : b.pc)
        if (!sa.count(e)) rb.push_back(e);
    E x = eTrue, y = eTrue;
    for (E e : ra) x = mkAnd(x, e);
    for (E e : rb) y = mkAnd(y, e);
    E o = mkOr(x, y);
    a.pc = common;
    if (o != eTrue) a.pc.push_back(o);
    a.steps = std::max(a.steps, b.steps);
    a.forks = std::max(a.forks, b.forks);
    nMerged++;
}
static bool memoryUp(uint64_t maxMB)
{
    long pages = 0, rss = 0;
    if (FILE* f = fopen("/proc/self/statm", "r")) {
        if (fscanf(f, "%ld %ld", &pages, &rss) != 2) rss = 0;
        fclose(f);
    }
    return (uint64_t)rss * 4096 / (1 << 20) > maxMB;
}
void Exec::explore(State init)
{
    std::vector<State> first;
    runLocal(std::move(init), first);
    // What was chosen before the threads started seldom becomes equal again: each start is explored on its own.  Large
    // frontiers are split, which only costs merges.
    struct Level {
        std::vector<State> st;
        std::unordered_map<uint64_t, std::vector<size_t>> idx;
    };
    using Unit = std::map<int, Level>;
    std::vector<Unit> pending;
    while (!first.empty()) {
        pending.emplace_back();
        int l = first.back().level;
        pending.back()[l].st.push_back(std::move(first.back()));
        first.pop_back();
    }
    uint64_t tick = 0;
    auto expired = [&]() {
        if (stop) return true;
        if ((++tick & 0x3f) == 0 && timeUp()) {
            incon.insert("time limit");
            stop = true;
        } else if ((tick & 0xfff) == 0 && memoryUp(cfg.maxMB)) {
            incon.insert("time limit (memory)");
            stop = true;
        }
        return stop;
    };
    while (!pending.empty() && !stop) {
        if (pending.back().empty()) {
            pending.pop_back();
            continue;
        }
        auto it = pending.back().begin();
        std::vector<State> frontier = std::move(it->second.st);
        pending.back().erase(it);
        Unit* unit = &pending.back();
        if (frontier.size() > cfg.maxFrontier) {
            // the second half waits
            int l = frontier[0].level;
            Level rest;
            rest.st.assign(std::make_move_iterator(frontier.begin() + frontier.size() / 2), std::make_move_iterator(frontier.end()));
            frontier.resize(frontier.size() / 2);
            Unit later = std::move(*unit);
            later[l] = std::move(rest);
            later[l].idx.clear();
            pending.back() = std::move(later);
            pending.emplace_back();
            unit = &pending.back();
        }
        if (getenv("SX_VERBOSE")) fprintf(stderr, "level %d frontier=%zu paths=%llu merged=%llu\n", frontier.empty() ? 0 : frontier[0].level, frontier.size(), (unsigned long long)nPaths, (unsigned long long)nMerged);
        std::vector<State> kids, todo, parked;
        for (auto& f : frontier) {
            if (expired()) break;
            todo.clear();
            todo.push_back(std::move(f));
            bool firstOne = true, chain = false;
            while (!todo.empty() && !stop) {
                State s = std::move(todo.back());
                todo.pop_back();
                if (!firstOne) {
                    // only one thing can happen: no need to compare it with other states first
                    bool idle = false;
                    if (!chain || choices(s, idle).size() != 1) {
                        uint64_t h = hashState(s);
                        // A long schedule may be going round in circles (std::lock trying again, a spin loop): a state
                        // that was there before, under the same or weaker constraints, has nothing new to show.
                        if (s.level >= cfg.cycleLevel && seenBefore(s, h)) {
                            nMerged++;
                            continue;
                        }
                        Level& L = (*unit)[s.level];
                        auto& v = L.idx[h];
                        bool merged = false;
                        for (size_t i : v)
                            if (equalState(L.st[i], s)) {
                                mergeInto(L.st[i], s);
                                merged = true;
                                break;
                            }
                        if (!merged) {
                            v.push_back(L.st.size());
                            L.st.push_back(std::move(s));
                        }
                        continue;
                    }
                }
                if (firstOne && cfg.chain) {
                    bool idle = false;
                    chain = choices(s, idle).size() == 1;
                }
                firstOne = false;
                if (expired()) break;
                kids.clear();
                try {
                    schedule(s, kids);
                } catch (Bug& b) {
                    report(s, b, s.model);
                } catch (Inconclusive& e) {
                    incon.insert(e.why);
                }
                s = State();
                for (auto& k : kids) {
                    if (stop) break;
                    if (!k.granted && k.th[k.cur].pend == PReacquire)
                        todo.push_back(std::move(k));
                    else {
                        parked.clear();
                        runLocal(std::move(k), parked);
                        for (auto& p : parked) todo.push_back(std::move(p));
                    }
                }
            }
        }
    }
}
int Exec::run(const std::string& outFile)
{
    t0 = std::chrono::steady_clock::now();
    State s;
    s.model = std::make_shared<Model>();
    s.th.resize(1);
    s.heap.resize(1);
    s.stack.resize(1);
    try {
        Function* F = M.getFunction(cfg.entry);
        if (!F) throw Inconclusive{"entry function not found"};
        // static constructors first, then the entry
        std::vector<Func*> order;
        if (auto* G = M.getNamedGlobal("llvm.global_ctors"))
            if (G->hasInitializer())
                if (auto* A = dyn_cast<ConstantArray>(G->getInitializer())) {
                    std::vector<std::pair<uint64_t, Func*>> v;
                    for (auto& O : A->operands()) {
                        auto* CS = cast<ConstantStruct>(O.get());
                        if (auto* CF = dyn_cast<Function>(CS->getOperand(1)->stripPointerCasts()))
                            v.push_back({cast<ConstantInt>(CS->getOperand(0))->getZExtValue(), getFunc(CF)});
                    }
                    std::stable_sort(v.begin(), v.end(), [](auto& x, auto& y) { return x.first < y.first; });
                    for (auto& x : v) order.push_back(x.second);
                }
        // run constructors to completion one after the other
        for (Func* c : order) {
            pushFrame(s, c, {}, -1, false);
            try {
                while (true) step(s);
            } catch (PathEnd& e) {
                if (e.why != "done") throw Inconclusive{"static constructor"};
                s.th[0].done = false;
                s.th[0].st.clear();
            }
        }
        s.liveAllocs = 0;
        pushFrame(s, getFunc(F), {}, -1, false);
        explore(std::move(s));
    } catch (Inconclusive& e) {
        incon.insert(e.why);
    } catch (Bug& b) {
        incon.insert("during start-up: " + b.msg);
    } catch (Fork&) {
        incon.insert("symbolic branch during start-up");
    }
    writeOut(outFile);
    return viols.empty() ? (incon.empty() ? 0 : 2) : 1;
}
void Exec::writeOut(const std::string& fn)
{
    std::ofstream o(fn);
    double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    o << "{\"violations\":[";
    for (size_t i = 0; i < viols.size(); i++)
        o << (i ? "," : "") << "{\"kind\":" << jstr(viols[i].kind) << ",\"msg\":" << jstr(viols[i].msg) << ",\"where\":" << jstr(viols[i].where)
          << ",\"trace\":" << viols[i].json << "}";
    o << "],\n\"inconclusive\":[";
    bool f = true;
    for (auto& x : incon) {
        o << (f ? "" : ",") << jstr(x);
        f = false;
    }
    o << "],\n\"reached\":{";
    f = true;
    for (auto& x : reached) {
        o << (f ? "" : ",") << jstr(x.first) << ":" << x.second;
        f = false;
    }
    o << "},\n\"functions\":[";
    f = true;
    std::set<std::string> names, lines;
    for (auto& [fp, fu] : funcs)
        for (auto& d : fu->code) {
            if (!d.hit || !d.I) continue;
            for (const DILocation* L = d.I->getDebugLoc().get(); L; L = L->getInlinedAt()) {
                std::string file = L->getFilename().str();
                if (file.find("gmlc/") == std::string::npos) continue;
                lines.insert(file.substr(file.rfind('/') + 1) + ":" + std::to_string(L->getLine()));
                if (auto* sp = L->getScope()->getSubprogram()) {
                    std::string q = sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str());
                    if (q.size() > 200) q = q.substr(0, 197) + "...";
                    names.insert(q);
                }
            }
        }
    for (auto& x : names) {
        o << (f ? "" : ",") << jstr(x);
        f = false;
    }
    o << "],\n\"lines\":[";
    f = true;
    for (auto& x : lines) {
        o << (f ? "" : ",") << jstr(x);
        f = false;
    }
    o << "],\n\"stats\":{\"paths\":" << nPaths << ",\"states\":" << nStates << ",\"forks\":" << nForks << ",\"sched_transitions\":" << nTrans
      << ",\"merged\":" << nMerged << ",\"max_level\":" << maxLevel << ",\"instructions\":" << nSteps << ",\"assume_dropped\":" << nAssumeDrop
      << ",\"asserts\":" << nAsserts << ",\"other_findings\":" << nOther << ",\"memory_checks\":" << nMemChecks << ",\"functions_total\":" << executedFns.size()
      << ",\"queries\":" << sstats.queries << ",\"by_model\":" << sstats.byModel << ",\"by_cache\":" << sstats.byCache
      << ",\"z3_calls\":" << sstats.z3calls << ",\"z3_int\":" << sstats.intCalls << ",\"z3_sat\":" << sstats.sat << ",\"z3_unsat\":" << sstats.unsat << ",\"z3_unknown\":"
      << sstats.unknown << ",\"z3_time\":" << sstats.z3time << ",\"z3_max\":" << sstats.maxtime << ",\"wall\":" << wall << "},\n\"samples\":[";
    for (size_t i = 0; i < samples.size(); i++) o << (i ? ",\n" : "") << samples[i];
    o << "]}\n";
}
}  // namespace sx
