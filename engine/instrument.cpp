// Prepares harness bitcode for native replay under the deterministic scheduler: scheduling points before the
// same atomic operations the executor treats as visible, and the thread primitives redirected to the scheduler.
#include "exec.h"
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/Module.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;
namespace sx {
bool quietFunction(const std::string& n);
bool libraryGlobal(const std::string& n) { return n.find("10containers") != std::string::npos; }
int instrument(Module& M, const std::string& out, bool race, bool asan)
{
    LLVMContext& C = M.getContext();
    Type* V = Type::getVoidTy(C);
    Type* I64 = Type::getInt64Ty(C);
    Type* I32 = Type::getInt32Ty(C);
    FunctionCallee pt = M.getOrInsertFunction("__sx_point", V);
    FunctionCallee rl = M.getOrInsertFunction("__sx_release", V);
    FunctionCallee mem = M.getOrInsertFunction("__sx_mem", V, I64, I64, I32);
    const DataLayout& DL = M.getDataLayout();
    for (auto& F : M) {
        if (F.isDeclaration()) continue;
        if (asan) F.addFnAttr(Attribute::SanitizeAddress);
        bool quiet = quietFunction(F.getName().str());
        std::vector<Instruction*> at;
        for (auto& B : F)
            for (auto& I : B) at.push_back(&I);
        for (Instruction* I : at) {
            IRBuilder<> b(I);
            auto acc = [&](Value* p, Value* n, int w) {
                if (!race) return;
                b.CreateCall(mem, {b.CreatePtrToInt(p, I64), b.CreateZExtOrTrunc(n, I64), ConstantInt::get(I32, w)});
            };
            auto sz = [&](Type* T) { return ConstantInt::get(I64, DL.getTypeStoreSize(T)); };
            if (auto* L = dyn_cast<LoadInst>(I)) {
                if (L->isAtomic()) {
                    if (!quiet) b.CreateCall(pt);
                } else
                    acc(L->getPointerOperand(), sz(L->getType()), 0);
            } else if (auto* S = dyn_cast<StoreInst>(I)) {
                if (S->isAtomic()) {
                    if (!quiet) {
                        b.CreateCall(pt);
                        b.CreateCall(rl);
                    }
                } else
                    acc(S->getPointerOperand(), sz(S->getValueOperand()->getType()), 1);
            } else if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) {
                if (!quiet) {
                    b.CreateCall(pt);
                    b.CreateCall(rl);
                }
            } else if (auto* MI = dyn_cast<MemTransferInst>(I)) {
                acc(MI->getSource(), MI->getLength(), 0);
                acc(MI->getDest(), MI->getLength(), 1);
            } else if (auto* MS = dyn_cast<MemSetInst>(I))
                acc(MS->getDest(), MS->getLength(), 1);
        }
    }
    if (race) {
        std::vector<Constant*> c;
        for (auto& G : M.globals())
            if (libraryGlobal(G.getName().str()) && !G.isConstant()) {
                c.push_back(ConstantExpr::getPtrToInt(&G, I64));
                c.push_back(ConstantInt::get(I64, DL.getTypeAllocSize(G.getValueType())));
            }
        c.push_back(ConstantInt::get(I64, 0));
        auto* T = ArrayType::get(I64, c.size());
        new GlobalVariable(M, T, true, GlobalValue::ExternalLinkage, ConstantArray::get(T, c), "__sx_library_globals");
    }
    auto ren = [&](const char* from, const char* to) {
        if (auto* F = M.getFunction(from)) {
            if (auto* G = M.getFunction(to)) {
                F->replaceAllUsesWith(G);
                return;
            }
            F->setName(to);
        }
    };
    for (const char* n : {"pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_cond_wait", "pthread_cond_clockwait",
                          "pthread_cond_timedwait", "pthread_cond_signal", "pthread_cond_broadcast", "pthread_once", "pthread_self"})
        ren(n, (std::string("sxn_") + n).c_str());
    for (const char* n : {"pthread_cond_destroy", "pthread_mutex_destroy"}) ren(n, "sxn_zero");
    ren("_ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE",
        "sxn_futex_wait");
    ren("_ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj", "sxn_nop");
    ren("_ZNSt6chrono3_V212steady_clock3nowEv", "sxn_now");
    ren("_ZNSt6chrono3_V212system_clock3nowEv", "sxn_now");
    ren("sched_yield", "sxn_yield");
    ren("nanosleep", "sxn_yield");
    ren("_ZNSt6thread20hardware_concurrencyEv", "sxn_hwc");
    std::error_code ec;
    raw_fd_ostream o(out, ec);
    if (ec) return 3;
    WriteBitcodeToFile(M, o);
    return 0;
}
}  // namespace sx
