// Optimises unoptimised harness bitcode with the allocation functions hidden behind plain external names, so that
// the optimiser cannot fold reads of uninitialised or released memory, or drop allocations, before the executor sees them.
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Module.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Support/raw_ostream.h>
#include <vector>
#include <string>
using namespace llvm;
namespace sx {
int prepare(Module& M, const std::string& out)
{
    LLVMContext& C = M.getContext();
    std::vector<std::string> renamed;
    std::vector<Function*> fs;
    for (auto& F : M) fs.push_back(&F);
    for (auto* F : fs) {
        std::string n = F->getName().str();
        bool al = n.rfind("_Znw", 0) == 0 || n.rfind("_Zna", 0) == 0 || n.rfind("_Zdl", 0) == 0 || n.rfind("_Zda", 0) == 0 || n == "malloc" ||
            n == "calloc" || n == "realloc" || n == "free" || n == "aligned_alloc";
        if (!al || !F->isDeclaration()) continue;
        AttributeList A;
        if (F->doesNotThrow()) A = A.addFnAttribute(C, Attribute::NoUnwind);
        F->setAttributes(A);
        for (auto* U : F->users())
            if (auto* CB = dyn_cast<CallBase>(U)) CB->setAttributes(A);
        renamed.push_back(n);
        F->setName("sx_hidden_" + n);
    }
    PipelineTuningOptions P;
    P.LoopVectorization = P.SLPVectorization = P.LoopInterleaving = P.LoopUnrolling = false;
    LoopAnalysisManager L;
    FunctionAnalysisManager F;
    CGSCCAnalysisManager G;
    ModuleAnalysisManager A;
    PassBuilder PB(nullptr, P);
    PB.registerModuleAnalyses(A);
    PB.registerCGSCCAnalyses(G);
    PB.registerFunctionAnalyses(F);
    PB.registerLoopAnalyses(L);
    PB.crossRegisterProxies(L, F, G, A);
    PB.buildPerModuleDefaultPipeline(OptimizationLevel::O1).run(M, A);
    for (auto& n : renamed)
        if (auto* H = M.getFunction("sx_hidden_" + n)) {
            if (auto* E = M.getFunction(n)) {
                H->replaceAllUsesWith(E);
                H->eraseFromParent();
            } else
                H->setName(n);
        }
    std::error_code ec;
    raw_fd_ostream o(out, ec);
    if (ec) return 3;
    WriteBitcodeToFile(M, o);
    return 0;
}
}  // namespace sx
