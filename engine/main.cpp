#include "exec.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>

namespace sx {
int instrument(llvm::Module& M, const std::string& out, bool race, bool asan);
int prepare(llvm::Module& M, const std::string& out);
}
int main(int argc, char** argv)
{
    sx::Config cfg;
    bool instr = false, prep = false, asan = false;
    std::string bc, out = "/dev/stdout";
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto next = [&]() -> std::string {
            if (i + 1 >= argc) {
                fprintf(stderr, "missing value for %s\n", a.c_str());
                exit(3);
            }
            return argv[++i];
        };
        if (a == "--entry")
            cfg.entry = next();
        else if (a == "--param") {
            std::string v = next();
            size_t k = v.find('=');
            cfg.params[v.substr(0, k)] = strtoull(v.c_str() + k + 1, nullptr, 0);
        } else if (a == "--time")
            cfg.timeLimit = atof(next().c_str());
        else if (a == "--steps")
            cfg.maxSteps = strtoull(next().c_str(), nullptr, 0);
        else if (a == "--timeouts")
            cfg.maxTimeouts = atoi(next().c_str());
        else if (a == "--spurious")
            cfg.maxSpurious = atoi(next().c_str());
        else if (a == "--preempt")
            cfg.maxPreempt = atoi(next().c_str());
        else if (a == "--chain")
            cfg.chain = atoi(next().c_str()) != 0;
        else if (a == "--race")
            cfg.race = true;
        else if (a == "--seed")
            cfg.seed = strtoull(next().c_str(), nullptr, 0);
        else if (a == "--samples")
            cfg.samples = atoi(next().c_str());
        else if (a == "--solver-ms")
            sx::solverTimeoutMs = (unsigned)atoi(next().c_str());
        else if (a == "--instrument")
            instr = true;
        else if (a == "--prepare")
            prep = true;
        else if (a == "--asan")
            asan = true;
        else if (a == "--shard") {
            std::string v = next();
            cfg.shard = atoi(v.c_str());
            cfg.shards = atoi(v.c_str() + v.find('/') + 1);
        } else if (a == "--out")
            out = next();
        else
            bc = a;
    }
    llvm::LLVMContext C;
    llvm::SMDiagnostic err;
    auto M = llvm::parseIRFile(bc, err, C);
    if (!M) {
        err.print(argv[0], llvm::errs());
        return 3;
    }
    if (prep) return sx::prepare(*M, out);
    if (instr) return sx::instrument(*M, out, cfg.race, asan);
    int r = 3;
    try {
        sx::Exec X(*M, cfg);
        r = X.run(out);
    } catch (sx::Inconclusive& e) {
        fprintf(stderr, "inconclusive: %s\n", e.why.c_str());
        r = 2;
    }
    fflush(nullptr);
    _exit(r);
}
