#pragma once
#include "solver.h"
#include "state.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <chrono>
#include <functional>
#include <unordered_map>
#include <unordered_set>

namespace sx {
struct Leaf {
    uint64_t off;
    unsigned w;  // bits
};
struct DI {
    mutable bool hit = false;
    const llvm::Instruction* I = nullptr;
    unsigned op = 0;
    int dst = -1;
    int nd = 0;                 // result leaves
    std::vector<int> ops;       // operand refs: >=0 slot, <0 constant pool index ~x
    std::vector<unsigned> w;    // operand leaf width (first leaf)
    // gep
    int64_t gconst = 0;
    std::vector<std::pair<int, std::pair<unsigned, uint64_t>>> gidx;  // ref,(width,scale)
    // call
    Func* callee = nullptr;
    int intr = 0;  // index of builtin handler
    int t0 = -1, t1 = -1;  // branch targets (blocks)
};
struct Func {
    const llvm::Function* F = nullptr;
    std::string name;
    bool decoded = false;
    bool quietAtomics = false;  // reference counting: no scheduling point
    int nslots = 0;
    std::vector<DI> code;
    std::vector<int> blockStart;
    std::vector<std::vector<std::pair<int, std::vector<std::pair<int, int>>>>> phis;  // block -> (dst -> (predBlock, ref))
    std::vector<Val> consts;
    std::vector<int> argSlot;
    std::vector<std::vector<uint64_t>> liveIn;  // per instruction, lazily for calls
    bool liveDone = false;
    uint64_t addr = 0;
    bool executed = false;
};

struct Fork {
    E cond;      // holds on the current model
    ModelP other;
};
struct PathEnd {
    std::string why;
};
struct Yield {};
struct Inconclusive {
    std::string why;
};
struct Bug {
    std::string kind, msg;
};

struct Violation {
    std::string kind, msg, where;
    std::string json;
};

struct Config {
    std::string entry = "harness";
    std::map<std::string, uint64_t> params;
    uint64_t maxSteps = 20000000;     // per path
    double timeLimit = 600;
    int maxTimeouts = 1, maxSpurious = 0, maxPreempt = -1;
    bool race = false;
    bool chain = false;  // runs forced steps inline instead of comparing every state
    bool threadsMode = false;
    uint64_t seed = 1;
    int samples = 3;
    int shard = 0, shards = 1, shardDepth = 3;
    size_t maxFrontier = 60000;
    int cycleLevel = 160;  // from this many scheduling decisions on, look for states that were there before
    uint64_t maxMB = 3600;
    bool bfs = false;
};

class Exec {
  public:
    Exec(llvm::Module& M, Config& cfg);
    int run(const std::string& outFile);

  private:
    friend struct Builtins;
    llvm::Module& M;
    const llvm::DataLayout& DL;
    Config& cfg;
    std::unordered_map<const llvm::Function*, Func*> funcs;
    std::unordered_map<uint64_t, Func*> funcByAddr;
    std::unordered_map<const llvm::GlobalVariable*, uint32_t> globalId;
    std::vector<const llvm::GlobalVariable*> globalVar;
    std::vector<ObjP> globalInit;
    std::unordered_map<std::string, uint32_t> symByName;
    std::unordered_map<uint64_t, uint32_t> undefArr;
    std::unordered_map<const llvm::Type*, std::vector<Leaf>> leafMemo;

    // results
    std::vector<Violation> viols;
    std::set<std::string> incon;
    std::map<std::string, uint64_t> reached;
    std::set<std::string> executedFns;
    uint64_t nPaths = 0, nForks = 0, nSteps = 0, nStates = 0, nTrans = 0, nAssumeDrop = 0, nMerged = 0, nAsserts = 0, nMemChecks = 0, nOther = 0;
    int maxLevel = 0;
    std::vector<std::string> samples;
    uint64_t rng;
    std::chrono::steady_clock::time_point t0;
    bool stop = false;

    // ---- setup
    const std::vector<Leaf>& leaves(const llvm::Type* T);
    Func* getFunc(const llvm::Function* F);
    void decode(Func* f);
    void liveness(Func* f);
    uint32_t getGlobal(const llvm::GlobalVariable* G);
    uint64_t globalAddr(const llvm::GlobalVariable* G);
    void constLeaves(const llvm::Constant* C, std::vector<Val>& out);
    uint64_t constInt(const llvm::Constant* C);
    void initBytes(const llvm::Constant* C, Flat& f, uint64_t off);
    unsigned widthOf(const llvm::Type* T);

    // ---- evaluation
    Val operand(State& s, const DI& d, int i, int leaf = 0)
    {
        int r = d.ops[i];
        Frame& fr = s.th[s.cur].st.back();
        return r >= 0 ? fr.regs[r + leaf] : fr.f->consts[~r + leaf];
    }
    Val refVal(State& s, int r, int leaf = 0)
    {
        Frame& fr = s.th[s.cur].st.back();
        return r >= 0 ? fr.regs[r + leaf] : fr.f->consts[~r + leaf];
    }
    void setReg(State& s, int dst, const Val& v) { s.th[s.cur].st.back().regs[dst] = v; }
    bool decide(State& s, E cond);
    void assume(State& s, E cond);
    uint64_t concretize(State& s, const Val& v, unsigned w);
    void check(State& s, E cond, const char* kind, const std::string& msg);

    // ---- memory
    ObjP* findSlot(State& s, uint64_t addr, bool& known);
    Obj* resolve(State& s, const Val& addr, const Val& n, bool write, Val& off);
    Obj* mutObj(State& s, uint64_t base);
    ObjP newObj(State& s, uint64_t base, Val size, uint64_t maxSize, ObjKind k);
    uint64_t allocHeap(State& s, Val size, ObjKind k, uint64_t align = 16);
    uint64_t allocStack(State& s, Val size, uint64_t maxSize);
    void freeHeap(State& s, const Val& p, ObjKind k, const Val* size = nullptr);
    Cell readCell(State& s, const Content& c, const Val& off);
    void readCells(State& s, const Content& c, const Val& off, unsigned n, std::vector<Cell>& out);
    void readNode(State& s, const Content& c, const Node* nd, const Val& off, unsigned n, std::vector<Cell>& out);
    void readFrom(State& s, const Content& c, const Flat* fl, const Node* nx, const Val& off, unsigned n,
                  std::vector<Cell>& out);
    void writeCells(Obj* o, const Val& off, const std::vector<Cell>& cells);
    Val load(State& s, const Val& addr, unsigned w);
    void store(State& s, const Val& addr, const Val& v, unsigned w);
    void memCopy(State& s, const Val& d, const Val& src, const Val& n, bool move);
    void memSet(State& s, const Val& d, const Val& b, const Val& n);
    uint32_t undefArray(uint64_t tag);
    void touch(State& s, const Val& addr, const Val& n, bool write);

    // ---- instructions
    void step(State& s);
    void exec(State& s, const DI& d);
    void jump(State& s, int block);
    void doCall(State& s, const DI& d);
    void pushFrame(State& s, Func* f, const std::vector<Val>& args, int retSlot, bool isInvoke);
    void callDone(State& s, const DI& d);  // advance after a completed builtin call
    void doReturn(State& s, const std::vector<Val>& v);
    void throwExc(State& s, uint64_t obj);
    uint64_t throwStd(State& s, const char* tiName);
    bool typeMatches(uint64_t thrown, uint64_t want);
    std::vector<uint64_t> baseTypes(uint64_t ti);
    uint64_t typeId(uint64_t ti);
    std::map<uint64_t, uint64_t> typeIds;
    Val binop(State& s, unsigned op, const Val& a, const Val& b, unsigned w, const llvm::Instruction* I);
    Val icmp(unsigned pred, const Val& a, const Val& b, unsigned w);
    void popFrameObjs(State& s, size_t mark);
    std::string where(State& s);
    std::string cstr(State& s, uint64_t a);

    // ---- threads
    bool multi(State& s);
    void visible(State& s, PendKind k, uint64_t a = 0, uint64_t b = 0);
    bool enabled(State& s, int t);
    struct Ch {
        int t;
        int kind;
    };
    std::vector<Ch> choices(State& s, bool& idle);
    void schedule(State& s, std::vector<State>& out);
    void releaseEdge(State& s);
    bool lockOp(State& s, uint64_t m);
    void unlockOp(State& s, uint64_t m);
    void wake(State& s, uint64_t c, bool all);
    int spawn(State& s, Func* f, const std::vector<Val>& args);
    void raceCheck(State& s, const Access& a);

    // ---- exploration
    void explore(State init);
    void runLocal(State s, std::vector<State>& parked);
    uint64_t hashState(State& s);
    std::pair<uint64_t, uint64_t> visitKey(State& s, uint64_t h);
    bool seenBefore(State& s, uint64_t h);
    std::map<std::pair<uint64_t, uint64_t>, E> visited;
    bool equalState(State& a, State& b);
    void mergeInto(State& a, State& b);
    void pathDone(State& s);
    void report(State& s, const Bug& b, const ModelP& m);
    std::string traceJson(State& s, const Model& m);
    uint32_t inputSym(State& s, const std::string& name, unsigned w, uint64_t lo, uint64_t hi);
    uint32_t namedSym(const std::string& name, unsigned w, uint64_t lo, uint64_t hi, int kind);
    void writeOut(const std::string& f);
    typedef std::function<void(Exec&, State&, const DI&)> Handler;
    std::vector<Handler> handlers;
    std::unordered_map<std::string, int> handlerByName;
    void registerBuiltins();
    int findHandler(const std::string& name);
    bool timeUp();
};
std::string jstr(const std::string& s);
}  // namespace sx
