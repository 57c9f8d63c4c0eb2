// Symbolic machine state: memory objects with symbolic contents, threads, synchronisation objects.
#pragma once
#include "expr.h"
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace sx {
struct Val {
    uint64_t c = 0;
    E e = nullptr;  // null: the concrete value c
    Val() {}
    Val(uint64_t v) : c(v) {}
    bool operator==(const Val& o) const { return e == o.e && (e || c == o.c); }
    bool operator!=(const Val& o) const { return !(*this == o); }
};
static inline Val VE(E e)
{
    Val v;
    if (e->k == K::Const)
        v.c = e->c;
    else
        v.e = e;
    return v;
}
static inline E toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

// one byte: concrete, or byte `idx` of expression e
struct Cell {
    E e = nullptr;
    uint8_t idx = 0;
    uint8_t v = 0;
    bool operator==(const Cell& o) const { return e == o.e && (e ? idx == o.idx : v == o.v); }
};
static inline E cellE(const Cell& c) { return c.e ? mkExtract(c.e, c.idx * 8, 8) : mkConst(c.v, 8); }

struct Flat {
    std::vector<uint8_t> v, k;  // k: 0 unset, 1 concrete, 2+i byte i of sym
    std::vector<E> sym;
    void need(size_t n)
    {
        if (v.size() < n) {
            v.resize(n, 0);
            k.resize(n, 0);
            if (!sym.empty()) sym.resize(n, nullptr);
        }
    }
    bool has(size_t i) const { return i < k.size() && k[i]; }
    Cell get(size_t i) const
    {
        Cell c;
        if (k[i] == 1)
            c.v = v[i];
        else {
            c.e = sym[i];
            c.idx = k[i] - 2;
        }
        return c;
    }
    void set(size_t i, const Cell& c)
    {
        if (!c.e) {
            k[i] = 1;
            v[i] = c.v;
        } else {
            if (sym.empty()) sym.resize(v.size(), nullptr);
            k[i] = 2 + c.idx;
            v[i] = 0;
            sym[i] = c.e;
        }
    }
    bool any() const
    {
        for (auto x : k)
            if (x) return true;
        return false;
    }
};
struct Node;
struct Content {
    std::shared_ptr<Flat> flat;
    std::shared_ptr<const Node> older;
    uint32_t arr = 0xFFFFFFFF;  // base array (0xFFFFFFFF: none yet / zero)
    bool zero = false;
    uint64_t tag = 0;  // address used to name uninitialised contents
};
struct Node {
    enum { W, C, S } kind;
    Val off, len;
    std::vector<Cell> cells;     // W
    Content src;                 // C
    Val soff;                    // C
    Cell fill;                   // S
    std::shared_ptr<Flat> flat;  // older flat layer under this update
    std::shared_ptr<const Node> next;
};
enum ObjKind : uint8_t { ONew, ONewArr, OMalloc, OExc, OStack, OGlobal };
struct Obj {
    uint64_t base;
    Val size;
    uint64_t maxSize;
    ObjKind kind;
    bool ro = false;
    uint32_t align = 16;
    Content c;
    mutable uint64_t hash = 0;
    mutable bool hashed = false;
};
typedef std::shared_ptr<Obj> ObjP;

struct Func;
struct Frame {
    Func* f = nullptr;
    int pc = 0;    // index into the flattened instruction list
    int prev = -1; // previous block (for phi)
    std::vector<Val> regs;
    size_t stackMark = 0;   // stack height on entry
    int retSlot = -1;       // caller slot for the result
    bool isInvoke = false;  // called through invoke
};
struct Access {
    uint64_t addr;
    uint32_t len;
    bool write;
    const void* where;
    bool operator<(const Access& o) const
    {
        return addr != o.addr ? addr < o.addr : len != o.len ? len < o.len : write < o.write;
    }
    bool operator==(const Access& o) const { return addr == o.addr && len == o.len && write == o.write; }
};
enum PendKind : uint8_t { PNone, PStart, PAny, PLock, PJoin, PWaiting, PReacquire, PFutex };
struct Thread {
    std::vector<Frame> st;
    bool done = false;
    // scheduling
    PendKind pend = PNone;
    uint64_t pa = 0, pb = 0;
    bool timed = false;     // timed wait
    bool timedOut = false;
    uint64_t deadline = 0;
    // exceptions
    std::vector<uint64_t> caught;
    uint64_t unwinding = 0;
    uint32_t seq = 0;       // inputs consumed
    std::vector<Access> seg;  // plain accesses since the last synchronisation operation
};
struct ExcInfo {
    uint64_t tinfo = 0;
    int refs = 0;
    int handlers = 0;
    bool operator==(const ExcInfo& o) const { return tinfo == o.tinfo && refs == o.refs && handlers == o.handlers; }
};
struct State {
    std::vector<E> pc;
    ModelP model;
    std::vector<Thread> th;
    int cur = 0;
    bool granted = false;
    std::vector<std::vector<ObjP>> heap;   // per thread; null = freed
    std::vector<std::vector<ObjP>> stack;  // per thread
    std::map<uint32_t, ObjP> globals;      // written globals
    std::map<uint64_t, int> mutexOwner;
    std::map<uint64_t, std::vector<int>> waiters;
    std::map<uint64_t, ExcInfo> exc;
    std::vector<std::pair<std::string, Val>> observed;
    int64_t liveAllocs = 0;
    uint64_t clock = 1000000000ULL;
    int level = 0;       // scheduling decisions taken
    int timeouts = 0;    // early timeouts taken
    int spurious = 0;    // spurious wakeups taken
    int preempt = 0;     // preemptions taken
    int lastRun = -1;
    uint64_t steps = 0;
    int forks = 0;
    uint64_t chooseHash = 1;
    int chooseCount = 0;
    std::vector<std::pair<uint32_t, std::pair<int, int>>> inputs;  // symbol, (thread, seq)
};
}  // namespace sx
