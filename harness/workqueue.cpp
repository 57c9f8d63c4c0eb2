// WorkQueue: order, exactly-once execution, shutdown.
#include "sym.h"
#include "WorkQueue.hpp"
#include <chrono>
#include <new>
using namespace gmlc::containers;
using Prio = WorkQueue::WorkPriority;
constexpr int MAXB = 16;
static int runs[MAXB];
static int order[MAXB];
static int nOrder;
static bool closed;
static uint32_t left;  // blocks that still have to run
struct Blk : BasicWorkBlock {
    int id;
    bool fin = false;
    explicit Blk(int i) : id(i) {}
    void execute() override
    {
        CHECK(!closed, "no block runs after the queue is closed");
        runs[id]++;
        CHECK(runs[id] == 1, "a block is executed at most once");
        fin = true;
        order[nOrder++] = id;
        sym_observe((uint64_t)id);
        left--;
    }
    bool isFinished() const override { return fin; }
};
// keeps the worker busy
static uint32_t entered, gate;
struct Gate : BasicWorkBlock {
    bool fin = false;
    void execute() override
    {
        entered = 1;
        sym_await(&gate, 0);
        fin = true;
    }
    bool isFinished() const override { return fin; }
};
// ------------------------------------------------------------------ order
struct Spec {
    int q[3][MAXB];  // medium, low, high
    int n[3] = {0, 0, 0};
    int ratio = 4;
    int sinceLow = 1000;    // medium blocks since the last low one that was taken while medium ones were queued
    int waitingLow = 0;     // medium blocks handed out while a low one was queued, since the last low one
    void add(int p, int id) { q[p][n[p]++] = id; }
    int total() const { return n[0] + n[1] + n[2]; }
    void drop(int p)
    {
        for (int i = 1; i < n[p]; i++) q[p][i - 1] = q[p][i];
        n[p]--;
    }
    // is id (or -1 for nothing) what may come out next?
    void next(int id)
    {
        if (total() == 0) {
            CHECK(id == -1, "an empty queue hands out nothing");
            return;
        }
        CHECK(id != -1, "a queue with blocks hands out one");
        if (n[2]) {
            CHECK(id == q[2][0], "high priority blocks come first, in the order they were added");
            drop(2);
            return;
        }
        bool med = n[0] && id == q[0][0], low = n[1] && id == q[1][0];
        CHECK(med || low, "blocks of one priority come in the order they were added");
        if (med) {
            if (n[1]) {
                CHECK(waitingLow < ratio, "a queued low priority block comes after at most N medium ones");
                waitingLow++;
            }
            sinceLow++;
            drop(0);
        } else if (low) {
            if (n[0]) {
                CHECK(sinceLow >= ratio, "with medium and low blocks queued, N medium ones come between two low ones");
                sinceLow = 0;
            }
            waitingLow = 0;
            drop(1);
        }
    }
};
static Prio prioOf(unsigned p) { return p == 0 ? Prio::medium : p == 1 ? Prio::low : p == 2 ? Prio::high : Prio::required; }
static int classOf(unsigned p) { return p == 3 ? 2 : (int)p; }
static int idOf(const std::shared_ptr<BasicWorkBlock>& b) { return b ? static_cast<Blk*>(b.get())->id : -1; }
static int nextId;
static std::shared_ptr<Blk> fresh()
{
    left++;
    return std::make_shared<Blk>(nextId++);
}
static void rest(WorkQueue& w, const Spec& s)
{
    CHECK(w.numBlock() == (size_t)s.total(), "numBlock() at rest is the number of queued blocks");
    CHECK(w.isEmpty() == (s.total() == 0), "isEmpty() at rest tells whether blocks are queued");
}
static void addSome(WorkQueue& w, Spec& s, unsigned prios)
{
    unsigned p = sym_choose("priority", prios);
    auto b = fresh();
    s.add(classOf(p), b->id);
    w.addWorkBlock(b, prioOf(p));
}
static int setRatio(WorkQueue& w, Spec& s)
{
    int r = sym_int("ratio", -3, 6);
    w.setPriorityRatio(r);
    s.ratio = r > 0 ? r : 4;
    return r;
}
// handed out one by one through getWorkBlock, additions in between
ENTRY(wq_order)
{
    int adds = (int)sym_param("adds", 3), ops = (int)sym_param("ops", 4);
    {
        WorkQueue w(1);
        w.addWorkBlock(std::make_shared<Gate>());
        sym_await(&entered, 0);
        Spec s;
        if (sym_param("ratio", 1)) setRatio(w, s);
        for (int i = 0; i < adds; i++) addSome(w, s, 3);
        rest(w, s);
        for (int i = 0; i < ops; i++) {
            switch (sym_choose("op", i + 1 < ops ? 3 : 1)) {
                case 0: {
                    int id = idOf(w.getWorkBlock());
                    s.next(id);
                    break;
                }
                case 1: addSome(w, s, 4); break;
                default: {
                    // a vector
                    std::vector<std::shared_ptr<BasicWorkBlock>> v;
                    unsigned p = sym_choose("priority", 3), n = sym_choose("length", 3);
                    for (unsigned k = 0; k < n; k++) {
                        auto b = fresh();
                        s.add(classOf(p), b->id);
                        v.push_back(b);
                    }
                    w.addWorkBlock(v, prioOf(p));
                    break;
                }
            }
            rest(w, s);
        }
        while (s.total()) s.next(idOf(w.getWorkBlock()));
        s.next(idOf(w.getWorkBlock()));
        rest(w, s);
        gate = 1;
    }
    sym_reach("end");
}
// long runs of medium and low blocks: every ratio, the numbers of blocks chosen up front, then a few later additions
ENTRY(wq_rotate)
{
    int maxr = (int)sym_param("maxratio", 3);
    {
        WorkQueue w(1);
        w.addWorkBlock(std::make_shared<Gate>());
        sym_await(&entered, 0);
        Spec s;
        int r = sym_int("ratio", 1, maxr);
        w.setPriorityRatio(r);
        s.ratio = r;
        unsigned first = sym_choose("medium first", (unsigned)sym_param("first", 3));
        for (unsigned i = 0; i < first; i++) {
            auto b = fresh();
            s.add(0, b->id);
            w.addWorkBlock(b, Prio::medium);
            if (sym_choose("take", 2)) s.next(idOf(w.getWorkBlock()));
        }
        unsigned nl = 1 + sym_choose("low", 3), nm = sym_choose("medium", (unsigned)sym_param("medium", 7));
        for (unsigned i = 0; i < nl + nm; i++) {
            auto b = fresh();
            bool low = i < nl;
            s.add(low ? 1 : 0, b->id);
            w.addWorkBlock(b, low ? Prio::low : Prio::medium);
        }
        int change = (int)sym_choose("change", 3);
        int k = 0;
        while (s.total()) {
            s.next(idOf(w.getWorkBlock()));
            if (change && k++ == 1) {
                if (change == 1)
                    setRatio(w, s);
                else {
                    auto b = fresh();
                    s.add(2, b->id);
                    w.addWorkBlock(b, Prio::high);
                }
            }
        }
        rest(w, s);
        gate = 1;
    }
    sym_reach("end");
}
// executed by the only worker
ENTRY(wq_exec_order)
{
    int adds = (int)sym_param("adds", 4);
    {
        WorkQueue w(1);
        Spec s;
        if (sym_param("ratio", 1)) setRatio(w, s);
        w.addWorkBlock(std::make_shared<Gate>());
        sym_await(&entered, 0);
        for (int i = 0; i < adds; i++) addSome(w, s, 3);
        gate = 1;
        w.setPriorityRatio(s.ratio);
        // waits for all
        while (left) {
            uint32_t l = left;
            sym_await(&left, l);
        }
        for (int i = 0; i < nOrder; i++) s.next(order[i]);
        CHECK(s.total() == 0, "every block is executed");
        w.closeWorkerQueue();
        closed = true;
    }
    sym_reach("end");
}
// ------------------------------------------------------------------ exactly once, shutdown
static WorkQueue* wp;
struct Add {
    int kind;  // 0 single, 1 vector of two, 2 single finished, 3 empty pointer, 4 vector with an empty pointer
    unsigned prio;
    std::shared_ptr<Blk> a, b;
};
static Add adds[4][3];
static int nAdds[4];
static void prepare(Add& x)
{
    x.kind = (int)sym_choose("kind", (unsigned)sym_param("kinds", 2));
    x.prio = sym_choose("priority", (unsigned)sym_param("prios", 2));
    if (x.kind <= 1) x.a = fresh();
    if (x.kind == 1) x.b = fresh();
    if (x.kind == 2) {
        x.a = std::make_shared<Blk>(nextId++);
        x.a->fin = true;
        if (x.prio == 3) sym_discard();
    }
    if (x.kind == 4) x.b = fresh();
}
static void add(Add& x)
{
    if (x.kind == 1 || x.kind == 4) {
        std::vector<std::shared_ptr<BasicWorkBlock>> v;
        v.reserve(2);
        v.push_back(x.a);
        v.push_back(x.b);
        wp->addWorkBlock(v, prioOf(x.prio));
    } else
        wp->addWorkBlock(x.a, prioOf(x.prio));
}
static void adder(void* p)
{
    int t = *(int*)p;
    for (int i = 0; i < nAdds[t]; i++) add(adds[t][i]);
}
static void finish(WorkQueue* w, int how)
{
    if (how) w->closeWorkerQueue();
    if (how == 2) w->closeWorkerQueue();
    w->~WorkQueue();
    closed = true;
}
// T adding threads of O additions each (T = 0: the main thread adds), W workers
ENTRY(wq_once)
{
    int T = (int)sym_param("threads", 0), O = (int)sym_param("ops", 2), W = (int)sym_param("workers", 1);
    bool early = sym_param("early", 0);  // closes without waiting
    auto live = sym_live_allocs();
    {
        alignas(WorkQueue) unsigned char mem[sizeof(WorkQueue)];
        int nt = T ? T : 1;
        for (int t = 0; t < nt; t++) {
            nAdds[t] = O;
            for (int i = 0; i < O; i++) prepare(adds[t][i]);
        }
        auto t0 = std::chrono::steady_clock::now();
        WorkQueue* w = new (mem) WorkQueue(W);
        wp = w;
        CHECK(w->getWorkerCount() == W, "the queue has the configured number of workers");
        int total = (int)left;
        if (T == 0) {
            int t = 0;
            adder(&t);
        } else {
            int id[4], no[4];
            for (int t = 0; t < T; t++) {
                no[t] = t;
                id[t] = sym_spawn(adder, &no[t]);
            }
            for (int t = 0; t < T; t++) sym_join(id[t]);
        }
        if (W == 0) CHECK(left == 0, "without workers a block is executed before the add returns");
        if (!early) {
            while (left) {
                uint32_t l = left;
                sym_await(&left, l);
            }
            if (sym_param("clock", 1)) CHECK(std::chrono::steady_clock::now() == t0, "no worker sleeps while there is work");
            CHECK(nOrder == total, "every block is executed");
        }
        finish(w, (int)sym_choose("shutdown", early ? 2 : 3));
        if (!early)
            for (int i = 0; i < nextId; i++) CHECK(runs[i] <= 1, "a block is executed at most once");
        for (auto& r : adds)
            for (auto& x : r) {
                x.a.reset();
                x.b.reset();
            }
    }
    CHECK(sym_live_allocs() == live, "the queue releases all memory");
    sym_reach("end");
}
// blocks that wait for each other: every idle worker is needed
static uint32_t partnerDone[MAXB];
struct Dep : Blk {
    int waitFor;
    Dep(int i, int w) : Blk(i), waitFor(w) {}
    void execute() override
    {
        if (waitFor >= 0) sym_await(&partnerDone[waitFor], 0);
        Blk::execute();
        partnerDone[id] = 1;
    }
};
ENTRY(wq_pair)
{
    int W = (int)sym_param("workers", 2);
    {
        bool vec = sym_choose("vector", 2);
        unsigned prios = (unsigned)sym_param("prios", 3);
        std::vector<std::shared_ptr<BasicWorkBlock>> v;
        unsigned p[4];
        for (int i = 0; i < W; i++) {
            p[i] = vec && i ? p[0] : sym_choose("priority", prios);
            left++;
            v.push_back(std::make_shared<Dep>(i, i + 1 < W ? i + 1 : -1));
        }
        unsigned when = sym_choose("idle", 2);
        auto t0 = std::chrono::steady_clock::now();
        WorkQueue w(W);
        if (when) {
            // a first block, so that the workers have been busy before
            left++;
            auto b = std::make_shared<Blk>(W);
            w.addWorkBlock(b);
            while (left == (uint32_t)W + 1) sym_await(&left, (uint32_t)W + 1);
        }
        if (vec)
            w.addWorkBlock(v, prioOf(p[0]));
        else
            for (int i = 0; i < W; i++) w.addWorkBlock(v[i], prioOf(p[i]));
        while (left) {
            uint32_t l = left;
            sym_await(&left, l);
        }
        CHECK(std::chrono::steady_clock::now() == t0, "no worker sleeps while there is work");
        w.closeWorkerQueue();
        closed = true;
    }
    sym_reach("end");
}
// blocks that use the queue they are executed by
struct Nest : Blk {
    std::shared_ptr<Blk> x, y;
    unsigned prio = 0, kind = 0;
    explicit Nest(int i) : Blk(i) {}
    void execute() override
    {
        if (kind & 2) Blk::execute();
        if (kind & 1) {
            std::vector<std::shared_ptr<BasicWorkBlock>> v;
            v.push_back(x);
            v.push_back(y);
            wp->addWorkBlock(v, prioOf(prio));
        } else {
            wp->addWorkBlock(x, prioOf(prio));
            if (y) wp->addWorkBlock(y, prioOf(prio));
        }
        sym_observe(0 * (wp->numBlock() + wp->isEmpty() + wp->getWorkerCount()));
        if (!(kind & 2)) Blk::execute();
        x.reset();
        y.reset();
    }
};
ENTRY(wq_nest)
{
    int W = (int)sym_param("workers", 1), N = (int)sym_param("nests", 1);
    bool early = sym_param("early", 0);
    auto live = sym_live_allocs();
    {
        alignas(WorkQueue) unsigned char mem[sizeof(WorkQueue)];
        std::vector<std::shared_ptr<BasicWorkBlock>> v;
        v.reserve(4);
        unsigned prio = sym_choose("priority", (unsigned)sym_param("prios", 3));
        for (int i = 0; i < N; i++) {
            auto n = std::make_shared<Nest>(nextId++);
            left++;
            n->kind = sym_choose("kind", 4);
            n->prio = sym_choose("priority", (unsigned)sym_param("prios", 3));
            n->x = fresh();
            if (n->kind & 1 || sym_choose("two", 2)) n->y = fresh();
            v.push_back(n);
        }
        auto t0 = std::chrono::steady_clock::now();
        WorkQueue* w = new (mem) WorkQueue(W);
        wp = w;
        int total = (int)left;
        if (N > 1 && sym_choose("vector", 2))
            w->addWorkBlock(v, prioOf(prio));
        else
            for (auto& b : v) w->addWorkBlock(b, prioOf(prio));
        if (W == 0) CHECK(left == 0, "without workers a block is executed before the add returns");
        if (!early) {
            while (left) {
                uint32_t l = left;
                sym_await(&left, l);
            }
            CHECK(std::chrono::steady_clock::now() == t0, "no worker sleeps while there is work");
            CHECK(nOrder == total, "every block is executed");
        }
        finish(w, (int)sym_choose("shutdown", 2));
        v.clear();
    }
    CHECK(sym_live_allocs() == live, "the queue releases all memory");
    sym_reach("end");
}
// every operation from several threads while workers run: memory accesses only
static void anyOp(void* p)
{
    Add& x = *(Add*)p;
    switch (x.kind) {
        case 0:
        case 1: add(x); break;
        case 2: wp->setPriorityRatio(2); break;
        case 3: sym_observe(0 * wp->numBlock()); break;
        case 4: sym_observe(0 * wp->isEmpty()); break;
        case 5: x.b = std::static_pointer_cast<Blk>(wp->getWorkBlock()); break;
        case 6: wp->getWorkerCount(); break;
        default: wp->closeWorkerQueue(); break;
    }
}
ENTRY(wq_any)
{
    int T = (int)sym_param("threads", 2), W = (int)sym_param("workers", 1), kinds = (int)sym_param("kinds", 8);
    auto live = sym_live_allocs();
    {
        int closes = 0;
        for (int t = 0; t < T; t++) {
            Add& x = adds[t][0];
            x.kind = (int)sym_choose("op", kinds);
            if (t && adds[t - 1][0].kind > x.kind) sym_discard();
            closes += x.kind == 7;
            x.prio = x.kind <= 1 ? sym_choose("priority", (unsigned)sym_param("prios", 2)) : 0;
            if (x.kind <= 1) x.a = fresh();
            if (x.kind == 1) x.b = fresh();
        }
        if (closes > 1) sym_discard();
        alignas(WorkQueue) unsigned char mem[sizeof(WorkQueue)];
        WorkQueue* w = new (mem) WorkQueue(W);
        wp = w;
        int id[4];
        for (int t = 0; t < T; t++) id[t] = sym_spawn(anyOp, &adds[t][0]);
        for (int t = 0; t < T; t++) sym_join(id[t]);
        finish(w, 0);
        for (int i = 0; i < nextId; i++) CHECK(runs[i] <= 1, "a block is executed at most once");
        for (auto& r : adds)
            for (auto& x : r) {
                x.a.reset();
                x.b.reset();
            }
    }
    CHECK(sym_live_allocs() == live, "the queue releases all memory");
    sym_reach("end");
}
