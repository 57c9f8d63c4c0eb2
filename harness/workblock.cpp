// WorkBlock: arming, running, results.  -DRET=0 int, 1 void, 2 a struct that can only be moved into the future once
#include "sym.h"
#include "WorkQueue.hpp"
#include <new>
using namespace gmlc::containers;
#ifndef RET
#define RET 0
#endif
struct Failure {
    unsigned v;
};
#if RET == 1
using R = void;
#elif RET == 2
struct R {
    unsigned a;
    long b;
};
#else
using R = unsigned;
#endif
static int runs[32];      // how often each function ran
static unsigned val[32];  // what it returns or throws
static bool fails[32];
static int nf;

static const BasicWorkBlock* current;  // the block being executed

struct Fn {
    int id;
    R operator()() const
    {
        runs[id]++;
        if (current) CHECK(!current->isFinished(), "a block is not finished while its function runs");
        if (fails[id]) throw Failure{val[id]};
#if RET == 0
        return val[id];
#elif RET == 2
        return R{val[id], (long)id};
#endif
    }
};
static int newFn(bool mayFail)
{
    val[nf] = (unsigned)sym_u64("value", 0, 0xffffffffu);
    fails[nf] = mayFail && sym_choose("fails", 2);
    runs[nf] = 0;
    return nf++;
}
static void deliver(std::shared_future<R> f, int id, bool direct, WorkBlock<R>& b)
{
    bool threw = false;
    unsigned got = 0;
    try {
#if RET == 0
        got = direct ? b.getReturnVal() : f.get();
#elif RET == 2
        R r = direct ? b.getReturnVal() : f.get();
        got = r.a;
        CHECK(r.b == id, "the result is what the function returned");
#else
        if (direct)
            b.getReturnVal();
        else
            f.get();
        got = val[id];
#endif
    }
    catch (const Failure& e) {
        threw = true;
        got = e.v;
    }
    if (RET == 1 && direct) return;  // only waits
    CHECK(threw == fails[id], "the result is an exception exactly when the function threw");
    CHECK(got == val[id], "the result is what the function returned or threw");
    sym_observe(got);
}
struct Model {
    int fn = -1;      // current function, -1 none
    bool done = false;
    int ran[32] = {};
};
static void check(WorkBlock<R>& b, Model& m, std::shared_future<R>* early)
{
    CHECK(b.isFinished() == m.done, "isFinished() is true exactly after the run until the next arming");
    for (int i = 0; i < nf; i++) CHECK(runs[i] == m.ran[i], "the function runs exactly once per arming");
    if (m.done && m.fn >= 0) {
        b.wait();
        deliver(b.get_future(), m.fn, false, b);
        deliver(b.get_future(), m.fn, true, b);
        if (early) deliver(*early, m.fn, false, b);
    }
}
ENTRY(block_history)
{
    int ops = (int)sym_param("ops", 4);
    auto live = sym_live_allocs();
    {
        nf = 0;
        Model m;
        alignas(WorkBlock<R>) unsigned char mem[sizeof(WorkBlock<R>)];
        WorkBlock<R>* b = nullptr;
        std::unique_ptr<WorkBlock<R>> up;
        std::shared_ptr<WorkBlock<R>> sp;
        unsigned how = sym_choose("construct", 8);
        bool mayFail = sym_param("fail", 1);
        if (how != 5) m.fn = newFn(mayFail);
        switch (how) {
            case 0: b = new (mem) WorkBlock<R>(Fn{m.fn}); break;
            case 1: b = new (mem) WorkBlock<R>(std::packaged_task<R()>(Fn{m.fn})); break;
            case 2:
                up = make_workBlock(Fn{m.fn});
                b = up.get();
                break;
            case 3:
                sp = make_shared_workBlock(Fn{m.fn});
                b = sp.get();
                break;
            case 4: {
                WorkBlock<R> t(Fn{m.fn});
                b = new (mem) WorkBlock<R>(std::move(t));
                break;
            }
            case 6:
                up = make_workBlock(std::packaged_task<R()>(Fn{m.fn}));
                b = up.get();
                break;
            case 7:
                sp = make_shared_workBlock(std::packaged_task<R()>(Fn{m.fn}));
                b = sp.get();
                break;
            default: b = new (mem) WorkBlock<R>(); break;
        }
        check(*b, m, nullptr);
        for (int i = 0; i < ops; i++) {
            std::shared_future<R> early;
            bool haveEarly = false;
            switch (sym_choose("op", 5)) {
                case 0:
                    if (m.fn >= 0) {
                        early = b->get_future();
                        haveEarly = true;
                    }
                    current = b;
                    b->execute();
                    current = nullptr;
                    if (!m.done && m.fn >= 0) m.ran[m.fn]++;
                    m.done = true;
                    break;
                case 1:
                    b->reset();
                    m.done = false;
                    break;
                case 2:
                    m.fn = newFn(mayFail);
                    b->updateWorkFunction(Fn{m.fn});
                    m.done = false;
                    break;
                case 3:
                    m.fn = newFn(mayFail);
                    b->updateTask(std::packaged_task<R()>(Fn{m.fn}));
                    m.done = false;
                    break;
                default: {
                    // through the interface of the base class
                    BasicWorkBlock& w = *b;
                    CHECK(w.isFinished() == m.done, "isFinished() is true exactly after the run until the next arming");
                    current = &w;
                    w.execute();
                    current = nullptr;
                    if (!m.done && m.fn >= 0) m.ran[m.fn]++;
                    m.done = true;
                    break;
                }
            }
            check(*b, m, haveEarly ? &early : nullptr);
        }
        if (sym_choose("move", 2)) {
            WorkBlock<R> c{Fn{newFn(false)}};
            if (sym_choose("assign", 2)) {
                c = std::move(*b);
                check(c, m, nullptr);
                current = &c;
                c.execute();
                current = nullptr;
                if (!m.done && m.fn >= 0) m.ran[m.fn]++;
                m.done = true;
                check(c, m, nullptr);
            } else {
                WorkBlock<R> d(std::move(*b));
                check(d, m, nullptr);
                current = &d;
                d.execute();
                current = nullptr;
                if (!m.done && m.fn >= 0) m.ran[m.fn]++;
                m.done = true;
                check(d, m, nullptr);
            }
        }
        if (!up && !sp) b->~WorkBlock<R>();
    }
    CHECK(sym_live_allocs() == live, "the block releases all memory");
    sym_reach("end");
}
ENTRY(block_null)
{
    NullWorkBlock n;
    CHECK(n.isFinished(), "a null block is finished");
    n.execute();
    CHECK(n.isFinished(), "a null block is finished");
    sym_reach("end");
}
// one thread runs the block, others wait for its result
static WorkBlock<R>* shared;
static void runner(void*) { shared->execute(); }
static void waiter(void* p)
{
    int* how = (int*)p;
    if (*how == 0)
        shared->wait();
    else if (*how == 1)
        deliver(shared->get_future(), 0, true, *shared);
    else
        deliver(shared->get_future(), 0, false, *shared);
}
ENTRY(block_wait)
{
    nf = 0;
    newFn(true);
    int how[2] = {(int)sym_choose("how", 3), (int)sym_choose("how", 3)};
    int n = (int)sym_param("waiters", 2);
    WorkBlock<R> b(Fn{0});
    shared = &b;
    int w[2];
    for (int i = 0; i < n; i++) w[i] = sym_spawn(waiter, &how[i]);
    int r = sym_spawn(runner, nullptr);
    for (int i = 0; i < n; i++) sym_join(w[i]);
    sym_join(r);
    CHECK(b.isFinished() && runs[0] == 1, "the function runs exactly once per arming");
    deliver(b.get_future(), 0, true, b);
    sym_reach("end");
}
