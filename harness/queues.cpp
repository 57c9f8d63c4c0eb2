// SimpleQueue, BlockingQueue and BlockingPriorityQueue: -DQ=0,1,2.
#include "sym.h"
#include <chrono>
#include <new>
#include <optional>
#include <sched.h>
#include <thread>
#include <utility>
#include <vector>
#ifndef Q
#define Q 0
#endif
#if Q == 0
#include "SimpleQueue.hpp"
#elif Q == 1
#include "BlockingQueue.hpp"
#else
#include "BlockingPriorityQueue.hpp"
#endif
using namespace gmlc::containers;

// An element: a tag, a payload of any value, and the state a move leaves behind.
struct Item {
    int id = -1;
    unsigned pay = 0;
    Item() = default;
    Item(int i, unsigned p) : id(i), pay(p) {}
    Item(const Item&) = default;
    Item& operator=(const Item&) = default;
    Item(Item&& o) noexcept : id(o.id), pay(o.pay) { o.id = -2; }
    Item& operator=(Item&& o) noexcept
    {
        id = o.id;
        pay = o.pay;
        if (this != &o) o.id = -2;
        return *this;
    }
};
#if Q == 0
using Queue = SimpleQueue<Item>;
#elif Q == 1
using Queue = BlockingQueue<Item>;
#else
using Queue = BlockingPriorityQueue<Item>;
#endif

// ------------------------------------------------------------------ what each operation may observe
// The records are updated in the same step as the first or last action of an operation, so they bound the moments at
// which the operation can have taken effect.
constexpr int MAXI = 24, MAXT = 5;
struct Log {
    unsigned pay[MAXI];
    int owner[MAXI];
    int prio[MAXI];
    int state[MAXI];      // 0 not pushed, 1 push started, 2 push done, bit 4: returned
    unsigned before[MAXI];  // elements of the class that have to come out earlier
    int n = 0;
    unsigned out = 0;  // returned
    unsigned late = 0;  // elements that may not be returned by a pop that starts now
    // pops in progress
    bool active[MAXT] = {};
    int low[MAXT] = {}, lowp[MAXT] = {};  // least number of (priority) elements certainly in the queue during the pop
    unsigned late0[MAXT] = {};
};
static Log L;
static Queue* qp;
static bool cleared;      // elements may vanish
static bool checkSafety;  // what comes out; otherwise only progress, timeouts and callbacks

static int certainly(bool prio, int self)
{
    int c = 0;
    for (int i = 0; i < L.n; i++)
        if ((L.state[i] & 3) == 2 && !(L.state[i] & 4) && (!prio || L.prio[i])) c++;
    for (int t = 0; t < MAXT; t++)
        if (t != self && L.active[t]) c--;
    return c;
}
static void note()
{
    for (int t = 0; t < MAXT; t++)
        if (L.active[t]) {
            int a = certainly(false, t), b = certainly(true, t);
            if (a < L.low[t]) L.low[t] = a;
            if (b < L.lowp[t]) L.lowp[t] = b;
        }
}
static int newItem(bool prio, int owner)
{
    int i = L.n++;
    L.pay[i] = (unsigned)sym_u64("payload", 0, 0xffffffffu);
    L.prio[i] = prio;
    L.owner[i] = owner;
    L.state[i] = 0;
    return i;
}
static void pushStart(int i)
{
    L.state[i] = 1;
    unsigned m = 0;
    for (int j = 0; j < L.n; j++)
        if (j != i && L.prio[j] == L.prio[i] && (L.prio[i] || L.owner[j] == L.owner[i]) && (L.state[j] & 3) == 2) m |= 1u << j;
    L.before[i] = m;
}
static void pushDone(int i)
{
    L.state[i] = (L.state[i] & 4) | 2;
    note();
}
static void popStart()
{
    int t = sym_thread_id();
    L.active[t] = true;
    L.low[t] = certainly(false, t);
    L.lowp[t] = certainly(true, t);
    L.late0[t] = L.late;
    note();
}
static void popEnd()
{
    int t = sym_thread_id();
    L.active[t] = false;
    L.low[t] = L.lowp[t] = 0;
    L.late0[t] = 0;
    note();
}
#define SAFE(c, m)                  \
    do {                            \
        if (checkSafety) CHECK(c, m); \
    } while (0)
static void got(const Item& v)
{
    int t = sym_thread_id();
    SAFE(v.id >= 0 && v.id < L.n, "only pushed elements come out of the queue, with their contents");
    int i = v.id;
    if (i < 0 || i >= L.n) return;
    SAFE((L.state[i] & 3) >= 1, "an element comes out of the queue only after its push started");
    SAFE(!(L.state[i] & 4), "an element comes out of the queue at most once");
    SAFE(v.pay == L.pay[i], "an element comes out of the queue unchanged");
    SAFE(!(L.late0[t] >> i & 1), "elements come out in push order");
    if (!L.prio[i] && !cleared) SAFE(L.lowp[t] < 1, "priority elements come out before normal ones");
    sym_observe((uint64_t)v.id);
    sym_observe(v.pay);
    L.state[i] |= 4;
    L.out |= 1u << i;
    L.late = (L.late | L.before[i]) & ~L.out;
    L.before[i] = 0;
    popEnd();
}
static void none()
{
    int t = sym_thread_id();
    if (!cleared) SAFE(L.low[t] < 1, "a pop finds nothing only when the queue was empty at some moment during the call");
    sym_observe(99);
    popEnd();
}
static void popOpt(std::optional<Item>&& v)
{
    if (v)
        got(*v);
    else
        none();
}

// ------------------------------------------------------------------ operations
enum Op { OPush, OPushL, OEmplace, OPushVec, OPrio, OEmplacePrio, OPop, OTry, OTimed, OCall, OCallPush, OPushVec0, OPeek, OSize, OEmpty, OReserve, OClear };
static bool isPush(int o) { return o <= OEmplacePrio || o == OPushVec0; }
static int pushes(int o) { return o == OPushVec ? 2 : o == OPushVec0 ? 0 : isPush(o) ? 1 : 0; }
static int pops(int o) { return isPush(o) || o >= OPeek ? 0 : 1; }
static void doPush(int o, int i)
{
    Queue& q = *qp;
    if (o == OPushVec || o == OPushVec0) {
#if Q == 0
        std::vector<Item> v;
        int a = -1, b = -1;
        if (o == OPushVec) {
            a = i;
            b = i + 1;
            v.reserve(2);
            v.emplace_back(a, L.pay[a]);
            v.emplace_back(b, L.pay[b]);
            pushStart(a);
            L.state[a] = 2;
            pushStart(b);
            L.state[a] = 1;
        }
        q.pushVector(v);
        if (a >= 0) {
            pushDone(a);
            pushDone(b);
            CHECK(v.size() == 2 && v[0].id == a && v[1].id == b, "pushVector leaves its argument alone");
        }
#endif
        return;
    }
    if (o == OPrio || o == OEmplacePrio) sched_yield();
    pushStart(i);
    switch (o) {
        case OPush: q.push(Item(i, L.pay[i])); break;
        case OPushL: {
            Item x(i, L.pay[i]);
            q.push(x);
            CHECK(x.id == i && x.pay == L.pay[i], "pushing an lvalue leaves it alone");
            break;
        }
        case OEmplace: q.emplace(i, L.pay[i]); break;
#if Q == 2
        case OPrio: q.pushPriority(Item(i, L.pay[i])); break;
        case OEmplacePrio: q.emplacePriority(i, L.pay[i]); break;
#endif
        default: break;
    }
    pushDone(i);
}
// reserves the elements an operation pushes, so that their tags do not depend on the schedule
static int items(int o, int owner)
{
    int i = -1;
    int n = o == OCallPush ? 1 : pushes(o);
    for (int k = 0; k < n; k++) {
        int j = newItem(o == OPrio || o == OEmplacePrio, owner);
        if (k == 0) i = j;
    }
    return i;
}
// operations that neither add nor return elements
static void other(int o)
{
    Queue& q = *qp;
    unsigned out0 = L.out;
    switch (o) {
        case OPeek: {
#if Q == 0
            auto v = q.peek();
#else
            auto v = q.try_peek();
#endif
            if (v) {
                SAFE(v->id >= 0 && v->id < L.n, "peek shows only pushed elements, with their contents");
                if (v->id < 0 || v->id >= L.n) return;
                SAFE((L.state[v->id] & 3) >= 1 && v->pay == L.pay[v->id], "peek shows only pushed elements, with their contents");
                SAFE(!(out0 >> v->id & 1), "peek does not show an element that was popped before");
            }
            break;
        }
        case OSize:
#if Q != 2
        {
            popStart();
            size_t n = q.size();
            int t = sym_thread_id();
            if (!cleared) SAFE((int)n >= L.low[t], "size() counts the elements in the queue");
            SAFE((int)n <= L.n, "size() counts the elements in the queue");
            popEnd();
        }
#endif
        break;
        case OEmpty: sym_observe(q.empty()); break;
        case OReserve: q.reserve(3); break;
        case OClear: q.clear(); break;
        default: break;
    }
}
static void doOp(int o, int i)
{
    Queue& q = *qp;
    if (isPush(o)) {
        doPush(o, i);
        return;
    }
    sched_yield();
    if (o >= OPeek) return other(o);
    popStart();
    switch (o) {
#if Q == 0
        case OPop: popOpt(q.pop()); break;
#else
        case OPop: got(q.pop()); break;
        case OTry: popOpt(q.try_pop()); break;
        case OTimed: {
            auto t0 = std::chrono::steady_clock::now();
            auto v = q.pop(std::chrono::milliseconds(10));
            if (!v) CHECK(std::chrono::steady_clock::now() - t0 >= std::chrono::milliseconds(10), "a timed pop gives up only after its timeout");
            popOpt(std::move(v));
            break;
        }
        case OCall:
        case OCallPush: {
            int calls = 0;
            int t = sym_thread_id();
            got(q.popOrCall([&]() {
                CHECK(L.low[t] < 1, "popOrCall calls back only when the queue was empty at some moment during the call");
                if (calls < 2) {
                    popEnd();
                    if (o == OCallPush && calls == 0) doPush(OPush, i);
                    popStart();
                }
                calls++;
            }));
            break;
        }
#endif
        default: break;
    }
}
// ------------------------------------------------------------------ concurrent programs
struct Prog {
    int n = 0;
    int op[4];
    int item[4];
};
static Prog prog[MAXT];
static void body(void* p)
{
    Prog& g = *(Prog*)p;
    for (int i = 0; i < g.n; i++) doOp(g.op[i], g.item[i]);
}
static void drain(bool state)
{
    Queue& q = *qp;
    while (true) {
        int left = 0;
        for (int i = 0; i < L.n; i++)
            if (!(L.state[i] & 4)) left++;
        if (state) {
            CHECK(q.empty() == (left == 0), "empty() at rest tells whether elements remain");
#if Q != 2
            CHECK(q.size() == (size_t)left, "size() at rest is the number of remaining elements");
#endif
        }
        popStart();
#if Q == 0
        auto pk = q.peek();
        auto v = q.pop();
#else
        auto pk = q.try_peek();
        auto v = q.try_pop();
#endif
        if (state) {
            CHECK(pk.has_value() == v.has_value(), "peek at rest shows an element exactly when pop returns one");
            if (v) CHECK(pk->id == v->id && pk->pay == v->pay, "peek at rest is the element the next pop returns");
        }
        bool any = v.has_value();
        if (!any && !cleared) SAFE(left == 0, "every pushed element is popped or still in the queue");
        popOpt(std::move(v));
        if (!any) break;
    }
}
// Chooses the programs of T threads with O operations each out of the given set, such that the elements pushed before any
// wait are enough for all pops (enough).
static int chooseProgs(int T, int O, const int* set, int nset, int pre, bool enough, bool any = false)
{
    int np = pre, nq = 0;
    for (int t = 0; t < T; t++) {
        prog[t].n = 0;
        bool mayWait = false;
        for (int k = 0; k < O; k++) {
            int o = set[sym_choose("op", nset)];
            // an element counts when its thread pushes it before any pop that may wait
            if (!mayWait) np += pushes(o);
            nq += pops(o);
            if (enough && (o == OPop || o == OCall || o == OCallPush)) mayWait = true;
            prog[t].op[prog[t].n++] = o;
        }
        // threads are interchangeable
        if (t > 0) {
            for (int k = 0; k < O; k++) {
                if (prog[t - 1].op[k] < prog[t].op[k]) break;
                if (prog[t - 1].op[k] > prog[t].op[k]) sym_discard();
            }
        }
    }
    if (!any && (nq == 0 || np == 0)) sym_discard();
    if (enough && np < nq) sym_discard();
    if (np > MAXI - 4) sym_discard();
    return np;
}
static void run(Queue& q, bool state, int T, int pre)
{
    for (int i = 0; i < pre; i++) {
#if Q == 2
        int o = sym_param("prepri", 0) == 1 && i == 0 ? OPrio : OPush;
#else
        int o = OPush;
#endif
        doPush(o, items(o, 0));
    }
    for (int t = 0; t < T; t++)
        for (int k = 0; k < prog[t].n; k++) prog[t].item[k] = items(prog[t].op[k], t + 1);
    int id[MAXT];
    for (int t = 0; t < T; t++) id[t] = sym_spawn(body, &prog[t]);
    for (int t = 0; t < T; t++) sym_join(id[t]);
    sym_reach("joined");
    drain(state);
    sym_reach("end");
}
static void conc(bool state, const int* set, int nset, bool enough)
{
    int T = (int)sym_param("threads", 2), O = (int)sym_param("ops", 2);
    Queue q;
    qp = &q;
    int pre = sym_choose("preloaded", 1 + (unsigned)sym_param("premax", 2));
    chooseProgs(T, O, set, nset, pre, enough);
    run(q, state, T, pre);
}
// one group of threads only pushes, the other only pops
static void prodCons(bool state, const int* ps, int np, const int* cs, int nc)
{
    int P = (int)sym_param("producers", 1), N = (int)sym_param("pushes", 2), C = (int)sym_param("consumers", 2), M = (int)sym_param("pops", 1);
    Queue q;
    qp = &q;
    int pre = sym_choose("preloaded", 1 + (unsigned)sym_param("premax", 1));
    int T = P + C;
    for (int t = 0; t < T; t++) {
        prog[t].n = t < P ? N : M;
        for (int k = 0; k < prog[t].n; k++) prog[t].op[k] = t < P ? ps[sym_choose("push", np)] : cs[sym_choose("pop", nc)];
        if (t == 0 || t == P) continue;
        for (int k = 0; k < prog[t].n; k++) {
            if (prog[t - 1].op[k] < prog[t].op[k]) break;
            if (prog[t - 1].op[k] > prog[t].op[k]) sym_discard();
        }
    }
    if (Q != 0 && pre + P * N < C * M) sym_discard();
    run(q, state, T, pre);
}
// loss, duplication, order and the legitimacy of an empty answer
ENTRY(q_conc)
{
    checkSafety = sym_param("safety", 1);
#if Q == 0
    static const int set[] = {OPush, OPushL, OEmplace, OPushVec, OPop};
    conc(false, set, 5, false);
#elif Q == 1
    static const int set[] = {OPush, OEmplace, OPop, OTry, OTimed, OCall};
    conc(false, set, 6, true);
#else
    static const int set[] = {OPush, OEmplace, OPrio, OEmplacePrio, OPop, OTry, OTimed, OCall};
    conc(false, set, 8, true);
#endif
}
// producers and consumers that may wait: progress, timeouts, callbacks
// every operation
ENTRY(q_any)
{
    checkSafety = sym_param("safety", 1);
#if Q == 0
    static const int set[] = {OPush, OPushVec, OPop, OPeek, OSize, OEmpty, OReserve, OClear, OEmplace, OPushVec0};
    const int n = 10;
#elif Q == 1
    static const int set[] = {OPush, OTry, OPop, OPeek, OSize, OEmpty, OReserve, OClear, OTimed, OCall, OEmplace};
    const int n = 11;
#else
    static const int set[] = {OPush, OPrio, OTry, OPop, OPeek, OEmpty, OReserve, OClear, OTimed, OCall, OEmplace, OEmplacePrio};
    const int n = 12;
#endif
    int T = (int)sym_param("threads", 2), O = (int)sym_param("ops", 2);
    Queue q;
    qp = &q;
    int pre = sym_choose("preloaded", 1 + (unsigned)sym_param("premax", 2));
    int kinds = (int)sym_param("kinds", 99);
    chooseProgs(T, O, set, kinds < n ? kinds : n, pre, Q != 0, true);
    for (int t = 0; t < T; t++)
        for (int k = 0; k < prog[t].n; k++)
            if (prog[t].op[k] == OClear) cleared = true;
    if (cleared && Q != 0)
        for (int t = 0; t < T; t++)
            for (int k = 0; k < prog[t].n; k++)
                if (prog[t].op[k] == OPop || prog[t].op[k] == OCall) sym_discard();
    run(q, false, T, pre);
}
ENTRY(q_wake)
{
    checkSafety = sym_param("safety", 0);
#if Q == 1
    static const int set[] = {OPush, OPop, OTry, OTimed, OCall, OCallPush, OEmplace};
    conc(false, set, (int)sym_param("kinds", 6), true);
#elif Q == 2
    static const int set[] = {OPush, OPrio, OPop, OTry, OTimed, OCall, OCallPush, OEmplace, OEmplacePrio};
    conc(false, set, (int)sym_param("kinds", 7), true);
#endif
}
// fewer kinds of operations, for more threads or longer programs
ENTRY(q_concn)
{
    checkSafety = sym_param("safety", 1);
#if Q == 0
    static const int set[] = {OPush, OPop}, em[] = {OEmplace, OPop};
    conc(sym_param("state", 0), sym_param("emplace", 0) ? em : set, 2, false);
#elif Q == 1
    static const int set[] = {OPush, OPop, OTry}, em[] = {OEmplace, OPop, OTry};
    conc(sym_param("state", 0), sym_param("emplace", 0) ? em : set, 3, true);
#else
    static const int set[] = {OPush, OPrio, OPop, OTry}, em[] = {OEmplace, OEmplacePrio, OPop, OTry};
    conc(sym_param("state", 0), sym_param("emplace", 0) ? em : set, 4, true);
#endif
}

ENTRY(q_pc)
{
    checkSafety = sym_param("safety", 1);
    unsigned kinds = (unsigned)sym_param("popkinds", 3);
    (void)kinds;
#if Q == 0
    static const int ps[] = {OPush, OPushVec}, cs[] = {OPop};
    prodCons(sym_param("state", 0), ps, 2, cs, 1);
#elif Q == 1
    static const int ps[] = {OPush, OEmplace}, cs[] = {OPop, OCall, OTimed, OTry, OCallPush};
    prodCons(sym_param("state", 0), ps + (sym_param("emplace", 0) ? 1 : 0), 1, cs, kinds);
#else
    static const int ps[] = {OPush, OPrio, OEmplace, OEmplacePrio}, cs[] = {OPop, OCall, OTimed, OTry, OCallPush};
    prodCons(sym_param("state", 0), ps + (sym_param("emplace", 0) ? 2 : 0), 2, cs, kinds);
#endif
}

// threads of different lengths: p1, p2, p3 pushes, then c1, c2 pops that never have to wait (Q != 0: any kind of try)
ENTRY(q_asym)
{
    checkSafety = sym_param("safety", 1);
    const char* names[5] = {"p1", "p2", "p3", "c1", "c2"};
#if Q == 2
    static const int ps[] = {OPush, OPrio, OEmplace, OEmplacePrio};
#else
    static const int ps[] = {OPush, OEmplace};
#endif
    const unsigned nps = sizeof(ps) / sizeof(ps[0]);
    Queue q;
    qp = &q;
    int pre = sym_choose("preloaded", 1 + (unsigned)sym_param("premax", 0));
    int T = 0;
    for (int w = 0; w < 5; w++) {
        int n = (int)sym_param(names[w], 0);
        if (n == 0) continue;
        prog[T].n = n;
        // all pushes of one thread are of one kind
        int o = w >= 3 ? (Q == 0 ? OPop : OTry) : ps[sym_choose("push", nps)];
        for (int k = 0; k < n; k++) prog[T].op[k] = o;
        T++;
    }
    run(q, sym_param("state", 0), T, pre);
}

// ------------------------------------------------------------------ sequential histories: state at rest
struct Model {
    int id[24];
    int n = 0;
    int pid[24];
    int pn = 0;
    void push(int i) { id[n++] = i; }
    void pushPrio(int i) { pid[pn++] = i; }
    int front() const { return pn ? pid[0] : id[0]; }
    int total() const { return n + pn; }
    void pop()
    {
        int* a = pn ? pid : id;
        int& m = pn ? pn : n;
        for (int i = 1; i < m; i++) a[i - 1] = a[i];
        m--;
    }
};
static bool same(const std::optional<Item>& v, const Model& m)
{
    if (!v) return m.total() == 0;
    return m.total() > 0 && v->id == m.front() && v->pay == L.pay[v->id];
}
static void state(Queue& q, const Model& m)
{
    CHECK(q.empty() == (m.total() == 0), "empty() at rest tells whether elements remain");
#if Q != 2
    CHECK(q.size() == (size_t)m.total(), "size() at rest is the number of remaining elements");
#endif
#if Q == 0
    CHECK(same(q.peek(), m), "peek at rest is the element the next pop returns");
#else
    CHECK(same(q.try_peek(), m), "peek at rest is the element the next pop returns");
#endif
}
static void take(Queue& q, Model& m, int how)
{
    std::optional<Item> v;
#if Q == 0
    v = q.pop();
#else
    switch (how) {
        case 0: v = q.try_pop(); break;
        case 1: v = q.pop(std::chrono::milliseconds(5)); break;
        case 2:
            if (m.total() == 0) return;
            v = q.pop();
            break;
        default: {
            int calls = 0;
            v = q.popOrCall([&]() {
                CHECK(m.total() == 0, "popOrCall calls back only when the queue is empty");
                calls++;
                int i = newItem(false, 0);
                m.push(i);
                q.push(Item(i, L.pay[i]));
            });
            CHECK(m.total() > 0 && calls <= 1, "popOrCall calls back once when the callback fills the queue");
            break;
        }
    }
#endif
    CHECK(same(v, m), "pop returns the oldest element, priority elements first, or nothing when the queue is empty");
    if (v) sym_observe(v->pay);
    if (m.total()) m.pop();
}
// priority only exists in the priority queue
static void put(Queue& q, Model& m, int o)
{
    if (o == OPushVec || o == OPushVec0) {
#if Q == 0
        int n = o == OPushVec0 ? 0 : 1 + (int)sym_choose("vector length", 3);
        std::vector<Item> v;
        for (int i = 0; i < n; i++) {
            int a = newItem(false, 0);
            v.emplace_back(a, L.pay[a]);
            m.push(a);
        }
        q.pushVector(v);
        for (int i = 0; i < n; i++) CHECK(v[i].id == m.id[m.n - n + i], "pushVector leaves its argument alone");
#endif
        return;
    }
    int i = newItem(o == OPrio || o == OEmplacePrio, 0);
    if (L.prio[i])
        m.pushPrio(i);
    else
        m.push(i);
    switch (o) {
        case OPush: q.push(Item(i, L.pay[i])); break;
        case OPushL: {
            Item x(i, L.pay[i]);
            q.push(x);
            CHECK(x.id == i && x.pay == L.pay[i], "pushing an lvalue leaves it alone");
            break;
        }
        case OEmplace: q.emplace(i, L.pay[i]); break;
#if Q == 2
        case OPrio: q.pushPriority(Item(i, L.pay[i])); break;
        case OEmplacePrio: q.emplacePriority(i, L.pay[i]); break;
#endif
        default: break;
    }
}
#if Q == 0
static const int putKinds[] = {OPush, OPushL, OEmplace, OPushVec, OPushVec0};
static const int nPut = 5;
#elif Q == 1
static const int putKinds[] = {OPush, OPushL, OEmplace};
static const int nPut = 3;
#else
static const int putKinds[] = {OPush, OPrio, OPushL, OEmplace, OEmplacePrio};
static const int nPut = 5;
#endif
static void step(Queue& q, Model& m, unsigned kinds, bool lite = false)
{
    // 0 put, 1 take, 2 clear, 3 reserve
    unsigned k = sym_choose("step", kinds);
    switch (k) {
        case 0: put(q, m, putKinds[sym_choose("put", lite ? (Q == 2 ? 2 : 1) : nPut)]); break;
        case 1: take(q, m, Q == 0 || lite ? 0 : (int)sym_choose("take", 4)); break;
        case 2:
            q.clear();
            m.n = m.pn = 0;
            break;
        default: q.reserve(sym_choose("reserve", 2) * 3); break;
    }
    state(q, m);
}
static void empties(Queue& q, Model& m)
{
    while (m.total()) {
        take(q, m, 0);
        state(q, m);
    }
    take(q, m, 0);
}
ENTRY(q_seq)
{
    auto live = sym_live_allocs();
    {
        int ops = (int)sym_param("ops", 5);
        Model m;
        bool cap = sym_choose("capacity", 2);
        alignas(Queue) unsigned char mem[sizeof(Queue)];
        Queue* q = cap ? new (mem) Queue(2) : new (mem) Queue();
        state(*q, m);
        for (int i = 0; i < ops; i++) step(*q, m, 4);
        empties(*q, m);
        q->~Queue();
    }
    CHECK(sym_live_allocs() == live, "the queue releases all memory");
    sym_reach("end");
}
// the destructor of a queue that still holds elements
ENTRY(q_drop)
{
    auto live = sym_live_allocs();
    {
        Queue q;
        Model m;
        int n = (int)sym_choose("elements", 4);
        for (int i = 0; i < n; i++) put(q, m, putKinds[sym_choose("put", nPut)]);
        if (sym_choose("pop", 2)) take(q, m, 0);
    }
    CHECK(sym_live_allocs() == live, "the queue releases all memory");
    sym_reach("end");
}
ENTRY(q_move)
{
    int ops = (int)sym_param("ops", 3), post = (int)sym_param("post", 2);
    auto live = sym_live_allocs();
    {
        Model m, mb;
        Queue a;
        for (int i = 0; i < ops; i++) step(a, m, 2, true);
        alignas(Queue) unsigned char mem[sizeof(Queue)];
        Queue* b;
        if (sym_choose("assign", 2)) {
            b = new (mem) Queue();
            int k = (int)sym_choose("target elements", 4);
            for (int i = 0; i < k; i++) {
                put(*b, mb, putKinds[0]);
                if (Q == 2 && i == 1) put(*b, mb, OPrio);
            }
            *b = std::move(a);
        } else
            b = new (mem) Queue(std::move(a));
        mb = m;
        m = Model();
        state(*b, mb);
        state(a, m);
        for (int i = 0; i < post; i++) {
            if (sym_choose("which", 2))
                step(*b, mb, 3, true);
            else
                step(a, m, 3, true);
            state(*b, mb);
            state(a, m);
        }
        empties(*b, mb);
        empties(a, m);
        b->~Queue();
    }
    CHECK(sym_live_allocs() == live, "the queue releases all memory");
    sym_reach("end");
}
