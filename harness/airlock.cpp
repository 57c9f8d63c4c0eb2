// AirLock: loaders and unloaders.
#include "sym.h"
#include "AirLock.hpp"
#include <new>
#include <optional>
#include <sched.h>
#include <utility>
using namespace gmlc::containers;
struct Item {
    int id = -1;
    unsigned pay = 0;
    Item() = default;
    Item(int i, unsigned p) : id(i), pay(p) {}
#ifdef MOVEONLY
    Item(const Item&) = delete;
    Item& operator=(const Item&) = delete;
#else
    Item(const Item&) = default;
    Item& operator=(const Item&) = default;
#endif
    Item(Item&& o) noexcept : id(o.id), pay(o.pay) { o.id = -2; }
    Item& operator=(Item&& o) noexcept
    {
        id = o.id;
        pay = o.pay;
        if (this != &o) o.id = -2;
        return *this;
    }
};
using Lock = AirLock<Item>;
constexpr int MAXT = 6, MAXI = 16;
enum Op { OLoad, OTryLoad, OUnload, OIsLoaded, OTryLoadL, OLoadL };
static Lock* ap;
static unsigned pays[MAXI];
static int nItems;
static int st[MAXI];  // 0 new, 1 being loaded, 2 accepted, 3 refused, 4 handed out (bit)
static bool loading[MAXT], unloading[MAXT];
static int low[MAXT], high[MAXT];
static uint32_t mayUnload;  // for the last unloader: something is in place that nobody else is taking, or all threads ended
static uint32_t ended, expected;

// items certainly in place, and items possibly in place, as far as the other threads are concerned
static int certain(int self)
{
    int c = 0;
    for (int i = 0; i < nItems; i++)
        if (st[i] == 2) c++;
    for (int t = 0; t < MAXT; t++)
        if (t != self && unloading[t]) c--;
    return c;
}
static int possible(int self)
{
    int c = 0;
    for (int i = 0; i < nItems; i++)
        if (st[i] == 2) c++;
    for (int t = 0; t < MAXT; t++)
        if (t != self && loading[t]) c++;
    return c;
}
static void note()
{
    int in = 0;
    for (int i = 0; i < nItems; i++)
        if (st[i] == 2) in++;
    for (int t = 0; t < MAXT; t++) {
        if (unloading[t] && certain(t) < low[t]) low[t] = certain(t);
        if (loading[t] && possible(t) > high[t]) high[t] = possible(t);
        if (unloading[t] && t != 0) in = 0;
    }
    mayUnload = in > 0 || ended == expected;
}
static int newItem()
{
    pays[nItems] = (unsigned)sym_u64("payload", 0, 0xffffffffu);
    return nItems++;
}
static void unload()
{
    int t = sym_thread_id();
    sched_yield();
    unloading[t] = true;
    low[t] = certain(t);
    note();
    std::optional<Item> v = ap->try_unload();
    if (v) {
        CHECK(v->id >= 0 && v->id < nItems, "only loaded items come out, with their contents");
        int i = v->id;
        if (i < 0 || i >= nItems) return;
        CHECK(st[i] == 1 || st[i] == 2, "an item comes out exactly once and only if its load was accepted");
        CHECK(v->pay == pays[i], "an item comes out unchanged");
        sym_observe((uint64_t)i);
        sym_observe(v->pay);
        st[i] |= 4;
    } else {
        CHECK(low[t] < 1, "try_unload finds nothing only when nothing was in place at some moment during the call");
        sym_observe(99);
    }
    unloading[t] = false;
    low[t] = 0;
    note();
}
static void accepted(int t, int i, bool ok, const Item& x, bool lvalue)
{
    if (!ok) {
        CHECK(high[t] >= 1, "a load is refused only when an item was in place during the call");
        CHECK(x.id == i && x.pay == pays[i], "a refused load leaves its argument unmoved");
        CHECK(st[i] == 1, "an item whose load was refused is never handed out");
        st[i] = 3;
    } else {
        if (lvalue) CHECK(x.id == i && x.pay == pays[i], "loading an lvalue leaves it alone");
        st[i] = st[i] & 4 ? st[i] : 2;
    }
    loading[t] = false;
    high[t] = 0;
    sym_observe(ok);
    note();
    CHECK(certain(-1) <= 1, "at most one item is in place");
}
static void doOp(int o, int i)
{
    int t = sym_thread_id();
    if (o == OUnload) return unload();
    sched_yield();
    if (o == OIsLoaded) {
        // an answer that has to be right whenever nothing happens during the call
        bool quietBefore = true;
        for (int u = 0; u < MAXT; u++)
            if (loading[u] || unloading[u]) quietBefore = false;
        int c = certain(-1);
        bool r = ap->isLoaded();
        bool quiet = quietBefore;
        for (int u = 0; u < MAXT; u++)
            if (loading[u] || unloading[u]) quiet = false;
        if (quiet && c == certain(-1) && c == 0) sym_observe(r);
        return;
    }
    Item x(i, pays[i]);
    loading[t] = true;
    high[t] = possible(t);
    st[i] = 1;
    note();
    bool ok = true;
    switch (o) {
        case OLoad: ap->load(std::move(x)); break;
        case OTryLoad: ok = ap->try_load(std::move(x)); break;
#ifndef MOVEONLY
        case OTryLoadL: ok = ap->try_load(x); break;
        case OLoadL: ap->load(x); break;
#endif
        default: break;
    }
    accepted(t, i, ok, x, o == OTryLoadL || o == OLoadL);
}
struct Prog {
    int n = 0;
    int op[4], item[4];
};
static Prog prog[MAXT];
static void body(void* p)
{
    Prog& g = *(Prog*)p;
    for (int k = 0; k < g.n; k++) doOp(g.op[k], g.item[k]);
    ended++;
    note();
}
static void check(bool rest)
{
    int in = certain(-1);
    if (rest) CHECK(ap->isLoaded() == (in == 1), "isLoaded() at rest tells whether an item is in place");
}
// Threads of any operations; the main thread unloads whenever something is in place, so every waiting load has to complete.
static void run(const int* set, int nset)
{
    int T = (int)sym_param("threads", 2), O = (int)sym_param("ops", 2);
    Lock a;
    ap = &a;
    check(true);
    if (sym_choose("loaded before", 2)) {
        int i = newItem();
        doOp(OLoad, i);
        check(true);
    }
    for (int t = 0; t < T; t++) {
        prog[t].n = O;
        for (int k = 0; k < O; k++) prog[t].op[k] = set[sym_choose("op", nset)];
        if (t > 0)
            for (int k = 0; k < O; k++) {
                if (prog[t - 1].op[k] < prog[t].op[k]) break;
                if (prog[t - 1].op[k] > prog[t].op[k]) sym_discard();
            }
        for (int k = 0; k < O; k++) prog[t].item[k] = prog[t].op[k] == OUnload || prog[t].op[k] == OIsLoaded ? -1 : newItem();
    }
    expected = (uint32_t)T;
    note();
    int id[MAXT];
    for (int t = 0; t < T; t++) id[t] = sym_spawn(body, &prog[t]);
    while (true) {
        sym_await(&mayUnload, 0);
        if (ended == expected) break;
        unload();
    }
    for (int t = 0; t < T; t++) sym_join(id[t]);
    sym_reach("joined");
    check(true);
    while (certain(-1) > 0) {
        unload();
        check(true);
    }
    unload();
    check(true);
    for (int i = 0; i < nItems; i++) CHECK(st[i] == 3 || (st[i] & 4), "every accepted item is handed out");
    sym_reach("end");
}
ENTRY(lock_conc)
{
#ifdef MOVEONLY
    static const int set[] = {OLoad, OTryLoad, OUnload, OIsLoaded};
    run(set, (int)sym_param("kinds", 3));
#else
    static const int set[] = {OLoad, OTryLoad, OUnload, OTryLoadL, OLoadL, OIsLoaded};
    run(set, (int)sym_param("kinds", 5));
#endif
}
// one thread: every history
ENTRY(lock_seq)
{
    int ops = (int)sym_param("ops", 5);
    auto live = sym_live_allocs();
    {
        Lock a;
        ap = &a;
        check(true);
        for (int k = 0; k < ops; k++) {
            int o = (int)sym_choose("op", 6);
            bool in = certain(-1) == 1;
            if ((o == OLoad || o == OLoadL) && in) sym_discard();
#ifdef MOVEONLY
            if (o == OTryLoadL || o == OLoadL) sym_discard();
#endif
            if (o == OIsLoaded) {
                check(true);
                continue;
            }
            doOp(o, o == OUnload ? -1 : newItem());
            check(true);
        }
    }
    CHECK(sym_live_allocs() == live, "the lock releases all memory");
    sym_reach("end");
}
