// C07-C13: StableBlockVector (default) or StableBlockDeque (-DDQ), block size 2^NB
#include "StableBlockDeque.hpp"
#include "StableBlockVector.hpp"
#include "sym.h"
#include <algorithm>
#include <iterator>
#include <stdexcept>
#include <utility>
#ifndef NB
#define NB 1
#endif
namespace {
long alive = 0;
int throwIn = -1;  // the element construction that throws, counted down
struct Boom {};
constexpr unsigned ALIVE = 0x600DCAFE, DEAD = 0xDEADDEAD;
struct Elem {
    unsigned magic;
    unsigned v;
    void up()
    {
        if (throwIn >= 0 && throwIn-- == 0) throw Boom{};
        magic = ALIVE;
        alive++;
    }
    Elem() : v(0) { up(); }
    Elem(unsigned x) : v(x) { up(); }
    Elem(const Elem& o) : v(o.v)
    {
        CHECK(o.magic == ALIVE, "only live elements are read");
        up();
    }
    Elem(Elem&& o) : v(o.v)
    {
        CHECK(o.magic == ALIVE, "only live elements are read");
        o.v = 0;
        up();
    }
    Elem& operator=(const Elem& o)
    {
        CHECK(magic == ALIVE && o.magic == ALIVE, "only live elements are assigned");
        v = o.v;
        return *this;
    }
    Elem& operator=(Elem&& o)
    {
        CHECK(magic == ALIVE && o.magic == ALIVE, "only live elements are assigned");
        unsigned t = o.v;
        o.v = 0;
        v = t;
        return *this;
    }
    ~Elem()
    {
        CHECK(magic == ALIVE, "an element is destroyed exactly once, and only after it was constructed");
        magic = DEAD;
        alive--;
    }
};
// an allocator of the user: remembers how much it handed out
constexpr uint64_t STAMP = 0x600DB10C00000000ull;
template<class X>
struct Pool {
    using value_type = X;
    Pool() = default;
    template<class Y>
    Pool(const Pool<Y>&)
    {
    }
    X* allocate(size_t n)
    {
        auto* p = static_cast<uint64_t*>(::operator new(2 * sizeof(uint64_t) + n * sizeof(X)));
        p[0] = STAMP + n;
        return reinterpret_cast<X*>(p + 2);
    }
    void deallocate(X* x, size_t n)
    {
        auto* p = reinterpret_cast<uint64_t*>(x) - 2;
        CHECK(p[0] == STAMP + n, "storage goes back to the allocator it came from, with its size");
        p[0] = 0;
        ::operator delete(p);
    }
    bool operator==(const Pool&) const { return true; }
    bool operator!=(const Pool&) const { return false; }
};
#ifdef ALLOC
using Al = Pool<Elem>;
#else
using Al = std::allocator<Elem>;
#endif
#ifdef DQ
using C = gmlc::containers::StableBlockDeque<Elem, NB, Al>;
constexpr bool dq = true;
#else
using C = gmlc::containers::StableBlockVector<Elem, NB, Al>;
constexpr bool dq = false;
#endif
constexpr int MAXN = 12000;
struct Ref {
    unsigned v[MAXN];
    const Elem* at[MAXN];
    int b = MAXN / 2, e = MAXN / 2;
    int n() const { return e - b; }
    void clear() { b = e = MAXN / 2; }
};
struct Src {
    unsigned base;
    unsigned n = 0;
    Src() { base = (unsigned)sym_u64("value", 0, 0xFFFFFFFF); }
    unsigned next() { return base + n++ * 7; }
};
// arguments: content, sizes and addresses of the container agree with the reference
void same(const C& c, const Ref& r, const char* m)
{
    CHECK(c.size() == (size_t)r.n(), m);
    CHECK(c.empty() == (r.n() == 0), m);
    for (int i = 0; i < r.n(); i++) CHECK(c[(size_t)i].v == r.v[r.b + i], m);
    if (r.n()) {
        CHECK(c.front().v == r.v[r.b], m);
        CHECK(c.back().v == r.v[r.e - 1], m);
    }
}
void sameEnds(C& c, const Ref& r, const char* m)
{
    CHECK(c.size() == (size_t)r.n() && c.empty() == (r.n() == 0), m);
    if (r.n()) {
        CHECK(c.front().v == r.v[r.b], m);
        CHECK(c.back().v == r.v[r.e - 1], m);
        CHECK(c[0].v == r.v[r.b] && c[(size_t)r.n() - 1].v == r.v[r.e - 1], m);
        CHECK(c[(size_t)r.n() / 2].v == r.v[r.b + r.n() / 2], m);
    }
}
void addresses(C& c, const Ref& r)
{
    CHECK(c.size() == (size_t)r.n(), "every element is in place");
    for (int i = 0; i < r.n(); i++) CHECK(&c[(size_t)i] == r.at[r.b + i], "an element keeps its address");
}
void pushBack(C& c, Ref& r, unsigned v, unsigned how)
{
    if (how == 0) {
        Elem x(v);
        c.push_back(x);
        CHECK(x.v == v, "push_back of a constant does not change it");
    } else if (how == 1)
        c.push_back(Elem(v));
    else
        c.emplace_back(v);
    r.v[r.e] = v;
    r.at[r.e] = &c.back();
    r.e++;
}
void pushFront(C& c, Ref& r, unsigned v, unsigned how)
{
#ifdef DQ
    if (how == 0) {
        Elem x(v);
        c.push_front(x);
    } else if (how == 1)
        c.push_front(Elem(v));
    else
        c.emplace_front(v);
    r.b--;
    r.v[r.b] = v;
    r.at[r.b] = &c.front();
#else
    (void)c, (void)r, (void)v, (void)how;
#endif
}
void popBack(C& c, Ref& r)
{
    c.pop_back();
    if (r.n()) r.e--;
}
void popFront(C& c, Ref& r)
{
#ifdef DQ
    c.pop_front();
    if (r.n()) r.b++;
#else
    (void)c, (void)r;
#endif
}
void adopt(C& c, Ref& r)
{
    for (int i = 0; i < r.n(); i++) r.at[r.b + i] = &c[(size_t)i];
}
// one operation chosen symbolically
void step(C& c, Ref& r, Src& s, int k)
{
    unsigned op = sym_choose("op", dq ? 8 : 6);
    unsigned how = (unsigned)(k % 3);
    switch (op) {
        case 0: pushBack(c, r, s.next(), how); break;
        case 1: popBack(c, r); break;
        case 2:
            if (r.n()) {
                // assignment through [] at any valid index
                int i = (int)sym_u64("index", 0, (uint64_t)r.n() - 1);
                i = (int)sym_concretize((uint64_t)i);
                unsigned v = s.next();
                c[(size_t)i] = Elem(v);
                r.v[r.b + i] = v;
            }
            break;
        case 3:
            c.clear();
            r.clear();
            sym_reach("cleared");
            break;
        case 4: c.shrink_to_fit(); break;
        case 5:
            pushBack(c, r, s.next(), (how + 1) % 3);
            pushBack(c, r, s.next(), (how + 2) % 3);
            break;
        case 6: pushFront(c, r, s.next(), how); break;
        default: popFront(c, r);
    }
}
// start: 0 default, k+1: constructed with k copies of a value
C* start(unsigned how, Ref& r, Src& s)
{
    if (how == 0) return new C();
    unsigned v = s.next();
    C* c = new C((size_t)(how - 1), Elem(v));
    for (unsigned k = 0; k + 1 < how; k++) r.v[r.e++] = v;
    return c;
}
}  // namespace

// ---------------------------------------------------------------- C07 / C10: sequence semantics
ENTRY(seq_history)
{
    int ops = (int)sym_param("ops", 4);
    Src s;
    Ref r;
    C* c = start(sym_choose("start", (unsigned)sym_param("starts", 7)), r, s);
    same(*c, r, "a new container holds the given number of copies");
    for (int k = 0; k < ops; k++) {
        step(*c, r, s, k);
        same(*c, r, "agrees with a plain sequence after every operation");
    }
    // checked access with any index
    size_t i = (size_t)sym_u64("at", 0, ~0ULL);
    bool thrown = false;
    if (i >= (size_t)r.n()) {
        try {
            (void)c->at(i);
        }
        catch (const std::out_of_range&) {
            thrown = true;
        }
        CHECK(thrown, "at() of an index beyond the elements throws");
        thrown = false;
        try {
            (void)static_cast<const C*>(c)->at(i);
        }
        catch (const std::out_of_range&) {
            thrown = true;
        }
        CHECK(thrown, "at() of an index beyond the elements throws");
        sym_reach("beyond");
    } else {
        i = (size_t)sym_concretize(i);
        CHECK(c->at(i).v == r.v[r.b + (int)i], "at() returns the element");
        const C& cc = *c;
        CHECK(&cc.at(i) == &c->at(i) && &cc[i] == &c->at(i), "at() and [] return the same element");
        sym_reach("at");
    }
    sym_observe(c->size());
    delete c;
    sym_reach("end");
}
// (count, value) constructor for every count up to the bound, then use at the ends
ENTRY(seq_count)
{
    size_t n = (size_t)sym_concretize(sym_u64("count", 0, sym_param("max", 24)));
    Src s;
    unsigned v = s.next();
    C c(n, Elem(v));
    Ref r;
    while ((size_t)r.n() < n) r.v[r.e++] = v;
    same(c, r, "the constructor gives count copies");
    switch (sym_choose("then", dq ? 4 : 3)) {
        case 0: pushBack(c, r, s.next(), 0); break;
        case 1: popBack(c, r); break;
        case 2:
            c.clear();
            r.clear();
            pushBack(c, r, s.next(), 2);
            break;
        default: pushFront(c, r, s.next(), 0);
    }
    same(c, r, "agrees with a plain sequence afterwards");
#ifdef DQ
    popFront(c, r);
    same(c, r, "agrees with a plain sequence afterwards");
#endif
    sym_reach("end");
}
// long histories crossing the ends of the block table (64 blocks and its doublings)
namespace {
void fill(C& c, Ref& r, Src& s, int n, unsigned side)
{
    for (int i = 0; i < n; i++) {
        if (side == 1 || (side == 2 && (i & 1)))
            pushFront(c, r, s.next(), 2);
        else
            pushBack(c, r, s.next(), 2);
    }
}
void unfill(C& c, Ref& r, int n, unsigned side)
{
    for (int i = 0; i < n; i++) {
        if (side == 1 || (side == 2 && (i & 1)))
            popFront(c, r);
        else
            popBack(c, r);
    }
}
template<class F>
void deep(F&& after)
{
    Src s;
    Ref* r = new Ref;
    uint64_t before = sym_live_allocs();
    long a0 = alive;
    {
        int lo = (int)sym_param("lo", 62), hi = (int)sym_param("hi", 68);
        bool counted = sym_param("counted", 0);
        unsigned fs = dq && !counted ? sym_choose("fillside", 3) : 0;
        int n = (int)sym_u64("fill", (uint64_t)lo, (uint64_t)hi);
        n = (int)sym_concretize((uint64_t)n);
        unsigned v = s.next();
        alignas(C) unsigned char mem[sizeof(C)];
        C& c = *(counted ? new (mem) C((size_t)n, Elem(v)) : new (mem) C);
        if (counted) {
            while (r->n() < n) r->v[r->e++] = v;
            adopt(c, *r);
        } else
            fill(c, *r, s, n, fs);
        after(c, *r);
        unsigned us = dq ? sym_choose("popside", 2) : 0;
        switch (sym_choose("then", 4)) {
            case 0: unfill(c, *r, n, us); break;           // everything out: many free blocks
            case 1:
                c.clear();
                r->clear();
                break;
            case 2: unfill(c, *r, n / 2, us); break;
            default: unfill(c, *r, 1, us);
        }
        after(c, *r);
        unsigned rs = dq ? sym_choose("refillside", 2) : 0;
        int m = (int)sym_param("refill", 66);
        fill(c, *r, s, m, rs);
        after(c, *r);
        if (sym_choose("shrink", 2)) c.shrink_to_fit();
        unfill(c, *r, 2, rs);
        after(c, *r);
        c.~C();
    }
    CHECK(alive == a0, "every element is destroyed exactly once");
    CHECK(sym_live_allocs() == before, "every block of storage is released exactly once");
    delete r;
    sym_reach("end");
}
}  // namespace
// a window moving through the container in one direction and back: the block table is shifted or grown again and again
ENTRY(seq_slide)
{
    Src s;
    Ref* r = new Ref;
    uint64_t before = sym_live_allocs();
    long a0 = alive;
    {
        C c;
        int w = (int)sym_choose("window", (unsigned)sym_param("window", 8));
        int steps = (int)sym_param("steps", 150);
        unsigned dir = dq ? sym_choose("direction", 2) : 0;
        fill(c, *r, s, w, dir);
        adopt(c, *r);
        for (int round = 0; round < 2; round++) {
            for (int i = 0; i < steps; i++) {
                fill(c, *r, s, 1, dir);
                unfill(c, *r, 1, dq ? 1 - dir : 0);
                sameEnds(c, *r, "agrees with a plain sequence while elements pass through");
            }
            same(c, *r, "agrees with a plain sequence after elements passed through");
            addresses(c, *r);
            dir = dq ? 1 - dir : 0;
        }
    }
    CHECK(alive == a0, "every element is destroyed exactly once");
    CHECK(sym_live_allocs() == before, "every block of storage is released exactly once");
    delete r;
    sym_reach("end");
}
ENTRY(seq_deep)
{
    deep([](C& c, Ref& r) { same(c, r, "agrees with a plain sequence, also with many blocks"); });
}
// ---------------------------------------------------------------- C08 / C11: addresses and lifetimes
ENTRY(life_history)
{
    int ops = (int)sym_param("ops", 4);
    uint64_t before = sym_live_allocs();
    {
        Src s;
        Ref r;
        C* c = start(sym_choose("start", (unsigned)sym_param("starts", 7)), r, s);
        adopt(*c, r);
        CHECK(alive == (long)r.n(), "exactly the elements are alive");
        for (int k = 0; k < ops; k++) {
            step(*c, r, s, k);
            addresses(*c, r);
            CHECK(alive == (long)r.n(), "exactly the elements are alive");
        }
        delete c;
        CHECK(alive == 0, "every element is destroyed exactly once");
    }
    CHECK(sym_live_allocs() == before, "every block of storage is released exactly once");
    sym_reach("end");
}
ENTRY(life_deep)
{
    deep([](C& c, Ref& r) {
        addresses(c, r);
        CHECK(alive == (long)r.n(), "exactly the elements are alive");
    });
}
// one construction in the history throws
ENTRY(life_throw)
{
    int ops = (int)sym_param("ops", 4);
    uint64_t before = sym_live_allocs();
    {
        Src s;
        Ref r;
        C* c = start(sym_choose("start", 4), r, s);
        adopt(*c, r);
        int at = (int)sym_choose("throwat", (unsigned)ops);
        for (int k = 0; k < ops; k++) {
            if (k == at) {
                unsigned op = sym_choose("thrower", dq ? 4 : 2);
                Elem x(s.next());
                throwIn = 0;
                bool thrown = false;
                try {
                    if (op == 0)
                        c->push_back(x);
                    else if (op == 1)
                        c->emplace_back(7u);
#ifdef DQ
                    else if (op == 2)
                        c->push_front(x);
                    else
                        c->emplace_front(7u);
#endif
                }
                catch (const Boom&) {
                    thrown = true;
                }
                CHECK(thrown, "the exception of the element reaches the caller");
                throwIn = -1;
            } else
                step(*c, r, s, k);
            addresses(*c, r);
            CHECK(alive == (long)r.n(), "exactly the elements are alive");
        }
        delete c;
        CHECK(alive == 0, "every element is destroyed exactly once");
    }
    CHECK(sym_live_allocs() == before, "every block of storage is released exactly once");
    sym_reach("end");
}
// ---------------------------------------------------------------- C09 / C12: copy, move, assignment
namespace {
// containers of many shapes
C* shape(unsigned k, Ref& r, Src& s)
{
    C* c;
    if (k == 1 || k == 2) {
        c = start(k == 1 ? 1 : 6, r, s);
        return c;
    }
    c = new C();
    switch (k) {
        case 0: break;
        case 3: fill(*c, r, s, 1, 0); break;
        case 4: fill(*c, r, s, 4, dq ? 2 : 0); break;
        case 5:
            fill(*c, r, s, 5, 0);
            unfill(*c, r, 5, 0);
            break;  // storage but no elements
        case 6:
            fill(*c, r, s, 6, dq ? 1 : 0);
            unfill(*c, r, 3, 0);
            break;  // spare blocks
        case 7:
            fill(*c, r, s, 7, 0);
            c->clear();
            r.clear();
            fill(*c, r, s, 1, 0);
            break;
        case 8:
            fill(*c, r, s, 5, 0);
            c->clear();
            r.clear();
            break;
        default:
            fill(*c, r, s, 3, dq ? 1 : 0);
            unfill(*c, r, 2, dq ? 1 : 0);
            fill(*c, r, s, 2, 0);
    }
    return c;
}
constexpr unsigned SHAPES = 10;
void use(C& c, Ref& r, Src& s, const char* m)
{
    unsigned op = sym_choose("use", dq ? 5 : 3);
    switch (op) {
        case 0:
            pushBack(c, r, s.next(), 0);
            pushBack(c, r, s.next(), 1);
            pushBack(c, r, s.next(), 2);
            break;
        case 1:
            popBack(c, r);
            same(c, r, m);
            pushBack(c, r, s.next(), 2);
            break;
        case 2:
            c.clear();
            r.clear();
            same(c, r, m);
            c.shrink_to_fit();
            pushBack(c, r, s.next(), 0);
            break;
        case 3:
            pushFront(c, r, s.next(), 0);
            pushFront(c, r, s.next(), 1);
            pushFront(c, r, s.next(), 2);
            break;
        default:
            popFront(c, r);
            same(c, r, m);
            pushFront(c, r, s.next(), 0);
            pushBack(c, r, s.next(), 0);
    }
    same(c, r, m);
    int cnt = 0;
    for (auto it = c.begin(); it != c.end(); ++it) {
        CHECK(cnt < r.n() && (*it).v == r.v[r.b + cnt], m);
        cnt++;
    }
    CHECK(cnt == r.n(), m);
}
void values(Ref& to, const Ref& from)
{
    to.clear();
    for (int i = 0; i < from.n(); i++) to.v[to.e++] = from.v[from.b + i];
}
}  // namespace
ENTRY(copy_history)
{
    uint64_t before = sym_live_allocs();
    {
        Src s;
        Ref r, r2;
        C* a = shape(sym_choose("source", SHAPES), r, s);
        C* b;
        unsigned how = sym_choose("how", 3);
        if (how == 0) {
            b = new C(*a);
        } else if (how == 1) {
            b = shape(sym_choose("target", SHAPES), r2, s);
            *b = *a;
        } else {
            C& self = *a;
            *a = self;
            same(*a, r, "self-assignment keeps the content");
            b = new C(*a);
            C& selfb = *b;
            *b = selfb;
        }
        values(r2, r);
        same(*b, r2, "a copy equals its source");
        same(*a, r, "copying does not change the source");
        CHECK(alive == (long)r.n() + r2.n(), "exactly the elements are alive");
        if (r.n()) CHECK(&a->front() != &b->front(), "a copy has its own elements");
        if (sym_choose("first", 2) == 0) {
            use(*b, r2, s, "the copy works on its own");
            same(*a, r, "changing the copy does not change the source");
            delete b;
            use(*a, r, s, "the source works on its own");
            delete a;
        } else {
            use(*a, r, s, "the source works on its own");
            same(*b, r2, "changing the source does not change the copy");
            delete a;
            use(*b, r2, s, "the copy works on its own");
            delete b;
        }
        CHECK(alive == 0, "every element is destroyed exactly once");
    }
    CHECK(sym_live_allocs() == before, "every block of storage is released exactly once");
    sym_reach("end");
}
ENTRY(move_history)
{
    uint64_t before = sym_live_allocs();
    {
        Src s;
        Ref r, r2;
        C* a = shape(sym_choose("source", SHAPES), r, s);
        adopt(*a, r);
        C* b;
        if (sym_choose("assign", 2) == 0)
            b = new C(std::move(*a));
        else {
            b = shape(sym_choose("target", SHAPES), r2, s);
            *b = std::move(*a);
        }
        same(*b, r, "a move transfers the elements");
        addresses(*b, r);
        CHECK(alive == (long)r.n(), "exactly the elements are alive");
        r2.clear();
        same(*a, r2, "the moved-from container is empty");
        CHECK(a->begin() == a->end(), "the moved-from container has nothing to iterate over");
        a->pop_back();
        unsigned again = sym_choose("again", 4);
        if (again == 0)
            use(*a, r2, s, "the moved-from container is usable");
        else if (again == 1) {
            Ref r3;
            C* d = shape(4, r3, s);
            *a = *d;
            same(*a, r3, "the moved-from container can be assigned");
            delete d;
        } else if (again == 2) {
            Ref r3;
            C* d = shape(6, r3, s);
            *a = std::move(*d);
            same(*a, r3, "the moved-from container can be assigned");
            use(*d, r2, s, "the moved-from container is usable");
            delete d;
        } else {
            C d(*a);
            same(d, r2, "a copy of a moved-from container is empty");
            a->clear();
            a->shrink_to_fit();
        }
        use(*b, r, s, "the target works on its own");
        delete a;
        delete b;
        CHECK(alive == 0, "every element is destroyed exactly once");
    }
    CHECK(sym_live_allocs() == before, "every block of storage is released exactly once");
    sym_reach("end");
}
// assign and move_assign: the elements of a range replace the content
ENTRY(range_history)
{
    uint64_t before = sym_live_allocs();
    {
        Src s;
        Ref r, r2;
        C* a = shape(sym_choose("target", SHAPES), r, s);
        bool mv = sym_choose("move", 2) != 0;
        if (sym_choose("from", 2) == 0) {
            unsigned n = sym_choose("count", 10);
            Elem* from = new Elem[10];
            r.clear();
            for (unsigned i = 0; i < n; i++) {
                unsigned v = s.next();
                from[i].v = v;
                r.v[r.e++] = v;
            }
            if (mv)
                a->move_assign(from, from + n);
            else {
                const Elem* f = from;
                a->assign(f, f + n);
                for (unsigned i = 0; i < n; i++) CHECK(from[i].v == r.v[r.b + (int)i], "assign does not change the source range");
            }
            same(*a, r, "assigning a range replaces the content by the elements of the range");
            CHECK(alive == 10 + (long)r.n(), "exactly the elements are alive");
            delete[] from;
        } else {
            C* b = shape(sym_choose("source", SHAPES), r2, s);
            if (mv)
                a->move_assign(b->begin(), b->end());
            else {
                const C& cb = *b;
                a->assign(cb.begin(), cb.end());
                same(*b, r2, "assign does not change the source range");
            }
            values(r, r2);
            same(*a, r, "assigning a range replaces the content by the elements of the range");
            CHECK(alive == (long)(r.n() + r2.n()), "exactly the elements are alive");
            CHECK(b->size() == (size_t)r2.n(), "the source keeps its size");
            b->clear();
            r2.clear();
            use(*b, r2, s, "the source works on its own");
            delete b;
        }
        use(*a, r, s, "the target works on its own");
        delete a;
        CHECK(alive == 0, "every element is destroyed exactly once");
    }
    CHECK(sym_live_allocs() == before, "every block of storage is released exactly once");
    sym_reach("end");
}
// copies of containers with a large block table
ENTRY(copy_deep)
{
    uint64_t before = sym_live_allocs();
    {
        Src s;
        Ref *r = new Ref, *r2 = new Ref;
        C a;
        int n = (int)sym_concretize(sym_u64("fill", sym_param("lo", 62), sym_param("hi", 68)));
        fill(a, *r, s, n, dq ? sym_choose("fillside", 3) : 0);
        if (sym_choose("popped", 2)) unfill(a, *r, n - 2, dq ? sym_choose("popside", 2) : 0);
        if (sym_choose("how", 2) == 0) {
            C b(a);
            values(*r2, *r);
            fill(b, *r2, s, 70, 0);
            same(b, *r2, "a copy equals its source and can grow");
            same(a, *r, "the copy does not change the source");
        } else {
            C b;
            fill(b, *r2, s, 3, 0);
            b = a;
            values(*r2, *r);
            fill(b, *r2, s, 5, dq ? 1 : 0);
            same(b, *r2, "a copy equals its source and can grow");
            C d(std::move(b));
            same(d, *r2, "a move transfers the elements");
        }
        delete r;
        delete r2;
    }
    CHECK(alive == 0, "every element is destroyed exactly once");
    CHECK(sym_live_allocs() == before, "every block of storage is released exactly once");
    sym_reach("end");
}
// ---------------------------------------------------------------- C13: iterators
namespace {
template<class CC>
void iterate(CC& c, const Ref& r)
{
    int n = 0;
    auto e = c.end();
    for (auto it = c.begin(); it != e; ++it) {
        CHECK(n < r.n(), "iteration ends after the last element");
        CHECK(&*it == &c[(size_t)n], "iteration visits the elements in index order");
        CHECK(it->v == r.v[r.b + n], "iteration visits the elements in index order");
        n++;
    }
    CHECK(n == r.n(), "iteration visits every element");
    n = 0;
    for (auto& x : c) {
        CHECK(n < r.n() && x.v == r.v[r.b + n], "iteration visits the elements in index order");
        n++;
    }
    CHECK(n == r.n(), "iteration visits every element");
    auto it = c.end();
    while (n > 0) {
        --n;
        if (n & 1)
            --it;
        else {
            auto was = it;
            CHECK(it-- == was, "it-- returns the iterator as it was");
        }
        CHECK(&*it == &c[(size_t)n], "stepping back visits the elements in reverse order");
    }
    CHECK(it == c.begin(), "stepping back ends at begin()");
}
template<class CC>
void arithmetic(CC& c, const Ref& r)
{
    int n = r.n();
    int k = (int)sym_concretize(sym_u64("to", 0, (uint64_t)n));
    auto denotes = [&](auto it, const char* m) {
        if (k < n)
            CHECK(&*it == &c[(size_t)k], m);
        else
            CHECK(it == c.end(), m);
        CHECK((it == c.begin()) == (k == 0), "iterators are equal exactly when they denote the same position");
        CHECK((it != c.end()) == (k != n), "iterators are equal exactly when they denote the same position");
    };
    auto a = c.begin() + k;
    denotes(a, "begin()+k denotes element k");
    auto b = c.begin();
    b += k;
    denotes(b, "begin() moved by += denotes element k");
    auto d = c.begin();
    for (int i = 0; i < k; i++) d++;
    denotes(d, "begin() incremented k times denotes element k");
    CHECK(a == b && b == d, "iterators to one element are equal");
    auto f = c.end() - (n - k);
    denotes(f, "stepping back from end() denotes the element");
    auto g = c.end();
    g -= (n - k);
    denotes(g, "end() moved back by -= denotes the element");
    auto h = c.end();
    h += (k - n);  // negative movement
    denotes(h, "moving by a negative amount denotes the element");
    auto h2 = c.begin();
    h2 -= -k;
    denotes(h2, "moving back by a negative amount denotes the element");
    auto h3 = c.end();
    for (int i = n; i > k; i--) h3--;
    denotes(h3, "end() decremented denotes the element");
    // from any element to any other
    int j = (int)sym_concretize(sym_u64("from", 0, (uint64_t)n));
    auto x = c.begin() + j;
    x += (k - j);
    denotes(x, "a movement between two elements ends at the second");
    auto y = (c.begin() + j) - (j - k);
    denotes(y, "a movement between two elements ends at the second");
    CHECK(((c.begin() + j) == a) == (j == k), "iterators are equal exactly when they denote the same position");
    CHECK(((c.begin() + j) != a) == (j != k), "iterators are equal exactly when they denote the same position");
}
}  // namespace
ENTRY(iter_walk)
{
    Src s;
    Ref r;
    C* c = start(sym_choose("start", 6), r, s);
    int ops = (int)sym_param("ops", 3);
    for (int k = 0; k < ops; k++) step(*c, r, s, k);
    iterate(*c, r);
    const C& cc = *c;
    iterate(cc, r);
    CHECK(c->begin() == c->cbegin() && c->end() == c->cend(), "const and non-const iterators to one position are equal");
    CHECK((c->begin() == c->cend()) == (r.n() == 0), "const and non-const iterators to different positions differ");
    if (r.n()) CHECK(c->begin() != c->cend() && c->cbegin() != c->end(), "const and non-const iterators to different positions differ");
    delete c;
    sym_reach("end");
}
ENTRY(iter_arith)
{
    Src s;
    Ref r;
    C c;
    int n = (int)sym_concretize(sym_u64("size", 0, sym_param("max", 9)));
    fill(c, r, s, n, dq ? sym_choose("side", 3) : 0);
    if (sym_choose("const", 2)) {
        const C& cc = c;
        arithmetic(cc, r);
    } else
        arithmetic(c, r);
    sym_reach("end");
}
template<class It>
static long dist(It a, It b)
{
    // a difference type that cannot count is reported, not refused by the compiler
    if constexpr (std::is_integral_v<typename It::difference_type> && !std::is_const_v<typename It::difference_type>)
        return (long)std::distance(a, b);
    else
        return -1;
}
ENTRY(iter_algorithms)
{
#ifdef DQ
    using B = gmlc::containers::StableBlockDeque<unsigned char, NB>;
#else
    using B = gmlc::containers::StableBlockVector<unsigned char, NB>;
#endif
    constexpr int CAP = 300;
    B c;
    int n = (int)sym_concretize(sym_u64("size", sym_param("min", 0), sym_param("max", 9)));
    unsigned side = dq ? sym_choose("side", 3) : 0;
    unsigned char* ref = new unsigned char[CAP * 2];
    unsigned char* data = new unsigned char[CAP];
    sym_data(data, CAP);
    int b = CAP, e = CAP;
    for (int i = 0; i < n; i++) {
#ifdef DQ
        if (side == 1 || (side == 2 && (i & 1))) {
            c.push_front(data[i]);
            ref[--b] = data[i];
            continue;
        }
#endif
        (void)side;
        c.push_back(data[i]);
        ref[e++] = data[i];
    }
    const B& cc = c;
    CHECK(dist(c.begin(), c.end()) == n, "distance(begin, end) is the size");
    CHECK(dist(cc.begin(), cc.end()) == n, "distance(begin, end) is the size");
    unsigned* out = new unsigned[CAP];
    unsigned* oe = std::transform(c.begin(), c.end(), out, [](const unsigned char& x) { return x + 1u; });
    CHECK(oe - out == n, "transform visits every element");
    for (int i = 0; i < n; i++) CHECK(out[i] == ref[b + i] + 1u, "transform agrees with indexing");
    if (n < 30) {
        unsigned char probe = (unsigned char)sym_u64("probe", 0, 255);
        auto f = std::find_if(cc.begin(), cc.end(), [&](const unsigned char& x) { return x == probe; });
        int w = 0;
        while (w < n && ref[b + w] != probe) w++;
        CHECK(f == cc.begin() + w, "find_if agrees with indexing");
        if (w < n) {
            CHECK(&*f == &cc[(size_t)w], "find_if agrees with indexing");
            sym_reach("found");
        }
    }
    // copy into a container of another shape
    B d((size_t)n, (unsigned char)0);
    std::copy(cc.begin(), cc.end(), d.begin());
    for (int i = 0; i < n; i++) CHECK(d[(size_t)i] == ref[b + i], "copy agrees with indexing");
    auto adv = c.begin();
    std::advance(adv, n);
    CHECK(adv == c.end(), "advance by the size ends at end()");
    delete[] out;
    delete[] ref;
    delete[] data;
    sym_reach("end");
}
// sizes around the capacity of the block table
ENTRY(iter_deep)
{
    deep([](C& c, Ref& r) {
        iterate(c, r);
        const C& cc = c;
        int n = 0;
        for (auto& x : cc) {
            CHECK(n < r.n() && x.v == r.v[r.b + n], "iteration visits the elements in index order");
            n++;
        }
        CHECK(n == r.n(), "iteration visits every element");
        CHECK(c.begin() + r.n() == c.end(), "begin() + size() is end()");
    });
}
