// C18-C20: DualMappedVector, DualStringMappedVector, DualMappedPointerVector.   -DKIND, -DKEY (first key type), -DSTABLE
#include "DualMappedPointerVector.hpp"
#include "DualMappedVector.hpp"
#include "DualStringMappedVector.hpp"
#include "elem.h"
#include <memory>
#include <stdexcept>
#include <utility>
#ifndef BO
#define BO 1
#endif
namespace {
using namespace gmlc::containers;
#if KEY == 0
using K1 = unsigned;
#elif KEY == 1
using K1 = Ord;
#else
using K1 = std::string;
#endif
using K2 = unsigned long;
constexpr bool stable = STABLE;
constexpr auto STAB = STABLE ? reference_stability::stable : reference_stability::unstable;
#if KIND == 0
using MM = DualMappedVector<Elem, K1, K2, STAB, BO>;
#elif KIND == 1
using MM = DualStringMappedVector<Elem, K2, STAB, BO>;
#else
using MM = DualMappedPointerVector<Elem, K1, K2>;
#endif
constexpr bool ptr = KIND == 2, str = KIND == 1, copyable = KIND != 2;
constexpr bool closes = !stable || ptr;
constexpr bool keeps = stable || ptr;
using T1 = KeyOf<K1>::T;
using T2 = unsigned long;
#ifdef MANY
constexpr int MAXK = MANY;
#else
constexpr int MAXK = 12;
#endif
template<class T>
struct Terms {
    T k[MAXK];
    int el[MAXK];
    int n = 0;
    int find(const T& q) const
    {
        for (int i = 0; i < n; i++)
            if (k[i] == q) return el[i];
        return -1;
    }
    void set(const T& q, int e)
    {
        for (int i = 0; i < n; i++)
            if (k[i] == q) {
                el[i] = e;
                return;
            }
        k[n] = q;
        el[n++] = e;
    }
    void drop(int e, bool gone)
    {
        int m = 0;
        for (int i = 0; i < n; i++) {
            if (el[i] == e) continue;
            k[m] = k[i];
            el[m++] = gone && el[i] > e ? el[i] - 1 : el[i];
        }
        n = m;
    }
};
struct Ref {
    unsigned v[MAXK];
    const Elem* at[MAXK];
    int n = 0;
    Terms<T1> a;
    Terms<T2> b;
    void drop(int e)
    {
        bool gone = closes || e == n - 1;
        a.drop(e, gone);
        b.drop(e, gone);
        if (!gone) return;
        for (int i = e; i + 1 < n; i++) v[i] = v[i + 1], at[i] = at[i + 1];
        n--;
    }
};
template<bool S, class T>
auto arg1(const T& q)
{
    if constexpr (S)
        return q.view();
    else
        return KeyOf<K1>::get(q);
}
unsigned long arg2(T2 q) { return q; }
void scrub(Name& c)
{
    for (char& x : c.b) x = '?';
}
template<class T>
void scrub(T&)
{
}
T1 key1() { return KeyOf<K1>::make(); }
T2 key2() { return KeyOf<K2>::make(); }
template<class M>
const Elem* atIndex(M& m, size_t i)
{
    if constexpr (ptr)
        return m[i];
    else
        return &m[i];
}
template<class M, class Q>
const Elem* found(M& m, const Q& q)
{
    if constexpr (ptr) {
        return m.find(q);
    } else {
        auto it = m.find(q);
        const M& c = m;
        auto ct = c.find(q);
        CHECK((it == m.end()) == (ct == c.end()), "both forms of find agree");
        if (it == m.end()) return nullptr;
        CHECK(&*it == &*ct, "both forms of find agree");
        return &*it;
    }
}
template<class M>
const Elem* look1(M& m, const T1& q)
{
    return found(m, arg1<str>(q));
}
template<class M>
const Elem* look2(M& m, T2 q)
{
    return found(m, arg2(q));
}
unsigned nextValue(unsigned& s) { return s += 3; }
template<class M>
void same(M& m, const Ref& r, bool more)
{
    CHECK((size_t)m.size() == (size_t)r.n, "size() is the number of elements");
    for (int i = 0; i < r.n; i++) {
        const Elem* e = atIndex(m, (size_t)i);
        CHECK(e && e->magic == ALIVE && e->v == r.v[i], "operator[] yields the element with this index");
        if (keeps) CHECK(e == r.at[i], "an element keeps its address");
    }
    for (int i = 0; i < r.a.n; i++)
        CHECK(look1(m, r.a.k[i]) == atIndex(m, (size_t)r.a.el[i]), "a first key leads to its own element");
    for (int i = 0; i < r.b.n; i++)
        CHECK(look2(m, r.b.k[i]) == atIndex(m, (size_t)r.b.el[i]), "a second key leads to its own element");
    if (!more) return;
    if (sym_choose("probe", 2)) {
        T1 p = key1();
        int e = r.a.find(p);
        const Elem* f = look1(m, p);
        CHECK((f == nullptr) == (e < 0), "a first key is found exactly when it leads to an element");
        if (e >= 0) CHECK(f == atIndex(m, (size_t)e), "a first key leads to its own element");
    } else {
        T2 p = key2();
        int e = r.b.find(p);
        const Elem* f = look2(m, p);
        CHECK((f == nullptr) == (e < 0), "a second key is found exactly when it leads to an element");
        if (e >= 0) CHECK(f == atIndex(m, (size_t)e), "a second key leads to its own element");
    }
}
template<class M>
void appended(M& m, Ref& r, unsigned v)
{
    CHECK((size_t)m.size() == (size_t)r.n + 1, "a new element is added at the end");
    r.v[r.n] = v;
    r.at[r.n] = atIndex(m, (size_t)r.n);
    r.n++;
}
enum { I12, I1, I2, I0, A12, A1, A2, REMI, REM1, REM2, CLR, TI1, TI2, T11, T22, T21, T12 };
template<class M>
void step(M& m, Ref& r, unsigned op, unsigned& s)
{
    unsigned v = nextValue(s);
    const auto n = (size_t)r.n;
    const char* newIndex = "an insertion returns the index of the new element";
    switch (op) {
        case I12: {
            T1 k = key1(), c = k;
            T2 l = key2();
            int e = r.a.find(k), f = r.b.find(l);
            std::optional<size_t> res;
            bool owned = ptr && sym_choose("how", 2);
            if constexpr (ptr)
                if (owned) {
                    auto p = std::make_unique<Elem>(v);
                    res = m.insert(arg1<str>(c), arg2(l), std::move(p));
                }
            if (!owned) res = m.insert(arg1<str>(c), arg2(l), v);
            scrub(c);
            if (e >= 0 && f >= 0) {
                sym_reach("present");
                CHECK(!res, "insert under two present keys returns nullopt");
                break;
            }
            CHECK(res && *res == n, newIndex);
            appended(m, r, v);
            // a single present key may stay with its element or go to the new one
            if (e >= 0 && look1(m, k) == atIndex(m, (size_t)e)) {
            } else
                r.a.set(k, (int)n);
            if (f >= 0 && look2(m, l) == atIndex(m, (size_t)f)) {
            } else
                r.b.set(l, (int)n);
            break;
        }
        case I1: {
            T1 k = key1(), c = k;
            int e = r.a.find(k);
            std::optional<size_t> res;
            if constexpr (ptr)
                res = m.insert(arg1<str>(c), nullptr, v);
            else
                res = m.insert(arg1<str>(c), no_search, v);
            scrub(c);
            if (e >= 0) {
                sym_reach("present");
                CHECK(!res, "insert under a present key returns nullopt");
            } else {
                CHECK(res && *res == n, newIndex);
                appended(m, r, v);
                r.a.set(k, (int)n);
            }
            break;
        }
        case I2: {
            T2 l = key2();
            int f = r.b.find(l);
            std::optional<size_t> res = m.insert(no_search, arg2(l), v);
            if (f >= 0) {
                sym_reach("present");
                CHECK(!res, "insert under a present key returns nullopt");
            } else {
                CHECK(res && *res == n, newIndex);
                appended(m, r, v);
                r.b.set(l, (int)n);
            }
            break;
        }
        case I0: {
            if constexpr (!ptr) {
                std::optional<size_t> res = m.insert(no_search, no_search, v);
                CHECK(res && *res == n, newIndex);
                appended(m, r, v);
            }
            break;
        }
        case A12: {
            T1 k = key1(), c = k;
            T2 l = key2();
            int e = r.a.find(k), f = r.b.find(l);
            size_t i = 0;
            bool owned = ptr && sym_choose("how", 2);
            if constexpr (ptr)
                if (owned) {
                    auto p = std::make_unique<Elem>(v);
                    i = m.insert_or_assign(arg1<str>(c), arg2(l), std::move(p));
                }
            if (!owned) i = m.insert_or_assign(arg1<str>(c), arg2(l), v);
            scrub(c);
            if (e >= 0 && e == f) CHECK(i == (size_t)e, "insert_or_assign under the keys of an element replaces it");
            if (e < 0 && f < 0) CHECK(i == n, newIndex);
            CHECK(i == n || (e >= 0 && i == (size_t)e) || (f >= 0 && i == (size_t)f), "insert_or_assign returns the index of the element");
            if (i == n)
                appended(m, r, v);
            else {
                sym_reach("assigned");
                r.v[i] = v;
                if (ptr) r.at[i] = atIndex(m, i);
            }
            r.a.set(k, (int)i);
            r.b.set(l, (int)i);
            break;
        }
        case A1: {
            T1 k = key1(), c = k;
            int e = r.a.find(k);
            size_t i;
            if constexpr (ptr)
                i = m.insert_or_assign(arg1<str>(c), nullptr, v);
            else
                i = m.insert_or_assign(arg1<str>(c), no_search, v);
            scrub(c);
            if (e >= 0) {
                sym_reach("assigned");
                CHECK(i == (size_t)e, "insert_or_assign under a present key replaces its element");
                r.v[i] = v;
                if (ptr) r.at[i] = atIndex(m, i);
            } else {
                CHECK(i == n, newIndex);
                appended(m, r, v);
                r.a.set(k, (int)i);
            }
            break;
        }
        case A2: {
            T2 l = key2();
            int f = r.b.find(l);
            size_t i;
            if constexpr (ptr)
                i = m.insert_or_assign(nullptr, arg2(l), v);
            else
                i = m.insert_or_assign(no_search, arg2(l), v);
            if (f >= 0) {
                sym_reach("assigned");
                CHECK(i == (size_t)f, "insert_or_assign under a present key replaces its element");
                r.v[i] = v;
                if (ptr) r.at[i] = atIndex(m, i);
            } else {
                CHECK(i == n, newIndex);
                appended(m, r, v);
                r.b.set(l, (int)i);
            }
            break;
        }
        case REMI: {
            unsigned c = sym_choose("index", (unsigned)r.n + 2);
            size_t i = c <= (unsigned)r.n ? c : ~(size_t)0;
            m.removeIndex(i);
            if (i < n) r.drop((int)i);
            break;
        }
        case REM1: {
            T1 k = key1();
            int e = r.a.find(k);
            m.remove(arg1<str>(k));
            if (e >= 0) {
                sym_reach("removed");
                r.drop(e);
            }
            break;
        }
        case REM2: {
            T2 l = key2();
            int f = r.b.find(l);
            m.remove(arg2(l));
            if (f >= 0) {
                sym_reach("removed");
                r.drop(f);
            }
            break;
        }
        case CLR:
            m.clear();
            r.n = r.a.n = r.b.n = 0;
            break;
        default:
            if constexpr (!ptr) {
                if (op == TI1 || op == TI2) {
                    unsigned c = sym_choose("index", (unsigned)r.n + 2);
                    size_t i = c <= (unsigned)r.n ? c : ~(size_t)0;
                    bool ok, want;
                    if (op == TI1) {
                        T1 k = key1(), c1 = k;
                        want = i < n && r.a.find(k) < 0;
                        ok = m.addSearchTermForIndex(arg1<str>(c1), i);
                        scrub(c1);
                        if (want) r.a.set(k, (int)i);
                    } else {
                        T2 l = key2();
                        want = i < n && r.b.find(l) < 0;
                        ok = m.addSearchTermForIndex(arg2(l), i);
                        if (want) r.b.set(l, (int)i);
                    }
                    CHECK(ok == want, "a search term is added exactly for an existing index and a new term");
                } else {
                    // a new term for the element of an existing one
                    bool ok, want;
                    int e;
                    T1 x1 = key1(), c1 = x1;
                    T2 x2 = key2();
                    if (op == T11) {
                        T1 o = key1();
                        e = r.a.find(o);
                        want = e >= 0 && r.a.find(x1) < 0;
                        ok = m.addSearchTerm(arg1<str>(c1), arg1<str>(o));
                        if (want) r.a.set(x1, e);
                    } else if (op == T22) {
                        T2 o = key2();
                        e = r.b.find(o);
                        want = e >= 0 && r.b.find(x2) < 0;
                        ok = m.addSearchTerm(arg2(x2), arg2(o));
                        if (want) r.b.set(x2, e);
                    } else if (op == T21) {
                        e = r.a.find(x1);
                        want = e >= 0 && r.b.find(x2) < 0;
                        ok = m.addSearchTerm(arg2(x2), arg1<str>(c1));
                        if (want) r.b.set(x2, e);
                    } else {
                        e = r.b.find(x2);
                        want = e >= 0 && r.a.find(x1) < 0;
                        ok = m.addSearchTerm(arg1<str>(c1), arg2(x2));
                        if (want) r.a.set(x1, e);
                    }
                    scrub(c1);
                    CHECK(ok == want, "a search term is added exactly for an existing term and a new one");
                    if (want) sym_reach("term");
                }
            }
            break;
    }
}
unsigned pickOp() { return sym_choose("op", ptr ? CLR + 1 : T12 + 1); }
template<class M>
void prefix(M& m, Ref& r, unsigned max, unsigned& s)
{
    unsigned n = sym_choose("before", max + 1);
    for (unsigned i = 0; i < n; i++) {
        unsigned k = i ? sym_choose("kind", 3) : 0;
        step(m, r, k == 0 ? I12 : k == 1 ? I1 : I2, s);
    }
}
bool leaks() { return alive != 0 || sym_live_allocs() != 0; }

template<class M>
void run_dual_history()
{
    {
        M m;
        Ref r;
        unsigned s = (unsigned)sym_u64("base", 0, 0xFFFFFFFF);
        prefix(m, r, (unsigned)sym_param("before", 2), s);
        unsigned n = (unsigned)sym_param("ops", 1);
        for (unsigned i = 0; i < n; i++) step(m, r, pickOp(), s);
        same(m, r, true);
        sym_observe(m.size());
    }
    CHECK(!leaks(), "every element and block is released exactly once");
    sym_reach("end");
}
// several elements and extra terms of both kinds, then removals and insertion after them
template<class M>
void run_dual_remove()
{
    {
        M m;
        Ref r;
        unsigned s = (unsigned)sym_u64("base", 0, 0xFFFFFFFF);
        unsigned n = (unsigned)sym_param("elems", 3);
        for (unsigned i = 0; i < n; i++) {
            T1 k = key1(), c = k;
            T2 l = key2();
            sym_assume(r.a.find(k) < 0 && r.b.find(l) < 0);
            unsigned kind = i == 1 ? sym_choose("kind", ptr ? 3 : 4) : 0;
            unsigned v = nextValue(s);
            std::optional<size_t> res;
            if (kind == 0) res = m.insert(arg1<str>(c), arg2(l), v);
            if constexpr (ptr) {
                if (kind == 1) res = m.insert(arg1<str>(c), nullptr, v);
            } else {
                if (kind == 1) res = m.insert(arg1<str>(c), no_search, v);
                if (kind == 3) res = m.insert(no_search, no_search, v);
            }
            if (kind == 2) res = m.insert(no_search, arg2(l), v);
            scrub(c);
            CHECK(res && *res == i, "an insertion returns the index of the new element");
            appended(m, r, v);
            if (kind == 0 || kind == 1) r.a.set(k, (int)i);
            if (kind == 0 || kind == 2) r.b.set(l, (int)i);
        }
        if (!ptr && sym_param("terms", 1)) step(m, r, sym_choose("term", 2) ? TI1 : TI2, s);
        step(m, r, REMI + sym_choose("by", 3), s);
        same(m, r, false);
        if (sym_param("twice", 0)) {
            step(m, r, REMI + sym_choose("by", 3), s);
            same(m, r, false);
        }
        if (sym_param("again", 0)) step(m, r, I12, s);
        same(m, r, true);
    }
    CHECK(!leaks(), "every element and block is released exactly once");
    sym_reach("end");
}
template<class M>
void run_dual_views()
{
    {
        M m;
        Ref r;
        unsigned s = (unsigned)sym_u64("base", 0, 0xFFFFFFFF);
        prefix(m, r, (unsigned)sym_param("before", 2), s);
        if (sym_choose("more", 2)) step(m, r, ptr ? I12 : I0, s);
        if (sym_choose("less", 2)) step(m, r, REMI, s);
        unsigned n = 0;
        const M& c = m;
        if constexpr (ptr) {
            for (auto it = c.begin(); it != c.end(); ++it, n++)
                CHECK(n < (unsigned)r.n && it->get() == atIndex(m, n), "iteration visits the elements in order");
            CHECK(n == (unsigned)r.n, "iteration visits every element");
            n = 0;
            m.apply([&](Elem* e) {
                CHECK(n < (unsigned)r.n && e == atIndex(m, n), "apply visits the elements in order");
                e->v += 5;
                n++;
            });
            CHECK(n == (unsigned)r.n, "apply visits every element");
            for (int i = 0; i < r.n; i++) r.v[i] += 5;
            n = 0;
            c.apply([&](const Elem* e) {
                CHECK(n < (unsigned)r.n && e == atIndex(m, n), "apply visits the elements in order");
                n++;
            });
            CHECK(n == (unsigned)r.n, "apply visits every element");
            size_t z = (size_t)sym_u64("index", 0, ~(unsigned long long)0);
            CHECK(z < (size_t)r.n || m[z] == nullptr, "operator[] beyond the end is null");
            for (int i = 0; i < r.n; i++) CHECK(m.at((size_t)i) == atIndex(m, (size_t)i), "at() is the element with this index");
            if (r.n) CHECK(m.back() == atIndex(m, (size_t)r.n - 1), "back() is the last element");
        } else {
            for (auto it = c.begin(); it != c.end(); ++it, n++)
                CHECK(n < (unsigned)r.n && &*it == atIndex(m, n), "iteration visits the elements in order");
            CHECK(n == (unsigned)r.n, "iteration visits every element");
            n = 0;
            m.apply([&](const Elem& e) {
                CHECK(n < (unsigned)r.n && &e == atIndex(m, n), "apply visits the elements in order");
                n++;
            });
            CHECK(n == (unsigned)r.n, "apply visits every element");
            if (sym_choose("how", 2))
                m.modify([](Elem& e) { e.v += 5; });
            else
                m.transform([](const Elem& e) { return Elem(e.v + 5); });
            for (int i = 0; i < r.n; i++) r.v[i] += 5;
            for (int i = 0; i < r.n; i++) {
                CHECK(&m.at((size_t)i) == atIndex(m, (size_t)i) && &c.at((size_t)i) == atIndex(m, (size_t)i), "at() is the element with this index");
                CHECK(&c[(size_t)i] == atIndex(m, (size_t)i), "the const operator[] is the same element");
            }
            if (r.n) CHECK(&m.back() == atIndex(m, (size_t)r.n - 1) && &c.back() == atIndex(m, (size_t)r.n - 1), "back() is the last element");
        }
        unsigned thrown = 0;
        size_t far = sym_choose("far", 2) ? ~(size_t)0 : (size_t)r.n;
        try {
            m.at(far);
        }
        catch (const std::exception&) {
            thrown++;
        }
        try {
            c.at(far);
        }
        catch (const std::exception&) {
            thrown++;
        }
        CHECK(thrown == 2, "at() beyond the end throws");
        same(m, r, true);
    }
    CHECK(!leaks(), "every element and block is released exactly once");
    sym_reach("end");
}
template<class M>
void run_dual_copy()
{
    {
        M* a = new M;
        Ref r;
        unsigned s = (unsigned)sym_u64("base", 0, 0xFFFFFFFF);
        prefix(*a, r, (unsigned)sym_param("before", 2), s);
        if (!ptr && sym_choose("more", 2)) step(*a, r, sym_choose("term", 2) ? TI1 : TI2, s);
        M* b = nullptr;
        unsigned how = sym_choose("how", copyable ? 4 : 2);
        Ref q = r, t;
        bool moved = how < 2;
        unsigned onto = how & 1 ? sym_choose("onto", 2) : 0;
        if (how & 1) {
            b = new M;
            if (onto) step(*b, t, I12, s);
        }
        if (how == 0) b = new M(std::move(*a));
        if (how == 1) *b = std::move(*a);
        if constexpr (copyable) {
            if (how == 2) b = new M(*a);
            if (how == 3) *b = *a;
        }
        if (!moved) {
            CHECK(b->size() == a->size(), "a copy has the elements of its source");
            for (int i = 0; i < q.n; i++) {
                q.at[i] = atIndex(*b, (size_t)i);
                CHECK(q.at[i] != r.at[i], "a copy has its own elements");
            }
        }
        unsigned then = sym_choose("then", 3);
        if (moved) {
            if (then == 1) {
                a->clear();
                Ref e;
                step(*a, e, I12, s);
                same(*a, e, false);
            }
        } else if (then == 1) {
            step(*a, r, sym_choose("srcop", 2) ? REMI : I12, s);
            same(*a, r, false);
        }
        if (then == 2) {
            delete a;
            a = nullptr;
        }
        same(*b, q, true);
        if (a && !moved && then == 0) {
            step(*b, q, sym_choose("last", 2) ? I12 : REM1, s);
            same(*b, q, false);
            same(*a, r, false);
        }
        if constexpr (copyable) {
            if (then == 0) {
                M& self = *b;
                self = *b;
                for (int i = 0; i < q.n && (size_t)i < (size_t)b->size(); i++) q.at[i] = atIndex(*b, (size_t)i);
                same(*b, q, false);
            }
        }
        delete b;
        delete a;
    }
    CHECK(!leaks(), "every element and block is released exactly once");
    sym_reach("end");
}
// many elements with concrete keys: several blocks of names, a grown block table, several terms for one element. Any of them
// is removed by index or by an arbitrary key, then the container is copied or moved and used on.
template<class M>
void exactly(M& m, const Ref& r, unsigned top)
{
    same(m, r, false);
    for (unsigned i = 0; i < top; i++) {
        T1 k = KeyOf<K1>::of(i);
        if (r.a.find(k) < 0) CHECK(look1(m, k) == nullptr, "a first key is found exactly when it leads to an element");
        T2 l = KeyOf<K2>::of(i);
        if (r.b.find(l) < 0) CHECK(look2(m, l) == nullptr, "a second key is found exactly when it leads to an element");
    }
}
template<class M>
void run_dual_many()
{
    {
        M m;
        Ref r;
        unsigned s = (unsigned)sym_u64("base", 0, 0xFFFFFFFF);
        unsigned lo = (unsigned)sym_param("lo", 9), hi = (unsigned)sym_param("hi", 9);
        unsigned n = lo + sym_choose("elements", hi - lo + 1), top = n + n / 4 + 1;
        for (unsigned i = 0; i < n; i++) {
            T1 k = KeyOf<K1>::of(i), c = k;
            T2 l = KeyOf<K2>::of(i);
            unsigned kind = i % 5 == 3 ? 1 : i % 5 == 4 ? 2 : !ptr && i % 7 == 5 ? 3 : 0;
            nextValue(s);
            std::optional<size_t> res;
            if (kind == 0) res = m.insert(arg1<str>(c), arg2(l), s);
            if constexpr (ptr) {
                if (kind == 1) res = m.insert(arg1<str>(c), nullptr, s);
            } else {
                if (kind == 1) res = m.insert(arg1<str>(c), no_search, s);
                if (kind == 3) res = m.insert(no_search, no_search, s);
            }
            if (kind == 2) res = m.insert(no_search, arg2(l), s);
            scrub(c);
            CHECK(res && *res == i, "an insertion returns the index of the new element");
            appended(m, r, s);
            if (kind == 0 || kind == 1) r.a.set(k, (int)i);
            if (kind == 0 || kind == 2) r.b.set(l, (int)i);
        }
        if constexpr (!ptr)
            for (unsigned i = n; i < top - 1; i++) {
                int e = (int)(n - 1 - (i - n) / 2);
                T1 k = KeyOf<K1>::of(i), c = k;
                T2 l = KeyOf<K2>::of(i);
                CHECK(m.addSearchTermForIndex(arg1<str>(c), (size_t)e), "a search term is added exactly for an existing index and a new term");
                CHECK(m.addSearchTermForIndex(arg2(l), (size_t)e), "a search term is added exactly for an existing index and a new term");
                scrub(c);
                r.a.set(k, e);
                r.b.set(l, e);
            }
        unsigned by = sym_choose("by", 3);
        if (by == 0) {
            unsigned i = sym_choose("index", n);
            m.removeIndex(i);
            r.drop((int)i);
        } else
            step(m, r, by == 1 ? REM1 : REM2, s);
        exactly(m, r, top);
        unsigned then = sym_choose("then", copyable ? 3 : 2);
        M* b = &m;
        if (then == 1) b = new M(std::move(m));
        if constexpr (copyable) {
            if (then == 2) {
                b = new M;
                *b = m;
                for (int i = 0; i < r.n; i++) r.at[i] = atIndex(*b, (size_t)i);
                m.clear();
            }
        }
        if (sym_choose("more", 2)) {
            b->removeIndex((size_t)r.n / 2);
            r.drop(r.n / 2);
        }
        nextValue(s);
        std::optional<size_t> res = b->insert(arg1<str>(KeyOf<K1>::of(top)), arg2(KeyOf<K2>::of(top)), s);
        CHECK(res && *res == (size_t)r.n, "an insertion returns the index of the new element");
        r.a.set(KeyOf<K1>::of(top), r.n);
        r.b.set(KeyOf<K2>::of(top), r.n);
        appended(*b, r, s);
        exactly(*b, r, top + 1);
        if (then) delete b;
    }
    CHECK(!leaks(), "every element and block is released exactly once");
    sym_reach("end");
}
}  // namespace

ENTRY(dual_many) { run_dual_many<MM>(); }
ENTRY(dual_history) { run_dual_history<MM>(); }
ENTRY(dual_remove) { run_dual_remove<MM>(); }
ENTRY(dual_views) { run_dual_views<MM>(); }
ENTRY(dual_copy) { run_dual_copy<MM>(); }
