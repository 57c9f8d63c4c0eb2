// C14-C17: MappedVector, StringMappedVector, MappedPointerVector.   -DKIND=... selects container and key
#include "MappedPointerVector.hpp"
#include "MappedVector.hpp"
#include "StringMappedVector.hpp"
#include "elem.h"
#include <memory>
#include <stdexcept>
#include <utility>
#ifndef BO
#define BO 1
#endif
namespace {
using namespace gmlc::containers;
#if KEY == 0
using K = unsigned;
#elif KEY == 1
using K = Ord;
#else
using K = std::string;
#endif
constexpr bool stable = STABLE;
constexpr auto STAB = STABLE ? reference_stability::stable : reference_stability::unstable;
#if KIND == 0
using MM = MappedVector<Elem, K, STAB, BO>;
#elif KIND == 1
using MM = StringMappedVector<Elem, STAB, BO>;
#else
using MM = MappedPointerVector<Elem, K>;
#endif
constexpr bool ptr = KIND == 2, str = KIND == 1, copyable = KIND != 2;
// removal closes the gap everywhere but in the storages with stable references
constexpr bool closes = !stable || ptr;
constexpr bool keeps = stable || ptr;  // elements keep their address
using KO = KeyOf<K>;
using KT = typename KO::T;
#ifdef MANY
constexpr int MAXK = MANY;
#else
constexpr int MAXK = 12;
#endif
struct Ref {
    unsigned v[MAXK];
    const Elem* at[MAXK];
    int n = 0;
    KT k[MAXK];
    int el[MAXK];
    int nk = 0;
    int find(const KT& q) const
    {
        for (int i = 0; i < nk; i++)
            if (k[i] == q) return el[i];
        return -1;
    }
    void term(const KT& q, int e)
    {
        k[nk] = q;
        el[nk++] = e;
    }
    void drop(int e)
    {
        bool gone = closes || e == n - 1;
        int m = 0;
        for (int i = 0; i < nk; i++) {
            if (el[i] == e) continue;
            k[m] = k[i];
            el[m++] = gone && el[i] > e ? el[i] - 1 : el[i];
        }
        nk = m;
        if (!gone) return;
        for (int i = e; i + 1 < n; i++) v[i] = v[i + 1], at[i] = at[i + 1];
        n--;
    }
};
template<bool S, class T>
auto argOf(const T& q)
{
    if constexpr (S)
        return q.view();
    else
        return KO::get(q);
}
template<class M>
const Elem* atIndex(M& m, size_t i)
{
    if constexpr (ptr)
        return m[i];
    else
        return &m[i];
}
template<class M>
const Elem* lookup(M& m, const KT& q)
{
    if constexpr (ptr) {
        return m.find(KO::get(q));
    } else {
        auto it = m.find(argOf<str>(q));
        const M& c = m;
        auto ct = c.find(argOf<str>(q));
        CHECK((it == m.end()) == (ct == c.end()), "both forms of find agree");
        if (it == m.end()) return nullptr;
        CHECK(&*it == &*ct, "both forms of find agree");
        return &*it;
    }
}
void scrub(Name& c)
{
    for (char& x : c.b) x = '?';
}
template<class T>
void scrub(T&)
{
}
unsigned nextValue(unsigned& s) { return s += 3; }
// every element, key and address agrees with the reference; one more arbitrary key is probed
template<class M>
void same(M& m, const Ref& r, bool more)
{
    CHECK((size_t)m.size() == (size_t)r.n, "size() is the number of elements");
    for (int i = 0; i < r.n; i++) {
        const Elem* e = atIndex(m, (size_t)i);
        CHECK(e && e->magic == ALIVE && e->v == r.v[i], "operator[] yields the element with this index");
        if (keeps) CHECK(e == r.at[i], "an element keeps its address");
    }
    for (int i = 0; i < r.nk; i++)
        CHECK(lookup(m, r.k[i]) == atIndex(m, (size_t)r.el[i]), "a search term leads to its own element");
    if (!more) return;
    KT probe = KO::make();
    int e = r.find(probe);
    const Elem* f = lookup(m, probe);
    CHECK((f == nullptr) == (e < 0), "a key is found exactly when it leads to an element");
    if (e >= 0) CHECK(f == atIndex(m, (size_t)e), "a key leads to its own element");
}
template<class M>
bool insertKey(M& m, const KT& q, unsigned v, unsigned how, std::optional<size_t>& res)
{
    if constexpr (ptr) {
        if (how) {
            auto p = std::make_unique<Elem>(v);
            res = m.insert(KO::get(q), std::move(p));
        } else
            res = m.insert(KO::get(q), v);
    } else if constexpr (str) {
        KT c = q;  // the caller's characters go away after the call
        res = m.insert(argOf<str>(c), v);
        scrub(c);
    } else
        res = m.insert(KO::get(q), v);
    return true;
}
template<class M>
size_t assignKey(M& m, const KT& q, unsigned v, unsigned how)
{
    if constexpr (ptr) {
        if (how) {
            auto p = std::make_unique<Elem>(v);
            return m.insert_or_assign(KO::get(q), std::move(p));
        }
        return m.insert_or_assign(KO::get(q), v);
    } else if constexpr (str) {
        KT c = q;
        size_t i = m.insert_or_assign(argOf<str>(c), v);
        scrub(c);
        return i;
    } else
        return m.insert_or_assign(KO::get(q), v);
}
template<class M>
void appended(M& m, Ref& r, unsigned v)
{
    r.v[r.n] = v;
    r.at[r.n] = atIndex(m, (size_t)r.n);
    r.n++;
}
template<class M>
void step(M& m, Ref& r, unsigned op, unsigned& s)
{
    unsigned v = nextValue(s);
    switch (op) {
        case 0: {
            KT k = KO::make();
            unsigned how = ptr ? sym_choose("how", 2) : 0;
            std::optional<size_t> res;
            insertKey(m, k, v, how, res);
            if (r.find(k) >= 0) {
                sym_reach("present");
                CHECK(!res, "insert under a present key returns nullopt");
            } else {
                CHECK(res && *res == (size_t)r.n, "insert under a new key returns the index of the new element");
                r.term(k, r.n);
                appended(m, r, v);
            }
            break;
        }
        case 1: {
            auto res = m.insert(no_search, v);
            CHECK(res && *res == (size_t)r.n, "insert without a key returns the index of the new element");
            appended(m, r, v);
            break;
        }
        case 2: {
            KT k = KO::make();
            unsigned how = ptr ? sym_choose("how", 2) : 0;
            int e = r.find(k);
            size_t i = assignKey(m, k, v, how);
            if (e >= 0) {
                sym_reach("assigned");
                CHECK(i == (size_t)e, "insert_or_assign returns the index of the replaced element");
                r.v[e] = v;
                if (ptr) r.at[e] = atIndex(m, (size_t)e);  // a new object
            } else {
                CHECK(i == (size_t)r.n, "insert_or_assign under a new key returns the index of the new element");
                r.term(k, r.n);
                appended(m, r, v);
            }
            break;
        }
        case 3: {
            if constexpr (!str) {
                KT k = KO::make();
                unsigned c = sym_choose("index", (unsigned)r.n + 2);
                size_t i = c <= (unsigned)r.n ? c : ~(size_t)0;
                bool ok = m.addSearchTermForIndex(KO::get(k), i);
                bool want = i < (size_t)r.n && r.find(k) < 0;
                CHECK(ok == want, "a search term is added exactly for an existing index and a new term");
                if (want) {
                    sym_reach("term");
                    r.term(k, (int)i);
                }
            }
            break;
        }
        case 4: {
            unsigned c = sym_choose("index", (unsigned)r.n + 2);
            size_t i = c <= (unsigned)r.n ? c : ~(size_t)0;
            m.removeIndex(i);
            if (i < (size_t)r.n) r.drop((int)i);
            break;
        }
        case 5: {
            KT k = KO::make();
            int e = r.find(k);
            m.remove(argOf<str>(k));
            if (e >= 0) {
                sym_reach("removed");
                r.drop(e);
            }
            break;
        }
        case 6: {
            m.clear();
            r.n = r.nk = 0;
            break;
        }
    }
}
const unsigned OPS[] = {0, 1, 2, 4, 5, 6, 3};
unsigned pickOp() { return OPS[sym_choose("op", str ? 6 : 7)]; }
// a prefix of insertions: 0..max elements, some without a key, some with two
template<class M>
void prefix(M& m, Ref& r, unsigned max, unsigned& s)
{
    unsigned n = sym_choose("before", max + 1);
    for (unsigned i = 0; i < n; i++) step(m, r, i == 1 && sym_choose("unkeyed", 2) ? 1 : 0, s);
}
bool leaks() { return alive != 0 || sym_live_allocs() != 0; }
template<class M>
void run_map_history()
{
    {
        M m;
        Ref r;
        unsigned s = (unsigned)sym_u64("base", 0, 0xFFFFFFFF);
        prefix(m, r, (unsigned)sym_param("before", 2), s);
        unsigned n = (unsigned)sym_param("ops", 2);
        for (unsigned i = 0; i < n; i++) step(m, r, pickOp(), s);
        same(m, r, true);
        sym_observe(m.size());
    }
    CHECK(!leaks(), "every element and block is released exactly once");
    sym_reach("end");
}

// several elements and terms, then removals and lookups, insertion after removal
template<class M>
void run_map_remove()
{
    {
        M m;
        Ref r;
        unsigned s = (unsigned)sym_u64("base", 0, 0xFFFFFFFF);
        unsigned n = (unsigned)sym_param("elems", 3);
        for (unsigned i = 0; i < n; i++) {
            KT k = KO::make();
            sym_assume(r.find(k) < 0);
            std::optional<size_t> res;
            insertKey(m, k, nextValue(s), 0, res);
            CHECK(res && *res == i, "insert under a new key returns the index of the new element");
            r.term(k, (int)i);
            appended(m, r, s);
        }
        if (!str) step(m, r, 3, s);
        if (!str && sym_param("terms", 1) > 1) step(m, r, 3, s);
        step(m, r, sym_choose("by", 2) ? 4 : 5, s);
        same(m, r, false);
        step(m, r, sym_choose("by", 2) ? 4 : 5, s);
        same(m, r, false);
        step(m, r, 0, s);
        same(m, r, true);
    }
    CHECK(!leaks(), "every element and block is released exactly once");
    sym_reach("end");
}

// whole-container views: iteration, apply, modify, transform, back, at
template<class M>
void run_map_views()
{
    {
        M m;
        Ref r;
        unsigned s = (unsigned)sym_u64("base", 0, 0xFFFFFFFF);
        prefix(m, r, (unsigned)sym_param("before", 3), s);
        if (sym_choose("more", 2)) step(m, r, pickOp(), s);
        unsigned n = 0;
        const M& c = m;
        if constexpr (ptr) {
            for (auto it = c.begin(); it != c.end(); ++it, n++)
                CHECK(n < (unsigned)r.n && it->get() == atIndex(m, n), "iteration visits the elements in order");
            CHECK(n == (unsigned)r.n, "iteration visits every element");
            n = 0;
            m.apply([&](Elem* e) {
                CHECK(n < (unsigned)r.n && e == atIndex(m, n), "apply visits the elements in order");
                e->v += 5;
                n++;
            });
            CHECK(n == (unsigned)r.n, "apply visits every element");
            for (int i = 0; i < r.n; i++) r.v[i] += 5;
            n = 0;
            c.apply([&](const Elem* e) {
                CHECK(n < (unsigned)r.n && e == atIndex(m, n), "apply visits the elements in order");
                n++;
            });
            CHECK(n == (unsigned)r.n, "apply visits every element");
            size_t z = (size_t)sym_u64("index", 0, ~(unsigned long long)0);
            CHECK(z < (size_t)r.n || m[z] == nullptr, "operator[] beyond the end is null");
            if (r.n) CHECK(m.back() == atIndex(m, (size_t)r.n - 1), "back() is the last element");
        } else {
            for (auto it = c.begin(); it != c.end(); ++it, n++)
                CHECK(n < (unsigned)r.n && &*it == atIndex(m, n), "iteration visits the elements in order");
            CHECK(n == (unsigned)r.n, "iteration visits every element");
            n = 0;
            c.apply([&](const Elem& e) {
                CHECK(n < (unsigned)r.n && &e == atIndex(m, n), "apply visits the elements in order");
                n++;
            });
            CHECK(n == (unsigned)r.n, "apply visits every element");
            if (sym_choose("how", 2))
                m.modify([](Elem& e) { e.v += 5; });
            else
                m.transform([](const Elem& e) { return Elem(e.v + 5); });
            for (int i = 0; i < r.n; i++) r.v[i] += 5;
            for (int i = 0; i < r.n; i++) {
                CHECK(&m.at((size_t)i) == atIndex(m, (size_t)i) && &c.at((size_t)i) == atIndex(m, (size_t)i), "at() is the element with this index");
                CHECK(&c[(size_t)i] == atIndex(m, (size_t)i), "the const operator[] is the same element");
            }
            unsigned thrown = 0;
            size_t far = sym_choose("far", 2) ? ~(size_t)0 : (size_t)r.n;
            try {
                m.at(far);
            }
            catch (const std::exception&) {
                thrown++;
            }
            try {
                c.at(far);
            }
            catch (const std::exception&) {
                thrown++;
            }
            CHECK(thrown == 2, "at() beyond the end throws");
            if (r.n) CHECK(&m.back() == atIndex(m, (size_t)r.n - 1) && &c.back() == atIndex(m, (size_t)r.n - 1), "back() is the last element");
        }
        same(m, r, true);
    }
    CHECK(!leaks(), "every element and block is released exactly once");
    sym_reach("end");
}

// copies and moves give the same lookups, independent of the source; both sides stay usable
template<class M>
void run_map_copy()
{
    {
        M* a = new M;
        Ref r;
        unsigned s = (unsigned)sym_u64("base", 0, 0xFFFFFFFF);
        prefix(*a, r, (unsigned)sym_param("before", 2), s);
        if (sym_choose("more", 2)) step(*a, r, pickOp(), s);
        M* b = nullptr;
        unsigned how = sym_choose("how", copyable ? 4 : 2);
        Ref q = r, t;
        bool moved = how < 2;
        unsigned onto = how & 1 ? sym_choose("onto", 2) : 0;
        if (how & 1) {
            b = new M;
            if (onto) step(*b, t, 0, s);
        }
        if (how == 0) b = new M(std::move(*a));
        if (how == 1) *b = std::move(*a);
        if constexpr (copyable) {
            if (how == 2) b = new M(*a);
            if (how == 3) *b = *a;
        }
        if (!moved)
            for (int i = 0; i < q.n; i++) {
                CHECK(b->size() == a->size(), "a copy has the elements of its source");
                q.at[i] = atIndex(*b, (size_t)i);
                CHECK(q.at[i] != r.at[i], "a copy has its own elements");
            }
        unsigned then = sym_choose("then", 3);
        if (moved) {
            if (then == 1) {
                a->clear();
                Ref e;
                step(*a, e, 0, s);
                same(*a, e, false);
            }
        } else if (then == 1) {
            step(*a, r, OPS[2 * sym_choose("srcop", 3)], s);
            same(*a, r, false);
        }
        if (then == 2) {
            delete a;
            a = nullptr;
        }
        same(*b, q, false);
        step(*b, q, sym_choose("last", 2) ? 0 : 5, s);
        same(*b, q, true);
        if (a && !moved && then == 0) same(*a, r, false);
        if constexpr (copyable) {
            if (then == 0) {
                M& self = *b;
                self = *b;
                for (int i = 0; i < q.n && (size_t)i < (size_t)b->size(); i++) q.at[i] = atIndex(*b, (size_t)i);
                same(*b, q, false);
            }
        }
        delete b;
        delete a;
    }
    CHECK(!leaks(), "every element and block is released exactly once");
    sym_reach("end");
}
// many elements with concrete keys: several blocks of names, a grown block table, several terms for one element. Any of them
// is removed by index or by an arbitrary key, then the container is copied or moved and used on.
template<class M>
void exactly(M& m, const Ref& r, unsigned top)
{
    same(m, r, false);
    for (unsigned i = 0; i < top; i++) {
        KT k = KO::of(i);
        if (r.find(k) < 0) CHECK(lookup(m, k) == nullptr, "a key is found exactly when it leads to an element");
    }
}
template<class M>
void run_map_many()
{
    {
        M m;
        Ref r;
        unsigned s = (unsigned)sym_u64("base", 0, 0xFFFFFFFF);
        unsigned lo = (unsigned)sym_param("lo", 9), hi = (unsigned)sym_param("hi", 9);
        unsigned n = lo + sym_choose("elements", hi - lo + 1), top = n + n / 4 + 1;
        for (unsigned i = 0; i < n; i++) {
            nextValue(s);
            if (i % 5 == 3) {
                auto res = m.insert(no_search, s);
                CHECK(res && *res == i, "insert without a key returns the index of the new element");
            } else {
                std::optional<size_t> res;
                insertKey(m, KO::of(i), s, 0, res);
                CHECK(res && *res == i, "insert under a new key returns the index of the new element");
                r.term(KO::of(i), (int)i);
            }
            appended(m, r, s);
        }
        if constexpr (!str)
            for (unsigned i = n; i < top - 1; i++) {
                int e = (int)(n - 1 - (i - n) / 2);
                CHECK(m.addSearchTermForIndex(KO::get(KO::of(i)), (size_t)e), "a search term is added exactly for an existing index and a new term");
                r.term(KO::of(i), e);
            }
        if (sym_choose("by", 2)) {
            unsigned i = sym_choose("index", n);
            m.removeIndex(i);
            r.drop((int)i);
        } else
            step(m, r, 5, s);
        exactly(m, r, top);
        unsigned then = sym_choose("then", copyable ? 3 : 2);
        M* b = &m;
        if (then == 1) b = new M(std::move(m));
        if constexpr (copyable) {
            if (then == 2) {
                b = new M;
                *b = m;
                for (int i = 0; i < r.n; i++) r.at[i] = atIndex(*b, (size_t)i);
                m.clear();
            }
        }
        if (sym_choose("more", 2)) {
            b->removeIndex((size_t)r.n / 2);
            r.drop(r.n / 2);
        }
        std::optional<size_t> res;
        nextValue(s);
        insertKey(*b, KO::of(top), s, 0, res);
        CHECK(res && *res == (size_t)r.n, "insert under a new key returns the index of the new element");
        r.term(KO::of(top), r.n);
        appended(*b, r, s);
        exactly(*b, r, top + 1);
        if (then) delete b;
    }
    CHECK(!leaks(), "every element and block is released exactly once");
    sym_reach("end");
}
}  // namespace

ENTRY(map_many) { run_map_many<MM>(); }
ENTRY(map_history) { run_map_history<MM>(); }
ENTRY(map_remove) { run_map_remove<MM>(); }
ENTRY(map_views) { run_map_views<MM>(); }
ENTRY(map_copy) { run_map_copy<MM>(); }
