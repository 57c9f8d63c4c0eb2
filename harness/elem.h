// Element type that knows whether it is alive, and symbolic keys of several kinds.
#pragma once
#include "sym.h"
#include <string>
#include <string_view>
namespace {
long alive = 0;
constexpr unsigned ALIVE = 0x600DCAFE, DEAD = 0xDEADDEAD;
struct Elem {
    unsigned magic;
    unsigned v;
    void up()
    {
        magic = ALIVE;
        alive++;
    }
    Elem() : v(0) { up(); }
    Elem(unsigned x) : v(x) { up(); }
    Elem(const Elem& o) : v(o.v)
    {
        CHECK(o.magic == ALIVE, "only live elements are read");
        up();
    }
    Elem(Elem&& o) : v(o.v)
    {
        CHECK(o.magic == ALIVE, "only live elements are read");
        o.v = 0;
        up();
    }
    Elem& operator=(const Elem& o)
    {
        CHECK(magic == ALIVE && o.magic == ALIVE, "only live elements are assigned");
        v = o.v;
        return *this;
    }
    Elem& operator=(Elem&& o)
    {
        CHECK(magic == ALIVE && o.magic == ALIVE, "only live elements are assigned");
        unsigned t = o.v;
        o.v = 0;
        v = t;
        return *this;
    }
    ~Elem()
    {
        CHECK(magic == ALIVE, "an element is destroyed exactly once, and only after it was constructed");
        magic = DEAD;
        alive--;
    }
};
// a key type without an easy hash: kept in ordered maps
struct Ord {
    unsigned a;
    bool operator<(const Ord& o) const { return a < o.a; }
    bool operator==(const Ord& o) const { return a == o.a; }
};
// a caller's name: short (in-place string) or long (heap string), with an arbitrary character
struct Name {
    char b[20];
    unsigned n;
    std::string_view view() const { return std::string_view(b, n); }
    bool operator==(const Name& o) const { return n == o.n && (n == 0 || b[n - 1] == o.b[n - 1]); }
};
template<class K>
struct KeyOf;
template<>
struct KeyOf<unsigned> {
    using T = unsigned;
    static T make() { return (unsigned)sym_u64("key", 0, 0xFFFFFFFF); }
    static unsigned get(const T& t) { return t; }
    static T of(unsigned i) { return i * 7 + 3; }  // distinct concrete keys
};
template<>
struct KeyOf<unsigned long> {
    using T = unsigned long;
    static T make() { return (unsigned long)sym_u64("longkey", 0, 0xFFFFFFFFFFFFull); }
    static unsigned long get(const T& t) { return t; }
    static T of(unsigned i) { return i * 11 + 5; }
};
template<>
struct KeyOf<Ord> {
    using T = Ord;
    static T make() { return Ord{(unsigned)sym_u64("ord", 0, 0xFFFFFFFF)}; }
    static Ord get(const T& t) { return t; }
    static T of(unsigned i) { return Ord{(i * 37) % 251}; }
};
template<>
struct KeyOf<std::string> {
    using T = Name;
    static T make()
    {
        static const unsigned len[3] = {1, 18, 0};
        Name r;
        r.n = len[sym_choose("namelen", (unsigned)sym_param("lens", 2))];
        for (unsigned i = 0; i < 20; i++) r.b[i] = 'x';
        if (r.n) r.b[r.n - 1] = (char)sym_u64("char", 1, 255);
        return r;
    }
    static T of(unsigned i)
    {
        Name r;
        r.n = i % 3 == 2 ? 18 : 1;
        for (unsigned j = 0; j < 20; j++) r.b[j] = 'x';
        r.b[r.n - 1] = (char)(1 + i % 250);
        return r;
    }
    static std::string get(const T& t) { return std::string(t.view()); }
};
}  // namespace
