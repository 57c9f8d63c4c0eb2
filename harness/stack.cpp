// C04 C05 C06: StackBuffer
#include "StackBuffer.hpp"
#include "sym.h"
#include <cstring>
#include <stdexcept>
#include <utility>
using gmlc::containers::StackBuffer;
using gmlc::containers::StackBufferRaw;

namespace {
constexpr int MAXOPS = 16;
// -DSCALE=3000: every bound on a size or capacity is scaled, 16-bit quantities are passed as well
#ifndef SCALE
#define SCALE 1
#endif
constexpr int S(int n)
{
    return n * SCALE;
}
constexpr int MAXSZ = S(64);
struct Ref {
    const unsigned char* src[MAXOPS];
    int size[MAXOPS];
    int n = 0;
    bool empty() const { return n == 0; }
    int top() const { return n ? size[n - 1] : 0; }
    void push(const unsigned char* s, int z)
    {
        src[n] = s;
        size[n++] = z;
    }
    void reverse()
    {
        for (int i = 0; i < n / 2; i++) {
            std::swap(src[i], src[n - 1 - i]);
            std::swap(size[i], size[n - 1 - i]);
        }
    }
};
struct Pool {
    unsigned char* b[MAXOPS];
    int n = 0;
    Pool()
    {
        for (auto& x : b) x = nullptr;
    }
    unsigned char* next()
    {
        b[n] = new unsigned char[MAXSZ];
        sym_data(b[n], MAXSZ);
        return b[n++];
    }
    ~Pool()
    {
        for (int i = 0; i < n; i++) delete[] b[i];
    }
};
template<class B>
void checkState(const B& b, const Ref& r)
{
    CHECK(b.empty() == r.empty(), "empty() is true exactly when no block remains");
    CHECK(b.nextDataSize() == r.top(), "nextDataSize() is the size of the block the next pop returns");
    CHECK(b.getCurrentCount() == r.n, "getCurrentCount() is the number of blocks");
}
template<class B>
void doPush(B& b, Ref& r, Pool& p, int lo, int hi)
{
    int n = sym_int("size", lo, hi);
    unsigned char* s = p.next();
    bool ok = b.push(s, n);
    sym_observe(ok);
    if (ok) {
        CHECK(n > 0 && n <= MAXSZ, "a block that cannot fit is rejected");
        r.push(s, n);
        sym_reach("pushed");
    } else
        sym_reach("refused");
}
template<class B>
void popCheck(B& b, Ref& r, int m)
{
    unsigned char* out = new unsigned char[m > 0 ? m : 0];
    int got = b.pop(out, m);
    sym_observe((unsigned)got);
    if (r.empty())
        CHECK(got == 0, "pop from an empty stack returns 0");
    else {
        int n = r.top();
        if (n > m) {
            CHECK(got == -n, "pop into a too small buffer returns minus the needed size");
            sym_reach("toosmall");
        } else {
            CHECK(got == n, "pop returns the size of the newest block");
            int i = sym_int("byte", 0, MAXSZ - 1);
            sym_assume(i < n);
            CHECK(out[i] == r.src[r.n - 1][i], "pop returns the bytes that were pushed");
            r.n--;
            sym_reach("popped");
        }
    }
    delete[] out;
}
template<class B>
void drain(B& b, Ref& r)
{
    while (!r.empty()) popCheck(b, r, MAXSZ);
    popCheck(b, r, MAXSZ);
    checkState(b, r);
}
template<class B>
void history(B& b, Ref& r, Pool& p, int ops, int hi)
{
    for (int k = 0; k < ops; k++) {
        switch (sym_choose("op", 3)) {
            case 0: doPush(b, r, p, -1, hi); break;
            case 1: popCheck(b, r, sym_int("max", 0, hi)); break;
            default:
                b.reverse();
                r.reverse();
                if (r.n > 1) sym_reach("reversed");
        }
        checkState(b, r);
    }
}
// what fits into an empty stack of this capacity
// (the largest block a new stack of 64 bytes takes tells what the stack needs for itself)
int overhead()
{
    static int o = -1;
    if (o < 0) {
        static const unsigned char zero[64] = {};
        int n = 64;
        for (; n > 0; n--) {
            StackBuffer t(64);
            if (t.push(zero, n)) break;
        }
        o = 64 - n;
    }
    return o;
}
bool fits(int n, int cap) { return n <= cap - overhead(); }
}  // namespace
ENTRY(c04_history)
{
    int cap = sym_int("capacity", 0, S((int)sym_param("cap", 64)));
    Pool p;
    StackBuffer b(cap);
    Ref r;
    checkState(b, r);
    history(b, r, p, (int)sym_param("ops", 4), S((int)sym_param("hi", 40)));
    sym_reach("end");
}
ENTRY(c04_deep)
{
    int cap = sym_int("capacity", 8, S((int)sym_param("cap", 96)));
    Pool p;
    StackBuffer b(cap);
    Ref r;
    int n = (int)sym_param("first", 4);
    for (int k = 0; k < n; k++) doPush(b, r, p, 1, S(24));
    if (sym_choose("rev1", 2)) {
        b.reverse();
        r.reverse();
    }
    unsigned pops = sym_choose("pops", 4);
    for (unsigned k = 0; k < pops; k++) popCheck(b, r, MAXSZ);
    checkState(b, r);
    for (int k = 0; k < (int)sym_param("second", 2); k++) doPush(b, r, p, 1, S(24));
    if (sym_choose("rev2", 2)) {
        b.reverse();
        r.reverse();
    }
    checkState(b, r);
    drain(b, r);
    sym_reach("end");
}
ENTRY(c04_raw)
{
    int cap = sym_int("capacity", 0, S(48));
    Pool p;
    unsigned char* block = new unsigned char[cap];
    {
        StackBufferRaw b(block, cap);
        Ref r;
        history(b, r, p, (int)sym_param("ops", 3), S(40));
        b.clear();
        r.n = 0;
        checkState(b, r);
        doPush(b, r, p, 1, S(40));
        drain(b, r);
    }
    delete[] block;
    sym_reach("end");
}
namespace {
template<class B>
void space(B& b, int ops, int cap, int hi)
{
    Pool p;
    Ref r;
    unsigned char* out = new unsigned char[MAXSZ];
    bool reversed = false;
    for (int k = 0; k < ops; k++) {
        switch (sym_choose("op", 5)) {
            case 0: {
                int n = sym_int("size", 1, hi);
                unsigned char* s = p.next();
                bool room = b.isSpaceAvailable(n);
                bool ok = b.push(s, n);
                sym_observe(ok);
                CHECK(ok == room, "isSpaceAvailable(n) is true exactly when push of n bytes is accepted");
                if (r.empty()) CHECK(ok == fits(n, cap), "an empty stack accepts every block that fits its capacity");
                if (ok) {
                    r.push(s, n);
                    sym_reach("pushed");
                    if (!reversed) {
                        // taking it off again gives all its space back
                        if (sym_choose("undo", 2)) {
                            int q = sym_int("probe", 1, MAXSZ);
                            unsigned char* s2 = p.next();
                            CHECK(b.pop(out, MAXSZ) == n, "the newest block comes out");
                            CHECK(b.isSpaceAvailable(n), "popping gives back all the space a block took");
                            r.n--;
                            bool was = b.isSpaceAvailable(q);
                            bool o2 = b.push(s2, q);
                            CHECK(o2 == was, "isSpaceAvailable(n) is true exactly when push of n bytes is accepted");
                            if (o2) {
                                CHECK(b.pop(out, MAXSZ) == q, "the newest block comes out");
                                CHECK(b.isSpaceAvailable(q), "popping gives back all the space a block took");
                            }
                        }
                    }
                }
                break;
            }
            case 1: {
                int m = sym_int("max", 0, MAXSZ);
                unsigned char* d = new unsigned char[m];
                if (b.pop(d, m) > 0) {
                    r.n--;
                    sym_reach("popped");
                    if (r.empty()) reversed = false;
                }
                delete[] d;
                break;
            }
            case 4:
                b.clear();
                r = Ref();
                reversed = false;
                break;
            case 2:
                b.reverse();
                r.reverse();
                if (r.n > 1) reversed = true;
                break;
            default: {
                int n = sym_choose("huge", 2) ? sym_int("any", MAXSZ + 1, INT32_MAX) : sym_int("any", INT32_MIN, 0);
                CHECK(n <= 0 || !b.isSpaceAvailable(n), "no space for a block larger than the buffer");
                CHECK(!b.push(p.next(), n), "a block that cannot fit is rejected");
                int m = sym_int("anymax", INT32_MIN, 0);
                CHECK(b.pop(out, m) <= 0, "nothing is popped into no space");
                sym_reach("any");
            }
        }
        (void)b.nextDataSize();
    }
    while (!r.empty()) {
        CHECK(b.pop(out, MAXSZ) > 0, "every accepted block can be popped");
        r.n--;
    }
    CHECK(b.empty(), "the stack is empty once everything is popped");
    int n = sym_int("last", 1, MAXSZ);
    CHECK(b.isSpaceAvailable(n) == fits(n, cap), "an emptied stack has the whole space of its capacity available again");
    CHECK(b.push(p.next(), n) == fits(n, cap), "an emptied stack accepts every block that fits its capacity");
    delete[] out;
    sym_reach("end");
}
void prefix(StackBuffer& b, Ref& r, Pool& p, int ops, int hi)
{
    for (int k = 0; k < ops; k++) {
        unsigned op = k == 0 ? 0 : sym_choose("pre", 3);
        if (op == 0)
            doPush(b, r, p, 1, hi);
        else if (op == 1) {
            if (!r.empty()) popCheck(b, r, MAXSZ);
        } else {
            b.reverse();
            r.reverse();
        }
    }
}
// pushes, maybe reversed, any pops, pushes
void deepPrefix(StackBuffer& b, Ref& r, Pool& p, int n1, int n2, int hi)
{
    for (int k = 0; k < n1; k++) doPush(b, r, p, 1, hi);
    if (sym_choose("rev", 2)) {
        b.reverse();
        r.reverse();
    }
    unsigned pops = sym_choose("pops", (unsigned)r.n + 1);
    for (unsigned k = 0; k < pops; k++) popCheck(b, r, MAXSZ);
    for (int k = 0; k < n2; k++) doPush(b, r, p, 1, hi);
}
void anyStack(StackBuffer& b, Ref& r, Pool& p, int pre, int hi)
{
    int first = (int)sym_param("first", 0);
    if (first)
        deepPrefix(b, r, p, first, (int)sym_param("second", 1), hi);
    else
        prefix(b, r, p, pre, hi);
}
void after(StackBuffer& b, Ref& r, Pool& p, int ops, int cap)
{
    CHECK(b.capacity() == cap, "capacity() is the capacity asked for");
    for (int k = 0; k < ops; k++) {
        bool was = r.empty();
        int n = sym_int("size", 1, S(40));
        unsigned char* s = p.next();
        bool ok = b.push(s, n);
        if (was) CHECK(ok == fits(n, cap), "behaves as a stack of its capacity afterwards");
        if (ok) r.push(s, n);
        checkState(b, r);
    }
    drain(b, r);
    int n = sym_int("full", 1, MAXSZ);
    CHECK(b.isSpaceAvailable(n) == fits(n, cap), "the emptied stack has the space of its capacity");
}
}  // namespace
ENTRY(c05_space)
{
    int cap = sym_int("capacity", 0, S(56));
    StackBuffer b(cap);
    CHECK(b.capacity() == cap, "capacity() is the size given");
    space(b, (int)sym_param("ops", 3), cap, S(60));
}
// pushes, maybe reversed, any pops, pushes, maybe reversed: the accepted blocks always have room of their own
ENTRY(c05_deep)
{
    int cap = sym_int("capacity", 0, S((int)sym_param("cap", 80)));
    Pool p;
    StackBuffer b(cap);
    Ref r;
    bool reversed = false;
    unsigned char* out = new unsigned char[MAXSZ];
    for (int round = 0; round < 2; round++) {
        int n = (int)sym_param(round ? "second" : "first", round ? 2 : 3);
        for (int k = 0; k < n; k++) {
            int sz = sym_int("size", 1, S(24));
            unsigned char* s = p.next();
            bool room = b.isSpaceAvailable(sz);
            bool ok = b.push(s, sz);
            CHECK(ok == room, "isSpaceAvailable(n) is true exactly when push of n bytes is accepted");
            if (ok) r.push(s, sz);
            int total = 0;
            for (int i = 0; i < r.n; i++) total += r.size[i] + overhead();
            CHECK(total <= cap, "the blocks in the stack and their indices have room in its capacity");
            if (!reversed) CHECK(ok || total + sz + overhead() > cap, "a block that fits is accepted as long as nothing was reversed");
        }
        if (sym_choose("rev", 2)) {
            b.reverse();
            r.reverse();
            reversed = reversed || r.n > 1;
        }
        unsigned pops = round ? (unsigned)r.n : sym_choose("pops", (unsigned)r.n + 1);
        for (unsigned k = 0; k < pops; k++) {
            int sz = r.top();
            CHECK(b.pop(out, MAXSZ) == sz, "every accepted block can be popped");
            int i = sym_int("byte", 0, MAXSZ - 1);
            sym_assume(i < sz);
            CHECK(out[i] == r.src[r.n - 1][i], "no block is overwritten while it is in the stack");
            r.n--;
            if (r.empty()) reversed = false;
        }
    }
    CHECK(b.empty(), "the stack is empty once everything is popped");
    int n = sym_int("last", 1, MAXSZ);
    CHECK(b.isSpaceAvailable(n) == fits(n, cap), "an emptied stack has the whole space of its capacity available again");
    delete[] out;
    sym_reach("end");
}
ENTRY(c05_default)
{
    StackBuffer b;
    space(b, 2, 0, S(60));
}
ENTRY(c06_resize)
{
    int cap = sym_int("capacity", 0, S(48));
    int nc = sym_int("newcap", 0, S(64));
    uint64_t before = sym_live_allocs();
    {
        Pool p;
        StackBuffer b(cap);
        Ref r;
        int pre = (int)sym_param("pre", 3);
        // the same stack built directly with the new capacity
        StackBuffer twin(nc);
        bool same = true;
        int total = 0;
        for (int k = 0; k < pre; k++) {
            unsigned op = k == 0 ? 0 : sym_choose("pre", 3);
            if (op == 0) {
                int n = sym_int("size", 1, S(24));
                unsigned char* s = p.next();
                if (b.push(s, n)) {
                    r.push(s, n);
                    total += n + 8;
                    if (!twin.push(s, n)) same = false;
                }
            } else if (op == 1) {
                if (!r.empty()) {
                    total -= r.top() + 8;
                    popCheck(b, r, MAXSZ);
                    unsigned char* out = new unsigned char[MAXSZ];
                    if (same) twin.pop(out, MAXSZ);
                    delete[] out;
                }
            } else {
                b.reverse();
                twin.reverse();
                r.reverse();
            }
        }
        bool thrown = false, res = true;
        try {
            res = b.resize(nc);
        }
        catch (const std::exception&) {
            thrown = true;
        }
        sym_observe(thrown);
        if (!thrown) CHECK(res, "resize reports success");
        if (thrown) {
            CHECK(nc < cap, "growing always succeeds");
            sym_reach("threw");
            checkState(b, r);
            after(b, r, p, 1, cap);
        } else {
            sym_reach(nc > cap ? "grown" : "shrunk");
            CHECK(total <= nc, "a resize that does not fit throws");
            checkState(b, r);
            int q = sym_int("probe", 1, MAXSZ);
            if (same) CHECK(b.isSpaceAvailable(q) == twin.isSpaceAvailable(q), "the free space is that of a stack of the new capacity with this content");
            after(b, r, p, 1, nc);
        }
    }
    CHECK(sym_live_allocs() == before, "every storage block is released");
    sym_reach("end");
}
// a stack that was only pushed to: resize succeeds exactly when the content fits
ENTRY(c06_fits)
{
    int cap = sym_int("capacity", 0, S(56));
    int nc = sym_int("newcap", 0, S(64));
    Pool p;
    StackBuffer b(cap);
    Ref r;
    int total = 0;
    for (int k = 0; k < (int)sym_param("pre", 3); k++) {
        doPush(b, r, p, 1, S(24));
    }
    for (int i = 0; i < r.n; i++) total += r.size[i] + 8;
    bool thrown = false;
    try {
        b.resize(nc);
    }
    catch (const std::exception&) {
        thrown = true;
    }
    CHECK(thrown == (total > nc), "resize succeeds exactly when the content fits");
    checkState(b, r);
    drain(b, r);
    sym_reach("end");
}
ENTRY(c06_resize2)
{
    int cap = sym_int("capacity", 8, S(40));
    Pool p;
    StackBuffer b(cap);
    Ref r;
    anyStack(b, r, p, (int)sym_param("pre", 2), S(16));
    for (int k = 0; k < 2; k++) {
        int nc = sym_int("newcap", 0, S(56));
        try {
            b.resize(nc);
            cap = nc;
        }
        catch (const std::exception&) {
            CHECK(nc < cap, "growing always succeeds");
        }
        CHECK(b.capacity() == cap, "capacity() follows the successful resizes");
        if (k == 0) switch (sym_choose("between", 3)) {
                case 0: doPush(b, r, p, 1, S(30)); break;
                case 1: popCheck(b, r, MAXSZ); break;
                default: break;
            }
        checkState(b, r);
    }
    after(b, r, p, 1, cap);
    sym_reach("end");
}
ENTRY(c06_copy)
{
    int cap = sym_int("capacity", 0, S(48));
    uint64_t before = sym_live_allocs();
    {
        Pool p;
        StackBuffer b(cap);
        Ref r;
        anyStack(b, r, p, (int)sym_param("pre", 3), S(24));
        Ref r2 = r;
        switch (sym_choose("how", 4)) {
            case 0: {
                StackBuffer c(b);
                checkState(c, r2);
                after(c, r2, p, 1, cap);
                checkState(b, r);
                break;
            }
            case 1: {
                StackBuffer c(sym_int("capacity2", 0, S(48)));
                Ref old;
                doPush(c, old, p, 1, S(24));
                c = b;
                checkState(c, r2);
                after(c, r2, p, 1, cap);
                checkState(b, r);
                break;
            }
            case 2: {
                StackBuffer* s = new StackBuffer(b);
                StackBuffer c(*s);
                s->clear();
                doPush(*s, r, p, 1, S(24));
                delete s;
                checkState(c, r2);
                after(c, r2, p, 1, cap);
                r = Ref();
                b.clear();
                break;
            }
            default: {
                StackBuffer& self = b;
                b = self;
                checkState(b, r);
            }
        }
        after(b, r, p, 1, cap);
    }
    CHECK(sym_live_allocs() == before, "every storage block is released");
    sym_reach("end");
}
ENTRY(c06_move)
{
    int cap = sym_int("capacity", 0, S(48));
    uint64_t before = sym_live_allocs();
    {
        Pool p;
        StackBuffer b(cap);
        Ref r, none;
        anyStack(b, r, p, (int)sym_param("pre", 2), S(24));
        if (sym_choose("assign", 2) == 0) {
            StackBuffer c(std::move(b));
            checkState(c, r);
            after(c, r, p, 1, cap);
        } else {
            StackBuffer c(sym_int("capacity2", 0, S(48)));
            Ref old;
            doPush(c, old, p, 1, S(24));
            c = std::move(b);
            checkState(c, r);
            after(c, r, p, 1, cap);
        }
        checkState(b, none);
        CHECK(b.pop(nullptr, 0) == 0, "nothing comes out of a moved-from stack");
        int nc = sym_int("newcap", 0, S(56));
        switch (sym_choose("again", 4)) {
            case 0:
                CHECK(b.resize(nc), "a moved-from stack can be resized");
                after(b, none, p, 1, nc);
                break;
            case 1: {
                StackBuffer d(nc);
                Ref rd;
                doPush(d, rd, p, 1, S(24));
                b = d;
                checkState(b, rd);
                after(b, rd, p, 0, nc);
                break;
            }
            case 2: {
                StackBuffer d(b);
                b = StackBuffer(nc);
                after(b, none, p, 1, nc);
                d = b;
                break;
            }
            default:
                b.reverse();
                b.clear();
                checkState(b, none);
        }
    }
    CHECK(sym_live_allocs() == before, "every storage block is released");
    sym_reach("end");
}
ENTRY(c06_swap)
{
    int cap = sym_int("capacity", 0, S(48)), cap2 = sym_int("capacity2", 0, S(48));
    uint64_t before = sym_live_allocs();
    {
        Pool p;
        StackBuffer b(cap);
        Ref r, r2;
        anyStack(b, r, p, (int)sym_param("pre", 2), S(24));
        unsigned how = sym_choose("other", 2);
        StackBuffer c = how ? StackBuffer() : StackBuffer(cap2);
        if (how) cap2 = 0;
        for (int k = 0; k < 2; k++) doPush(c, r2, p, 1, S(24));
        b.swap(c);
        checkState(b, r2);
        checkState(c, r);
        after(c, r, p, 1, cap);
        if (sym_choose("clear", 2)) {
            b.clear();
            r2.n = 0;
            checkState(b, r2);
        }
        int nc = sym_int("newcap", 0, S(60));
        sym_assume(nc > cap2);
        CHECK(b.resize(nc), "a swapped stack can be resized");
        after(b, r2, p, 1, nc);
    }
    CHECK(sym_live_allocs() == before, "every storage block is released");
    sym_reach("end");
}
// histories of whole-object operations on two buffers: resized, copied, moved, assigned, swapped in any order
ENTRY(c06_objects)
{
    int ops = (int)sym_param("ops", 3);
    bool resized = sym_param("resized", 1);  // the first operation is a resize
    uint64_t before = sym_live_allocs();
    {
        Pool p;
        int cap[2] = {sym_int("capacity", 0, S(40)), sym_int("capacity2", 0, S(40))};
        StackBuffer* o[2] = {new StackBuffer(cap[0]), new StackBuffer(cap[1])};
        Ref r[2];
        for (int k = 0; k < (int)sym_param("pre", 1); k++) doPush(*o[0], r[0], p, 1, S(24));
        if (sym_param("filled", 1) && sym_choose("second", 2)) doPush(*o[1], r[1], p, 1, S(24));
        for (int k = 0; k < ops; k++) {
            // a resize, a transfer, then a resize or a transfer; or any
            static const unsigned some[] = {0, 10, 2, 3, 4, 5, 8, 9, 11};
            constexpr unsigned ns = sizeof some / sizeof *some;
            unsigned op = !resized ? sym_choose("op", 12) : k == 0 ? some[sym_choose("op", 2)] : k == 1 ? some[2 + sym_choose("op", ns - 2)] : some[sym_choose("op", ns)];
            unsigned a = 0, b = 1;
            if (op >= 8) std::swap(a, b), op = op == 8 ? 3 : op == 9 ? 5 : op == 10 ? 0 : op;
            switch (op) {
                case 0: {
                    int nc = sym_int("newcap", 0, S(56));
                    try {
                        o[a]->resize(nc);
                        cap[a] = nc;
                    }
                    catch (const std::exception&) {
                        CHECK(nc < cap[a], "growing always succeeds");
                    }
                    break;
                }
                case 1: o[0]->clear(), r[0] = Ref(); break;
                case 2:
                    delete o[1];
                    o[1] = new StackBuffer(*o[0]);
                    r[1] = r[0], cap[1] = cap[0];
                    break;
                case 3:
                    *o[b] = *o[a];
                    r[b] = r[a], cap[b] = cap[a];
                    break;
                case 4:
                    delete o[1];
                    o[1] = new StackBuffer(std::move(*o[0]));
                    r[1] = r[0], cap[1] = cap[0], r[0] = Ref(), cap[0] = 0;
                    break;
                case 5:
                    *o[b] = std::move(*o[a]);
                    r[b] = r[a], cap[b] = cap[a], r[a] = Ref(), cap[a] = 0;
                    break;
                case 6: doPush(*o[0], r[0], p, 1, S(30)); break;
                case 7: popCheck(*o[0], r[0], MAXSZ); break;
                default:
                    o[a]->swap(*o[b]);
                    std::swap(r[0], r[1]);
                    std::swap(cap[0], cap[1]);
                    break;
            }
            for (int i = 0; i < 2; i++) {
                CHECK(o[i]->capacity() == cap[i], "each buffer has the capacity given to it");
                checkState(*o[i], r[i]);
            }
        }
        for (int i = 0; i < 2; i++) {
            after(*o[i], r[i], p, 1, cap[i]);
            delete o[i];
        }
    }
    CHECK(sym_live_allocs() == before, "every storage block is released exactly once");
    sym_reach("end");
}
// emptied again and again, by pop or by clear(): the whole space is there every time
ENTRY(c05_rounds)
{
    int cap = sym_int("capacity", 0, S(40)), rounds = (int)sym_param("rounds", 12);
    Pool p;
    StackBuffer b(cap);
    Ref r;
    unsigned how = sym_choose("how", 3);
    for (int k = 0; k < rounds; k++) {
        if (sym_param("two", 0) && how != 2) doPush(b, r, p, 1, S(12));
        int n = sym_int("size", 1, S(40));
        unsigned char* s = p.next();
        if (r.empty()) {
            sym_assume(fits(n, cap));
            CHECK(b.isSpaceAvailable(n), "an emptied buffer has its whole space available again");
        } else
            sym_assume(b.isSpaceAvailable(n));
        CHECK(b.push(s, n), "isSpaceAvailable(n) is true exactly when push of n bytes is accepted");
        unsigned char* out = new unsigned char[n];
        bool last = k + 1 == rounds;
        if (!last && how == 1)
            b.clear();
        else {
            CHECK(b.nextDataSize() == n && b.pop(out, n) == n, "the newest block comes out");
            for (int i = 0; i < 2; i++) {
                int q = i ? n - 1 : sym_int("byte", 0, S(40));
                sym_assume(q < n);
                CHECK(out[q] == s[q], "the newest block comes out with its bytes");
            }
            if (!r.empty()) popCheck(b, r, MAXSZ);
            CHECK(b.empty(), "empty() is true once nothing is left");
            delete[] out;
            continue;
        }
        r = Ref();
        delete[] out;
        CHECK(b.empty(), "empty() is true once nothing is left");
    }
    sym_reach("end");
}
