// C01 C02 C03: CircularBuffer
#include "CircularBuffer.hpp"
#include "sym.h"
#include <cstring>
#include <stdexcept>
#include <utility>
using gmlc::containers::CircularBuffer;
using gmlc::containers::CircularBufferRaw;

namespace {
constexpr int MAXOPS = 16;
// -DSCALE=3000: every bound on a size or capacity is scaled, 16-bit quantities are passed as well
#ifndef SCALE
#define SCALE 1
#endif
constexpr int S(int n)
{
    return n * SCALE;
}
constexpr int MAXSZ = S(64);
// reference: the accepted blocks, oldest first
struct Ref {
    const unsigned char* src[MAXOPS];
    int size[MAXOPS];
    int head = 0, tail = 0;
    bool empty() const { return head == tail; }
    void reset() { head = tail = 0; }
};
// arbitrary bytes for the blocks of one run, one heap block per push
struct Pool {
    unsigned char* b[MAXOPS];
    int n = 0;
    Pool()
    {
        for (auto& x : b) x = nullptr;
    }
    unsigned char* next()
    {
        b[n] = new unsigned char[MAXSZ];
        sym_data(b[n], MAXSZ);
        return b[n++];
    }
    ~Pool()
    {
        for (int i = 0; i < n; i++) delete[] b[i];
    }
};
template<class B>
void checkState(const B& b, const Ref& r)
{
    CHECK(b.empty() == r.empty(), "empty() is true exactly when no accepted block remains");
    CHECK(b.nextDataSize() == (r.empty() ? 0 : r.size[r.head]), "nextDataSize() is the size of the oldest queued block");
}
template<class B>
void doPush(B& b, Ref& r, Pool& p, int lo, int hi)
{
    int n = sym_int("size", lo, hi);
    unsigned char* s = p.next();
    bool ok = b.push(s, n);
    sym_observe(ok);
    if (ok) {
        CHECK(n > 0 && n <= MAXSZ, "a block that cannot fit is rejected");
        r.src[r.tail] = s;
        r.size[r.tail] = n;
        r.tail++;
        sym_reach("pushed");
    } else
        sym_reach("refused");
}
template<class B>
void doPop(B& b, Ref& r, int lo, int hi)
{
    int m = sym_int("max", lo, hi);
    unsigned char* out = new unsigned char[m > 0 ? m : 0];  // exactly the stated range
    int got = b.pop(out, m);
    sym_observe((unsigned)got);
    if (r.empty())
        CHECK(got == 0, "pop from an empty buffer returns 0");
    else {
        int n = r.size[r.head];
        if (n > m) {
            CHECK(got == -n, "pop into a too small buffer returns minus the needed size");
            sym_reach("toosmall");
        } else {
            CHECK(got == n, "pop returns the size of the oldest block");
            int i = sym_int("byte", 0, MAXSZ - 1);
            sym_assume(i < n);
            CHECK(out[i] == r.src[r.head][i], "pop returns the bytes that were pushed");
            r.head++;
            sym_reach("popped");
        }
    }
    delete[] out;
}
// pop everything with a buffer that is large enough
template<class B>
void drain(B& b, Ref& r)
{
    unsigned char* out = new unsigned char[MAXSZ];
    while (!r.empty()) {
        int n = r.size[r.head];
        int got = b.pop(out, MAXSZ);
        CHECK(got == n, "every accepted block comes out, oldest first");
        int i = sym_int("byte", 0, MAXSZ - 1);
        sym_assume(i < n);
        CHECK(out[i] == r.src[r.head][i], "every accepted block comes out with its bytes");
        r.head++;
    }
    CHECK(b.pop(out, MAXSZ) == 0, "nothing but the accepted blocks comes out");
    checkState(b, r);
    delete[] out;
}
}  // namespace
// arbitrary history of pushes and pops on a buffer of arbitrary capacity
ENTRY(c01_history)
{
    int ops = (int)sym_param("ops", 5), hi = S((int)sym_param("hi", 40));
    int cap = sym_int("capacity", 0, S((int)sym_param("cap", 48)));
    Pool p;
    CircularBuffer b(cap);
    Ref r;
    checkState(b, r);
    for (int k = 0; k < ops; k++) {
        if (sym_choose("op", 2) == 0)
            doPush(b, r, p, -1, hi);
        else
            doPop(b, r, 0, hi);
        checkState(b, r);
    }
    sym_reach("end");
}
// longer histories of one shape: fill, pop some, refill around the end, then drain
ENTRY(c01_wrap)
{
    int n1 = (int)sym_param("first", 3), n2 = (int)sym_param("second", 3), hi = S((int)sym_param("hi", 24));
    int cap = sym_int("capacity", 0, S((int)sym_param("cap", 48)));
    Pool p;
    CircularBuffer b(cap);
    Ref r;
    unsigned char* out = new unsigned char[MAXSZ];
    for (int round = 0; round < 2; round++) {
        for (int k = 0; k < (round ? n2 : n1); k++) {
            doPush(b, r, p, 1, hi);
            checkState(b, r);
        }
        if (round == 0 && !r.empty()) {
            unsigned pops = 1 + sym_choose("pops", (unsigned)(r.tail - r.head));
            for (unsigned k = 0; k < pops; k++) {
                CHECK(b.pop(out, MAXSZ) == r.size[r.head], "the oldest block comes out");
                r.head++;
            }
            checkState(b, r);
        }
    }
    delete[] out;
    drain(b, r);
    sym_reach("end");
}
// same on memory the caller owns
ENTRY(c01_raw)
{
    int ops = (int)sym_param("ops", 4);
    int cap = sym_int("capacity", 0, S(40));
    Pool p;
    unsigned char* block = new unsigned char[cap];
    {
        CircularBufferRaw b(block, cap);
        Ref r;
        for (int k = 0; k < ops; k++) {
            unsigned op = sym_choose("op", 3);
            if (op == 0)
                doPush(b, r, p, -1, S(40));
            else if (op == 1)
                doPop(b, r, 0, S(40));
            else {
                b.clear();
                r.reset();
            }
            checkState(b, r);
        }
    }
    delete[] block;
    sym_reach("end");
}
// a queue that can lie anywhere in the ring: pushes, some pops, pushes again, and maybe a pop
namespace {
template<class B>
void ringPrefix(B& b, Ref& r, Pool& p, int n1, int n2, int hi)
{
    unsigned char* out = new unsigned char[MAXSZ];
    for (int k = 0; k < n1; k++) doPush(b, r, p, 1, hi);
    if (!r.empty()) {
        unsigned pops = sym_choose("pops", (unsigned)(r.tail - r.head) + (n2 ? 0 : 1));
        for (unsigned k = 0; k < pops; k++) {
            CHECK(b.pop(out, MAXSZ) == r.size[r.head], "the oldest block comes out");
            r.head++;
        }
    }
    for (int k = 0; k < n2; k++) doPush(b, r, p, 1, hi);
    delete[] out;
}
}  // namespace
// C02: any size argument, accesses only inside the block and the caller's range, truthful space queries
namespace {
template<class B>
void space(B& b, int ops, int cap, int hi, int first = 0, int second = 0)
{
    Pool p;
    int count = 0;
    if (first) {
        Ref r;
        ringPrefix(b, r, p, first, second, S((int)sym_param("hi", 24)));
        count = r.tail - r.head;
    }
    unsigned char* out = new unsigned char[MAXSZ];
    for (int k = 0; k < ops; k++) {
        unsigned op = sym_choose("op", 4);
        if (op == 0) {
            int n = sym_int("size", 1, hi);
            bool room = b.isSpaceAvailable(n);
            bool ok = b.push(p.next(), n);
            sym_observe(ok);
            CHECK(ok == room, "isSpaceAvailable(n) is true exactly when push of n bytes is accepted");
            if (count == 0) CHECK(ok == (n <= cap - 4), "an empty buffer accepts a block of up to capacity minus 4 bytes");
            if (ok) {
                count++;
                sym_reach("pushed");
            }
        } else if (op == 1) {
            int m = sym_int("max", 0, MAXSZ);
            unsigned char* d = new unsigned char[m];
            if (b.pop(d, m) > 0) {
                count--;
                sym_reach("popped");
            }
            delete[] d;
        } else if (op == 3) {
            b.clear();
            count = 0;
        } else {
            // any size argument at all
            int n = sym_choose("huge", 2) ? sym_int("any", MAXSZ + 1, INT32_MAX) : sym_int("any", INT32_MIN, 0);
            unsigned char* s = p.next();
            (void)b.isSpaceAvailable(n);
            CHECK(n <= 0 || !b.isSpaceAvailable(n), "no space for a block larger than the buffer");
            bool ok = b.push(s, n);
            CHECK(!ok, "a block that cannot fit is rejected");
            int m = sym_int("anymax", INT32_MIN, 0);
            int got = b.pop(out, m);  // no room at all: nothing may be written
            CHECK(got <= 0, "nothing is popped into no space");
            sym_reach("any");
        }
        (void)b.nextDataSize();
    }
    while (count > 0) {
        CHECK(b.pop(out, MAXSZ) > 0, "every accepted block can be popped");
        count--;
    }
    CHECK(b.empty(), "the buffer is empty once everything is popped");
    if (cap > 4) {
        int n = sym_int("last", 1, MAXSZ);
        sym_assume(n <= cap - 4);
        CHECK(b.isSpaceAvailable(n), "an emptied buffer has its whole space available again");
        CHECK(b.push(p.next(), n), "an emptied buffer accepts a block of up to capacity minus 4 bytes again");
    }
    delete[] out;
    sym_reach("end");
}
}  // namespace
ENTRY(c02_space)
{
    int cap = sym_int("capacity", 0, S(48));
    CircularBuffer b(cap);
    CHECK(b.capacity() == cap, "capacity() is the size given");
    space(b, (int)sym_param("ops", 3), cap, S(60));
}
// the same from any place in the ring
ENTRY(c02_ring)
{
    int cap = sym_int("capacity", 0, S((int)sym_param("cap", 48)));
    CircularBuffer b(cap);
    space(b, (int)sym_param("ops", 1), cap, S(60), (int)sym_param("first", 2), (int)sym_param("second", 1));
}
ENTRY(c02_default)
{
    CircularBuffer b;
    space(b, 2, 0, S(60));
}
// C03
namespace {
// an arbitrary queue: pushes, one pop possible in between
void prefix(CircularBuffer& b, Ref& r, Pool& p, int ops, int hi)
{
    for (int k = 0; k < ops; k++) {
        if (k == 0 || sym_choose("pre", 2) == 0)
            doPush(b, r, p, 1, hi);
        else if (!r.empty()) {
            unsigned char* out = new unsigned char[MAXSZ];
            CHECK(b.pop(out, MAXSZ) == r.size[r.head], "the oldest block comes out");
            r.head++;
            delete[] out;
        }
    }
}
void after(CircularBuffer& b, Ref& r, Pool& p, int ops, int cap)
{
    for (int k = 0; k < ops; k++) {
        bool was = r.empty();
        int n = sym_int("size", 1, S(40));
        unsigned char* s = p.next();
        bool ok = b.push(s, n);
        if (was) CHECK(ok == (n <= cap - 4), "behaves as a queue of its capacity afterwards");
        if (ok) {
            CHECK(n <= cap - 4, "a block that cannot fit is rejected");
            r.src[r.tail] = s;
            r.size[r.tail] = n;
            r.tail++;
        }
        checkState(b, r);
    }
    drain(b, r);
    int n = sym_int("full", 1, MAXSZ);
    CHECK(b.isSpaceAvailable(n) == (n <= cap - 4), "the emptied queue has the space of its capacity");
}
}  // namespace
namespace {
// the queue before the operation under test
void anyQueue(CircularBuffer& b, Ref& r, Pool& p, int pre)
{
    int first = (int)sym_param("first", 0);
    if (first)
        ringPrefix(b, r, p, first, (int)sym_param("second", 1), S(24));
    else
        prefix(b, r, p, pre, S(24));
}
}  // namespace
ENTRY(c03_resize)
{
    int pre = (int)sym_param("pre", 3);
    int cap = sym_int("capacity", 0, S(40));
    int nc = sym_int("newcap", 0, S(56));
    Pool p;
    {
        CircularBuffer b(cap);
        Ref r;
        anyQueue(b, r, p, pre);
        bool thrown = false;
        try {
            b.resize(nc);
        }
        catch (const std::exception&) {
            thrown = true;
        }
        sym_observe(thrown);
        if (thrown) {
            CHECK(nc < cap, "growing always succeeds");
            sym_reach("threw");
        } else
            sym_reach(nc > cap ? "grown" : "shrunk");
        int now = thrown ? cap : nc;
        CHECK(b.capacity() == now, "capacity() is the new size exactly when resize succeeded");
        checkState(b, r);
        after(b, r, p, (int)sym_param("post", 1), now);
    }
    sym_reach("end");
}
// two resizes with a push or pop between them
ENTRY(c03_resize2)
{
    int cap = sym_int("capacity", 8, S(32));
    Pool p;
    CircularBuffer b(cap);
    Ref r;
    anyQueue(b, r, p, (int)sym_param("pre", 2));
    for (int k = 0; k < 2; k++) {
        int nc = sym_int("newcap", 0, S(40));
        try {
            b.resize(nc);
            cap = nc;
        }
        catch (const std::exception&) {
            CHECK(nc < cap, "growing always succeeds");
        }
        CHECK(b.capacity() == cap, "capacity() follows the successful resizes");
        if (k == 0 && sym_choose("between", 2) == 0) doPush(b, r, p, 1, S(30));
        checkState(b, r);
    }
    after(b, r, p, 0, cap);
    sym_reach("end");
}
ENTRY(c03_copy)
{
    int pre = (int)sym_param("pre", 3);
    int cap = sym_int("capacity", 0, S(40));
    uint64_t before = sym_live_allocs();
    {
        Pool p;
        CircularBuffer b(cap);
        Ref r;
        anyQueue(b, r, p, pre);
        unsigned how = sym_choose("how", 4);
        Ref r2 = r;
        if (how == 0) {
            CircularBuffer c(b);
            CHECK(c.capacity() == cap, "a copy has the capacity of its source");
            checkState(c, r2);
            after(c, r2, p, 1, cap);  // uses up the copy
            checkState(b, r);
        } else if (how == 1) {
            int cap2 = sym_int("capacity2", 0, S(40));
            CircularBuffer c(cap2);
            Ref old;
            doPush(c, old, p, 1, S(24));
            c = b;
            CHECK(c.capacity() == cap, "assignment gives the capacity of the source");
            checkState(c, r2);
            after(c, r2, p, 1, cap);
            checkState(b, r);
        } else if (how == 2) {
            // changes of the source do not reach the copy
            CircularBuffer* s = new CircularBuffer(b);
            CircularBuffer c(*s);
            s->clear();
            doPush(*s, r, p, 1, S(24));
            delete s;
            checkState(c, r2);
            drain(c, r2);
            sym_reach("end");
            return;
        } else {
            CircularBuffer& self = b;
            b = self;
            checkState(b, r);
        }
        after(b, r, p, 1, cap);
    }
    CHECK(sym_live_allocs() == before, "every storage block is released");
    sym_reach("end");
}
ENTRY(c03_move)
{
    int pre = (int)sym_param("pre", 3);
    int cap = sym_int("capacity", 0, S(40));
    uint64_t before = sym_live_allocs();
    {
        Pool p;
        CircularBuffer b(cap);
        Ref r, none;
        anyQueue(b, r, p, pre);
        if (sym_choose("assign", 2) == 0) {
            CircularBuffer c(std::move(b));
            checkState(c, r);
            after(c, r, p, 1, cap);
        } else {
            int cap2 = sym_int("capacity2", 0, S(40));
            CircularBuffer c(cap2);
            Ref old;
            doPush(c, old, p, 1, S(24));
            c = std::move(b);
            checkState(c, r);
            after(c, r, p, 1, cap);
        }
        // the source is empty and usable
        checkState(b, none);
        CHECK(b.pop(nullptr, 0) == 0, "nothing comes out of a moved-from buffer");
        int nc = sym_int("newcap", 0, S(48));
        unsigned again = sym_choose("again", 3);
        if (again == 0) {
            b.resize(nc);
            CHECK(b.capacity() == nc, "a moved-from buffer can be resized");
            after(b, none, p, 1, nc);
        } else if (again == 1) {
            CircularBuffer d(nc);
            Ref rd;
            doPush(d, rd, p, 1, S(24));
            b = d;
            checkState(b, rd);
            after(b, rd, p, 0, nc);
        } else {
            CircularBuffer d(b);
            b = CircularBuffer(nc);
            after(b, none, p, 1, nc);
            d = b;
        }
    }
    CHECK(sym_live_allocs() == before, "every storage block is released");
    sym_reach("end");
}
ENTRY(c03_clear)
{
    int cap = sym_int("capacity", 0, S(40));
    uint64_t before = sym_live_allocs();
    {
        Pool p;
        CircularBuffer b(cap);
        Ref r;
        anyQueue(b, r, p, (int)sym_param("pre", 4));
        b.clear();
        r.reset();
        checkState(b, r);
        CHECK(b.capacity() == cap, "clear() keeps the capacity");
        after(b, r, p, 2, cap);
    }
    CHECK(sym_live_allocs() == before, "every storage block is released");
    sym_reach("end");
}
// histories of whole-object operations on two buffers: resized, copied, moved, assigned in any order
ENTRY(c03_objects)
{
    int ops = (int)sym_param("ops", 3);
    bool resized = sym_param("resized", 1);  // the first operation is a resize
    uint64_t before = sym_live_allocs();
    {
        Pool p;
        int cap[2] = {sym_int("capacity", 0, S(40)), sym_int("capacity2", 0, S(40))};
        CircularBuffer* o[2] = {new CircularBuffer(cap[0]), new CircularBuffer(cap[1])};
        Ref r[2];
        for (int k = 0; k < (int)sym_param("pre", 1); k++) doPush(*o[0], r[0], p, 1, S(24));
        if (sym_param("filled", 1) && sym_choose("second", 2)) doPush(*o[1], r[1], p, 1, S(24));
        for (int k = 0; k < ops; k++) {
            // a resize, a transfer, then a resize or a transfer; or any
            static const unsigned some[] = {0, 10, 2, 3, 4, 5, 8, 9};
            constexpr unsigned ns = sizeof some / sizeof *some;
            unsigned op = !resized ? sym_choose("op", 11) : k == 0 ? some[sym_choose("op", 2)] : k == 1 ? some[2 + sym_choose("op", ns - 2)] : some[sym_choose("op", ns)];
            unsigned a = 0, b = 1;
            if (op >= 8) std::swap(a, b), op = op == 8 ? 3 : op == 9 ? 5 : op == 10 ? 0 : op;
            switch (op) {
                case 0: {
                    int nc = sym_int("newcap", 0, S(56));
                    try {
                        o[a]->resize(nc);
                        cap[a] = nc;
                    }
                    catch (const std::exception&) {
                        CHECK(nc < cap[a], "growing always succeeds");
                    }
                    break;
                }
                case 1: o[0]->clear(), r[0] = Ref(); break;
                case 2:
                    delete o[1];
                    o[1] = new CircularBuffer(*o[0]);
                    r[1] = r[0], cap[1] = cap[0];
                    break;
                case 3:
                    *o[b] = *o[a];
                    r[b] = r[a], cap[b] = cap[a];
                    break;
                case 4:
                    delete o[1];
                    o[1] = new CircularBuffer(std::move(*o[0]));
                    r[1] = r[0], cap[1] = cap[0], r[0] = Ref(), cap[0] = 0;
                    break;
                case 5:
                    *o[b] = std::move(*o[a]);
                    r[b] = r[a], cap[b] = cap[a], r[a] = Ref(), cap[a] = 0;
                    break;
                case 6: doPush(*o[0], r[0], p, 1, S(30)); break;
                case 7: doPop(*o[0], r[0], MAXSZ, MAXSZ); break;
            }
            for (int i = 0; i < 2; i++) {
                CHECK(o[i]->capacity() == cap[i], "each buffer has the capacity given to it");
                checkState(*o[i], r[i]);
            }
        }
        for (int i = 0; i < 2; i++) {
            after(*o[i], r[i], p, 1, cap[i]);
            delete o[i];
        }
    }
    CHECK(sym_live_allocs() == before, "every storage block is released exactly once");
    sym_reach("end");
}
// emptied again and again, by pop or by clear(): the whole space is there every time
ENTRY(c02_rounds)
{
    int cap = sym_int("capacity", 0, S(40)), rounds = (int)sym_param("rounds", 12);
    Pool p;
    CircularBuffer b(cap);
    Ref r;
    unsigned how = sym_choose("how", 3);
    for (int k = 0; k < rounds; k++) {
        if (sym_param("two", 0) && how != 2) doPush(b, r, p, 1, S(12));
        int n = sym_int("size", 1, S(40));
        unsigned char* s = p.next();
        if (r.empty()) {
            sym_assume(n <= cap - 4);
            CHECK(b.isSpaceAvailable(n), "an emptied buffer has its whole space available again");
        } else
            sym_assume(b.isSpaceAvailable(n));
        CHECK(b.push(s, n), "isSpaceAvailable(n) is true exactly when push of n bytes is accepted");
        unsigned char* out = new unsigned char[n];
        bool last = k + 1 == rounds;
        if (!last && how == 1)
            b.clear();
        else {
            while (!r.empty()) {
                unsigned char* o = new unsigned char[MAXSZ];
                CHECK(b.pop(o, MAXSZ) == r.size[r.head], "the oldest block comes out");
                delete[] o;
                r.head++;
            }
            CHECK(b.nextDataSize() == n && b.pop(out, n) == n, "the next block comes out");
            for (int i = 0; i < 2; i++) {
                int q = i ? n - 1 : sym_int("byte", 0, S(40));
                sym_assume(q < n);
                CHECK(out[q] == s[q], "the next block comes out with its bytes");
            }
            CHECK(b.empty(), "empty() is true once nothing is left");
            delete[] out;
            continue;
        }
        r = Ref();
        delete[] out;
        CHECK(b.empty(), "empty() is true once nothing is left");
    }
    sym_reach("end");
}
