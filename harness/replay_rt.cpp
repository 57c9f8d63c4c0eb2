// Native replay: runs a harness against the real code with the inputs and the schedule of one symbolic path.
//   prog ENTRY TRACE-FILE
// Trace file lines:  P name value | I thread seq value | D thread seq len (index value)* | S choice* | W level thread | F fill
#include "sym.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fstream>
#include <map>
#include <new>
#include <pthread.h>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

#ifdef SX_THREADS
#define SX_T 1
#else
#define SX_T 0
#endif

namespace {
enum Pend { PNone, PStart, PAny, PLock, PJoin, PWaiting, PReacquire, PFutex };
struct Acc {
    uint64_t a;
    uint64_t n;
    bool w;
};
struct Th {
    Pend pend = PNone;
    uint64_t pa = 0, pb = 0;
    bool done = false, timed = false, timedOut = false;
    uint64_t deadline = 0;
    int seq = 0;
    pthread_cond_t cv;
    void (*fn)(void*) = nullptr;
    void* arg = nullptr;
    std::vector<Acc> seg;
};
Th th[16];
int nth = 1;
int cur = 0;       // thread holding the baton
int level = 0;
pthread_mutex_t mx;
bool ready = false, race = false;
uint64_t clk = 1000000000ULL;
long live = 0;
int fill = 0xA5;
thread_local int self = 0;
thread_local bool internal = false;
struct Data {
    uint64_t len;
    std::map<uint64_t, int> b;
};
std::map<std::pair<int, int>, uint64_t>* vals;
std::map<std::pair<int, int>, Data>* datas;
std::map<std::string, uint64_t>* params;
std::vector<int>* sched;
std::map<int, int>* wakes;
std::map<uint64_t, int>* owner;
std::map<uint64_t, std::vector<int>>* waiters;

struct In {
    bool o;
    In() : o(internal) { internal = true; }
    ~In() { internal = o; }
};
[[noreturn]] void finish(const char* what, const char* msg, int code)
{
    printf("RESULT %s %s\n", what, msg);
    fflush(stdout);
    _exit(code);
}
bool multi()
{
    int n = 0;
    for (int i = 0; i < nth; i++)
        if (!th[i].done) n++;
    return n > 1;
}
bool enabled(int i)
{
    Th& t = th[i];
    if (t.done) return false;
    switch (t.pend) {
        case PLock: return !owner->count(t.pa);
        case PJoin: return th[t.pa].done;
        case PReacquire: return !owner->count(t.pb);
        case PWaiting: return false;
        case PFutex: return *(volatile uint32_t*)t.pa != t.pb;
        default: return true;
    }
}
void unwait(int t)
{
    auto& w = (*waiters)[th[t].pa];
    w.erase(std::remove(w.begin(), w.end(), t), w.end());
    if (w.empty()) waiters->erase(th[t].pa);
}
// choose the next thread (mx held); returns with cur set
void pick()
{
    while (true) {
        if (level >= (int)sched->size()) {
            bool any = false;
            for (int i = 0; i < nth; i++) {
                if (enabled(i)) any = true;
                if (!th[i].done && th[i].pend == PWaiting && th[i].timed) any = true;
            }
            if (!any) finish("DEADLOCK", "no thread can make progress", 11);
            finish("TRACE-END", "schedule exhausted", 13);
        }
        int code = (*sched)[level], t = code & 15, kind = code >> 4;
        if (t >= nth || th[t].done) finish("MISMATCH", "scheduled thread does not exist", 13);
        if (kind) {
            if (th[t].pend != PWaiting) finish("MISMATCH", "thread is not waiting", 13);
            unwait(t);
            if (kind == 1) {
                th[t].timedOut = true;
                if (th[t].deadline > clk) clk = th[t].deadline;
            }
            th[t].pend = PReacquire;
            th[t].timed = false;
            level++;
            continue;
        }
        if (!enabled(t)) finish("MISMATCH", "scheduled thread is not enabled", 13);
        level++;
        th[t].seg.clear();
        cur = t;
        return;
    }
}
void waitTurn()
{
    while (cur != self) pthread_cond_wait(&th[self].cv, &mx);
}
// a scheduling point; returns when the operation may be performed
void yieldPoint(Pend k, uint64_t a = 0, uint64_t b = 0)
{
    In in;
    th[self].pend = k;
    th[self].pa = a;
    th[self].pb = b;
    pthread_mutex_lock(&mx);
    pick();
    if (cur != self) {
        pthread_cond_broadcast(&th[cur].cv);
        waitTurn();
    }
    th[self].pend = PNone;
    pthread_mutex_unlock(&mx);
}
void point(Pend k, uint64_t a = 0, uint64_t b = 0)
{
    if (multi()) yieldPoint(k, a, b);
}
void release() { th[self].seg.clear(); }
void* tmain(void* p)
{
    self = (int)(intptr_t)p;
    pthread_mutex_lock(&mx);
    waitTurn();
    th[self].pend = PNone;
    pthread_mutex_unlock(&mx);
    th[self].fn(th[self].arg);
    In in;
    pthread_mutex_lock(&mx);
    th[self].done = true;
    bool any = false;
    for (int i = 0; i < nth; i++)
        if (!th[i].done) any = true;
    if (any) {
        pick();
        pthread_cond_broadcast(&th[cur].cv);
    }
    pthread_mutex_unlock(&mx);
    return nullptr;
}
// ---- allocation tracking
struct Blk {
    int kind;  // 1 new, 2 new[]
    uint64_t n;
};
constexpr uint64_t MAXALLOC = (1ULL << 20) - 0x8000;
std::map<void*, Blk>* blocks;
void* doAlloc(size_t n, int kind, bool nothrow)
{
    bool track = ready && !internal;
    if (track && n > MAXALLOC) {
        if (nothrow) return nullptr;
        throw std::bad_alloc();
    }
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    if (track) {
        In in;
        memset(p, fill, n);
        (*blocks)[p] = {kind, n};
        live++;
    }
    return p;
}
void doFree(void* p, int kind)
{
    if (!p) return;
    if (ready && !internal) {
        In in;
        auto it = blocks->find(p);
        if (it != blocks->end()) {
            if (it->second.kind != kind) finish("MEMORY", "mismatched allocation and release functions", 12);
            blocks->erase(it);
            live--;
        }
    }
    free(p);
}
}  // namespace
void* operator new(size_t n) { return doAlloc(n, 1, false); }
void* operator new[](size_t n) { return doAlloc(n, 2, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return doAlloc(n, 1, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return doAlloc(n, 2, true); }
void* operator new(size_t n, std::align_val_t) { return doAlloc(n, 1, false); }
void* operator new[](size_t n, std::align_val_t) { return doAlloc(n, 2, false); }
void operator delete(void* p) noexcept { doFree(p, 1); }
void operator delete[](void* p) noexcept { doFree(p, 2); }
void operator delete(void* p, size_t) noexcept { doFree(p, 1); }
void operator delete[](void* p, size_t) noexcept { doFree(p, 2); }
void operator delete(void* p, std::align_val_t) noexcept { doFree(p, 1); }
void operator delete[](void* p, std::align_val_t) noexcept { doFree(p, 2); }

extern "C" {
uint64_t sym_u64(const char* name, uint64_t lo, uint64_t hi)
{
    In in;
    auto it = vals->find({self, th[self].seq++});
    uint64_t v = it == vals->end() ? lo : it->second;
    if (v < lo || v > hi) finish("MISMATCH", name, 13);
    return v;
}
uint64_t sym_pick(const char* name, uint64_t n) { return sym_u64(name, 0, n - 1); }
void sym_data(void* p, uint64_t n)
{
    In in;
    auto it = datas->find({self, th[self].seq++});
    memset(p, 0, n);
    if (it == datas->end()) return;
    for (auto& b : it->second.b)
        if (b.first < n) ((unsigned char*)p)[b.first] = (unsigned char)b.second;
}
void sym_assume(bool c)
{
    if (!c) finish("ASSUME", "an assumption of the path does not hold natively", 13);
}
extern const uint64_t __sx_library_globals[] __attribute__((weak));
void sym_discard() { finish("ASSUME", "discarded path", 13); }
void sym_assert(bool c, const char* msg)
{
    if (!c && !__sx_library_globals) finish("ASSERT", msg, 10);  // with race detection only races count
}
void sym_reach(const char*) {}
void sym_observe(uint64_t v)
{
    In in;
    printf("O t%d %llu\n", self, (unsigned long long)v);
}
uint64_t sym_param(const char* name, uint64_t d)
{
    In in;
    auto it = params->find(name);
    return it == params->end() ? d : it->second;
}
uint64_t sym_concretize(uint64_t v) { return v; }
uint64_t sym_live_allocs() { return (uint64_t)live; }
int sym_thread_id() { return self; }
int sym_spawn(void (*f)(void*), void* a)
{
    point(PAny);
    In in;
    release();
    int id = nth++;
    th[id].fn = f;
    th[id].arg = a;
    th[id].pend = PStart;
    pthread_t t;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
    pthread_create(&t, &at, tmain, (void*)(intptr_t)id);
    return id;
}
void sym_join(int t)
{
    if (multi()) yieldPoint(PJoin, (uint64_t)t);
    if (!th[t].done) finish("DEADLOCK", "join of a thread that cannot end", 11);
    th[t].seg.clear();
}
// ---- primitives the instrumented code calls
void __sx_point() { point(PAny); }
void __sx_release() { release(); }
extern char __executable_start, _end;
void __sx_mem(uint64_t a, uint64_t n, int w)
{
    if (!ready || internal || nth < 2 || !n) return;
    In in;
    if (a >= (uint64_t)(uintptr_t)&__executable_start && a < (uint64_t)(uintptr_t)&_end) {
        // variables of the harness are not the library's
        bool lib = false;
        for (const uint64_t* g = __sx_library_globals; g && *g; g += 2)
            if (a >= g[0] && a < g[0] + g[1]) lib = true;
        if (!lib) return;
    }
    for (int u = 0; u < nth; u++) {
        if (u == self) continue;
        for (auto& b : th[u].seg)
            if ((w || b.w) && a < b.a + b.n && b.a < a + n) finish("RACE", "conflicting unsynchronised accesses", 14);
    }
    auto& s = th[self].seg;
    for (auto& b : s)
        if (b.a == a && b.n == n && b.w == (bool)w) return;
    s.push_back({a, n, (bool)w});
}
static bool again(void* m, int by)
{
    In in;
    auto it = owner->find((uint64_t)m);
    auto* w = (uint32_t*)m;
    if (it == owner->end() || it->second != self || w[4] != 1 || (by < 0 && !w[1])) return false;
    w[1] += (uint32_t)by;
    return true;
}
int sxn_pthread_mutex_lock(void* m)
{
    if (again(m, 1)) return 0;
    point(PLock, (uint64_t)m);
    In in;
    if (owner->count((uint64_t)m)) finish("DEADLOCK", "lock of a mutex that is never released", 11);
    (*owner)[(uint64_t)m] = self;
    return 0;
}
int sxn_pthread_mutex_trylock(void* m)
{
    if (again(m, 1)) return 0;
    point(PAny);
    In in;
    if (owner->count((uint64_t)m)) return 16;
    (*owner)[(uint64_t)m] = self;
    return 0;
}
int sxn_pthread_mutex_unlock(void* m)
{
    if (again(m, -1)) return 0;
    if (__sx_library_globals) point(PAny);
    In in;
    auto it = owner->find((uint64_t)m);
    if (it == owner->end() || it->second != self) finish("MUTEX", "unlock of a mutex the thread does not hold", 12);
    owner->erase(it);
    release();
    return 0;
}
static int condWait(void* c, void* m, bool timed, uint64_t dl)
{
    point(PAny);
    In in;
    auto it = owner->find((uint64_t)m);
    if (it == owner->end() || it->second != self) finish("MUTEX", "condition wait without the mutex", 12);
    if (!multi()) {
        if (!timed) finish("DEADLOCK", "waiting with no other thread running", 11);
        if (dl > clk) clk = dl;
        return 110;
    }
    owner->erase(it);
    release();
    (*waiters)[(uint64_t)c].push_back(self);
    Th& t = th[self];
    t.timed = timed;
    t.deadline = dl;
    t.timedOut = false;
    yieldPoint(PWaiting, (uint64_t)c, (uint64_t)m);
    (*owner)[(uint64_t)m] = self;
    int r = t.timedOut ? 110 : 0;
    t.timed = t.timedOut = false;
    t.deadline = 0;
    return r;
}
int sxn_pthread_cond_wait(void* c, void* m) { return condWait(c, m, false, 0); }
static uint64_t dl(const timespec* t)
{
    return t->tv_sec < 0 ? 0 : t->tv_sec > 9000000000LL ? ~0ULL >> 1 : (uint64_t)t->tv_sec * 1000000000ULL + (uint64_t)t->tv_nsec;
}
int sxn_pthread_cond_clockwait(void* c, void* m, int, const timespec* t) { return condWait(c, m, true, dl(t)); }
int sxn_pthread_cond_timedwait(void* c, void* m, const timespec* t) { return condWait(c, m, true, dl(t)); }
static void wake(void* c, bool all)
{
    In in;
    auto it = waiters->find((uint64_t)c);
    if (it == waiters->end()) return;
    std::vector<int> w = it->second;
    if (!all && w.size() > 1) {
        auto k = wakes->find(level);
        if (k == wakes->end() || std::find(w.begin(), w.end(), k->second) == w.end()) finish("MISMATCH", "wake choice", 13);
        w = {k->second};
    }
    if (!all && w.size() > 1) w.resize(1);
    for (int t : w) {
        unwait(t);
        th[t].pend = PReacquire;
        th[t].timedOut = false;
    }
}
int sxn_pthread_cond_signal(void* c)
{
    point(PAny);
    wake(c, false);
    release();
    return 0;
}
int sxn_pthread_cond_broadcast(void* c)
{
    point(PAny);
    wake(c, true);
    release();
    return 0;
}
int sxn_zero() { return 0; }
bool sxn_futex_wait(void*, unsigned* a, unsigned v, bool, long, long)
{
    if (*(volatile unsigned*)a != v) return true;
    if (!multi()) finish("DEADLOCK", "waiting on a future nobody completes", 11);
    yieldPoint(PFutex, (uint64_t)a, v);
    return true;
}
void sym_await(const uint32_t* a, uint32_t v)
{
    if (!multi()) {
        if (*(volatile const uint32_t*)a == v) finish("DEADLOCK", "waiting with no other thread running", 11);
        return;
    }
    yieldPoint(PFutex, (uint64_t)a, v);
}
void sxn_nop() {}
uint64_t sxn_now() { return clk; }
int sxn_yield()
{
    point(PAny);
    return 0;
}
uint64_t sxn_pthread_self() { return (uint64_t)self + 1; }
unsigned sxn_hwc() { return 2; }
}
int main(int argc, char** argv)
{
    if (argc < 3) return 2;
    vals = new std::map<std::pair<int, int>, uint64_t>;
    datas = new std::map<std::pair<int, int>, Data>;
    params = new std::map<std::string, uint64_t>;
    sched = new std::vector<int>;
    wakes = new std::map<int, int>;
    owner = new std::map<uint64_t, int>;
    waiters = new std::map<uint64_t, std::vector<int>>;
    blocks = new std::map<void*, Blk>;
    pthread_mutex_init(&mx, nullptr);
    for (auto& t : th) pthread_cond_init(&t.cv, nullptr);
    std::ifstream f(argv[2]);
    std::string line;
    while (std::getline(f, line)) {
        std::istringstream s(line);
        std::string k;
        s >> k;
        if (k == "P") {
            std::string n;
            uint64_t v;
            s >> n >> v;
            (*params)[n] = v;
        } else if (k == "I") {
            int t, q;
            uint64_t v;
            s >> t >> q >> v;
            (*vals)[{t, q}] = v;
        } else if (k == "D") {
            int t, q;
            Data d;
            s >> t >> q >> d.len;
            uint64_t i;
            int v;
            while (s >> i >> v) d.b[i] = v;
            (*datas)[{t, q}] = d;
        } else if (k == "S") {
            int v;
            while (s >> v) sched->push_back(v);
        } else if (k == "W") {
            int l, t;
            s >> l >> t;
            (*wakes)[l] = t;
        } else if (k == "F")
            s >> fill;
    }
    f.close();
    line = std::string();
    auto fn = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!fn) {
        fprintf(stderr, "no entry %s\n", argv[1]);
        return 2;
    }
    fflush(stdout);
    ready = true;
    try {
        fn();
    } catch (...) {
        finish("EXCEPTION", "the harness ended with an exception", 12);
    }
    finish("PASS", "", 0);
}
