// Threads, condition variables, call_once and futures on top of the primitives the executor (and the native
// replay scheduler) provides.  Linked into both, so that both have the same scheduling points.
#include "sym.h"
#include <condition_variable>
#include <cstring>
#include <future>
#include <mutex>
#include <thread>
#include <pthread.h>

namespace std {
// ---- threads
static void threadMain(void* p)
{
    auto* st = (thread::_State*)p;
    st->_M_run();
    delete st;
}
thread::_State::~_State() = default;
void thread::_M_start_thread(_State_ptr st, void (*)())
{
    int t = sym_spawn(threadMain, st.release());
    pthread_t h = (pthread_t)(t + 1);
    memcpy(&_M_id, &h, sizeof h);
}
void thread::join()
{
    pthread_t h;
    memcpy(&h, &_M_id, sizeof h);
    if (!h) __throw_system_error(22);
    sym_join((int)h - 1);
    _M_id = id();
}
void thread::detach() { _M_id = id(); }

condition_variable::condition_variable() noexcept = default;
condition_variable::~condition_variable() noexcept = default;
void condition_variable::wait(unique_lock<mutex>& l) { pthread_cond_wait((pthread_cond_t*)this, l.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { pthread_cond_signal((pthread_cond_t*)this); }
void condition_variable::notify_all() noexcept { pthread_cond_broadcast((pthread_cond_t*)this); }

// ---- call_once, futures
#ifdef _GLIBCXX_HAVE_TLS
__thread void* __once_callable;
__thread void (*__once_call)();
extern "C" void __once_proxy(void)
{
    if (auto c = __once_call) c();
}
#endif
}  // namespace std
extern "C" {
int pthread_once(pthread_once_t* o, void (*f)(void))
{
    // 0: not run, 1: running, 2: done
    auto* w = (uint32_t*)o;
    while (*w == 1) sym_await(w, 1);
    if (*w == 0) {
        *w = 1;
        try {
            f();
        }
        catch (...) {
            *w = 0;
            throw;
        }
        *w = 2;
    }
    return 0;
}
// ---- timed locks: got at once, after a while, or not at all
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) noexcept
{
    if (pthread_mutex_trylock(m) == 0) return 0;
    if (sym_choose("timelock", 2)) return 110;
    return pthread_mutex_lock(m);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) noexcept { return pthread_mutex_clocklock(m, 0, t); }
// ---- reader/writer locks: the word counts readers, or is -1 for a writer
static int32_t* word(pthread_rwlock_t* l) { return (int32_t*)l; }
static bool take(pthread_rwlock_t* l, bool w)
{
    int32_t v = __atomic_load_n(word(l), __ATOMIC_SEQ_CST);
    if (w ? v != 0 : v < 0) return false;
    return __atomic_compare_exchange_n(word(l), &v, w ? -1 : v + 1, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
}
static void await(pthread_rwlock_t* l, bool w)
{
    while (!take(l, w)) {
        int32_t v = __atomic_load_n(word(l), __ATOMIC_SEQ_CST);
        if (w ? v != 0 : v < 0) sym_await((const uint32_t*)word(l), (uint32_t)v);
    }
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept
{
    await(l, true);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept
{
    await(l, false);
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) noexcept { return take(l, true) ? 0 : 16; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) noexcept
{
    for (;;) {
        if (take(l, false)) return 0;
        if (__atomic_load_n(word(l), __ATOMIC_SEQ_CST) < 0) return 16;
    }
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept
{
    int32_t v = __atomic_load_n(word(l), __ATOMIC_SEQ_CST);
    sym_assert(v != 0, "unlock of a reader/writer lock that is not held");
    if (v < 0)
        __atomic_store_n(word(l), 0, __ATOMIC_SEQ_CST);
    else
        __atomic_fetch_sub(word(l), 1, __ATOMIC_SEQ_CST);
    return 0;
}
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) noexcept
{
    *word(l) = 0;
    return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t*) noexcept { return 0; }
}
