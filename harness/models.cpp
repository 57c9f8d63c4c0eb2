// Out-of-line parts of the standard library, written as plain loops so that the executor can run them.
// Only the engine links this file; the native replay uses the real library.
#include "sym.h"
#include <condition_variable>
#include <cstring>
#include <exception>
#include <future>
#include <list>
#include <map>
#include <mutex>
#include <new>
#include <string>
#include <thread>
#include <unordered_map>
#include <pthread.h>
#include <sched.h>

extern "C" {
size_t strlen(const char* s)
{
    size_t n = 0;
    while (s[n]) n++;
    return n;
}
int memcmp(const void* a, const void* b, size_t n)
{
    auto x = (const unsigned char*)a;
    auto y = (const unsigned char*)b;
    for (size_t i = 0; i < n; i++)
        if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
    return 0;
}
int bcmp(const void* a, const void* b, size_t n)
{
    auto x = (const unsigned char*)a;
    auto y = (const unsigned char*)b;
    for (size_t i = 0; i < n; i++)
        if (x[i] != y[i]) return 1;
    return 0;
}
void* memchr_model(const void* a, int c, size_t n) asm("memchr");
void* memchr_model(const void* a, int c, size_t n)
{
    auto x = (unsigned char*)a;
    for (size_t i = 0; i < n; i++)
        if (x[i] == (unsigned char)c) return x + i;
    return nullptr;
}
int strcmp(const char* a, const char* b)
{
    while (*a && *a == *b) a++, b++;
    return (unsigned char)*a < (unsigned char)*b ? -1 : (unsigned char)*a > (unsigned char)*b;
}
}

namespace std {
// ---- red-black trees: an unbalanced binary search tree with the same interface
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw()
{
    if (x->_M_right) {
        x = x->_M_right;
        while (x->_M_left) x = x->_M_left;
    } else {
        _Rb_tree_node_base* y = x->_M_parent;
        while (x == y->_M_right) {
            x = y;
            y = y->_M_parent;
        }
        if (x->_M_right != y) x = y;
    }
    return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw()
{
    return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x));
}
// the header node is the only red node whose grandparent is itself (colours are kept for that test)
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw()
{
    if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x)
        x = x->_M_right;
    else if (x->_M_left) {
        _Rb_tree_node_base* y = x->_M_left;
        while (y->_M_right) y = y->_M_right;
        x = y;
    } else {
        _Rb_tree_node_base* y = x->_M_parent;
        while (x == y->_M_left) {
            x = y;
            y = y->_M_parent;
        }
        x = y;
    }
    return x;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw()
{
    return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x));
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw()
{
    x->_M_parent = p;
    x->_M_left = nullptr;
    x->_M_right = nullptr;
    x->_M_color = _S_black;
    if (left) {
        p->_M_left = x;
        if (p == &h) {
            h._M_parent = x;
            h._M_right = x;
        } else if (p == h._M_left)
            h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw()
{
    auto replace = [&](_Rb_tree_node_base* a, _Rb_tree_node_base* b) {
        if (h._M_parent == a)
            h._M_parent = b;
        else if (a->_M_parent->_M_left == a)
            a->_M_parent->_M_left = b;
        else
            a->_M_parent->_M_right = b;
        if (b) b->_M_parent = a->_M_parent;
    };
    if (!z->_M_left)
        replace(z, z->_M_right);
    else if (!z->_M_right)
        replace(z, z->_M_left);
    else {
        _Rb_tree_node_base* y = z->_M_right;
        while (y->_M_left) y = y->_M_left;
        if (y->_M_parent != z) {
            replace(y, y->_M_right);
            y->_M_right = z->_M_right;
            y->_M_right->_M_parent = y;
        }
        replace(z, y);
        y->_M_left = z->_M_left;
        y->_M_left->_M_parent = y;
    }
    if (!h._M_parent) {
        h._M_left = &h;
        h._M_right = &h;
    } else {
        _Rb_tree_node_base* l = h._M_parent;
        while (l->_M_left) l = l->_M_left;
        h._M_left = l;
        l = h._M_parent;
        while (l->_M_right) l = l->_M_right;
        h._M_right = l;
    }
    return z;
}
// ---- hash tables: one bucket, never rehashed (every lookup is a comparison of keys)
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t) const { return 1; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t, size_t, size_t) const { return {false, 0}; }
void _List_node_base::_M_hook(_List_node_base* const p) noexcept
{
    _M_next = p;
    _M_prev = p->_M_prev;
    p->_M_prev->_M_next = this;
    p->_M_prev = this;
}
void _List_node_base::_M_reverse() noexcept
{
    _List_node_base* t = this;
    do {
        _List_node_base* n = t->_M_next;
        t->_M_next = t->_M_prev;
        t->_M_prev = n;
        t = n;
    } while (t != this);
}
void _List_node_base::_M_unhook() noexcept
{
    _M_prev->_M_next = _M_next;
    _M_next->_M_prev = _M_prev;
}
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept
{
    if (this != l) {
        l->_M_prev->_M_next = this;
        f->_M_prev->_M_next = l;
        _M_prev->_M_next = f;
        _List_node_base* t = _M_prev;
        _M_prev = l->_M_prev;
        l->_M_prev = f->_M_prev;
        f->_M_prev = t;
    }
}
}  // namespace __detail
size_t _Hash_bytes(const void*, size_t, size_t) { return 0; }
const nothrow_t nothrow{};

__future_base::_Result_base::_Result_base() = default;
__future_base::_Result_base::~_Result_base() = default;
future_error::~future_error() noexcept {}
const char* future_error::what() const noexcept { return ""; }
}  // namespace std
// members the library only declares (extern template)
template class std::basic_string<char>;
template class std::basic_string<wchar_t>;

// ---- the error category of futures
#include <future>
#include <system_error>
namespace std {
inline namespace _V2 {
error_category::~error_category() = default;
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int, const error_condition&) const noexcept { return false; }
bool error_category::equivalent(const error_code&, int) const noexcept { return false; }
__cow_string error_category::_M_message(int) const { __builtin_trap(); }
}  // namespace _V2
namespace {
struct FutureCategory : error_category {
    const char* name() const noexcept override { return "future"; }
    string message(int) const override { return "future"; }
};
}  // namespace
const error_category& future_category() noexcept
{
    static FutureCategory c;
    return c;
}
}  // namespace std
