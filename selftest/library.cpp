// Parts of the standard library the executor has to be able to run (a self-test of the engine; tools/selftest.sh).
#include "sym.h"
#include <algorithm>
#include <any>
#include <array>
#include <atomic>
#include <bitset>
#include <condition_variable>
#include <deque>
#include <forward_list>
#include <functional>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <queue>
#include <set>
#include <shared_mutex>
#include <stack>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>
#include <cstring>
#include <limits>
#include <chrono>
#include <sstream>
ENTRY(t_alg) {
    unsigned x = (unsigned)sym_u64("x", 0, 100);
    std::vector<unsigned> v{5, 3, x, 9};
    std::sort(v.begin(), v.end());
    std::stable_sort(v.begin(), v.end());
    std::reverse(v.begin(), v.end());
    std::rotate(v.begin(), v.begin() + 1, v.end());
    auto p = std::stable_partition(v.begin(), v.end(), [](unsigned a) { return a > 4; });
    auto q = std::remove_if(v.begin(), v.end(), [](unsigned a) { return a == 3; });
    v.erase(q, v.end());
    CHECK(std::accumulate(v.begin(), v.end(), 0u) >= 9, "sum");
    CHECK(std::any_of(v.begin(), v.end(), [](unsigned a) { return a == 9; }), "any");
    std::transform(v.begin(), v.end(), v.begin(), std::negate<>());
    std::iota(v.begin(), v.end(), 1u);
    std::fill_n(v.begin(), 2, 7u);
    std::swap_ranges(v.begin(), v.begin() + 1, v.begin() + 1);
    CHECK(std::count(v.begin(), v.end(), 7u) == 2, "count");
    (void)p;
    std::nth_element(v.begin(), v.begin() + 1, v.end());
    (void)std::lower_bound(v.begin(), v.end(), 3u);
    std::unique(v.begin(), v.end());
    std::copy_backward(v.begin(), v.begin() + 1, v.begin() + 2);
    std::move_backward(v.begin(), v.begin() + 1, v.begin() + 2);
    sym_reach("end");
}
ENTRY(t_cont) {
    unsigned x = (unsigned)sym_u64("x", 0, 100);
    std::list<unsigned> l; l.push_back(x); l.push_front(2); l.splice(l.end(), l, l.begin()); l.remove(2); CHECK(l.size() == (x == 2 ? 0 : 1), "list");
    l.sort(); l.reverse();
    std::list<unsigned> l2(l); l2.merge(l);
    std::forward_list<unsigned> f{1, x}; f.reverse(); f.push_front(3);
    std::deque<unsigned> d; for (unsigned i = 0; i < 200; i++) d.push_back(i); for (int i = 0; i < 150; i++) d.pop_front(); d.insert(d.begin() + 2, x); d.erase(d.begin() + 1); d.shrink_to_fit(); d.resize(20);
    std::set<unsigned> s{1, 2, x}; s.erase(2); CHECK(s.count(x) == (x == 2 ? 0 : 1), "set"); 
    std::multimap<unsigned, int> mm; mm.emplace(x, 1); mm.emplace(x, 2); CHECK(mm.count(x) == 2, "mm"); mm.erase(x);
    std::map<unsigned, std::string> m; m[x] = "abc"; m.try_emplace(x + 1, "d"); auto nh = m.extract(x); nh.key() = 300; m.insert(std::move(nh)); CHECK(m.at(300) == "abc", "map"); m.insert_or_assign(300, "zz"); 
    for (auto& [k, v] : m) (void)k, v += "q";
    std::unordered_map<std::string, int> u; for (int i = 0; i < 20; i++) u["key" + std::to_string(i)] = i; CHECK(u.at("key7") == 7, "um"); u.erase("key3"); u.rehash(50); u.reserve(100); std::unordered_map<std::string, int> u2 = u; u2.swap(u); CHECK(u == u2, "eq"); u.merge(u2); 
    for (auto it = u.begin(); it != u.end();) it = it->second > 3 ? u.erase(it) : std::next(it);
    std::unordered_multimap<unsigned, unsigned> um; um.emplace(x, 1); um.emplace(x, 2); auto er = um.equal_range(x); CHECK(std::distance(er.first, er.second) == 2, "umm"); um.erase(x);
    std::unordered_set<unsigned> us{1, 2, 3}; us.insert(x);
    std::priority_queue<unsigned> pq; pq.push(3); pq.push(x); pq.pop(); std::stack<unsigned> st; st.push(3); st.pop(); std::queue<unsigned> qq; qq.push(2); qq.emplace(x); qq.pop();
    std::bitset<70> b; b.set(x % 70); CHECK(b.count() == 1, "bitset"); std::array<int, 4> ar{}; ar.fill(3);
    std::tuple<int, std::string> tp{1, "x"}; auto [a1, a2] = tp; (void)a1;
    sym_reach("end");
}
ENTRY(t_misc) {
    unsigned x = (unsigned)sym_u64("x", 0, 100);
    std::function<unsigned(unsigned)> f = [x](unsigned y) { return x + y; }; std::function<unsigned(unsigned)> g = f; CHECK(g(2) == x + 2, "fn");
    auto bd = std::bind(f, std::placeholders::_1); CHECK(bd(1) == x + 1, "bind");
    std::variant<int, std::string> v = "abc"; v = 3; CHECK(std::get<int>(v) == 3, "var"); std::visit([](auto&&) {}, v);
    std::any a = 5; CHECK(std::any_cast<int>(a) == 5, "any");
    std::optional<std::string> o; o.emplace("xx"); o.reset();
    auto sp = std::make_shared<std::string>("abc"); std::weak_ptr<std::string> w = sp; CHECK(w.lock() == sp, "weak"); auto sp2 = sp; sp.reset(); CHECK(!w.expired(), "exp"); 
    std::shared_ptr<void> sv(new int(3), [](void* p) { delete static_cast<int*>(p); });
    std::unique_ptr<int[]> ua(new int[4]()); ua[2] = 3;
    std::string s = "hello world"; s.insert(3, "abc"); s.erase(1, 2); s.replace(0, 2, "XYZ"); CHECK(s.find("wor") != std::string::npos, "find"); s += std::to_string(x); s.resize(40, 'x'); s.reserve(100); auto sub = s.substr(2, 5); CHECK(sub < s || sub >= s, "cmp"); CHECK(s.compare(sub) != 0 || true, "c");
    char buf[16]; std::memset(buf, 1, 16); std::memmove(buf + 1, buf, 8); CHECK(std::memcmp(buf, buf + 1, 4) == 0, "memcmp"); CHECK(std::strlen("abc") == 3, "strlen"); (void)std::memchr(buf, 1, 3); std::strcpy(buf, "abc"); CHECK(std::strcmp(buf, "abc") == 0, "strcmp"); std::strncpy(buf, "abcd", 3); 
    try { std::vector<int> vv(2); vv.at(5); } catch (const std::out_of_range& e) { (void)e; }
    try { throw std::invalid_argument("x" + std::to_string(x)); } catch (const std::logic_error&) {}
    try { std::rethrow_exception(std::make_exception_ptr(3)); } catch (int i) { CHECK(i == 3, "ep"); }
    try { std::optional<int> oo; (void)oo.value(); } catch (const std::bad_optional_access&) {}
    CHECK(__builtin_popcount(x) <= 7, "popc"); CHECK(x == 0 || __builtin_clz(x) > 10, "clz"); CHECK(x == 0 || __builtin_ctz(x) < 8, "ctz");
    sym_reach("end");
}
static std::shared_mutex sm; static std::mutex m1, m2; static std::recursive_mutex rm; static std::condition_variable cv; static std::condition_variable_any cva; static std::once_flag of; static int cnt, ready; static std::atomic<int> at; static std::atomic_flag fl = ATOMIC_FLAG_INIT; static std::timed_mutex tm_;
static void thr(void*) {
    { std::unique_lock<std::shared_mutex> l(sm); cnt++; }
    { std::shared_lock<std::shared_mutex> l(sm); CHECK(cnt > 0, "shared"); }
    { std::scoped_lock l(m1, m2); cnt++; }
    { std::unique_lock<std::mutex> a(m1, std::defer_lock), b(m2, std::defer_lock); std::lock(a, b); }
    { std::unique_lock<std::mutex> a(m1, std::try_to_lock); if (a.owns_lock()) cnt++; }
    at.fetch_add(2); at.exchange(5); int e = 5; at.compare_exchange_weak(e, 6); at |= 1; at--; std::atomic_thread_fence(std::memory_order_seq_cst);
    while (fl.test_and_set()) std::this_thread::yield(); fl.clear();
    { std::lock_guard<std::mutex> l(m1); ready = 1; } cv.notify_all();
    std::this_thread::sleep_for(std::chrono::milliseconds(1));
}
static void thr2(void*) { std::call_once(of, [] { cnt++; }); { std::lock_guard<std::recursive_mutex> l(rm); std::lock_guard<std::recursive_mutex> k(rm); } }
static void thr3(void*) { std::unique_lock<std::mutex> l(m1); cva.wait(l, [] { return ready == 1; }); }
static void thr3b(void*) { { std::lock_guard<std::mutex> l(m1); ready = 1; } cva.notify_all(); }
static void thr4(void*) { if (tm_.try_lock_for(std::chrono::milliseconds(1))) tm_.unlock(); }
ENTRY(t_thr) { int a = sym_spawn(thr, nullptr); { std::unique_lock<std::mutex> l(m1); cv.wait(l, [] { return ready == 1; }); } { std::unique_lock<std::mutex> l(m1); cv.wait_for(l, std::chrono::milliseconds(5), [] { return ready == 1; }); cv.wait_until(l, std::chrono::steady_clock::now() + std::chrono::milliseconds(5)); cv.wait_until(l, std::chrono::system_clock::now() + std::chrono::milliseconds(5)); } sym_join(a); sym_reach("end"); }
ENTRY(t_once) { int a = sym_spawn(thr2, nullptr), b = sym_spawn(thr2, nullptr); sym_join(a); sym_join(b); CHECK(cnt == 1, "once"); sym_reach("end"); }
ENTRY(t_any) { int a = sym_spawn(thr3, nullptr), b = sym_spawn(thr3b, nullptr); sym_join(a); sym_join(b); sym_reach("end"); }
ENTRY(t_timed) { int a = sym_spawn(thr4, nullptr), b = sym_spawn(thr4, nullptr); sym_join(a); sym_join(b); sym_reach("end"); }
ENTRY(t_tl) { static thread_local int q = 3; q++; CHECK(q == 4, "tl"); sym_reach("end"); }
