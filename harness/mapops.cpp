// C32: mapFind
#include "mapOps.hpp"
#include "elem.h"
namespace {
template<class Map, class K, class V>
void run()
{
    using KT = typename KeyOf<K>::T;
    Map m;
    KT k[8];
    V v[8];
    int n = 0, want = (int)sym_choose("entries", (unsigned)sym_param("entries", 3) + 1);
    for (int i = 0; i < want; i++) {
        KT q = KeyOf<K>::make();
        V x = (V)sym_u64("value", 0, 0xFFFF);
        bool present = false;
        for (int j = 0; j < n; j++)
            if (k[j] == q) present = true, v[j] = x;
        m[KeyOf<K>::get(q)] = x;
        if (!present) k[n] = q, v[n++] = x;
    }
    KT probe = KeyOf<K>::make();
    V def = (V)sym_u64("default", 0, 0xFFFF);
    int at = -1;
    for (int j = 0; j < n; j++)
        if (k[j] == probe) at = j;
    const Map& c = m;
    K key = KeyOf<K>::get(probe);
    V got = mapFind(c, key, def);
    CHECK(got == (at >= 0 ? v[at] : def), "mapFind returns the stored value, or the default for an absent key");
    auto opt = mapFind(c, key);
    CHECK(opt.has_value() == (at >= 0), "mapFind without default is empty exactly for an absent key");
    if (opt) CHECK(*opt == v[at], "mapFind returns the stored value");
    sym_observe((uint64_t)got);
    CHECK(m.size() == (size_t)n, "mapFind does not change the map");
    for (int j = 0; j < n; j++) {
        auto it = m.find(KeyOf<K>::get(k[j]));
        CHECK(it != m.end() && it->second == v[j], "mapFind does not change the map");
    }
    sym_reach(at >= 0 ? "present" : "absent");
}
}  // namespace
ENTRY(find_map_int) { run<std::map<unsigned, unsigned>, unsigned, unsigned>(); }
ENTRY(find_map_string) { run<std::map<std::string, int>, std::string, int>(); }
ENTRY(find_map_struct) { run<std::map<Ord, long>, Ord, long>(); }
ENTRY(find_hash_int) { run<std::unordered_map<unsigned, unsigned>, unsigned, unsigned>(); }
ENTRY(find_hash_string) { run<std::unordered_map<std::string, int>, std::string, int>(); }
