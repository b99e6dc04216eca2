// LruCache against a reference list, for every sequence of operations.
#include <list>
#include <string>

#include "sx.h"
#include "arolla/util/lru_cache.h"

namespace {
struct E { int key, value; size_t weight; };
struct CollidingHash { size_t operator()(int k) const { return k & 1; } };

template <class Hash>
void Sequence(int steps, int first) {
  size_t cap = sx_pick("capacity", 1, 3);
  arolla::LruCache<int, int, Hash> c(cap);
  std::list<E> ref;  // most recently used first
  int next = 100;
  for (int st = 0; st < steps; ++st) {
    int op = st == 0 ? first : (int)sx_pick("op", 0, 6);
    if (op < 3) {  // lookup of key `op`
      const int* got = c.LookupOrNull(op);
      auto it = ref.begin();
      while (it != ref.end() && it->key != op) ++it;
      sx_assert((got != nullptr) == (it != ref.end()));
      if (got) { sx_assert(*got == it->value); ref.splice(ref.begin(), ref, it); sx_reach("hit"); } else sx_reach("miss");
    } else if (op < 6) {
      int k = op - 3;
      size_t w = sx_pick("weight", 0, 2);
      const int* got = c.Put(k, next, w);
      sx_assert(*got == next);
      auto it = ref.begin();
      while (it != ref.end() && it->key != k) ++it;
      if (it != ref.end()) { ref.erase(it); sx_reach("replaced"); }
      ref.push_front({k, next++, w});
      size_t used = 0;
      for (auto& e : ref) used += e.weight;
      while (used > cap && ref.size() > 1) { used -= ref.back().weight; ref.pop_back(); sx_reach("evicted"); }
    } else {
      c.Clear();
      ref.clear();
    }
  }
  for (int k = 0; k < 3; ++k) {
    const int* got = c.LookupOrNull(k);
    const E* e = nullptr;
    for (auto& x : ref) if (x.key == k) e = &x;
    sx_assert((got != nullptr) == (e != nullptr));
    if (got) sx_assert(*got == e->value);
  }
}
}  // namespace
#ifdef SX_THOROUGH
#define STEPS 5
#else
#define STEPS 4
#endif
SX_ENTRY(sequence) { Sequence<absl::Hash<int>>(STEPS + 1, sx_shard(7)); }  // sx: shards=7 leak bound=5_operations_on_3_keys,_weights_0..2,_capacity_1..3_(6_thorough)
SX_ENTRY(colliding) { Sequence<CollidingHash>(STEPS, sx_shard(7)); }  // sx: shards=7 leak bound=4_operations_on_3_keys_with_a_colliding_hash_(5_thorough)
// keys are unconstrained integers: eviction order depends on use only
SX_ENTRY(symbolic_keys) {  // sx: bound=3_insertions,_one_lookup
  int a = sx<int>("a"), b = sx<int>("b"), d = sx<int>("d"), q = sx<int>("q");
  struct H { size_t operator()(int) const { return 5; } };
  arolla::LruCache<int, int, H> c(2);
  c.Put(a, 1); c.Put(b, 2);
  bool hit = c.LookupOrNull(q) != nullptr;
  sx_assert(hit == (q == a || q == b));
  c.Put(d, 3);
  sx_assert(*c.LookupOrNull(d) == 3);
  if (a != b && a != d && b != d) {
    bool a_first = q == a;  // then b is the oldest
    sx_assert((c.LookupOrNull(a) != nullptr) == a_first);
    sx_assert((c.LookupOrNull(b) != nullptr) == !a_first);
    sx_reach("three distinct keys");
  }
}
