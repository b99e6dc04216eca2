// Symbolic edges between a child and a parent index, and plain models of them.
#pragma once
#include "dense_util.h"
#include "arolla/dense_array/edge.h"

namespace eu {
using namespace arolla;
using du::El, du::Model;
// the mapping of each child to its parent
struct EdgeModel { int parents; Model<int64_t> map; int children() const { return (int)map.size(); } };
struct Edge { DenseArrayEdge e; EdgeModel m; };
inline DenseArray<int64_t> Ints(const std::vector<int64_t>& v) { return {Buffer<int64_t>::Create(v.begin(), v.end())}; }
// groups of 0..max_group children
inline Edge Splits(int parents, int max_group) {
  std::vector<int64_t> s{0};
  EdgeModel m{parents, {}};
  for (int p = 0; p < parents; ++p) {
    int k = sx_pick("group", 0, max_group);
    for (int i = 0; i < k; ++i) m.map.push_back({true, p});
    s.push_back(s.back() + k);
  }
  return {DenseArrayEdge::UnsafeFromSplitPoints(Ints(s)), m};
}
// children with any parent, or none when the mapping has a bitmap. parents may be 0: all missing
inline Edge Mapping(int parents, int children, bool missing, int off = 0) {
  EdgeModel m{parents, {}};
  std::vector<int64_t> v;
  std::vector<bitmap::Word> w((children + off + 31) / 32, 0x5A5A5A5Au);
  for (int i = 0; i < children; ++i) {
    int p = sx_pick("parent", missing ? -1 : 0, parents - 1);
    m.map.push_back({p >= 0, p});
    v.push_back(p >= 0 ? p : 77);
    bitmap::Word b = bitmap::Word{1} << ((i + off) & 31);
    w[(i + off) >> 5] = (w[(i + off) >> 5] & ~b) | (p >= 0 ? b : 0);
  }
  DenseArray<int64_t> a = Ints(v);
  if (missing) { a.bitmap = du::Bm(w); a.bitmap_bit_offset = off; }
  return {DenseArrayEdge::UnsafeFromMapping(std::move(a), parents), m};
}
inline bool Sorted(const EdgeModel& m) {
  bool ok = true; int64_t last = 0;
  for (auto& e : m.map) { ok &= e.p && e.v >= last; last = e.v; }
  return ok;
}
// the edge has the mapping of the model
inline void CheckEdge(const DenseArrayEdge& e, const EdgeModel& m) {
  sx_assert(e.parent_size() == m.parents);
  sx_assert(e.child_size() == m.children());
  if (e.edge_type() == DenseArrayEdge::MAPPING) {
    du::Check(e.edge_values(), m.map);
    return;
  }
  sx_assert(e.edge_values().IsFull());
  sx_assert(e.edge_values().size() == m.parents + 1);
  sx_assert(Sorted(m));
  auto& s = e.edge_values().values;
  sx_assert(s[0] == 0 && s[m.parents] == m.children());
  int64_t at = 0;
  for (int p = 0; p < m.parents; ++p) {
    while (at < m.children() && m.map[at].v == p) ++at;
    sx_assert(s[p + 1] == at);
  }
}
}  // namespace eu
