// Accumulators that show what they were given and in what order, and the results expected from them.
#pragma once
#include "edge_util.h"
#include "arolla/qexpr/aggregation_ops_interface.h"

namespace gu {
using namespace arolla;
using du::Model, eu::EdgeModel;
inline unsigned Rot(unsigned h, int k) { return h << k | h >> (32 - k); }
inline unsigned Mix(unsigned h, int x, int y, int64_t id) { return Rot(Rot(h, 5) ^ (unsigned)x, 3) ^ (unsigned)y ^ (unsigned)id * 0x10001u; }
// a hash of the group, sensitive to order; with a required and an optional parent argument, a required and an
// optional child argument. The result is missing when the optional parent argument is negative.
template <AccumulatorType TYPE, bool kId>
struct HashAcc : Accumulator<TYPE, OptionalValue<int>, meta::type_list<int, OptionalValue<int>>,
                             std::conditional_t<kId, meta::type_list<int64_t, int, OptionalValue<int>>, meta::type_list<int, OptionalValue<int>>>> {
  unsigned h = 0; bool missing = false; bool checks = false; int bad = 0; absl::Status status;
  int finalized = 0, rows = 0;
  HashAcc() {}
  explicit HashAcc(int b) : checks(true), bad(b) {}
  void Reset(int p, OptionalValue<int> o) final { h = p; missing = o.present && o.value < 0; finalized = rows = 0; }
  void Step(int x, OptionalValue<int> y, int64_t id) {
    h = Mix(h, x, y.present ? y.value : 77, id);
    if (checks && x == bad) status = absl::InvalidArgumentError("bad");
    sx_assert(!finalized);
  }
  OptionalValue<int> GetResult() final {
    sx_assert(finalized == (TYPE == AccumulatorType::kFull));
    if (TYPE == AccumulatorType::kFull) h ^= 1u << (4 * (rows++ % 8));  // each row its own result
    return {!missing, (int)h};
  }
  void FinalizeFullGroup() final { ++finalized; }
  absl::Status GetStatus() final { return status; }
};
template <AccumulatorType TYPE> struct Acc : HashAcc<TYPE, false> {
  using HashAcc<TYPE, false>::HashAcc;
  void Add(int x, OptionalValue<int> y) final { this->Step(x, y, 0); }
};
template <AccumulatorType TYPE> struct IdAcc : HashAcc<TYPE, true> {
  using HashAcc<TYPE, true>::HashAcc;
  void Add(int64_t id, int x, OptionalValue<int> y) final { this->Step(x, y, id); }
};
constexpr auto kAgg = AccumulatorType::kAggregator, kPart = AccumulatorType::kPartial, kFull = AccumulatorType::kFull;

// results per parent and per child, computed from the definition
struct Want { Model<int> agg, part, full; bool ok = true; };
template <bool kId, class D>
Want Expect(const EdgeModel& m, const D& d, int bad) {
  Want w;
  for (int i = 0; i < m.children(); ++i) { w.part.push_back({false, 0}); w.full.push_back({false, 0}); }
  for (int p = 0; p < m.parents; ++p) {
    if (!d.p.m[p].p) { w.agg.push_back({false, 0}); continue; }
    unsigned h = d.p.m[p].v;
    bool present = !(d.po.m[p].p & (d.po.m[p].v < 0));
    std::vector<int> rows;
    for (int c = 0; c < m.children(); ++c) {
      if (!m.map[c].p || m.map[c].v != p || !d.c.m[c].p) continue;
      h = Mix(h, d.c.m[c].v, d.co.m[c].p ? d.co.m[c].v : 77, kId ? c : 0);
      if (!kId) w.ok &= d.c.m[c].v != bad;
      w.part[c] = {present, (int)h};
      rows.push_back(c);
    }
    w.agg.push_back({present, (int)h});
    int k = 0;
    for (int c : rows) { h ^= 1u << (4 * (k++ % 8)); w.full[c] = {present, (int)h}; }
  }
  return w;
}
}  // namespace gu
