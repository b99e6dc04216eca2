// Word-level bit operations of arolla/util/{algorithms,bits}.h against a bit-by-bit reference.
// SX-SRCS: arolla/util/algorithms.cc arolla/util/bits.cc
#include <cstdlib>
#include <vector>

#include "sx.h"
#include "arolla/util/algorithms.h"
#include "arolla/util/bits.h"

namespace {
#ifdef SX_THOROUGH
constexpr int kMaxWords = 4;
#else
constexpr int kMaxWords = 3;
#endif

template <class W>
struct Words {
  W* p;
  W* orig;
  size_t n;
  Words(const char* name, size_t n) : n(n) {
    p = (W*)malloc(n * sizeof(W));
    orig = (W*)malloc(n * sizeof(W));
    for (size_t i = 0; i < n; ++i) p[i] = orig[i] = sx<W>(name);
  }
  ~Words() { free(p); free(orig); }
};
template <class W>
bool bit(const W* p, uint64_t i) {
  constexpr unsigned B = sizeof(W) * 8;
  return (p[i / B] >> (i % B)) & 1;
}

template <class W, bool kCopy>
void Offsets() {
  constexpr unsigned B = sizeof(W) * 8;
  constexpr int kW = sizeof(W) == 8 ? kMaxWords - 1 : kMaxWords;
  uint32_t n = sx_range<uint32_t>("n", kCopy ? 0 : 1, B * (kW - 1) + B / 2);
  // the left offset's residue is split over the shards
  int ls = sx_range<int>("lhs_skip", 0, B - 1), rs = sx_range<int>("rhs_skip", 0, B - 1);
  if (sizeof(W) == 8) { sx_assume((unsigned)ls / 8 == sx_shard(8)); }
  size_t lw = sx_concretize((n + ls + B - 1) / B), rw = sx_concretize((n + rs + B - 1) / B);
  Words<W> lhs("lhs", lw), rhs("rhs", rw);
  if (kCopy) arolla::CopyBits<W>(n, rhs.p, rs, lhs.p, ls);
  else arolla::InplaceLogicalAndWithOffsets<W>(n, rhs.p, rs, lhs.p, ls);
  for (size_t i = 0; i < lw; ++i) sx_obs(lhs.p[i]);
  if (n > 0) {
    // any bit of the range
    uint32_t k = sx_range<uint32_t>("k", 0, B * kMaxWords);
    sx_assume(k < n);
    bool want = kCopy ? bit(rhs.orig, k + rs) : (bit(rhs.orig, k + rs) & bit(lhs.orig, k + ls));
    sx_assert(bit(lhs.p, k + ls) == want);
    sx_reach("a bit of the range compared");
  }
  if (kCopy && lw) {
    // any bit outside of it is preserved
    uint32_t j = sx_range<uint32_t>("j", 0, B * kMaxWords);
    sx_assume((j < lw * B) & ((j < (uint32_t)ls) | (j >= n + ls)));
    sx_assert(bit(lhs.p, j) == bit(lhs.orig, j));
    sx_reach("a bit outside the range compared");
  }
  for (size_t i = 0; i < rw; ++i) sx_assert(rhs.p[i] == rhs.orig[i]);
}

template <class W>
void Ands() {
  size_t n = sx_pick("word_count", 0, 18);
  Words<W> a("a", n), b("b", n), r("r", n);
  arolla::LogicalAnd(a.p, b.p, r.p, n);
  for (size_t i = 0; i < n; ++i) {
    sx_assert(r.p[i] == (W)(a.orig[i] & b.orig[i]));
    sx_assert((a.p[i] == a.orig[i]) & (b.p[i] == b.orig[i]));
  }
  arolla::InPlaceLogicalAnd(a.p, b.p, n);
  for (size_t i = 0; i < n; ++i) sx_assert((b.p[i] == (W)(a.orig[i] & b.orig[i])) & (a.p[i] == a.orig[i]));
}

template <class W>
void Range() {
  constexpr unsigned B = sizeof(W) * 8;
  size_t w = sx_pick("words", 1, kMaxWords);
  Words<W> m("m", w);
  size_t start = sx_range<size_t>("start", 0, w * B), end = sx_range<size_t>("end", 0, w * B);
  sx_assume(start <= end);
  arolla::SetBitsInRange(m.p, start, end);
  for (size_t i = 0; i < w; ++i) sx_obs(m.p[i]);
  uint32_t k = sx_range<uint32_t>("k", 0, w * B - 1);
  sx_assert(bit(m.p, k) == (((k >= start) & (k < end)) | bit(m.orig, k)));
  sx_reach("range set");
}

template <class W>
void Count() {
  constexpr unsigned B = sizeof(W) * 8;
  size_t w = sx_pick("words", 1, sizeof(W) == 8 ? kMaxWords - 1 : kMaxWords);
  Words<W> m("m", w);
  size_t start = sx_range<size_t>("start", 0, w * B), end = sx_range<size_t>("end", 0, w * B);
  sx_assume(start <= end);
  // The words holding the range; the reference keeps the bits inside it and
  // counts them word by word.
  size_t got = arolla::GetOnesCountInRange(m.p, start, end);
  sx_obs(got);
  size_t want = 0;
  for (size_t i = 0; i < w; ++i) {
    size_t lo = i * B, hi = lo + B;
    W mask = ~W{0};
    size_t a = start < lo ? 0 : start >= hi ? B : start - lo;
    size_t b = end < lo ? 0 : end >= hi ? B : end - lo;
    W below_b = b >= B ? ~W{0} : (W)((W{1} << b) - 1);
    W below_a = a >= B ? ~W{0} : (W)((W{1} << a) - 1);
    want += sizeof(W) == 8 ? __builtin_popcountll(m.orig[i] & below_b & ~below_a) : __builtin_popcount(m.orig[i] & below_b & ~below_a);
    (void)mask;
  }
  sx_assert(got == want);
  sx_assert(arolla::CountOnes(m.p[0]) == (size_t)(sizeof(W) == 8 ? __builtin_popcountll(m.p[0]) : __builtin_popcount(m.p[0])));
  sx_reach("range counted");
}

template <class W>
void FindNext() {
  constexpr unsigned B = sizeof(W) * 8;
  size_t w = sx_pick("words", 0, kMaxWords);
  Words<W> m("m", w);
  size_t limit = w ? sx_range<size_t>("limit", (w - 1) * B, w * B) : 0;
  size_t from = sx_range<size_t>("from", 0, kMaxWords * B + 3);
  size_t got = arolla::FindNextSetBitInVector(m.p, from, limit);
  sx_obs(got);
  if (from >= limit) { sx_assert(got == limit); return; }
  sx_assert((got >= from) & (got <= limit));
  if (got < limit) { sx_assert(bit(m.p, got)); sx_reach("found"); } else sx_reach("not found");
  size_t k = sx_range<size_t>("k", 0, kMaxWords * B);
  sx_assume((k >= from) & (k < got));
  sx_assert(!bit(m.p, k));
}

template <class W>
void Single() {
  constexpr unsigned B = sizeof(W) * 8;
  size_t w = kMaxWords;
  Words<W> m("m", w);
  size_t i = sx_range<size_t>("i", 0, w * B - 1), k = sx_range<size_t>("k", 0, w * B - 1);
  sx_assert(arolla::GetBit(m.p, k) == bit(m.orig, k));
  arolla::SetBit(m.p, i);
  sx_assert(bit(m.p, k) == ((k == i) | bit(m.orig, k)));
  W v = sx<W>("v");
  sx_assume(v != 0);
  int lsb = arolla::FindLSBSetNonZero(v), msb = arolla::BitScanReverse(v), clz = arolla::CountLeadingZeros(v);
  sx_assert((lsb >= 0) & (lsb < (int)B) & (msb >= 0) & (msb < (int)B) & (clz == (int)B - 1 - msb));
  sx_assert((((v >> lsb) & 1) == 1) & ((v & ((W{1} << lsb) - 1)) == 0));
  sx_assert((v >> msb) == 1);
}
}  // namespace

SX_ENTRY(copy32) { Offsets<uint32_t, true>(); }  // sx: weight=5 bound=bit_ranges_up_to_80_bits_(112_thorough)
SX_ENTRY(copy64) { Offsets<uint64_t, true>(); }  // sx: shards=8 weight=5 bound=bit_ranges_up_to_96_bits_(160_thorough)
SX_ENTRY(and_offsets32) { Offsets<uint32_t, false>(); }  // sx: weight=5
SX_ENTRY(and_offsets64) { Offsets<uint64_t, false>(); }  // sx: shards=8 weight=5 bound=ranges_up_to_96_bits_(160_thorough)
SX_ENTRY(ands32) { Ands<uint32_t>(); }  // sx: bound=up_to_18_words
SX_ENTRY(ands64) { Ands<uint64_t>(); }  // sx: bound=up_to_18_words
SX_ENTRY(range32) { Range<uint32_t>(); }
SX_ENTRY(range64) { Range<uint64_t>(); }
SX_ENTRY(count32) { Count<uint32_t>(); }  // sx: weight=4
SX_ENTRY(count64) { Count<uint64_t>(); }  // sx: weight=4
SX_ENTRY(find_next32) { FindNext<uint32_t>(); }
SX_ENTRY(find_next64) { FindNext<uint64_t>(); }
SX_ENTRY(single32) { Single<uint32_t>(); }
SX_ENTRY(single64) { Single<uint64_t>(); }
SX_ENTRY(round_up) {
  uint32_t v = sx_range<uint32_t>("v", 0, 1u << 12), d = sx_pick("d", 1, 24);
  uint32_t r = arolla::RoundUp(v, d);
  sx_assert((r >= v) & (r - v < d) & (r % d == 0));
}
