// Frames: where fields are placed, when they are made and destroyed, and which accesses are allowed.
// SX-SRCS: arolla/memory/frame.cc arolla/memory/optional_value.cc arolla/util/demangle.cc arolla/util/fingerprint.cc arolla/util/repr.cc arolla/util/bytes.cc arolla/util/text.cc
#include <algorithm>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <typeindex>
#include <vector>

#include "sx.h"
#include "arolla/memory/frame.h"
#include "arolla/memory/memory_allocation.h"
#include "arolla/memory/optional_value.h"
#include "arolla/util/memory.h"

#ifdef SX_THOROUGH
constexpr int kOps = 4;
#else
constexpr int kOps = 3;
#endif
using namespace arolla;
namespace {
std::map<const void*, int> live;  // the objects that are alive, and their kinds
// An object that is not made by zero bytes, and counts.
template <int K, int A>
struct alignas(A) Obj {
  int32_t v = 7 + K;
  Obj() { Made(); }
  explicit Obj(int x) : v(x) { Made(); }
  Obj(const Obj& o) : v(o.v) { o.Alive(); Made(); }
  Obj& operator=(const Obj& o) {
    o.Alive();
    Alive();
    v = o.v;
    return *this;
  }
  ~Obj() {
    Alive();
    live.erase(this);
  }
  void Made() {
    bool fresh = live.emplace(this, K).second;
    sx_assert(fresh);
    sx_assert((uintptr_t)this % A == 0);
  }
  void Alive() const {
    auto it = live.find(this);
    sx_assert(it != live.end() && it->second == K);
  }
};
using O1 = Obj<1, 4>;
using O2 = Obj<2, 16>;
using OptI = OptionalValue<int64_t>;

struct Field {
  size_t offset, size, align;
  std::type_index type;
  int obj;  // kind of counted object, or 0
  int sub;  // offset of the counted object inside
};
struct Plan {
  FrameLayout::Builder b;
  std::vector<Field> fields;
  std::set<std::pair<size_t, std::type_index>> known;
  size_t align = 1;
  void Put(size_t offset, size_t size, size_t al, const std::type_info& t, int obj) {
    sx_assert(offset % al == 0);
    for (auto& f : fields) sx_assert(offset >= f.offset + f.size || offset + size <= f.offset);
    fields.push_back({offset, size, al, t, obj, 0});
    known.emplace(offset, t);
    align = std::max(align, al);
  }
  template <class T>
  void Add(int obj) {
    bool again = !fields.empty() && fields.back().type == std::type_index(typeid(T)) && fields.back().obj == obj;
    size_t last = again ? fields.back().offset : 0;
    auto s = b.AddSlot<T>();
    Put(s.byte_offset(), sizeof(T), alignof(T), typeid(T), obj);
    if (again) sx_assert(s.byte_offset() == last + sizeof(T));  // as in an array
    if constexpr (std::is_same_v<T, OptI>) {
      known.emplace(s.byte_offset() + offsetof(OptI, present), typeid(bool));
      known.emplace(s.byte_offset() + offsetof(OptI, value), typeid(int64_t));
    }
  }
};
FrameLayout Inner(int k) {  // layouts used as parts of others
  FrameLayout::Builder b;
  if (k == 1) {
    (void)b.AddSlot<char>();
    (void)b.AddSlot<O1>();
  } else if (k == 2) {
    (void)b.AddSlot<O1>();
    (void)b.AddSlot<O2>();
    (void)b.AddSlot<O1>();
    (void)b.AddSlot<short>();
  } else if (k == 3) {
    (void)b.AddSubFrame(Inner(1));
    (void)b.AddSlot<double>();
    (void)b.AddSubFrame(Inner(1));
  }
  return std::move(b).Build();
}
void Expand(Plan& p, int k, size_t at) {
  if (k == 1) {
    p.Put(at, 1, 1, typeid(char), 0);
    p.Put(at + 4, sizeof(O1), 4, typeid(O1), 1);
  } else if (k == 2) {
    p.Put(at, sizeof(O1), 4, typeid(O1), 1);
    p.Put(at + 16, sizeof(O2), 16, typeid(O2), 2);
    p.Put(at + 32, sizeof(O1), 4, typeid(O1), 1);
    p.Put(at + 36, 2, 2, typeid(short), 0);
  } else if (k == 3) {
    Expand(p, 1, at);
    p.Put(at + 8, 8, 8, typeid(double), 0);
    Expand(p, 1, at + 16);
  }
}
void StepOnce(Plan& p, int kind) {
  switch (kind) {
    case 0: return p.Add<char>(0);
    case 1: return p.Add<int32_t>(0);
    case 2: return p.Add<double>(0);
    case 3: return p.Add<OptI>(0);
    case 4: return p.Add<O1>(1);
    case 5: return p.Add<O2>(2);
    default: {
      int k = kind - 6;
      FrameLayout in = Inner(k);
      size_t at = p.b.AddSubFrame(in).byte_offset();
      sx_assert(at % in.AllocAlignment() == 0);
      Expand(p, k, at);
      p.align = std::max(p.align, in.AllocAlignment());
    }
  }
}
void CheckLive(const Plan& p, const char* base, size_t block, size_t n) {
  size_t want = 0;
  for (size_t i = 0; i < n; ++i)
    for (auto& f : p.fields)
      if (f.obj) {
        ++want;
        auto it = live.find(base + i * block + f.offset);
        sx_assert(it != live.end() && it->second == f.obj);
        sx_assert(*(const int32_t*)(base + i * block + f.offset) == 7 + f.obj);
      } else {
        for (size_t k = 0; k < f.size; ++k) sx_assert(base[i * block + f.offset + k] == 0);
      }
  sx_assert(live.size() == want);
}
void Layout(int first, int ops) {
  live.clear();
  Plan p;
  if (first >= 0) StepOnce(p, first);
  int n = first >= 0 ? (int)sx_pick("more", 0, ops - 1) : 0;
  for (int i = 0; i < n; ++i) StepOnce(p, (int)sx_pick("field", 0, 9));
  FrameLayout l = std::move(p.b).Build();
  size_t size = l.AllocSize(), al = l.AllocAlignment();
  sx_assert(al == p.align);
  sx_assert(size % al == 0);
  size_t end = 0;
  for (auto& f : p.fields) end = std::max(end, f.offset + f.size);
  sx_assert(size >= end);
  for (size_t o = 0; o <= size; ++o) {
    for (const std::type_info* t : {&typeid(char), &typeid(int32_t), &typeid(double), &typeid(O1), &typeid(O2), &typeid(bool), &typeid(int64_t), &typeid(OptI), &typeid(short)})
      sx_assert(l.HasField(o, *t) == (p.known.count({o, *t}) > 0));
  }
  size_t blocks = first >= 0 ? sx_pick("blocks", 0, 3) : 1;
  AlignedPtr mem = AlignedAlloc(std::align_val_t{al}, size * std::max<size_t>(blocks, 1) + al);
  char* m = (char*)mem.get();
  memset(m, 0x5a, size * std::max<size_t>(blocks, 1) + al);
  if (blocks == 0) {  // a single frame
    l.InitializeAlignedAlloc(m);
    CheckLive(p, m, size, 1);
    sx_assert(m[size] == 0x5a);
    FrameLayout copy = l;
    copy.DestroyAlloc(m);
  } else {
    l.InitializeAlignedAllocN(m, blocks);
    CheckLive(p, m, size, blocks);
    sx_assert(m[size * blocks] == 0x5a);
    FrameLayout copy(l);
    copy.DestroyAllocN(m, blocks);
  }
  sx_assert(live.empty());
  sx_reach("done");
}
}  // namespace
SX_ENTRY(layouts) { // sx: shards=10 weight=2 bound=up_to_3_fields_(4_in_thorough)_of_6_types_and_4_kinds_of_nested_frames,_one_frame_or_blocks_of_up_to_3
  Layout((int)sx_shard(10), kOps);
}
SX_ENTRY(empty_layout) { // sx: bound=no_field
  Layout(-1, 0);
}
SX_ENTRY(registered) { // sx: bound=every_64-bit_offset_and_size,_twice
  FrameLayout::Builder b;
  auto i = b.AddSlot<int64_t>();
  auto o = b.AddSlot<O1>();
  size_t end = o.byte_offset() + sizeof(O1);
  size_t at = sx<size_t>("at"), size = sx<size_t>("size");
  bool fits = (at <= end) && (size <= end - at);
  auto st = b.RegisterUnsafeSlot(at, size, typeid(float));
  sx_assert(st.ok() == fits);
  if (!fits) {
    sx_reach("outside");
    return;
  }
  at = sx_concretize(at);
  auto again = b.RegisterUnsafeSlot(at, size, typeid(float));
  sx_assert(!again.ok());
  sx_assert(b.RegisterUnsafeSlot(FrameLayout::Slot<O1>::UnsafeSlotFromOffset(o.byte_offset())).code() == absl::StatusCode::kFailedPrecondition);
  sx_assert(b.RegisterUnsafeSlot(FrameLayout::Slot<O1>::UnsafeSlotFromOffset(o.byte_offset()), true).ok());
  sx_assert(!b.RegisterUnsafeSlot(FrameLayout::Slot<int8_t>::UnsafeUninitializedSlot()).ok());
  sx_assert(b.RegisterUnsafeSlot(FrameLayout::Slot<int8_t>::UnsafeSlotFromOffset(3)).ok());
  FrameLayout l = std::move(b).Build();
  for (size_t k = 0; k < 12; ++k) {
    sx_assert(l.HasField(k, typeid(float)) == (k == at));
    sx_assert(l.HasField(k, typeid(int8_t)) == (k == 3));
  }
  sx_assert(l.HasField(i.byte_offset(), typeid(int64_t)));
  live.clear();
  MemoryAllocation m(&l);
  sx_assert(live.size() == 1);  // registered fields are not made again
  sx_reach("inside");
}
SX_ENTRY(values) { // sx: shards=4 bound=every_value_of_6_fields,_written_in_any_order_of_2
  FrameLayout::Builder b;
  auto c = b.AddSlot<int8_t>();
  auto i = b.AddSlot<int32_t>();
  auto o = b.AddSlot<OptI>();
  auto x = b.AddSlot<O2>();
  auto d = b.AddSlot<uint64_t>();
  auto n = b.AddSlot<int16_t>();
  FrameLayout l = std::move(b).Build();
  live.clear();
  {
    MemoryAllocation m(&l);
    FramePtr f = m.frame();
    int8_t mc = 0;
    int32_t mi = 0;
    OptI mo;
    int32_t mx = 9;
    uint64_t md = 0;
    int16_t mn = 0;
    for (int k = 0; k < 2; ++k) {
      int w = k == 0 ? (int)sx_shard(4) + 4 * (int)sx_pick("second", 0, 1) : (int)sx_pick("which", 0, 7);
      switch (w) {
        case 0: f.Set(c, mc = sx<int8_t>("c")); break;
        case 1: f.Set(i, mi = sx<int32_t>("i")); break;
        case 2: f.Set(o, mo = OptI{sx<bool>("p"), sx<int64_t>("o")}); break;
        case 3: mx = sx<int32_t>("x"); f.Set(x, O2(mx)); break;
        case 4: *f.GetMutable(d) = md = sx<uint64_t>("d"); break;
        case 5: f.Set(n, mn = sx<int16_t>("n")); break;
        case 6: f.Set(o.GetSubslot<0>(), mo.present = sx<bool>("p")); break;
        default: f.Set(o.GetSubslot<1>(), mo.value = sx<int64_t>("o"));
      }
    }
    ConstFramePtr r = f;
    const MemoryAllocation& cm = m;
    sx_assert((r.Get(c) == mc) & (f.Get(i) == mi) & (r.Get(o).present == mo.present) & (r.Get(o).value == mo.value));
    sx_assert((cm.frame().Get(x).v == mx) & (r.Get(d) == md) & (r.Get(n) == mn));
    sx_assert((f.Get(o.GetSubslot<0>()) == mo.present) & (f.Get(o.GetSubslot<1>()) == mo.value));
    sx_assert(r.GetRawPointer(d.byte_offset()) == &r.Get(d));
    sx_assert(live.size() == 1);
  }
  sx_assert(live.empty());
}
SX_ENTRY(allocations) { // sx: bound=3_operations_on_3_allocations_of_2_layouts
  FrameLayout l[2] = {Inner(1), Inner(2)};
  const size_t count[2] = {1, 3};
  live.clear();
  {
    MemoryAllocation a[3];
    int owns[3] = {-1, -1, -1};
    for (int step = 0; step < 3; ++step) {
      int i = (int)sx_pick("i", 0, 2), op = (int)sx_pick("op", 0, 2);
      if (op == 0) {
        int k = (int)sx_pick("layout", 0, 1);
        a[i] = MemoryAllocation(&l[k]);
        owns[i] = k;
      } else if (op == 1) {
        int j = (int)sx_pick("j", 0, 2);
        if (j == i) continue;
        a[i] = std::move(a[j]);
        owns[i] = owns[j];
        owns[j] = -1;
      } else {
        MemoryAllocation t(std::move(a[i]));
        sx_assert(t.IsValid() == (owns[i] >= 0));
        owns[i] = -1;
        sx_assert(!a[i].IsValid());
      }
      size_t want = 0;
      for (int k = 0; k < 3; ++k) {
        sx_assert(a[k].IsValid() == (owns[k] >= 0));
        if (owns[k] >= 0) {
          want += count[owns[k]];
          size_t first = owns[k] == 0 ? 4 : 0;
          sx_assert(a[k].frame().Get(FrameLayout::Slot<O1>::UnsafeSlotFromOffset(first)).v == 8);
        }
      }
      sx_assert(live.size() == want);
    }
  }
  sx_assert(live.empty());
}
