// Typed values and the registries of tuple, named tuple and slice types used by several threads at once.
// SX-SRCS: arolla/memory/frame.cc arolla/qtype/qtype.cc arolla/qtype/base_types.cc arolla/qtype/optional_qtype.cc arolla/qtype/derived_qtype.cc arolla/qtype/tuple_qtype.cc arolla/qtype/slice_qtype.cc arolla/qtype/named_field_qtype.cc arolla/qtype/typed_slot.cc arolla/qtype/typed_ref.cc arolla/qtype/typed_value.cc arolla/util/string.cc arolla/util/repr.cc arolla/util/fingerprint.cc arolla/util/text.cc arolla/util/bytes.cc arolla/util/unit.cc arolla/util/status.cc arolla/util/demangle.cc arolla/util/class_info.cc arolla/util/init_arolla.cc arolla/util/init_arolla_internal.cc arolla/memory/optional_value.cc arolla/memory/raw_buffer_factory.cc
// SX-FLAGS: -I$VERIF/harness/stub_sstream
// SX-THREADS: yes
#include <string>
#include <thread>
#include <vector>

#include "sx.h"
#include "arolla/memory/optional_value.h"
#include "arolla/qtype/base_types.h"
#include "arolla/qtype/optional_qtype.h"
#include "arolla/qtype/slice_qtype.h"
#include "arolla/qtype/tuple_qtype.h"
#include "arolla/qtype/typed_value.h"
using namespace arolla;
SX_ENTRY(shared_types) { // sx: preempt=1 bound=2_threads_make_one_of_3_types_each,_1_preemption
  QTypePtr parts[] = {GetQType<int>(), GetQType<OptionalValue<int>>()};
  std::vector<std::string> names = {"a", "b"};
  QTypePtr warm = MakeTupleQType({parts[1]});
  auto make = [&](int k) -> QTypePtr {
    if (k == 0) return MakeTupleQType(parts);
    if (k == 1) return *MakeNamedTupleQType(names, MakeTupleQType(parts));
    return MakeSliceQType(parts[0], parts[1], warm);
  };
  int ka = (int)sx_pick("first", 0, 2), kb = (int)sx_pick("second", 0, 2);
  QTypePtr a = nullptr, b = nullptr;
  std::thread t([&] { a = make(ka); });
  b = make(kb);
  t.join();
  sx_assert((a == b) == (ka == kb));
  sx_assert(make(ka) == a && make(kb) == b);
  sx_reach("done");
}
SX_ENTRY(shared_value) { // sx: preempt=2 bound=2_threads_copy,_read,_hash_and_drop_a_value,_2_preemptions
  int x = sx<int8_t>("x");
  TypedValue v = TypedValue::FromValue(x);
  TypedValue w = v;
  Fingerprint f1{}, f2{};
  int opa = (int)sx_pick("first", 0, 2), opb = (int)sx_pick("second", 0, 2);
  auto use = [x](TypedValue u, int op, Fingerprint* f) {
    if (op == 0) *f = u.GetFingerprint();
    if (op == 1) {
      TypedValue c = u;
      u = TypedValue::FromValue(1.0f);
      sx_assert(c.UnsafeAs<int>() == x);
    }
    if (op == 2) sx_assert(u.UnsafeAs<int>() == x);
  };
  std::thread t([&use, &f1, opa, u = std::move(w)]() mutable { use(std::move(u), opa, &f1); });
  use(std::move(v), opb, &f2);
  t.join();
  if (opa == 0 && opb == 0) sx_assert(f1 == f2);
  if (opa == 0) sx_assert(f1 == TypedValue::FromValue(x).GetFingerprint());
  sx_reach("done");
}
