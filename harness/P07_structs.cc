// Declared struct layouts are accepted exactly when they are the compiler's.
// SX-SRCS: arolla/util/demangle.cc
#include <tuple>

#include "sx.h"
#include "absl/status/status.h"
#include "arolla/util/struct_field.h"

namespace {
struct Missing {
  int32_t a; int64_t b; int64_t c;
};
}  // namespace
SX_ENTRY(struct_layout) {
  // any declared layout: accepted exactly when it is the layout the compiler gives it
  using arolla::StructField;
  size_t o0 = sx_range<size_t>("o0", 0, 32), o1 = sx_range<size_t>("o1", 0, 32), o2 = sx_range<size_t>("o2", 0, 32);
  sx_assume((o0 % 4 == 0) & (o1 % 8 == 0) & (o2 % 8 == 0));  // as any real member offset
  auto st = arolla::struct_field_impl::VerifyArollaStructFields<Missing>(
      std::tuple{StructField<int32_t>{o0, "a"}, StructField<int64_t>{o1, "b"}, StructField<int64_t>{o2, "c"}}, std::make_index_sequence<3>());
  bool exact = o0 == 0 && o1 == 8 && o2 == 16;
  if (exact) { sx_assert(st.ok()); sx_reach("accepted"); }
  if (!exact) { sx_assert(!st.ok()); sx_reach("rejected"); }
  auto st2 = arolla::struct_field_impl::VerifyArollaStructFields<Missing>(std::tuple{StructField<int32_t>{0, "a"}, StructField<int64_t>{16, "c"}}, std::make_index_sequence<2>());
  sx_assert(!st2.ok());
  auto st3 = arolla::struct_field_impl::VerifyArollaStructFields<Missing>(std::tuple{StructField<int32_t>{0, "a"}, StructField<int64_t>{8, "b"}}, std::make_index_sequence<2>());
  sx_assert(!st3.ok());
}
