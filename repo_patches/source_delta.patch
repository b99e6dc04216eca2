From f62a1c2ea4dd513df9e6471695161041d549acdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:38 +0000
Subject: [PATCH 01/23] fix: recognise the C++ keywords 'extern' and 'do' in
 proto field names

protoc appends an underscore to the getters of such fields; the accessor
generator listed 'extern ' with a trailing space and no 'do', so it produced
calls to getters that do not exist.
---
 arolla/codegen/io/protopath.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arolla/codegen/io/protopath.py b/arolla/codegen/io/protopath.py
index 69813ee..8d4906f 100644
--- a/arolla/codegen/io/protopath.py
+++ b/arolla/codegen/io/protopath.py
@@ -71,13 +71,14 @@ _CPP_KEYWORDS = frozenset([
     'decltype',
     'default',
     'delete',
+    'do',
     'double',
     'dynamic_cast',
     'else',
     'enum',
     'explicit',
     'export',
-    'extern ',
+    'extern',
     'false',
     'float',
     'for',
-- 
2.43.0


From 80c61c0704143501e64e414dcc995615507dc19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:29 +0000
Subject: [PATCH 02/23] fix: honour base_offset in
 StringsBuffer::ReshuffleBuilder

With a non-zero base offset (a copy of a slice), missing values and the
default value got offsets relative to zero, so they read characters outside
of the buffer.
---
 arolla/memory/strings_buffer.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/arolla/memory/strings_buffer.cc b/arolla/memory/strings_buffer.cc
index e2a93e5..97beeb3 100644
--- a/arolla/memory/strings_buffer.cc
+++ b/arolla/memory/strings_buffer.cc
@@ -63,8 +63,10 @@ StringsBuffer::ReshuffleBuilder::ReshuffleBuilder(
     // Due to default_value characters buffer can not be reused. So we copy the
     // buffer and add default_value at the end.
     int64_t def_value_size = default_value.value.size();
+    // Offsets are biased by `base_offset_`.
+    const offset_type def_value_start = base_offset_ + characters_.size();
     offsets_bldr_.SetNConst(
-        0, max_size, {characters_.size(), def_value_size + characters_.size()});
+        0, max_size, {def_value_start, def_value_start + def_value_size});
     SimpleBuffer<char>::Builder chars_bldr(characters_.size() + def_value_size,
                                            buf_factory);
     char* data = chars_bldr.GetMutableSpan().data();
@@ -73,8 +75,7 @@ StringsBuffer::ReshuffleBuilder::ReshuffleBuilder(
                 def_value_size);
     characters_ = std::move(chars_bldr).Build();
   } else {
-    std::memset(offsets_bldr_.GetMutableSpan().begin(), 0,
-                max_size * sizeof(Offsets));
+    offsets_bldr_.SetNConst(0, max_size, {base_offset_, base_offset_});
   }
 }
 
-- 
2.43.0


From 6c9e4cb45fa6c1da030898b30088c40e4a1fbfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:42 +0000
Subject: [PATCH 03/23] fix: size the result bitmap of DenseArrayPresenceAndOp
 by the argument bitmaps

With a non-zero bitmap_bit_offset the argument bitmaps can be one word longer
than BitmapSize(size()), and bitmap::Intersect wrote past the end of the result.
---
 arolla/qexpr/operators/dense_array/logic_ops.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arolla/qexpr/operators/dense_array/logic_ops.h b/arolla/qexpr/operators/dense_array/logic_ops.h
index db7767f..47513b5 100644
--- a/arolla/qexpr/operators/dense_array/logic_ops.h
+++ b/arolla/qexpr/operators/dense_array/logic_ops.h
@@ -58,7 +58,7 @@ struct DenseArrayPresenceAndOp {
     } else if (lhs.bitmap.empty()) {
       return DenseArray<T>{lhs.values, rhs.bitmap, rhs.bitmap_bit_offset};
     } else {
-      int64_t bitmap_size = bitmap::BitmapSize(lhs.size());
+      int64_t bitmap_size = std::min(lhs.bitmap.size(), rhs.bitmap.size());
       bitmap::RawBuilder bldr(bitmap_size, &ctx->buffer_factory());
       bitmap::Intersect(lhs.bitmap, rhs.bitmap, lhs.bitmap_bit_offset,
                         rhs.bitmap_bit_offset, bldr.GetMutableSpan());
-- 
2.43.0


From 335cedc18c505e9da0a9a23db7ed3b8253bb6fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:39 +0000
Subject: [PATCH 04/23] fix: reject negative and overflowing sizes in
 edge.pair_left/right and resize_groups

---
 arolla/qexpr/operators/array/edge_ops.h       | 44 ++++++++++++++++---
 arolla/qexpr/operators/dense_array/edge_ops.h | 44 ++++++++++++++++---
 2 files changed, 78 insertions(+), 10 deletions(-)

diff --git a/arolla/qexpr/operators/array/edge_ops.h b/arolla/qexpr/operators/array/edge_ops.h
index 1fc8cf6..49e7c1a 100644
--- a/arolla/qexpr/operators/array/edge_ops.h
+++ b/arolla/qexpr/operators/array/edge_ops.h
@@ -152,10 +152,16 @@ struct ArrayEdgePairLeftOp {
     // below, where offset accumulates the same value.
     int64_t pair_count = 0;
     bool overflow = false;
+    bool negative = false;
     dense_sizes.ForEachPresent([&](int64_t id, int64_t s) {
-      child_count += s;
+      negative |= s < 0;
+      child_count = safe_add(child_count, s, &overflow);
       pair_count = safe_add(pair_count, safe_mul(s, s, &overflow), &overflow);
     });
+    if (negative) {
+      return absl::InvalidArgumentError(
+          "operator edge.pair_left expects no negative size values");
+    }
     if (overflow) {
       return absl::InvalidArgumentError(
           "integer overflow in edge.pair_left size computation");
@@ -201,10 +207,16 @@ struct ArrayEdgePairRightOp {
     int64_t child_count = 0;
     int64_t pair_count = 0;
     bool overflow = false;
+    bool negative = false;
     dense_sizes.ForEachPresent([&](int64_t id, int64_t s) {
-      child_count += s;
+      negative |= s < 0;
+      child_count = safe_add(child_count, s, &overflow);
       pair_count = safe_add(pair_count, safe_mul(s, s, &overflow), &overflow);
     });
+    if (negative) {
+      return absl::InvalidArgumentError(
+          "operator edge.pair_right expects no negative size values");
+    }
     if (overflow) {
       return absl::InvalidArgumentError(
           "integer overflow in edge.pair_right size computation");
@@ -636,10 +648,16 @@ struct ArrayEdgeResizeGroupsChildSide {
       const Array<int64_t>& new_offsets) const {
     RETURN_IF_ERROR(CheckEdge(edge));
     RETURN_IF_ERROR(CheckNewOffsets(new_offsets, edge));
+    bool overflow = false;
+    int64_t total_size = safe_mul(new_size, edge.parent_size(), &overflow);
+    if (overflow) {
+      return absl::InvalidArgumentError(
+          "integer overflow in edge.resize_groups_child_side size computation");
+    }
     return FromSplitPoints(
         ctx, edge.edge_values().dense_data().values.span(),
         [&new_size](int64_t _) { return new_size; },
-        new_size * edge.parent_size(), new_offsets);
+        total_size, new_offsets);
   }
 
   absl::StatusOr<ArrayEdge> operator()(
@@ -660,8 +678,18 @@ struct ArrayEdgeResizeGroupsChildSide {
     RETURN_IF_ERROR(CheckNewOffsets(new_offsets, edge));
     const auto& new_sizes_buffer = new_sizes.dense_data().values;
     int64_t total_size = 0;
+    bool overflow = false;
     for (int64_t i = 0; i < new_sizes_buffer.size(); ++i) {
-      total_size += new_sizes_buffer[i];
+      if (new_sizes_buffer[i] < 0) {
+        return absl::InvalidArgumentError(
+            "got a negative size value in operator "
+            "edge.resize_groups_child_side");
+      }
+      total_size = safe_add(total_size, new_sizes_buffer[i], &overflow);
+    }
+    if (overflow) {
+      return absl::InvalidArgumentError(
+          "integer overflow in edge.resize_groups_child_side size computation");
     }
 
     DCHECK(edge.edge_values().dense_data().IsFull());
@@ -695,8 +723,14 @@ struct ArrayEdgeResizeGroupsParentSide {
     Buffer<int64_t>::Builder bldr(split_points_num, &ctx->buffer_factory());
     absl::Span<int64_t> split_points = bldr.GetMutableSpan();
     split_points[0] = 0;
+    bool overflow = false;
     for (int64_t i = 1; i < split_points_num; ++i) {
-      split_points[i] = split_points[i - 1] + new_size;
+      split_points[i] = safe_add(split_points[i - 1], new_size, &overflow);
+    }
+    if (overflow) {
+      return absl::InvalidArgumentError(
+          "integer overflow in edge.resize_groups_parent_side split point "
+          "computation");
     }
     return ArrayEdge::FromSplitPoints(Array<int64_t>{std::move(bldr).Build()});
   }
diff --git a/arolla/qexpr/operators/dense_array/edge_ops.h b/arolla/qexpr/operators/dense_array/edge_ops.h
index c437203..11a86a7 100644
--- a/arolla/qexpr/operators/dense_array/edge_ops.h
+++ b/arolla/qexpr/operators/dense_array/edge_ops.h
@@ -141,10 +141,16 @@ struct DenseArrayEdgePairLeftOp {
     // below, where offset accumulates the same value.
     int64_t pair_count = 0;
     bool overflow = false;
+    bool negative = false;
     sizes.ForEachPresent([&](int64_t id, int64_t s) {
-      child_count += s;
+      negative |= s < 0;
+      child_count = safe_add(child_count, s, &overflow);
       pair_count = safe_add(pair_count, safe_mul(s, s, &overflow), &overflow);
     });
+    if (negative) {
+      return absl::InvalidArgumentError(
+          "operator edge.pair_left expects no negative size values");
+    }
     if (overflow) {
       return absl::InvalidArgumentError(
           "integer overflow in edge.pair_left size computation");
@@ -188,10 +194,16 @@ struct DenseArrayEdgePairRightOp {
     int64_t child_count = 0;
     int64_t pair_count = 0;
     bool overflow = false;
+    bool negative = false;
     sizes.ForEachPresent([&](int64_t id, int64_t s) {
-      child_count += s;
+      negative |= s < 0;
+      child_count = safe_add(child_count, s, &overflow);
       pair_count = safe_add(pair_count, safe_mul(s, s, &overflow), &overflow);
     });
+    if (negative) {
+      return absl::InvalidArgumentError(
+          "operator edge.pair_right expects no negative size values");
+    }
     if (overflow) {
       return absl::InvalidArgumentError(
           "integer overflow in edge.pair_right size computation");
@@ -459,10 +471,16 @@ struct DenseArrayEdgeResizeGroupsChildSide {
     RETURN_IF_ERROR(CheckEdge(edge));
     RETURN_IF_ERROR(CheckNewOffsets(new_offsets, edge));
 
+    bool overflow = false;
+    int64_t total_size = safe_mul(new_size, edge.parent_size(), &overflow);
+    if (overflow) {
+      return absl::InvalidArgumentError(
+          "integer overflow in edge.resize_groups_child_side size computation");
+    }
     return FromSplitPoints(
         ctx, edge.edge_values().values.span(),
         [&new_size](int64_t _) { return new_size; },
-        new_size * edge.parent_size(), new_offsets);
+        total_size, new_offsets);
   }
 
   absl::StatusOr<DenseArrayEdge> operator()(
@@ -484,8 +502,18 @@ struct DenseArrayEdgeResizeGroupsChildSide {
 
     const auto& new_sizes_buffer = new_sizes.values;
     int64_t total_size = 0;
+    bool overflow = false;
     for (int64_t i = 0; i < new_sizes_buffer.size(); ++i) {
-      total_size += new_sizes_buffer[i];
+      if (new_sizes_buffer[i] < 0) {
+        return absl::InvalidArgumentError(
+            "got a negative size value in operator "
+            "edge.resize_groups_child_side");
+      }
+      total_size = safe_add(total_size, new_sizes_buffer[i], &overflow);
+    }
+    if (overflow) {
+      return absl::InvalidArgumentError(
+          "integer overflow in edge.resize_groups_child_side size computation");
     }
 
     DCHECK(edge.edge_values().IsFull());
@@ -519,8 +547,14 @@ struct DenseArrayEdgeResizeGroupsParentSide {
     Buffer<int64_t>::Builder bldr(split_points_num, &ctx->buffer_factory());
     absl::Span<int64_t> split_points = bldr.GetMutableSpan();
     split_points[0] = 0;
+    bool overflow = false;
     for (int64_t i = 1; i < split_points_num; ++i) {
-      split_points[i] = split_points[i - 1] + new_size;
+      split_points[i] = safe_add(split_points[i - 1], new_size, &overflow);
+    }
+    if (overflow) {
+      return absl::InvalidArgumentError(
+          "integer overflow in edge.resize_groups_parent_side split point "
+          "computation");
     }
     return DenseArrayEdge::FromSplitPoints({std::move(bldr).Build()});
   }
-- 
2.43.0


From 0307f1d5412a2667318efe89b03966b77e5bb131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:17 +0000
Subject: [PATCH 05/23] fix: AlmostFullBuilder::Build(size) sliced a bitmap
 that was never created

Without missing ids bitmap_buffer_ is empty, so Slice(0, BitmapSize(size))
returned a bitmap that claims words it doesn't have. Array::ToSparseForm with
a bitmap that turns out to be full read through it.
---
 arolla/dense_array/bitmap.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arolla/dense_array/bitmap.h b/arolla/dense_array/bitmap.h
index 54fada1..e8d092f 100644
--- a/arolla/dense_array/bitmap.h
+++ b/arolla/dense_array/bitmap.h
@@ -250,6 +250,8 @@ class AlmostFullBuilder {
 
   Bitmap Build() && { return std::move(bitmap_buffer_); }
   Bitmap Build(int64_t size) && {
+    // Without missing ids the bitmap is empty, there is nothing to slice.
+    if (bitmap_ == nullptr) return {};
     return std::move(bitmap_buffer_).Slice(0, BitmapSize(size));
   }
 
-- 
2.43.0


From 4beb73d766da84bb807349ce712d6874916e0943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:17 +0000
Subject: [PATCH 06/23] fix: ArraysAreEquivalent distinguished empty arrays by
 their missing_id_value

---
 arolla/array/array.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arolla/array/array.h b/arolla/array/array.h
index 370efab..e5fd3dc 100644
--- a/arolla/array/array.h
+++ b/arolla/array/array.h
@@ -396,6 +396,7 @@ class AROLLA_API Array {
 template <typename T>
 bool ArraysAreEquivalent(const Array<T>& lhs, const Array<T>& rhs) {
   if (lhs.size() != rhs.size()) return false;
+  if (lhs.empty()) return true;  // missing_id_value is not used
   if (lhs.IsDenseForm() && rhs.IsDenseForm()) {
     return ArraysAreEquivalent(lhs.dense_data(), rhs.dense_data());
   }
-- 
2.43.0


From fa1b8d749815dccb76d8e9b0dd1d6c8eb2d89d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:17 +0000
Subject: [PATCH 07/23] fix: fingerprint of IdFilter ignored ids_offset

Slices of one sparse array that share ids but start at different positions had
equal fingerprints and different elements.
---
 arolla/array/id_filter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arolla/array/id_filter.cc b/arolla/array/id_filter.cc
index df40da7..b1e9745 100644
--- a/arolla/array/id_filter.cc
+++ b/arolla/array/id_filter.cc
@@ -60,7 +60,7 @@ void FingerprintHasherTraits<IdFilter>::operator()(
     FingerprintHasher* hasher, const IdFilter& value) const {
   hasher->Combine(value.type());
   if (value.type() != IdFilter::Type::kFull) {
-    hasher->Combine(value.ids());
+    hasher->Combine(value.ids(), value.ids_offset());
   }
 }
 
-- 
2.43.0


From 4dc0082e29fc659af3f792af098766975160794d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:17 +0000
Subject: [PATCH 08/23] fix: pointwise operations on Array failed on a
 combination of missing_id_values that no element has

---
 arolla/array/pointwise_op.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arolla/array/pointwise_op.h b/arolla/array/pointwise_op.h
index 7e0cadf..52c50eb 100644
--- a/arolla/array/pointwise_op.h
+++ b/arolla/array/pointwise_op.h
@@ -76,6 +76,11 @@ class ArrayPointwiseOp<ResT, DenseArrayOp, PointwiseFn,
                                  id_filter, args.missing_id_value())...));
     }
 
+    if (size == 0 || id_filter.type() == IdFilter::kFull) {
+      // There are no elements outside of `id_filter`, so we shouldn't evaluate
+      // (and fail on) the combination of missing_id_values.
+      return Array<ResT>(size, std::move(id_filter), std::move(data));
+    }
     auto missing_id_value = pointwise_fn_(args.missing_id_value()...);
     RETURN_IF_ERROR(GetStatusOrOk(missing_id_value));
     return Array<ResT>(
-- 
2.43.0


From 5b5eb7e74f305f9cad8dc8db5d6ff07422f07dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:55 +0000
Subject: [PATCH 09/23] fix: ArrayEdge::FromSplitPoints kept a bitmap with all
 bits set and made an edge whose values are not in full form

---
 arolla/array/edge.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arolla/array/edge.cc b/arolla/array/edge.cc
index c833f16..122fb70 100644
--- a/arolla/array/edge.cc
+++ b/arolla/array/edge.cc
@@ -26,6 +26,7 @@
 #include "absl/strings/str_format.h"
 #include "absl/types/span.h"
 #include "arolla/array/array.h"
+#include "arolla/dense_array/dense_array.h"
 #include "arolla/dense_array/edge.h"
 #include "arolla/memory/raw_buffer_factory.h"
 #include "arolla/util/fingerprint.h"
@@ -53,6 +54,9 @@ absl::StatusOr<ArrayEdge> ArrayEdge::FromSplitPoints(
                       split_points.dense_data().values.end())) {
     return absl::InvalidArgumentError("split points should be sorted");
   }
+  // The bitmap (if any) has all bits set. Drop it to get the full form.
+  split_points =
+      Array<int64_t>(DenseArray<int64_t>{split_points.dense_data().values});
   return ArrayEdge(ArrayEdge::SPLIT_POINTS, parent_size, child_size,
                    std::move(split_points));
 }
-- 
2.43.0


From d556711c19324f4b25be83753a7f849fdc907bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:55 +0000
Subject: [PATCH 10/23] fix: array.concat put elements of the second array at
 wrong ids if the missing_id_values differ

---
 arolla/qexpr/operators/array/array_ops.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/arolla/qexpr/operators/array/array_ops.h b/arolla/qexpr/operators/array/array_ops.h
index 2b0c96b..6f36bf8 100644
--- a/arolla/qexpr/operators/array/array_ops.h
+++ b/arolla/qexpr/operators/array/array_ops.h
@@ -203,17 +203,17 @@ struct ArrayConcatOp {
           auto insert_one = [&](int64_t id, bool present,
                                 view_type_t<T> value) {
             if (present || best_missing_id_value.present) {
-              ids_inserter.Add(id);
+              ids_inserter.Add(start_id + id);
               if (present) {
                 values_bldr.Set(offset, value);
               }
               offset++;
             }
           };
-          auto insert_many = [&](int64_t start_id, int64_t count, bool present,
+          auto insert_many = [&](int64_t first_id, int64_t count, bool present,
                                  view_type_t<T> value) {
             for (int64_t i = 0; i < count; ++i) {
-              ids_inserter.Add(start_id + i);
+              ids_inserter.Add(start_id + first_id + i);
               if (present) {
                 values_bldr.Set(offset + i, value);
               }
-- 
2.43.0


From c7cfc325ee7da816dc2af86417acc9ec3c0d4cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:55 +0000
Subject: [PATCH 11/23] fix: edge.resize_groups_child_side rejected full
 new_sizes that are not in full form

---
 arolla/qexpr/operators/array/edge_ops.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arolla/qexpr/operators/array/edge_ops.h b/arolla/qexpr/operators/array/edge_ops.h
index 49e7c1a..63c5d2c 100644
--- a/arolla/qexpr/operators/array/edge_ops.h
+++ b/arolla/qexpr/operators/array/edge_ops.h
@@ -619,7 +619,7 @@ struct ArrayEdgeResizeGroupsChildSide {
 
   absl::Status CheckNewSizes(const Array<int64_t>& new_sizes,
                              const ArrayEdge& edge) const {
-    if (!new_sizes.IsFullForm()) {
+    if (new_sizes.PresentCount() != new_sizes.size()) {
       return absl::InvalidArgumentError(
           "`new_sizes` should be a full array for operator "
           "edge.resize_groups_child_side");
@@ -676,7 +676,8 @@ struct ArrayEdgeResizeGroupsChildSide {
     RETURN_IF_ERROR(CheckEdge(edge));
     RETURN_IF_ERROR(CheckNewSizes(new_sizes, edge));
     RETURN_IF_ERROR(CheckNewOffsets(new_offsets, edge));
-    const auto& new_sizes_buffer = new_sizes.dense_data().values;
+    const Buffer<int64_t> new_sizes_buffer =
+        new_sizes.ToDenseForm(&ctx->buffer_factory()).dense_data().values;
     int64_t total_size = 0;
     bool overflow = false;
     for (int64_t i = 0; i < new_sizes_buffer.size(); ++i) {
-- 
2.43.0


From 6112deaea2f7f87c65e323204d6c4fce30d921f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:08 +0000
Subject: [PATCH 12/23] fix: edge.resize_groups_child_side failed a DCHECK on
 sparse mapping edges instead of returning an error

---
 arolla/qexpr/operators/array/edge_ops.h       | 2 +-
 arolla/qexpr/operators/dense_array/edge_ops.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/arolla/qexpr/operators/array/edge_ops.h b/arolla/qexpr/operators/array/edge_ops.h
index 63c5d2c..9286428 100644
--- a/arolla/qexpr/operators/array/edge_ops.h
+++ b/arolla/qexpr/operators/array/edge_ops.h
@@ -608,12 +608,12 @@ struct ArrayEdgeResizeGroupsChildSide {
   }
 
   absl::Status CheckEdge(const ArrayEdge& edge) const {
-    DCHECK(edge.edge_values().dense_data().IsFull());
     if (edge.edge_type() != ArrayEdge::SPLIT_POINTS) {
       return absl::UnimplementedError(
           "operator edge.resize_groups_child_side is only supported for "
           "SPLIT_POINTS edges");
     }
+    DCHECK(edge.edge_values().dense_data().IsFull());
     return absl::OkStatus();
   }
 
diff --git a/arolla/qexpr/operators/dense_array/edge_ops.h b/arolla/qexpr/operators/dense_array/edge_ops.h
index 11a86a7..df71c2f 100644
--- a/arolla/qexpr/operators/dense_array/edge_ops.h
+++ b/arolla/qexpr/operators/dense_array/edge_ops.h
@@ -430,12 +430,12 @@ struct DenseArrayEdgeResizeGroupsChildSide {
   }
 
   absl::Status CheckEdge(const DenseArrayEdge& edge) const {
-    DCHECK(edge.edge_values().IsFull());
     if (edge.edge_type() != DenseArrayEdge::SPLIT_POINTS) {
       return absl::UnimplementedError(
           "operator edge.resize_groups_child_side is only supported for "
           "SPLIT_POINTS edges");
     }
+    DCHECK(edge.edge_values().IsFull());
     return absl::OkStatus();
   }
 
-- 
2.43.0


From 94bf267fb95d34606df321d580429ce3abf0c85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:18 +0000
Subject: [PATCH 13/23] fix: experimental.agg_moving_average accepted windows
 that are not positive and truncated long ones

---
 .../qexpr/operators/experimental/dense_array/timeseries.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/arolla/qexpr/operators/experimental/dense_array/timeseries.h b/arolla/qexpr/operators/experimental/dense_array/timeseries.h
index a725dab..40093dd 100644
--- a/arolla/qexpr/operators/experimental/dense_array/timeseries.h
+++ b/arolla/qexpr/operators/experimental/dense_array/timeseries.h
@@ -41,7 +41,7 @@ class MovingAverageAccumulator final
                          meta::type_list<>,
                          meta::type_list<OptionalValue<ScalarT>>> {
  public:
-  explicit MovingAverageAccumulator(int window_size)
+  explicit MovingAverageAccumulator(int64_t window_size)
       : window_size_(window_size) {}
   void Reset() final {
     current_window_.clear();
@@ -70,7 +70,7 @@ class MovingAverageAccumulator final
 
  private:
   std::deque<ScalarT> current_window_;
-  int window_size_;
+  int64_t window_size_;
   double window_sum_ = 0;
 };
 
@@ -88,6 +88,10 @@ struct AggMovingAverageOp {
       const int64_t window_size, const DenseArrayEdge& edge) const {
     using MovingAvgAcc =
         moving_average_operator_impl::MovingAverageAccumulator<ScalarT>;
+    if (window_size < 1) {
+      return absl::InvalidArgumentError(absl::StrFormat(
+          "window_size must be positive, got %d", window_size));
+    }
     DenseGroupOps<MovingAvgAcc> agg(&ctx->buffer_factory(),
                                     MovingAvgAcc(window_size));
     return agg.Apply(edge, series);
-- 
2.43.0


From 2392746f5d0de1484056d86d6b97a5304448ec97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:58 +0000
Subject: [PATCH 14/23] fix: decision forests on a single input gave wrong
 results for infinities, NaN and distant split points

---
 .../pointwise_evaluation/single_input_eval.cc | 54 ++++++++++++++-----
 .../pointwise_evaluation/single_input_eval.h  |  4 +-
 2 files changed, 43 insertions(+), 15 deletions(-)

diff --git a/arolla/decision_forest/pointwise_evaluation/single_input_eval.cc b/arolla/decision_forest/pointwise_evaluation/single_input_eval.cc
index ad671e2..e01fb19 100644
--- a/arolla/decision_forest/pointwise_evaluation/single_input_eval.cc
+++ b/arolla/decision_forest/pointwise_evaluation/single_input_eval.cc
@@ -14,9 +14,12 @@
 //
 #include "arolla/decision_forest/pointwise_evaluation/single_input_eval.h"
 
+#include <algorithm>
+#include <cmath>
 #include <cstdint>
 #include <limits>
 #include <memory>
+#include <numeric>
 #include <optional>
 #include <type_traits>
 #include <utility>
@@ -46,6 +49,15 @@ namespace single_input_eval_internal {
 
 namespace {
 
+template <typename T>
+bool is_nan(T v ABSL_ATTRIBUTE_UNUSED) {
+  if constexpr (std::numeric_limits<T>::has_quiet_NaN) {
+    return std::isnan(v);
+  } else {
+    return false;
+  }
+}
+
 template <typename T>
 absl::Status AddSplitPoints(const SplitCondition* cond,
                             std::vector<T>* split_points) {
@@ -64,8 +76,8 @@ absl::Status AddSplitPoints(const SplitCondition* cond,
       if (interval_cond->left() != -inf) {
         split_points->push_back(interval_cond->left());
       }
-      if (interval_cond->right() != inf &&
-          interval_cond->right() != interval_cond->left()) {
+      // Duplicates are removed by GetSplitPoints.
+      if (interval_cond->right() != inf) {
         split_points->push_back(interval_cond->right());
       }
       return absl::OkStatus();
@@ -84,19 +96,24 @@ absl::StatusOr<std::vector<T>> GetSplitPoints(
       RETURN_IF_ERROR(AddSplitPoints(node.condition.get(), &split_points));
     }
   }
+  // NaN is unordered. It is handled separately in PiecewiseConstantEvaluator.
+  split_points.erase(
+      std::remove_if(split_points.begin(), split_points.end(), is_nan<T>),
+      split_points.end());
   absl::c_sort(split_points);
   split_points.erase(std::unique(split_points.begin(), split_points.end()),
                      split_points.end());
   return split_points;
 }
 
+// Returns a value between `left` and `right` (if there is any).
 template <typename T>
-bool is_nan(T v ABSL_ATTRIBUTE_UNUSED) {
-  if constexpr (std::numeric_limits<T>::has_quiet_NaN) {
-    return std::isnan(v);
-  } else {
-    return false;
+T MiddleValue(T left, T right) {
+  if constexpr (std::numeric_limits<T>::has_infinity) {
+    left = std::max(left, std::numeric_limits<T>::lowest());
+    right = std::min(right, std::numeric_limits<T>::max());
   }
+  return std::midpoint(left, right);
 }
 
 // Used only on compilation stage.
@@ -164,37 +181,46 @@ PiecewiseConstantCompiler<T>::Build(
   if (split_points.empty()) {
     middle_values.push_back(evaluator.Eval(static_cast<T>(0)));
   } else {
-    middle_values.push_back(evaluator.Eval(std::numeric_limits<T>::lowest()));
+    using Limits = std::numeric_limits<T>;
+    middle_values.push_back(evaluator.Eval(
+        Limits::has_infinity ? -Limits::infinity() : Limits::lowest()));
     for (int i = 1; i < split_points.size(); ++i) {
       T left = split_points[i - 1];
       T right = split_points[i];
-      middle_values.push_back(evaluator.Eval((left + right) / 2));
+      middle_values.push_back(evaluator.Eval(MiddleValue(left, right)));
     }
-    middle_values.push_back(evaluator.Eval(std::numeric_limits<T>::max()));
+    middle_values.push_back(evaluator.Eval(
+        Limits::has_infinity ? Limits::infinity() : Limits::max()));
   }
 
   return PiecewiseConstantEvaluator<T>(
       input_slot, std::move(split_points), std::move(point_values),
-      std::move(middle_values), evaluator.Eval(std::nullopt));
+      std::move(middle_values), evaluator.Eval(std::nullopt),
+      /*result_if_value_is_nan=*/
+      evaluator.Eval(std::numeric_limits<T>::quiet_NaN()));
 }
 
 template <typename T>
 PiecewiseConstantEvaluator<T>::PiecewiseConstantEvaluator(
     FrameLayout::Slot<OptionalValue<T>> slot, std::vector<T> split_points,
     std::vector<float> point_values, std::vector<float> middle_values,
-    float result_if_value_is_missed)
+    float result_if_value_is_missed, float result_if_value_is_nan)
     : input_slot_(slot),
       split_points_(std::move(split_points)),
       point_values_(std::move(point_values)),
       middle_values_(std::move(middle_values)),
-      result_if_value_is_missed_(result_if_value_is_missed) {}
+      result_if_value_is_missed_(result_if_value_is_missed),
+      result_if_value_is_nan_(result_if_value_is_nan) {}
 
 template <typename T>
 float PiecewiseConstantEvaluator<T>::Eval(const ConstFramePtr ctx) const {
   OptionalValue<T> opt_value = ctx.Get(input_slot_);
-  if (!opt_value.present || is_nan(opt_value.value)) {
+  if (!opt_value.present) {
     return result_if_value_is_missed_;
   }
+  if (is_nan(opt_value.value)) {
+    return result_if_value_is_nan_;
+  }
   T value = opt_value.value;
 
   int split_point_id =
diff --git a/arolla/decision_forest/pointwise_evaluation/single_input_eval.h b/arolla/decision_forest/pointwise_evaluation/single_input_eval.h
index cdcb89a..6b281c9 100644
--- a/arolla/decision_forest/pointwise_evaluation/single_input_eval.h
+++ b/arolla/decision_forest/pointwise_evaluation/single_input_eval.h
@@ -49,7 +49,8 @@ class PiecewiseConstantEvaluator {
                                       std::vector<T> split_points,
                                       std::vector<float> point_values,
                                       std::vector<float> middle_values,
-                                      float result_if_value_is_missed);
+                                      float result_if_value_is_missed,
+                                      float result_if_value_is_nan);
 
   float Eval(ConstFramePtr ctx) const;
 
@@ -59,6 +60,7 @@ class PiecewiseConstantEvaluator {
   std::vector<float> point_values_;
   std::vector<float> middle_values_;
   float result_if_value_is_missed_;
+  float result_if_value_is_nan_;
 };
 
 // Constructs PiecewiseConstantEvaluator from set of decision trees. All trees
-- 
2.43.0


From fa4b2e17d3e43e021a80bf3af3f297a6cd89aedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:59 +0000
Subject: [PATCH 15/23] fix: bitmask evaluation of decision forests treated
 intervals with a NaN bound as satisfiable

---
 .../decision_forest/pointwise_evaluation/bitmask_builder.cc  | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arolla/decision_forest/pointwise_evaluation/bitmask_builder.cc b/arolla/decision_forest/pointwise_evaluation/bitmask_builder.cc
index 46f008f..3d2c4a4 100644
--- a/arolla/decision_forest/pointwise_evaluation/bitmask_builder.cc
+++ b/arolla/decision_forest/pointwise_evaluation/bitmask_builder.cc
@@ -14,6 +14,7 @@
 //
 #include "arolla/decision_forest/pointwise_evaluation/bitmask_builder.h"
 
+#include <cmath>
 #include <cstddef>
 #include <cstdint>
 #include <limits>
@@ -235,6 +236,10 @@ struct BitmaskBuilder::SplitsBuildingData {
     if (interval_split) {
       ASSIGN_OR_RETURN(auto* splits,
                        GetIntervalSplitsForInput(interval_split->input_id()));
+      if (std::isnan(interval_split->left()) ||
+          std::isnan(interval_split->right())) {
+        return absl::OkStatus();  // The condition is never true.
+      }
       const float inf = std::numeric_limits<float>::infinity();
 
       // Reserving to save allocations at the beginning of the vector.
-- 
2.43.0


From e3560f83cc56aa55d016c88a99f51b9cf8bb23eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:58 +0000
Subject: [PATCH 16/23] fix: sharding an empty list of accessors yielded no
 shard, and the generated loader did not link

---
 arolla/codegen/io/accessors.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/arolla/codegen/io/accessors.py b/arolla/codegen/io/accessors.py
index 43dbe6b..d354ac7 100644
--- a/arolla/codegen/io/accessors.py
+++ b/arolla/codegen/io/accessors.py
@@ -123,8 +123,15 @@ def sorted_accessor_list(
 def split_accessors_into_shards(
     accessors_list: list[tuple[str, Accessor]], shard_count: int
 ):
-  """Yields up to shard_count (w/o empty) sublists with +-1 equal length."""
-  if shard_count <= 1:
+  """Yields up to shard_count (w/o empty) sublists with +-1 equal length.
+
+  For an empty accessors_list a single empty list is yielded.
+
+  Args:
+    accessors_list: list of accessors to split.
+    shard_count: maximum number of sublists.
+  """
+  if shard_count <= 1 or not accessors_list:
     yield accessors_list
     return
 
-- 
2.43.0


From a3d29284768bca8ee7eab4e6ed789dbffd771ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:58 +0000
Subject: [PATCH 17/23] fix: a loader with shard_count 1 declared its _Shards
 function but did not define it

---
 arolla/codegen/io/input_loader.cc.jinja2 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arolla/codegen/io/input_loader.cc.jinja2 b/arolla/codegen/io/input_loader.cc.jinja2
index 6ffe3ab..baa9f93 100644
--- a/arolla/codegen/io/input_loader.cc.jinja2
+++ b/arolla/codegen/io/input_loader.cc.jinja2
@@ -108,7 +108,7 @@ namespace {
 {%- if is_main_file %}
 {{    generate_wildcards_input_loaders() }}
 
-{%-   if spec.shard_count > 1 %}
+{%-   if spec.shard_count > 0 %}
 {{      generate_shard_input_loaders() }}
 {%-   else %}
 constexpr auto GetAllShardsInputLoader =
@@ -157,7 +157,7 @@ std::unique_ptr<InputLoader<{{ spec.input_cls.full_name }}>>
 {%-   endif %}{#- spec.wildcard_accessors|length > 0 #}
 }
 
-{%- if spec.shard_count > 1 %}
+{%- if spec.shard_count > 0 %}
 std::vector<std::unique_ptr<InputLoader<{{ spec.input_cls.full_name }}>>>
 {{ loader_name.name }}_Shards() {
   return ::{{ impl_namespace }}::GetShardInputLoaders();
-- 
2.43.0


From ff85764822539b46aa45ed587d35dd8f57afc24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:20 +0000
Subject: [PATCH 18/23] fix: stripping a set of bytes failed for bytes above
 127 and always stripped backspaces

---
 arolla/qexpr/operators/strings/strings.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/arolla/qexpr/operators/strings/strings.h b/arolla/qexpr/operators/strings/strings.h
index fc98bff..a58432f 100644
--- a/arolla/qexpr/operators/strings/strings.h
+++ b/arolla/qexpr/operators/strings/strings.h
@@ -126,11 +126,12 @@ struct LStripOp {
       return absl::string_view(b, e - b + 1);
     };
     if (chars.present) {
-      std::bitset<256> char_set(256);
-      for (char c : absl::string_view(chars.value)) {
-        char_set.set(static_cast<int>(c));
+      std::bitset<256> char_set;
+      for (unsigned char c : absl::string_view(chars.value)) {
+        char_set.set(c);
       }
-      return Bytes(do_lstrip(bytes, [&](char c) { return char_set.test(c); }));
+      return Bytes(do_lstrip(
+          bytes, [&](unsigned char c) { return char_set.test(c); }));
     } else {
       return Bytes(
           do_lstrip(bytes, [&](char c) { return absl::ascii_isspace(c); }));
@@ -181,11 +182,12 @@ struct RStripOp {
       return absl::string_view(b, e - b + 1);
     };
     if (chars.present) {
-      std::bitset<256> char_set(256);
-      for (char c : absl::string_view(chars.value)) {
-        char_set.set(static_cast<int>(c));
+      std::bitset<256> char_set;
+      for (unsigned char c : absl::string_view(chars.value)) {
+        char_set.set(c);
       }
-      return Bytes(do_rstrip(bytes, [&](char c) { return char_set.test(c); }));
+      return Bytes(do_rstrip(
+          bytes, [&](unsigned char c) { return char_set.test(c); }));
     } else {
       return Bytes(
           do_rstrip(bytes, [&](char c) { return absl::ascii_isspace(c); }));
-- 
2.43.0


From ee2b4b2c3bb0debcd7c19c3b6881b8a9c3330f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:32 +0000
Subject: [PATCH 19/23] fix: derived types with fields different from those of
 their base type were accepted

---
 arolla/qtype/derived_qtype.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arolla/qtype/derived_qtype.cc b/arolla/qtype/derived_qtype.cc
index f52cd69..414dc99 100644
--- a/arolla/qtype/derived_qtype.cc
+++ b/arolla/qtype/derived_qtype.cc
@@ -114,7 +114,7 @@ absl::Status VerifyDerivedQType(QTypePtr qtype) {
                       DecayDerivedQType(derived_field.GetType()) ==
                           DecayDerivedQType(base_field.GetType()));
   }
-  if (!type_layout_ok) {
+  if (!type_fields_ok) {
     return absl::FailedPreconditionError(absl::StrFormat(
         "invalid derived_qtype=%s: base_qtype=%s: incompatible type_fields",
         qtype->name(), base_qtype->name()));
-- 
2.43.0


From adb668c6884a125e846a0bdfb60a3bcdba46d469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:32 +0000
Subject: [PATCH 20/23] fix: a jump back to the first operator failed a debug
 check

---
 arolla/qexpr/bound_operators.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arolla/qexpr/bound_operators.cc b/arolla/qexpr/bound_operators.cc
index 85093cc..2407cd3 100644
--- a/arolla/qexpr/bound_operators.cc
+++ b/arolla/qexpr/bound_operators.cc
@@ -46,7 +46,7 @@ inline int64_t RunBoundOperatorsImpl(
       }
       if (ctx->requested_jump() != 0) [[likely]] {
         ip += ctx->requested_jump();
-        DCHECK_LT(ip, ops.size());
+        DCHECK_LE(ip + 1, ops.size());  // ip + 1 is the next operator.
       }
       ctx->ResetSignals();
     }
-- 
2.43.0


From 940740cb54ffeb2df7950f715b63a7bed1e17622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:32 +0000
Subject: [PATCH 21/23] fix: registering an operator with a priority out of
 range left an overload without operator

---
 arolla/qexpr/operators.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/arolla/qexpr/operators.cc b/arolla/qexpr/operators.cc
index 04d2b68..dd36b77 100644
--- a/arolla/qexpr/operators.cc
+++ b/arolla/qexpr/operators.cc
@@ -81,14 +81,14 @@ class CombinedOperatorFamily final : public OperatorFamily {
     //         FormatTypeVector(signature->input_types()), input->name()));
     //   }
     // }
-    auto& record = operators_[signature->input_types()];
-    if (overwrite_priority >= record.overwrite_priority_mask.size()) {
+    if (overwrite_priority >= kOverwritePriorityCount) {
       return absl::InvalidArgumentError(
           absl::StrFormat("unable to register QExpr operator %s%s:"
                           " overwrite_priority=%d is out of range",
                           name_, FormatTypeVector(signature->input_types()),
                           overwrite_priority));
     }
+    auto& record = operators_[signature->input_types()];
     if (record.overwrite_priority_mask.test(overwrite_priority)) {
       return absl::AlreadyExistsError(
           absl::StrFormat("trying to register QExpr operator %s%s twice", name_,
@@ -111,9 +111,11 @@ class CombinedOperatorFamily final : public OperatorFamily {
   }
 
  private:
+  static constexpr size_t kOverwritePriorityCount = 2;
+
   struct Record {
     OperatorPtr op;
-    std::bitset<2> overwrite_priority_mask;
+    std::bitset<kOverwritePriorityCount> overwrite_priority_mask;
   };
 
   std::string name_;
-- 
2.43.0


From f8f5c585946b63edcab64bb4cd37ff5dc805f8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:32 +0000
Subject: [PATCH 22/23] fix: jagged.edge_at overflowed in its error message for
 the lowest int64

---
 arolla/jagged_shape/qexpr/shape_operators.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arolla/jagged_shape/qexpr/shape_operators.h b/arolla/jagged_shape/qexpr/shape_operators.h
index a9f285e..9258aac 100644
--- a/arolla/jagged_shape/qexpr/shape_operators.h
+++ b/arolla/jagged_shape/qexpr/shape_operators.h
@@ -184,7 +184,7 @@ struct JaggedShapeEdgeAtOp {
       return absl::InvalidArgumentError(
           absl::StrFormat("expected rank > %d, but got rank = %d, when trying "
                           "to get the edge at dim = %d",
-                          dim >= 0 ? dim : -dim - 1, shape.rank(), dim));
+                          dim >= 0 ? dim : -(dim + 1), shape.rank(), dim));
     } else {
       return shape.edges()[pos_dim];
     }
-- 
2.43.0


From ca9a9b43a06d7cf9bf99f7e990b1753d7121ec95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:32 +0000
Subject: [PATCH 23/23] fix: concatenating a single jagged array did not check
 its size against its shape

---
 arolla/jagged_shape/util/concat.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/arolla/jagged_shape/util/concat.h b/arolla/jagged_shape/util/concat.h
index 9dd34f5..5b4d491 100644
--- a/arolla/jagged_shape/util/concat.h
+++ b/arolla/jagged_shape/util/concat.h
@@ -387,10 +387,6 @@ absl::StatusOr<std::tuple<ArrayType, Shape>> ConcatJaggedArraysAlongDimension(
                    jagged_shape_internal::ConcatJaggedShapesAlongDimension(
                        array_shapes, dim, insert_concat_dim));
 
-  if (arrays.size() == 1) {
-    return std::make_tuple(arrays[0], std::move(result_jagged_shape));
-  }
-
   for (int64_t i_array = 0; i_array < arrays.size(); ++i_array) {
     if (arrays[i_array].size() != array_shapes[i_array].size()) {
       return absl::InvalidArgumentError(absl::StrFormat(
@@ -400,6 +396,10 @@ absl::StatusOr<std::tuple<ArrayType, Shape>> ConcatJaggedArraysAlongDimension(
     }
   }
 
+  if (arrays.size() == 1) {
+    return std::make_tuple(arrays[0], std::move(result_jagged_shape));
+  }
+
   const int64_t concat_dim_parent_size =
       result_jagged_shape.edges()[dim].parent_size();
 
-- 
2.43.0

