From 4dd887bbdc42ba4b6cf4a72abf83663bc35461dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 01/19] fix: array: leave the base pointer null when nothing is
 allocated

An empty shape with a negative stride has a non-zero flat_min, so allocate()
computed a non-null base from a null buffer.
---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index dac1709..7c182b5 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2287,7 +2287,7 @@ private:
       buffer_size_ = flat_extent;
       buffer_ = alloc_traits::allocate(alloc_, buffer_size_);
     }
-    base_ = buffer_ - shape_.flat_min();
+    base_ = internal::pointer_add(buffer_, -shape_.flat_min());
   }
 
   // Call the constructor on all of the elements of the array.
-- 
2.43.0


From 2377372b9e633786bff396ff2b79d4043d93382d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 02/19] fix: make_compact: do not skip a stride past a
 dimension with a static stride

---
 include/array/array.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index 7c182b5..f2cefa8 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -1503,8 +1503,11 @@ NDARRAY_HOST_DEVICE auto make_compact_dims(
     const dim<Min, Extent, Stride>& dim0, const Dims&... dims) {
 
   // If we know the extent of this dimension, we can also provide
-  // a constant stride for the next dimension.
-  constexpr index_t NextStride = static_mul(CurrentStride, Extent);
+  // a constant stride for the next dimension. If this dimension already
+  // has a stride, it does not use the current stride, so the next dimension
+  // can have it instead.
+  constexpr index_t NextStride =
+      is_static(Stride) ? CurrentStride : static_mul(CurrentStride, Extent);
   // Give this dimension the current stride if we don't have one already,
   // and don't give it a runtime stride. If CurrentStride is static, that
   // will be the stride. If not, it will be dynamic, and resolved later.
-- 
2.43.0


From 9a08e5f9eb81547e198ccc53420de1a82ea2a684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:16 +0000
Subject: [PATCH 03/19] fix: array::assign(shape, value) on an array without
 storage

An array of a shape with static non-empty extents that was moved from has no
storage but still compares equal to the new shape, so assign destroyed and
then constructed elements at a null base. Check for storage first, as the
other assign overloads do.
---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index f2cefa8..5b16e17 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2529,7 +2529,7 @@ public:
    * copy constructed from `value`. */
   void assign(Shape shape, const T& value) {
     shape.resolve();
-    if (shape_ == shape) {
+    if (base_ && shape_ == shape) {
       destroy();
     } else {
       deallocate();
-- 
2.43.0


From f45f8dabcd5e9230a8913fe84b9dbfb408091ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:22 +0000
Subject: [PATCH 04/19] fix: moved-from arrays have a resolved shape

Moving from an array is documented to leave a default constructed array, but
it left the default shape with unresolved strides. Assigning such an array to
one with storage (e.g. a = b after moving b elsewhere) failed the assertion
that the shapes are equal in copy_construct or move_construct.
---
 include/array/array.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/array/array.h b/include/array/array.h
index 5b16e17..f199ec7 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2401,6 +2401,7 @@ public:
     // Just assume we can swap in that case.
     if (typename alloc_traits::propagate_on_container_move_assignment() ||
         alloc_ == other.get_allocator()) {
+      shape_.resolve();
       swap_except_allocator(other);
     } else {
       shape_ = other.shape_;
@@ -2418,6 +2419,7 @@ public:
       : alloc_(alloc), buffer_(nullptr), buffer_size_(0), base_(nullptr) {
     using std::swap;
     if (alloc_ == other.get_allocator()) {
+      shape_.resolve();
       swap_except_allocator(other);
     } else {
       shape_ = other.shape_;
-- 
2.43.0


From 4399973b99e2bac8cbfcad8416cade37f4262161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:05 +0000
Subject: [PATCH 05/19] fix: reshape: intersections of disjoint shapes are
 empty

The intersection of shapes that are disjoint in two dimensions had two
negative extents and so a positive size, which failed the assertion that the
shape is empty when the array being reshaped has no storage.
---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index f199ec7..fac358a 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -1554,7 +1554,7 @@ NDARRAY_HOST_DEVICE auto clamp_dims(const DimA& a, const DimB& b) {
   constexpr index_t Extent = static_add(static_sub(Max, Min), 1);
   index_t min = internal::max(a.min(), b.min());
   index_t max = internal::min(a.max(), b.max());
-  index_t extent = max - min + 1;
+  index_t extent = internal::max<index_t>(max - min + 1, 0);
   return dim<Min, Extent, DimA::Stride>(min, extent, a.stride());
 }
 
-- 
2.43.0


From 305edc99718d613628ed8d00b5184219fabb1283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:17 +0000
Subject: [PATCH 06/19] fix: reshape: intersect shapes with static extents
 correctly

The intersection of two shapes with a static extent and a dynamic min was
converted back to the array's own shape type, which gives it the static
extent again: the conversion fails the compatibility assertion, and without
assertions the copy reads and writes outside both arrays.
---
 include/array/array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index fac358a..3424076 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2638,11 +2638,11 @@ public:
     array new_array(new_shape);
 
     // Move the common elements to the new array.
-    Shape intersection =
+    auto intersection =
         internal::clamp(new_shape.dims(), shape_.dims(), typename Shape::dim_indices());
     pointer intersection_base =
         internal::pointer_add(new_array.base_, new_shape[intersection.min()]);
-    copy_shape_traits_type::for_each_value(
+    copy_shape_traits<Shape, decltype(intersection)>::for_each_value(
         shape_, base_, intersection, intersection_base, internal::move_assign<T, T>);
 
     *this = std::move(new_array);
-- 
2.43.0


From d9d80b29d9b446ce41020b6f3a1b205286ffe7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:33 +0000
Subject: [PATCH 07/19] fix: propagate allocators when assigning between arrays
 without storage

Copy and move assignment returned before propagating the allocator if both
arrays had no storage, so the assigned array went on using its old allocator
although the allocator propagates on assignment.
---
 include/array/array.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/array/array.h b/include/array/array.h
index 3424076..de6b4ce 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2443,6 +2443,9 @@ public:
       if (base_) {
         assert(shape_ == other.shape_);
       } else {
+        if (alloc_traits::propagate_on_container_copy_assignment::value) {
+          alloc_ = other.get_allocator();
+        }
         shape_ = other.shape_;
         assert(shape_.empty());
       }
@@ -2468,6 +2471,9 @@ public:
       if (base_) {
         assert(shape_ == other.shape_);
       } else {
+        if (alloc_traits::propagate_on_container_move_assignment::value) {
+          swap(alloc_, other.alloc_);
+        }
         swap(shape_, other.shape_);
         assert(shape_.empty());
       }
-- 
2.43.0


From 9b5eb4450f2e635308a0c5af8c9674fb2ffd74b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:39 +0000
Subject: [PATCH 08/19] fix: reshape: allocate with the array's allocator

reshape allocated the new array with a default constructed allocator. If the
allocator propagates on move assignment, the array was left with that
allocator instead of the one it was given.
---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index de6b4ce..0a42f4b 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2641,7 +2641,7 @@ public:
     if (shape_ == new_shape) { return; }
 
     // Allocate an array with the new shape.
-    array new_array(new_shape);
+    array new_array(new_shape, alloc_);
 
     // Move the common elements to the new array.
     auto intersection =
-- 
2.43.0


From 47e1b20cfcd101e3276a9d5b808bc57363293f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:11 +0000
Subject: [PATCH 09/19] fix: move_reinterpret_shape: check the offset the right
 way round

The new shape's offsets are relative to the old base plus offset, so the new
shape has to be a subset of the old one moved by -offset, as reinterpret_shape
and set_shape check. Valid offsets failed the assertion, and offsets leaving
the allocation passed it.
---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index 0a42f4b..0f9155c 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -3062,7 +3062,7 @@ array<T, NewShape, Alloc> move_reinterpret_shape(
       std::is_trivial<T>::value, "move_reinterpret_shape is broken for non-trivial types.");
   using std::swap;
 
-  assert(new_shape.is_subset_of(from.shape(), offset));
+  assert(new_shape.is_subset_of(from.shape(), -offset));
   array<T, NewShape, Alloc> result;
   // Consider this to be a move assignment.
   if (std::allocator_traits<Alloc>::propagate_on_container_move_assignment::value) {
-- 
2.43.0


From 3832319e565bc0100a83214da762335e66387637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:25 +0000
Subject: [PATCH 10/19] fix: move_reinterpret_shape: leave the moved-from array
 without memory

If the new shape is static, the default constructed result owned an allocation
of its own, which was swapped into the moved-from array together with the old
shape type's default shape. The array then claimed more elements than its
allocation holds, and assigning to it wrote out of bounds. Also resolve the
moved-from array's shape.
---
 include/array/array.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/array/array.h b/include/array/array.h
index 0f9155c..41a5137 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -3064,6 +3064,8 @@ array<T, NewShape, Alloc> move_reinterpret_shape(
 
   assert(new_shape.is_subset_of(from.shape(), -offset));
   array<T, NewShape, Alloc> result;
+  // A default constructed array of a static shape is not empty.
+  result.deallocate();
   // Consider this to be a move assignment.
   if (std::allocator_traits<Alloc>::propagate_on_container_move_assignment::value) {
     swap(result.alloc_, from.alloc_);
@@ -3076,6 +3078,7 @@ array<T, NewShape, Alloc> move_reinterpret_shape(
   swap(result.base_, from.base_);
   result.shape_ = new_shape;
   from.shape_ = OldShape();
+  from.shape_.resolve();
   result.base_ += offset;
 
   return result;
-- 
2.43.0


From 0fbb8eaeeee6519b4040f08e707e6b9fc115878b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 11/19] fix: uninitialized_allocator: use the wrapped
 allocator's copy selection

allocator_traits calls select_on_container_copy_construction() as a member
function without arguments, so the static function taking an allocator was
never called, and it hid the wrapped allocator's. Copies of an array used a
copy of the allocator instead of the one the wrapped allocator selects.
---
 include/array/array.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index 41a5137..6279f9b 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -3207,11 +3207,14 @@ public:
       typename std::allocator_traits<BaseAlloc>::propagate_on_container_move_assignment;
   using propagate_on_container_swap =
       typename std::allocator_traits<BaseAlloc>::propagate_on_container_swap;
-  static uninitialized_allocator select_on_container_copy_construction(
-      const uninitialized_allocator& alloc) {
-    return std::allocator_traits<BaseAlloc>::select_on_container_copy_construction(alloc);
+  uninitialized_allocator select_on_container_copy_construction() const {
+    return uninitialized_allocator(
+        std::allocator_traits<BaseAlloc>::select_on_container_copy_construction(*this));
   }
 
+  uninitialized_allocator() = default;
+  explicit uninitialized_allocator(const BaseAlloc& alloc) : BaseAlloc(alloc) {}
+
   value_type* allocate(size_t n) { return std::allocator_traits<BaseAlloc>::allocate(*this, n); }
   void deallocate(value_type* p, size_t n) noexcept {
     return std::allocator_traits<BaseAlloc>::deallocate(*this, p, n);
-- 
2.43.0


From 4356c648905d89986dd94176d922765109788368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 12/19] fix: for_each_in_z_order calls the function out of
 range when a range is empty

---
 include/array/z_order.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/array/z_order.h b/include/array/z_order.h
index a4c7555..2a855e1 100644
--- a/include/array/z_order.h
+++ b/include/array/z_order.h
@@ -72,6 +72,8 @@ NDARRAY_UNIQUE void for_each_index_in_z_order(const Extents& extents, const Fn&
   constexpr index_t Rank = std::tuple_size<Extents>::value;
   // Get the ends of the iteration space as an array.
   const auto end = tuple_to_array<index_t>(extents, make_index_sequence<Rank>());
+  // If any of the extents is empty, there is nothing to traverse.
+  if (*std::min_element(end.begin(), end.end()) <= 0) return;
   const index_t max_extent = *std::max_element(end.begin(), end.end());
   const index_t step = std::max<index_t>(1, next_power_of_two(max_extent) >> 1);
   std::array<index_t, Rank> z = {{0,}};
-- 
2.43.0


From 3dcb1d92018b4f14abc19f1850abecc907c6171c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 13/19] fix: crop of a window disjoint from the image gives an
 empty view instead of negative extents

---
 include/array/image.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/array/image.h b/include/array/image.h
index 6502ca8..9ac7ae2 100644
--- a/include/array/image.h
+++ b/include/array/image.h
@@ -154,11 +154,12 @@ array_ref<T, Shape> crop(const array_ref<T, Shape>& im, index_t x0, index_t y0,
     index_t y1, crop_origin origin = crop_origin::crop) {
   x0 = internal::max(x0, im.x().min());
   y0 = internal::max(y0, im.y().min());
-  x1 = internal::min(x1, im.x().max() + 1);
-  y1 = internal::min(y1, im.y().max() + 1);
+  // If the crop does not intersect the image, the result is empty.
+  x1 = internal::max(x0, internal::min(x1, im.x().max() + 1));
+  y1 = internal::max(y0, internal::min(y1, im.y().max() + 1));
   Shape cropped_shape = crop_image_shape(im.shape(), x0, y0, x1, y1, origin);
   index_t c0 = im.c().min();
-  T* base = im.base() != nullptr ? &im(x0, y0, c0) : nullptr;
+  T* base = im.base() != nullptr && !cropped_shape.empty() ? &im(x0, y0, c0) : im.base();
   if (origin == crop_origin::crop) {
     base = internal::pointer_add(base, -cropped_shape(x0, y0, c0));
   }
-- 
2.43.0


From 412f413b25066302b083a2a2f399eb84057f8c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:02 +0000
Subject: [PATCH 14/19] fix: no overflow in the mins of fused dimensions

Fusing dimensions to copy or traverse the values of an array computed
outer.min * inner.extent, which need not be representable for arrays with a
large min, though neither operation depends on it.
---
 include/array/array.h | 14 +++++++++++---
 include/array/image.h |  2 +-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index 6279f9b..b2fbe82 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -1811,7 +1811,10 @@ NDARRAY_HOST_DEVICE auto dynamic_optimize_copy_shapes(const ShapeSrc& src, const
 
   std::array<copy_dims, rank> dims;
   for (size_t i = 0; i < rank; i++) {
-    dims[i] = {src_dims[i], dst_dims[i]};
+    // Only the min of src relative to dst matters. The mins themselves may be too large to fuse.
+    dims[i] = {dim<>(src_dims[i].min() - dst_dims[i].min(), src_dims[i].extent(),
+                   src_dims[i].stride()),
+        dim<>(0, dst_dims[i].extent(), dst_dims[i].stride())};
   }
 
   // Sort the dims by the dst stride.
@@ -1850,8 +1853,13 @@ NDARRAY_HOST_DEVICE auto dynamic_optimize_copy_shapes(const ShapeSrc& src, const
 
 template <class Shape>
 NDARRAY_HOST_DEVICE auto optimize_shape(const Shape& shape) {
-  // In the general case, dynamically optimize the shape.
-  return dynamic_optimize_shape(shape);
+  // In the general case, dynamically optimize the shape. The values of a shape do not depend on its
+  // mins, which may be too large to fuse.
+  auto dims = internal::tuple_to_array<dim<>>(shape.dims());
+  for (dim<>& d : dims) {
+    d.set_min(0);
+  }
+  return dynamic_optimize_shape(shape_of_rank<Shape::rank()>(array_to_tuple(dims)));
 }
 
 template <class Dim0>
diff --git a/include/array/image.h b/include/array/image.h
index 9ac7ae2..db47ff0 100644
--- a/include/array/image.h
+++ b/include/array/image.h
@@ -98,7 +98,7 @@ public:
   static void for_each_value(const shape_type& s, Ptr base, Fn&& fn) {
     const index_t channels = s.c().extent();
     if (channels == s.x().stride()) {
-      dense_shape<2> opt_s({s.x().min() * channels, s.x().extent() * channels}, s.y());
+      dense_shape<2> opt_s({0, s.x().extent() * channels}, s.y());
       for_each_value_in_order(opt_s, base, fn);
     } else {
       for_each_value_in_order(s, base, fn);
-- 
2.43.0


From ae2b2eac1fbd98c8c2497e3af0b912c634be6102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:15 +0000
Subject: [PATCH 15/19] fix: do not move from callables passed as lvalues

---
 include/array/array.h  | 12 ++++++------
 include/array/image.h  |  2 +-
 include/array/matrix.h |  2 +-
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index b2fbe82..23334cc 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -1962,7 +1962,7 @@ template <size_t... LoopOrder, class Shape, class Fn,
     std::enable_if_t<(sizeof...(LoopOrder) == 0), int> = 0>
 NDARRAY_UNIQUE NDARRAY_HOST_DEVICE void for_all_indices(const Shape& s, Fn&& fn) {
   using index_type = typename Shape::index_type;
-  for_each_index(s, [fn = std::move(fn)](const index_type& i) { internal::apply(fn, i); });
+  for_each_index(s, [&fn](const index_type& i) { internal::apply(fn, i); });
 }
 template <size_t... LoopOrder, class Shape, class Fn,
     class = internal::enable_if_callable<Fn, index_of_rank<sizeof...(LoopOrder)>>,
@@ -1970,14 +1970,14 @@ template <size_t... LoopOrder, class Shape, class Fn,
 NDARRAY_UNIQUE NDARRAY_HOST_DEVICE void for_each_index(const Shape& s, Fn&& fn) {
   using index_type = index_of_rank<sizeof...(LoopOrder)>;
   for_each_index_in_order(reorder<LoopOrder...>(s),
-      [fn = std::move(fn)](const index_type& i) { fn(internal::unshuffle<LoopOrder...>(i)); });
+      [&fn](const index_type& i) { fn(internal::unshuffle<LoopOrder...>(i)); });
 }
 template <size_t... LoopOrder, class Shape, class Fn,
     class = internal::enable_if_callable<Fn, decltype(LoopOrder)...>,
     std::enable_if_t<(sizeof...(LoopOrder) != 0), int> = 0>
 NDARRAY_UNIQUE NDARRAY_HOST_DEVICE void for_all_indices(const Shape& s, Fn&& fn) {
   using index_type = index_of_rank<sizeof...(LoopOrder)>;
-  for_each_index_in_order(reorder<LoopOrder...>(s), [fn = std::move(fn)](const index_type& i) {
+  for_each_index_in_order(reorder<LoopOrder...>(s), [&fn](const index_type& i) {
     internal::apply(fn, internal::unshuffle<LoopOrder...>(i));
   });
 }
@@ -2935,7 +2935,7 @@ void fill(array<T, Shape, Alloc>& dst, const T& value) {
  * `shape_traits<Shape>::for_each_value`. */
 template <class T, class Shape, class Generator, class = internal::enable_if_callable<Generator>>
 NDARRAY_HOST_DEVICE void generate(const array_ref<T, Shape>& dst, Generator&& g) {
-  dst.for_each_value([g = std::move(g)](T& i) { i = g(); });
+  dst.for_each_value([&g](T& i) { i = g(); });
 }
 template <class T, class Shape, class Alloc, class Generator,
     class = internal::enable_if_callable<Generator>>
@@ -2950,7 +2950,7 @@ template <typename T, typename Shape, class Fn>
 NDARRAY_HOST_DEVICE void transform_index(const array_ref<T, Shape>& dst, Fn&& fn) {
   using index_type = typename Shape::index_type;
   for_each_index(
-      dst.shape(), [&, fn = std::move(fn)](const index_type& idx) { dst[idx] = fn(idx); });
+      dst.shape(), [&](const index_type& idx) { dst[idx] = fn(idx); });
 }
 template <typename T, typename Shape, class Fn>
 void transform_index(array<T, Shape>& dst, Fn&& fn) {
@@ -2964,7 +2964,7 @@ template <typename T, typename Shape, class Fn>
 NDARRAY_HOST_DEVICE void transform_indices(const array_ref<T, Shape>& dst, Fn&& fn) {
   using index_type = typename Shape::index_type;
   transform_index(
-      dst, [fn = std::move(fn)](const index_type& idx) { return internal::apply(fn, idx); });
+      dst, [&fn](const index_type& idx) { return internal::apply(fn, idx); });
 }
 template <typename T, typename Shape, class Fn>
 void transform_indices(array<T, Shape>& dst, Fn&& fn) {
diff --git a/include/array/image.h b/include/array/image.h
index db47ff0..8af2cab 100644
--- a/include/array/image.h
+++ b/include/array/image.h
@@ -78,7 +78,7 @@ public:
   template <class Ptr, class Fn>
   static void for_each_value(const shape_type& s, Ptr base, Fn&& fn) {
     for_each_image_index(
-        s, [=, fn = std::move(fn)](const typename shape_type::index_type& i) { fn(base[s[i]]); });
+        s, [=, &fn](const typename shape_type::index_type& i) { fn(base[s[i]]); });
   }
 };
 
diff --git a/include/array/matrix.h b/include/array/matrix.h
index 3db0457..1417403 100644
--- a/include/array/matrix.h
+++ b/include/array/matrix.h
@@ -80,7 +80,7 @@ public:
   template <class Ptr, class Fn>
   static void for_each_value(const shape_type& s, Ptr base, Fn&& fn) {
     for_each_matrix_index(
-        s, [=, fn = std::move(fn)](const typename shape_type::index_type& i) { fn(base[s[i]]); });
+        s, [=, &fn](const typename shape_type::index_type& i) { fn(base[s[i]]); });
   }
 };
 
-- 
2.43.0


From d16b35d29027b570fd5cd6ef3eab5d0567ba2af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:59 +0000
Subject: [PATCH 16/19] fix: make_move of an rvalue array moves with every
 compiler

---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index 23334cc..923c027 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2899,7 +2899,7 @@ auto make_move(
 template <class T, class Shape, class Alloc>
 auto make_move(array<T, Shape, Alloc>&& src, const Shape& shape, const Alloc& alloc = Alloc()) {
   if (src.shape() == shape && alloc == src.get_allocator()) {
-    return src;
+    return array<T, Shape, Alloc>(std::move(src), alloc);
   } else {
     return make_move(src.ref(), shape, alloc);
   }
-- 
2.43.0


From ca1fc560a7c0bdd5878b1c2a911f6f5142dec07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:18 +0000
Subject: [PATCH 17/19] fix: check every dim of an Einstein operand that uses
 an index

An index used twice by an operand only had its first dim checked, so the
trace of a 5x3 matrix read out of bounds without an assertion failing.
---
 include/array/ein_reduce.h | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/include/array/ein_reduce.h b/include/array/ein_reduce.h
index 684646d..0cffc7c 100644
--- a/include/array/ein_reduce.h
+++ b/include/array/ein_reduce.h
@@ -291,21 +291,44 @@ class is_inferred_shape {};
 class is_result_shape {};
 class is_operand_shape {};
 
-// Get a dim from an operand, depending on the intended use of the shape.
+// Helper to forget the compile-time constants of a dim.
+template <class Dim>
+NDARRAY_INLINE std::tuple<dim<>> with_dynamic_dim(const std::tuple<Dim>& maybe_dim) {
+  return std::tuple<dim<>>(dim<>(std::get<0>(maybe_dim)));
+}
+NDARRAY_INLINE std::tuple<> with_dynamic_dim(std::tuple<> maybe_dim) { return maybe_dim; }
+
+// If an operand uses the same dimension more than once, get the dims other than the first one that
+// use it. These are only used to check that their bounds are compatible with the other dims.
+template <size_t Dim, size_t... Is, class Dims, size_t... Js>
+NDARRAY_INLINE auto repeated_dims(const Dims& dims, index_sequence<Js...>) {
+  constexpr size_t none = std::tuple_size<Dims>::value;
+  return std::tuple_cat(with_dynamic_dim(
+      get_or_empty<(Is == Dim && Js != index_of<Dim, Is...>()) ? Js : none>(dims))...);
+}
+template <size_t Dim, class Op, size_t... Is>
+NDARRAY_INLINE auto repeated_dims(const ein_op<Op, Is...>& op) {
+  return repeated_dims<Dim, Is...>(dims_of(op.op), make_index_sequence<sizeof...(Is)>());
+}
+
+// Get the dims from an operand, depending on the intended use of the shape.
 template <size_t Dim, class Dims, size_t... Is>
 NDARRAY_INLINE auto gather_dims(is_result_shape, const ein_op<Dims, Is...>& op) {
   // If this is part of the result, we want to keep its strides.
-  return get_or_empty<index_of<Dim, Is...>()>(dims_of(op.op));
+  return std::tuple_cat(
+      get_or_empty<index_of<Dim, Is...>()>(dims_of(op.op)), repeated_dims<Dim>(op));
 }
 template <size_t Dim, class Dims, size_t... Is>
 NDARRAY_INLINE auto gather_dims(is_inferred_shape, const ein_op<Dims, Is...>& op) {
   // For inferred shapes, we want shapes without any constexpr strides, so it can be reshaped.
-  return with_stride<dynamic>(get_or_empty<index_of<Dim, Is...>()>(dims_of(op.op)));
+  return std::tuple_cat(with_stride<dynamic>(get_or_empty<index_of<Dim, Is...>()>(dims_of(op.op))),
+      repeated_dims<Dim>(op));
 }
 template <size_t Dim, class Dims, size_t... Is>
 NDARRAY_INLINE auto gather_dims(is_operand_shape, const ein_op<Dims, Is...>& op) {
   // If this is an operand shape, we want all of its dimensions to be stride 0.
-  return with_stride<0>(get_or_empty<index_of<Dim, Is...>()>(dims_of(op.op)));
+  return std::tuple_cat(with_stride<0>(get_or_empty<index_of<Dim, Is...>()>(dims_of(op.op))),
+      repeated_dims<Dim>(op));
 }
 
 template <size_t Dim, class Kind, class Op, class X>
-- 
2.43.0


From 4551620d2222101e7dee659acafa28494287a724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:23 +0000
Subject: [PATCH 18/19] fix: do not treat a result dim of stride 0 as a
 reduction dim

---
 include/array/ein_reduce.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/array/ein_reduce.h b/include/array/ein_reduce.h
index 0cffc7c..be2b333 100644
--- a/include/array/ein_reduce.h
+++ b/include/array/ein_reduce.h
@@ -302,9 +302,8 @@ NDARRAY_INLINE std::tuple<> with_dynamic_dim(std::tuple<> maybe_dim) { return ma
 // use it. These are only used to check that their bounds are compatible with the other dims.
 template <size_t Dim, size_t... Is, class Dims, size_t... Js>
 NDARRAY_INLINE auto repeated_dims(const Dims& dims, index_sequence<Js...>) {
-  constexpr size_t none = std::tuple_size<Dims>::value;
   return std::tuple_cat(with_dynamic_dim(
-      get_or_empty<(Is == Dim && Js != index_of<Dim, Is...>()) ? Js : none>(dims))...);
+      get_or_empty<(Is == Dim && Js != index_of<Dim, Is...>()) ? Js : sizeof...(Is)>(dims))...);
 }
 template <size_t Dim, class Op, size_t... Is>
 NDARRAY_INLINE auto repeated_dims(const ein_op<Op, Is...>& op) {
@@ -314,9 +313,10 @@ NDARRAY_INLINE auto repeated_dims(const ein_op<Op, Is...>& op) {
 // Get the dims from an operand, depending on the intended use of the shape.
 template <size_t Dim, class Dims, size_t... Is>
 NDARRAY_INLINE auto gather_dims(is_result_shape, const ein_op<Dims, Is...>& op) {
-  // If this is part of the result, we want to keep its strides.
-  return std::tuple_cat(
-      get_or_empty<index_of<Dim, Is...>()>(dims_of(op.op)), repeated_dims<Dim>(op));
+  // If this is part of the result, it must not look like an operand dimension, even if its stride is
+  // 0. The strides of the result are not needed to find the bounds of the reduction.
+  return std::tuple_cat(with_stride<dynamic>(get_or_empty<index_of<Dim, Is...>()>(dims_of(op.op))),
+      repeated_dims<Dim>(op));
 }
 template <size_t Dim, class Dims, size_t... Is>
 NDARRAY_INLINE auto gather_dims(is_inferred_shape, const ein_op<Dims, Is...>& op) {
-- 
2.43.0


From 3468bf6445d741fec69a85fadb365605ed7b974a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:10 +0000
Subject: [PATCH 19/19] fix: make_compact leaves room for negative compile-time
 strides

---
 include/array/array.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index 923c027..31b7b81 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -1529,7 +1529,8 @@ NDARRAY_HOST_DEVICE auto make_compact_dims(const Dims& dims, index_sequence<Is..
       variadic_max(std::tuple_element<Is, Dims>::type::Stride == 1
                        ? static_abs(std::tuple_element<Is, Dims>::type::Extent)
                        : dynamic...);
-  constexpr bool AnyStrideGreaterThanOne = any((std::tuple_element<Is, Dims>::type::Stride > 1)...);
+  constexpr bool AnyStrideGreaterThanOne =
+      any((static_abs(std::tuple_element<Is, Dims>::type::Stride) > 1)...);
   constexpr bool AllDynamic = all(is_dynamic(std::tuple_element<Is, Dims>::type::Stride)...);
   constexpr index_t NextStride = AnyStrideGreaterThanOne ? dynamic : (AllDynamic ? 1 : MinStride);
   return make_compact_dims<NextStride>(std::get<Is>(dims)...);
-- 
2.43.0

