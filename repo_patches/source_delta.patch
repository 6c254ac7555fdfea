From 8b6569da90a8fade1b34deece356c6f1c9ae5068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:34 +0000
Subject: [PATCH 01/51] fix: ConcatenateNode reports the old value of the
 changed element

propagate() recorded the first element of the input's window as the old
value of every update, so reverting restored the wrong values.
---
 dwave/optimization/src/nodes/manipulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/optimization/src/nodes/manipulation.cpp b/dwave/optimization/src/nodes/manipulation.cpp
index b6584dc..7c3413a 100644
--- a/dwave/optimization/src/nodes/manipulation.cpp
+++ b/dwave/optimization/src/nodes/manipulation.cpp
@@ -160,7 +160,7 @@ void ConcatenateNode::propagate(State& state) const {
             auto update_it = view_it + diff.index;
             ssize_t buffer_index = &*update_it - ptr->buffer.data();
             assert(*update_it == diff.old);
-            ptr->updates.emplace_back(buffer_index, *view_it, diff.value);
+            ptr->updates.emplace_back(buffer_index, *update_it, diff.value);
             *update_it = diff.value;
         }
     }
-- 
2.43.0


From 581ef6bfa8489389b790d3987d818e45aed9528a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:22 +0000
Subject: [PATCH 02/51] fix: BinaryOpNode picks its broadcast operand by static
 shape

A dynamic operand that currently holds one element was taken for the
scalar: shape()/size() then reported the scalar's shape, and a size-1
array operand sent initialization/propagation of a growing operand
through the equal-shape branch, writing past the end of the buffer.
---
 dwave/optimization/src/nodes/mathematical.cpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index de0a08d..75c692e 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -81,7 +81,7 @@ void BinaryOpNode<BinaryOp>::initialize_state(State& state) const {
     auto func = op();
     std::vector<double> values;
 
-    if (std::ranges::equal(lhs_ptr->shape(state), rhs_ptr->shape(state))) {
+    if (std::ranges::equal(lhs_ptr->shape(), rhs_ptr->shape())) {
         // This is the easy case - all we need to do is iterate over both as flat arrays
         values.reserve(lhs_ptr->size(state));
 
@@ -267,7 +267,7 @@ void BinaryOpNode<BinaryOp>::propagate(State& state) const {
     auto& values = ptr->buffer;
     auto& changes = ptr->updates;
 
-    if (std::ranges::equal(lhs_ptr->shape(state), rhs_ptr->shape(state))) {
+    if (std::ranges::equal(lhs_ptr->shape(), rhs_ptr->shape())) {
         // The easy case, just go through both predecessors making updates.
         if (lhs_ptr->diff(state).size() && rhs_ptr->diff(state).size()) {
             // Both modified
@@ -366,12 +366,11 @@ template <class BinaryOp>
 std::span<const ssize_t> BinaryOpNode<BinaryOp>::shape(const State& state) const {
     if (!this->dynamic()) return this->shape();
 
-    const ssize_t lhs_size = operands_[0]->size(state);
-
     // we don't (yet) support other cases
-    assert(lhs_size == 1 || operands_[1]->size(state) == 1);
+    assert(operands_[0]->size() == 1 || operands_[1]->size() == 1);
 
-    return (lhs_size == 1) ? operands_[1]->shape(state) : operands_[0]->shape(state);
+    // exactly one operand is dynamic and it might (currently) have a size of 1
+    return operands_[0]->dynamic() ? operands_[0]->shape(state) : operands_[1]->shape(state);
 }
 
 template <class BinaryOp>
@@ -380,13 +379,11 @@ ssize_t BinaryOpNode<BinaryOp>::size(const State& state) const {
         return size;
     }
 
-    const ssize_t lhs_size = operands_[0]->size(state);
-    const ssize_t rhs_size = operands_[1]->size(state);
-
     // we don't (yet) support other cases
-    assert(lhs_size == 1 || rhs_size == 1);
+    assert(operands_[0]->size() == 1 || operands_[1]->size() == 1);
 
-    return (lhs_size == 1) ? rhs_size : lhs_size;
+    // exactly one operand is dynamic and it might (currently) have a size of 1
+    return operands_[0]->dynamic() ? operands_[0]->size(state) : operands_[1]->size(state);
 }
 
 template <class BinaryOp>
-- 
2.43.0


From dbebfa0b71a0ef72fc5b6d34eaa38e5b4acf3f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:13 +0000
Subject: [PATCH 03/51] fix: SquareNode min/max account for negative
 predecessor values

The bounds were the squares of the predecessor's min and max, which are
not the smallest/largest squares when the predecessor can be negative.
---
 dwave/optimization/src/nodes/mathematical.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index 75c692e..aeada97 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -1794,8 +1794,9 @@ double UnaryOpNode<std::negate<double>>::max() const {
 }
 template <>
 double UnaryOpNode<functional::square<double>>::max() const {
-    const double max = array_ptr_->max();
-    if (std::abs(max) >= std::sqrt(Array::max())) {
+    // the value furthest from 0 gives the largest square
+    const double max = std::max(std::abs(array_ptr_->min()), std::abs(array_ptr_->max()));
+    if (max >= std::sqrt(Array::max())) {
         // We could consider raising an error here but for now let's be
         // permissive.
         return Array::max();
@@ -1843,8 +1844,15 @@ double UnaryOpNode<std::negate<double>>::min() const {
 }
 template <>
 double UnaryOpNode<functional::square<double>>::min() const {
-    const double min = array_ptr_->min();
-    if (std::abs(min) >= std::sqrt(Array::max())) {
+    const double low = array_ptr_->min();
+    const double high = array_ptr_->max();
+
+    // if our predecessor can be 0 then so can we
+    if (low <= 0 && high >= 0) return 0;
+
+    // the value closest to 0 gives the smallest square
+    const double min = std::min(std::abs(low), std::abs(high));
+    if (min >= std::sqrt(Array::max())) {
         // We could consider raising an error here but for now let's be
         // permissive.
         return Array::max();
-- 
2.43.0


From 04e02439bf414d6b2d5bc593a6006cf52d1a1006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:43 +0000
Subject: [PATCH 04/51] fix: Max/Min bounds include the initial value for
 possibly empty arrays

Max(x, initial).min() and Min(x, initial).max() assumed x has at least one
element, but an empty array reduces to the initial value.
---
 dwave/optimization/src/nodes/mathematical.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index aeada97..8d28c39 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -1294,6 +1294,12 @@ bool ReduceNode<BinaryOp>::integral() const {
     unreachable();
 }
 
+// Whether the array can have no elements
+bool maybe_empty(const Array* array_ptr) {
+    if (!array_ptr->dynamic()) return array_ptr->size() == 0;
+    return array_ptr->sizeinfo().substitute(100).min.value_or(0) <= 0;
+}
+
 template <class BinaryOp>
 double ReduceNode<BinaryOp>::max() const {
     using result_type = typename std::invoke_result<BinaryOp, double&, double&>::type;
@@ -1309,6 +1315,8 @@ double ReduceNode<BinaryOp>::max() const {
         return array_ptr_->max();
     }
     if constexpr (std::is_same<BinaryOp, functional::min<double>>::value) {
+        // an empty array reduces to the initial value
+        if (init.has_value() && maybe_empty(array_ptr_)) return init.value();
         if (init.has_value()) return std::min(init.value(), array_ptr_->max());
         return array_ptr_->max();
     }
@@ -1392,6 +1400,8 @@ double ReduceNode<BinaryOp>::min() const {
     // These can results in inf. If we fix that in initialization/propagation we
     // should also fix it here.
     if constexpr (std::is_same<BinaryOp, functional::max<double>>::value) {
+        // an empty array reduces to the initial value
+        if (init.has_value() && maybe_empty(array_ptr_)) return init.value();
         if (init.has_value()) return std::max(init.value(), array_ptr_->min());
         return array_ptr_->min();
     }
-- 
2.43.0


From 4b5df4856d50b4f85f2f091c579d8c6b4bb6e7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:05 +0000
Subject: [PATCH 05/51] fix: SizeInfo::substitute bounds when scaling, clamping
 and chaining

The bounds of the substituted array were compared with the raw bounds
before being scaled, so they were wrong for a multiplier other than 1, the
minimum could exceed the maximum of a clamped slice, the offset was
applied repeatedly to already shifted bounds along a chain of slices, and
a fixed size dereferenced a null array.
---
 .../include/dwave-optimization/array.hpp      |  3 +
 dwave/optimization/src/array.cpp              | 71 +++++++++++--------
 2 files changed, 45 insertions(+), 29 deletions(-)

diff --git a/dwave/optimization/include/dwave-optimization/array.hpp b/dwave/optimization/include/dwave-optimization/array.hpp
index 73d3462..4f3d986 100644
--- a/dwave/optimization/include/dwave-optimization/array.hpp
+++ b/dwave/optimization/include/dwave-optimization/array.hpp
@@ -56,6 +56,8 @@ struct SizeInfo {
     // SizeInfos are printable
     friend std::ostream& operator<<(std::ostream& os, const SizeInfo& sizeinfo);
 
+    // Express the size in terms of array_ptr's predecessor(s). Unlike the min/max given
+    // by Array::sizeinfo(), the returned min/max account for the offset.
     SizeInfo substitute(ssize_t max_depth = 1) const;
 
     const Array* array_ptr;
@@ -63,6 +65,7 @@ struct SizeInfo {
     fraction multiplier;
     ssize_t offset;
 
+    // Bounds on multiplier * array_ptr->size(), before the offset is added.
     std::optional<ssize_t> min;
     std::optional<ssize_t> max;
 };
diff --git a/dwave/optimization/src/array.cpp b/dwave/optimization/src/array.cpp
index d4fb85a..f16f62c 100644
--- a/dwave/optimization/src/array.cpp
+++ b/dwave/optimization/src/array.cpp
@@ -42,9 +42,20 @@ bool SizeInfo::operator==(const SizeInfo& other) const {
             this->max == other.max);
 }
 
+// Scale a size by a multiplier, rounding up because a partial step of a strided
+// slice still contributes an element.
+ssize_t scale_size(const fraction& multiplier, const ssize_t size) {
+    const fraction scaled = multiplier * size;
+    return scaled.numerator() / scaled.denominator() +
+           (scaled.numerator() % scaled.denominator() > 0);
+}
+
 SizeInfo SizeInfo::substitute(ssize_t max_depth) const {
     if (max_depth <= 0) return *this;
 
+    // A fixed size has nothing to substitute
+    if (!this->array_ptr) return *this;
+
     SizeInfo sizeinfo = this->array_ptr->sizeinfo();
 
     // Check if substitution will do nothing, and return if so
@@ -55,49 +66,51 @@ SizeInfo SizeInfo::substitute(ssize_t max_depth) const {
         return *this;
     }
 
-    sizeinfo.multiplier *= this->multiplier;
-    assert((this->multiplier * sizeinfo.offset).denominator() == 1);
-    sizeinfo.offset = static_cast<ssize_t>(this->multiplier * sizeinfo.offset);
-    sizeinfo.offset += this->offset;
-
-    if (this->max) {
-        if (sizeinfo.max) {
-            sizeinfo.max = std::min<ssize_t>(*max, *sizeinfo.max);
-        } else {
-            sizeinfo.max = this->max;
-        }
-    }
-
-    if (this->min) {
-        if (sizeinfo.min) {
-            sizeinfo.min = std::max<ssize_t>(*(this->min), *sizeinfo.min);
+    // Get the bounds on our array's size. An array that doesn't derive its size from
+    // another array gives them directly.
+    if (sizeinfo.array_ptr != this->array_ptr) {
+        // in the future we can/should do an iterative rather than recurisive
+        // version
+        if (max_depth > 1) {
+            sizeinfo = sizeinfo.substitute(max_depth - 1);
         } else {
-            sizeinfo.min = this->min;
+            // not substituted, so the bounds don't include the offset yet
+            if (sizeinfo.min) sizeinfo.min = std::max<ssize_t>(0, *sizeinfo.min + sizeinfo.offset);
+            if (sizeinfo.max) sizeinfo.max = std::max<ssize_t>(0, *sizeinfo.max + sizeinfo.offset);
         }
     }
 
+    // Now scale those bounds, restrict them to our own, and apply the offset.
+    std::optional<ssize_t> min = this->min;
     if (sizeinfo.min) {
-        if (this->multiplier != 1) {
-            sizeinfo.min = static_cast<ssize_t>(this->multiplier * *sizeinfo.min);
-        }
-        sizeinfo.min = std::max<ssize_t>(0, *sizeinfo.min + this->offset);
+        min = std::max<ssize_t>(this->min.value_or(0), scale_size(this->multiplier, *sizeinfo.min));
     }
+    std::optional<ssize_t> max = this->max;
     if (sizeinfo.max) {
-        if (this->multiplier != 1) {
-            sizeinfo.max = static_cast<ssize_t>(this->multiplier * *sizeinfo.max);
-        }
-        sizeinfo.max = std::max<ssize_t>(0, *sizeinfo.max + this->offset);
+        max = std::min<ssize_t>(this->max.value_or(MAX),
+                                scale_size(this->multiplier, *sizeinfo.max));
+    }
+    if (min && max && *min > *max) min = max;  // we're limited by our own max
+    if (min) min = std::max<ssize_t>(0, *min + this->offset);
+    if (max) max = std::max<ssize_t>(0, *max + this->offset);
+
+    // If the offset cannot be expressed in terms of the new array, then keep our array
+    if (const fraction offset = this->multiplier * sizeinfo.offset; offset.denominator() == 1) {
+        sizeinfo.multiplier *= this->multiplier;
+        sizeinfo.offset = offset.numerator() + this->offset;
+    } else {
+        sizeinfo = *this;
     }
 
-    // Adjust the minimum based on the offset
+    sizeinfo.min = min;
+    sizeinfo.max = max;
+
+    // If there is only one possible size, then it's fixed
     if (sizeinfo.min && sizeinfo.max && sizeinfo.min == sizeinfo.max) {
         sizeinfo.offset = *sizeinfo.min;
         sizeinfo.multiplier = 0;
     }
 
-    // in the future we can/should do an iterative rather than recurisive
-    // version
-    if (max_depth > 1) return sizeinfo.substitute(max_depth - 1);
     return sizeinfo;
 }
 
-- 
2.43.0


From 370bd2a54433c29c651d3b5b24bfea7463c0c58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:05 +0000
Subject: [PATCH 06/51] fix: array_shape_equal compares shapes, not only sizes

Indexing arrays of different shapes but equal sizes, e.g. (2,3) and
(3,2), were accepted as if they had the same shape.
---
 dwave/optimization/src/array.cpp | 37 +++++++++-----------------------
 1 file changed, 10 insertions(+), 27 deletions(-)

diff --git a/dwave/optimization/src/array.cpp b/dwave/optimization/src/array.cpp
index f16f62c..7a1ee2b 100644
--- a/dwave/optimization/src/array.cpp
+++ b/dwave/optimization/src/array.cpp
@@ -176,34 +176,17 @@ std::string shape_to_string(const std::span<const ssize_t> shape) {
 }
 
 bool array_shape_equal(const Array* lhs_ptr, const Array* rhs_ptr) {
-    auto lhs_size = lhs_ptr->sizeinfo();
-    auto rhs_size = rhs_ptr->sizeinfo();
-
-    if (lhs_size == rhs_size) return true;
-    if (lhs_size.array_ptr == nullptr || rhs_size.array_ptr == nullptr) return false;
-
-    // This first loop is redundant, but often we get diamond structures
-    // of predecessors so by going back together we might get to short circuit the
-    // dfs
-    while (lhs_size.array_ptr != lhs_ptr && rhs_size.array_ptr != rhs_ptr) {
-        lhs_ptr = lhs_size.array_ptr;
-        lhs_size = lhs_size.substitute();
-        rhs_ptr = rhs_size.array_ptr;
-        rhs_size = rhs_size.substitute();
-        if (lhs_size == rhs_size) return true;
-    }
-    while (lhs_size.array_ptr != lhs_ptr) {
-        lhs_ptr = lhs_size.array_ptr;
-        lhs_size = lhs_size.substitute();
-        if (lhs_size == rhs_size) return true;
-    }
-    while (rhs_size.array_ptr != rhs_ptr) {
-        rhs_ptr = rhs_size.array_ptr;
-        rhs_size = rhs_size.substitute();
-        if (lhs_size == rhs_size) return true;
-    }
+    if (lhs_ptr == rhs_ptr) return true;
+
+    // The dimensions must match, a dynamic dimension is only equal to another dynamic one
+    if (!std::ranges::equal(lhs_ptr->shape(), rhs_ptr->shape())) return false;
+    if (!lhs_ptr->dynamic()) return true;
 
-    return false;
+    // Both are dynamic, so they are only known to be equal if they get their sizes from the
+    // same array in the same way.
+    // 100 is a magic number. It's how far back in the predecessor chain to check. This will
+    // exit early if it converges.
+    return lhs_ptr->sizeinfo().substitute(100) == rhs_ptr->sizeinfo().substitute(100);
 }
 bool array_shape_equal(const Array& lhs, const Array& rhs) {
     return array_shape_equal(&lhs, &rhs);
-- 
2.43.0


From 3c0589cdd5880d5898aca2106ae36b782368e60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:52 +0000
Subject: [PATCH 07/51] fix: BasicIndexingNode change reports of strided and
 dynamic views

For strided multi-dimensional views the parent's flat index was divided
by the strides in turn, which maps changes to wrong elements or drops
them. Dynamic views treated the parent's size as its number of rows, did
not support negative bounds together with a step, and offset the start by
the view's stride (including the step) rather than the parent's.
---
 .../dwave-optimization/nodes/indexing.hpp     |  3 +
 dwave/optimization/src/nodes/indexing.cpp     | 85 ++++++++-----------
 2 files changed, 40 insertions(+), 48 deletions(-)

diff --git a/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp b/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
index 79ef55d..e208fd7 100644
--- a/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
+++ b/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
@@ -232,6 +232,9 @@ class BasicIndexingNode : public ArrayNode {
     void update_dynamic_shape(State& state) const;
     ssize_t dynamic_start(ssize_t slice_start) const;
 
+    // Whether a copy of the (dynamic) output is used to determine the changes.
+    bool maintain_full_cache() const;
+
     // We could do dynamic_cast<Array*>(predecessors[0]), but since there's
     // only one we just go ahead and hold a direct pointer
     const Array* array_ptr_;
diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 36f4615..463d1e5 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -1061,7 +1061,8 @@ struct BasicIndexingNodeData : NodeStateData {
 
     Slice fitted_first_slice;
 
-    // This will be used to cache the full output in the case of a negative start index.
+    // This will be used to cache the full output when the node cannot translate the updates
+    // of the predecessor array, e.g. in the case of a negative start index.
     // Keeping a full cache not only keeps the implementation simpler, but because any
     // change of size to the predecessor array means (most definitely) that the entire
     // output of the BasicIndexingNode will change, it is likely close to optimal (unless
@@ -1185,7 +1186,7 @@ void BasicIndexingNode::initialize_state(State& state) const {
         auto node_data = data_ptr<BasicIndexingNodeData>(state);
         node_data->previous_size = size(state);
 
-        if (axis0_slice_.value().start < 0) {
+        if (maintain_full_cache()) {
             // Initialize the full output cache
             node_data->full_cache_.assign(begin(state), end(state));
         }
@@ -1193,7 +1194,15 @@ void BasicIndexingNode::initialize_state(State& state) const {
 }
 
 ssize_t BasicIndexingNode::dynamic_start(ssize_t slice_start) const {
-    return slice_start * strides_[0] / static_cast<ssize_t>(sizeof(double));
+    // in terms of the array's strides because ours also account for the step
+    return slice_start * array_ptr_->strides()[0] / static_cast<ssize_t>(sizeof(double));
+}
+
+bool BasicIndexingNode::maintain_full_cache() const {
+    assert(dynamic());
+    // Only contiguous slices of 1d arrays with a non-negative start have an implementation
+    // that can translate the array's updates one at a time.
+    return !contiguous_ || array_ptr_->ndim() != 1 || axis0_slice_.value().start < 0;
 }
 
 ssize_t get_smallest_size_during_diff(ssize_t initial_size, const std::span<const Update> diff) {
@@ -1217,15 +1226,11 @@ void BasicIndexingNode::propagate(State& state) const {
     auto& diff = node_data->diff;
     assert(diff.size() == 0 && "calling propagate on an node with pending updates");
 
-    if (contiguous_ && dynamic() && axis0_slice_.value().start < 0) {
-        assert(this->start_ == 0);
+    if (dynamic() && maintain_full_cache()) {
         // Do a full recompute of the output using the current data. This could be avoided
         // when the size of the parent array hasn't changed.
         auto& full_cache = node_data->full_cache_;
-        assert(full_cache.size() ==
-                       axis0_slice_.value()
-                               .fit(array_ptr_->size(state) - array_ptr_->size_diff(state))
-                               .size() &&
+        assert(static_cast<ssize_t>(full_cache.size()) == node_data->previous_size &&
                "cache is the wrong size");
 
         update_dynamic_shape(state);
@@ -1250,8 +1255,8 @@ void BasicIndexingNode::propagate(State& state) const {
 
         assert(size(state) == i);
 
-    } else if (contiguous_ && dynamic()) {
-        // Handle the case of dynamic array with non-negative start.
+    } else if (dynamic()) {
+        // Handle the case of contiguous 1d dynamic array with non-negative start.
         //
         // The parent array's diff may contain a series of placements and removals
         // (interspersed with with mutations of the value at a given index) that make
@@ -1438,56 +1443,44 @@ void BasicIndexingNode::propagate(State& state) const {
             diff.emplace_back(index - start, old, value);
         }
 
-    } else if (!dynamic() || (axis0_slice_.value().start >= 0 && axis0_slice_.value().stop >= 0)) {
-        // Handle all other cases of static sized arrays (contiguous and non-contiguous), and the
-        // case of dynamic but with positive start and end
+    } else {
+        // Handle all other (non-contiguous) cases of static sized arrays
         assert(!this->contiguous());
+        // we rely on the parent being contiguous!
         assert(array_ptr_->contiguous() && "doesn't support non-contiguous arrays");
-
-        if (dynamic()) update_dynamic_shape(state);
-
-        const ssize_t start = this->start_;
-        // distance between pointers in the parent array. Relies on parent
-        // being contiguous
-        assert(array_ptr_->contiguous());
-        const ssize_t stop = &*this->end(state) - &*this->begin(state);
-
-        // A few sanity checks...
-        assert(start >= 0);
-        assert(stop >= start);
         assert(this->ndim() > 0);  // if we're not contiguous we cannot be a scalar
-        // some strided stop after the end to make the math work out.
-        assert(stop <= array_ptr_->size(state) + this->strides()[0] / this->itemsize());
 
-        for (auto [index, old, value] : array_ptr_->diff(state)) {
-            if (index < start) continue;  // before the range we care about
-            if (index >= stop) continue;  // after the range we care about
+        const auto strides = this->strides();
+        const auto shape = this->shape();
 
-            index -= start;
+        for (const auto& [array_index, old, value] : array_ptr_->diff(state)) {
+            if (array_index < this->start_) continue;  // before the range we care about
 
+            // walk through the axes from the outermost to the innermost, converting the
+            // position in the parent into a (flat) index in the view
+            ssize_t remainder = array_index - this->start_;
+            ssize_t index = 0;
             bool skip = false;
-            for (ssize_t stride : this->strides()) {
-                assert(stride % this->itemsize() == 0);
-                // again, we rely on the parent being contiguous!
-                assert(array_ptr_->contiguous());
-                const ssize_t div = stride / this->itemsize();
-
-                if (index % div) {
-                    // we are "between" steps
+            for (ssize_t axis = 0; axis < this->ndim(); ++axis) {
+                assert(strides[axis] % this->itemsize() == 0);
+                const ssize_t div = strides[axis] / this->itemsize();
+
+                const ssize_t axis_index = remainder / div;
+                if (axis_index >= shape[axis]) {
+                    // we are past the end of the axis
                     skip = true;
                     break;
                 }
 
-                index /= div;
+                remainder -= axis_index * div;
+                index = index * shape[axis] + axis_index;
             }
-            if (skip) continue;
+            if (skip || remainder) continue;  // outside of the view, or "between" steps
 
             assert(index >= 0 && index < this->size(state));
 
             diff.emplace_back(index, old, value);
         }
-    } else {
-        assert(false && "not yet implemented");
     }
 
     // Only signal successors if we actually have something to propagate
@@ -1501,10 +1494,6 @@ void BasicIndexingNode::revert(State& state) const {
         // todo this is only safe if revert() has been called on the predecessor array
         // first, which isn't safe to assume
         update_dynamic_shape(state);
-        if (axis0_slice_.value().start < 0) {
-            assert(contiguous_ && "not yet implemented");
-            node_data->full_cache_.resize(node_data->previous_size);
-        }
     }
 }
 
-- 
2.43.0


From 00fc7f4caabf330ecc1494a912f87849bb8ef606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:44 +0000
Subject: [PATCH 08/51] fix: BasicIndexingNode::sizeinfo of sliced dynamic
 arrays

The offsets and limits were not scaled by the number of elements per row,
sizes of stepped slices were rounded down, empty slices were not limited,
and slices whose size isn't a multiple of the array's were described as if
it was.
---
 dwave/optimization/src/nodes/indexing.cpp | 111 +++++++++++-----------
 1 file changed, 55 insertions(+), 56 deletions(-)

diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 463d1e5..d773ae3 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -1506,66 +1506,65 @@ ssize_t BasicIndexingNode::size(const State& state) const {
 SizeInfo BasicIndexingNode::sizeinfo() const {
     if (size_ >= 0) return SizeInfo(size_);
 
-    auto sizeinfo = SizeInfo(array_ptr_);
-
-    // Get the multiplier on the size of the array
-    {
-        // Determine how many elements are in each row of the array. Where "row" here means the
-        // first axis.
-        // We use the fact that the parent is contiguous to simplify this calculation.
-        assert(array_ptr_->contiguous());
-        assert(this->ndim() > 0);
-        ssize_t array_num_per_row = array_ptr_->strides()[0] / array_ptr_->itemsize();
-
-        sizeinfo.multiplier /= array_num_per_row;
-
-        // Determine how many elements are in each row of the resulting array.
-        // Here we may be strided, so we use the shape to figure it out.
-        auto shape = this->shape();
-        ssize_t num_per_row =
-                std::reduce(shape.begin() + 1, shape.end(), 1, std::multiplies<ssize_t>());
-
-        sizeinfo.multiplier *= num_per_row;
-
-        // handle the step
-        assert(axis0_slice_);            // dynamic so this should be present
-        assert(axis0_slice_->step > 0);  // constructor prevents otherwise for now
-
-        sizeinfo.multiplier /= axis0_slice_->step;
+    assert(axis0_slice_);            // dynamic so this should be present
+    assert(axis0_slice_->step > 0);  // constructor prevents otherwise for now
+
+    // This is where having Slice's values be optional<ssize_t> would be useful.
+    // For now let's just hard code it.
+    constexpr ssize_t MAX = std::numeric_limits<ssize_t>::max();
+    const auto& [start, stop, step] = *axis0_slice_;
+
+    // Determine how many elements are in each row of the array. Where "row" here means the
+    // first axis.
+    // We use the fact that the parent is contiguous to simplify this calculation.
+    assert(array_ptr_->contiguous());
+    assert(this->ndim() > 0);
+    const ssize_t array_num_per_row = array_ptr_->strides()[0] / array_ptr_->itemsize();
+
+    // Determine how many elements are in each row of the resulting array.
+    // Here we may be strided, so we use the shape to figure it out.
+    auto shape = this->shape();
+    const ssize_t num_per_row =
+            std::reduce(shape.begin() + 1, shape.end(), 1, std::multiplies<ssize_t>());
+
+    // A positive start and a negative stop each impose an offset on the number of rows
+    const ssize_t row_offset = std::min<ssize_t>(-start, 0) + std::min<ssize_t>(stop, 0);
+
+    // If the stop moves towards the start as the array grows, or if the number of elements
+    // needs to be rounded up to a whole number of rows after being offset, then our size
+    // isn't simply a multiple of the array's. In that case we give the bounds only.
+    const bool fixed_stop = stop >= 0 && stop != MAX;
+    if ((start < 0 && fixed_stop) || (step > 1 && (num_per_row != 1 || row_offset % step))) {
+        const SizeInfo array_sizeinfo = array_ptr_->sizeinfo().substitute(100);
+
+        auto num_elements = [&](ssize_t array_size) {
+            return num_per_row * axis0_slice_->fit(array_size / array_num_per_row).size();
+        };
+
+        ssize_t min = 0;
+        std::optional<ssize_t> max;
+        if (start < 0 && fixed_stop) {
+            const ssize_t max_rows = std::min<ssize_t>(-start, stop);
+            max = num_per_row * ((max_rows + step - 1) / step);
+        } else {
+            if (array_sizeinfo.min) min = num_elements(*array_sizeinfo.min);
+            if (array_sizeinfo.max) max = num_elements(*array_sizeinfo.max);
+        }
+        return SizeInfo(this, min, max);
     }
 
-    // Get the offset and bounds
-    {
-        assert(axis0_slice_);  // dynamic so this should be present
-
-        if (axis0_slice_->step > 0) {
-            if (axis0_slice_->start > 0) {
-                // having a positive start imposes a size offset
-                assert((sizeinfo.multiplier * axis0_slice_->start).denominator() == 1);
-                sizeinfo.offset -= static_cast<ssize_t>(sizeinfo.multiplier * axis0_slice_->start);
-
-            } else if (axis0_slice_->start < 0) {
-                // a negative start imposes a max size
-                sizeinfo.max = static_cast<ssize_t>(sizeinfo.multiplier * -1 * axis0_slice_->start);
-            }
-
-            // This is where having Slice's values be optional<ssize_t> would be useful.
-            // For now let's just hard code it.
-            constexpr ssize_t MAX = std::numeric_limits<ssize_t>::max();
+    auto sizeinfo = SizeInfo(array_ptr_);
 
-            if (axis0_slice_->stop > 0 && axis0_slice_->stop != MAX) {
-                // having a positive stop imposes a max size
-                sizeinfo.max = static_cast<ssize_t>(sizeinfo.multiplier * axis0_slice_->stop);
-            } else if (axis0_slice_->stop < 0) {
-                // having a negative stop imposes a size offset
-                sizeinfo.offset += static_cast<ssize_t>(sizeinfo.multiplier * axis0_slice_->stop);
-            }
+    sizeinfo.multiplier = fraction(num_per_row, array_num_per_row * step);
+    sizeinfo.offset = num_per_row * (row_offset / step);
 
-        } else {
-            // this is currently disallowed by the constructor
-            assert(false && "not implemented yet");
-            unreachable();
-        }
+    // dev note: rows that are limited before the offset is applied
+    if (fixed_stop) {
+        // having a positive stop imposes a max size
+        sizeinfo.max = num_per_row * ((stop + step - 1) / step);
+    } else if (start < 0) {
+        // a negative start imposes a max size
+        sizeinfo.max = num_per_row * ((-start + step - 1) / step);
     }
 
     return sizeinfo;
-- 
2.43.0


From 8d8a6af0818e7634e1d0d7dc67f47b54058ad1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:28 +0000
Subject: [PATCH 09/51] fix: distance between strided array iterators must not
 modify its operands

---
 dwave/optimization/include/dwave-optimization/array.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dwave/optimization/include/dwave-optimization/array.hpp b/dwave/optimization/include/dwave-optimization/array.hpp
index 4f3d986..45c6ea0 100644
--- a/dwave/optimization/include/dwave-optimization/array.hpp
+++ b/dwave/optimization/include/dwave-optimization/array.hpp
@@ -455,8 +455,8 @@ class Array {
             difference_type offset = 0;
             ssize_t incs_per_step = 1;  // for each step in the axis how many increment operations
             {
-                ssize_t* target_loc = a.shape_->loc.get();
-                ssize_t* source_loc = b.shape_->loc.get();
+                ssize_t* target_loc = target.shape_->loc.get();
+                ssize_t* source_loc = source.shape_->loc.get();
 
                 for (ssize_t axis = shapeinfo.ndim - 1; axis > 0; --axis) {
                     const ssize_t stride = shapeinfo.strides[axis] / itemsize;
-- 
2.43.0


From 3bf8b0718073d06915c95b1632051b5a4f040c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:06 +0000
Subject: [PATCH 10/51] fix: PermutationNode propagation of arrays that are not
 2d, and its range check

---
 dwave/optimization/src/nodes/indexing.cpp | 36 ++++++++++++-----------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index d773ae3..de6de25 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -1615,7 +1615,7 @@ PermutationNode::PermutationNode(ArrayNode* array_ptr, ArrayNode* order_ptr)
     if (array_shape[0] != order_ptr_->size()) {
         throw std::invalid_argument("array shape and order size mismatch");
     }
-    if (order_ptr_->max() > array_ptr_->size()) {
+    if (order_ptr_->min() < 0 || order_ptr_->max() >= array_shape[0]) {
         throw std::invalid_argument("order may have values out of range");
     }
 
@@ -1703,31 +1703,33 @@ void PermutationNode::propagate(State& state) const {
         const std::span<const ssize_t> strides = array_ptr_->strides();
         const double* start = array_ptr_->buff(state);
 
-        ssize_t mul = std::pow(n, ndim - 1);
-        ssize_t step = 1;
+        // the number of (contiguous) positions that share the same location along dim
+        ssize_t block = this->size() / n;
 
         for (ssize_t dim = 0; dim < ndim; ++dim) {
-            for (auto& [index, old, neo] : order_diff) {
-                ssize_t stride = strides[dim] / array_ptr_->itemsize();
+            const ssize_t stride = strides[dim] / array_ptr_->itemsize();
 
-                for (ssize_t i = index * mul, end = i + step * n; i < end; i += step) {
-                    old_offsets.emplace_back(offsets[i]);
+            for (auto& [index, old, neo] : order_diff) {
+                // walk through every position with location `index` along dim
+                for (ssize_t begin = index * block; begin < this->size(); begin += block * n) {
+                    for (ssize_t i = begin; i < begin + block; ++i) {
+                        old_offsets.emplace_back(offsets[i]);
 
-                    offsets[i] += stride * (neo - old);
+                        offsets[i] += stride * (neo - old);
 
-                    // We do end up updating some of the indices more than once. We could
-                    // instead put placeholder values, then later do a deduplication step
-                    // and then value update. If we find that we're doing lots of redundant
-                    // work
-                    double old_value = values[i];
-                    values[i] = start[offsets[i]];
+                        // We do end up updating some of the indices more than once. We could
+                        // instead put placeholder values, then later do a deduplication step
+                        // and then value update. If we find that we're doing lots of redundant
+                        // work
+                        double old_value = values[i];
+                        values[i] = start[offsets[i]];
 
-                    updates.emplace_back(i, old_value, values[i]);
+                        updates.emplace_back(i, old_value, values[i]);
+                    }
                 }
             }
 
-            mul /= n;
-            step *= n;
+            block /= n;
         }
     }
 
-- 
2.43.0


From 06560811602f59a61042bf0bb5b7bb57e0f13696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:20 +0000
Subject: [PATCH 11/51] fix: AdvancedIndexingNode change tracking of removed
 rows, replaced rows and leading slices

---
 .../dwave-optimization/nodes/indexing.hpp     |  3 +-
 dwave/optimization/src/nodes/indexing.cpp     | 73 +++++++++++--------
 2 files changed, 43 insertions(+), 33 deletions(-)

diff --git a/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp b/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
index e208fd7..e4340d8 100644
--- a/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
+++ b/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
@@ -103,10 +103,9 @@ class AdvancedIndexingNode : public ArrayNode {
     void fill_subspace(State& state, ssize_t array_offset, std::vector<double>& data,
                        ssize_t index_in_arrays, std::vector<Update>& diff) const;
 
-    template <bool placement, bool removal>
     void fill_axis0_subspace(State& state, ssize_t axis0_index, ssize_t array_item_offset,
                              std::vector<double>& data, ssize_t index_in_arrays,
-                             std::vector<Update>& diff) const;
+                             std::vector<Update>* diff) const;
 
     template <bool fill_diff, bool placement, bool removal>
     void fill_subspace_recurse(const std::span<const ssize_t>& shape, const double* array_buffer,
diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index de6de25..a3490e5 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -507,17 +507,21 @@ void AdvancedIndexingNode::fill_subspace(State& state, ssize_t array_item_offset
             index_in_arrays * subspace_stride_, starting_output_axis, &diff);
 }
 
-template <bool placement, bool removal>
 void AdvancedIndexingNode::fill_axis0_subspace(State& state, ssize_t axis0_index,
                                                ssize_t array_item_offset, std::vector<double>& data,
                                                ssize_t index_in_arrays,
-                                               std::vector<Update>& diff) const {
+                                               std::vector<Update>* diff) const {
     assert(!bullet1mode_ && "fill_axis0_subspace should only be called with bullet 2 mode");
     ssize_t array_offset = axis0_index * array_ptr_->strides()[0] + array_item_offset * itemsize();
     size_t data_offset = axis0_index * strides()[0] + index_in_arrays * subspace_stride_;
-    fill_subspace_recurse<true, placement, removal>(array_ptr_->shape(state),
-                                                    array_ptr_->buff(state), array_offset, 1, data,
-                                                    data_offset, 1, &diff);
+    if (diff) {
+        fill_subspace_recurse<true, false, false>(array_ptr_->shape(state), array_ptr_->buff(state),
+                                                  array_offset, 1, data, data_offset, 1, diff);
+    } else {
+        fill_subspace_recurse<false, false, false>(array_ptr_->shape(state),
+                                                   array_ptr_->buff(state), array_offset, 1, data,
+                                                   data_offset, 1, nullptr);
+    }
 }
 
 template <bool fill_diff, bool placement, bool removal>
@@ -533,8 +537,8 @@ void AdvancedIndexingNode::fill_subspace_recurse(const std::span<const ssize_t>&
         // Base case. Copy the value from `array_buffer` to `data`, updating the diff
         // as necessary. Or pop/push to the data array if placing/removing.
         ssize_t data_index = data_offset / static_cast<ssize_t>(itemsize());
-        double new_val = array_buffer[array_offset / static_cast<ssize_t>(itemsize())];
         if constexpr (placement) {
+            double new_val = array_buffer[array_offset / static_cast<ssize_t>(itemsize())];
             if constexpr (fill_diff) diff->emplace_back(Update::placement(data_index, new_val));
             assert(data_index == static_cast<ssize_t>(data.size()));
             data.push_back(new_val);
@@ -544,6 +548,7 @@ void AdvancedIndexingNode::fill_subspace_recurse(const std::span<const ssize_t>&
                 diff->emplace_back(Update::removal(data_index, data[data_index]));
             data.pop_back();
         } else {
+            double new_val = array_buffer[array_offset / static_cast<ssize_t>(itemsize())];
             assert(data_index < static_cast<ssize_t>(data.size()));
             if constexpr (fill_diff) diff->emplace_back(data_index, data[data_index], new_val);
             data[data_index] = new_val;
@@ -660,11 +665,12 @@ std::pair<ssize_t, ssize_t> get_mapped_index(
         const std::vector<AdvancedIndexingNode::array_or_slice>& indices,
         const std::span<const ssize_t>& strides, const std::span<const ssize_t>& item_strides,
         const std::span<const ssize_t>& shape, const std::span<const ssize_t>& mapped_item_strides,
-        ssize_t itemsize, ssize_t index) {
+        ssize_t itemsize, ssize_t index, bool indexer_axes_first, ssize_t indexers_ndim) {
     ssize_t offset = 0;
     ssize_t subspace_index = 0;
-    ssize_t mapped_axis = 0;
-    bool hit_first_array = false;
+    // The axes from the indexer arrays either come first, or replace the first indexed axis
+    ssize_t mapped_axis = indexer_axes_first ? indexers_ndim : 0;
+    bool hit_first_array = indexer_axes_first;
     assert(indices.size() == strides.size());
     assert(indices.size() == item_strides.size());
     assert(indices.size() == shape.size());
@@ -677,7 +683,7 @@ std::pair<ssize_t, ssize_t> get_mapped_index(
             // Only increase the mapped axis on the first array indexer. We just skip
             // over all the axes due to the indexer arrays by increasing mapped_axis
             // by their dimension.
-            mapped_axis += hit_first_array ? 0 : std::get<ArrayNode*>(indices[i])->ndim();
+            mapped_axis += hit_first_array ? 0 : indexers_ndim;
             hit_first_array = true;
         } else {
             assert(mapped_axis < static_cast<ssize_t>(mapped_item_strides.size()));
@@ -800,7 +806,7 @@ void AdvancedIndexingNode::propagate(State& state) const {
         // Handle the removals
         for (const auto& offset_update : offsets_diff | std::views::reverse) {
             if (!offset_update.removed()) break;
-            fill_subspace<false, true>(state, offset_update.value, data, offset_update.index, diff);
+            fill_subspace<false, true>(state, offset_update.old, data, offset_update.index, diff);
         }
 
         // Handle any updates to the parent array that weren't already pulled in by
@@ -810,10 +816,13 @@ void AdvancedIndexingNode::propagate(State& state) const {
             // Skip any update larger than the current size as it should have been
             // handled by the removals above
             if (update.index >= parent_size) continue;
+            // A removed element within the current size is placed again by a later update
+            if (update.removed()) continue;
             // First part is the offset, second part is the subspace index
             std::pair<ssize_t, ssize_t> mapped_index =
                     get_mapped_index(indices_, array_strides, array_item_strides(),
-                                     array_ptr_->shape(state), strides(), itemsize(), update.index);
+                                     array_ptr_->shape(state), strides(), itemsize(), update.index,
+                                     bullet1mode_, indexing_arrays_ndim_);
             // This will return a nullptr if there currently are no mapped offsets
             const auto* idxs = node_data->get_offset_idxs(mapped_index.first);
             if (idxs != nullptr) {
@@ -821,8 +830,7 @@ void AdvancedIndexingNode::propagate(State& state) const {
                     if (offset_idxs_updated.contains(idx)) continue;
                     const ssize_t item_stride = subspace_stride_ / itemsize();
                     const ssize_t new_index = idx * item_stride + mapped_index.second;
-                    assert(data[new_index] == update.old);
-                    diff.emplace_back(new_index, update.old, update.value);
+                    diff.emplace_back(new_index, data[new_index], update.value);
                     data[new_index] = update.value;
                 }
             }
@@ -837,26 +845,28 @@ void AdvancedIndexingNode::propagate(State& state) const {
         ssize_t unchanged_axis0_size = std::min(new_axis0_size, old_axis0_size);
         // First handle any changes to the size of the parent array
         if (new_axis0_size > old_axis0_size) {
-            // Growing, so need placements
+            // Growing, so need placements. The subspaces are not necessarily contiguous, so
+            // first fill in the new values and then report them in order.
+            const ssize_t old_size = data.size();
+            data.resize(new_axis0_size * (strides()[0] / itemsize()));
             for (ssize_t axis0_idx = old_axis0_size; axis0_idx < new_axis0_size; ++axis0_idx) {
                 for (ssize_t offset_idx = 0; offset_idx < node_data->offsets_size(); ++offset_idx) {
-                    fill_axis0_subspace<true, false>(state, axis0_idx,
-                                                     node_data->offsets()[offset_idx], data,
-                                                     offset_idx, diff);
+                    fill_axis0_subspace(state, axis0_idx, node_data->offsets()[offset_idx], data,
+                                        offset_idx, nullptr);
                 }
             }
+            for (ssize_t i = old_size; i < static_cast<ssize_t>(data.size()); ++i) {
+                diff.emplace_back(Update::placement(i, data[i]));
+            }
         }
 
         if (new_axis0_size < old_axis0_size) {
             // Shrinking, so need removals
-            for (ssize_t axis0_idx = old_axis0_size - 1; axis0_idx >= new_axis0_size; --axis0_idx) {
-                for (ssize_t offset_idx = node_data->offsets_size() - 1; offset_idx >= 0;
-                     --offset_idx) {
-                    fill_axis0_subspace<false, true>(state, axis0_idx,
-                                                     node_data->offsets()[offset_idx], data,
-                                                     offset_idx, diff);
-                }
+            const ssize_t new_size = new_axis0_size * (strides()[0] / itemsize());
+            for (ssize_t i = static_cast<ssize_t>(data.size()) - 1; i >= new_size; --i) {
+                diff.emplace_back(Update::removal(i, data[i]));
             }
+            data.resize(new_size);
         }
 
         // Now handle the changes to offsets for axis0 indices that are have not just been placed
@@ -865,8 +875,8 @@ void AdvancedIndexingNode::propagate(State& state) const {
             for (ssize_t axis0_idx = 0; axis0_idx < unchanged_axis0_size; ++axis0_idx) {
                 assert(!offset_update.placed());
                 assert(!offset_update.removed());
-                fill_axis0_subspace<false, false>(state, axis0_idx, offset_update.value, data,
-                                                  offset_update.index, diff);
+                fill_axis0_subspace(state, axis0_idx, offset_update.value, data,
+                                    offset_update.index, &diff);
             }
             offset_idxs_updated.insert(offset_update.index);
         }
@@ -875,20 +885,21 @@ void AdvancedIndexingNode::propagate(State& state) const {
         for (const auto& update : array_ptr_->diff(state)) {
             // Skip any update larger than the unchanged size
             if (update.index >= unchanged_parent_size) continue;
+            // A removed element within the unchanged size is placed again by a later update
+            if (update.removed()) continue;
 
             // First part is the offset, second part is the subspace index
             std::pair<ssize_t, ssize_t> mapped_index =
                     get_mapped_index(indices_, array_strides, array_item_strides(),
-                                     array_ptr_->shape(state), strides(), itemsize(), update.index);
+                                     array_ptr_->shape(state), strides(), itemsize(), update.index,
+                                     bullet1mode_, indexing_arrays_ndim_);
             const auto* idxs = node_data->get_offset_idxs(mapped_index.first);
             if (idxs != nullptr) {
                 for (const auto& idx : *idxs) {
                     if (offset_idxs_updated.contains(idx)) continue;
                     ssize_t item_stride = subspace_stride_ / itemsize();
                     ssize_t new_index = idx * item_stride + mapped_index.second;
-                    assert(data[new_index] == update.old ||
-                           (std::isnan(data[new_index]) && update.placed()));
-                    diff.emplace_back(new_index, update.old_or(0), update.value_or(0));
+                    diff.emplace_back(new_index, data[new_index], update.value);
                     data[new_index] = update.value;
                 }
             }
-- 
2.43.0


From 7d31c0c0ee9043c94329de4459f9fa14c9ff2917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:49 +0000
Subject: [PATCH 12/51] fix: AdvancedIndexingNode sizeinfo counts whole rows;
 refuse unsupported dynamic x[:, i]

---
 dwave/optimization/src/nodes/indexing.cpp | 28 ++++++++++++++++-------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index a3490e5..2ae2a43 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -331,11 +331,6 @@ struct AdvancedIndexingNode::IndexParser_ {
                     "there must be at least one array-type index to use AdvancedIndexingNode");
         }
 
-        if (bullet1mode && array_ptr->dynamic() && std::holds_alternative<Slice>(indices_[0])) {
-            throw std::invalid_argument(
-                    "Indexed Array cannot be dynamic with an empty slice in the first dimension");
-        }
-
         assert(first_array != nullptr);
 
         if (!bullet1mode && std::holds_alternative<ArrayNode*>(indices_[0])) {
@@ -350,6 +345,11 @@ struct AdvancedIndexingNode::IndexParser_ {
             bullet1mode = true;
         }
 
+        if (bullet1mode && array_ptr->dynamic() && std::holds_alternative<Slice>(indices_[0])) {
+            throw std::invalid_argument(
+                    "Indexed Array cannot be dynamic with an empty slice in the first dimension");
+        }
+
         if (indexing_arrays_ndim > 1) {
             throw std::invalid_argument(
                     "Advanced indexing currently only supports 0- and 1-dimensional indexing "
@@ -649,9 +649,21 @@ SizeInfo AdvancedIndexingNode::sizeinfo() const {
     if (!dynamic()) return SizeInfo(size());
     // when we get around to supporting broadcasting this will need to change
     assert(predecessors().size() >= 2);
-    assert(!dynamic_cast<ArrayNode*>(predecessors()[0])->dynamic() &&
-           "sizeinfo for dynamic base arrays not supported");
-    return SizeInfo(dynamic_cast<ArrayNode*>(predecessors()[1]));
+
+    // The number of our elements in each "row"
+    const ssize_t num_per_row = strides()[0] / itemsize();
+
+    if (bullet1mode_) {
+        // The indexing arrays determine the number of rows
+        SizeInfo sizeinfo(std::get<ArrayNode*>(indices_[first_array_index_]));
+        sizeinfo.multiplier = num_per_row;
+        return sizeinfo;
+    }
+
+    // The base array determines the number of rows
+    SizeInfo sizeinfo(array_ptr_);
+    sizeinfo.multiplier = fraction(num_per_row, array_item_strides()[0]);
+    return sizeinfo;
 }
 
 std::span<const ssize_t> AdvancedIndexingNode::shape(const State& state) const {
-- 
2.43.0


From 0fbf8c7bb26d5bae0e157a8a840efc556258b4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:03 +0000
Subject: [PATCH 13/51] fix: AdvancedIndexingNode keeps its dynamic shape in
 the state

---
 .../dwave-optimization/nodes/indexing.hpp       |  1 -
 dwave/optimization/src/nodes/indexing.cpp       | 17 ++++++++---------
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp b/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
index e4340d8..f3f3d16 100644
--- a/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
+++ b/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
@@ -123,7 +123,6 @@ class AdvancedIndexingNode : public ArrayNode {
     const ssize_t ndim_;
     std::unique_ptr<ssize_t[]> strides_;
     std::unique_ptr<ssize_t[]> shape_;
-    std::unique_ptr<ssize_t[]> dynamic_shape_;
 
     std::unique_ptr<ssize_t[]> array_item_strides_;
 
diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 2ae2a43..836c464 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -180,6 +180,9 @@ struct AdvancedIndexingNodeData : NodeStateData {
     ssize_t old_offsets_size;
     ssize_t old_data_size;
 
+    // The current shape of a dynamic array. Recalculated when it's requested.
+    mutable std::vector<ssize_t> dynamic_shape;
+
  private:
     void delete_from_reverse(ssize_t index, ssize_t offset) {
         if (!maintain_reverse_offset_map) return;
@@ -471,13 +474,6 @@ AdvancedIndexingNode::AdvancedIndexingNode(ArrayNode* array_ptr, IndexParser_&&
             add_predecessor(std::get<ArrayNode*>(index));
         }
     }
-
-    if (dynamic()) {
-        // Copy over the shape to dynamic_shape_. Then the first index of dynamic_shape_
-        // will be rewritten as the output changes size.
-        dynamic_shape_ = std::make_unique<ssize_t[]>(ndim());
-        std::copy(shape_.get(), shape_.get() + ndim(), dynamic_shape_.get());
-    }
 }
 
 double const* AdvancedIndexingNode::buff(const State& state) const {
@@ -669,8 +665,11 @@ SizeInfo AdvancedIndexingNode::sizeinfo() const {
 std::span<const ssize_t> AdvancedIndexingNode::shape(const State& state) const {
     if (!dynamic()) return shape();
     assert(this->ndim() >= 1);
-    dynamic_shape_[0] = this->size(state) / (strides()[0] / itemsize());
-    return std::span<const ssize_t>(dynamic_shape_.get(), this->ndim());
+    // The shape depends on the state, so that's where it needs to be stored.
+    auto& dynamic_shape = data_ptr<AdvancedIndexingNodeData>(state)->dynamic_shape;
+    dynamic_shape.assign(shape().begin(), shape().end());
+    dynamic_shape[0] = this->size(state) / (strides()[0] / itemsize());
+    return dynamic_shape;
 }
 
 std::pair<ssize_t, ssize_t> get_mapped_index(
-- 
2.43.0


From 80203fd0b28939ad65e9f351e0861d67c3006a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:06 +0000
Subject: [PATCH 14/51] fix: ProdNode keeps products of integers exact

---
 dwave/optimization/src/nodes/mathematical.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index 8d28c39..aec99f1 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -1647,7 +1647,9 @@ void ReduceNode<std::multiplies<double>>::propagate(State& state) const {
             num_zero += 1;
         } else {
             // something else to something else
-            nonzero *= (update.value / update.old);
+            // divide first because that's exact for products of integers
+            nonzero /= update.old;
+            nonzero *= update.value;
         }
     }
 
-- 
2.43.0


From 82a189f294e46025b2e6c60f9a7453d5df84e82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:48 +0000
Subject: [PATCH 15/51] fix: default moves of integers with negative bounds and
 of empty decisions

---
 dwave/optimization/src/nodes/collections.cpp | 4 ++++
 dwave/optimization/src/nodes/numbers.cpp     | 4 +++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/dwave/optimization/src/nodes/collections.cpp b/dwave/optimization/src/nodes/collections.cpp
index 6dc0ce3..849cf17 100644
--- a/dwave/optimization/src/nodes/collections.cpp
+++ b/dwave/optimization/src/nodes/collections.cpp
@@ -341,6 +341,7 @@ void DisjointBitSetsNode::revert(State& state) const {
 }
 
 void DisjointBitSetsNode::default_move(State& state, RngAdaptor& rng) const {
+    if (!primary_set_size_) return;  // nothing to change
     std::uniform_int_distribution<std::size_t> dist_sets(0, num_disjoint_sets_ - 1);
     std::uniform_int_distribution<std::size_t> dist_el(0, primary_set_size_ - 1);
 
@@ -663,6 +664,8 @@ void DisjointListsNode::pop_to_list(State& state, ssize_t from_list_index, ssize
 }
 
 void DisjointListsNode::default_move(State& state, RngAdaptor& rng) const {
+    if (!primary_set_size_) return;  // nothing to change
+
     auto data = data_ptr<DisjointListStateData>(state);
 
     // choose a list to pop from (list_i) randomly weighted by how many items are in it,
@@ -746,6 +749,7 @@ ssize_t DisjointListNode::size_diff(const State& state) const {
 }
 
 void ListNode::default_move(State& state, RngAdaptor& rng) const {
+    if (!this->size(state)) return;  // nothing to change
     std::uniform_int_distribution<std::size_t> dist(0, this->size(state) - 1);
     // This might mean we're selecting the same variable twice.
     // But for large-ish lists that should be quite rare and anyway it's
diff --git a/dwave/optimization/src/nodes/numbers.cpp b/dwave/optimization/src/nodes/numbers.cpp
index 674dca8..9ae759a 100644
--- a/dwave/optimization/src/nodes/numbers.cpp
+++ b/dwave/optimization/src/nodes/numbers.cpp
@@ -139,8 +139,9 @@ bool IntegerNode::set_value(State& state, ssize_t i, int value) const {
 }
 
 void IntegerNode::default_move(State& state, RngAdaptor& rng) const {
+    if (!this->size(state)) return;  // nothing to change
     std::uniform_int_distribution<std::size_t> index_dist(0, this->size(state) - 1);
-    std::uniform_int_distribution<std::size_t> value_dist(lower_bound_, upper_bound_);
+    std::uniform_int_distribution<ssize_t> value_dist(lower_bound_, upper_bound_);
     this->set_value(state, index_dist(rng), value_dist(rng));
 }
 
@@ -168,6 +169,7 @@ bool BinaryNode::unset(State& state, ssize_t i) const {
 }
 
 void BinaryNode::default_move(State& state, RngAdaptor& rng) const {
+    if (!this->size(state)) return;  // nothing to change
     std::uniform_int_distribution<std::size_t> index_dist(0, this->size(state) - 1);
     this->flip(state, index_dist(rng));
 }
-- 
2.43.0


From 4a80e03159455234a42612a19cc8862ed4609dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:58 +0000
Subject: [PATCH 16/51] fix: the default state of a ListNode holds all of its
 values

---
 dwave/optimization/src/nodes/collections.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dwave/optimization/src/nodes/collections.cpp b/dwave/optimization/src/nodes/collections.cpp
index 849cf17..a2b1b3a 100644
--- a/dwave/optimization/src/nodes/collections.cpp
+++ b/dwave/optimization/src/nodes/collections.cpp
@@ -763,7 +763,8 @@ void ListNode::initialize_state(State& state) const {
     assert(static_cast<int>(state.size()) > index && "unexpected state length");
     assert(state[index] == nullptr && "already initialized state");
 
-    state[index] = std::make_unique<CollectionStateData>(max_size_);
+    // default to range(max_size_), followed by the values not (yet) in the list
+    state[index] = std::make_unique<CollectionStateData>(max_value_, max_size_);
 }
 
 void SetNode::default_move(State& state, RngAdaptor& rng) const {
-- 
2.43.0


From 5b50b605dc4353cc123a5f6e4068b4976c69a213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:22 +0000
Subject: [PATCH 17/51] fix: abs and sqrt of arrays whose range is empty

An array that is always empty, e.g. list(0), can have min() > max() which made
the bounds of abs() undefined behavior and the bounds of sqrt() NaN.
---
 dwave/optimization/src/nodes/mathematical.cpp | 38 ++++++-------------
 1 file changed, 11 insertions(+), 27 deletions(-)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index aec99f1..36d66f2 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -1785,20 +1785,9 @@ bool UnaryOpNode<UnaryOp>::integral() const {
 
 template <>
 double UnaryOpNode<functional::abs<double>>::max() const {
-    const double max = array_ptr_->max();
-    const double min = array_ptr_->min();
-    assert(min <= max && "min > max");
-
-    if (min >= 0 && max >= 0) {
-        return max;
-    } else if (min >= 0) {
-        assert(false && "min > max");
-        unreachable();
-    } else if (max >= 0) {
-        return std::max<double>(max, -min);
-    } else {
-        return -min;
-    }
+    // the value furthest from 0. Note that an array that is always empty, e.g. list(0), can have
+    // min() > max()
+    return std::max(std::abs(array_ptr_->min()), std::abs(array_ptr_->max()));
 }
 template <>
 double UnaryOpNode<std::negate<double>>::max() const {
@@ -1818,8 +1807,8 @@ double UnaryOpNode<functional::square<double>>::max() const {
 
 template <>
 double UnaryOpNode<functional::square_root<double>>::max() const {
-    assert(array_ptr_->max() >= 0);
-    return std::sqrt(array_ptr_->max());
+    // an array that is always empty, e.g. list(0), can have a negative max()
+    return std::sqrt(std::max(array_ptr_->max(), 0.0));
 }
 
 template <class UnaryOp>
@@ -1837,18 +1826,13 @@ template <>
 double UnaryOpNode<functional::abs<double>>::min() const {
     const double max = array_ptr_->max();
     const double min = array_ptr_->min();
-    assert(min <= max && "min > max");
 
-    if (min >= 0 && max >= 0) {
-        return min;
-    } else if (min >= 0) {
-        assert(false && "min > max");
-        unreachable();
-    } else if (max >= 0) {
-        return 0;
-    } else {
-        return -max;
-    }
+    // if our predecessor can be 0 then so can we
+    if (min <= 0 && max >= 0) return 0;
+
+    // the value closest to 0. Note that an array that is always empty, e.g. list(0), can have
+    // min() > max()
+    return std::min(std::abs(min), std::abs(max));
 }
 template <>
 double UnaryOpNode<std::negate<double>>::min() const {
-- 
2.43.0


From 4e9b2be13abb95f638cea13acf3f48e2797fc0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:22 +0000
Subject: [PATCH 18/51] fix: dangling successors after a refused Nary or
 Concatenate node

A constructor that throws after having added some of its predecessors leaves
those predecessors with a pointer to a node that no longer exists.
---
 .../dwave-optimization/nodes/mathematical.hpp |  3 +++
 dwave/optimization/src/nodes/manipulation.cpp | 10 +++++---
 dwave/optimization/src/nodes/mathematical.cpp | 23 ++++++++++++++-----
 3 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/dwave/optimization/include/dwave-optimization/nodes/mathematical.hpp b/dwave/optimization/include/dwave-optimization/nodes/mathematical.hpp
index 6e453ef..5fe83f1 100644
--- a/dwave/optimization/include/dwave-optimization/nodes/mathematical.hpp
+++ b/dwave/optimization/include/dwave-optimization/nodes/mathematical.hpp
@@ -189,6 +189,9 @@ class NaryOpNode : public ArrayOutputMixin<ArrayNode> {
  private:
     using op = BinaryOp;
 
+    // Throw an error if the given array cannot be one of our operands.
+    void check_operand(const ArrayNode* node_ptr) const;
+
     std::vector<Array*> operands_;
 };
 
diff --git a/dwave/optimization/src/nodes/manipulation.cpp b/dwave/optimization/src/nodes/manipulation.cpp
index 7c3413a..dfb03a0 100644
--- a/dwave/optimization/src/nodes/manipulation.cpp
+++ b/dwave/optimization/src/nodes/manipulation.cpp
@@ -40,13 +40,17 @@ ConcatenateNode::ConcatenateNode(std::span<ArrayNode*> array_ptrs, const ssize_t
         array_starts_.emplace_back(prod + array_starts_[arr_i - 1]);
     }
 
-    for (auto it = array_ptrs.begin(), stop = array_ptrs.end(); it != stop; ++it) {
-        if ((*it)->dynamic()) {
+    // Check all of the arrays before adding any of them, otherwise the ones we've already added
+    // would be left with a dangling successor.
+    for (const ArrayNode* array_ptr : array_ptrs) {
+        if (array_ptr->dynamic()) {
             throw std::invalid_argument(
                 "concatenate input arrays cannot be dynamic");
         }
+    }
 
-        this->add_predecessor((*it));
+    for (ArrayNode* array_ptr : array_ptrs) {
+        this->add_predecessor(array_ptr);
     }
 }
 
diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index 36d66f2..3580814 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -491,18 +491,19 @@ ArrayNode* nonempty(std::span<ArrayNode*> node_ptrs) {
 template <class BinaryOp>
 NaryOpNode<BinaryOp>::NaryOpNode(std::span<ArrayNode*> node_ptrs)
         : ArrayOutputMixin(nonempty(node_ptrs)->shape()) {
+    // Check all of the arrays before adding any of them, otherwise the ones we've already added
+    // would be left with a dangling successor.
+    for (ArrayNode* ptr : node_ptrs) {
+        check_operand(ptr);
+    }
+
     for (ArrayNode* ptr : node_ptrs) {
         add_node(ptr);
     }
 }
 
 template <class BinaryOp>
-void NaryOpNode<BinaryOp>::add_node(ArrayNode* node_ptr) {
-    if (this->topological_index() >= 0 && node_ptr->topological_index() >= 0 &&
-        this->topological_index() < node_ptr->topological_index()) {
-        throw std::logic_error("this operation would invalidate the topological ordering");
-    }
-
+void NaryOpNode<BinaryOp>::check_operand(const ArrayNode* node_ptr) const {
     if (node_ptr->dynamic()) {
         throw std::invalid_argument("arrays must not be dynamic");
     }
@@ -510,6 +511,16 @@ void NaryOpNode<BinaryOp>::add_node(ArrayNode* node_ptr) {
     if (!std::ranges::equal(this->shape(), node_ptr->shape())) {
         throw std::invalid_argument("arrays must all be the same shape");
     }
+}
+
+template <class BinaryOp>
+void NaryOpNode<BinaryOp>::add_node(ArrayNode* node_ptr) {
+    if (this->topological_index() >= 0 && node_ptr->topological_index() >= 0 &&
+        this->topological_index() < node_ptr->topological_index()) {
+        throw std::logic_error("this operation would invalidate the topological ordering");
+    }
+
+    check_operand(node_ptr);
 
     this->add_predecessor(node_ptr);
     operands_.emplace_back(node_ptr);
-- 
2.43.0


From 7b593fca2d72b2daaeb43a790d966a09390b9db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:22 +0000
Subject: [PATCH 19/51] fix: in-place add and multiply of a Nary symbol that is
 already used

Adding an operand to a symbol that rhs depends on created a cycle; adding one to
a symbol that others were constructed from invalidated the bounds those checked;
and operands from other models or on locked models were accepted.
---
 dwave/optimization/symbols.pyx | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index ce69812..7df1108 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -2160,7 +2160,14 @@ cdef class NaryAdd(ArraySymbol):
         return x
 
     def __iadd__(self, rhs):
-        if isinstance(rhs, ArraySymbol):
+        # We can only act in-place if nothing else has been constructed from this symbol (which
+        # includes rhs), and if rhs can be added to this symbol's graph. Otherwise we make a new
+        # symbol.
+        if (isinstance(rhs, ArraySymbol)
+                and (<ArraySymbol>rhs).model is self.model
+                and (<ArraySymbol>rhs).node_ptr != self.node_ptr
+                and self.node_ptr.successors().empty()
+                and not self.model.is_locked()):
             self.ptr.add_node((<ArraySymbol>rhs).array_ptr)
             return self
 
@@ -2316,7 +2323,14 @@ cdef class NaryMultiply(ArraySymbol):
         return x
 
     def __imul__(self, rhs):
-        if isinstance(rhs, ArraySymbol):
+        # We can only act in-place if nothing else has been constructed from this symbol (which
+        # includes rhs), and if rhs can be added to this symbol's graph. Otherwise we make a new
+        # symbol.
+        if (isinstance(rhs, ArraySymbol)
+                and (<ArraySymbol>rhs).model is self.model
+                and (<ArraySymbol>rhs).node_ptr != self.node_ptr
+                and self.node_ptr.successors().empty()
+                and not self.model.is_locked()):
             self.ptr.add_node((<ArraySymbol>rhs).array_ptr)
             return self
 
-- 
2.43.0


From 46848d06e56408b431e5e417c14b3a7260fcc747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:48 +0000
Subject: [PATCH 20/51] fix: saving a basic indexing symbol with an empty
 result

The indices were inferred from the strides, which is ambiguous (or a division by
zero) when one of the dimensions has size zero. Remember the indices instead.
---
 .../dwave-optimization/nodes/indexing.hpp     |  6 +-
 dwave/optimization/src/nodes/indexing.cpp     | 76 +++++--------------
 2 files changed, 22 insertions(+), 60 deletions(-)

diff --git a/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp b/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
index f3f3d16..a1fbecd 100644
--- a/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
+++ b/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
@@ -201,8 +201,8 @@ class BasicIndexingNode : public ArrayNode {
 
     // Node-specific methods
 
-    // Infer the indices used to create the node.
-    std::vector<slice_or_int> infer_indices() const;
+    // The indices used to create the node, fitted to the (fixed) dimensions of the array.
+    const std::vector<slice_or_int>& infer_indices() const { return indices_; }
 
  private:
     // Private constructor using an intermediate object
@@ -252,6 +252,8 @@ class BasicIndexingNode : public ArrayNode {
     // is dynamic
     const std::optional<Slice> axis0_slice_;
 
+    const std::vector<slice_or_int> indices_;
+
     const bool contiguous_;
 };
 
diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 836c464..dbb4f50 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -988,6 +988,7 @@ struct BasicIndexingNode::IndexParser_ {
                     this->strides[view_dim] = slice.step * array_strides[array_dim];
 
                     this->axis0_slice = slice;
+                    this->indices.emplace_back(slice);
 
                     // Skip start for dynamic axis 0 as it will be adjusted later with
                     // the predecessor's state
@@ -1010,6 +1011,17 @@ struct BasicIndexingNode::IndexParser_ {
                     // of bytes, so we have to be careful
                     // We
                     this->start += fitted.start * array_strides[array_dim] / array_ptr->itemsize();
+
+                    // take care not to overflow when the step is large
+                    const ssize_t dim_size = array_shape[array_dim];
+                    ssize_t stop = fitted.start;
+                    if (fitted.size()) {
+                        stop = (fitted.step < dim_size)
+                                       ? fitted.start + fitted.size() * fitted.step
+                                       : dim_size;
+                    }
+                    this->indices.emplace_back(
+                            Slice(fitted.start, stop, fitted.step).fit(dim_size));
                 }
 
                 ++view_dim;
@@ -1034,6 +1046,8 @@ struct BasicIndexingNode::IndexParser_ {
                 // Integer indices only affect the start, they drop the dimension
                 // so there is no strides/shape to worry about for this axis
                 this->start += idx * array_strides[array_dim] / array_ptr->itemsize();
+
+                this->indices.emplace_back(idx);
             }
 
             ++array_dim;  // we are always stepping through the array
@@ -1047,6 +1061,9 @@ struct BasicIndexingNode::IndexParser_ {
     ssize_t start = 0;
 
     std::optional<Slice> axis0_slice;
+
+    // The given indices, fitted to the (fixed) dimensions of the array.
+    std::vector<slice_or_int> indices;
 };
 
 BasicIndexingNode::BasicIndexingNode(ArrayNode* array_ptr, std::vector<slice_or_int> indices)
@@ -1060,6 +1077,7 @@ BasicIndexingNode::BasicIndexingNode(ArrayNode* array_ptr, IndexParser_&& parser
           start_(parser.start),
           size_(Array::shape_to_size(ndim_, shape_.get())),
           axis0_slice_(parser.axis0_slice),
+          indices_(std::move(parser.indices)),
           contiguous_(Array::is_contiguous(ndim_, shape_.get(), strides_.get())) {
     add_predecessor(array_ptr);
 }
@@ -1137,64 +1155,6 @@ std::span<const Update> BasicIndexingNode::diff(const State& state) const {
     return data_ptr<BasicIndexingNodeData>(state)->diff;
 }
 
-std::vector<BasicIndexingNode::slice_or_int> BasicIndexingNode::infer_indices() const {
-    std::vector<slice_or_int> indices;
-
-    ssize_t view_dim = 0;
-    const ssize_t view_ndim = this->ndim();
-
-    ssize_t array_dim = 0;
-    const ssize_t array_ndim = array_ptr_->ndim();
-
-    if (dynamic()) {
-        indices.emplace_back(*axis0_slice_);
-
-        view_dim += 1;
-        array_dim += 1;
-    }
-
-    auto array_strides = array_ptr_->strides();
-    auto view_strides = this->strides();
-
-    auto array_shape = array_ptr_->shape();
-    auto view_shape = this->shape();
-
-    ssize_t flat_start = start_;
-
-    // we don't currently have support for views with a greater number of dimensions
-    // than their viewed array. Once we do, the logic here will need to be revisted
-    assert(view_ndim <= array_ndim && "not implemented yet");
-    if (view_ndim > array_ndim) throw std::logic_error("not implemented (yet)");
-
-    // ok, let's traverse the remaining dimensions to find the strides
-    for (; array_dim < array_ndim; ++array_dim) {
-        // calculate the start of this dimension.
-        const ssize_t num_per_row = array_strides[array_dim] / itemsize();
-        const ssize_t start = flat_start / num_per_row;
-        flat_start %= num_per_row;
-
-        if (view_dim >= view_ndim || view_strides[view_dim] < array_strides[array_dim]) {
-            // The strides are smaller in the view, or not present at all, which
-            // means we have a constant index.
-            assert(view_ndim < array_ndim);
-            indices.emplace_back(start);
-
-        } else {
-            // Otherwise we must be a slice
-            assert(view_dim < view_ndim);  // still within range
-
-            const ssize_t step = view_strides[view_dim] / array_strides[array_dim];
-            const ssize_t stop = start + view_shape[view_dim] * step;
-            Slice slice = Slice(start, stop, step).fit(array_shape[array_dim]);
-            indices.emplace_back(slice);
-
-            ++view_dim;
-        }
-    }
-
-    return indices;
-}
-
 void BasicIndexingNode::initialize_state(State& state) const {
     int index = this->topological_index();
     assert(index >= 0 && "must be topologically sorted");
-- 
2.43.0


From 7c0baa58fafd87ba850337b02311e85986682141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:47 +0000
Subject: [PATCH 21/51] fix: division by zero when indexing arrays whose rows
 are empty

---
 dwave/optimization/src/nodes/indexing.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index dbb4f50..a91904d 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -612,7 +612,7 @@ void AdvancedIndexingNode::initialize_state(State& state) const {
         }
     }
 
-    ssize_t array_axis0_size = array_ptr_->size(state) / array_item_strides()[0];
+    ssize_t array_axis0_size = array_ptr_->shape(state)[0];
 
     // Now get the values
     ssize_t data_size = bullet1mode_ ? size * (subspace_stride_ / itemsize())
@@ -649,6 +649,8 @@ SizeInfo AdvancedIndexingNode::sizeinfo() const {
     // The number of our elements in each "row"
     const ssize_t num_per_row = strides()[0] / itemsize();
 
+    if (!num_per_row) return SizeInfo(0);  // the rows are empty
+
     if (bullet1mode_) {
         // The indexing arrays determine the number of rows
         SizeInfo sizeinfo(std::get<ArrayNode*>(indices_[first_array_index_]));
@@ -668,7 +670,15 @@ std::span<const ssize_t> AdvancedIndexingNode::shape(const State& state) const {
     // The shape depends on the state, so that's where it needs to be stored.
     auto& dynamic_shape = data_ptr<AdvancedIndexingNodeData>(state)->dynamic_shape;
     dynamic_shape.assign(shape().begin(), shape().end());
-    dynamic_shape[0] = this->size(state) / (strides()[0] / itemsize());
+    if (const ssize_t num_per_row = strides()[0] / itemsize()) {
+        dynamic_shape[0] = this->size(state) / num_per_row;
+    } else if (bullet1mode_) {
+        // The rows are empty, but the indexing arrays determine how many there are
+        dynamic_shape[0] = std::get<ArrayNode*>(indices_[first_array_index_])->size(state);
+    } else {
+        // The rows are empty, but the base array determines how many there are
+        dynamic_shape[0] = array_ptr_->shape(state)[0];
+    }
     return dynamic_shape;
 }
 
@@ -851,8 +861,10 @@ void AdvancedIndexingNode::propagate(State& state) const {
         ssize_t old_parent_size = new_parent_size - array_ptr_->size_diff(state);
         ssize_t unchanged_parent_size = std::min(new_parent_size, old_parent_size);
 
-        ssize_t old_axis0_size = old_parent_size / array_item_strides()[0];
-        ssize_t new_axis0_size = new_parent_size / array_item_strides()[0];
+        // If the rows of the parent array are empty then so are ours, so we can ignore them
+        const ssize_t parent_num_per_row = array_item_strides()[0];
+        ssize_t old_axis0_size = parent_num_per_row ? old_parent_size / parent_num_per_row : 0;
+        ssize_t new_axis0_size = parent_num_per_row ? new_parent_size / parent_num_per_row : 0;
         ssize_t unchanged_axis0_size = std::min(new_axis0_size, old_axis0_size);
         // First handle any changes to the size of the parent array
         if (new_axis0_size > old_axis0_size) {
@@ -1509,6 +1521,8 @@ SizeInfo BasicIndexingNode::sizeinfo() const {
     const ssize_t num_per_row =
             std::reduce(shape.begin() + 1, shape.end(), 1, std::multiplies<ssize_t>());
 
+    if (!num_per_row) return SizeInfo(0);  // the rows are empty
+
     // A positive start and a negative stop each impose an offset on the number of rows
     const ssize_t row_offset = std::min<ssize_t>(-start, 0) + std::min<ssize_t>(stop, 0);
 
-- 
2.43.0


From 54b74fb3c02b7f8ddc3710d2daf8b8c305cfd166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:39 +0000
Subject: [PATCH 22/51] fix: state of a permutation of an empty array

---
 dwave/optimization/src/nodes/indexing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index a91904d..699c2a9 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -1642,7 +1642,7 @@ void PermutationNode::initialize_state(State& state) const {
 
     // first work out all of the offsets in the array
     std::vector<ssize_t> offsets;
-    {
+    if (n) {
         assert(this->size() >= 0);
         offsets.reserve(this->size());
 
-- 
2.43.0


From bacc46fe0e2f7f0e46c679a73f7ada1bee1a2f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:26 +0000
Subject: [PATCH 23/51] fix: explicit states of disjoint bit-sets must be a
 partition

Only the total number of elements was checked, so an element in two sets was
accepted as long as another one was in none.
---
 dwave/optimization/src/nodes/collections.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/dwave/optimization/src/nodes/collections.cpp b/dwave/optimization/src/nodes/collections.cpp
index a2b1b3a..d0a0ca6 100644
--- a/dwave/optimization/src/nodes/collections.cpp
+++ b/dwave/optimization/src/nodes/collections.cpp
@@ -244,8 +244,6 @@ struct DisjointBitSetsNodeData : NodeStateData {
         data.resize(primary_set_size * num_disjoint_sets, 0);
         diffs.resize(num_disjoint_sets);
 
-        ssize_t num_elements = 0;
-
         for (ssize_t set_index = 0; set_index < num_disjoint_sets; ++set_index) {
             if (static_cast<ssize_t>(contents[set_index].size()) != primary_set_size) {
                 throw std::invalid_argument(
@@ -256,13 +254,18 @@ struct DisjointBitSetsNodeData : NodeStateData {
                     throw std::invalid_argument("provided set must be binary valued");
                 }
                 data[set_index * primary_set_size + el_index] = contents[set_index][el_index];
-                num_elements += static_cast<ssize_t>(contents[set_index][el_index]);
             }
         }
 
-        if (num_elements != primary_set_size) {
-            throw std::invalid_argument(
-                    "disjoint set elements must be in exactly one bit-set once");
+        for (ssize_t el_index = 0; el_index < primary_set_size; ++el_index) {
+            ssize_t num_sets = 0;
+            for (ssize_t set_index = 0; set_index < num_disjoint_sets; ++set_index) {
+                num_sets += static_cast<ssize_t>(contents[set_index][el_index]);
+            }
+            if (num_sets != 1) {
+                throw std::invalid_argument(
+                        "disjoint set elements must be in exactly one bit-set once");
+            }
         }
     }
 
-- 
2.43.0


From dad1f591dce1c040a14d14ae0e623bace8753baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:36 +0000
Subject: [PATCH 24/51] fix: UnaryOpNode::sizeinfo of dynamic arrays

---
 .../include/dwave-optimization/nodes/mathematical.hpp       | 1 +
 dwave/optimization/src/nodes/mathematical.cpp               | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/dwave/optimization/include/dwave-optimization/nodes/mathematical.hpp b/dwave/optimization/include/dwave-optimization/nodes/mathematical.hpp
index 5fe83f1..f2d1c81 100644
--- a/dwave/optimization/include/dwave-optimization/nodes/mathematical.hpp
+++ b/dwave/optimization/include/dwave-optimization/nodes/mathematical.hpp
@@ -349,6 +349,7 @@ class UnaryOpNode : public ArrayOutputMixin<ArrayNode> {
     using ArrayOutputMixin::size;
     ssize_t size(const State& state) const override;
     ssize_t size_diff(const State& state) const override;
+    SizeInfo sizeinfo() const override;
 
     void commit(State& state) const override;
     void revert(State& state) const override;
diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index 3580814..316726d 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -1924,6 +1924,12 @@ ssize_t UnaryOpNode<UnaryOp>::size_diff(const State& state) const {
     return data_ptr<ArrayNodeStateData>(state)->size_diff();
 }
 
+template <class UnaryOp>
+SizeInfo UnaryOpNode<UnaryOp>::sizeinfo() const {
+    if (!this->dynamic()) return SizeInfo(this->size());
+    return SizeInfo(array_ptr_);
+}
+
 template class UnaryOpNode<functional::abs<double>>;
 template class UnaryOpNode<functional::logical<double>>;
 template class UnaryOpNode<functional::square<double>>;
-- 
2.43.0


From 73d107317da01c37a78868525f9d05be97a5680c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:36 +0000
Subject: [PATCH 25/51] fix: saving a quadratic model without interactions

---
 dwave/optimization/symbols.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index 7df1108..9cba7ce 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -2764,7 +2764,8 @@ cdef class QuadraticModel(ArraySymbol):
             coords[1, i] = i
 
         # this works because each row of coords is contiguous!
-        qm.get_quadratic(&coords[0, num_variables], &coords[1, num_variables], &qdata[num_variables])
+        if num_variables < num_terms:
+            qm.get_quadratic(&coords[0, num_variables], &coords[1, num_variables], &qdata[num_variables])
 
         with zf.open(directory + "linear.npy", mode="w", force_zip64=True) as f:
             np.save(f, ldata, allow_pickle=False)
-- 
2.43.0


From 380d7a615f6ffc6b41b2ce6252d6224ed38ef2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:10 +0000
Subject: [PATCH 26/51] fix: loading models with unset states of disjoint lists
 and bit-sets

---
 dwave/optimization/symbols.pyx | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index 9cba7ce..333595b 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -1174,6 +1174,13 @@ cdef class DisjointBitSets(Symbol):
         self.ptr.initialize_state((<States>self.model.states)._states[index], move(sets))
 
     def _state_from_zipfile(self, zf, directory, Py_ssize_t state_index):
+        # check if there is any state data saved (it can be sparse)
+        try:
+            zf.getinfo(directory + "set0")
+        except KeyError:
+            # no state data encoded
+            return
+
         arrays = []
         for i in range(self.num_disjoint_sets()):
             with zf.open(directory+f"set{i}", mode="r") as f:
@@ -1427,6 +1434,13 @@ cdef class DisjointLists(Symbol):
         self.ptr.initialize_state((<States>self.model.states)._states[index], move(items))
 
     def _state_from_zipfile(self, zf, directory, Py_ssize_t state_index):
+        # check if there is any state data saved (it can be sparse)
+        try:
+            zf.getinfo(directory + "list0")
+        except KeyError:
+            # no state data encoded
+            return
+
         arrays = []
         for i in range(self.num_disjoint_lists()):
             with zf.open(directory+f"list{i}", mode="r") as f:
-- 
2.43.0


From b744fc7b0860c6caf9a97e08ea3bfc759450805c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:10 +0000
Subject: [PATCH 27/51] fix: loading states checks that the decisions match

---
 dwave/optimization/states.pyx | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/dwave/optimization/states.pyx b/dwave/optimization/states.pyx
index c05760e..1c0d9f2 100644
--- a/dwave/optimization/states.pyx
+++ b/dwave/optimization/states.pyx
@@ -12,7 +12,9 @@
 #    See the License for the specific language governing permissions and
 #    limitations under the License.
 
+import io
 import weakref
+import zipfile
 
 from libcpp.utility cimport move
 
@@ -163,11 +165,19 @@ cdef class States:
         cdef _Graph model = Model.from_file(file, check_header=check_header)
         cdef States states = model.states
 
-        # Check that the model is compatible
-        for n0, n1 in zip(model.iter_symbols(), self._model().iter_symbols()):
-            # todo: replace with proper node quality testing once we have it
-            if not isinstance(n0, type(n1)):
-                raise ValueError("cannot load states into a model with mismatched decisions")
+        # Check that the model is compatible, that is that it has the same decisions
+        # todo: replace with proper node quality testing once we have it
+        def parameters(symbol):
+            with zipfile.ZipFile(io.BytesIO(), mode="w") as zf:
+                symbol._into_zipfile(zf, "")
+                return [(name, zf.read(name)) for name in zf.namelist()]
+
+        decisions = list(model.iter_decisions())
+        expected = list(self._model().iter_decisions())
+        if (len(decisions) != len(expected)
+                or any(type(n0) is not type(n1) or parameters(n0) != parameters(n1)
+                       for n0, n1 in zip(decisions, expected))):
+            raise ValueError("cannot load states into a model with mismatched decisions")
 
         self.attach_states(move(states.detach_states()))
 
-- 
2.43.0


From 3a5d180797477c14e27e801970ed1962a5e213c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:19 +0000
Subject: [PATCH 28/51] fix: enumerating symbols while the model is extended

---
 dwave/optimization/_model.pyx | 45 ++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/dwave/optimization/_model.pyx b/dwave/optimization/_model.pyx
index 3ffc592..82445b7 100644
--- a/dwave/optimization/_model.pyx
+++ b/dwave/optimization/_model.pyx
@@ -382,8 +382,12 @@ cdef class _Graph:
             <dwave.optimization.symbols.LessEqual at ...>
             >>> constraints = next(model.iter_constraints())
         """
-        for ptr in self._graph.constraints():
-            yield symbol_from_ptr(self, ptr)
+        # The model might be changed between yields, in which case any held
+        # iterators are invalidated. So we re-fetch the constraints each time.
+        cdef Py_ssize_t i = 0
+        while i < <Py_ssize_t>self._graph.constraints().size():
+            yield symbol_from_ptr(self, self._graph.constraints()[i])
+            i += 1
 
     def iter_decisions(self):
         """Iterate over all decision variables in the model.
@@ -399,8 +403,12 @@ cdef class _Graph:
             <dwave.optimization.symbols.LessEqual at ...>
             >>> decisions = next(model.iter_decisions())
         """
-        for ptr in self._graph.decisions():
-            yield symbol_from_ptr(self, ptr)
+        # The model might be changed between yields, in which case any held
+        # iterators are invalidated. So we re-fetch the decisions each time.
+        cdef Py_ssize_t i = 0
+        while i < <Py_ssize_t>self._graph.decisions().size():
+            yield symbol_from_ptr(self, self._graph.decisions()[i])
+            i += 1
 
     def iter_symbols(self):
         """Iterate over all symbols in the model.
@@ -416,9 +424,12 @@ cdef class _Graph:
         """
         # Because nodes() is a span of unique_ptr, we can't just iterate over
         # it cythonically. Cython would try to do a copy/move assignment.
-        nodes = self._graph.nodes()
-        for i in range(nodes.size()):
-            yield symbol_from_ptr(self, nodes[i].get())
+        # The model might be changed between yields, in which case any held
+        # span is invalidated. So we re-fetch the nodes each time.
+        cdef Py_ssize_t i = 0
+        while i < <Py_ssize_t>self._graph.nodes().size():
+            yield symbol_from_ptr(self, self._graph.nodes()[i].get())
+            i += 1
 
     def lock(self):
         """Lock the model.
@@ -854,11 +865,11 @@ cdef class Symbol:
             >>> a.equals(next(b.iter_predecessors()))
             True
         """
-        cdef vector[cppNode*].const_iterator it = self.node_ptr.predecessors().begin()
-        cdef vector[cppNode*].const_iterator end = self.node_ptr.predecessors().end()
-        while it != end:
-            yield symbol_from_ptr(self.model, deref(it))
-            inc(it)
+        # Predecessors might be added between yields, which would invalidate iterators
+        cdef Py_ssize_t i = 0
+        while i < <Py_ssize_t>self.node_ptr.predecessors().size():
+            yield symbol_from_ptr(self.model, self.node_ptr.predecessors()[i])
+            i += 1
 
     def iter_successors(self):
         """Iterate over a symbol's successors in the model.
@@ -876,11 +887,11 @@ cdef class Symbol:
             >>> lsymbol_lists[0].equals(next(lsymbol.iter_successors()))
             True
         """
-        cdef vector[cppNode.SuccessorView].const_iterator it = self.node_ptr.successors().begin()
-        cdef vector[cppNode.SuccessorView].const_iterator end = self.node_ptr.successors().end()
-        while it != end:
-            yield symbol_from_ptr(self.model, deref(it).ptr)
-            inc(it)
+        # Successors might be added between yields, which would invalidate iterators
+        cdef Py_ssize_t i = 0
+        while i < <Py_ssize_t>self.node_ptr.successors().size():
+            yield symbol_from_ptr(self.model, self.node_ptr.successors()[i].ptr)
+            i += 1
 
     def maybe_equals(self, other):
         """Compare to another symbol.
-- 
2.43.0


From d848609e6569128889814b68510534f68122906a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:26 +0000
Subject: [PATCH 29/51] fix: objective and constraints must be symbols of the
 model

---
 dwave/optimization/_model.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dwave/optimization/_model.pyx b/dwave/optimization/_model.pyx
index 82445b7..eaf8cc3 100644
--- a/dwave/optimization/_model.pyx
+++ b/dwave/optimization/_model.pyx
@@ -88,6 +88,8 @@ cdef class _Graph:
         """
         if value is None:
             raise ValueError("value cannot be None")
+        if value.model is not self:
+            raise ValueError("value must be a symbol of the model")
         # TODO: shall we accept array valued constraints?
         self._graph.add_constraint(value.array_ptr)
         return value
@@ -467,6 +469,8 @@ cdef class _Graph:
         """
         if value is None:
             raise ValueError("value cannot be None")
+        if value.model is not self:
+            raise ValueError("value must be a symbol of the model")
         if value.size() < 1:
             raise ValueError("the value of an empty array is ambiguous")
         if value.size() > 1:
-- 
2.43.0


From 40394e24e89bb1744019356f57a999a091f5dbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:26 +0000
Subject: [PATCH 30/51] fix: equality of symbols with different parameters

---
 dwave/optimization/_model.pyx  | 19 ++++++++++++++++++-
 dwave/optimization/symbols.pyx |  3 +--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/dwave/optimization/_model.pyx b/dwave/optimization/_model.pyx
index eaf8cc3..6cdae4f 100644
--- a/dwave/optimization/_model.pyx
+++ b/dwave/optimization/_model.pyx
@@ -14,6 +14,7 @@
 
 import collections.abc
 import functools
+import io
 import itertools
 import json
 import numbers
@@ -27,11 +28,12 @@ from cpython cimport Py_buffer
 from cython.operator cimport dereference as deref, preincrement as inc
 from cython.operator cimport typeid
 from libcpp cimport bool
+from libcpp.cast cimport dynamic_cast
 from libcpp.utility cimport move
 from libcpp.vector cimport vector
 
 from dwave.optimization.libcpp.array cimport Array as cppArray
-from dwave.optimization.libcpp.graph cimport DecisionNode as cppDecisionNode
+from dwave.optimization.libcpp.graph cimport DecisionNodePtr as cppDecisionNodePtr
 from dwave.optimization.states cimport States
 from dwave.optimization.states import StateView
 from dwave.optimization.symbols cimport symbol_from_ptr
@@ -713,6 +715,21 @@ cdef class Symbol:
         if maybe != 1:
             return True if maybe else False
 
+        cdef Symbol rhs = other
+
+        # Two different decisions of one model take their values independently
+        if self.model is rhs.model and dynamic_cast[cppDecisionNodePtr](self.node_ptr):
+            return False
+
+        # Symbols of the same type can differ in what they save besides their predecessors
+        def parameters(symbol):
+            with zipfile.ZipFile(io.BytesIO(), mode="w") as zf:
+                symbol._into_zipfile(zf, "")
+                return [(name, zf.read(name)) for name in zf.namelist()]
+
+        if parameters(self) != parameters(other):
+            return False
+
         # todo: caching
         return all(p.equals(q) for p, q in zip(self.iter_predecessors(), other.iter_predecessors()))
 
diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index 333595b..fa387f1 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -1020,9 +1020,8 @@ cdef class Constant(ArraySymbol):
         if maybe != MAYBE:
             return DEFINITELY if maybe else NOT
 
-        # avoid NumPy deprecation warning by casting to bool. But also
         # `bool` in this namespace is a C++ class so we do an explicit if else
-        equal = (np.asarray(self) == np.asarray(other)).all()
+        equal = np.array_equal(np.asarray(self), np.asarray(other))
         return DEFINITELY if equal else NOT
 
     def state(self, Py_ssize_t index=0, *, bool copy = True):
-- 
2.43.0


From ef21d533d910d3e1323962365e9ca8037360e9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:27 +0000
Subject: [PATCH 31/51] fix: a slice with step zero is refused with an error

The exception thrown by the constructor of the slice was not declared, so
indexing a symbol with a zero step terminated the process.
---
 dwave/optimization/libcpp/array.pxd | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dwave/optimization/libcpp/array.pxd b/dwave/optimization/libcpp/array.pxd
index abea195..1061d2a 100644
--- a/dwave/optimization/libcpp/array.pxd
+++ b/dwave/optimization/libcpp/array.pxd
@@ -53,8 +53,8 @@ cdef extern from "dwave-optimization/array.hpp" namespace "dwave::optimization"
     cdef cppclass Slice:
         Slice()
         Slice(optional[Py_ssize_t] stop)
-        Slice(optional[Py_ssize_t] start, optional[Py_ssize_t] stop)
-        Slice(optional[Py_ssize_t] start, optional[Py_ssize_t] stop, optional[Py_ssize_t] step)
+        Slice(optional[Py_ssize_t] start, optional[Py_ssize_t] stop) except+
+        Slice(optional[Py_ssize_t] start, optional[Py_ssize_t] stop, optional[Py_ssize_t] step) except+
 
         Py_ssize_t start
         Py_ssize_t stop
-- 
2.43.0


From a9bddf19eca5e4d81aaad5f673aa88c475001636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:53 +0000
Subject: [PATCH 32/51] fix: partial reductions over an axis that does not
 exist

The axis was used (to erase from the shape, and of arrays without
dimensions to compute strides) before it was checked.
---
 dwave/optimization/src/nodes/mathematical.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index 316726d..88fd3d8 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -775,6 +775,10 @@ template class NaryOpNode<std::plus<double>>;
 // PartialReduceNode *****************************************************************
 std::vector<ssize_t> partial_reduce_shape(const std::span<const ssize_t> input_shape,
                                           const ssize_t axis) {
+    /// TODO: support negative axes
+    if (axis < 0 || axis >= static_cast<ssize_t>(input_shape.size())) {
+        throw std::invalid_argument("Axes should be integers between 0 and n_dim - 1");
+    }
     std::vector<ssize_t> shape(input_shape.begin(), input_shape.end());
     shape.erase(shape.begin() + axis);
     return shape;
@@ -815,17 +819,12 @@ PartialReduceNode<BinaryOp>::PartialReduceNode(ArrayNode* node_ptr, std::span<co
         throw std::invalid_argument("cannot do a partial reduction on an empty array");
     }
 
-    // Validate axes
-    /// TODO: support negative axes
+    // Validate axes. The axis itself is checked when determining the shape
     if (axes.size() != 1){
         throw std::invalid_argument("Partial reduction support only one axis");
     }
 
     assert(this->ndim() == array_ptr_->ndim() - 1);
-    ssize_t axis = axes_[0];
-    if (axis < 0 || axis >= array_ptr_->ndim()) {
-        throw std::invalid_argument("Axes should be integers between 0 and n_dim - 1");
-    }
 
     add_predecessor(node_ptr);
 }
-- 
2.43.0


From 898c76cc560cffaeb369131ee60919cb9da8abee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:03 +0000
Subject: [PATCH 33/51] fix: files of an unknown version are refused, file
 names respect check_header

---
 dwave/optimization/_model.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dwave/optimization/_model.pyx b/dwave/optimization/_model.pyx
index 6cdae4f..5971ae2 100644
--- a/dwave/optimization/_model.pyx
+++ b/dwave/optimization/_model.pyx
@@ -132,7 +132,7 @@ cdef class _Graph:
 
         if isinstance(file, str):
             with open(file, "rb") as f:
-                return cls.from_file(f)
+                return cls.from_file(f, check_header=check_header)
 
         prefix = b"DWNL"
 
@@ -143,6 +143,8 @@ cdef class _Graph:
                              "instead")
 
         version = tuple(file.read(2))
+        if version != (0, 1):
+            raise ValueError(f"unsupported file format version {version!r}")
 
         if check_header:
             # we'll need the header values to check later
-- 
2.43.0


From 68d7c317d7eb1c5b9f56c6a1c5e2d0b84dae7f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:03 +0000
Subject: [PATCH 34/51] fix: node ids read from a file are checked

The objective, the constraints and the indices of advanced indexing were
looked up without checking that the nodes exist, and files with a different
number of nodes than announced were accepted.
---
 dwave/optimization/_model.pyx  | 10 +++++++++-
 dwave/optimization/symbols.pyx |  2 ++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/dwave/optimization/_model.pyx b/dwave/optimization/_model.pyx
index 5971ae2..54945db 100644
--- a/dwave/optimization/_model.pyx
+++ b/dwave/optimization/_model.pyx
@@ -186,14 +186,22 @@ cdef class _Graph:
 
                     cls._from_zipfile(zf, directory, model, predecessors=predecessors)
 
+            if model.num_nodes() != num_nodes:
+                raise ValueError(f"expected {num_nodes} nodes, got {model.num_nodes()}")
+
+            def is_node_id(node_id):
+                return isinstance(node_id, int) and 0 <= node_id < num_nodes
+
             objective_buff = zf.read("objective.json")
             if objective_buff:
                 objective_id = json.loads(objective_buff)
-                if not isinstance(objective_id, int) or objective_id >= model.num_nodes():
+                if not is_node_id(objective_id):
                     raise ValueError("objective must be an integer and a valid node id")
                 model.minimize(symbol_from_ptr(model, model._graph.nodes()[objective_id].get()))
 
             for cid in json.loads(zf.read("constraints.json")):
+                if not is_node_id(cid):
+                    raise ValueError("constraints must be integers and valid node ids")
                 model.add_constraint(symbol_from_ptr(model, model._graph.nodes()[cid].get()))
 
             # Read any states that have been encoded
diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index fa387f1..55cfef9 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -516,6 +516,8 @@ cdef class AdvancedIndexing(ArraySymbol):
             for index in json.load(f):
                 if isinstance(index, numbers.Integral):
                     # lower topological index, so must exist
+                    if not 0 <= index < model.num_nodes():
+                        raise ValueError("unexpected index")
                     ptr = model._graph.nodes()[<Py_ssize_t>(index)].get()
                     indices.append(symbol_from_ptr(model, ptr))
                 elif isinstance(index, list):
-- 
2.43.0


From 38c6dfa824077afca82b89bb9d9f1c2b810bda2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:39 +0000
Subject: [PATCH 35/51] fix: job_shop_scheduling does not change the machines
 it is given

---
 dwave/optimization/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/optimization/generators.py b/dwave/optimization/generators.py
index 2948659..cdfdce3 100644
--- a/dwave/optimization/generators.py
+++ b/dwave/optimization/generators.py
@@ -815,7 +815,7 @@ def job_shop_scheduling(times: numpy.typing.ArrayLike, machines: numpy.typing.Ar
         # In that case we reindex to 0. This is OK because we know from our earlier
         # checking that we're non-negative, so combined with .all() we must be
         # strictly positive
-        machines -= 1
+        machines = machines - 1  # not in-place, because the array might be the caller's
 
         # the validity will be checked in the next for-loop
 
-- 
2.43.0


From 5969955067d548a214bba91f6badf461f3e0719b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:39 +0000
Subject: [PATCH 36/51] fix: NaN capacities are refused by the generators

---
 dwave/optimization/generators.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dwave/optimization/generators.py b/dwave/optimization/generators.py
index cdfdce3..40eb70d 100644
--- a/dwave/optimization/generators.py
+++ b/dwave/optimization/generators.py
@@ -176,7 +176,7 @@ def bin_packing(weights: numpy.typing.ArrayLike,
     if weights.shape[0] == 0:
         raise ValueError("the number of items must be positive")
 
-    if capacity <= 0:
+    if not capacity > 0:
         raise ValueError("`capacity` must be a positive number")
 
     if any(weight > capacity for weight in weights):
@@ -279,7 +279,7 @@ def capacitated_vehicle_routing(demand: numpy.typing.ArrayLike,
         raise ValueError("`number_of_vehicles` must be at least 1."
                          f" Got {number_of_vehicles}.")
 
-    if vehicle_capacity <= 0:
+    if not vehicle_capacity > 0:
         raise ValueError("`vehicle_capacity` must be a positive number."
                          f" Got {vehicle_capacity}.")
 
@@ -467,7 +467,7 @@ def capacitated_vehicle_routing_with_time_windows(demand: numpy.typing.ArrayLike
         raise ValueError("`number_of_vehicles` must be at least 1."
                          f" Got {number_of_vehicles}.")
 
-    if vehicle_capacity <= 0:
+    if not vehicle_capacity > 0:
         raise ValueError("`vehicle_capacity` must be a positive number."
                          f" Got {vehicle_capacity}.")
 
@@ -925,7 +925,7 @@ def knapsack(values: numpy.typing.ArrayLike,
     if weights.shape != values.shape:
         raise ValueError("`weights` and `values` must be equal in length")
 
-    if capacity <= 0:
+    if not capacity > 0:
         raise ValueError("`capacity` must be a positive number")
 
     # Construct the model
-- 
2.43.0


From 00c27cef79c543688a710645299ac4ef8eb44dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:39 +0000
Subject: [PATCH 37/51] fix: coordinates given to capacitated_vehicle_routing

The coordinates were validated as floats but used as given, so those of
narrow integer types overflowed; the depot's was not validated at all.
---
 dwave/optimization/generators.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/dwave/optimization/generators.py b/dwave/optimization/generators.py
index 40eb70d..52556c0 100644
--- a/dwave/optimization/generators.py
+++ b/dwave/optimization/generators.py
@@ -319,7 +319,7 @@ def capacitated_vehicle_routing(demand: numpy.typing.ArrayLike,
 
     else:
         x = _require("locations_x", locations_x, ndim=1, dtype=float)
-        y = _require("locations_x", locations_y, ndim=1, dtype=float)
+        y = _require("locations_y", locations_y, ndim=1, dtype=float)
 
         if not len(x) == len(y) == len(demand):
             raise ValueError("Lengths of `locations_x`, `locations_y`, and `demand`"
@@ -335,24 +335,28 @@ def capacitated_vehicle_routing(demand: numpy.typing.ArrayLike,
                                  f" be at least 2 when `demand[0]=0`.")
 
             customer_demand = demand[1:]
-            customer_locations_x = locations_x[1:]
-            customer_locations_y = locations_y[1:]
+            customer_locations_x = x[1:]
+            customer_locations_y = y[1:]
 
             if depot_x_y is not None:
                 raise ValueError("`depot_x_y` cannot be provided when "
                                  "`demand[0]` is zero.")
 
-            depot_x_y = np.asarray([locations_x[0], locations_y[0]])
+            depot_x_y = np.asarray([x[0], y[0]])
 
         else:
 
             if depot_x_y is None:
                 raise ValueError("`depot_x_y` must be provided when `demand[0]` is not"
                                  " 0 and `locations_x` and `locations_y` are specified.")
+            depot_x_y = _require("depot_x_y", depot_x_y, ndim=1, dtype=float)
+            if depot_x_y.shape != (2,):
+                raise ValueError("`depot_x_y` must have exactly two elements."
+                                 f" Got {depot_x_y.shape[0]}.")
+
             customer_demand = demand
-            customer_locations_x = locations_x
-            customer_locations_y = locations_y
-            depot_x_y = np.asarray([depot_x_y[0], depot_x_y[1]])
+            customer_locations_x = x
+            customer_locations_y = y
 
         customer_locations_x = customer_locations_x - depot_x_y[0]
         customer_locations_y = customer_locations_y - depot_x_y[1]
-- 
2.43.0


From 4be42b0aaff6df6bd65cd1b03c44643f2152ab57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:39 +0000
Subject: [PATCH 38/51] fix: travel times of
 capacitated_vehicle_routing_with_time_windows were transposed

---
 dwave/optimization/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/optimization/generators.py b/dwave/optimization/generators.py
index 52556c0..2180549 100644
--- a/dwave/optimization/generators.py
+++ b/dwave/optimization/generators.py
@@ -650,7 +650,7 @@ def capacitated_vehicle_routing_with_time_windows(demand: numpy.typing.ArrayLike
     for r in range(number_of_vehicles):
         route_costs.append(t_from_depo[routes[r][:1]].sum())
         route_costs.append(t_to_depo[routes[r][-1:]].sum())
-        route_costs.append(t_cust[routes[r][1:], routes[r][:-1]].sum())
+        route_costs.append(t_cust[routes[r][:-1], routes[r][1:]].sum())
 
     model.minimize(add(*route_costs))
 
-- 
2.43.0


From 15075ade0be64ecbda920b5dd799cf3bb77e2721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:39 +0000
Subject: [PATCH 39/51] fix: the largest route of
 capacitated_vehicle_routing_with_time_windows

The limit on the length of routes was rounded down, to zero when there were
more vehicles than customers, and could exceed the number of locations, in
which case building the model failed.
---
 dwave/optimization/generators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dwave/optimization/generators.py b/dwave/optimization/generators.py
index 2180549..238ff7f 100644
--- a/dwave/optimization/generators.py
+++ b/dwave/optimization/generators.py
@@ -17,6 +17,7 @@
 from __future__ import annotations
 
 import itertools
+import math
 import typing
 
 import numpy as np
@@ -585,7 +586,8 @@ def capacitated_vehicle_routing_with_time_windows(demand: numpy.typing.ArrayLike
         num_clients_in_route[f'route{i}'] = routes[i].size()
 
     # Constrain the number of locations per route
-    max_loc_per_route_constant = model.constant(3 * int(num_customers / number_of_vehicles))
+    max_loc_per_route_constant = model.constant(
+        min(3 * math.ceil(num_customers / number_of_vehicles), num_customers + 1))
     max_loc_per_route_constraints = [(num_clients_in_route[f'route{v}'] <= max_loc_per_route_constant)
                                      for v in range(number_of_vehicles)]
     for mlpr in max_loc_per_route_constraints:
-- 
2.43.0


From 7f4cb3548bb0933bfb116789a1fdd9cd7f2cb9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:39 +0000
Subject: [PATCH 40/51] fix: time windows of
 capacitated_vehicle_routing_with_time_windows

The opening time of the depot was ignored, as was any service time at it,
and the closing time that stands for an empty route was an arbitrary 1e6.
---
 dwave/optimization/generators.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dwave/optimization/generators.py b/dwave/optimization/generators.py
index 238ff7f..38902f9 100644
--- a/dwave/optimization/generators.py
+++ b/dwave/optimization/generators.py
@@ -515,6 +515,9 @@ def capacitated_vehicle_routing_with_time_windows(demand: numpy.typing.ArrayLike
     if demand[0] != 0:
         raise ValueError("`demand[0]` must be zero.")
 
+    if service_time[0] != 0:
+        raise ValueError("`service_time[0]` must be zero.")
+
     customer_demand = demand[1:]
 
     if (customer_demand == 0).any():
@@ -552,7 +555,7 @@ def capacitated_vehicle_routing_with_time_windows(demand: numpy.typing.ArrayLike
 
     time_close_ext = np.zeros(num_customers + 1)
     time_close_ext[:num_customers] = time_window_close[1:]
-    time_close_ext[-1] = 1e6
+    time_close_ext[-1] = time_window_close.max()  # never the binding one
     t_close = model.constant(time_close_ext)
 
     service_time_ext = np.zeros(num_customers + 1)
@@ -561,6 +564,7 @@ def capacitated_vehicle_routing_with_time_windows(demand: numpy.typing.ArrayLike
 
     demand = model.constant(customer_demand)
     capacity = model.constant(vehicle_capacity)
+    t_depo_open = model.constant(time_window_open[0])
     t_depo_close = model.constant(time_window_close[0])
 
     one = model.constant(1)
@@ -615,7 +619,7 @@ def capacitated_vehicle_routing_with_time_windows(demand: numpy.typing.ArrayLike
                 # index of the first customer visited, if length of the route is zero,
                 # points to the last (0) element
                 idx = where(condition, routes[vehicle_idx][:1].sum(), range_helper[-1])
-                this_t_serving_time.append(maximum(t_from_depo[idx], t_open[idx]))
+                this_t_serving_time.append(maximum(t_depo_open + t_from_depo[idx], t_open[idx]))
                 this_t_leaving.append(this_t_serving_time[-1] + t_service[idx])
 
             else:
-- 
2.43.0


From 4cc73bc1671ccd78fd551760c7d9a39452f62265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:01 +0000
Subject: [PATCH 41/51] fix: job_shop_scheduling truncated times and machines
 that are not integers

---
 dwave/optimization/generators.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dwave/optimization/generators.py b/dwave/optimization/generators.py
index 38902f9..058d7b6 100644
--- a/dwave/optimization/generators.py
+++ b/dwave/optimization/generators.py
@@ -55,6 +55,10 @@ def _require(argname: str,
     except (ValueError, TypeError) as err:
         raise ValueError(f"`{argname}` must be an array-like of numbers") from err
 
+    # Casting to integers truncates, so check that nothing was lost
+    if dtype is int and not np.array_equal(array, array_like):
+        raise ValueError(f"`{argname}` must be an array-like of integers")
+
     if not np.issubdtype(array.dtype, np.number) or np.issubdtype(array.dtype, np.complexfloating):
         raise ValueError(f"`{argname}` must be an array-like of numbers")
 
-- 
2.43.0


From e4360153f73af023ecd5458accfbd034e7e14b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:06 +0000
Subject: [PATCH 42/51] fix: quadratic models from arrays that cannot be
 written to

_from_constrained_quadratic_model failed on any quadratic objective or
constraint, because dimod's arrays are read-only.
---
 dwave/optimization/symbols.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index 55cfef9..e645510 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -2618,7 +2618,7 @@ cdef class QuadraticModel(ArraySymbol):
         if linear is None:
             linear = []
         # Let NumPy handle type checking
-        cdef double[::1] ldata = np.ascontiguousarray(linear, dtype=np.double)
+        cdef const double[::1] ldata = np.ascontiguousarray(linear, dtype=np.double)
 
         if ldata.shape[0] > num_variables:
             raise ValueError("linear index out of range of x")
@@ -2630,8 +2630,8 @@ cdef class QuadraticModel(ArraySymbol):
         if len(quadratic) != 2:
             raise ValueError("expected a length 2 tuple")
 
-        cdef double[::1] data = np.ascontiguousarray(quadratic[0], dtype=np.double)
-        cdef int[:, ::1] coords = np.ascontiguousarray(np.atleast_2d(quadratic[1]), dtype=np.intc)
+        cdef const double[::1] data = np.ascontiguousarray(quadratic[0], dtype=np.double)
+        cdef const int[:, ::1] coords = np.ascontiguousarray(np.atleast_2d(quadratic[1]), dtype=np.intc)
 
         if data.shape[0] != coords.shape[1]:
             # SciPy's error message
-- 
2.43.0


From b841420a92eb108896aa42f5d9962377ca1535df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:56 +0000
Subject: [PATCH 43/51] fix: indexing rows and then columns by the same symbol

Only lists over all the rows can be used with Permutation, but it was tried
with every index symbol, so that valid indexing was refused.
---
 dwave/optimization/symbols.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index e645510..282b496 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -461,8 +461,8 @@ cdef class AdvancedIndexing(ArraySymbol):
 
     def __getitem__(self, index):
         # There is a very specific case we want to handle, when we are [x, :] or [:, x]
-        # and we're doing the inverse indexing operation, and where the main array is
-        # constant square matrix
+        # and we're doing the inverse indexing operation, where the main array is a
+        # constant square matrix and x is a permutation of its rows
 
         array = next(self.iter_predecessors())
 
@@ -478,7 +478,7 @@ cdef class AdvancedIndexing(ArraySymbol):
 
             # check the [x, :][:, x] case
             if (isinstance(i0, slice) and _empty_slice(i0) and
-                    isinstance(i1, ArraySymbol) and
+                    isinstance(i1, ListVariable) and i1.shape() == array.shape()[:1] and
                     holds_alternative[cppArrayNodePtr](self.ptr.indices()[0]) and
                     get[cppArrayNodePtr](self.ptr.indices()[0]) == (<ArraySymbol>i1).array_ptr and
                     holds_alternative[cppSlice](self.ptr.indices()[1])):
@@ -487,7 +487,7 @@ cdef class AdvancedIndexing(ArraySymbol):
 
             # check the [:, x][x, :] case
             if (isinstance(i1, slice) and _empty_slice(i1) and
-                    isinstance(i0, ArraySymbol) and
+                    isinstance(i0, ListVariable) and i0.shape() == array.shape()[:1] and
                     holds_alternative[cppArrayNodePtr](self.ptr.indices()[1]) and
                     get[cppArrayNodePtr](self.ptr.indices()[1]) == (<ArraySymbol>i0).array_ptr and
                     holds_alternative[cppSlice](self.ptr.indices()[0])):
-- 
2.43.0


From 13a1a06bc3276f22798d8cd7f66ff018efb45ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:26 +0000
Subject: [PATCH 44/51] fix: a damaged file in which a symbol repeats an
 earlier one is refused

---
 dwave/optimization/_model.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dwave/optimization/_model.pyx b/dwave/optimization/_model.pyx
index 54945db..5a9008f 100644
--- a/dwave/optimization/_model.pyx
+++ b/dwave/optimization/_model.pyx
@@ -186,6 +186,10 @@ cdef class _Graph:
 
                     cls._from_zipfile(zf, directory, model, predecessors=predecessors)
 
+                    # the predecessors are found by position, so every line must add its node
+                    if model.num_nodes() != node_id + 1:
+                        raise ValueError("every encoded symbol must add exactly one node")
+
             if model.num_nodes() != num_nodes:
                 raise ValueError(f"expected {num_nodes} nodes, got {model.num_nodes()}")
 
-- 
2.43.0


From 58ec380f99d2d88cb37efca29d70524c9bf66a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:51 +0000
Subject: [PATCH 45/51] fix: states and constants from arrays that cannot be
 written to

---
 dwave/optimization/symbols.pyx | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index 282b496..f228654 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -873,10 +873,11 @@ cdef class Constant(ArraySymbol):
         cdef vector[Py_ssize_t] strides = array.strides  # not used because contiguous for now
 
         # Get a pointer to the first element
-        cdef double[:] flat = array.ravel()
+        # The node only reads the values, so it's fine if the array is not writeable
+        cdef const double[:] flat = array.ravel()
         cdef double* start = NULL
         if flat.size:
-            start = &flat[0]
+            start = <double*>(&flat[0])
 
         # Get an observing pointer to the C++ ConstantNode
         self.ptr = model._graph.emplace_node[cppConstantNode](start, shape)
@@ -1160,7 +1161,7 @@ cdef class DisjointBitSets(Symbol):
         # Convert the state into something we can handle in C++.
         # This also does some type checking etc
         # We go ahead and do the translation to integer now
-        cdef bool[:, :] arr = np.asarray(state, dtype=np.bool_)
+        cdef const bool[:, :] arr = np.asarray(state, dtype=np.bool_)
 
         # Convert to a vector. We could skip this copy if it ever becomes
         # a performance bottleneck
@@ -1423,7 +1424,7 @@ cdef class DisjointLists(Symbol):
         cdef vector[vector[double]] items
         items.resize(len(state))
         cdef Py_ssize_t i, j
-        cdef Py_ssize_t[:] arr
+        cdef const Py_ssize_t[:] arr
         for i in range(len(state)):
             items[i].reserve(len(state[i]))
             # Convert to a numpy array for type checking, coercion, etc.
@@ -1849,7 +1850,7 @@ cdef class ListVariable(ArraySymbol):
         # Convert the state into something we can handle in C++.
         # This also does some type checking etc
         # We go ahead and do the translation to integer now
-        cdef Py_ssize_t[:] arr = np.asarray(state, dtype=np.intp)
+        cdef const Py_ssize_t[:] arr = np.asarray(state, dtype=np.intp)
 
         # Reset our state, and check whether that's possible
         self.reset_state(index)
@@ -2930,7 +2931,7 @@ cdef class SetVariable(ArraySymbol):
         # Convert the state into something we can handle in C++.
         # This also does some type checking etc
         # We go ahead and do the translation to integer now
-        cdef Py_ssize_t[:] arr = np.asarray(state, dtype=np.intp)
+        cdef const Py_ssize_t[:] arr = np.asarray(state, dtype=np.intp)
 
         # Reset our state, and check whether that's possible
         self.reset_state(index)
-- 
2.43.0


From 081639200f288ba6017777ab93a3828f127abcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:41 +0000
Subject: [PATCH 46/51] fix: a quadratic model from coordinates with too few
 rows or too large indices read and wrote out of bounds

---
 dwave/optimization/symbols.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index f228654..789e249 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -2632,8 +2632,10 @@ cdef class QuadraticModel(ArraySymbol):
             raise ValueError("expected a length 2 tuple")
 
         cdef const double[::1] data = np.ascontiguousarray(quadratic[0], dtype=np.double)
-        cdef const int[:, ::1] coords = np.ascontiguousarray(np.atleast_2d(quadratic[1]), dtype=np.intc)
+        cdef const Py_ssize_t[:, ::1] coords = np.ascontiguousarray(np.atleast_2d(quadratic[1]), dtype=np.intp)
 
+        if coords.shape[0] != 2:
+            raise ValueError("expected coords to contain a row and a column array")
         if data.shape[0] != coords.shape[1]:
             # SciPy's error message
             raise ValueError("row, column, and data array must all be the same length")
@@ -2696,7 +2698,7 @@ cdef class QuadraticModel(ArraySymbol):
         # Now parse the quadratic
         # names are chosen to be consistent with scipy.sparse.coo_array
         cdef double[::1] data = np.empty(len(quadratic), dtype=np.double)
-        cdef int[:,::1] coords = np.empty((2, len(quadratic)), dtype=np.intc)
+        cdef Py_ssize_t[:,::1] coords = np.empty((2, len(quadratic)), dtype=np.intp)
 
         cdef Py_ssize_t i = 0
         cdef Py_ssize_t u
-- 
2.43.0


From 6a17e767a71f7abdefd01f8a2771ccf16d363df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:56 +0000
Subject: [PATCH 47/51] fix: resetting the states of successors visits each of
 them once

---
 dwave/optimization/src/graph.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dwave/optimization/src/graph.cpp b/dwave/optimization/src/graph.cpp
index 9084ad9..916902f 100644
--- a/dwave/optimization/src/graph.cpp
+++ b/dwave/optimization/src/graph.cpp
@@ -146,6 +146,11 @@ void Graph::recursive_reset(State& state, const Node* ptr) {
         return;
     }
 
+    // A node is only ever initialized after its predecessors, so if we're not set
+    // then neither are our successors. This also means that we're not visited
+    // more than once, no matter how many paths lead to us.
+    if (!state[index]) return;
+
     // Otherwise, reset our own state and then all of our successors
     state[index].reset();
 
-- 
2.43.0


From 1ed22d572cd73be34d08bd4b8a5b3e1f10ec0709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:57 +0000
Subject: [PATCH 48/51] fix: deduplicating changes that cancel out reads before
 the first one

---
 dwave/optimization/src/utils.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dwave/optimization/src/utils.cpp b/dwave/optimization/src/utils.cpp
index e2ff43d..820e53e 100644
--- a/dwave/optimization/src/utils.cpp
+++ b/dwave/optimization/src/utils.cpp
@@ -50,10 +50,9 @@ void deduplicate_diff(std::vector<Update>& diff) {
             } else if (diff[new_index].null()) {
                 // We have finished processing the update at that index, but both the
                 // old and new value are NaN which means it was added and then deleted,
-                // and should be discarded.
+                // and should be discarded (below).
                 // At this point we are done because all updates at following indices
                 // should also have been added and deleted.
-                new_index--;
                 break;
             } else if (!diff[i].identity()) {
                 // Move to the next update only if the final state of the update is not a noop
@@ -62,7 +61,7 @@ void deduplicate_diff(std::vector<Update>& diff) {
             }
         }
 
-        // In case the very last value is a place and removal, discard it
+        // In case the last value is a place and removal, discard it
         if (diff[new_index].null()) {
             new_index--;
         }
-- 
2.43.0


From e409ab2e9a40d8ed2524817237ab4dabd23bda4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:17 +0000
Subject: [PATCH 49/51] fix: a state-dependent dimension can only be broadcast
 as the first one

---
 dwave/optimization/src/array.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dwave/optimization/src/array.cpp b/dwave/optimization/src/array.cpp
index 7a1ee2b..ad48824 100644
--- a/dwave/optimization/src/array.cpp
+++ b/dwave/optimization/src/array.cpp
@@ -235,6 +235,14 @@ std::vector<ssize_t> broadcast_shape(const std::span<const ssize_t> lhs,
     }
     assert(sit == shape.rend());
 
+    // Only the first dimension can be state-dependent
+    for (std::size_t i = 1; i < shape.size(); ++i) {
+        if (shape[i] < 0) {
+            throw std::invalid_argument("operands could not be broadcast together with shapes " +
+                                        shape_to_string(lhs) + " " + shape_to_string(rhs));
+        }
+    }
+
     return shape;
 }
 std::vector<ssize_t> broadcast_shape(std::initializer_list<ssize_t> lhs,
-- 
2.43.0


From 7541442071e35414b6a92610d2eceac5220ecb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:07 +0000
Subject: [PATCH 50/51] fix: count the elements of arrays with more than 2^31
 elements

The product of a shape was accumulated in an int, so that the size of such
arrays was wrong (and could be negative, i.e. dynamic). Shapes whose number of
bytes cannot be represented are now refused.
---
 .../include/dwave-optimization/array.hpp         | 16 ++++++++++++++--
 dwave/optimization/src/nodes/indexing.cpp        |  2 +-
 dwave/optimization/src/nodes/manipulation.cpp    |  2 +-
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/dwave/optimization/include/dwave-optimization/array.hpp b/dwave/optimization/include/dwave-optimization/array.hpp
index 45c6ea0..6997c0b 100644
--- a/dwave/optimization/include/dwave-optimization/array.hpp
+++ b/dwave/optimization/include/dwave-optimization/array.hpp
@@ -24,6 +24,7 @@
 #include <numeric>
 #include <optional>
 #include <span>
+#include <stdexcept>
 #include <string>
 #include <utility>
 #include <vector>
@@ -841,10 +842,21 @@ class Array {
     // Determine the size by the shape. For a node with a fixed size, it is simply
     // the product of the shape.
     // Expects the shape to be stored in a C-style array of length ndim.
-    static ssize_t shape_to_size(const ssize_t ndim, const ssize_t* shape) noexcept {
+    // Throws if the number of bytes in such an array cannot be represented.
+    static ssize_t shape_to_size(const ssize_t ndim, const ssize_t* shape) {
         if (ndim <= 0) return 1;
         if (shape[0] < 0) return DYNAMIC_SIZE;
-        return std::reduce(shape, shape + ndim, 1, std::multiplies<ssize_t>());
+
+        constexpr ssize_t max_size = std::numeric_limits<ssize_t>::max() / sizeof(double);
+
+        ssize_t size = 1;
+        for (const ssize_t dim : std::span(shape, ndim)) {
+            if (dim > 0 && size > max_size / dim) {
+                throw std::invalid_argument("array is too big");
+            }
+            size *= dim;
+        }
+        return size;
     }
 
     // Determine the strides from the shape.
diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 699c2a9..a95403d 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -1519,7 +1519,7 @@ SizeInfo BasicIndexingNode::sizeinfo() const {
     // Here we may be strided, so we use the shape to figure it out.
     auto shape = this->shape();
     const ssize_t num_per_row =
-            std::reduce(shape.begin() + 1, shape.end(), 1, std::multiplies<ssize_t>());
+            std::reduce(shape.begin() + 1, shape.end(), ssize_t(1), std::multiplies<ssize_t>());
 
     if (!num_per_row) return SizeInfo(0);  // the rows are empty
 
diff --git a/dwave/optimization/src/nodes/manipulation.cpp b/dwave/optimization/src/nodes/manipulation.cpp
index dfb03a0..9efe802 100644
--- a/dwave/optimization/src/nodes/manipulation.cpp
+++ b/dwave/optimization/src/nodes/manipulation.cpp
@@ -36,7 +36,7 @@ ConcatenateNode::ConcatenateNode(std::span<ArrayNode*> array_ptrs, const ssize_t
     array_starts_.emplace_back(0);
     for (ssize_t arr_i = 1, stop = array_ptrs.size(); arr_i < stop; ++arr_i) {
         auto subshape = array_ptrs_[arr_i - 1]->shape().last(this->ndim() - axis_);
-        ssize_t prod = std::accumulate(subshape.begin(), subshape.end(), 1, std::multiplies<ssize_t>());
+        ssize_t prod = std::accumulate(subshape.begin(), subshape.end(), ssize_t(1), std::multiplies<ssize_t>());
         array_starts_.emplace_back(prod + array_starts_[arr_i - 1]);
     }
 
-- 
2.43.0


From bfac439de278c373bca4159ac264b3fbdc4f21ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:23 +0000
Subject: [PATCH 51/51] fix: refuse states of disjoint bit sets and integers
 that a conversion would alter

Values of disjoint bit sets other than 0 and 1 were converted to booleans before
being checked, and unsigned integers of 2^63 and more wrapped to negative ones.
---
 dwave/optimization/symbols.pyx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index 789e249..f3db643 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -1161,7 +1161,7 @@ cdef class DisjointBitSets(Symbol):
         # Convert the state into something we can handle in C++.
         # This also does some type checking etc
         # We go ahead and do the translation to integer now
-        cdef const bool[:, :] arr = np.asarray(state, dtype=np.bool_)
+        cdef const Py_ssize_t[:, :] arr = np.asarray(state, dtype=np.intp)
 
         # Convert to a vector. We could skip this copy if it ever becomes
         # a performance bottleneck
@@ -1722,6 +1722,11 @@ cdef class IntegerVariable(ArraySymbol):
 
         The given state must be integer array of the integer node shape.
         """
+        # NumPy wraps unsigned integers that are too large for a signed integer
+        array = np.asarray(state)
+        if array.dtype.kind == "u" and np.any(array > np.iinfo(np.intp).max):
+            raise ValueError("values in array not in the range of the integer symbol")
+
         # Convert the state into something we can handle in C++.
         # This also does some type checking etc
         # We go ahead and do the translation to integer now
-- 
2.43.0

