From 3aa4f69df0faae7cae7d8255b6095346ba38ea95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:59:13 +0000
Subject: [PATCH 1/8] fix: count evicted float matrices in the prepacked cache
 at their allocated size

Evicting a float entry subtracted a sums buffer that is never allocated for
floats, so the recorded size drifted below the real one and the cache could
grow beyond its limit.
---
 ruy/prepacked_cache.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/ruy/prepacked_cache.cc b/ruy/prepacked_cache.cc
index 5080ca9..c4fd7fd 100644
--- a/ruy/prepacked_cache.cc
+++ b/ruy/prepacked_cache.cc
@@ -23,16 +23,21 @@ namespace ruy {
 
 namespace {
 
+// Returns the size of the `sums` buffer of a cached packed matrix. Only integer
+// quantized matrices have one.
+std::ptrdiff_t SumsBufferBytes(const PEMat& packed_matrix) {
+  return packed_matrix.sums_type.is_floating_point ? 0
+                                                   : SumsBytes(packed_matrix);
+}
+
 // Allocates the `data` and `sums` buffers, and sets the corresponding
 // pointer fields, in a PEMat whose other fields, particularly `layout`
 // and the runtime data types, are already populated.
 std::ptrdiff_t AllocateBuffers(PEMat* packed_matrix) {
   const std::ptrdiff_t data_bytes = DataBytes(*packed_matrix);
   packed_matrix->data = detail::SystemAlignedAlloc(data_bytes);
-  std::ptrdiff_t sums_bytes = 0;
+  const std::ptrdiff_t sums_bytes = SumsBufferBytes(*packed_matrix);
   if (!packed_matrix->sums_type.is_floating_point) {
-    // Integer quantized matrices also need the `sums` buffer.
-    sums_bytes = SumsBytes(*packed_matrix);
     packed_matrix->sums = detail::SystemAlignedAlloc(sums_bytes);
   }
   return data_bytes + sums_bytes;
@@ -121,7 +126,7 @@ void PrepackedCache::EjectOne() {
     }
   }
   const PEMat& packed_matrix = oldest->second.packed_matrix;
-  buffers_bytes_ -= DataBytes(packed_matrix) + SumsBytes(packed_matrix);
+  buffers_bytes_ -= DataBytes(packed_matrix) + SumsBufferBytes(packed_matrix);
   FreeBuffers(packed_matrix);
   cache_.erase(oldest);
 }
-- 
2.43.0


From 7e40278d4f815382c29426b8b9edf3e6ecc89e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:59:46 +0000
Subject: [PATCH 2/8] fix: do not evict a packed operand that the same
 multiplication still uses

Preparing the second operand could evict the first one's entry to make room,
freeing the buffer the kernel was about to read.
---
 ruy/prepacked_cache.cc         | 34 ++++++++++++++++++++--------------
 ruy/prepacked_cache.h          | 13 ++++++++++---
 ruy/prepare_packed_matrices.cc |  8 +++++++-
 3 files changed, 37 insertions(+), 18 deletions(-)

diff --git a/ruy/prepacked_cache.cc b/ruy/prepacked_cache.cc
index c4fd7fd..22530ff 100644
--- a/ruy/prepacked_cache.cc
+++ b/ruy/prepacked_cache.cc
@@ -82,7 +82,8 @@ PrepackedCache::~PrepackedCache() {
 }
 
 PrepackedCache::Action PrepackedCache::Get(const void* src_data,
-                                           PEMat* packed_matrix) {
+                                           PEMat* packed_matrix,
+                                           const void* in_use_data) {
   // Construct a Key and look up the cache.
   Key key;
   key.src_data = src_data;
@@ -99,36 +100,41 @@ PrepackedCache::Action PrepackedCache::Get(const void* src_data,
 
   // No existing entry found. Allocate new buffers now and insert in the cache.
   const std::ptrdiff_t new_bytes = AllocateBuffers(packed_matrix);
-  EjectUntilRoomFor(new_bytes);
+  EjectUntilRoomFor(new_bytes, in_use_data);
   Entry entry{*packed_matrix, timestamp_++};
   cache_.emplace(key, entry);
   buffers_bytes_ += new_bytes;
   return Action::kInsertedNewEntry;
 }
 
-void PrepackedCache::EjectUntilRoomFor(std::ptrdiff_t new_bytes) {
+void PrepackedCache::EjectUntilRoomFor(std::ptrdiff_t new_bytes,
+                                       const void* in_use_data) {
   profiler::ScopeLabel label("PrepackedCacheEjection");
   // While we are above the threshold of ejection, eject the LRU entry.
-  while (!cache_.empty() && buffers_bytes_ + new_bytes > max_buffers_bytes_) {
-    EjectOne();
+  while (buffers_bytes_ + new_bytes > max_buffers_bytes_ &&
+         EjectOne(in_use_data)) {
   }
 }
 
-void PrepackedCache::EjectOne() {
-  auto oldest = cache_.begin();
-  Timestamp oldest_timestamp = oldest->second.timestamp;
-  {
-    for (auto itr = cache_.begin(); itr != cache_.end(); ++itr) {
-      if (itr->second.timestamp < oldest_timestamp) {
-        oldest = itr;
-        oldest_timestamp = itr->second.timestamp;
-      }
+bool PrepackedCache::EjectOne(const void* in_use_data) {
+  auto oldest = cache_.end();
+  for (auto itr = cache_.begin(); itr != cache_.end(); ++itr) {
+    if (itr->second.packed_matrix.data == in_use_data) {
+      continue;
     }
+    if (oldest == cache_.end() ||
+        itr->second.timestamp < oldest->second.timestamp) {
+      oldest = itr;
+    }
+  }
+  if (oldest == cache_.end()) {
+    return false;
   }
   const PEMat& packed_matrix = oldest->second.packed_matrix;
   buffers_bytes_ -= DataBytes(packed_matrix) + SumsBufferBytes(packed_matrix);
   FreeBuffers(packed_matrix);
   cache_.erase(oldest);
+  return true;
 }
 
 }  // namespace ruy
diff --git a/ruy/prepacked_cache.h b/ruy/prepacked_cache.h
index c58593e..4c66e5f 100644
--- a/ruy/prepacked_cache.h
+++ b/ruy/prepacked_cache.h
@@ -124,11 +124,18 @@ class PrepackedCache final {
   //    entry.
   // 5. The return value is Action::kInsertedNewEntry if at step 2 a new
   //    entry was created. Otherwise it is Action::kGotExistingEntry.
-  Action Get(const void* src_data, PEMat* packed_matrix);
+  //
+  // `in_use_data`, if not null, is the `data` pointer of a packed matrix
+  // obtained from an earlier call and still in use. It is not ejected to make
+  // room for the new entry, even if that means exceeding the threshold.
+  Action Get(const void* src_data, PEMat* packed_matrix,
+             const void* in_use_data = nullptr);
 
  private:
-  void EjectOne();
-  void EjectUntilRoomFor(std::ptrdiff_t new_bytes);
+  // Ejects the least recently used entry other than the one holding
+  // `in_use_data`. Returns false if there is no such entry.
+  bool EjectOne(const void* in_use_data);
+  void EjectUntilRoomFor(std::ptrdiff_t new_bytes, const void* in_use_data);
 
   std::unordered_map<Key, Entry, KeyHash> cache_;
   const std::ptrdiff_t max_buffers_bytes_;
diff --git a/ruy/prepare_packed_matrices.cc b/ruy/prepare_packed_matrices.cc
index 095b5e0..47ee064 100644
--- a/ruy/prepare_packed_matrices.cc
+++ b/ruy/prepare_packed_matrices.cc
@@ -74,7 +74,13 @@ void PreparePackedMatrices(Ctx* ctx, TrMulParams* params) {
     if (ShouldCache(*params, side)) {
       // Use a cached packed matrix (possibly packing and caching now).
       auto* cache = ctx->GetPrepackedCache();
-      auto action = cache->Get(params->src[side].data, &packed_matrix);
+      // If the other side was already obtained from the cache, keep it there.
+      const Side other_side = OtherSide(side);
+      const void* in_use_data = params->is_prepacked[other_side]
+                                    ? params->packed_matrix[other_side].data
+                                    : nullptr;
+      auto action =
+          cache->Get(params->src[side].data, &packed_matrix, in_use_data);
       RUY_TRACE_INFO(PREPARE_PACKED_MATRICES_SHOULD_CACHE);
       if (action == PrepackedCache::Action::kInsertedNewEntry) {
         params->RunPack(side, ctx->GetMainThreadTuning(), 0,
-- 
2.43.0


From 7bd17d55d336ac472cd68c2a22c04c86c8e4acab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:00:32 +0000
Subject: [PATCH 3/8] fix: distinguish source layout and type in the prepacked
 cache key

A matrix cached under one layout was returned for the same data used with
another layout, for example both operands of A*A in row-major order, giving a
wrong product.
---
 ruy/mat.h                      |  5 ++++
 ruy/prepacked_cache.cc         |  6 +++--
 ruy/prepacked_cache.h          | 42 ++++++++++++++++++++--------------
 ruy/prepare_packed_matrices.cc |  3 +--
 4 files changed, 35 insertions(+), 21 deletions(-)

diff --git a/ruy/mat.h b/ruy/mat.h
index bf02c66..13d8216 100644
--- a/ruy/mat.h
+++ b/ruy/mat.h
@@ -111,6 +111,11 @@ struct MatLayout final {
   Order order = Order::kColMajor;
 };
 
+inline bool operator==(const MatLayout& a, const MatLayout& b) {
+  return a.rows == b.rows && a.cols == b.cols && a.stride == b.stride &&
+         a.order == b.order;
+}
+
 inline MatLayout ToInternal(const Layout& src) {
   MatLayout ret;
   ret.rows = src.rows();
diff --git a/ruy/prepacked_cache.cc b/ruy/prepacked_cache.cc
index 22530ff..f7bf737 100644
--- a/ruy/prepacked_cache.cc
+++ b/ruy/prepacked_cache.cc
@@ -81,12 +81,14 @@ PrepackedCache::~PrepackedCache() {
   }
 }
 
-PrepackedCache::Action PrepackedCache::Get(const void* src_data,
+PrepackedCache::Action PrepackedCache::Get(const EMat& src,
                                            PEMat* packed_matrix,
                                            const void* in_use_data) {
   // Construct a Key and look up the cache.
   Key key;
-  key.src_data = src_data;
+  key.src_data = src.data;
+  key.src_layout = src.layout;
+  key.src_data_type = src.data_type;
   key.packed_layout = packed_matrix->layout;
   key.zero_point = packed_matrix->zero_point;
   const auto& itr = cache_.find(key);
diff --git a/ruy/prepacked_cache.h b/ruy/prepacked_cache.h
index 4c66e5f..5f296d8 100644
--- a/ruy/prepacked_cache.h
+++ b/ruy/prepacked_cache.h
@@ -50,24 +50,24 @@ class PrepackedCache final {
   //
   // These keys need to be used before the packed matrix buffers are allocated
   // (since they are used to determine whether to allocate a new buffer).
-  // So they instead use the source matrix's data pointer. On the other hand,
-  // the packed matrix's layout structure is already available by the time we
-  // need to handle Keys, and that's fortunate because it is more specific
-  // than the source matrix's layout: it also encodes details about the kernel's
-  // small-scale block layout. In the past, we made the kernel function pointer
-  // part of the cache key, but all that is relevant here is the packed layout.
+  // So they instead use the source matrix's data pointer, layout and data type,
+  // which determine the values to be packed. The packed matrix's layout
+  // structure is already available by the time we need to handle Keys, and
+  // encodes details about the kernel's small-scale block layout. In the past,
+  // we made the kernel function pointer part of the cache key, but all that is
+  // relevant here is the packed layout.
   //
   // The only other field that needs to be involved is the zero_point, for
   // quantized matrices, although it seems far-fetched that the same matrix
   // data would be reused with different zero_point values.
-  //
-  // The data types (PEMat::data_type and PEMat::sums_type) are omitted based on
-  // the "strict aliasing" model: each memory location should contain data of
-  // only one type. This could be relaxed in the future, by adding data types
-  // to this Key type, if a use case arises.
   struct Key {
     // The source matrix's data pointer.
     const void* src_data;
+    // The source matrix's layout. The same data may be used with different
+    // layouts, e.g. when multiplying a matrix by its transpose.
+    MatLayout src_layout;
+    // The source matrix's data type.
+    Type src_data_type;
     // The packed matrix's layout, see PEMat::layout.
     PMatLayout packed_layout;
     // The packed matrix's zero point (for integer-quantized matrices only).
@@ -75,8 +75,9 @@ class PrepackedCache final {
   };
 
   friend bool operator==(const Key& a, const Key& b) {
-    return a.src_data == b.src_data && a.packed_layout == b.packed_layout &&
-           a.zero_point == b.zero_point;
+    return a.src_data == b.src_data && a.src_layout == b.src_layout &&
+           a.src_data_type == b.src_data_type &&
+           a.packed_layout == b.packed_layout && a.zero_point == b.zero_point;
   }
 
   struct KeyHash {
@@ -108,14 +109,14 @@ class PrepackedCache final {
 
   // This is the method by which new matrices are cached, and existing cache
   // entries are queried.
-  // `src_data` is the source matrix data pointer.
+  // `src` is the source matrix.
   // `packed_matrix` is a packed matrix structure where all fields have already
   // been populated, except for the `data` and `sums` pointers which have not
   // yet been allocated.
   //
   // This method:
-  // 1. Queries the cache for an entry matching the given `src_data` pointer and
-  //    the relevant fields of `packed_matrix`, particularly its `layout`.
+  // 1. Queries the cache for an entry matching the given `src` matrix and the
+  //    relevant fields of `packed_matrix`, particularly its `layout`.
   // 2. If a matching cache entry does not exist, it is created and inserted
   //    into the cache, and its `data` and `sums` buffers are allocated.
   // 3. The `packed_matrix` has its `data` and `sums` pointers set to point
@@ -128,9 +129,16 @@ class PrepackedCache final {
   // `in_use_data`, if not null, is the `data` pointer of a packed matrix
   // obtained from an earlier call and still in use. It is not ejected to make
   // room for the new entry, even if that means exceeding the threshold.
-  Action Get(const void* src_data, PEMat* packed_matrix,
+  Action Get(const EMat& src, PEMat* packed_matrix,
              const void* in_use_data = nullptr);
 
+  // Convenience overload identifying the source matrix by its data alone.
+  Action Get(const void* src_data, PEMat* packed_matrix) {
+    EMat src;
+    src.data = const_cast<void*>(src_data);
+    return Get(src, packed_matrix);
+  }
+
  private:
   // Ejects the least recently used entry other than the one holding
   // `in_use_data`. Returns false if there is no such entry.
diff --git a/ruy/prepare_packed_matrices.cc b/ruy/prepare_packed_matrices.cc
index 47ee064..85bea6b 100644
--- a/ruy/prepare_packed_matrices.cc
+++ b/ruy/prepare_packed_matrices.cc
@@ -79,8 +79,7 @@ void PreparePackedMatrices(Ctx* ctx, TrMulParams* params) {
       const void* in_use_data = params->is_prepacked[other_side]
                                     ? params->packed_matrix[other_side].data
                                     : nullptr;
-      auto action =
-          cache->Get(params->src[side].data, &packed_matrix, in_use_data);
+      auto action = cache->Get(params->src[side], &packed_matrix, in_use_data);
       RUY_TRACE_INFO(PREPARE_PACKED_MATRICES_SHOULD_CACHE);
       if (action == PrepackedCache::Action::kInsertedNewEntry) {
         params->RunPack(side, ctx->GetMainThreadTuning(), 0,
-- 
2.43.0


From d474ce46e0027e04b696493bff95e1832fc9dbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:31:22 +0000
Subject: [PATCH 4/8] fix: forget the size of the allocator's buffer when
 reallocating it fails

---
 ruy/allocator.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ruy/allocator.cc b/ruy/allocator.cc
index a8699b8..4ae4ef1 100644
--- a/ruy/allocator.cc
+++ b/ruy/allocator.cc
@@ -125,7 +125,8 @@ void Allocator::FreeAll() {
   // of iterations.
   std::ptrdiff_t new_size = size_ + fallback_blocks_total_size_;
   ptr_ = detail::SystemAlignedAlloc(new_size);
-  size_ = new_size;
+  // On failure, there is no buffer: all allocations use fallback blocks.
+  size_ = ptr_ ? new_size : 0;
 
   fallback_blocks_.clear();
   fallback_blocks_total_size_ = 0;
-- 
2.43.0


From d65d8330e57647106283e95de5fbb5444560e2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:08:49 +0000
Subject: [PATCH 5/8] fix: keep the fallback path enabled when RUY_PATHS is set

SetRuntimeEnabledPaths always adds the non-architecture paths to the set it is
given. The environment variable did not, so that a value such as 80 left no
path both compiled in and enabled, and the path to take was computed as the
most significant bit of zero.
---
 ruy/ctx.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ruy/ctx.cc b/ruy/ctx.cc
index 5d6afd4..1349b18 100644
--- a/ruy/ctx.cc
+++ b/ruy/ctx.cc
@@ -162,7 +162,8 @@ Path Ctx::GetRuntimeEnabledPaths() {
   // User may have set path explicitly in env var.
   Path paths_bitfield = static_cast<Path>(GetHexIntEnvVarOrZero("RUY_PATHS"));
   if (paths_bitfield != Path::kNone) {
-    *paths = paths_bitfield;
+    // As in SetRuntimeEnabledPaths, the fallback must always be available.
+    *paths = paths_bitfield | kNonArchPaths;
     RUY_TRACE_INFO(GET_RUNTIME_ENABLED_PATHS_USING_ENV_VAR);
     return *paths;
   }
-- 
2.43.0


From 25ac5089b1c828996e04088f55e2240ccc747b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:35:18 +0000
Subject: [PATCH 6/8] fix: do not report a reallocated per-channel buffer when
 there is none

The advisory was set whenever the declared capacity was below the padded number
of channels, also in multiplications without a bias or per-channel multipliers,
where nothing is copied.
---
 ruy/create_trmul_params.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ruy/create_trmul_params.h b/ruy/create_trmul_params.h
index 531e066..4205b05 100644
--- a/ruy/create_trmul_params.h
+++ b/ruy/create_trmul_params.h
@@ -366,6 +366,11 @@ void EnsurePerChannelBuffersLargeEnough(
   if (required_capacity <= user_capacity) {
     return;
   }
+  if (!mul_params->bias() && !mul_params->multiplier_fixedpoint_perchannel() &&
+      !mul_params->multiplier_exponent_perchannel()) {
+    // There is no per-channel buffer to reallocate.
+    return;
+  }
   ctx->set_performance_advisory(
       PerformanceAdvisory::kReallocatedPerChannelBuffer);
   EnsurePerChannelBuffersLargeEnoughImpl<AccumScalar, DstScalar>::Run(
-- 
2.43.0


From 353a011348268c389878fe22a8d5dbea9d66056c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:31:31 +0000
Subject: [PATCH 7/8] fix: keep the length of the profiler's samples in a
 size_t

The offset at which a sample is appended was an int. Once the samples
exceed 2 GB it turned negative and the next resize threw or the copy went
in front of the buffer.
---
 ruy/profiler/profiler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruy/profiler/profiler.cc b/ruy/profiler/profiler.cc
index ae3a2e2..0008b73 100644
--- a/ruy/profiler/profiler.cc
+++ b/ruy/profiler/profiler.cc
@@ -79,7 +79,7 @@ void ScopeProfile::Sample(const detail::ThreadStack& thread_stack) {
     return;
   }
   int sample_size = detail::GetBufferSize(thread_stack.stack());
-  int old_buf_size = samples_buf_.size();
+  std::size_t old_buf_size = samples_buf_.size();
   samples_buf_.resize(old_buf_size + sample_size);
   detail::CopyToBuffer(thread_stack.stack(),
                        samples_buf_.data() + old_buf_size);
-- 
2.43.0


From 738a87aeb4bacc09892b9b862e1c38d7f2da46d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:31:31 +0000
Subject: [PATCH 8/8] fix: reject profiler labels with more arguments than they
 can hold

A label has room for kMaxArgs arguments. Setting more wrote past the end
of the label. Such a call now fails to compile.
---
 ruy/profiler/instrumentation.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ruy/profiler/instrumentation.h b/ruy/profiler/instrumentation.h
index cb09f88..031f4ed 100644
--- a/ruy/profiler/instrumentation.h
+++ b/ruy/profiler/instrumentation.h
@@ -46,6 +46,7 @@ class Label {
   }
   template <typename... Args>
   void Set(const char* format, Args... args) {
+    static_assert(sizeof...(args) <= kMaxArgs, "too many label arguments");
     format_ = format;
     args_count_ = sizeof...(args);
     SetArgs(0, args...);
-- 
2.43.0

