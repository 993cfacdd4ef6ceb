C='ruy/prepacked_cache.cc'
H='ruy/prepacked_cache.h'
P='ruy/prepare_packed_matrices.cc'
A=['K01','K02','K03','K04','K05']
MUT=[
('eq-zp','bug',['K01'],H,' && a.zero_point == b.zero_point;',';'),
('eq-or','bug',['K01'],H,'a.packed_layout == b.packed_layout && a.zero_point == b.zero_point','(a.packed_layout == b.packed_layout || a.zero_point == b.zero_point)'),
('eq-layout','bug',['K01'],H,'a.src_layout == b.src_layout &&','a.src_layout.rows == b.src_layout.rows && a.src_layout.cols == b.src_layout.cols && a.src_layout.stride == b.src_layout.stride &&'),
('eq-type','bug',['K01'],H,'a.src_data_type == b.src_data_type &&','a.src_data_type.size == b.src_data_type.size &&'),
('eq-kernel','bug',['K01'],'ruy/mat.h','a.kernel.cols == b.kernel.cols && a.kernel.order == b.kernel.order','a.kernel.order == b.kernel.order'),
('key-zp','bug',['K01'],C,'key.zero_point = packed_matrix->zero_point;','key.zero_point = 0;'),
('key-layout','bug',['K01'],C,'  key.src_layout = src.layout;','  key.src_layout = MatLayout();'),
('key-data','bug',['K01'],C,'key.src_data = src.data;','key.src_data = packed_matrix->data;'),
('key-changed','bug',['K01'],C,'  cache_.emplace(key, entry);','''  key.zero_point = packed_matrix->layout.cols;
  cache_.emplace(key, entry);'''),
('hit-partial','bug',['K01'],C,'*packed_matrix = itr->second.packed_matrix;','packed_matrix->data = itr->second.packed_matrix.data;'),
('store-early','bug',['K01'],C,'''  const std::ptrdiff_t new_bytes = AllocateBuffers(packed_matrix);
  EjectUntilRoomFor(new_bytes, in_use_data);
  Entry entry{*packed_matrix, timestamp_++};''','''  Entry entry{*packed_matrix, timestamp_++};
  const std::ptrdiff_t new_bytes = AllocateBuffers(packed_matrix);
  EjectUntilRoomFor(new_bytes, in_use_data);'''),
('sub-data','bug',['K02'],C,'buffers_bytes_ -= DataBytes(packed_matrix) + SumsBufferBytes(packed_matrix);','buffers_bytes_ -= DataBytes(packed_matrix);'),
('sub-sums','bug',['K02'],C,'buffers_bytes_ -= DataBytes(packed_matrix) + SumsBufferBytes(packed_matrix);','buffers_bytes_ -= DataBytes(packed_matrix) + SumsBytes(packed_matrix);'),
('add-none','bug',['K02'],C,'  buffers_bytes_ += new_bytes;','  if (new_bytes < max_buffers_bytes_) buffers_bytes_ += new_bytes;'),
('add-dataonly','bug',['K02'],C,'  return data_bytes + sums_bytes;','  return data_bytes;'),
('free-sums','bug',['K02'],C,'''  detail::SystemAlignedFree(packed_matrix.data);
  detail::SystemAlignedFree(packed_matrix.sums);''','''  detail::SystemAlignedFree(packed_matrix.data);'''),
('erase-first','bug',['K02'],C,'''  FreeBuffers(packed_matrix);
  cache_.erase(oldest);''','''  cache_.erase(oldest);
  FreeBuffers(packed_matrix);'''),
('noerase','bug',['K02'],C,'''  cache_.erase(oldest);
''','''  if (cache_.size() > 1) cache_.erase(oldest);
'''),
('limit-new','bug',['K02'],C,'while (buffers_bytes_ + new_bytes > max_buffers_bytes_ &&','while (buffers_bytes_ > max_buffers_bytes_ &&'),
('limit-once','bug',['K02'],C,'''  while (buffers_bytes_ + new_bytes > max_buffers_bytes_ &&
         EjectOne(in_use_data)) {
  }''','''  if (buffers_bytes_ + new_bytes > max_buffers_bytes_) {
    EjectOne(in_use_data);
  }'''),
('dtor-sums','bug',['K02'],C,'''    FreeBuffers(pair.second.packed_matrix);
  }
}''','''    if (pair.second.timestamp) FreeBuffers(pair.second.packed_matrix);
  }
}'''),
('nocheck','bug',['K03'],C,'''    if (itr->second.packed_matrix.data == in_use_data) {
      continue;
    }
''',''),
('check-sums','bug',['K03'],C,'itr->second.packed_matrix.data == in_use_data','itr->second.packed_matrix.sums == in_use_data'),
('check-first','bug',['K03'],C,'''  auto oldest = cache_.end();
  for''','''  auto oldest = cache_.begin();
  for'''),
('null-inuse','bug',['K03'],C,'EjectUntilRoomFor(new_bytes, in_use_data);','EjectUntilRoomFor(new_bytes, new_bytes > max_buffers_bytes_ ? nullptr : in_use_data);'),
('this-side','bug',['K03'],P,'? params->packed_matrix[other_side].data','? params->packed_matrix[side].data'),
('flag-side','bug',['K03'],P,'params->is_prepacked[other_side]\n','params->is_prepacked[side]\n'),
('never','bug',['K04'],P,'''    case CachePolicy::kNeverCache:
      return false;''','''    case CachePolicy::kNeverCache:
      return other_width == 1;'''),
('wrongside-policy','bug',['K04'],P,'params.src[side].cache_policy','params.src[Side::kLhs].cache_policy'),
('pack-part','bug',['K04'],P,'''        params->RunPack(side, ctx->GetMainThreadTuning(), 0,
                        packed_matrix.layout.cols);''','''        params->RunPack(side, ctx->GetMainThreadTuning(), 0,
                        params->src[side].layout.cols);'''),
('pack-cond','bug',['K04'],P,'if (action == PrepackedCache::Action::kInsertedNewEntry) {','if (action == PrepackedCache::Action::kInsertedNewEntry && packed_matrix.layout.cols > 1) {'),
('flag-always','bug',['K04'],P,'''      params->is_prepacked[side] = true;
    } else {''','''    } else {''' ),
('flag-else','bug',['K04'],P,'''      RUY_CHECK(packed_matrix.sums != nullptr);
''','''      RUY_CHECK(packed_matrix.sums != nullptr);
      params->is_prepacked[side] = params->src[side].cache_policy == CachePolicy::kNeverCache && packed_matrix.layout.cols == 0;
'''),
('flag-other','bug',['K04'],P,'params->is_prepacked[side] = true;','params->is_prepacked[OtherSide(side)] = true;'),
('touch','bug',['K05'],C,'    itr->second.timestamp = timestamp_++;','    timestamp_++;'),
('notick','bug',['K05'],C,'    itr->second.timestamp = timestamp_++;','    itr->second.timestamp = timestamp_;'),
('newest','bug',['K05'],C,'itr->second.timestamp < oldest->second.timestamp','itr->second.timestamp > oldest->second.timestamp'),
('any','bug',['K05'],C,'''      oldest = itr;
    }''','''      oldest = itr;
      break;
    }'''),
('fresh0','bug',['K05'],C,'Entry entry{*packed_matrix, timestamp_++};','Entry entry{*packed_matrix, 0}; timestamp_++;'),
# refactorings
('ref-key-order','ref',A,C,'''  key.src_data = src.data;
  key.src_layout = src.layout;''','''  key.src_layout = src.layout;
  key.src_data = src.data;'''),
('ref-eq','ref',A,H,'''    return a.src_data == b.src_data && a.src_layout == b.src_layout &&
           a.src_data_type == b.src_data_type &&
           a.packed_layout == b.packed_layout && a.zero_point == b.zero_point;''','''    if (a.zero_point != b.zero_point || a.src_data != b.src_data) return false;
    bool same = a.src_layout == b.src_layout;
    same = same && a.src_data_type == b.src_data_type;
    return same && a.packed_layout == b.packed_layout;'''),
('ref-agg','ref',A,C,'''  Key key;
  key.src_data = src.data;
  key.src_layout = src.layout;
  key.src_data_type = src.data_type;
  key.packed_layout = packed_matrix->layout;
  key.zero_point = packed_matrix->zero_point;
''','''  const Key key{src.data, src.layout, src.data_type, packed_matrix->layout,
                packed_matrix->zero_point};
'''),
('ref-insert','ref',A,C,'''  Entry entry{*packed_matrix, timestamp_++};
  cache_.emplace(key, entry);
  buffers_bytes_ += new_bytes;''','''  buffers_bytes_ += new_bytes;
  Entry entry;
  entry.packed_matrix = *packed_matrix;
  entry.timestamp = timestamp_++;
  cache_.emplace(key, entry);'''),
('ref-hit','ref',A,C,'''  if (itr != cache_.end()) {
    // Found existing entry. Update its timestamp and return it.
    itr->second.timestamp = timestamp_++;
    *packed_matrix = itr->second.packed_matrix;
    return Action::kGotExistingEntry;
  }
''','''  if (itr != cache_.end()) {
    Entry& e = itr->second;
    *packed_matrix = e.packed_matrix;
    e.timestamp = timestamp_;
    ++timestamp_;
    return Action::kGotExistingEntry;
  }
'''),
('ref-evict','ref',A,C,'''  const PEMat& packed_matrix = oldest->second.packed_matrix;
  buffers_bytes_ -= DataBytes(packed_matrix) + SumsBufferBytes(packed_matrix);
  FreeBuffers(packed_matrix);
  cache_.erase(oldest);
  return true;''','''  const PEMat packed_matrix = oldest->second.packed_matrix;
  cache_.erase(oldest);
  FreeBuffers(packed_matrix);
  buffers_bytes_ -= DataBytes(packed_matrix);
  buffers_bytes_ -= SumsBufferBytes(packed_matrix);
  return true;'''),
('ref-evict2','ref',A,C,'''    if (itr->second.packed_matrix.data == in_use_data) {
      continue;
    }
    if (oldest == cache_.end() ||
        itr->second.timestamp < oldest->second.timestamp) {
      oldest = itr;
    }''','''    const bool in_use = in_use_data != nullptr && itr->second.packed_matrix.data == in_use_data;
    if (!in_use) {
      if (oldest == cache_.end()) {
        oldest = itr;
      } else if (oldest->second.timestamp > itr->second.timestamp) {
        oldest = itr;
      }
    }'''),
('ref-loop','ref',A,C,'''  while (buffers_bytes_ + new_bytes > max_buffers_bytes_ &&
         EjectOne(in_use_data)) {
  }''','''  for (;;) {
    if (buffers_bytes_ + new_bytes <= max_buffers_bytes_) break;
    if (!EjectOne(in_use_data)) break;
  }'''),
('ref-loop2','ref',A,C,'''  while (buffers_bytes_ + new_bytes > max_buffers_bytes_ &&
         EjectOne(in_use_data)) {
  }''','''  bool room = true;
  while (room && buffers_bytes_ > max_buffers_bytes_ - new_bytes) {
    room = EjectOne(in_use_data);
  }'''),
('ref-free','ref',A,C,'''  detail::SystemAlignedFree(packed_matrix.data);
  detail::SystemAlignedFree(packed_matrix.sums);''','''  if (packed_matrix.sums) {
    detail::SystemAlignedFree(packed_matrix.sums);
  }
  detail::SystemAlignedFree(packed_matrix.data);'''),
('ref-alloc','ref',A,C,'''  const std::ptrdiff_t data_bytes = DataBytes(*packed_matrix);
  packed_matrix->data = detail::SystemAlignedAlloc(data_bytes);
  const std::ptrdiff_t sums_bytes = SumsBufferBytes(*packed_matrix);
  if (!packed_matrix->sums_type.is_floating_point) {
    packed_matrix->sums = detail::SystemAlignedAlloc(sums_bytes);
  }
  return data_bytes + sums_bytes;''','''  std::ptrdiff_t total = DataBytes(*packed_matrix);
  packed_matrix->data = detail::SystemAlignedAlloc(total);
  if (!packed_matrix->sums_type.is_floating_point) {
    const std::ptrdiff_t sums_bytes = SumsBytes(*packed_matrix);
    packed_matrix->sums = detail::SystemAlignedAlloc(sums_bytes);
    total += sums_bytes;
  }
  return total;'''),
('ref-policy','ref',A,P,'''    if (ShouldCache(*params, side)) {''','''    const bool cacheable = params->src[side].cache_policy != CachePolicy::kNeverCache;
    if (cacheable && ShouldCache(*params, side)) {'''),
('ref-policy2','ref',A,P,'''  switch (cache_policy) {
    case CachePolicy::kNeverCache:
      return false;
    case CachePolicy::kAlwaysCache:
      return true;''','''  if (cache_policy == CachePolicy::kAlwaysCache) return true;
  switch (cache_policy) {
    case CachePolicy::kNeverCache:
      return false;'''),
('ref-inuse','ref',A,P,'''      const void* in_use_data = params->is_prepacked[other_side]
                                    ? params->packed_matrix[other_side].data
                                    : nullptr;''','''      const void* in_use_data = nullptr;
      if (params->is_prepacked[other_side]) {
        in_use_data = params->packed_matrix[other_side].data;
      }'''),
('ref-dtor','ref',A,C,'''  for (const auto& pair : cache_) {
    FreeBuffers(pair.second.packed_matrix);
  }
}''','''  for (auto itr = cache_.begin(); itr != cache_.end(); ++itr) {
    const PEMat& packed_matrix = itr->second.packed_matrix;
    FreeBuffers(packed_matrix);
  }
}'''),
('ref-helper','ref',A,P,'''void PreparePackedMatrices(Ctx* ctx, TrMulParams* params) {
  RUY_TRACE_SCOPE;
  for (Side side : {Side::kLhs, Side::kRhs}) {''','''static void PrepareSide(Ctx* ctx, TrMulParams* params, Side side);
void PreparePackedMatrices(Ctx* ctx, TrMulParams* params) {
  RUY_TRACE_SCOPE;
  PrepareSide(ctx, params, Side::kLhs);
  PrepareSide(ctx, params, Side::kRhs);
}
static void PrepareSide(Ctx* ctx, TrMulParams* params, Side side) {
  {'''),
]
