T='ruy/trmul.cc'; B='ruy/block_map.cc'; TP='ruy/thread_pool.cc'
ALL=['C03','C04','C08']
MUT=[
('rel-relaxed','bug',['C03'],T,'status.store(PackingStatus::kFinished, std::memory_order_release);','status.store(PackingStatus::kFinished, std::memory_order_relaxed);'),
('acq-relaxed','bug',['C03'],T,'std::memory_order_acq_rel, std::memory_order_acquire)','std::memory_order_acq_rel, std::memory_order_relaxed)'),
('inprogress-true','bug',['C03'],T,'''          RUY_TRACE_INFO(TRYPACK_ANOTHER_THREAD_PACKING);
          return false;''','''          RUY_TRACE_INFO(TRYPACK_ANOTHER_THREAD_PACKING);
          return side == Side::kRhs && block > 100;'''),
('finish-first','bug',['C03'],T,'''          params_->RunPack(side, tuning, start, end);
          status.store(PackingStatus::kFinished, std::memory_order_release);''','''          status.store(PackingStatus::kFinished, std::memory_order_release);
          params_->RunPack(side, tuning, start, end);'''),
('and-or','bug',['C03'],T,'both_sides_packed &=\n','both_sides_packed =\n'),
('local-early','bug',['C03'],[(T,'      local_already_packed_[side][block] = true;\n    } else {','    } else {'),(T,'    if (!local_already_packed_[side][block]) {\n','    if (!local_already_packed_[side][block]) {\n      local_already_packed_[side][block] = true;\n')]),
('runahead-range','bug',['C03'],T,'''              runahead_block_end, tuning);''','''              runahead_block_end - (runahead_block > 40 ? 1 : 0), tuning);'''),
('runahead-block','bug',['C03'],T,'''      TryPack(runahead_side, runahead_block, runahead_block_start,''','''      TryPack(runahead_side, runahead_block + 1, runahead_block_start,'''),
('memset-short','bug',['C03'],T,'memset(local_already_packed_[side], 0, size * sizeof(bool));','memset(local_already_packed_[side], 0, (size / 2) * sizeof(bool));'),
('memset-missing','bug',['C03'],T,'memset(local_already_packed_[side], 0, size * sizeof(bool));','if (size < 512) memset(local_already_packed_[side], 0, size * sizeof(bool));'),
('init-short','bug',['C03'],T,'for (int i = 0; i < size; i++) {\n          packing_status','for (int i = 0; i < size - 1; i++) {\n          packing_status'),
('init-none','bug',['C03'],T,'''          packing_status[side][i].store(PackingStatus::kNotStarted,
                                        std::memory_order_relaxed);''',''),
('need-atomics2','bug',['C03'],T,'const bool need_atomics = thread_count > 1;','const bool need_atomics = thread_count > 2;'),
('no-finish','bug',['C03'],T,'          status.store(PackingStatus::kFinished, std::memory_order_release);','          if (block < 200) status.store(PackingStatus::kFinished, std::memory_order_release);'),
('nonexcl','bug',['C03'],T,'''        if (status.compare_exchange_strong(
                exchanged_status, PackingStatus::kInProgress,
                std::memory_order_acq_rel, std::memory_order_acquire)) {''','''        exchanged_status = status.load(std::memory_order_acquire);
        if (exchanged_status == PackingStatus::kNotStarted) {
          status.store(PackingStatus::kInProgress, std::memory_order_release);'''),
('simple-nopack','bug',['C03'],T,'''    for (Side side : {Side::kLhs, Side::kRhs}) {
      if (!params->is_prepacked[side]) {
        params->RunPack''','''    for (Side side : {Side::kLhs, Side::kRhs}) {
      if (!params->is_prepacked[Side::kLhs]) {
        params->RunPack'''),
('simple-range','bug',['C03','C04'],T,'''    params->RunKernel(tuning, origin, rounded_dims);''','''    SidePair<int> rd{rounded_dims[Side::kLhs], rounded_dims[Side::kRhs]}; if (rd[Side::kLhs] > 4096) rd[Side::kLhs] = 4096; params->RunKernel(tuning, origin, rd);'''),
('counter-zero','bug',['C04'],T,'atomic_block_id->store(thread_count);','atomic_block_id->store(0);'),
('counter-minus','bug',['C04'],T,'atomic_block_id->store(thread_count);','atomic_block_id->store(thread_count > 8 ? thread_count - 1 : thread_count);'),
('counter-plus','bug',['C04'],T,'atomic_block_id->store(thread_count);','atomic_block_id->store(thread_count + 1);'),
('nonatomic-fetch','bug',['C04'],T,'atomic_block_id_->fetch_add(1, std::memory_order_relaxed);','atomic_block_id_->load(std::memory_order_relaxed); atomic_block_id_->store(next_block_id + 1, std::memory_order_relaxed);'),
('fetch2','bug',['C04'],T,'atomic_block_id_->fetch_add(1, std','atomic_block_id_->fetch_add(thread_id_ > 6 ? 2 : 1, std'),
('stop-early','bug',['C04'],T,'while (block_id < num_blocks) {','while (block_id < num_blocks && block_id < (1 << 14)) {'),
('stop-early2','bug',['C04'],T,'const int num_blocks = NumBlocks(block_map_);','const int num_blocks = NumBlocksPerSide(Side::kLhs, block_map_) * NumBlocksPerSide(Side::kLhs, block_map_);'),
('tid-wrong','bug',['C04'],T,'params, block_map, atomic_block_id, i, need_atomics','params, block_map, atomic_block_id, i % 16, need_atomics'),
('kernel-twice','bug',['C04'],T,'      params_->RunKernel(tuning, start, end);','      params_->RunKernel(tuning, start, end);\n      if (block_id == 77) params_->RunKernel(tuning, start, end);'),
('kernel-next','bug',['C04'],T,'GetBlockByIndex(block_map_, block_id, &block);','GetBlockByIndex(block_map_, next_block_id < num_blocks ? next_block_id : block_id, &block);'),
('kernel-skip','bug',['C04'],T,'      params_->RunKernel(tuning, start, end);','      if (start[Side::kLhs] < end[Side::kLhs] || thread_id_ == 0) params_->RunKernel(tuning, start, end);'),
('map-dims','bug',['C04'],T,'''  MakeBlockMap(packed_lhs.layout.cols, packed_rhs.layout.cols, depth,''','''  MakeBlockMap(lhs.layout.cols, packed_rhs.layout.cols, depth,'''),
('max-plus','bug',['C08'],T,'''tentative_thread_count, ctx->max_num_threads());''','''tentative_thread_count, ctx->max_num_threads() + 1);'''),
('max-ignored','bug',['C08'],T,'''  tentative_thread_count =
      std::min<std::int64_t>(tentative_thread_count, ctx->max_num_threads());''','''  if (tentative_thread_count < 64) tentative_thread_count =
      std::min<std::int64_t>(tentative_thread_count, ctx->max_num_threads());'''),
('map-count','bug',['C08'],B,'''std::min(tentative_thread_count, NumBlocks(*block_map));''','''std::max(tentative_thread_count, NumBlocks(*block_map) >> 8);'''),
('pool-over','bug',['C08'],TP,'while (threads_.size() < unsigned_threads_count) {','while (threads_.size() <= unsigned_threads_count) {'),
('no-resources','bug',['C08'],T,'  ctx->EnsureThreadSpecificResources(thread_count);','  ctx->EnsureThreadSpecificResources(thread_count - 1);'),
# refactorings
('ref-while','ref',ALL,T,'    while (block_id < num_blocks) {','    for (; block_id < num_blocks;) {'),
('ref-helper','ref',ALL,[(T,'  // Tries to pack a block, without blocking.','  bool Claim(std::atomic<PackingStatus>& status, PackingStatus* seen) {\n    *seen = PackingStatus::kNotStarted;\n    return status.compare_exchange_strong(*seen, PackingStatus::kInProgress, std::memory_order_acq_rel, std::memory_order_acquire);\n  }\n  // Tries to pack a block, without blocking.'),
  (T,'''        if (status.compare_exchange_strong(
                exchanged_status, PackingStatus::kInProgress,
                std::memory_order_acq_rel, std::memory_order_acquire)) {''','''        if (Claim(status, &exchanged_status)) {''')]),
('ref-load-first','ref',ALL,T,'''        if (status.compare_exchange_strong(''','''        if (status.load(std::memory_order_acquire) == PackingStatus::kFinished) {
          local_already_packed_[side][block] = true;
          return true;
        }
        if (status.compare_exchange_strong('''),
('ref-unrolled','ref',ALL,T,'''      for (Side side : {Side::kLhs, Side::kRhs}) {
        both_sides_packed &=
            TryPack(side, block[side], start[side], end[side], tuning);
      }''','''      both_sides_packed = TryPack(Side::kLhs, block[Side::kLhs], start[Side::kLhs], end[Side::kLhs], tuning);
      const bool r = TryPack(Side::kRhs, block[Side::kRhs], start[Side::kRhs], end[Side::kRhs], tuning);
      both_sides_packed = both_sides_packed && r;'''),
('ref-reorder','ref',ALL,T,'''      bool both_sides_packed = true;
      for (Side side : {Side::kLhs, Side::kRhs}) {''','''      bool both_sides_packed = true;
      for (Side side : {Side::kRhs, Side::kLhs}) {'''),
('ref-norunahead','ref',ALL,T,'''#if RUY_OPT(PACK_AHEAD)
      RUY_TRACE''','''#if 0
      RUY_TRACE'''),
('ref-late-fetch','ref',ALL,[(T,'''      const int next_block_id =
          atomic_block_id_->fetch_add(1, std::memory_order_relaxed);
''',''),(T,'''      block_id = next_block_id;''','''      block_id = atomic_block_id_->fetch_add(1, std::memory_order_relaxed);''')]),
('ref-seqcst','ref',ALL,T,'status.store(PackingStatus::kFinished, std::memory_order_release);','status.store(PackingStatus::kFinished);'),
('ref-switch','ref',ALL,T,'''        } else if (exchanged_status == PackingStatus::kInProgress) {''','''        } else if (exchanged_status != PackingStatus::kFinished) {'''),
('ref-earlyret','ref',ALL,[(T,'''    if (!local_already_packed_[side][block]) {
      if (need_atomics_) {''','''    if (local_already_packed_[side][block]) {
      return true;
    }
    {
      if (need_atomics_) {'''),(T,'''    } else {
      RUY_TRACE_INFO(TRYPACK_PREVIOUSLY_PACKED);
    }''','    }'),]),
('ref-memset-loop','ref',ALL,T,'memset(local_already_packed_[side], 0, size * sizeof(bool));','for (int k = 0; k < size; k++) local_already_packed_[side][k] = false;'),
('ref-init-helper','ref',ALL,[(T,'''        for (int i = 0; i < size; i++) {
          packing_status[side][i].store(PackingStatus::kNotStarted,
                                        std::memory_order_relaxed);
        }''','''        InitStatus(packing_status[side], size);'''),(T,'''int GetTentativeThreadCount(''','''void InitStatus(std::atomic<PackingStatus>* status, int size) {
  for (int i = size - 1; i >= 0; i--) {
    status[i].store(PackingStatus::kNotStarted, std::memory_order_relaxed);
  }
}

int GetTentativeThreadCount(''')]),
('ref-init-always','ref',ALL,T,'''  if (need_atomics) {
    for (Side''','''  {
    for (Side'''),
('ref-max1','ref',ALL,T,'''    return ctx->max_num_threads();
  }''','''    const int forced = ctx->max_num_threads();
    return forced;
  }'''),
('ref-tasks-while','ref',ALL,T,'''  for (int i = 0; i < thread_count; i++) {
    auto* allocator''','''  for (int i = 0; i != thread_count; ++i) {
    auto* allocator'''),
('ref-threadcount','ref',ALL,T,'''  tentative_thread_count = std::max<std::int64_t>(tentative_thread_count, 1);
  tentative_thread_count =
      std::min<std::int64_t>(tentative_thread_count, ctx->max_num_threads());''','''  if (tentative_thread_count < 1) tentative_thread_count = 1;
  if (tentative_thread_count > ctx->max_num_threads()) {
    tentative_thread_count = ctx->max_num_threads();
  }'''),
('ref-packfn','ref',ALL,[(T,'''          params_->RunPack(side, tuning, start, end);
          status.store(PackingStatus::kFinished, std::memory_order_release);''','''          PackAndPublish(side, tuning, start, end, &status);'''),(T,'  // Tries to pack a block, without blocking.','''  void PackAndPublish(Side side, Tuning tuning, int start, int end, std::atomic<PackingStatus>* status) {
    params_->RunPack(side, tuning, start, end);
    status->store(PackingStatus::kFinished, std::memory_order_release);
  }
  // Tries to pack a block, without blocking.''')]),
('ref-comment','ref',ALL,T,'    RUY_TRACE_INFO(ENSURE_PACKED_END);','    // nothing more to do\n    (void)0;\n    RUY_TRACE_INFO(ENSURE_PACKED_END);'),
]
