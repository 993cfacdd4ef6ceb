A='ruy/allocator.cc'
S='ruy/system_aligned_alloc.cc'
MUT=[
('noround','bug',['M01'],A,'round_up_pot(num_bytes, detail::kMinimumBlockAlignment)','round_up_pot(num_bytes, 16)'),
('rounddown','bug',['M01'],A,'      round_up_pot(num_bytes, detail::kMinimumBlockAlignment)','      round_down_pot(num_bytes)'),
('guard','bug',['M01'],A,'if (current_ + num_bytes > size_) {','if (current_ > size_) {'),
('guard-off','bug',['M01'],A,'if (current_ + num_bytes > size_) {','if (current_ + num_bytes > size_ + detail::kMinimumBlockAlignment) {'),
('bump','bug',['M01'],A,'  current_ += num_bytes;\n','  current_ += num_bytes / 2;\n'),
('nobump','bug',['M01'],A,'  current_ += num_bytes;\n','  if (num_bytes > 64) current_ += num_bytes;\n'),
('nopush','bug',['M01'],A,'  fallback_blocks_.push_back(p);\n','  if (num_bytes > 64) fallback_blocks_.push_back(p);\n'),
('period','bug',['M01'],A,'AllocateBytes(num_bytes + kMinPeriod)','AllocateBytes(num_bytes + kMinPeriod / 4)'),
('off1','bug',['M01'],A,'(need_offset ? (kMinPeriod / 2) : 0)','(need_offset ? (kMinPeriod / 2 + 8) : 0)'),
('offset-over','bug',['M01'],A,'(need_offset ? (kMinPeriod / 2) : 0)','(need_offset ? (2 * kMinPeriod) : 0)'),
('nofreeptr','bug',['M01'],A,'''  detail::SystemAlignedFree(ptr_);
  for''','''  for'''),
('nofreeblk','bug',['M01'],A,'''    detail::SystemAlignedFree(p);
  }
''','''    if (p < ptr_) detail::SystemAlignedFree(p);
  }
'''),
('noclear','bug',['M01'],A,'  fallback_blocks_.clear();\n',''),
('noreset','bug',['M01'],A,'''  current_ = 0;
  if (fallback_blocks_.empty()) {''','''  if (fallback_blocks_.empty()) {'''),
('reset-late','bug',['M01'],A,[('ruy/allocator.cc','''  current_ = 0;
  if (fallback_blocks_.empty()) {''','''  if (fallback_blocks_.empty()) {'''),('ruy/allocator.cc','''  fallback_blocks_.clear();
''','''  fallback_blocks_.clear();
  current_ = 0;
''')][0:0]) if False else ('size-wrong','bug',['M01'],A,'ptr_ = detail::SystemAlignedAlloc(new_size);','ptr_ = detail::SystemAlignedAlloc(fallback_blocks_total_size_);'),
('sizenull','bug',['M01'],A,'size_ = ptr_ ? new_size : 0;','size_ = new_size;'),
('dtor-noptr','bug',['M01'],A,'''  FreeAll();
  detail::SystemAlignedFree(ptr_);''','''  FreeAll();
  if (current_) detail::SystemAlignedFree(ptr_);'''),
('dtor-noall','bug',['M01'],A,'''  FreeAll();
  detail::SystemAlignedFree(ptr_);''','''  detail::SystemAlignedFree(ptr_);'''),
('sysalign','bug',['M01'],S,'posix_memalign(&ptr, kMinimumBlockAlignment, num_bytes)','posix_memalign(&ptr, 16, num_bytes)'),
('skipfirst','bug',['M01'],A,'''  for (void* p : fallback_blocks_) {
    detail::SystemAlignedFree(p);
  }''','''  for (std::size_t i = 1; i < fallback_blocks_.size(); i++) {
    detail::SystemAlignedFree(fallback_blocks_[i]);
  }'''),
('ref-index','ref',['M01'],A,'''  for (void* p : fallback_blocks_) {
    detail::SystemAlignedFree(p);
  }''','''  for (std::size_t i = 0; i < fallback_blocks_.size(); i++) {
    detail::SystemAlignedFree(fallback_blocks_[i]);
  }'''),
('ref-while','ref',['M01'],A,'''  for (void* p : fallback_blocks_) {
    detail::SystemAlignedFree(p);
  }''','''  auto it = fallback_blocks_.begin();
  while (it != fallback_blocks_.end()) {
    detail::SystemAlignedFree(*it);
    ++it;
  }'''),
('ref-rev','ref',['M01'],A,'''  for (void* p : fallback_blocks_) {
    detail::SystemAlignedFree(p);
  }''','''  for (auto it = fallback_blocks_.rbegin(); it != fallback_blocks_.rend(); ++it) {
    detail::SystemAlignedFree(*it);
  }'''),
('ref-down','ref',['M01'],A,'''  for (void* p : fallback_blocks_) {
    detail::SystemAlignedFree(p);
  }''','''  for (int i = static_cast<int>(fallback_blocks_.size()) - 1; i >= 0; i--) {
    detail::SystemAlignedFree(fallback_blocks_[i]);
  }'''),
('ref-int','ref',['M01'],A,'''  for (void* p : fallback_blocks_) {
    detail::SystemAlignedFree(p);
  }''','''  const int n = static_cast<int>(fallback_blocks_.size());
  for (int i = 0; i < n; ++i) {
    detail::SystemAlignedFree(fallback_blocks_[i]);
  }'''),
('ref-order','ref',['M01'],A,'''  detail::SystemAlignedFree(ptr_);
  for (void* p : fallback_blocks_) {
    detail::SystemAlignedFree(p);
  }''','''  for (void* p : fallback_blocks_) {
    detail::SystemAlignedFree(p);
  }
  detail::SystemAlignedFree(ptr_);'''),
('ref-guard','ref',['M01'],A,'if (current_ + num_bytes > size_) {','if (size_ - current_ < num_bytes) {'),
('ref-inv','ref',['M01'],A,'''  if (current_ + num_bytes > size_) {
    return nullptr;
  }
  void* ret = static_cast<char*>(ptr_) + current_;
  current_ += num_bytes;
  return ret;''','''  void* ret = nullptr;
  const std::ptrdiff_t end = current_ + num_bytes;
  if (end <= size_) {
    ret = static_cast<char*>(ptr_) + current_;
    current_ = end;
  }
  return ret;'''),
('ref-alias','ref',['M01'],A,'''  return static_cast<char*>(p) + (need_offset ? (kMinPeriod / 2) : 0);''','''  if (!need_offset) {
    return p;
  }
  return static_cast<char*>(p) + kMinPeriod / 2;'''),
('ref-swap','ref',['M01'],A,'''  fallback_blocks_total_size_ += num_bytes;
  fallback_blocks_.push_back(p);''','''  fallback_blocks_.push_back(p);
  fallback_blocks_total_size_ += num_bytes;'''),
('ref-emplace','ref',['M01'],A,'fallback_blocks_.push_back(p);','fallback_blocks_.emplace_back(p);'),
('ref-rename','ref',['M01'],[(A,'''    if (p == nullptr) {
    return nullptr;
  }
  fallback'''.replace('    if','  if'),'''  if (!p) return p;
  fallback''')]),
('ref-resethelper','ref',['M01'],A,'''  current_ = 0;
  if (fallback_blocks_.empty()) {
    return;
  }
''','''  const bool simple = fallback_blocks_.empty();
  current_ = 0;
  if (simple) return;
'''),
]
