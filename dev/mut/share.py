T = 'ruy/trmul.cc'
C = 'ruy/ctx.cc'
U = 'ruy/cpuinfo.cc'
F = 'ruy/frontend.cc'
G = 'ruy/tune.cc'
P = 'ruy/prepare_packed_matrices.cc'
A = ['C05', 'C08']
ENS = '''  while (thread_count > static_cast<int>(resources.size())) {
    resources.emplace_back(new ThreadSpecificResource);
  }
'''
MUT = [
    # C05
    ('alloc0', 'bug', A, T, 'auto* allocator = ctx->GetThreadSpecificAllocator(i);', 'auto* allocator = ctx->GetThreadSpecificAllocator(i / 2);'),
    ('tune0', 'bug', A, T, 'auto* tuning_resolver = ctx->GetThreadSpecificTuningResolver(i);', 'auto* tuning_resolver = ctx->GetThreadSpecificTuningResolver(0);'),
    ('main-alloc', 'bug', A, T, 'tuning_resolver, allocator, ctx->mutable_cpuinfo());', 'tuning_resolver, i ? allocator : main_allocator, ctx->mutable_cpuinfo());'),
    ('res-share', 'bug', A, C, 'resources.emplace_back(new ThreadSpecificResource);', 'resources.emplace_back(resources.size() > 40 ? resources[0].get() : new ThreadSpecificResource);'),
    ('ensure-less', 'bug', A, T, 'ctx->EnsureThreadSpecificResources(thread_count);', 'ctx->EnsureThreadSpecificResources(thread_count - 1);'),
    ('ensure-if', 'bug', A, C, 'while (thread_count > static', 'if (thread_count > static'),
    ('ensure-off1', 'bug', A, C, 'while (thread_count > static_cast<int>(resources.size())) {', 'while (thread_count > static_cast<int>(resources.size()) + 1) {'),
    ('ensure-cap', 'bug', A, C, 'while (thread_count > static', 'while (std::min(thread_count, 64) > static'),
    ('alloc-mod', 'bug', A, T, 'auto* allocator = ctx->GetThreadSpecificAllocator(i);', 'auto* allocator = ctx->GetThreadSpecificAllocator(i % 16);'),
    ('lazy-cpu', 'bug', ['C05'], T, 'const auto& cpu_cache_params = ctx->mutable_cpuinfo()->CacheParams();',
     'static const CpuCacheParams dflt;\n  const auto& cpu_cache_params = rows > 4 ? dflt : ctx->mutable_cpuinfo()->CacheParams();'),
    ('cpu-retry', 'bug', ['C05'], U, 'init_status_ = Initialize();', 'init_status_ = Initialize();\n    if (init_status_ == InitStatus::kFailed) {\n      init_status_ = InitStatus::kNotYetAttempted;\n      return false;\n    }'),
    ('prm-write', 'bug', ['C05'], T, '    const int num_blocks = NumBlocks(block_map_);\n', '    const int num_blocks = NumBlocks(block_map_);\n    if (num_blocks == 1) params_->is_prepacked[Side::kLhs] = true;\n'),
    ('status-plain', 'bug', ['C05', 'C03'], T, 'status.store(PackingStatus::kFinished, std::memory_order_release);', '*reinterpret_cast<PackingStatus*>(&status) = PackingStatus::kFinished;'),
    ('block-plain', 'bug', ['C05', 'C04'], T, 'atomic_block_id_->fetch_add(1, std::memory_order_relaxed);', '(*reinterpret_cast<int*>(atomic_block_id_))++;'),
    ('ens-for', 'ref', A, C, ENS, '  for (int i = resources.size(); i < thread_count; i++) {\n    resources.emplace_back(new ThreadSpecificResource);\n  }\n'),
    ('ens-push', 'ref', A, C, ENS, '  while (static_cast<int>(resources.size()) < thread_count) {\n    resources.push_back(std::unique_ptr<ThreadSpecificResource>(new ThreadSpecificResource));\n  }\n'),
    ('ens-make', 'ref', A, C, ENS, '  const int missing = thread_count - static_cast<int>(resources.size());\n  for (int i = 0; i < missing; i++) {\n    resources.push_back(std::make_unique<ThreadSpecificResource>());\n  }\n'),
    ('ens-early', 'ref', A, C, ENS, '  if (thread_count <= static_cast<int>(resources.size())) {\n    return;\n  }\n  resources.reserve(thread_count);\n  do {\n    resources.emplace_back(new ThreadSpecificResource);\n  } while (static_cast<int>(resources.size()) < thread_count);\n'),
    ('task-while', 'ref', A, T, '''  for (int i = 0; i < thread_count; i++) {
    auto* allocator = ctx->GetThreadSpecificAllocator(i);
    auto* tuning_resolver = ctx->GetThreadSpecificTuningResolver(i);
    new (tasks_buf + i * sizeof(TrMulTask)) TrMulTask(
        params, block_map, atomic_block_id, i, need_atomics, packing_status,
        tuning_resolver, allocator, ctx->mutable_cpuinfo());
  }''', '''  int t = 0;
  char* task_buf = tasks_buf;
  CpuInfo* cpuinfo = ctx->mutable_cpuinfo();
  while (t != thread_count) {
    new (task_buf) TrMulTask(
        params, block_map, atomic_block_id, t, need_atomics, packing_status,
        ctx->GetThreadSpecificTuningResolver(t), ctx->GetThreadSpecificAllocator(t), cpuinfo);
    task_buf += sizeof(TrMulTask);
    ++t;
  }'''),
    ('task-down', 'ref', A, T, '''  for (int i = 0; i < thread_count; i++) {
    auto* allocator''', '''  for (int i = thread_count - 1; i >= 0; i--) {
    auto* allocator'''),
    ('task-helper', 'ref', A, [(T, '    const Tuning tuning = tuning_resolver_->Resolve(cpuinfo_);\n', '    const Tuning tuning = CurrentTuning();\n'),
                              (T, '  // Tries to pack a block, without blocking.\n', '  Tuning CurrentTuning() { return tuning_resolver_->Resolve(cpuinfo_); }\n  // Tries to pack a block, without blocking.\n')]),
    ('set-inline', 'ref', A, T, '''    auto* tuning_resolver = ctx->GetThreadSpecificTuningResolver(i);
''', '''    auto* tuning_resolver = ctx->GetThreadSpecificTuningResolver(i);
    tuning_resolver->SetTuning(ctx->explicit_tuning());
'''),
    # C06
    ('static-tune', 'bug', ['C06'], G, '  TimePoint new_timepoint = CoarseNow();\n', '  static TimePoint last_seen = CoarseNow();\n  TimePoint new_timepoint = CoarseNow();\n  if (new_timepoint - last_seen > expiry_duration_) last_resolved_tuning_ = Tuning::kAuto;\n  last_seen = new_timepoint;\n'),
    ('static-paths', 'bug', ['C06'], C, '  *paths = DetectRuntimeSupportedPaths(kAllPaths, mutable_cpuinfo());\n', '  static Path detected = Path::kNone;\n  if (detected == Path::kNone) detected = DetectRuntimeSupportedPaths(kAllPaths, mutable_cpuinfo());\n  *paths = detected;\n'),
    ('static-cache', 'bug', ['C06'], C, '''  if (!impl().prepacked_cache_) {
    mutable_impl()->prepacked_cache_.reset(new PrepackedCache);
  }
  return impl().prepacked_cache_.get();''', '''  static PrepackedCache cache;
  return &cache;'''),
    ('static-res', 'bug', ['C06'], C, 'auto& resources = mutable_impl()->thread_specific_resources_;', 'static auto& resources = *new std::vector<std::unique_ptr<ThreadSpecificResource>>;'),
    ('static-info', 'bug', ['C06'], C, 'CpuInfo* Ctx::mutable_cpuinfo() { return &mutable_impl()->cpuinfo_; }', 'CpuInfo* Ctx::mutable_cpuinfo() {\n  static CpuInfo info;\n  return &info;\n}'),
    ('static-map', 'bug', ['C06'], T, '  BlockMap block_map;\n', '  static BlockMap block_map;\n'),
    ('static-ptr', 'bug', ['C06'], [(C, 'Allocator* Ctx::GetMainAllocator() {', 'static Allocator* shared_allocator = nullptr;\nAllocator* Ctx::GetMainAllocator() {\n  if (!shared_allocator) shared_allocator = new Allocator;\n  return shared_allocator;')]),
    ('setenv', 'bug', ['C06'], C, '  const char* val = getenv(name);\n', '  const char* val = getenv(name);\n  if (!val) setenv(name, "0", 0);\n'),
    ('static-const', 'ref', ['C06'], T, 'static constexpr std::int64_t kSizePerAdditionalThread = 32768;', 'static const std::int64_t kSizePerAdditionalThread = getenv("HOME") ? 32768 : 32768;'),
    ('static-atomic', 'ref', ['C06'], C, '  *paths = DetectRuntimeSupportedPaths(kAllPaths, mutable_cpuinfo());\n', '  static std::atomic<int> detections{0};\n  detections.fetch_add(1);\n  *paths = DetectRuntimeSupportedPaths(kAllPaths, mutable_cpuinfo());\n'),
    ('static-tls', 'ref', ['C06'], G, '  TimePoint new_timepoint = CoarseNow();\n', '  static thread_local int resolved = 0;\n  resolved++;\n  TimePoint new_timepoint = CoarseNow();\n'),
    ('static-map-const', 'ref', ['C06'], C, '  const char* val = getenv(name);\n', '  static const std::string* const empty = new std::string;\n  const char* val = getenv(name);\n  if (val && *empty == val) return 0;\n'),
    # L01
    ('free-cond', 'bug', ['L01'], F, '  ctx->GetMainAllocator()->FreeAll();', '  if (!params->is_prepacked[Side::kLhs]) ctx->GetMainAllocator()->FreeAll();'),
    ('free-none', 'bug', ['L01'], F, '  ctx->GetMainAllocator()->FreeAll();\n', ''),
    ('free-early', 'bug', ['L01'], F, '  TrMul(ctx, params);\n\n  ctx->GetMainAllocator()->FreeAll();\n', '  ctx->GetMainAllocator()->FreeAll();\n  TrMul(ctx, params);\n'),
    ('free-in-prepare', 'bug', ['L01'], P, '      auto* cache = ctx->GetPrepackedCache();\n', '      auto* cache = ctx->GetPrepackedCache();\n      ctx->GetMainAllocator()->FreeAll();\n'),
    ('free-before-run', 'bug', ['L01'], T, '  // Do the computation.\n', '  if (thread_count == 1) main_allocator->FreeAll();\n'),
    ('free-simple', 'bug', ['L01'], T, '    params->RunKernel(tuning, origin, rounded_dims);\n    return;', '    ctx->GetMainAllocator()->FreeAll();\n    params->RunKernel(tuning, origin, rounded_dims);\n    return;'),
    ('skip-return', 'bug', ['L01'], F, '  // We\'re done with the front-end work, now enter the middle-end.\n', '  if (params->src[Side::kLhs].layout.cols == 0) return;\n'),
    ('task-none', 'bug', ['L01'], T, '    local_allocator_->FreeAll();\n', ''),
    ('task-cond', 'bug', ['L01'], T, '    local_allocator_->FreeAll();\n', '    if (thread_id_) local_allocator_->FreeAll();\n'),
    ('task-loop', 'bug', ['L01'], T, '      block_id = next_block_id;\n    }\n\n    local_allocator_->FreeAll();\n', '      block_id = next_block_id;\n      local_allocator_->FreeAll();\n    }\n'),
    ('task-before', 'bug', ['L01'], [(T, '    local_allocator_->FreeAll();\n', ''), (T, '    const int num_blocks = NumBlocks(block_map_);\n', '    const int num_blocks = NumBlocks(block_map_);\n    local_allocator_->FreeAll();\n')]),
    ('task-early', 'bug', ['L01'], T, '    const int num_blocks = NumBlocks(block_map_);\n', '    const int num_blocks = NumBlocks(block_map_);\n    if (thread_id_ >= num_blocks) return;\n'),
    ('free-mid', 'ref', ['L01'], [(F, '\n  ctx->GetMainAllocator()->FreeAll();\n', ''), ('ruy/frontend.h', '  MulFrontEndFromTrMulParams(ctx, &params);\n', '  MulFrontEndFromTrMulParams(ctx, &params);\n  ctx->GetMainAllocator()->FreeAll();\n')]),
    ('free-start', 'bug', ['L01'], F, '  PreparePackedMatrices(ctx, params);\n', '  ctx->GetMainAllocator()->FreeAll();\n  PreparePackedMatrices(ctx, params);\n'),
    ('free-guard', 'ref', ['L01'], [(F, '\n  ctx->GetMainAllocator()->FreeAll();\n', ''), (F, '  PreparePackedMatrices(ctx, params);\n', '  struct Guard {\n    Allocator* a;\n    ~Guard() { a->FreeAll(); }\n  } guard{ctx->GetMainAllocator()};\n  PreparePackedMatrices(ctx, params);\n')]),
    ('free-var', 'ref', ['L01'], [(F, '  ctx->GetMainAllocator()->FreeAll();\n', '  scratch->FreeAll();\n'), (F, '  PreparePackedMatrices(ctx, params);\n', '  Allocator* const scratch = ctx->GetMainAllocator();\n  PreparePackedMatrices(ctx, params);\n')]),
    ('task-after', 'ref', ['L01'], [(T, '    local_allocator_->FreeAll();\n', ''), (T, '    tasks[i].~TrMulTask();\n', '    tasks[i].~TrMulTask();\n    ctx->GetThreadSpecificAllocator(i)->FreeAll();\n')]),
    ('task-skip', 'ref', ['L01', 'C05'], T, '    // Allocate and initialize `local_packed`.\n', '    if (thread_id_ >= NumBlocks(block_map_)) return;\n'),
    ('task-raii', 'ref', ['L01', 'C05'], [(T, '    local_allocator_->FreeAll();\n', ''), (T, '    // Allocate and initialize `local_packed`.\n', '    struct Guard {\n      Allocator* a;\n      ~Guard() { a->FreeAll(); }\n    } guard{local_allocator_};\n')]),
]
