MP = 'ruy/mul_params.h'
MX = 'ruy/matrix.h'
CT = 'ruy/create_trmul_params.h'
CX = 'ruy/ctx.cc'
FH = 'ruy/frontend.h'
TU = 'ruy/tune.cc'
TR = 'ruy/trmul.cc'
PP = 'ruy/prepare_packed_matrices.cc'
TH = 'ruy/thread_pool.h'
RES = '''  TimePoint new_timepoint = CoarseNow();
  if (last_resolved_tuning_ != Tuning::kAuto &&
      (new_timepoint - last_resolved_timepoint_) < expiry_duration_) {
    return last_resolved_tuning_;
  }
  last_resolved_timepoint_ = new_timepoint;
  last_resolved_tuning_ = ResolveNow(cpuinfo);
  return last_resolved_tuning_;
'''
TELL = 'ctx->GetThreadSpecificTuningResolver(i)->SetTuning(ctx->explicit_tuning());'
A, B, T = ['A05'], ['A06'], ['T01']
MUT = [
    ('clamp-alias', 'bug', A, MP, 'void set_clamp_min(const DstScalar value) { storage_.clamp_min = value; }', 'void set_clamp_min(const DstScalar value) {\n    storage_.clamp_min = value;\n    if (storage_.clamp_max < value) storage_.clamp_max = value;\n  }'),
    ('rounding-default', 'bug', A, MP, '  DstScalar clamp_max = std::numeric_limits<DstScalar>::infinity();', '  DstScalar clamp_max = std::numeric_limits<DstScalar>::max();'),
    ('lowest-default', 'ref', A, MP, '  DstScalar clamp_min = std::numeric_limits<DstScalar>::lowest();', '  DstScalar clamp_min = std::numeric_limits<DstScalar>::min();'),
    ('perchannel-lost', 'bug', A, MP, '    set_perchannel(true);\n    storage_.multiplier_exponent_perchannel = ptr;', '    set_perchannel(ptr != nullptr);\n    storage_.multiplier_exponent_perchannel = storage_.perchannel ? nullptr : ptr;'),
    ('stride-order', 'bug', A, MX, '  void set_order(Order val) { order_ = val; }', '  void set_order(Order val) {\n    if (val != order_) stride_ = val == Order::kColMajor ? rows_ : cols_;\n    order_ = val;\n  }'),
    ('cache-const', 'bug', A, MX, '  void set_cache_policy(CachePolicy value) { cache_policy_ = value; }', '  void set_cache_policy(CachePolicy value) {\n    cache_policy_ = value == CachePolicy::kCacheIfSignificantSpeedup ? CachePolicy::kCacheIfLargeSpeedup : value;\n  }'),
    ('threads-cap', 'bug', A, CX, 'mutable_impl()->max_num_threads_ = value;', 'mutable_impl()->max_num_threads_ = value > 64 ? 64 : value;'),
    ('perchannel-branch', 'ref', A, MP, '    storage_.perchannel = perchannel;\n', '    if (storage_.perchannel != perchannel) {\n      storage_.perchannel = perchannel;\n    }\n'),
    ('local', 'ref', A, MX, '  void set_zero_point(Scalar value) { zero_point_ = value; }', '  void set_zero_point(Scalar value) {\n    const Scalar new_value = value;\n    zero_point_ = new_value;\n  }'),
    ('getter-ref', 'ref', A, MP, '    return storage_.perchannel ? 0 : storage_.multiplier_fixedpoint;', '    if (!storage_.perchannel) {\n      return storage_.multiplier_fixedpoint;\n    }\n    return 0;'),

    ('no-clear', 'bug', B, FH, '  ctx->clear_performance_advisories();\n', ''),
    ('clear-late', 'bug', B, [(FH, '  ctx->clear_performance_advisories();\n', ''), (FH, '                                                  ctx, &params);\n', '                                                  ctx, &params);\n  ctx->clear_performance_advisories();\n')]),
    ('unset', 'bug', B, CT, '  ctx->set_performance_advisory(\n', '  if (mul_params->bias()) ctx->set_performance_advisory(\n'),
    ('always', 'bug', B, CT, '  if (required_capacity <= user_capacity) {\n    return;\n  }\n', '  ctx->set_performance_advisory(PerformanceAdvisory::kReallocatedPerChannelBuffer);\n  if (required_capacity <= user_capacity) {\n    return;\n  }\n'),
    ('clear-mask', 'bug', B, CX, '  mutable_impl()->performance_advisory_ = PerformanceAdvisory::kNone;', '  mutable_impl()->performance_advisory_ = mutable_impl()->performance_advisory_ & PerformanceAdvisory::kReallocatedPerChannelBuffer;'),
    ('clear-prepare', 'bug', B, 'ruy/frontend.cc', '  PreparePackedMatrices(ctx, params);\n', '  PreparePackedMatrices(ctx, params);\n  if (params->is_prepacked[Side::kLhs]) ctx->clear_performance_advisories();\n'),
    ('lastpath', 'bug', B, CX, '  return mutable_impl()->last_used_path_ =\n', '  mutable_impl()->last_used_path_ = GetRuntimeEnabledPaths();\n  return\n'),
    ('lastpath-cond', 'bug', B, CX, '  return mutable_impl()->last_used_path_ =\n             GetMostSignificantPath(compiled_paths & GetRuntimeEnabledPaths());', '  const Path p = GetMostSignificantPath(compiled_paths & GetRuntimeEnabledPaths());\n  if (mutable_impl()->last_used_path_ == Path::kNone) mutable_impl()->last_used_path_ = p;\n  return p;'),
    ('lastpath-ref', 'ref', B, CX, '  return mutable_impl()->last_used_path_ =\n             GetMostSignificantPath(compiled_paths & GetRuntimeEnabledPaths());', '  const Path enabled = GetRuntimeEnabledPaths();\n  const Path p = GetMostSignificantPath(compiled_paths & enabled);\n  mutable_impl()->last_used_path_ = p;\n  return p;'),
    ('clear-order', 'ref', B, [(FH, '  ctx->clear_performance_advisories();\n  TrMulParams params;\n', '  TrMulParams params;\n  ctx->clear_performance_advisories();\n')]),
    ('set-after', 'ref', B, CT, '  ctx->set_performance_advisory(\n      PerformanceAdvisory::kReallocatedPerChannelBuffer);\n  EnsurePerChannelBuffersLargeEnoughImpl<AccumScalar, DstScalar>::Run(\n      params, ctx->GetMainAllocator(), mul_params);\n', '  EnsurePerChannelBuffersLargeEnoughImpl<AccumScalar, DstScalar>::Run(\n      params, ctx->GetMainAllocator(), mul_params);\n  ctx->set_performance_advisory(\n      PerformanceAdvisory::kReallocatedPerChannelBuffer);\n'),

    ('no-expiry', 'bug', T, TU, ' &&\n      (new_timepoint - last_resolved_timepoint_) < expiry_duration_)', ')'),
    ('no-first', 'bug', T, TU, 'last_resolved_tuning_ != Tuning::kAuto &&\n      ', ''),
    ('no-time', 'bug', T, TU, '  last_resolved_timepoint_ = new_timepoint;\n', ''),
    ('time-renewed', 'bug', T, TU, '    return last_resolved_tuning_;\n  }\n  last', '    last_resolved_timepoint_ = new_timepoint;\n    return last_resolved_tuning_;\n  }\n  last'),
    ('cached-first', 'bug', T, TU, '  if (unresolved_tuning_ != Tuning::kAuto) {\n    return unresolved_tuning_;\n  }\n' + RES, RES.replace('  last_resolved_timepoint_ = new', '  if (unresolved_tuning_ != Tuning::kAuto) {\n    return unresolved_tuning_;\n  }\n  last_resolved_timepoint_ = new')),
    ('x1-ignored', 'bug', T, TU, '    return unresolved_tuning_;\n', '    return unresolved_tuning_ == Tuning::kX1 ? Tuning::kGeneric : unresolved_tuning_;\n'),
    ('auto-result', 'bug', T, TU, '  return Tuning::kGeneric;', '  return Tuning::kAuto;'),
    ('tell-main', 'bug', T, TR, TELL, 'if (i == 0) ' + TELL),
    ('tell-explicit', 'bug', T, TR, TELL, 'if (ctx->explicit_tuning() != Tuning::kAuto) {\n      ' + TELL + '\n    }'),
    ('tell-from-one', 'bug', T, TR, 'for (int i = 0; i < thread_count; i++) {\n    ' + TELL, 'for (int i = 1; i < thread_count; i++) {\n    ' + TELL),
    ('main-untold', 'bug', T, CX, '  tuning_resolver->SetTuning(explicit_tuning());\n', ''),
    ('kernel-generic', 'bug', T, TR, '      params_->RunKernel(tuning, start, end);', '      params_->RunKernel(Tuning::kGeneric, start, end);'),
    ('pack-auto', 'bug', T, PP, 'ctx->GetMainThreadTuning()', 'ctx->explicit_tuning()'),
    ('resolve-per-block', 'ref', T, TR, '      params_->RunKernel(tuning, start, end);', '      params_->RunKernel(tuning_resolver_->Resolve(cpuinfo_), start, end);'),
    ('expiry-split', 'ref', T, TU, RES, RES.replace('''  if (last_resolved_tuning_ != Tuning::kAuto &&
      (new_timepoint - last_resolved_timepoint_) < expiry_duration_) {
    return last_resolved_tuning_;
  }
''', '''  const bool have = last_resolved_tuning_ != Tuning::kAuto;
  if (have) {
    const Duration age = new_timepoint - last_resolved_timepoint_;
    if (age < expiry_duration_) return last_resolved_tuning_;
  }
''')),
    ('now-order', 'ref', T, TU, '  last_resolved_timepoint_ = new_timepoint;\n  last_resolved_tuning_ = ResolveNow(cpuinfo);\n  return last_resolved_tuning_;', '  const Tuning resolved = ResolveNow(cpuinfo);\n  last_resolved_tuning_ = resolved;\n  last_resolved_timepoint_ = new_timepoint;\n  return resolved;'),
    ('tell-hoist', 'ref', T, TR, 'for (int i = 0; i < thread_count; i++) {\n    ' + TELL, 'const Tuning tuning = ctx->explicit_tuning();\n  for (int i = 0; i < thread_count; i++) {\n    ctx->GetThreadSpecificTuningResolver(i)->SetTuning(tuning);'),
    ('tell-down', 'ref', T, TR, 'for (int i = 0; i < thread_count; i++) {\n    ' + TELL, 'for (int i = thread_count - 1; i >= 0; --i) {\n    ' + TELL),
    ('tell-while', 'ref', T, TR, 'for (int i = 0; i < thread_count; i++) {\n    ' + TELL + '\n  }', 'int told = 0;\n  while (told < thread_count) {\n    ' + TELL.replace('(i)', '(told)') + '\n    ++told;\n  }'),
]
