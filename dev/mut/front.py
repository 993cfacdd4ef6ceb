F='ruy/frontend.h'
C='ruy/create_trmul_params.h'
X='ruy/ctx.cc'
U='ruy/cpuinfo.cc'
M='ruy/mat.h'
A='ruy/matrix.h'
P='ruy/path.h'
ALL=['A03','P04','M09']
MUT=[
('tr-channel','bug',['A03'],C,'rhs, lhs, Transpose(dst), mul_params, Transpose(channel_dimension), ctx,','rhs, lhs, Transpose(dst), mul_params, channel_dimension, ctx,'),
('tr-swap','bug',['A03'],C,'rhs, lhs, Transpose(dst), mul_params, Transpose(channel_dimension), ctx,','lhs, rhs, Transpose(dst), mul_params, Transpose(channel_dimension), ctx,'),
('side-sw','bug',['M09'],C,'''    const Side channel_side =
        mul_params->channel_dimension() == ChannelDimension::kRow ? Side::kLhs
                                                                  : Side::kRhs;
    const int required_capacity =
        params.packed_matrix[channel_side].layout.cols;
    const int user_size = params.src[channel_side].layout.cols;
    const int user_capacity = round_up_pot(
        user_size, mul_params->perchannel_buffers_capacity_rounding());
    // We should have already checked earlier for the case where
    // user_capacity >= required_capacity.
    RUY_DCHECK_GT(required_capacity, user_capacity);
    if (mul_params->bias()) {
      AccumScalar* new_data =
          allocator->Allocate<AccumScalar>(required_capacity);
      std::memcpy(new_data, mul_params->bias(),
                  user_size * sizeof(AccumScalar));
      std::memset(new_data + user_size, 0,
                  (required_capacity - user_size) * sizeof(AccumScalar));
      mul_params->set_bias(new_data);
    }
    if''','''    const Side channel_side =
        mul_params->channel_dimension() == ChannelDimension::kRow ? Side::kLhs
                                                                  : Side::kRhs;
    const int required_capacity =
        params.packed_matrix[channel_side].layout.cols;
    const int user_size = params.src[channel_side].layout.cols;
    const int user_capacity = round_up_pot(
        user_size, mul_params->perchannel_buffers_capacity_rounding());
    // We should have already checked earlier for the case where
    // user_capacity >= required_capacity.
    RUY_DCHECK_GT(required_capacity, user_capacity);
    if (mul_params->bias()) {
      AccumScalar* new_data =
          allocator->Allocate<AccumScalar>(user_capacity);
      std::memcpy(new_data, mul_params->bias(),
                  user_size * sizeof(AccumScalar));
      std::memset(new_data + user_size, 0,
                  (required_capacity - user_size) * sizeof(AccumScalar));
      mul_params->set_bias(new_data);
    }
    if'''),
('early-cap','bug',['M09'],C,'  if (required_capacity <= user_capacity) {\n    return;','  if (required_capacity <= user_capacity + 1) {\n    return;'),
('early-bias','bug',['M09'],C,'  if (required_capacity <= user_capacity) {\n    return;','  if (required_capacity <= user_capacity || !mul_params->bias()) {\n    return;'),
('exp-copy','bug',['M09'],C,'''      std::memcpy(new_data, mul_params->multiplier_exponent_perchannel(),
                  user_size * sizeof(int));''','''      std::memcpy(new_data, mul_params->multiplier_exponent_perchannel(),
                  user_size);'''),
('exp-src','bug',['M09'],C,'''      std::memcpy(new_data, mul_params->multiplier_exponent_perchannel(),
                  user_size * sizeof(int));''','''      std::memcpy(new_data, mul_params->multiplier_fixedpoint_perchannel(),
                  user_size * sizeof(int));'''),
('exp-zero','bug',['M09'],C,'''      std::memset(new_data + user_size, 0,
                  (required_capacity - user_size) * sizeof(int));''','''      std::memset(new_data + user_capacity, 0,
                  (required_capacity - user_capacity) * sizeof(int));'''),
('exp-set','bug',['M09'],C,'      mul_params->set_multiplier_exponent_perchannel(new_data);\n','      mul_params->set_multiplier_fixedpoint_perchannel(new_data);\n'),
('finalize-ch','bug',['A03'],C,'  dst_mul_params->set_channel_dimension(channel_dimension);\n','  (void)channel_dimension;\n'),
('finalize-order','bug',['M09'],C,'''  dst_mul_params->set_channel_dimension(channel_dimension);
  EnsurePerChannelBuffersLargeEnough(*params, ctx, dst_mul_params);''','''  EnsurePerChannelBuffersLargeEnough(*params, ctx, dst_mul_params);
  dst_mul_params->set_channel_dimension(channel_dimension);'''),
('pack-side','bug',['P04'],C,'      &RunPack<ThePath, RhsKernelLayout, RhsScalar, PackedRhsScalar>;','      &RunPack<ThePath, LhsKernelLayout, LhsScalar, PackedLhsScalar>;'),
('pack-path','bug',['P04'],C,'      &RunPack<ThePath, RhsKernelLayout, RhsScalar, PackedRhsScalar>;','      &RunPack<Path::kStandardCpp, RhsKernelLayout, RhsScalar, PackedRhsScalar>;'),
('pzp','bug',['P04'],C,'packed_matrix->zero_point = Pack<PackedScalar, Scalar>(src.zero_point);','packed_matrix->zero_point = static_cast<PackedScalar>(src.zero_point);'),
('pcols','bug',['P04'],C,'  packed_layout->cols = round_up_pot(src.cols, kernel_layout.cols);','  packed_layout->cols = round_up_pot(src.cols, kernel_layout.rows);'),
('prows','bug',['P04'],C,'  packed_layout->rows = round_up_pot(src.rows, kernel_layout.rows);','  packed_layout->rows = round_up_pot(src.rows, 2);'),
('dst-int','bug',['A03'],M,'inline Mat<Scalar> ToInternal(Matrix<Scalar>& src) {\n  Mat<Scalar> ret;\n  ret.data.set(src.data());\n  ret.layout = ToInternal(src.layout());\n  ret.zero_point = src.zero_point();\n  ret.cache_policy = src.cache_policy();','inline Mat<Scalar> ToInternal(Matrix<Scalar>& src) {\n  Mat<Scalar> ret;\n  ret.data.set(src.data());\n  ret.layout = ToInternal(src.layout());\n  ret.zero_point = 0;\n  ret.cache_policy = src.cache_policy();'),
('erase-zp','bug',['A03'],M,'matrix.data.get()));\n  ret.layout = matrix.layout;\n  ret.zero_point = matrix.zero_point;\n','matrix.data.get()));\n  ret.layout = matrix.layout;\n  ret.zero_point = static_cast<std::int8_t>(matrix.zero_point);\n'),
('noarch-env','bug',['P01'],X,'*paths = paths_bitfield | kNonArchPaths;','*paths = paths_bitfield;'),
('noarch-set','bug',['P01'],X,'mutable_impl()->runtime_enabled_paths_ = paths | kNonArchPaths;','mutable_impl()->runtime_enabled_paths_ = paths;'),
('least','bug',['P01'],P,'return static_cast<Path>(round_down_pot(static_cast<int>(path_mask)));','return static_cast<Path>(static_cast<int>(path_mask) & -static_cast<int>(path_mask));'),
('sel-compiled','bug',['P01'],X,'GetMostSignificantPath(compiled_paths & GetRuntimeEnabledPaths());','GetMostSignificantPath(GetRuntimeEnabledPaths());'),
('sel-last','bug',['P01'],X,'''  return mutable_impl()->last_used_path_ =
             GetMostSignificantPath(compiled_paths & GetRuntimeEnabledPaths());''','''  mutable_impl()->last_used_path_ = GetMostSignificantPath(GetRuntimeEnabledPaths());
  return GetMostSignificantPath(compiled_paths & GetRuntimeEnabledPaths());'''),
('gate-512','bug',['P02'],U,'         cpuinfo_has_x86_avx512bw() && cpuinfo_has_x86_avx512vl();','         cpuinfo_has_x86_avx512bw();'),
('gate-fma','bug',['P02'],U,'''  return EnsureInitialized() && cpuinfo_has_x86_avx2() &&
         cpuinfo_has_x86_fma3();''','''  return EnsureInitialized() && cpuinfo_has_x86_avx2();'''),
('gate-or','bug',['P02'],U,'''  return EnsureInitialized() && cpuinfo_has_x86_avx2() &&
         cpuinfo_has_x86_fma3();''','''  return EnsureInitialized() && (cpuinfo_has_x86_avx2() ||
         cpuinfo_has_x86_fma3());'''),
('gate-noinit','bug',['P02'],U,'bool CpuInfo::Avx() { return EnsureInitialized() && cpuinfo_has_x86_avx(); }','bool CpuInfo::Avx() { return cpuinfo_has_x86_avx(); }'),
('gate-order','bug',['P02'],U,'bool CpuInfo::Avx() { return EnsureInitialized() && cpuinfo_has_x86_avx(); }','bool CpuInfo::Avx() { bool r = cpuinfo_has_x86_avx(); return EnsureInitialized() && r; }'),
('gate-swap','bug',['P02'],X,'[=]() { return HaveBuiltPathForAvx512() && cpuinfo->Avx512(); });','[=]() { return HaveBuiltPathForAvx512() && cpuinfo->Avx2Fma(); });'),
('init-ignored','bug',['P02'],U,'''  if (!cpuinfo_initialize()) {
    MakeDummyCacheParams(&cache_params_);
    return InitStatus::kFailed;
  }''','''  if (!cpuinfo_initialize()) {
    MakeDummyCacheParams(&cache_params_);
    return InitStatus::kInitialized;
  }'''),
('ref-transpose','ref',ALL,C,'''  if (IsColMajor(dst.layout)) {
    detail::CreateTrMulParamsAssumingColMajorDst<CompiledPaths>(
        lhs, rhs, dst, mul_params, channel_dimension, ctx, params);
  } else {''','''  const bool col_major = dst.layout.order == Order::kColMajor;
  if (col_major) {
    detail::CreateTrMulParamsAssumingColMajorDst<CompiledPaths>(
        lhs, rhs, dst, mul_params, channel_dimension, ctx, params);
    return;
  }
  {'''),
('ref-helper','ref',ALL,[(C,'''template <typename AccumScalar, typename DstScalar,
          bool HaveQuantizedMultipliers =''','''template <typename T>
T* GrowBuffer(const T* old_data, int size, int capacity, Allocator* allocator) {
  T* new_data = allocator->Allocate<T>(capacity);
  std::memset(new_data, 0, capacity * sizeof(T));
  for (int i = 0; i < size; i++) {
    new_data[i] = old_data[i];
  }
  return new_data;
}

template <typename AccumScalar, typename DstScalar,
          bool HaveQuantizedMultipliers ='''),(C,'''      int* new_data = allocator->Allocate<int>(required_capacity);
      std::memcpy(new_data, mul_params->multiplier_exponent_perchannel(),
                  user_size * sizeof(int));
      std::memset(new_data + user_size, 0,
                  (required_capacity - user_size) * sizeof(int));
      mul_params->set_multiplier_exponent_perchannel(new_data);''','''      mul_params->set_multiplier_exponent_perchannel(GrowBuffer(
          mul_params->multiplier_exponent_perchannel(), user_size,
          required_capacity, allocator));''')]),
('ref-fill','ref',ALL,C,'''      std::memset(new_data + user_size, 0,
                  (required_capacity - user_size) * sizeof(int));''','''      for (int i = user_size; i < required_capacity; i++) new_data[i] = 0;'''),
('ref-stdcopy','ref',ALL,[(C,'''      std::memcpy(new_data, mul_params->multiplier_exponent_perchannel(),
                  user_size * sizeof(int));
      std::memset(new_data + user_size, 0,
                  (required_capacity - user_size) * sizeof(int));''','''      std::copy_n(mul_params->multiplier_exponent_perchannel(), user_size, new_data);
      std::fill(new_data + user_size, new_data + required_capacity, 0);'''),(C,'#include <cstring>','#include <algorithm>\n#include <cstring>')]),
('ref-order','ref',ALL,C,'''  params->src[Side::kLhs] = EraseType(lhs);
  params->src[Side::kRhs] = EraseType(rhs);
  params->dst = EraseType(dst);
''','''  params->dst = EraseType(dst);
  params->src[Side::kRhs] = EraseType(rhs);
  params->src[Side::kLhs] = EraseType(lhs);
'''),
('ref-round','ref',ALL,C,'  packed_layout->cols = round_up_pot(src.cols, kernel_layout.cols);','  packed_layout->cols = (src.cols + kernel_layout.cols - 1) / kernel_layout.cols * kernel_layout.cols;'),
('ref-detect','ref',['P01','P02'],X,'''  maybe_add(Path::kAvx,
            [=]() { return HaveBuiltPathForAvx() && cpuinfo->Avx(); });''','''  if ((paths_to_detect & Path::kAvx) != Path::kNone && HaveBuiltPathForAvx() &&
      cpuinfo->Avx()) {
    result = result | Path::kAvx;
  }'''),
('ref-512','ref',['P01','P02'],U,'''  return EnsureInitialized() && cpuinfo_has_x86_avx512f() &&
         cpuinfo_has_x86_avx512dq() && cpuinfo_has_x86_avx512cd() &&
         cpuinfo_has_x86_avx512bw() && cpuinfo_has_x86_avx512vl();''','''  if (!EnsureInitialized()) {
    return false;
  }
  if (!cpuinfo_has_x86_avx512vl() || !cpuinfo_has_x86_avx512bw()) {
    return false;
  }
  return cpuinfo_has_x86_avx512f() && cpuinfo_has_x86_avx512dq() &&
         cpuinfo_has_x86_avx512cd();'''),
('ref-msb','ref',['P01','P02'],P,'return static_cast<Path>(round_down_pot(static_cast<int>(path_mask)));','''int bit = 1 << 7;
  while (bit > 1 && !(static_cast<int>(path_mask) & bit)) bit >>= 1;
  return static_cast<Path>(bit);'''),
('ref-select','ref',['P01','P02'],X,'''  return mutable_impl()->last_used_path_ =
             GetMostSignificantPath(compiled_paths & GetRuntimeEnabledPaths());''','''  const Path candidates = GetRuntimeEnabledPaths() & compiled_paths;
  mutable_impl()->last_used_path_ = GetMostSignificantPath(candidates);
  return last_used_path();'''),
('ref-init','ref',['P01','P02'],U,'''  if (!cpuinfo_initialize()) {
    MakeDummyCacheParams(&cache_params_);
    return InitStatus::kFailed;
  }
  if (!QueryCacheParams(&cache_params_)) {
    MakeDummyCacheParams(&cache_params_);
    return InitStatus::kFailed;
  }
  return InitStatus::kInitialized;''','''  if (cpuinfo_initialize() && QueryCacheParams(&cache_params_)) {
    return InitStatus::kInitialized;
  }
  MakeDummyCacheParams(&cache_params_);
  return InitStatus::kFailed;'''),
]
