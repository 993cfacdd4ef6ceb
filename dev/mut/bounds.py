X='ruy/kernel_x86.h'; K='ruy/kernel.h'; K5='ruy/kernel_avx512.cc'; K2='ruy/kernel_avx2_fma.cc'; KC='ruy/kernel_common.h'
P='ruy/pack.h'; PX='ruy/pack_x86.h'; P2='ruy/pack_avx2_fma.cc'; P5='ruy/pack_avx512.cc'; PA='ruy/pack_avx.cc'; M='ruy/mat.h'
ALL=['M05','M06','M07','M08']
KR=['M05','M07']; PK=['M06','M08']
MUT=[
('float-tail-full','bug',['M05'],X,'''        intrin_utils::mm256_n_storeu_ps<path>(block_ptr, residual_rows,
                                              accum_data_v[j]);
      }
    }  // End row-block loop.
  }    // End col-block terminal conditional.''','''        _mm256_storeu_ps(block_ptr, accum_data_v[j]);
      }
    }  // End row-block loop.
  }    // End col-block terminal conditional.'''),
('gemv-tail-full','bug',['M05'],X,'''    intrin_utils::mm256_n_storeu_ps<path>(dst_ptr, residual_rows, accum_data_v);
  }  // End handling''','''    _mm256_storeu_ps(dst_ptr, accum_data_v);
  }  // End handling'''),
('nstore-le','bug',['M05'],X,'''  for (int i = 0; i < residual_rows; ++i) {
    dst[i] = intrin_utils::mm256_get1_ps''','''  for (int i = 0; i <= residual_rows; ++i) {
    dst[i] = intrin_utils::mm256_get1_ps'''),
('avx512-mask','bug',['M05'],K5,'''    const int residual_rows = std::min(params.dst_rows - row, 16);

    __m512i accum_data_v0;

    // Initialize with bias.
    const __mmask16 row_mask =
        (static_cast<std::uint32_t>(1) << residual_rows) - 1;''','''    const int residual_rows = std::min(params.dst_rows - row, 16);

    __m512i accum_data_v0;

    // Initialize with bias.
    const __mmask16 row_mask =
        (static_cast<std::uint32_t>(2) << residual_rows) - 1;'''),
('avx512-mask2','bug',['M05'],K5,'''            _mm256_mask_storeu_epi16(tmp_ptr + j * block_col_offset, row_mask,
                                     _mm512_cvtepi32_epi16(result));''','''            _mm256_storeu_si256(reinterpret_cast<__m256i*>(tmp_ptr + j * block_col_offset),
                                     _mm512_cvtepi32_epi16(result));'''),
('avx512-cols','bug',['M05'],K5,'''            for (int j = 0; j < residual_cols; ++j) {
              float* block_ptr = dst_ptr + (mmm * 8 + j) * dst_stride;''','''            for (int j = 0; j < 8; ++j) {
              float* block_ptr = dst_ptr + (mmm * 8 + j) * dst_stride;'''),
('generic-rows','bug',['M05'],K,'int clamped_end_row = std::min(end_row, dst->layout.rows);','int clamped_end_row = end_row;'),
('store-full-or','bug',['M05'],K5,'''(residual_rows == 16) && (residual_cols == 16);''','''(residual_rows == 16) || (residual_cols == 16);'''),
('last-row','bug',['M05'],KC,'''  params->last_row = end_row - LhsCols;
  params->last_col = end_col - RhsCols;
  params->lhs_stride = sizeof(float)''','''  params->last_row = end_row;
  params->last_col = end_col - RhsCols;
  params->lhs_stride = sizeof(float)'''),
('depth-le','bug',['M07'],X,'''    for (int d = 0; d < params.depth; ++d) {
      const __m256 lhs_data = _mm256_loadu_ps(lhs_ptr);
      const float* rhs_data = rhs_ptr;''','''    for (int d = 0; d <= params.depth; ++d) {
      const __m256 lhs_data = _mm256_loadu_ps(lhs_ptr);
      const float* rhs_data = rhs_ptr;'''),
('depth-2x','bug',['M07'],X,'for (; d <= params.depth - 4; d += 4) {','for (; d < params.depth - 2; d += 4) {'),
('bias-ninc','bug',['M07'],X,'''int bias_ptr_block_increment = params.flags & RUY_ASM_FLAG_HAS_BIAS ? 1 : 0;
  // AVX2 float block size = 8.
  const int end_row = std::min(params.dst_rows, params.last_row + 8);

''','''int bias_ptr_block_increment = 1;
  // AVX2 float block size = 8.
  const int end_row = std::min(params.dst_rows, params.last_row + 8);

'''),
('channel-always','bug',['M07'],K2,'''      int channel = (params.flags & RUY_ASM_FLAG_HAS_PERCHANNEL) ? row : 0;''','''      int channel = row;'''),
('generic-bias','bug',['M07'],K,'accum += mul_params.bias()[channel];','accum += mul_params.bias()[i];'),
('generic-sums','bug',['M07'],K,'accum -= lhs.zero_point * rhs.sums[j];','accum -= lhs.zero_point * rhs.sums[i];'),
('lhs-stride','bug',['M07'],K5,'''          lhs_ptr += 16;
          rhs_ptr += 16;
        }

        const int residual_cols''','''          lhs_ptr += 16 + (params.depth > 4096);
          rhs_ptr += 16;
        }

        const int residual_cols'''),
('pack2-cols','bug',['M06'],P2,'if (remaining_src_cols <= 3) {','if (remaining_src_cols < 3) {'),
('packx-cols','bug',['M06'],PX,'''    if (remaining_src_cols <= 6) {
      src_ptr6 = zerobuf;''','''    if (remaining_src_cols <= 5) {
      src_ptr6 = zerobuf;'''),
('packx-cols4','bug',['M06'],PX,'''    if (remaining_src_cols <= 4) {
      src_ptr4 = zerobuf;
      src_inc4 = 0;''','''    if (remaining_src_cols <= 4) {
      src_ptr4 = zerobuf;
      src_inc5 = 0;'''),
('maskload-16','bug',['M06'],PX,'''    memcpy(&load_lo, addr, available_src_rows);''','''    load_lo = _mm_loadu_si128(reinterpret_cast<const __m128i*>(addr));'''),
('maskload-hi','bug',['M06'],PX,'''    memcpy(&load_hi, addr + 16, available_src_rows - 16);''','''    memcpy(&load_hi, addr + 16, available_src_rows - 15);'''),
('pack5-mask','bug',['M06'],P5,'''        const __mmask8 row_mask =
            (static_cast<std::uint32_t>(1) << available_src_rows) - 1;''','''        const __mmask8 row_mask =
            (static_cast<std::uint32_t>(2) << available_src_rows) - 1;'''),
('pack5-full','bug',['M06'],P5,'''        t3 = MaskLoaduTwo(row_mask, src_ptr3, src_ptr7);''','''        t3 = LoaduTwo(src_ptr3, src_ptr7);'''),
('row-endcol','bug',['M06'],P2,'for (; col <= src_end_col - 8; col += 8) {','for (; col <= end_col - 8; col += 8) {'),
('row-block','bug',['M06'],P5,'    if (block_row + 4 <= src_rows) {','    if (block_row + 3 <= src_rows) {'),
('row-two','bug',['M06'],P2,'''      if (block_row + 3 < src_rows)
        val3''','''      if (block_row + 2 < src_rows)
        val3'''),
('generic-cols','bug',['M06'],P,'if (col < src_matrix.layout.cols && row < src_matrix.layout.rows) {','if (col < src_matrix.layout.cols) {'),
('zerobuf','bug',['M06'],PX,'''    Scalar zerobuf[Layout::kCols * Layout::kRows];
    memset(zerobuf, packed_matrix->zero_point ^ kInputXor,
           Layout::kCols * Layout::kRows * sizeof(Scalar));''','''    Scalar zerobuf[Layout::kCols];
    memset(zerobuf, packed_matrix->zero_point ^ kInputXor,
           Layout::kCols * sizeof(Scalar));'''),
('trail-memcpy','bug',['M08'],P2,'''           Layout::kCols * trailing_rows * sizeof(std::int8_t));''','''           sizeof(trailing_buf));'''),
('trail-round','bug',['M08'],P5,'const int dst_rows = (src_rows + 3) & ~3;','const int dst_rows = (src_rows + 7) & ~7;'),
('trail-small','bug',['M08'],P5,'float trailing_buf[7 * 16];','float trailing_buf[6 * 16];'),
('trail-mask','bug',['M08'],P2,'const std::ptrdiff_t trailing_rows = src_rows & (kPackRows - 1);','const std::ptrdiff_t trailing_rows = src_rows & kPackRows;'),
('sums-second','bug',['M08'],P5,'sums_ptr ? sums_ptr + kHalfLayoutCols : nullptr;','sums_ptr ? sums_ptr + Layout::kCols : nullptr;'),
('zero-half','bug',['M08'],P5,'  const int non_trailing_rows = src_rows & ~7;\n  for (int k','  const int non_trailing_rows = (src_rows + 7) & ~7;\n  for (int k'),
('packed-direct','bug',['M08'],PX,'_mm256_storeu_ps(trailing_buf + 0 * 8, r0);','_mm256_storeu_ps(packed_ptr + 7 * 8, r0);'),
('row-memset','bug',['M08'],P2,'std::memset(packed_ptr, 0, 4);\n    packed_ptr += 4;','std::memset(packed_ptr, 0, 4);\n    packed_ptr += 8;'),
('rows-stride','bug',['M08'],PX,'packed_matrix->data + start_col * packed_stride + block_row * 8;','packed_matrix->data + start_col * packed_stride + block_row * 16;'),
('sums-memset','bug',['M08'],PX,'std::memset(sums + start_col, 0, sizeof(sums[0]) * (end_col - start_col));','std::memset(sums + start_col, 0, sizeof(sums[0]) * end_col);'),
('generic-rows','bug',['M08'],P,'row < packed_matrix->layout.rows; row++','row <= packed_matrix->layout.rows; row++'),
# refactorings
('ref-nstore-while','ref',ALL,X,'''  for (int i = 0; i < residual_rows; ++i) {
    dst[i] = intrin_utils::mm256_get1_ps<path>(v, i);
  }''','''  int i = 0;
  while (i != residual_rows) {
    *dst++ = intrin_utils::mm256_get1_ps<path>(v, i++);
  }'''),
('ref-nstore-buf','ref',ALL,X,'''  for (int i = 0; i < residual_rows; ++i) {
    dst[i] = intrin_utils::mm256_get1_ps<path>(v, i);
  }''','''  float lanes[8];
  _mm256_storeu_ps(lanes, v);
  for (int i = 0; i < residual_rows; ++i) {
    dst[i] = lanes[i];
  }'''),
('ref-nstore-mask','ref',ALL,X,'''  for (int i = 0; i < residual_rows; ++i) {
    dst[i] = intrin_utils::mm256_get1_ps<path>(v, i);
  }''','''  float lanes[8];
  _mm256_storeu_ps(lanes, v);
  memcpy(dst, lanes, residual_rows * sizeof(float));'''),
('ref-mask-shift','ref',ALL,K5,'''    // Initialize with bias.
    const __mmask16 row_mask =
        (static_cast<std::uint32_t>(1) << residual_rows) - 1;
    __m512i initial''','''    // Initialize with bias.
    const __mmask16 row_mask = static_cast<__mmask16>(0xffffu >> (16 - residual_rows));
    __m512i initial'''),
('ref-generic-swap','ref',ALL,K,'''    for (int i = start_row; i < clamped_end_row; i++) {
      for (int j = start_col; j < clamped_end_col; j++) {''','''    for (int j = start_col; j < clamped_end_col; j++) {
      for (int i = start_row; i < clamped_end_row; i++) {'''),
('ref-generic-down','ref',ALL,K,'''        for (int k = 0; k < depth; k++) {''','''        for (int k = depth - 1; k >= 0; k--) {'''),
('ref-generic-ptr','ref',ALL,K,'''        if (mul_params.bias()) {
          accum += mul_params.bias()[channel];
        }''','''        const AccumScalar* bias = mul_params.bias();
        accum += bias ? *(bias + channel) : AccumScalar(0);'''),
('ref-clamp','ref',ALL,K,'int clamped_end_row = std::min(end_row, dst->layout.rows);','const int clamped_end_row = dst->layout.rows < end_row ? dst->layout.rows : end_row;'),
('ref-rowloop','ref',ALL,K5,'''  for (int row = params.start_row; row <= params.last_row; row += 16) {
    const int residual_rows = std::min(params.dst_rows - row, 16);

    __m512i accum_data_v0;''','''  for (int row = params.start_row; row < params.last_row + 16; row += 16) {
    const int left = params.dst_rows - row;
    const int residual_rows = left < 16 ? left : 16;

    __m512i accum_data_v0;'''),
('ref-memcpy-loop','ref',ALL,P2,'''    memcpy(packed_ptr + kPackCols * non_trailing_rows, trailing_buf,
           kPackCols * trailing_rows * sizeof(float));''','''    float* tail = packed_ptr + kPackCols * non_trailing_rows;
    for (int i = 0; i < kPackCols * trailing_rows; ++i) tail[i] = trailing_buf[i];'''),
('ref-memcpy-std','ref',ALL,P5,'''    memcpy(packed_ptr + 16 * non_trailing_rows, trailing_buf,
           16 * trailing_rows * sizeof(float));''','''    std::copy(trailing_buf, trailing_buf + 16 * trailing_rows,
              packed_ptr + 16 * non_trailing_rows);'''),
('ref-trail-mod','ref',ALL,P5,'''  const int trailing_rows = src_rows & 7;
  if (trailing_rows > 0) {
    const int non_trailing_rows = src_rows & ~7;''','''  const int trailing_rows = src_rows % 8;
  if (trailing_rows > 0) {
    const int non_trailing_rows = src_rows - trailing_rows;'''),
('ref-cols-else','ref',ALL,PX,'''    if (remaining_src_cols <= 6) {
      src_ptr6 = zerobuf;
      src_inc6 = 0;
    }''','''    if (!(remaining_src_cols > 6)) {
      src_inc6 = 0;
      src_ptr6 = zerobuf;
    }'''),
('ref-pack-down','ref',ALL,PX,'''  for (int k = 0; k < src_rows; k += kPackRows) {
    const int available_src_rows = src_rows - k;''','''  for (int available_src_rows = src_rows; available_src_rows > 0; available_src_rows -= kPackRows) {'''),
('ref-generic-pack','ref',ALL,P,'''      for (int row = 0; row < packed_matrix->layout.rows; row++) {
        PackedScalar packed_val;
        if (col < src_matrix.layout.cols && row < src_matrix.layout.rows) {
          packed_val = Pack<PackedScalar>(Element(src_matrix, row, col));
        } else {
          packed_val = packed_matrix->zero_point;
        }''','''      const bool inside = col < src_matrix.layout.cols;
      for (int row = 0; row < packed_matrix->layout.rows; row++) {
        PackedScalar packed_val = packed_matrix->zero_point;
        if (inside && row < src_matrix.layout.rows) {
          packed_val = Pack<PackedScalar>(*ElementPtr(src_matrix, row, col));
        }'''),
('ref-generic-split','ref',ALL,P,'''      for (int row = 0; row < packed_matrix->layout.rows; row++) {
        PackedScalar packed_val;
        if (col < src_matrix.layout.cols && row < src_matrix.layout.rows) {
          packed_val = Pack<PackedScalar>(Element(src_matrix, row, col));
        } else {
          packed_val = packed_matrix->zero_point;
        }
        accum''','''      int row = 0;
      if (col < src_matrix.layout.cols) {
        for (; row < src_matrix.layout.rows; row++) {
          PackedScalar packed_val = Pack<PackedScalar>(Element(src_matrix, row, col));
          accum += packed_val;
          *ElementPtr(packed_matrix, row, col) = packed_val;
        }
      }
      for (; row < packed_matrix->layout.rows; row++) {
        PackedScalar packed_val = packed_matrix->zero_point;
        accum'''),
('ref-sums-loop','ref',ALL,PX,'''    profiler::ScopeLabel label("Pack (kAvx2Fma 8bit row-major)");
    RUY_DCHECK_EQ(src_matrix.layout.order, Order::kRowMajor);
    static constexpr int kInputXor =
        std::is_same<Scalar, std::int8_t>::value ? 0 : 0x80;
    std::int32_t* sums = packed_matrix->sums;
    std::memset(sums + start_col, 0, sizeof(sums[0]) * (end_col - start_col));''','''    profiler::ScopeLabel label("Pack (kAvx2Fma 8bit row-major)");
    RUY_DCHECK_EQ(src_matrix.layout.order, Order::kRowMajor);
    static constexpr int kInputXor =
        std::is_same<Scalar, std::int8_t>::value ? 0 : 0x80;
    std::int32_t* sums = packed_matrix->sums;
    for (int c = start_col; c < end_col; ++c) sums[c] = 0;'''),
('ref-row-ptr','ref',ALL,PX,'''      const Scalar* src_ptr =
          src_matrix.data.get() + block_row * src_stride + start_col;
      std::int8_t* packed_ptr =
          packed_matrix->data + start_col * packed_stride + block_row * 16;''','''      const Scalar* src_ptr = src_matrix.data.get() + start_col;
      src_ptr += block_row * src_stride;
      std::int8_t* packed_ptr = packed_matrix->data + block_row * 16;
      packed_ptr += start_col * packed_stride;'''),
('ref-offset','ref',ALL,M,'''  int row_stride = layout.order == Order::kColMajor ? 1 : layout.stride;
  int col_stride = layout.order == Order::kRowMajor ? 1 : layout.stride;
  return row * row_stride + col * col_stride;''','''  if (layout.order == Order::kColMajor) return col * layout.stride + row;
  return row * layout.stride + col;'''),
('ref-residual-helper','ref',ALL,[(X,'''template <Path path>
inline void KernelFloatAvxCommonSingleCol(''','''inline int RowsLeft(int end_row, int row) {
  const int left = end_row - row;
  return left > 8 ? 8 : left;
}

template <Path path>
inline void KernelFloatAvxCommonSingleCol('''),(X,'''    const int residual_rows = end_row - row;
    RUY_CHECK_GE(residual_rows, 1);''','''    const int residual_rows = RowsLeft(end_row, row);
    RUY_CHECK_GE(residual_rows, 1);''')]),
]
