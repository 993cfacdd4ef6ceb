K = 'ruy/kernel.h'
X = 'ruy/kernel_x86.h'
A2 = 'ruy/kernel_avx2_fma.cc'
A1 = 'ruy/kernel_avx.cc'
A5 = 'ruy/kernel_avx512.cc'
D = ['D01']
MX = '        accum = std::min<AccumScalar>(accum, mul_params.clamp_max());\n        accum = std::max<AccumScalar>(accum, mul_params.clamp_min());\n'
MUT = [
    ('ref-nomin', 'bug', D, K, '        accum = std::max<AccumScalar>(accum, mul_params.clamp_min());\n', ''),
    ('ref-swap', 'bug', D, K, MX, '        accum = std::max<AccumScalar>(accum, mul_params.clamp_max());\n        accum = std::min<AccumScalar>(accum, mul_params.clamp_min());\n'),
    ('ref-zp-after', 'bug', D, [(K, '        accum += dst->zero_point;\n', ''), (K, MX, MX + '        accum += dst->zero_point;\n')]),
    ('ref-cond', 'bug', D, K, MX, '        if (mul_params.bias()) {\n' + MX + '        }\n'),
    ('avx2-lane', 'bug', D, A2, '@566', ''),
    ('avx2-tail', 'bug', D, A2, '@590', ''),
    ('avx-single', 'bug', D, A1, '@1430', ''),
    ('avx512-lane', 'bug', D, A5, '@1140', ''),
    ('avx512-wrong', 'bug', D, A5, '@1143-1144', '            accum_data_v6 = _mm512_min_ps(accum_data_v6, clamp_max_v);\n            accum_data_v6 = _mm512_min_ps(accum_data_v6, clamp_min_v);'),
    ('avx512-u8', 'bug', D, A5, '@849', ''),
    ('x86-tail', 'bug', D, X, '@798', ''),
    ('x86-single', 'bug', D, X, '@908', ''),
    ('bound-const', 'bug', D, A5, '@505', '      const __m512i clamp_max_v = _mm512_set1_epi32(127);'),
    ('ref-order', 'ref', D, K, MX, '        accum = std::max<AccumScalar>(accum, mul_params.clamp_min());\n        accum = std::min<AccumScalar>(accum, mul_params.clamp_max());\n'),
    ('ref-tern', 'ref', D, K, MX, '        const AccumScalar hi = mul_params.clamp_max(), lo = mul_params.clamp_min();\n        accum = accum > hi ? hi : (accum < lo ? lo : accum);\n'),
    ('ref-if', 'ref', D, K, MX, '        if (accum > mul_params.clamp_max()) accum = mul_params.clamp_max();\n        if (accum < mul_params.clamp_min()) {\n          accum = mul_params.clamp_min();\n        }\n'),
    ('avx2-helper', 'ref', D, A2, '@555-556', '          auto clamp = [&](__m256i v) {\n            return _mm256_max_epi32(_mm256_min_epi32(v, clamp_max_v), clamp_min_v);\n          };\n          accum_data_v0 = clamp(accum_data_v0);'),
    ('x86-split', 'ref', D, X, '@798-799', '        __m256 clamped = _mm256_min_ps(accum_data_v[j], clamp_max_v);\n        clamped = _mm256_max_ps(clamped, clamp_min_v);\n        accum_data_v[j] = clamped;'),
    ('x86-two-loops', 'ref', D, X, '@700-704', '        for (int j = 0; j < 8; ++j) {\n          accum_data_v[j] = _mm256_min_ps(accum_data_v[j], clamp_max_v);\n          accum_data_v[j] = _mm256_max_ps(accum_data_v[j], clamp_min_v);\n        }\n        for (int j = 0; j < 8; ++j) {\n          float* block_ptr = dst_ptr + j * dst_stride;\n          _mm256_storeu_ps(block_ptr, accum_data_v[j]);'),
    ('x86-hoist', 'ref', D, X, '@699-713', '''      for (int j = 0; j < 8; ++j) {
        accum_data_v[j] = _mm256_max_ps(_mm256_min_ps(accum_data_v[j], clamp_max_v), clamp_min_v);
      }
      if (residual_rows == 8) {
        for (int j = 0; j < 8; ++j) {
          _mm256_storeu_ps(dst_ptr + j * dst_stride, accum_data_v[j]);
        }
      } else {
        for (int j = 0; j < 8; ++j) {
          intrin_utils::mm256_n_storeu_ps<path>(dst_ptr + j * dst_stride, residual_rows, accum_data_v[j]);
        }'''),
    ('avx2-fission', 'ref', D, A2, '@588-595', '''          for (int j = 0; j < residual_cols; ++j) {
            accum_data_v[j] = _mm256_min_epi32(accum_data_v[j], clamp_max_v);
            accum_data_v[j] = _mm256_max_epi32(accum_data_v[j], clamp_min_v);
          }
          for (int j = 0; j < residual_cols; ++j) {
            intrin_utils::mm256_n_storeu_cvtepi32_epi8<path>(tmp_ptr, residual_rows, accum_data_v[j]);
            tmp_ptr += dst_stride;
          }'''),
    ('avx2-fission-short', 'bug', D, A2, '@588-595', '''          for (int j = 0; j < residual_cols - 1; ++j) {
            accum_data_v[j] = _mm256_min_epi32(accum_data_v[j], clamp_max_v);
            accum_data_v[j] = _mm256_max_epi32(accum_data_v[j], clamp_min_v);
          }
          for (int j = 0; j < residual_cols; ++j) {
            intrin_utils::mm256_n_storeu_cvtepi32_epi8<path>(tmp_ptr, residual_rows, accum_data_v[j]);
            tmp_ptr += dst_stride;
          }'''),
    ('x86-hoist-short', 'bug', D, X, '@699-713', '''      for (int j = 0; j < 7; ++j) {
        accum_data_v[j] = _mm256_max_ps(_mm256_min_ps(accum_data_v[j], clamp_max_v), clamp_min_v);
      }
      if (residual_rows == 8) {
        for (int j = 0; j < 8; ++j) {
          _mm256_storeu_ps(dst_ptr + j * dst_stride, accum_data_v[j]);
        }
      } else {
        for (int j = 0; j < 8; ++j) {
          intrin_utils::mm256_n_storeu_ps<path>(dst_ptr + j * dst_stride, residual_rows, accum_data_v[j]);
        }'''),
    ('avx512-array', 'ref', D, A5, '@540-541', '            result = _mm512_max_epi32(clamp_min_v, _mm512_min_epi32(clamp_max_v, result));'),
]
