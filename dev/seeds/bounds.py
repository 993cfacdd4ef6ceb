X='ruy/kernel_x86.h'; PX='ruy/pack_x86.h'; P5='ruy/pack_avx512.cc'; P2='ruy/pack_avx2_fma.cc'; K5='ruy/kernel_avx512.cc'
GUARD='''
#include <sys/mman.h>
#include <unistd.h>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <vector>
#include "ruy/ruy.h"
// an array that ends where inaccessible memory begins
template <typename T> T* at_end(int n) {
  long page = sysconf(_SC_PAGESIZE);
  long bytes = (n * sizeof(T) + page - 1) / page * page;
  char* p = static_cast<char*>(mmap(nullptr, bytes + page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  mprotect(p + bytes, page, PROT_NONE);
  return reinterpret_cast<T*>(p + bytes) - n;
}
'''
SEEDS=[
dict(id='m05-into-padding', property='M05', flags='-O1', timeout=100,
 needs='a destination that is a window of a larger column-major matrix, with a row count that is not a multiple of 8, on the AVX or AVX2 path',
 breaks='the float kernel stores whole vectors when the stride leaves room for them, overwriting elements of the caller outside the destination',
 edits=[(X,'''        intrin_utils::mm256_n_storeu_ps<path>(block_ptr, residual_rows,
                                              accum_data_v[j]);
      }
    }  // End row-block loop.
  }    // End col-block terminal conditional.''','''        if (row + 8 <= dst_stride) {
          _mm256_storeu_ps(block_ptr, accum_data_v[j]);
        } else {
          intrin_utils::mm256_n_storeu_ps<path>(block_ptr, residual_rows,
                                                accum_data_v[j]);
        }
      }
    }  // End row-block loop.
  }    // End col-block terminal conditional.''')],
 demo=GUARD+'''
int main() {
  const int rows = 5, cols = 3, depth = 4, stride = 16;
  std::vector<float> a(rows * depth, 1.f), b(depth * cols, 1.f), c(stride * cols, -7.f);
  ruy::Context ctx;
  ctx.set_runtime_enabled_paths(ruy::Path::kAvx2Fma | ruy::Path::kStandardCpp);
  ruy::Matrix<float> A, B, D;
  ruy::MakeSimpleLayout(rows, depth, ruy::Order::kRowMajor, A.mutable_layout());
  ruy::MakeSimpleLayout(depth, cols, ruy::Order::kColMajor, B.mutable_layout());
  ruy::MakeSimpleLayout(rows, cols, ruy::Order::kColMajor, D.mutable_layout());
  D.mutable_layout()->set_stride(stride);
  A.set_data(a.data()); B.set_data(b.data()); D.set_data(c.data());
  ruy::MulParams<float, float> mp;
  ruy::Mul(A, B, mp, &ctx, &D);
  int bad = 0;
  for (int j = 0; j < cols; j++)
    for (int i = 0; i < stride; i++) bad += c[j * stride + i] != (i < rows ? depth : -7.f);
  printf("%d unexpected values\\n", bad);
  return bad != 0;
}
'''),
dict(id='m06-tail-padding', property='M06', flags='-O1', timeout=100,
 needs='a float operand that is a window at the very end of a larger column-major matrix, with a depth that is not a multiple of 8, on the AVX or AVX2 path',
 breaks='the tail of a column is read with whole vectors when the stride leaves room for them, which for the last column is past the end of the operand',
 edits=[(PX,'''      const __m256i row_mask_v = CompareGreaterThan<path>(
          _mm256_set1_epi32(available_src_rows), series);''','''      // Whole vectors are fine as long as they stay within the stride.
      const int loaded_src_rows =
          k + kPackRows <= src_stride ? kPackRows : available_src_rows;
      const __m256i row_mask_v = CompareGreaterThan<path>(
          _mm256_set1_epi32(loaded_src_rows), series);''')],
 demo=GUARD+'''
int main() {
  const int rows = 8, cols = 8, depth = 13, stride = 24;
  float* a = at_end<float>(stride * (rows - 1) + depth);
  float* b = at_end<float>(stride * (cols - 1) + depth);
  for (int i = 0; i < stride * (rows - 1) + depth; i++) a[i] = 1.f, b[i] = 2.f;
  std::vector<float> c(rows * cols);
  ruy::Context ctx;
  ctx.set_runtime_enabled_paths(ruy::Path::kAvx2Fma | ruy::Path::kStandardCpp);
  ruy::Matrix<float> A, B, D;
  ruy::MakeSimpleLayout(rows, depth, ruy::Order::kRowMajor, A.mutable_layout());
  ruy::MakeSimpleLayout(depth, cols, ruy::Order::kColMajor, B.mutable_layout());
  ruy::MakeSimpleLayout(rows, cols, ruy::Order::kColMajor, D.mutable_layout());
  A.mutable_layout()->set_stride(stride);
  B.mutable_layout()->set_stride(stride);
  A.set_data(a); B.set_data(b); D.set_data(c.data());
  ruy::MulParams<float, float> mp;
  ruy::Mul(A, B, mp, &ctx, &D);
  int bad = 0;
  for (float x : c) bad += x != 2 * depth;
  printf("%d unexpected values\\n", bad);
  return bad != 0;
}
'''),
dict(id='m07-load-ahead', property='M07', flags='-O1', timeout=100,
 needs='a packed operand that ends where its memory ends, multiplied by a single column on the AVX or AVX2 path',
 breaks='the single-column float kernel loads one row ahead and so reads past the packed operand on the last row',
 edits=[(X,'''    for (int d = 0; d < params.depth; ++d) {
      const __m256 lhs_data = _mm256_loadu_ps(lhs_ptr);
      const float* rhs_data = rhs_ptr;

      const __m256 dup_rhs_element_j = _mm256_set1_ps(rhs_data[0]);
      accum_data_v =
          intrin_utils::MulAdd<path>(lhs_data, dup_rhs_element_j, accum_data_v);
      lhs_ptr += 8;
      rhs_ptr += 8;
    }''','''    __m256 lhs_data = _mm256_loadu_ps(lhs_ptr);
    for (int d = 0; d < params.depth; ++d) {
      // Load the next row while this one is being multiplied.
      lhs_ptr += 8;
      const __m256 next_lhs_data = _mm256_loadu_ps(lhs_ptr);
      const __m256 dup_rhs_element_j = _mm256_set1_ps(rhs_ptr[0]);
      accum_data_v =
          intrin_utils::MulAdd<path>(lhs_data, dup_rhs_element_j, accum_data_v);
      lhs_data = next_lhs_data;
      rhs_ptr += 8;
    }''')],
 demo=GUARD+'''
#include <cstdlib>
#include <cerrno>
// memory asked for with an alignment ends where inaccessible memory begins
static bool guarded = false;
static void* given[64];
static int num_given = 0;
extern "C" void __libc_free(void*);
extern "C" void free(void* p) {
  for (int i = 0; i < num_given; i++)
    if (given[i] == p) return;
  __libc_free(p);
}
extern "C" int posix_memalign(void** out, size_t align, size_t n) {
  if (!guarded) { *out = aligned_alloc(align, (n + align - 1) / align * align); return *out ? 0 : ENOMEM; }
  n = (n + align - 1) / align * align;
  if (num_given == 64) return ENOMEM;
  *out = given[num_given++] = at_end<char>(static_cast<int>(n));
  return 0;
}
int main() {
  const int rows = 5, depth = 64;
  std::vector<float> a(rows * depth, 1.f), b(depth, 1.f), c(rows);
  ruy::Context ctx;
  ctx.set_max_num_threads(1);
  ctx.set_runtime_enabled_paths(ruy::Path::kAvx2Fma | ruy::Path::kStandardCpp);
  ruy::Matrix<float> A, B, D;
  ruy::MakeSimpleLayout(rows, depth, ruy::Order::kRowMajor, A.mutable_layout());
  ruy::MakeSimpleLayout(depth, 1, ruy::Order::kColMajor, B.mutable_layout());
  ruy::MakeSimpleLayout(rows, 1, ruy::Order::kColMajor, D.mutable_layout());
  A.set_data(a.data()); B.set_data(b.data()); D.set_data(c.data());
  A.set_cache_policy(ruy::CachePolicy::kAlwaysCache);
  ruy::MulParams<float, float> mp;
  guarded = true;
  ruy::Mul(A, B, mp, &ctx, &D);
  guarded = false;
  int bad = 0;
  for (float x : c) bad += x != depth;
  printf("%d unexpected values\\n", bad);
  fflush(stdout);
  _exit(bad != 0);
}
'''),
dict(id='m08-narrow-tail', property='M08', flags='-O1', timeout=100,
 needs='a depth of more than 32767 that leaves a short tail, on the AVX2 path',
 breaks='the position of the tail is kept in 16 bits, so that for great depths it is written in front of the packed block',
 edits=[(P2,'''    const int non_trailing_rows = src_rows & ~kChunkedRowMask;''','''    const std::int16_t non_trailing_rows = src_rows & ~kChunkedRowMask;''')],
 demo=GUARD+'''
int main() {
  const int rows = 8, cols = 8, depth = 40001;
  std::vector<std::int8_t> a(rows * depth, 1), b(depth * cols, 1);
  std::vector<std::int32_t> c(rows * cols);
  ruy::Context ctx;
  ctx.set_runtime_enabled_paths(ruy::Path::kAvx2Fma | ruy::Path::kStandardCpp);
  ruy::Matrix<std::int8_t> A, B;
  ruy::Matrix<std::int32_t> D;
  ruy::MakeSimpleLayout(rows, depth, ruy::Order::kRowMajor, A.mutable_layout());
  ruy::MakeSimpleLayout(depth, cols, ruy::Order::kColMajor, B.mutable_layout());
  ruy::MakeSimpleLayout(rows, cols, ruy::Order::kColMajor, D.mutable_layout());
  A.set_data(a.data()); B.set_data(b.data()); D.set_data(c.data());
  ruy::MulParams<std::int32_t, std::int32_t> mp;
  ruy::Mul(A, B, mp, &ctx, &D);
  int bad = 0;
  for (int x : c) bad += x != depth;
  printf("%d unexpected values\\n", bad);
  return bad != 0;
}
'''),
]
