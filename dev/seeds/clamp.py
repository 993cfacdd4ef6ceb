X='ruy/kernel_x86.h'
SEEDS=[
dict(id='d01-tail-unclamped', property='D01', flags='-O1', timeout=100,
 needs='single precision with AVX2 or AVX, a number of columns that is not a multiple of eight, results outside a bound that is not the extreme value of the type',
 breaks='results in the last columns of the matrix below the lower bound are written as they are',
 edits=[(X,'''        accum_data_v[j] = _mm256_max_ps(accum_data_v[j], clamp_min_v);
        intrin_utils::mm256_n_storeu_ps<path>(block_ptr, residual_rows,
                                              accum_data_v[j]);
      }
    }  // End row-block loop.
  }    // End col-block terminal''','''        intrin_utils::mm256_n_storeu_ps<path>(block_ptr, residual_rows,
                                              accum_data_v[j]);
      }
    }  // End row-block loop.
  }    // End col-block terminal''')],
 demo='''
#include <cstdio>
#include <vector>
#include "ruy/ruy.h"
int run(ruy::Path path, int rows, int depth, int cols) {
  std::vector<float> a(rows * depth), b(depth * cols), c(rows * cols);
  for (size_t i = 0; i < a.size(); i++) a[i] = int(i % 7) - 3;
  for (size_t i = 0; i < b.size(); i++) b[i] = int(i % 5) - 2;
  ruy::Matrix<float> A, B, D;
  ruy::MakeSimpleLayout(rows, depth, ruy::Order::kRowMajor, A.mutable_layout());
  ruy::MakeSimpleLayout(depth, cols, ruy::Order::kColMajor, B.mutable_layout());
  ruy::MakeSimpleLayout(rows, cols, ruy::Order::kColMajor, D.mutable_layout());
  A.set_data(a.data()); B.set_data(b.data()); D.set_data(c.data());
  ruy::MulParams<float, float> mp;
  mp.set_clamp_min(-1.f);
  mp.set_clamp_max(2.f);
  ruy::Context ctx;
  ctx.set_runtime_enabled_paths(path);
  ruy::Mul(A, B, mp, &ctx, &D);
  int bad = 0;
  for (float v : c) bad += v < -1.f || v > 2.f;
  if (bad) std::printf("path %d, %d columns: %d results out of bounds\\n", int(path), cols, bad);
  return bad;
}
int main() {
  int bad = 0;
  for (int cols : {1, 3, 8, 11, 16, 29}) {
    bad += run(ruy::Path::kAvx2Fma, 37, 20, cols);
    bad += run(ruy::Path::kAvx, 37, 20, cols);
    bad += run(ruy::Path::kAvx512, 37, 20, cols);
    bad += run(ruy::Path::kStandardCpp, 37, 20, cols);
  }
  return bad != 0;
}
'''),
]
