D='ruy/denormal.cc'
T='ruy/thread_pool.cc'
R='ruy/trmul.cc'
TINY='''
#include <cstdio>
#include <vector>
#include "ruy/ruy.h"
int main() {
  const int n = 384, k = 64;
  std::vector<float> a(n * k, %s), b(k * n, %s);
  int bad = 0;
  for (int threads = 1; threads <= 4; threads += 3) {
    ruy::Context ctx;
    ctx.set_max_num_threads(threads);
    for (int rep = 0; rep < 20; rep++) {
      std::vector<float> c(n * n, 5.f);
      ruy::Matrix<float> A, B, D;
      ruy::MakeSimpleLayout(n, k, ruy::Order::kRowMajor, A.mutable_layout());
      ruy::MakeSimpleLayout(k, n, ruy::Order::kColMajor, B.mutable_layout());
      ruy::MakeSimpleLayout(n, n, ruy::Order::kColMajor, D.mutable_layout());
      A.set_data(a.data()); B.set_data(b.data()); D.set_data(c.data());
      ruy::MulParams<float, float> mp;
      ruy::Mul(A, B, mp, &ctx, &D);
      for (float x : c) bad += x != 0.f;
    }
  }
  printf("%%d not flushed\\n", bad);
  return bad != 0;
}
'''
SEEDS=[
dict(id='f01-inputs-kept', property='F01', flags='-O1', timeout=200,
 needs='a float multiplication with subnormal operand values',
 breaks='only results are flushed to zero; subnormal operands are used as they are',
 edits=[(D,'_mm_setcsr(_mm_getcsr() | 0x8040);','_mm_setcsr(_mm_getcsr() | 0x8000);')],
 demo=TINY % ('1e-40f','1e20f')),
dict(id='f01-late-save', property='F01', flags='-O1', timeout=100,
 needs='a caller that computes with subnormal numbers after a multiplication',
 breaks='the floating-point control state is saved after it was changed, so the caller keeps flushing subnormals to zero',
 edits=[(D,'  restore_ = get_fpu_state();\n  disable_fpu_denormals();','  disable_fpu_denormals();\n  restore_ = get_fpu_state();')],
 demo='''
#include <xmmintrin.h>
#include <cstdio>
#include <vector>
#include "ruy/ruy.h"
int main() {
  const int n = 40;
  std::vector<float> a(n * n, 1.f), b(n * n, 2.f), c(n * n);
  unsigned before = _mm_getcsr() & 0xffc0;
  ruy::Context ctx;
  ruy::Matrix<float> A, B, D;
  ruy::MakeSimpleLayout(n, n, ruy::Order::kRowMajor, A.mutable_layout());
  ruy::MakeSimpleLayout(n, n, ruy::Order::kColMajor, B.mutable_layout());
  ruy::MakeSimpleLayout(n, n, ruy::Order::kColMajor, D.mutable_layout());
  A.set_data(a.data()); B.set_data(b.data()); D.set_data(c.data());
  ruy::MulParams<float, float> mp;
  ruy::Mul(A, B, mp, &ctx, &D);
  unsigned after = _mm_getcsr() & 0xffc0;
  volatile float x = 1e-30f, y = 1e-10f;
  volatile float z = x * y;
  printf("%x %x %g\\n", before, after, z);
  return before != after || z == 0.f;
}
'''),
]
