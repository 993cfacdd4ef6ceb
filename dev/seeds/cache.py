C='ruy/prepacked_cache.cc'
H='ruy/prepacked_cache.h'
P='ruy/prepare_packed_matrices.cc'
SEEDS=[
dict(id='k01-zero-point-ignored', property='K01', flags='-O1', timeout=100,
 needs='the same quantized constant operand used twice with different zero points, and caching requested for it',
 breaks='cached packed operands are found again although their zero point differs, so the second product is computed with the first zero point\'s packed data',
 edits=[(C,'  key.zero_point = packed_matrix->zero_point;','  key.zero_point = 0;')],
 demo='''
#include <cstdint>
#include <cstdio>
#include <vector>
#include "ruy/ruy.h"
int main() {
  const int n = 40;
  std::vector<std::uint8_t> a(n * n), b(n * n);
  for (int i = 0; i < n * n; i++) a[i] = i * 7 % 100, b[i] = i * 5 % 90;
  int bad = 0;
  ruy::Context ctx;
  for (int zp = 0; zp < 200; zp += 40) {
    std::vector<std::int32_t> c(n * n);
    ruy::Matrix<std::uint8_t> A, B;
    ruy::Matrix<std::int32_t> D;
    ruy::MakeSimpleLayout(n, n, ruy::Order::kRowMajor, A.mutable_layout());
    ruy::MakeSimpleLayout(n, n, ruy::Order::kColMajor, B.mutable_layout());
    ruy::MakeSimpleLayout(n, n, ruy::Order::kColMajor, D.mutable_layout());
    A.set_data(a.data()); B.set_data(b.data()); D.set_data(c.data());
    A.set_zero_point(zp);
    A.set_cache_policy(ruy::CachePolicy::kAlwaysCache);
    ruy::MulParams<std::int32_t, std::int32_t> mp;
    ruy::Mul(A, B, mp, &ctx, &D);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
      int s = 0;
      for (int k = 0; k < n; k++) s += (a[i * n + k] - zp) * b[j * n + k];
      bad += s != c[j * n + i];
    }
  }
  printf("%d wrong\\n", bad);
  return bad != 0;
}
'''),
dict(id='k02-sums-kept', property='K02', flags='-O1', timeout=100,
 needs='quantized operands evicted from the cache, or a context with cached quantized operands being destroyed',
 breaks='the column sums of an evicted or destroyed cache entry are never freed although they are discounted',
 edits=[(C,'''  detail::SystemAlignedFree(packed_matrix.sums);
''','')],
 demo='''
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <malloc.h>
#include <vector>
#include "ruy/ruy.h"
static long use() { return mallinfo2().uordblks + mallinfo2().hblkhd; }
int main() {
  const int n = 64;
  std::vector<std::int8_t> a(n * n, 1), b(n, 1);
  std::vector<std::int32_t> c(n);
  long first = 0, last = 0;
  for (int it = 0; it < 600; it++) {
    ruy::Context ctx;
    ruy::Matrix<std::int8_t> A, B;
    ruy::Matrix<std::int32_t> D;
    ruy::MakeSimpleLayout(n, n, ruy::Order::kRowMajor, A.mutable_layout());
    ruy::MakeSimpleLayout(n, 1, ruy::Order::kColMajor, B.mutable_layout());
    ruy::MakeSimpleLayout(n, 1, ruy::Order::kColMajor, D.mutable_layout());
    A.set_data(a.data()); B.set_data(b.data()); D.set_data(c.data());
    A.set_cache_policy(ruy::CachePolicy::kAlwaysCache);
    ruy::MulParams<std::int32_t, std::int32_t> mp;
    ruy::Mul(A, B, mp, &ctx, &D);
    ctx.ClearPrepackedCache();
    if (it == 100) first = use();
    if (it == 599) last = use();
  }
  printf("in use %ld then %ld\\n", first, last);
  return last > first + 40000;
}
'''),
dict(id='k03-mark-on-hit-only', property='K03', flags='-O1 -fsanitize=address -fno-omit-frame-pointer', timeout=200,
 needs='both operands cacheable, both new to the cache, and together larger than the cache limit of 256 MB',
 breaks='an operand that was just inserted is not recorded as held by the cache, so inserting the second operand evicts and frees it before the multiplication reads it',
 edits=[(P,'      params->is_prepacked[side] = true;','''      params->is_prepacked[side] =
          action == PrepackedCache::Action::kGotExistingEntry;''')],
 env='ASAN_OPTIONS=detect_leaks=0',
 demo='''
#include <cstdio>
#include <vector>
#include "ruy/ruy.h"
int main() {
  const int m = 8, k = 1 << 24, n = 8;   // each packed operand ~ 134 MB of int8
  std::vector<std::int8_t> a((size_t)m * k, 1), b((size_t)k * n, 1);
  std::vector<std::int32_t> c(m * n);
  ruy::Matrix<std::int8_t> lhs, rhs; ruy::Matrix<std::int32_t> dst;
  ruy::MakeSimpleLayout(m, k, ruy::Order::kRowMajor, lhs.mutable_layout());
  ruy::MakeSimpleLayout(k, n, ruy::Order::kColMajor, rhs.mutable_layout());
  ruy::MakeSimpleLayout(m, n, ruy::Order::kColMajor, dst.mutable_layout());
  lhs.set_data(a.data()); rhs.set_data(b.data()); dst.set_data(c.data());
  lhs.set_cache_policy(ruy::CachePolicy::kAlwaysCache);
  rhs.set_cache_policy(ruy::CachePolicy::kAlwaysCache);
  ruy::Context ctx; ruy::MulParams<std::int32_t, std::int32_t> p;
  ruy::Mul(lhs, rhs, p, &ctx, &dst);
  int bad = 0; for (int x : c) bad += x != k;
  printf("%d wrong\\n", bad);
  return bad != 0;
}
'''),
dict(id='k04-rhs-policy', property='K04', flags='-O1', timeout=100,
 needs='the right-hand operand cacheable and the left-hand one not, with the latter\'s contents changed between two multiplications',
 breaks='when the right-hand operand allows caching the left-hand one is cached as well, so later multiplications use its old contents',
 edits=[(P,'  const CachePolicy cache_policy = params.src[side].cache_policy;','''  const CachePolicy cache_policy = std::max(
      params.src[side].cache_policy, params.src[Side::kRhs].cache_policy);''')],
 demo='''
#include <cstdio>
#include <vector>
#include "ruy/ruy.h"
int main() {
  const int n = 24;
  int bad = 0;
  for (int side = 0; side < 2; side++) {
    ruy::Context ctx;
    std::vector<float> a(n * n), b(n * n), c(n * n);
    for (int it = 0; it < 3; it++) {
      for (int i = 0; i < n * n; i++) {
        if (!it || side) a[i] = (i + it) % 7;
        if (!it || !side) b[i] = (i + 2 * it) % 5;
      }
      ruy::Matrix<float> A, B, D;
      ruy::MakeSimpleLayout(n, n, ruy::Order::kRowMajor, A.mutable_layout());
      ruy::MakeSimpleLayout(n, n, ruy::Order::kColMajor, B.mutable_layout());
      ruy::MakeSimpleLayout(n, n, ruy::Order::kColMajor, D.mutable_layout());
      A.set_data(a.data()); B.set_data(b.data()); D.set_data(c.data());
      (side ? B : A).set_cache_policy(ruy::CachePolicy::kAlwaysCache);
      ruy::MulParams<float, float> mp;
      ruy::Mul(A, B, mp, &ctx, &D);
      for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
        float s = 0;
        for (int k = 0; k < n; k++) s += a[i * n + k] * b[j * n + k];
        bad += s != c[j * n + i];
      }
    }
  }
  printf("%d wrong\\n", bad);
  return bad != 0;
}
'''),
dict(id='k05-short-clock', property='K05', flags='-O1', timeout=100,
 needs='more than 65536 uses of the cache before an eviction',
 breaks='the clock that orders cache entries by last use wraps around, so the most recently used entry can be evicted instead of the oldest',
 edits=[(H,'  using Timestamp = std::uint64_t;','  using Timestamp = std::uint16_t;')],
 demo='''
#include <cstdio>
#include "ruy/mat.h"
#include "ruy/prepacked_cache.h"
static ruy::PEMat mat() {
  ruy::PEMat p;
  p.data_type = ruy::Type::Create<std::uint8_t>();
  p.sums_type = ruy::Type::Create<int>();
  p.layout.rows = 20; p.layout.cols = 16; p.layout.stride = 20;
  p.layout.order = ruy::Order::kColMajor;
  p.layout.kernel.rows = 1; p.layout.kernel.cols = 8; p.layout.kernel.order = ruy::Order::kColMajor;
  p.zero_point = 0;
  return p;
}
int main() {
  char key[3];
  ruy::PrepackedCache cache(2 * (20 * 16 + 16 * 4));
  ruy::PEMat p = mat();
  cache.Get(&key[0], &p);
  for (int i = 0; i < 65534; i++) { p = mat(); cache.Get(&key[0], &p); }
  // key[1] is older than key[0]'s last use
  p = mat(); cache.Get(&key[1], &p);
  for (int i = 0; i < 3; i++) { p = mat(); cache.Get(&key[0], &p); }
  p = mat(); cache.Get(&key[2], &p);
  p = mat();
  auto act = cache.Get(&key[0], &p);
  printf("recently used entry %s\\n", act == ruy::PrepackedCache::Action::kGotExistingEntry ? "kept" : "evicted");
  return act != ruy::PrepackedCache::Action::kGotExistingEntry;
}
'''),
]
