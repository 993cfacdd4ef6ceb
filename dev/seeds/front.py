C='ruy/create_trmul_params.h'
X='ruy/ctx.cc'
U='ruy/cpuinfo.cc'
M='ruy/mat.h'
GUARD='''
#include <sys/mman.h>
#include <unistd.h>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <vector>
#include "ruy/ruy.h"
// an array that ends where inaccessible memory begins
template <typename T> T* at_end(int n) {
  long page = sysconf(_SC_PAGESIZE);
  long bytes = (n * sizeof(T) + page - 1) / page * page;
  char* p = static_cast<char*>(mmap(nullptr, bytes + page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  mprotect(p + bytes, page, PROT_NONE);
  return reinterpret_cast<T*>(p + bytes) - n;
}
'''
FAKE='''
#include <cpuinfo.h>
#include <dlfcn.h>
#include <cstdio>
#include "ruy/context.h"
#include "ruy/path.h"
// the processor description as an older machine would report it
struct cpuinfo_x86_isa cpuinfo_isa;
extern "C" bool cpuinfo_initialize(void) {
  auto real = reinterpret_cast<bool (*)(void)>(dlsym(RTLD_NEXT, "cpuinfo_initialize"));
  if (real) real();
  %s
}
int main() {
  ruy::Context ctx;
  int paths = static_cast<int>(ctx.get_runtime_enabled_paths());
  printf("enabled paths: 0x%%x\\n", paths);
  return (paths & %s) != 0;
}
'''
SEEDS=[
dict(id='a03-transposed-policy', property='A03', flags='-O1', timeout=100,
 needs='a row-major destination, a left operand with a cache policy, and a change of its data between two multiplications',
 breaks='when the problem is transposed for a row-major destination the operands swap their cache policies',
 edits=[(C,'''        rhs, lhs, Transpose(dst), mul_params, Transpose(channel_dimension), ctx,
        params);''','''        rhs, lhs, Transpose(dst), mul_params, Transpose(channel_dimension), ctx,
        params);
    std::swap(params->src[Side::kLhs].cache_policy,
              params->src[Side::kRhs].cache_policy);''')],
 demo='''
#include <cstdio>
#include <vector>
#include "ruy/ruy.h"
int main() {
  const int n = 32;
  std::vector<float> a(n * n, 1.f), b(n * n, 1.f), c(n * n);
  ruy::Context ctx;
  int bad = 0;
  for (int rep = 0; rep < 2; rep++) {
    for (auto& x : b) x = 1.f + rep;
    ruy::Matrix<float> A, B, D;
    ruy::MakeSimpleLayout(n, n, ruy::Order::kRowMajor, A.mutable_layout());
    ruy::MakeSimpleLayout(n, n, ruy::Order::kColMajor, B.mutable_layout());
    ruy::MakeSimpleLayout(n, n, ruy::Order::kRowMajor, D.mutable_layout());
    A.set_data(a.data()); B.set_data(b.data()); D.set_data(c.data());
    A.set_cache_policy(ruy::CachePolicy::kAlwaysCache);   // constant weights
    ruy::MulParams<float, float> mp;
    ruy::Mul(A, B, mp, &ctx, &D);
    for (float x : c) bad += x != n * (1.f + rep);
  }
  printf("%d wrong values\\n", bad);
  return bad != 0;
}
'''),
dict(id='p02-avx512-partial', property='P02', flags='-O1', timeout=100,
 needs='a processor with some but not all of the AVX-512 extensions',
 breaks='the AVX-512 path is enabled without testing for the vector length extension its code uses',
 edits=[(U,'         cpuinfo_has_x86_avx512bw() && cpuinfo_has_x86_avx512vl();','         cpuinfo_has_x86_avx512bw();')],
 demo=FAKE % ('''cpuinfo_isa.avx = cpuinfo_isa.avx2 = cpuinfo_isa.fma3 = true;
  cpuinfo_isa.avx512f = cpuinfo_isa.avx512dq = cpuinfo_isa.avx512cd = cpuinfo_isa.avx512bw = true;
  cpuinfo_isa.avx512vl = false;
  return real != nullptr;''','0x40')),
dict(id='p02-failed-query', property='P02', flags='-O1', timeout=100,
 needs='a sandbox in which the processor cannot be queried',
 breaks='the processor description counts as valid although the query failed',
 edits=[(U,'''  if (!cpuinfo_initialize()) {
    MakeDummyCacheParams(&cache_params_);
    return InitStatus::kFailed;
  }''','''  if (!cpuinfo_initialize()) {
    MakeDummyCacheParams(&cache_params_);
    return InitStatus::kInitialized;
  }''')],
 demo=FAKE % ('''cpuinfo_isa.avx = cpuinfo_isa.avx2 = cpuinfo_isa.fma3 = true;
  return false;''','0x70')),
dict(id='m09-exponents-kept', property='M09', flags='-O1', timeout=100,
 needs='per-channel exponents in a buffer rounded up to fewer channels than the kernel reads, at the end of accessible memory',
 breaks='the exponents are not enlarged when the caller announced a rounded capacity',
 edits=[(C,'''    if (mul_params->multiplier_exponent_perchannel()) {
      int* new_data = allocator->Allocate<int>(required_capacity);''','''    if (mul_params->multiplier_exponent_perchannel() &&
        user_capacity < user_size + 3) {
      int* new_data = allocator->Allocate<int>(required_capacity);''')],
 demo=GUARD+'''
int main() {
  for (int n = 1; n < 70; n++) {
    std::vector<std::int8_t> a(n * 8, 1), b(8 * 8, 1), c(n * 8);
    const int cap = (n + 3) / 4 * 4;
    std::int32_t* fix = at_end<std::int32_t>(cap);
    int* ex = at_end<int>(cap);
    for (int i = 0; i < n; i++) { fix[i] = 1 << 30; ex[i] = 1; }
    ruy::Context ctx;
    ruy::Matrix<std::int8_t> A, B, D;
    ruy::MakeSimpleLayout(n, 8, ruy::Order::kRowMajor, A.mutable_layout());
    ruy::MakeSimpleLayout(8, 8, ruy::Order::kColMajor, B.mutable_layout());
    ruy::MakeSimpleLayout(n, 8, ruy::Order::kColMajor, D.mutable_layout());
    A.set_data(a.data()); B.set_data(b.data()); D.set_data(c.data());
    ruy::MulParams<std::int32_t, std::int8_t> mp;
    mp.set_multiplier_fixedpoint_perchannel(fix);
    mp.set_multiplier_exponent_perchannel(ex);
    mp.set_perchannel_buffers_capacity_rounding(4);
    ruy::Mul(A, B, mp, &ctx, &D);
    for (int x : c) if (x != 8) return 1;
  }
  puts("ok");
  return 0;
}
'''),
dict(id='p01-next-best', property='P01', flags='-O1', timeout=100,
 needs='a multiplication that is not compiled for the best of the enabled paths',
 breaks='when the best enabled path is not compiled in, the portable fallback is used although a better one was compiled',
 edits=[(X,'''  return mutable_impl()->last_used_path_ =
             GetMostSignificantPath(compiled_paths & GetRuntimeEnabledPaths());''','''  const Path best = GetMostSignificantPath(GetRuntimeEnabledPaths());
  return mutable_impl()->last_used_path_ =
             GetMostSignificantPath(
                 compiled_paths & GetRuntimeEnabledPaths() &
                 (best | kNonArchPathsIncludingInternalVariants));''')],
 demo='''
#include <cstdio>
#include <vector>
#include "ruy/ruy.h"
int main() {
  const int n = 16;
  std::vector<float> a(n * n, 1.f), b(n * n, 2.f), c(n * n);
  ruy::Context ctx;
  if ((ctx.get_runtime_enabled_paths() & ruy::Path::kAvx) == ruy::Path::kNone) return 0;
  ctx.set_runtime_enabled_paths(ruy::Path::kStandardCpp | ruy::Path::kAvx | ruy::Path::kAvx2Fma);
  ruy::Matrix<float> A, B, D;
  ruy::MakeSimpleLayout(n, n, ruy::Order::kRowMajor, A.mutable_layout());
  ruy::MakeSimpleLayout(n, n, ruy::Order::kColMajor, B.mutable_layout());
  ruy::MakeSimpleLayout(n, n, ruy::Order::kColMajor, D.mutable_layout());
  A.set_data(a.data()); B.set_data(b.data()); D.set_data(c.data());
  ruy::MulParams<float, float> mp;
  ruy::Mul<ruy::Path::kStandardCpp | ruy::Path::kAvx>(A, B, mp, &ctx, &D);
  printf("used path 0x%x\\n", static_cast<int>(ctx.last_used_path()));
  return ctx.last_used_path() != ruy::Path::kAvx;
}
'''),
dict(id='p04-one-path', property='P04', flags='-O1', timeout=100,
 needs='a multiplication compiled for the portable path and exactly one other',
 breaks='the path search stops before the lowest path when a higher one was compiled in',
 edits=[(C,'''    PathSearchCountdown<CompiledPaths, BitNumber - 1, LhsScalar, RhsScalar,
                        AccumScalar, DstScalar>::Search(the_path, params);
  }
};

// Skip''','''    static constexpr bool kLast =
        (static_cast<int>(CompiledPaths) & ~(1 << BitNumber)) <= 1;
    PathSearchCountdown<CompiledPaths, kLast ? -1 : BitNumber - 1, LhsScalar,
                        RhsScalar, AccumScalar, DstScalar>::Search(the_path,
                                                                   params);
  }
};

// Skip''')],
 demo='''
#include <cstdio>
#include <vector>
#include "ruy/ruy.h"
int main() {
  const int n = 16;
  std::vector<float> a(n * n, 1.f), b(n * n, 2.f), c(n * n);
  ruy::Context ctx;
  ctx.set_runtime_enabled_paths(ruy::Path::kStandardCpp);
  ruy::Matrix<float> A, B, D;
  ruy::MakeSimpleLayout(n, n, ruy::Order::kRowMajor, A.mutable_layout());
  ruy::MakeSimpleLayout(n, n, ruy::Order::kColMajor, B.mutable_layout());
  ruy::MakeSimpleLayout(n, n, ruy::Order::kColMajor, D.mutable_layout());
  A.set_data(a.data()); B.set_data(b.data()); D.set_data(c.data());
  ruy::MulParams<float, float> mp;
  ruy::Mul<ruy::Path::kStandardCpp | ruy::Path::kAvx>(A, B, mp, &ctx, &D);
  int bad = 0;
  for (float x : c) bad += x != 2 * n;
  printf("%d wrong values\\n", bad);
  return bad != 0;
}
'''),
]
