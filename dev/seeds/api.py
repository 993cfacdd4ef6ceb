SEEDS=[
dict(id='a06-silent-multipliers', property='A06', flags='-O1', timeout=100,
 needs='a multiplication with per-channel multipliers, no bias, and a number of channels that is not a multiple of the kernel width',
 breaks='per-channel multipliers are copied into a larger buffer but the advisory is not given',
 edits=[('ruy/create_trmul_params.h','  ctx->set_performance_advisory(\n      PerformanceAdvisory::kReallocatedPerChannelBuffer);\n','  if (mul_params->bias()) {\n    ctx->set_performance_advisory(\n        PerformanceAdvisory::kReallocatedPerChannelBuffer);\n  }\n')],
 demo='''
#include <cstdio>
#include "ruy/performance_advisory.h"
#include "ruy/ruy.h"
int main() {
  std::int8_t a[9] = {1, 2, 3, 4, 5, 6, 7, 8, 9}, b[9] = {9, 8, 7, 6, 5, 4, 3, 2, 1}, c[9];
  std::int32_t fixed[3] = {1 << 30, 1 << 30, 1 << 30}, bias[3] = {1, 2, 3};
  int exponent[3] = {0, 0, 0};
  int bad = 0;
  for (int with_bias = 0; with_bias < 2; with_bias++)
    for (int with_multipliers = 0; with_multipliers < 2; with_multipliers++) {
      if (!with_bias && !with_multipliers) continue;
      ruy::Matrix<std::int8_t> A, B, D;
      ruy::MakeSimpleLayout(3, 3, ruy::Order::kRowMajor, A.mutable_layout());
      ruy::MakeSimpleLayout(3, 3, ruy::Order::kColMajor, B.mutable_layout());
      ruy::MakeSimpleLayout(3, 3, ruy::Order::kColMajor, D.mutable_layout());
      A.set_data(a); B.set_data(b); D.set_data(c);
      ruy::MulParams<std::int32_t, std::int8_t> mp;
      if (with_bias) mp.set_bias(bias);
      if (with_multipliers) {
        mp.set_multiplier_fixedpoint_perchannel(fixed);
        mp.set_multiplier_exponent_perchannel(exponent);
      } else {
        mp.set_multiplier_fixedpoint(1 << 30);
      }
      ruy::Context ctx;
      ctx.set_runtime_enabled_paths(ruy::Path::kAvx2Fma);
      ruy::Mul(A, B, mp, &ctx, &D);
      // On processors without this path nothing is padded and nothing copied.
      const bool padded = ctx.last_used_path() == ruy::Path::kAvx2Fma;
      const bool told = ctx.performance_advisory(
          ruy::PerformanceAdvisory::kReallocatedPerChannelBuffer);
      if (padded && !told) {
        std::printf("bias %d multipliers %d: no advisory\\n", with_bias, with_multipliers);
        bad = 1;
      }
    }
  return bad;
}
'''),
dict(id='t01-auto-not-told', property='T01', flags='-O1', timeout=100,
 needs='a context whose tuning was set explicitly, used by several threads, and then set back to automatic',
 breaks='threads other than the calling one keep using the explicit tuning after the context went back to automatic detection',
 edits=[('ruy/trmul.cc','''  for (int i = 0; i < thread_count; i++) {
    ctx->GetThreadSpecificTuningResolver(i)->SetTuning(ctx->explicit_tuning());
  }
''','''  // Resolvers default to auto-detection, so only explicit tunings are passed on.
  if (ctx->explicit_tuning() != Tuning::kAuto) {
    for (int i = 0; i < thread_count; i++) {
      ctx->GetThreadSpecificTuningResolver(i)->SetTuning(
          ctx->explicit_tuning());
    }
  }
''')],
 demo='''
#include <cstdio>
#include <vector>
#include "ruy/context_get_ctx.h"
#include "ruy/ctx.h"
#include "ruy/cpuinfo.h"
#include "ruy/ruy.h"
#include "ruy/strategy_controls.h"
#include "ruy/tune.h"
void mul(ruy::Context* ctx) {
  const int n = 160;
  std::vector<float> a(n * n, 1.f), b(n * n, 2.f), c(n * n);
  ruy::Matrix<float> A, B, D;
  ruy::MakeSimpleLayout(n, n, ruy::Order::kRowMajor, A.mutable_layout());
  ruy::MakeSimpleLayout(n, n, ruy::Order::kColMajor, B.mutable_layout());
  ruy::MakeSimpleLayout(n, n, ruy::Order::kColMajor, D.mutable_layout());
  A.set_data(a.data()); B.set_data(b.data()); D.set_data(c.data());
  ruy::MulParams<float, float> mp;
  ruy::Mul(A, B, mp, ctx, &D);
}
int main() {
  ruy::Context ctx;
  ctx.set_max_num_threads(4);
  ctx.set_num_threads_strategy(ruy::NumThreadsStrategy::kForceMaxNumThreads);
  ruy::Ctx* c = ruy::get_ctx(&ctx);
  const ruy::Tuning seq[] = {ruy::Tuning::kA55ish, ruy::Tuning::kX1, ruy::Tuning::kAuto};
  int bad = 0;
  for (ruy::Tuning t : seq) {
    ctx.set_explicit_tuning(t);
    mul(&ctx);
    for (int i = 0; i < 4; i++) {
      ruy::Tuning got = c->GetThreadSpecificTuningResolver(i)->Resolve(c->mutable_cpuinfo());
      const bool ok = t == ruy::Tuning::kAuto
          ? (got == ruy::Tuning::kGeneric) == !(c->mutable_cpuinfo()->CurrentCpuIsA55ish() || c->mutable_cpuinfo()->CurrentCpuIsX1())
          : got == t;
      if (!ok) { std::printf("thread %d: tuning %d instead of %d\\n", i, int(got), int(t)); bad = 1; }
    }
  }
  return bad;
}
'''),
dict(id='a05-strategy-reset', property='A05', flags='-O1', timeout=100,
 needs='a context whose thread count strategy was set and whose thread limit is then set to one',
 breaks='setting the thread limit to one silently resets the strategy for choosing the number of threads',
 edits=[('ruy/ctx.cc','  mutable_impl()->max_num_threads_ = value;\n','''  mutable_impl()->max_num_threads_ = value;
  if (value == 1) {
    // There is no number of threads to choose.
    mutable_impl()->num_threads_strategy_ = NumThreadsStrategy::kDefault;
  }
''')],
 demo='''
#include <cstdio>
#include "ruy/ruy.h"
#include "ruy/strategy_controls.h"
int main() {
  int bad = 0;
  const ruy::NumThreadsStrategy all[] = {ruy::NumThreadsStrategy::kDefault, ruy::NumThreadsStrategy::kForceMaxNumThreads};
  for (ruy::NumThreadsStrategy s : all)
    for (int n : {1, 2, 5, 64}) {
      ruy::Context ctx;
      ctx.set_num_threads_strategy(s);
      ctx.set_max_num_threads(n);
      if (ctx.num_threads_strategy() != s || ctx.max_num_threads() != n) {
        std::printf("with %d threads the strategy is lost\\n", n);
        bad = 1;
      }
    }
  return bad;
}
'''),
]
