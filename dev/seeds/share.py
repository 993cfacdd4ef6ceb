T='ruy/trmul.cc'
F='ruy/frontend.cc'
MM='''
#include <cstdio>
#include <thread>
#include <vector>
#include "ruy/ruy.h"
#include "ruy/strategy_controls.h"
template <typename Cfg>
int run(ruy::Context* ctx, int rows, int depth, int cols, Cfg cfg) {
  std::vector<float> a(rows * depth), b(depth * cols), c(rows * cols), bias(rows, 2.f);
  for (size_t i = 0; i < a.size(); i++) a[i] = i % 7;
  for (size_t i = 0; i < b.size(); i++) b[i] = i % 5;
  ruy::Matrix<float> A, B, D;
  ruy::MakeSimpleLayout(rows, depth, ruy::Order::kRowMajor, A.mutable_layout());
  ruy::MakeSimpleLayout(depth, cols, ruy::Order::kColMajor, B.mutable_layout());
  ruy::MakeSimpleLayout(rows, cols, ruy::Order::kColMajor, D.mutable_layout());
  A.set_data(a.data()); B.set_data(b.data()); D.set_data(c.data());
  ruy::MulParams<float, float> mp;
  mp.set_bias(bias.data());
  cfg(&A, &B);
  ruy::Mul(A, B, mp, ctx, &D);
  int bad = 0;
  for (int j = 0; j < cols; j += 7)
    for (int i = 0; i < rows; i += 5) {
      float s = 2.f;
      for (int k = 0; k < depth; k++) s += a[i * depth + k] * b[j * depth + k];
      bad += c[j * rows + i] != s;
    }
  return bad;
}
'''
SEEDS=[
dict(id='c05-allocators-wrap', property='C05', flags='-O1 -fsanitize=thread', env='TSAN_OPTIONS=halt_on_error=1:exitcode=66', timeout=200,
 needs='more than sixteen threads in one multiplication',
 breaks='threads whose numbers differ by sixteen are given the same scratch allocator and use it at the same time',
 edits=[(T,'auto* allocator = ctx->GetThreadSpecificAllocator(i);','// Scratch needs per thread are small, a few allocators are enough.\n    auto* allocator = ctx->GetThreadSpecificAllocator(i % 16);')],
 demo=MM+'''
int main() {
  int bad = 0;
  for (int rep = 0; rep < 20; rep++) {
    ruy::Context ctx;
    ctx.set_max_num_threads(24);
    ctx.set_num_threads_strategy(ruy::NumThreadsStrategy::kForceMaxNumThreads);
    bad += run(&ctx, 512, 16, 512, [](ruy::Matrix<float>*, ruy::Matrix<float>*) {});
  }
  printf("%d wrong values\\n", bad);
  return bad != 0;
}
'''),
dict(id='c06-static-map', property='C06', flags='-O1 -fsanitize=thread', env='TSAN_OPTIONS=halt_on_error=1:exitcode=66', timeout=200,
 needs='two threads that multiply at the same time, each with its own context',
 breaks='the description of how a multiplication is split into blocks is kept in a static variable that multiplications of other contexts overwrite',
 edits=[(T,'  BlockMap block_map;\n','  static BlockMap block_map;\n')],
 demo=MM+'''
int main() {
  int bad[2] = {0, 0};
  auto work = [&](int t) {
    ruy::Context ctx;
    ctx.set_max_num_threads(2);
    for (int rep = 0; rep < 40; rep++)
      bad[t] += run(&ctx, t ? 300 : 700, 40, t ? 500 : 200, [](ruy::Matrix<float>*, ruy::Matrix<float>*) {});
  };
  std::thread other(work, 1);
  work(0);
  other.join();
  printf("%d wrong values\\n", bad[0] + bad[1]);
  return bad[0] + bad[1] != 0;
}
'''),
dict(id='l01-kept-when-cached', property='L01', flags='-O1', timeout=200,
 needs='multiplications with both operands taken from the cache and a bias vector',
 breaks='the scratch memory of a multiplication is not freed when both packed operands come from the cache, although other scratch memory was used, so memory grows with every multiplication',
 edits=[(F,'  ctx->GetMainAllocator()->FreeAll();','''  // Packed operands taken from the cache are not in scratch memory.
  if (!params->is_prepacked[Side::kLhs] || !params->is_prepacked[Side::kRhs]) {
    ctx->GetMainAllocator()->FreeAll();
  }''')],
 demo=MM+'''
#include <unistd.h>
static long resident() {
  long total = 0, pages = 0;
  FILE* f = fopen("/proc/self/statm", "r");
  if (fscanf(f, "%ld %ld", &total, &pages) != 2) return -1;
  fclose(f);
  return pages * sysconf(_SC_PAGESIZE) / 1024;
}
int main() {
  ruy::Context ctx;
  std::vector<float> a(4001 * 8, 1.f), b(8, 1.f), c(4001), bias(4001, 2.f);
  long before = 0;
  for (int rep = 0; rep < 4000; rep++) {
    ruy::Matrix<float> A, B, D;
    ruy::MakeSimpleLayout(4001, 8, ruy::Order::kRowMajor, A.mutable_layout());
    ruy::MakeSimpleLayout(8, 1, ruy::Order::kColMajor, B.mutable_layout());
    ruy::MakeSimpleLayout(4001, 1, ruy::Order::kColMajor, D.mutable_layout());
    A.set_data(a.data()); B.set_data(b.data()); D.set_data(c.data());
    A.set_cache_policy(ruy::CachePolicy::kAlwaysCache);
    B.set_cache_policy(ruy::CachePolicy::kAlwaysCache);
    ruy::MulParams<float, float> mp;
    mp.set_bias(bias.data());
    ruy::Mul(A, B, mp, &ctx, &D);
    if (rep == 200) before = resident();
  }
  long grown = resident() - before;
  printf("memory grew by %ld KiB\\n", grown);
  return grown > 8192;
}
'''),
]
