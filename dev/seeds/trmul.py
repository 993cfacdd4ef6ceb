T='ruy/trmul.cc'
MUL='''
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <vector>
#include "ruy/ruy.h"
#include "ruy/strategy_controls.h"
template <typename S, typename D>
struct Problem {
  int m, k, n;
  std::vector<S> a, b;
  std::vector<D> c;
  Problem(int m_, int k_, int n_) : m(m_), k(k_), n(n_), a(m_ * k_), b(k_ * n_), c(m_ * n_, D(-77)) {
    for (int i = 0; i < m * k; i++) a[i] = S((i * 7 + i / 13) % 5 - 2);
    for (int i = 0; i < k * n; i++) b[i] = S((i * 3 + i / 11) % 7 - 3);
  }
  template <typename Acc>
  void run(ruy::Context* ctx) {
    ruy::Matrix<S> lhs, rhs;
    ruy::Matrix<D> dst;
    ruy::MakeSimpleLayout(m, k, ruy::Order::kRowMajor, lhs.mutable_layout());
    lhs.set_data(a.data());
    ruy::MakeSimpleLayout(k, n, ruy::Order::kColMajor, rhs.mutable_layout());
    rhs.set_data(b.data());
    ruy::MakeSimpleLayout(m, n, ruy::Order::kColMajor, dst.mutable_layout());
    dst.set_data(c.data());
    ruy::MulParams<Acc, D> p;
    ruy::Mul(lhs, rhs, p, ctx, &dst);
  }
  int wrong() const {
    int bad = 0;
    for (int i = 0; i < m; i++)
      for (int j = 0; j < n; j++) {
        double s = 0;
        for (int l = 0; l < k; l++) s += double(a[i * k + l]) * double(b[j * k + l]);
        if (double(c[j * m + i]) != s) bad++;
      }
    return bad;
  }
};
'''
SEEDS=[
dict(id='c03-finish-relaxed', property='C03', flags='-O1 -fsanitize=thread', env='TSAN_OPTIONS=halt_on_error=1:exitcode=66', timeout=200,
 needs='two threads sharing a packed block, on a machine (or checker) with weak memory ordering',
 breaks='the block is marked packed without releasing the packed bytes, so another thread may multiply stale data',
 edits=[(T,'status.store(PackingStatus::kFinished, std::memory_order_release);','status.store(PackingStatus::kFinished, std::memory_order_relaxed);')],
 demo=MUL+'''
int main() {
  ruy::Context ctx;
  ctx.set_max_num_threads(4);
  ctx.set_num_threads_strategy(ruy::NumThreadsStrategy::kForceMaxNumThreads);
  ctx.set_runtime_enabled_paths(ruy::Path::kStandardCpp);
  int bad = 0;
  for (int it = 0; it < 4; it++) {
    Problem<float, float> p(96 + it, 40, 120);
    p.run<float>(&ctx);
    bad += p.wrong();
  }
  return bad != 0;
}
'''),
dict(id='c04-block-skipped', property='C04', flags='-O1', timeout=200,
 needs='more than eight threads on one multiplication',
 breaks='with more than eight threads one block of the destination is never computed',
 edits=[(T,'atomic_block_id->store(thread_count);','atomic_block_id->store(thread_count + (thread_count > 8 ? 1 : 0));')],
 demo=MUL+'''
int main() {
  ruy::Context ctx;
  ctx.set_max_num_threads(12);
  ctx.set_num_threads_strategy(ruy::NumThreadsStrategy::kForceMaxNumThreads);
  int bad = 0;
  for (int n = 256; n <= 1300; n += 200) {
    Problem<float, float> p(n, 40, n);
    p.run<float>(&ctx);
    bad += p.wrong();
  }
  printf("%d wrong entries\\n", bad);
  return bad != 0;
}
'''),
dict(id='c08-limit-ignored', property='C08', flags='-O1', timeout=200,
 needs='one multiplication with more than about 2.6e8 multiply-adds',
 breaks='for very large products the configured maximum number of threads is raised by one',
 edits=[(T,'std::min<std::int64_t>(tentative_thread_count, ctx->max_num_threads());','std::min<std::int64_t>(tentative_thread_count,\n                             ctx->max_num_threads() +\n                                 (tentative_thread_count >> 13 != 0 ? 1 : 0));')],
 demo=MUL+'''
#include <dirent.h>
static int threads() {
  int n = 0;
  DIR* d = opendir("/proc/self/task");
  while (dirent* e = readdir(d))
    if (e->d_name[0] != '.') n++;
  closedir(d);
  return n;
}
int main() {
  ruy::Context ctx;
  ctx.set_max_num_threads(2);
  Problem<std::int8_t, std::int32_t> p(700, 700, 700);
  p.run<std::int32_t>(&ctx);
  printf("%d threads\\n", threads());
  return threads() > 2;
}
'''),
]
