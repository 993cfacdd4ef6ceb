// Two label arguments more than the profiler documents to support.
#include "ruy/profiler/instrumentation.h"

namespace verif_prof {

void work(int);

void label6(int a, int b, int c, int d, int e, int f) {
  ruy::profiler::ScopeLabel label("six %d %d %d %d %d %d", a, b, c, d, e,
                                  f);
  work(6);
}

}  // namespace verif_prof
