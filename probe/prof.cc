// Instrumented code as clients write it, with the profiler compiled in.
#include "ruy/profiler/instrumentation.h"
#include "ruy/profiler/profiler.h"
#include "ruy/profiler/treeview.h"

namespace verif_prof {

void work(int);

void label0() {
  ruy::profiler::ScopeLabel label("zero");
  work(0);
}
void label1(int a) {
  ruy::profiler::ScopeLabel label("one %d", a);
  work(1);
}
void label4(int a, int b, int c, int d) {
  ruy::profiler::ScopeLabel label("four %d %d %d %d", a, b, c, d);
  work(4);
}
void nested(int a) {
  ruy::profiler::ScopeLabel outer("outer");
  if (a > 3) {
    ruy::profiler::ScopeLabel inner("inner %d", a);
    work(a);
    if (a > 7) return;
  }
  work(2);
}

void profile(bool enable) {
  ruy::profiler::ScopeProfile p(enable);
  work(3);
}
void profile_into(ruy::profiler::TreeView* view) {
  ruy::profiler::ScopeProfile p;
  p.SetUserTreeView(view);
  work(3);
}

}  // namespace verif_prof
