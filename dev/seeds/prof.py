MODE = 'ruy/profiler/instrumentation.cc ruy/profiler/profiler.cc ruy/profiler/treeview.cc'
FL = '-O1 -DRUY_PROFILER'
SEEDS = [
dict(id='r01-stale-stack', property='R01', flags=FL, mode=MODE, timeout=60,
 needs='a thread that ran instrumented code ends while no profile is running, and a later profile samples a thread that got its memory',
 breaks='the label stack of a thread that ended stays in the list of stacks and is sampled after its memory was given to another thread',
 edits=[('ruy/profiler/instrumentation.cc', '  std::vector<ThreadStack*>* all_stacks = GlobalAllThreadStacks();\n', '  if (!GlobalIsProfilerRunning()) {\n    return;\n  }\n  std::vector<ThreadStack*>* all_stacks = GlobalAllThreadStacks();\n')],
 demo='''
#include <chrono>
#include <cstdio>
#include <thread>
#include <vector>
#include "ruy/profiler/instrumentation.h"
#include "ruy/profiler/profiler.h"
#include "ruy/profiler/treeview.h"
using namespace ruy::profiler;
int main() {
  // Threads that come and go before the profile starts.
  std::vector<std::thread> early;
  for (int i = 0; i < 8; i++) {
    early.emplace_back([] {
      ScopeLabel l("early");
      std::this_thread::sleep_for(std::chrono::milliseconds(100));
    });
  }
  for (auto& t : early) t.join();
  TreeView view;
  {
    ScopeProfile profile;
    profile.SetUserTreeView(&view);
    ScopeLabel l("main");
    std::thread([] {
      ScopeLabel l("late");
      std::this_thread::sleep_for(std::chrono::milliseconds(600));
    }).join();
  }
  // Both labels were there for the same time: about as many samples of each.
  int weight_main = 0, weight_late = 0;
  for (const auto& r : view.thread_roots()) {
    weight_main += WeightBelowNodeMatchingUnformatted(*r.second, "main");
    weight_late += WeightBelowNodeMatchingUnformatted(*r.second, "late");
  }
  std::printf("main %d late %d\\n", weight_main, weight_late);
  return weight_main > 0 && weight_late < weight_main * 3 / 2 ? 0 : 1;
}
'''),
dict(id='r02-mark-kept', property='R02', flags=FL, mode=MODE, timeout=60,
 needs='a profile during which no instrumented code ran, followed by another profile in the same process',
 breaks='a profile without samples leaves the mark that a profile is running, so that the next one ends the process',
 edits=[('ruy/profiler/profiler.cc', '    detail::GlobalIsProfilerRunning() = false;\n', '    detail::GlobalIsProfilerRunning() = samples_buf_.empty();\n')],
 demo='''
#include <cstdio>
#include "ruy/profiler/instrumentation.h"
#include "ruy/profiler/profiler.h"
#include "ruy/profiler/treeview.h"
using namespace ruy::profiler;
int main() {
  for (int i = 0; i < 3; i++) {
    TreeView view;
    ScopeProfile profile;
    profile.SetUserTreeView(&view);
  }
  std::puts("three profiles");
  return 0;
}
'''),
dict(id='r03-one-too-deep', property='R03', flags=FL, mode=MODE, timeout=60,
 needs='exactly one more nested scope than the label stack has room for',
 breaks='the label of the innermost scope is written behind the label stack',
 edits=[('ruy/profiler/instrumentation.h', '    if (stack_.size >= Stack::kMaxSize) {', '    if (stack_.size > Stack::kMaxSize) {')],
 demo='''
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <csignal>
#include <cstdio>
#include "ruy/profiler/instrumentation.h"
using namespace ruy::profiler;
static void nest(int n) {
  if (n == 0) return;
  ScopeLabel l("level %d", n);
  nest(n - 1);
}
static int child(int depth) {
  pid_t p = fork();
  if (p == 0) {
    rlimit none = {0, 0};
    setrlimit(RLIMIT_CORE, &none);
    nest(depth);
    _exit(0);
  }
  int status = 0;
  waitpid(p, &status, 0);
  return status;
}
int main() {
  const int fits = detail::Stack::kMaxSize;
  const int a = child(fits), b = child(fits + 1);
  std::printf("%d levels: status %d; %d levels: status %d\\n", fits, a, fits + 1, b);
  return a == 0 && WIFSIGNALED(b) && WTERMSIG(b) == SIGABRT ? 0 : 1;
}
'''),
dict(id='r03-deep-sample', property='R03', flags=FL, mode=MODE, timeout=60,
 needs='a sample taken while more than 32 scopes are nested',
 breaks='labels beyond the 32nd are not copied into the sample, so that the profile shows whatever was there',
 edits=[('ruy/profiler/instrumentation.cc', '  memcpy(dst, stack.labels, stack.size * sizeof(stack.labels[0]));', '  memcpy(dst, stack.labels,\n         (stack.size < 32 ? stack.size : 32) * sizeof(stack.labels[0]));')],
 demo='''
#include <chrono>
#include <cstdio>
#include <thread>
#include "ruy/profiler/instrumentation.h"
#include "ruy/profiler/profiler.h"
#include "ruy/profiler/treeview.h"
using namespace ruy::profiler;
static void nest(int n) {
  ScopeLabel l("level %d", n);
  if (n == 40) {
    std::this_thread::sleep_for(std::chrono::milliseconds(300));
    return;
  }
  nest(n + 1);
}
int main() {
  TreeView view;
  {
    ScopeProfile profile;
    profile.SetUserTreeView(&view);
    nest(1);
  }
  int weight = 0;
  for (const auto& r : view.thread_roots())
    weight += WeightBelowNodeMatchingFormatted(*r.second, "level 40");
  std::printf("%d samples at level 40\\n", weight);
  return weight > 0 ? 0 : 1;
}
'''),
]
