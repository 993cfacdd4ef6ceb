SEEDS=[
dict(id='c01-relaxed-countdown', property='C01', mode='ruy/thread_pool.cc ruy/wait.cc ruy/blocking_counter.cc ruy/denormal.cc', flags='-O1 -fsanitize=thread',
 env='TSAN_OPTIONS=halt_on_error=1:exitcode=66',
 needs='a caller that observes completion while spinning, on a machine (or checker) with weak memory ordering',
 breaks='the count-down no longer releases the worker\'s writes, so the caller may return without seeing what the tasks wrote',
 edits=[('ruy/blocking_counter.cc','count_.fetch_sub(1, std::memory_order_acq_rel)','count_.fetch_sub(1, std::memory_order_relaxed)')],
 demo='''
#include <cstdio>
#include "ruy/thread_pool.h"
struct T : ruy::Task {
  int* out = nullptr;
  void Run() override { *out += 1; }
};
int main() {
  ruy::ThreadPool pool;
  pool.set_spin_milliseconds(2000.f);
  int data[4] = {0, 0, 0, 0};
  long total = 0;
  for (int it = 0; it < 300; it++) {
    T tasks[4];
    for (int i = 0; i < 4; i++) tasks[i].out = &data[i];
    pool.Execute(4, tasks);
    for (int i = 0; i < 4; i++) total += data[i];
  }
  return total == 4L * 300 * 301 / 2 ? 0 : 1;
}
'''),
dict(id='c02-unlocked-exit', property='C02', mode='ruy/thread_pool.cc ruy/wait.cc ruy/blocking_counter.cc ruy/denormal.cc',
 timeout=40,
 needs='the pool is destroyed exactly between a worker\'s last check of its state and its going to sleep',
 breaks='the exit request is signalled without the mutex, so it can fall in the window before the worker sleeps and destruction hangs',
 edits=[('ruy/thread_pool.cc','''    state_cond_mutex_.lock();
    state_cond_.notify_one();  // Only this one worker thread cares.
    state_cond_mutex_.unlock();''','''    const bool handoff = new_state != State::ExitAsSoonAsPossible;
    if (handoff) {
      state_cond_mutex_.lock();
    }
    state_cond_.notify_one();  // Only this one worker thread cares.
    if (handoff) {
      state_cond_mutex_.unlock();
    }''')],
 demo='''
#include <dlfcn.h>
#include <pthread.h>
#include <unistd.h>
#include "ruy/thread_pool.h"
// Widens the window between a waiter's last check and its going to sleep.
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  typedef int (*fn)(pthread_cond_t*, pthread_mutex_t*);
  static fn real = (fn)dlsym(RTLD_NEXT, "pthread_cond_wait");
  usleep(100000);
  return real(c, m);
}
struct T : ruy::Task {
  void Run() override {}
};
int main() {
  for (int it = 0; it < 12; it++) {
    ruy::ThreadPool pool;
    pool.set_spin_milliseconds(0.f);
    T tasks[2];
    pool.Execute(2, tasks);
    usleep(10000 * (it % 6));
  }
  return 0;
}
'''),
dict(id='c07-exit-skipped', property='C07', mode='ruy/thread_pool.cc ruy/wait.cc ruy/blocking_counter.cc ruy/denormal.cc',
 timeout=30,
 needs='a pool that has grown beyond 48 workers before it is destroyed',
 breaks='workers beyond the 48th are never told to exit, so destruction hangs joining them',
 edits=[('ruy/thread_pool.cc','''  for (auto w : threads_) {
    w->RequestExitAsSoonAsPossible();
  }
  for (auto w : threads_) {
    delete w;
  }''','''  const std::size_t kMaxWorkers = 48;
  for (std::size_t i = 0; i < threads_.size() && i < kMaxWorkers; i++) {
    threads_[i]->RequestExitAsSoonAsPossible();
  }
  for (auto w : threads_) {
    delete w;
  }''')],
 demo='''
#include "ruy/thread_pool.h"
struct T : ruy::Task {
  void Run() override {}
};
int main() {
  ruy::ThreadPool pool;
  static T tasks[60];
  pool.Execute(60, tasks);
  return 0;
}
'''),
]
