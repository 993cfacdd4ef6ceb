TP='ruy/thread_pool.cc'; BC='ruy/blocking_counter.cc'; W='ruy/wait.cc'
ALL=['C01','C02','C07']
MUT=[
('relaxed-dec','bug',['C01'],BC,'count_.fetch_sub(1, std::memory_order_acq_rel)','count_.fetch_sub(1, std::memory_order_acquire)'),
('relaxed-wait','bug',['C01'],BC,'return count_.load(std::memory_order_acquire) == 0;','return count_.load(std::memory_order_relaxed) == 0;'),
('relaxed-publish','bug',['C01'],TP,'state_.store(new_state, std::memory_order_release);','state_.store(new_state, std::memory_order_relaxed);'),
('relaxed-pickup','bug',['C01'],TP,'new_state = state_.load(std::memory_order_acquire);','new_state = state_.load(std::memory_order_relaxed);'),
('publish-first','bug',['C01'],[(TP,'        task_ = new_task;\n        break;','        break;'),(TP,'    state_.store(new_state, std::memory_order_release);\n    state_cond','    state_.store(new_state, std::memory_order_release);\n    if (new_task) task_ = new_task;\n    state_cond')]),
('notify-nolock','bug',['C02'],TP,'    state_cond_mutex_.lock();\n    state_cond_.notify_one();  // Only this one worker thread cares.\n    state_cond_mutex_.unlock();','    state_cond_.notify_one();  // Only this one worker thread cares.'),
('notify-before-store','bug',['C02'],TP,'    state_.store(new_state, std::memory_order_release);\n    state_cond_mutex_.lock();\n    state_cond_.notify_one();  // Only this one worker thread cares.\n    state_cond_mutex_.unlock();','    state_cond_mutex_.lock();\n    state_cond_.notify_one();  // Only this one worker thread cares.\n    state_cond_mutex_.unlock();\n    state_.store(new_state, std::memory_order_release);'),
('no-recheck','bug',['C02'],W,'  condvar->wait(lock, condition);','  if (!condition()) condvar->wait(lock);'),
('no-check-under-lock','bug',['C02'],W,'  condvar->wait(lock, condition);','  do { condvar->wait(lock); } while (!condition());'),
('dec-nolock','bug',['C02'],BC,'    std::lock_guard<std::mutex> lock(count_mutex_);\n',''),
('dec-cond','bug',['C02'],BC,'bool hit_zero = (count_value == 0);','bool hit_zero = (count_value == 1);'),
('dec-nonotify','bug',['C02'],BC,'    count_cond_.notify_all();',''),
('detach','bug',['C07'],TP,'    thread_->join();','    thread_->detach();'),
('exit-skip-one','bug',['C07'],TP,'  for (auto w : threads_) {\n    w->RequestExit','  for (auto w : threads_) {\n    if (w == threads_.back() && threads_.size() > 8) break;\n    w->RequestExit'),
('exit-ignored','bug',['C07'],TP,'while (GetNewStateOtherThanReady() == State::HasWork)','while (GetNewStateOtherThanReady() != State::Startup)'),
('armed-wrong','bug',['C01'],TP,'  count_busy_threads_.Reset(task_count - 1);','  count_busy_threads_.Reset(task_count > 9 ? task_count - 2 : task_count - 1);'),
('armed-late','bug',['C01'],[(TP,'  count_busy_threads_.Reset(task_count - 1);\n',''),(TP,'  RUY_TRACE_INFO(THREADPOOL_EXECUTE_STARTING_TASK_ZERO_ON_CUR_THREAD);','  count_busy_threads_.Reset(task_count - 1);')]),
('count-before-run','bug',['C01'],TP,'''    if (task_) {
      task_->Run();
      task_ = nullptr;
    }''','''    bool ran = task_ != nullptr;
    if (ran) { state_.store(State::Ready, std::memory_order_relaxed); count_busy_threads_->DecrementCount(); task_->Run(); task_ = nullptr; return; }'''),
('no-wait','bug',['C01'],TP,'  // Wait for the threads submitted above to finish.\n  count_busy_threads_.Wait(spin_duration_);','  if (task_count < 16) count_busy_threads_.Wait(spin_duration_);'),
('create-nowait','bug',['C01'],TP,'    threads_.push_back(new Thread(&count_busy_threads_, spin_duration_));\n  }\n  count_busy_threads_.Wait(spin_duration_);','    threads_.push_back(new Thread(&count_busy_threads_, spin_duration_));\n  }\n  if (spin_duration_.count() > 0) count_busy_threads_.Wait(spin_duration_);'),
('skip-last','bug',['C01'],TP,'for (int i = 1; i < task_count; i++)','for (int i = 1; i < std::min(task_count, 64); i++)'),
('same-thread','bug',['C01'],TP,'threads_[i - 1]->StartWork','threads_[i > 31 ? 31 : i - 1]->StartWork'),
# refactorings
('ref-loop','ref',ALL,TP,'''  for (int i = 1; i < task_count; i++) {
    RUY_TRACE_INFO(THREADPOOL_EXECUTE_STARTING_TASK);
    auto task_address = reinterpret_cast<std::uintptr_t>(tasks) + i * stride;
    threads_[i - 1]->StartWork(reinterpret_cast<Task*>(task_address));
  }''','''  auto task_address = reinterpret_cast<std::uintptr_t>(tasks) + stride;
  for (int i = 0; i < task_count - 1; ++i) {
    RUY_TRACE_INFO(THREADPOOL_EXECUTE_STARTING_TASK);
    threads_[i]->StartWork(reinterpret_cast<Task*>(task_address));
    task_address += stride;
  }'''),
('ref-while','ref',ALL,TP,'''  for (int i = 1; i < task_count; i++) {
    RUY_TRACE_INFO(THREADPOOL_EXECUTE_STARTING_TASK);
    auto task_address = reinterpret_cast<std::uintptr_t>(tasks) + i * stride;
    threads_[i - 1]->StartWork(reinterpret_cast<Task*>(task_address));
  }''','''  int i = task_count;
  while (--i > 0) {
    auto task_address = reinterpret_cast<std::uintptr_t>(tasks) + i * stride;
    threads_[i - 1]->StartWork(reinterpret_cast<Task*>(task_address));
  }'''),
('ref-wait','ref',ALL,W,'  condvar->wait(lock, condition);','  while (!condition()) {\n    condvar->wait(lock);\n  }'),
('ref-wait2','ref',ALL,W,'    const TimePoint wait_start = Now();\n    while (Now() - wait_start < spin_duration) {\n      if (condition()) {\n        return;\n      }\n    }','    const TimePoint deadline = Now() + spin_duration;\n    do {\n      if (condition()) {\n        return;\n      }\n    } while (Now() < deadline);'),
('ref-notify','ref',ALL,TP,'    state_cond_mutex_.lock();\n    state_cond_.notify_one();  // Only this one worker thread cares.\n    state_cond_mutex_.unlock();','    std::lock_guard<std::mutex> lock(state_cond_mutex_);\n    state_cond_.notify_one();'),
('ref-notify2','ref',ALL,TP,'    state_.store(new_state, std::memory_order_release);\n    state_cond_mutex_.lock();\n    state_cond_.notify_one();  // Only this one worker thread cares.\n    state_cond_mutex_.unlock();','    { std::lock_guard<std::mutex> lock(state_cond_mutex_);\n    state_.store(new_state, std::memory_order_release); }\n    state_cond_.notify_one();'),
('ref-rename','ref',ALL,[(BC,'count_mutex_);\n    count_cond_.notify_all','count_mutex_);\n    count_cond_.notify_all')]),
('ref-helper','ref',ALL,TP,'  // Task #0 will be run on the current thread.\n  CreateThreads(task_count - 1);\n  count_busy_threads_.Reset(task_count - 1);','  const int worker_count = task_count - 1;\n  CreateThreads(worker_count);\n  count_busy_threads_.Reset(worker_count);'),
('ref-revert','ref',ALL,TP,'''    if (task_) {
      task_->Run();
      task_ = nullptr;
    }''','''    Task* const task = task_;
    if (task != nullptr) {
      task_ = nullptr;
      task->Run();
    }'''),
('ref-destroy','ref',ALL,TP,'''  for (auto w : threads_) {
    delete w;
  }''','''  for (std::size_t i = 0; i < threads_.size(); ++i) {
    delete threads_[i];
  }
  threads_.clear();'''),
('ref-destroy2','ref',ALL,TP,'''  for (auto w : threads_) {
    delete w;
  }''','''  while (!threads_.empty()) {
    delete threads_.back();
    threads_.pop_back();
  }'''),
('ref-decr','ref',ALL,BC,'''  int count_value = old_count_value - 1;
  bool hit_zero = (count_value == 0);
  if (hit_zero) {
    std::lock_guard<std::mutex> lock(count_mutex_);
    count_cond_.notify_all();
  }
  return hit_zero;''','''  if (old_count_value != 1) {
    return false;
  }
  {
    std::lock_guard<std::mutex> lock(count_mutex_);
  }
  count_cond_.notify_all();
  return true;'''),
('ref-funcimpl','ref',ALL,TP,'''    while (GetNewStateOtherThanReady() == State::HasWork) {
      RevertToReadyState();
    }''','''    for (;;) {
      const State new_state = GetNewStateOtherThanReady();
      if (new_state != State::HasWork) {
        break;
      }
      RevertToReadyState();
    }'''),
('ref-runlast','ref',ALL,[(TP,'''  // Execute task #0 immediately on the current thread.
  (tasks + 0)->Run();
''','''  tasks->Run();
''')]),
('ref-create','ref',ALL,TP,'''  while (threads_.size() < unsigned_threads_count) {
    threads_.push_back(new Thread(&count_busy_threads_, spin_duration_));
  }''','''  threads_.reserve(unsigned_threads_count);
  for (std::size_t i = threads_.size(); i < unsigned_threads_count; i++) {
    threads_.push_back(new Thread(&count_busy_threads_, spin_duration_));
  }'''),
('ref-create2','ref',ALL,TP,'''  count_busy_threads_.Reset(threads_count - threads_.size());
  while (threads_.size() < unsigned_threads_count) {''','''  const int missing = threads_count - static_cast<int>(threads_.size());
  count_busy_threads_.Reset(missing);
  for (int k = 0; k < missing; k++) {'''),
]
