IH = 'ruy/profiler/instrumentation.h'
IC = 'ruy/profiler/instrumentation.cc'
PC = 'ruy/profiler/profiler.cc'
TC = 'ruy/profiler/treeview.cc'
POP = '''    std::lock_guard<std::mutex> lock(mutex_);
    stack_.size--;
'''
DTOR = '''  for (auto it = all_stacks->begin(); it != all_stacks->end(); ++it) {
    if (*it == this) {
      all_stacks->erase(it);
      return;
    }
  }
'''
SAMPLE = '  std::lock_guard<std::mutex> lock(thread_stack.Mutex());\n'
LOOP = '''    std::lock_guard<std::mutex> lock(*detail::GlobalsMutex());
    auto* thread_stacks = detail::GlobalAllThreadStacks();
    for (detail::ThreadStack* thread_stack : *thread_stacks) {
      Sample(*thread_stack);
    }
'''
END = '''  finishing_.store(true);
  thread_->join();
  Finish();
'''
APPEND = '''  samples_buf_.resize(old_buf_size + sample_size);
  detail::CopyToBuffer(thread_stack.stack(),
                       samples_buf_.data() + old_buf_size);
'''
A, B, C = ['R01'], ['R02'], ['R03']
ALL = ['R01', 'R02', 'R03']
MUT = [
    ('pop-unlocked', 'bug', A, IH, POP, '    stack_.size--;\n'),
    ('pop-lock-late', 'bug', A, IH, POP, '    const int new_size = stack_.size - 1;\n    std::lock_guard<std::mutex> lock(mutex_);\n    stack_.size = new_size;\n'),
    ('push-early-release', 'bug', A, IH, '    stack_.labels[stack_.size++].Set(args...);\n', '    Label* label = &stack_.labels[stack_.size++];\n    mutex_.unlock();\n    label->Set(args...);\n    mutex_.lock();\n'),
    ('sample-peek', 'bug', A, PC, SAMPLE, '  if (thread_stack.stack().size == 0) {\n    return;\n  }\n' + SAMPLE),
    ('copy-list', 'bug', A, PC, LOOP, '''    std::vector<detail::ThreadStack*> stacks;
    {
      std::lock_guard<std::mutex> lock(*detail::GlobalsMutex());
      stacks = *detail::GlobalAllThreadStacks();
    }
    for (detail::ThreadStack* thread_stack : stacks) {
      Sample(*thread_stack);
    }
'''),
    ('id-unlocked', 'bug', A, IC, '''  std::lock_guard<std::mutex> lock(*GlobalsMutex());
  static std::uint32_t global_next_thread_stack_id = 0;
  stack_.id = global_next_thread_stack_id++;
''', '''  static std::uint32_t global_next_thread_stack_id = 0;
  stack_.id = global_next_thread_stack_id++;
  std::lock_guard<std::mutex> lock(*GlobalsMutex());
'''),
    ('register-first', 'bug', A, IC, '''  stack_.id = global_next_thread_stack_id++;
  GlobalAllThreadStacks()->push_back(this);
''', '''  GlobalAllThreadStacks()->push_back(this);
  stack_.id = global_next_thread_stack_id++;
'''),
    ('leave-last-only', 'bug', A, IC, DTOR, '''  if (!all_stacks->empty() && all_stacks->back() == this) {
    all_stacks->pop_back();
  }
'''),
    ('leave-if-empty', 'bug', A, IC, '    if (*it == this) {', '    if (*it == this && stack_.size == 0) {'),
    ('leave-next', 'bug', A, IC, '      all_stacks->erase(it);', '      all_stacks->erase(it + 1 == all_stacks->end() ? it : it + 1);'),
    ('leave-running', 'bug', A, IC, '''  std::vector<ThreadStack*>* all_stacks = GlobalAllThreadStacks();
''', '''  if (!GlobalIsProfilerRunning()) {
    return;
  }
  std::vector<ThreadStack*>* all_stacks = GlobalAllThreadStacks();
'''),
    ('order', 'bug', A, PC, LOOP, '''    auto* thread_stacks = detail::GlobalAllThreadStacks();
    detail::GlobalsMutex()->lock();
    for (detail::ThreadStack* thread_stack : *thread_stacks) {
      std::lock_guard<std::mutex> stack_lock(thread_stack->Mutex());
      detail::GlobalsMutex()->unlock();
      if (thread_stack->stack().size > 0) {
        int sample_size = detail::GetBufferSize(thread_stack->stack());
        std::size_t old_buf_size = samples_buf_.size();
        samples_buf_.resize(old_buf_size + sample_size);
        detail::CopyToBuffer(thread_stack->stack(),
                             samples_buf_.data() + old_buf_size);
      }
      detail::GlobalsMutex()->lock();
    }
    detail::GlobalsMutex()->unlock();
'''),
    ('leave-short', 'bug', A, IC, 'it != all_stacks->end(); ++it', 'it + 1 < all_stacks->end() || it == all_stacks->begin(); ++it'),
    ('remove-erase', 'ref', ALL, [(IC, DTOR, '  all_stacks->erase(std::remove(all_stacks->begin(), all_stacks->end(), this),\n                    all_stacks->end());\n'), (IC, '#include <cstring>', '#include <algorithm>\n#include <cstring>')]),
    ('std-find', 'ref', ALL, [(IC, DTOR, '  auto it = std::find(all_stacks->begin(), all_stacks->end(), this);\n  if (it != all_stacks->end()) {\n    all_stacks->erase(it);\n  }\n'), (IC, '#include <cstring>', '#include <algorithm>\n#include <cstring>')]),
    ('swap-pop', 'ref', ALL, IC, '      all_stacks->erase(it);', '      *it = all_stacks->back();\n      all_stacks->pop_back();'),
    ('find-erase', 'ref', ALL, IC, DTOR, '''  auto it = all_stacks->begin();
  while (it != all_stacks->end() && *it != this) {
    ++it;
  }
  if (it != all_stacks->end()) {
    all_stacks->erase(it);
  }
'''),
    ('index-erase', 'ref', ALL, IC, DTOR, '''  for (std::size_t i = 0; i < all_stacks->size(); ++i) {
    if ((*all_stacks)[i] == this) {
      all_stacks->erase(all_stacks->begin() + i);
      break;
    }
  }
'''),
    ('scoped-pop', 'ref', ALL, IH, POP, '    std::unique_lock<std::mutex> lock(mutex_);\n    --stack_.size;\n    lock.unlock();\n'),
    ('push-steps', 'ref', ALL, IH, '    stack_.labels[stack_.size++].Set(args...);\n', '    Label& label = stack_.labels[stack_.size];\n    label.Set(args...);\n    stack_.size += 1;\n'),
    ('sample-lock-outside', 'ref', ALL, PC, LOOP, '''    std::lock_guard<std::mutex> lock(*detail::GlobalsMutex());
    auto* thread_stacks = detail::GlobalAllThreadStacks();
    for (std::size_t i = 0; i < thread_stacks->size(); i++) {
      const detail::ThreadStack* thread_stack = (*thread_stacks)[i];
      Sample(*thread_stack);
    }
'''),
    # R02
    ('no-join', 'bug', B, PC, '  thread_->join();\n', '  thread_->detach();\n'),
    ('finish-first', 'bug', B, PC, '  thread_->join();\n  Finish();\n', '  Finish();\n  thread_->join();\n'),
    ('told-late', 'bug', B, PC, '  finishing_.store(true);\n  thread_->join();\n', '  if (!samples_buf_.empty()) {\n    finishing_.store(true);\n  }\n  thread_->join();\n'),
    ('lower-late', 'bug', B, PC, '''  finishing_ = false;
  thread_.reset(new std::thread(&ScopeProfile::ThreadFunc, this));
''', '''  thread_.reset(new std::thread(&ScopeProfile::ThreadFunc, this));
  finishing_ = false;
'''),
    ('not-lowered', 'bug', B, PC, '  finishing_ = false;\n', ''),
    ('mark-unlocked', 'bug', B, PC, '''    detail::GlobalIsProfilerRunning() = true;
  }
''', '''  }
  detail::GlobalIsProfilerRunning() = true;
'''),
    ('mark-two-holds', 'bug', B, PC, '''    detail::GlobalIsProfilerRunning() = true;
  }
''', '''  }
  {
    std::lock_guard<std::mutex> lock(*detail::GlobalsMutex());
    detail::GlobalIsProfilerRunning() = true;
  }
'''),
    ('mark-kept', 'bug', B, PC, '    detail::GlobalIsProfilerRunning() = false;\n', '    detail::GlobalIsProfilerRunning() = samples_buf_.empty();\n'),
    ('mark-early', 'bug', B, PC, END, '''  finishing_.store(true);
  {
    std::lock_guard<std::mutex> lock(*detail::GlobalsMutex());
    detail::GlobalIsProfilerRunning() = false;
  }
  thread_->join();
  {
    std::lock_guard<std::mutex> lock(*detail::GlobalsMutex());
    detail::GlobalIsProfilerRunning() = true;
  }
  Finish();
'''),
    ('loop-on-empty', 'bug', B, PC, '  while (!finishing_.load()) {', '  while (!finishing_.load() || samples_buf_.empty()) {'),
    ('loop-for', 'ref', ALL, PC, '  while (!finishing_.load()) {', '  for (; finishing_.load(std::memory_order_acquire) == false;) {'),
    ('loop-break', 'ref', ALL, PC, '  while (!finishing_.load()) {', '  while (true) {\n    if (finishing_.load()) {\n      break;\n    }'),
    ('dtor-nested', 'ref', ALL, PC, '''  if (!thread_) {
    return;
  }
  finishing_.store(true);
  thread_->join();
  Finish();
''', '''  if (thread_ != nullptr) {
    finishing_ = true;
    thread_->join();
    Finish();
  }
'''),
    ('thread-reset', 'ref', ALL, PC, '  thread_->join();\n  Finish();\n', '  thread_->join();\n  thread_.reset();\n  Finish();\n'),
    ('flag-local', 'ref', ALL, PC, '''    if (detail::GlobalIsProfilerRunning()) {
      fprintf(stderr, "FATAL: profiler already running!\\n");
      abort();
    }
    detail::GlobalIsProfilerRunning() = true;
''', '''    bool& running = detail::GlobalIsProfilerRunning();
    if (running) {
      fprintf(stderr, "FATAL: profiler already running!\\n");
      abort();
    }
    running = true;
'''),
    # R03
    ('cap-off', 'bug', C, IH, '    if (stack_.size >= Stack::kMaxSize) {', '    if (stack_.size > Stack::kMaxSize) {'),
    ('cap-assert', 'bug', C, [(IH, '#include <cstdio>', '#include <cassert>\n#include <cstdio>'), (IH, '''    if (stack_.size >= Stack::kMaxSize) {
      abort();
    }
''', '    assert(stack_.size < Stack::kMaxSize);\n')]),
    ('arg-order', 'bug', C, IH, '''    SetArgs(position, arg0);
    SetArgs(position + 1, args...);
''', '''    SetArgs(position, arg0);
    SetArgs(sizeof...(args) > 2 ? position + 2 : position + 1, args...);
'''),
    ('truncate', 'bug', C, PC, '  std::size_t old_buf_size = samples_buf_.size();', '  int old_buf_size = samples_buf_.size();'),
    ('no-assert', 'bug', C, IH, '    static_assert(sizeof...(args) <= kMaxArgs, "too many label arguments");\n', ''),
    ('size-short', 'bug', C, IC, '         stack.size * sizeof(stack.labels[0]);\n}', '         (stack.size < 32 ? stack.size : 32) * sizeof(stack.labels[0]);\n}'),
    ('copy-short', 'bug', C, IC, '  memcpy(dst, stack.labels, stack.size * sizeof(stack.labels[0]));', '  memcpy(dst, stack.labels,\n         (stack.size > 16 ? 16 : stack.size) * sizeof(stack.labels[0]));'),
    ('read-long', 'bug', C, IC, '  memcpy(stack->labels, src, stack->size * sizeof(stack->labels[0]));', '  memcpy(stack->labels, src, (stack->size + (stack->size > 40)) * sizeof(stack->labels[0]) - (stack->size > 40 ? 64 : 0));'),
    ('read-swap', 'bug', C, IC, '''  memcpy(&stack->id, src, sizeof(stack->id));
  src += sizeof(stack->id);
  memcpy(&stack->size, src, sizeof(stack->size));
  src += sizeof(stack->size);
''', '''  memcpy(&stack->size, src + sizeof(stack->id), sizeof(stack->size));
  if (stack->size < 60) {
    memcpy(&stack->id, src, sizeof(stack->id));
  }
  src += sizeof(stack->id) + sizeof(stack->size);
'''),
    ('advance', 'bug', C, TC, '    buf_ptr += GetBufferSize(stack);', '    buf_ptr += stack.size > 50 ? 8 + 51 * 32 : GetBufferSize(stack);'),
    ('reserve', 'bug', C, PC, APPEND, '''  if (samples_buf_.capacity() < old_buf_size + sample_size) {
    samples_buf_.resize(old_buf_size + sample_size);
  }
  detail::CopyToBuffer(thread_stack.stack(),
                       samples_buf_.data() + old_buf_size);
'''),
    ('pop-twice', 'bug', C, IH, '    stack_.size--;\n', '    stack_.size = stack_.size > 60 ? stack_.size - 2 : stack_.size - 1;\n'),
    ('stale-data', 'bug', C, PC, APPEND, '''  char* dst = samples_buf_.data() + old_buf_size;
  samples_buf_.resize(old_buf_size + sample_size);
  detail::CopyToBuffer(thread_stack.stack(), dst);
'''),
    ('copy-loop', 'ref', ALL, IC, '  memcpy(dst, stack.labels, stack.size * sizeof(stack.labels[0]));', '  const std::size_t labels_size = stack.size * sizeof(stack.labels[0]);\n  memcpy(dst, stack.labels, labels_size);'),
    ('grow-helper', 'ref', ALL, PC, APPEND, '''  samples_buf_.resize(samples_buf_.size() + sample_size);
  char* dst = &samples_buf_[old_buf_size];
  detail::CopyToBuffer(thread_stack.stack(), dst);
'''),
    ('read-order', 'ref', ALL, IC, '''  memcpy(&stack->id, src, sizeof(stack->id));
  src += sizeof(stack->id);
  memcpy(&stack->size, src, sizeof(stack->size));
  src += sizeof(stack->size);
''', '''  memcpy(&stack->size, src + sizeof(stack->id), sizeof(stack->size));
  memcpy(&stack->id, src, sizeof(stack->id));
  src += sizeof(stack->id) + sizeof(stack->size);
'''),
    ('advance-local', 'ref', ALL, TC, '    buf_ptr += GetBufferSize(stack);\n    const int id = stack.id;', '    const int id = stack.id;\n    const int sample_bytes = GetBufferSize(stack);\n    buf_ptr = buf_ptr + sample_bytes;'),
    ('format-swap', 'ref', ALL, [(IC, '''  memcpy(dst, &stack.id, sizeof(stack.id));
  dst += sizeof(stack.id);
  memcpy(dst, &stack.size, sizeof(stack.size));
  dst += sizeof(stack.size);
''', '''  memcpy(dst, &stack.size, sizeof(stack.size));
  dst += sizeof(stack.size);
  memcpy(dst, &stack.id, sizeof(stack.id));
  dst += sizeof(stack.id);
'''), (IC, '''  memcpy(&stack->id, src, sizeof(stack->id));
  src += sizeof(stack->id);
  memcpy(&stack->size, src, sizeof(stack->size));
  src += sizeof(stack->size);
''', '''  memcpy(&stack->size, src, sizeof(stack->size));
  src += sizeof(stack->size);
  memcpy(&stack->id, src, sizeof(stack->id));
  src += sizeof(stack->id);
''')]),
]
