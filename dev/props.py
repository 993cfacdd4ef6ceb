WIP = 'No static check has been built for this property yet.'
NOTES = ('All checks inspect the LLVM IR (and its debug information) that clang produces from /repo\'s current sources, '
         'flattened from the public entry points by tool/irx.cc; nothing of /repo is executed. '
         'Known findings, if any, are in known_findings.txt.')
PROPS = []


def prop(**k):
    PROPS.append(k)


TP, BC, WT = 'ruy/thread_pool.cc', 'ruy/blocking_counter.cc', 'ruy/wait.cc'

prop(id='C01', title='Every task of a batch runs exactly once and is visible before return',
     statement='When a batch of tasks is given to the thread pool, each task is run exactly once, on the caller or on one worker, and a worker runs at most one task of the batch. The call returns only after every task has finished, and everything the tasks wrote is visible to the caller.',
     over=['schedules', 'histories'], forall='every batch size, every history of earlier batches, every interleaving of caller and workers, every C++11-conforming memory ordering',
     why='Tests run a few batch sizes on one x86 machine, whose strong memory ordering hides missing acquire/release pairs; a too-early return or a reused worker needs a particular interleaving.',
     files=[TP, 'ruy/thread_pool.h', BC, WT],
     mech=[('batch execution: counter armed, tasks handed off, inline task, wait', TP), ('worker loop: observe work, run, return to ready, count down', TP), ('count-down with release, wait with acquire', BC)],
     technique='dataflow and typestate over flattened IR: path counting, acquire/release pairing, symbolic index ranges',
     note='Decides the hand-off protocol on all control-flow paths for all batch sizes; C++11 release/acquire reasoning is by rule (pairing), not by enumerating schedules.')
prop(id='C02', title='No lost wake-up, no deadlock while waiting for work or for completion',
     statement='A thread that blocks waiting for work or for completion is always woken once the awaited condition holds, for any spin duration and any timing, and a spurious wake-up never makes it proceed early. No lock is left held or held while a task runs, so waiting cannot deadlock.',
     over=['schedules'], forall='every interleaving of waiters and notifiers, every spin duration including zero, every spurious wake-up',
     why='A lost wake-up needs the notifier to run in the few instructions between the waiter\'s last check and its blocking; tests cannot force that window.',
     files=[WT, BC, TP], mech=[('condition re-checked under the mutex in a loop', WT), ('mutex taken between change and notification', BC), ('mutex taken between change and notification', TP)],
     technique='lockset dataflow and must-pass path rules (check-under-lock, notify-after-change)',
     note='Decides the condition-variable discipline at every wait, notify and awaited-variable change reachable from the pool.')
prop(id='C07', title='Destroying the pool stops and joins every worker',
     statement='Destroying a context or thread pool tells every worker it ever created to exit, waits until each has really terminated, and only then frees what workers use. A worker told to exit always terminates without starting other work.',
     over=['schedules', 'histories'], forall='every number of workers ever created and every state the workers are in when destruction starts',
     why='Tests destroy small idle pools; a worker that is skipped, detached or freed too early shows only as a rare crash or leak at shutdown.',
     files=[TP], mech=[('exit request to all, then join and delete of all', TP), ('worker loop ends on the exit state', TP)],
     technique='typestate (told, joined, freed) and loop-coverage analysis over flattened IR',
     note='Decides that both loops cover the whole worker list and that exit leads to return on every path.')

TM, BM = 'ruy/trmul.cc', 'ruy/block_map.cc'
prop(id='C03', title='A block is multiplied only after its operands are completely packed',
     statement='Before any thread multiplies a block, the packed form of every operand block it reads has been completely written and is visible to that thread, whichever thread packed it. No operand block is packed by two threads at once, and packing progress records start cleared and cover every block.',
     over=['schedules', 'inputs'], forall='every thread count, block layout, combination of pre-packed operands and interleaving of packing and multiplying threads, under C++11 memory ordering',
     why='A missing release or acquire, a skipped wait or a wrongly sized progress record only matters when two threads meet on the same block at the same moment; on x86 most such errors never show in a test.',
     files=[TM], mech=[('claim, pack, mark finished, observe finished', TM), ('per-thread and shared progress records allocated and cleared', TM), ('packing ahead while waiting', TM)],
     technique='disjunctive typestate analysis of the task body and its setup over flattened IR, with acquire/release pairing',
     note='All control-flow paths of the task for any number of blocks; typestate per operand block (unknown, claimed, packed, visible).')
prop(id='C04', title='Every block of the destination is computed exactly once',
     statement='For every multiplication, the threads together compute each block of the destination exactly once: no block is skipped and none is computed by two threads, whatever the number of threads and blocks. The region each block computes is the one its index stands for.',
     over=['schedules', 'inputs'], forall='every matrix shape, thread count, block count and order in which threads reserve blocks',
     why='Which thread gets which block depends on timing; a skipped or repeated block needs a particular thread and block count that tests do not enumerate.',
     files=[TM, BM], mech=[('block reservation by atomic increment starting after the initial reservations', TM), ('initial reservation by thread number', TM), ('block index to coordinates to kernel range', TM)],
     technique='typestate and symbolic index-range analysis over flattened IR',
     note='Decides reservation arithmetic, distinctness of thread numbers, loop bounds and one kernel call per reservation on all paths.')
prop(id='C08', title='Never more threads than configured, each with its own resources',
     statement='A multiplication never uses more threads than the configured maximum, and never creates more workers than that maximum less the calling thread. Every thread that takes part has its own allocator and tuning state, created before it starts.',
     over=['configurations', 'inputs', 'histories'], forall='every configured maximum, thread strategy, matrix shape and earlier history of the context',
     why='The heuristic thread count depends on all three matrix dimensions and the history of earlier calls; tests try a handful and do not count threads.',
     files=[TM, 'ruy/ctx.cc', TP, BM], mech=[('thread count heuristic clamped by the maximum', TM), ('block map thread count', BM), ('per-thread resources grown to the count', 'ruy/ctx.cc')],
     technique='symbolic upper-bound (polyhedral) analysis along the thread-count computation',
     note='Upper bound proven for every path of the heuristic for all dimensions.')

prop(id='C05', title='Threads of one multiplication write only what is theirs, or atomically',
     statement='While several threads work on one multiplication, whatever a thread writes is its own, is written atomically, or is the block of packed operand or destination it has claimed. Each thread has its own allocator and tuning state, and state that would be set up on first use is set up before the threads start.',
     over=['schedules', 'configurations', 'inputs'], forall='every thread count, every history of the context and every interleaving of the threads',
     why='A shared scratch allocator or a lazily initialised value races only if two threads reach it in the same few instructions, and often only beyond the thread counts tests use.',
     files=[TM, 'ruy/ctx.cc', 'ruy/tune.cc', 'ruy/cpuinfo.cc'], mech=[('resources handed to each task', TM), ('per-thread resources grown to the count', 'ruy/ctx.cc'), ('processor information initialised on first use', 'ruy/cpuinfo.cc')],
     technique='ownership analysis of every write of the flattened task: each address traced to what the task was given, symbolic distinctness of the per-task slots',
     note='All writes on all paths of the task, for any number of threads; writes by packing routines and kernels are covered by C03, C04, M05 and M08.')
prop(id='C06', title='Contexts share no mutable state except synchronised state',
     statement='Multiplications with different contexts, running at the same time on different threads, never write the same library state without synchronisation: every variable that outlives contexts is constant, per thread, or written only atomically, under a lock or by its one-time initialisation. The library does not change process-wide settings such as the environment.',
     over=['schedules', 'programs'], forall='every number of contexts and threads using them, every interleaving',
     why='The existing tests use one context at a time; even if they used two, a race on a static variable shows only when both threads meet on it.',
     files=['ruy/ctx.cc', TM, 'ruy/tune.cc', 'ruy/cpuinfo.cc', 'ruy/allocator.cc', 'ruy/prepacked_cache.cc'], mech=[('all state reachable from the context object', 'ruy/ctx_impl.h'), ('processor information per context', 'ruy/cpuinfo.h')],
     technique='interprocedural escape analysis of every non-constant program-wide variable, with locksets; query for calls that change process state',
     note='Whole library and client instantiations; third-party code (cpuinfo, C and C++ runtimes) is assumed to synchronise its own state.')
prop(id='L01', title='Scratch memory lives exactly as long as the work that uses it',
     statement='Whatever scratch memory a multiplication takes from its context, and whatever a thread takes from its own allocator, is given back before the multiplication respectively the thread\'s share ends, on every path. None of it is used, and nothing that still uses it runs, after it was given back.',
     over=['inputs', 'histories', 'configurations'], forall='every shape, cache policy, bias, thread count and path through the front end and the middle end',
     why='Memory that is kept shows only as growth over many calls; memory given back too early is usually still intact when read, so results stay right until the layout of the buffers changes.',
     files=['ruy/frontend.cc', TM, 'ruy/prepare_packed_matrices.cc', 'ruy/create_trmul_params.h', 'ruy/allocator.h'], mech=[('release at the end of the front end', 'ruy/frontend.cc'), ('release at the end of a task', TM), ('packed operands and task state allocated from scratch memory', 'ruy/prepare_packed_matrices.cc')],
     technique='typestate (allocate, use, free) over flattened IR: must-free on every path to return, no use reachable from a free',
     note='All paths of three front-end instantiations, the middle end and the task.')

prop(id='B01', title='Blocks tile the destination exactly, aligned to the kernel',
     statement='However a destination is subdivided, the blocks along each side are contiguous, start at zero, end exactly at the padded dimension, and have boundaries that are multiples of the kernel size. The number of blocks per side is a power of two with a non-negative exponent, and at most one side gets the extra rectangular subdivision.',
     over=['inputs', 'configurations'], forall='every pair of dimensions, kernel shape, scalar size, cache size and thread count',
     why='Tests check a grid of shapes with the kernels of one machine; a rounding error needs a shape and kernel combination they do not contain.',
     files=[BM, 'ruy/block_map.h', 'ruy/size_util.h'], mech=[('block sizes from dimension and subdivision', BM), ('block coordinates from block number', BM), ('rectangular subdivision', BM)],
     technique='case-partitioned polyhedral analysis of the block-size arithmetic',
     note='For every subdivision exponent up to 2^26 blocks and kernel sizes 1..32, for all dimensions symbolically.')
prop(id='B02', title='Block indices map one-to-one onto the block grid',
     statement='In every traversal order and for every subdivision, consecutive block indices from zero to the number of blocks minus one name each block of the grid exactly once. No index names a block outside the grid.',
     over=['inputs', 'configurations'], forall='every traversal order, subdivision exponent and rectangular factor up to 2^30 blocks',
     why='Large space-filling-curve grids only occur for matrices far larger than tests can multiply.',
     files=[BM], mech=[('index decoding per traversal order', BM), ('rectangular offset added to the local position', BM)],
     technique='abstract interpretation in the domain of XOR-affine bit vectors, with a bijection invariant at loop heads',
     note='Each bit of the result is an XOR of index bits; one-to-one is a rank condition.')

PC, PP = 'ruy/prepacked_cache.cc', 'ruy/prepare_packed_matrices.cc'
prop(id='K01', title='A cached packed operand is reused only for an identical operand',
     statement='When an operand\'s packed form is taken from the cache, it is the form that packing that operand now would produce: same data location, source layout, source type, zero point and packed layout. Operands that differ in anything packing depends on never share an entry.',
     over=['histories', 'inputs'], forall='every sequence of multiplications with cached operands, every pair of operands, layouts, types and zero points',
     why='Sharing needs two operands that agree in everything but one property; tests try a few such pairs, the number of properties packing depends on grows with the code.',
     files=[PC, 'ruy/prepacked_cache.h', 'ruy/mat.h', PP], mech=[('cache key and its equality', 'ruy/prepacked_cache.h'), ('key filled from operand, look-up and insertion', PC), ('packing routines reading the operand description', 'ruy/pack.h')],
     technique='effect analysis (what packing reads) against must-reaching definitions of the key and abstract interpretation of its equality',
     note='All packing routines of all paths; equality decided member by member with all others arbitrary.')
prop(id='K02', title='The cache\'s size count is exact and its memory is released',
     statement='The size the cache reports always equals the memory its entries hold: an entry is counted when inserted at what was allocated and discounted by the same amount when evicted. Evicting an entry or destroying the cache frees each of its buffers exactly once, and an entry is added beyond the limit only when nothing can be evicted.',
     over=['histories', 'inputs'], forall='every sequence of insertions and evictions, every packed layout and type',
     why='A small mismatch accumulates over thousands of evictions before it shows; tests evict a handful of entries of one type.',
     files=[PC], mech=[('allocation, insertion and count', PC), ('eviction until there is room', PC), ('destruction', PC)],
     technique='symbolic accounting along all paths (counted = allocated = discounted as functions of the descriptor) and typestate for buffers',
     note='Amounts compared as polynomials of the packed description, case by case.')
prop(id='K03', title='A cached operand in use is not evicted by the same multiplication',
     statement='Once a multiplication has obtained an operand from the cache, preparing its other operand never evicts or frees it. No other step of a multiplication frees cached memory.',
     over=['histories', 'inputs'], forall='every cache content and limit, every pair of cacheable operands',
     why='The eviction only happens when both operands are cached and the cache is within one operand of its limit of hundreds of megabytes.',
     files=[PC, PP], mech=[('choice of the entry to evict', PC), ('operand already held passed to the look-up of the other', PP)],
     technique='guard (must-pass edge) analysis of the eviction choice with side-wise symbolic addresses',
     note='Both operand orders.')
prop(id='K04', title='Only operands that allow it are cached, and new entries are fully packed',
     statement='An operand whose cache policy does not allow caching is never looked up in or stored in the cache. A new entry is packed completely before it can be used by any multiplication, and an operand counts as already packed only after a hit or such packing.',
     over=['configurations', 'histories'], forall='every combination of cache policies and operand shapes and every earlier cache content',
     why='A wrongly cached operand shows only when its contents change between two multiplications; tests use constant contents.',
     files=[PP, 'ruy/matrix.h', PC], mech=[('decision to cache', PP), ('packing after insertion and mark as packed', PP)],
     technique='must-pass path rules on policy tests, insertion, packing and marking',
     note='All control-flow paths of operand preparation.')
prop(id='K05', title='Eviction removes the least recently used entry',
     statement='Whenever the cache evicts an entry, every entry that stays (other than one in use) was used more recently. Every insertion and every hit counts as a use, for any number of uses.',
     over=['histories'], forall='every sequence of insertions and hits of any length',
     why='The order is only visible through which operand must be packed again; tests evict once or twice in short histories.',
     files=[PC, 'ruy/prepacked_cache.h'], mech=[('timestamps on use', PC), ('search for the oldest entry', PC)],
     technique='must-pass path rules on timestamps and on the branches of the minimum search',
     note='Choice decided for one arbitrary pair of entries; the search is shown to visit all entries.')

AL='ruy/allocator.cc'
prop(id='M01', title='Scratch memory is aligned, disjoint, alive until freed, and never leaked',
     statement='Every buffer handed out by a scratch allocator is aligned, at least as large as requested, lies inside memory the allocator owns, and overlaps no other buffer handed out since everything was last freed. Freeing everything, or destroying the allocator, frees each owned block exactly once and leaves a consistent empty state, also when the system runs out of memory.',
     over=['histories', 'inputs', 'fault_sequences'], forall='every sequence of requests of any size, frees and failing system allocations',
     why='Overlap and leaks depend on the exact sequence of sizes and on failures of the system allocator, which tests do not provoke.',
     files=[AL, 'ruy/allocator.h', 'ruy/system_aligned_alloc.cc'], mech=[('bump allocation and fallback blocks', AL), ('reallocation of the buffer when everything is freed', AL), ('anti-aliasing offset', AL)],
     technique='inductive invariant over the allocator\'s members by forward abstract interpretation of each operation, with heap typestate',
     note='Invariant established by every operation from any state satisfying it; all sizes symbolic.')
prop(id='F01', title='Kernels run with subnormals flushed; the caller\'s FP state is preserved',
     statement='Whenever a kernel computes, on whichever thread, subnormal operands are treated as zero and subnormal results are flushed to zero. When a multiplication returns, and when a task ends, the floating-point control state of the thread is exactly what it was on entry.',
     over=['configurations', 'inputs', 'schedules'], forall='every thread count, every control state of the caller and every path through a multiplication',
     why='Only visible with subnormal data on the right thread, or in the caller\'s own later arithmetic; tests use neither.',
     files=['ruy/denormal.cc', 'ruy/trmul.cc', TP], mech=[('scope object saving and restoring the control word', 'ruy/denormal.cc'), ('scope around the multiplication', 'ruy/trmul.cc'), ('scope in the worker thread', TP)],
     technique='forward dataflow of the abstract control word (entry value, bits set, bits cleared)',
     note='All paths of the multiplication, the worker loop and the task; x86 control register.')

CT, FE = 'ruy/create_trmul_params.h', 'ruy/frontend.cc'
prop(id='A03', title='The multiplication carried out is the one the caller described',
     statement='For every combination of storage orders and channel dimension, the problem handed to the core has the caller\'s data, sizes, strides, zero points, cache policies and post-processing parameters, each belonging to the operand it came from. When the problem is transposed for a row-major destination, operands and channel dimension are exchanged together with everything that belongs to them.',
     over=['inputs', 'configurations'], forall='every storage order of the three matrices, channel dimension, and all values of sizes, strides, zero points, policies and parameters',
     why='Most of the description has no effect in most multiplications: a lost cache policy or a swapped stride is invisible unless that very field matters for that order.',
     files=[CT, FE, 'ruy/mat.h', 'ruy/frontend.h'], mech=[('erased operand descriptions', 'ruy/mat.h'), ('transposition for row-major destinations', CT), ('copy of the post-processing parameters', CT)],
     technique='byte-precise copy propagation from the public objects to the hand-over point on all paths',
     note='14 type combinations and path sets, 16 combinations of orders and channel dimension each; all values symbolic.')
prop(id='P04', title='Packing routines, kernel and packed layout belong to the selected path',
     statement='Whichever code path is selected, the packing routines and the kernel of exactly that path and of the operands\' types are used, and the packed layout they agree on covers the operand rounded up to whole kernel blocks. Every path a multiplication is compiled for can be prepared.',
     over=['configurations', 'inputs'], forall='every compiled set of paths analysed, every path in it, all type combinations, orders and sizes',
     why='Each type and path combination is wired up by templates; tests cover the combinations that exist for the default set of paths on the machine at hand.',
     files=[CT, 'ruy/pack.h', 'ruy/kernel.h', 'ruy/path.h'], mech=[('search for the selected path among the compiled ones', CT), ('wiring of packing routines, kernel and packed layouts', CT)],
     technique='constant and symbolic value propagation to the hand-over point; template arguments of the routines compared with the description',
     note='Relies on template arguments naming what a routine implements.')
prop(id='M09', title='Per-channel buffers handed to kernels cover the padded channels',
     statement='Kernels read per-channel buffers up to a whole number of kernel blocks. Every per-channel buffer handed to them either has a user-declared capacity reaching that far or is a scratch copy that does, holding the user\'s values for all channels and zeros beyond; nothing beyond the user\'s channels is read to make the copy.',
     over=['inputs', 'configurations'], forall='every number of channels, declared capacity rounding up to 128, channel dimension, order and type',
     why='An over-read of a few elements only faults at the end of mapped memory; it otherwise computes values that are discarded.',
     files=[CT, 'ruy/mul_params.h'], mech=[('capacity test', CT), ('copy into scratch memory', CT)],
     technique='byte-precise abstract interpretation with symbolic copy and fill lengths and linear entailment',
     note='All sizes symbolic; the thorough tier covers every rounding, the quick tier two of them.')
CX = 'ruy/ctx.cc'
prop(id='P01', title='The best path both compiled in and enabled is taken, and one always exists',
     statement='Whatever the enabled paths were set from (detection, environment variable, the user), the portable fallback stays enabled. Each multiplication takes the most advanced path among those compiled in and enabled, and reports it.',
     over=['configurations', 'histories'], forall='every set of compiled and every set of enabled paths, every way of setting the latter',
     why='The set of paths depends on machine, environment and build; tests see the machine they run on.',
     files=[CX, 'ruy/path.h', 'ruy/size_util.h'], mech=[('choice of the path', CX), ('setting of enabled paths', CX), ('environment variable', CX)],
     technique='abstract interpretation of the choice over all sets, with effect analysis finding every writer of the enabled set',
     note='All 65536 pairs of sets reduced to those that include the fallback.')
prop(id='P02', title='Detection enables exactly the paths whose code the processor can run',
     statement='Unless the user enables paths explicitly, a path is only ever enabled when the processor reports every instruction set extension the code of that path was compiled with, and never when the processor could not be queried. A built path with all its extensions reported present is enabled, and code shared by all paths needs no extension.',
     over=['configurations', 'fault_sequences'], forall='every combination of processor features and outcomes of the query',
     why='Needs a processor that has some but not all of the features; tests run on one machine.',
     files=['ruy/cpuinfo.cc', CX, 'ruy/have_built_path_for_avx512.cc', 'ruy/CMakeLists.txt'], mech=[('feature tests', 'ruy/cpuinfo.cc'), ('detection of enabled paths', CX), ('compiler flags per path', 'ruy/CMakeLists.txt')],
     technique='compiled target features of every function reachable from a path\'s kernels against the feature tests that guard enabling it, by exhaustive abstract evaluation',
     note='x86 feature bits; functions shared between translation units are attributed to the least demanding one.')

KX = ['ruy/kernel_avx.cc', 'ruy/kernel_avx2_fma.cc', 'ruy/kernel_avx512.cc', 'ruy/kernel.h', 'ruy/kernel_x86.h']
PX = ['ruy/pack_avx.cc', 'ruy/pack_avx2_fma.cc', 'ruy/pack_avx512.cc', 'ruy/pack.h', 'ruy/pack_x86.h']
KN = 'All shapes, offsets and strides symbolic below 2 GiB; x86 and portable paths; every combination of optional inputs.'
KT = 'every access expressed as object plus polynomial of inputs and loop counters (scalar evolution, mask lanes), containment by linear integer entailment'
prop(id='M05', title='A kernel writes only inside the block it was asked to compute',
     statement='Computing a block of the destination writes only to rows and columns of that block that exist in the destination, for every path, type and combination of optional inputs. Padding between destination columns, rows and columns beyond the edge, packed operands, and blocks of other threads are never written.',
     over=['inputs', 'configurations'], forall='every size, stride, block position, destination type, channel dimension and combination of bias and per-channel parameters',
     why='A few elements too many are overwritten with correct values by a later block or land in padding nobody checks; they corrupt memory only for particular residues of the size and strides.',
     files=KX, mech=[('full-tile stores and edge stores', 'ruy/kernel_avx2_fma.cc'), ('masked and element-wise edge stores', 'ruy/kernel_avx512.cc'), ('portable kernel', 'ruy/kernel.h')],
     technique=KT, note=KN)
prop(id='M06', title='Packing reads only elements of the source matrix',
     statement='Packing a range of columns of an operand reads only elements that exist in it, for both storage orders, every size and every stride. Memory before, after or between its lines is never read, not even to be discarded.',
     over=['inputs', 'configurations'], forall='every number of rows and columns, stride, storage order, range of columns, path and type',
     why='An over-read value is usually masked out or multiplied by zero; it only shows when the operand ends at the end of mapped memory or holds infinities.',
     files=PX, mech=[('columns beyond the edge replaced by a constant buffer', 'ruy/pack_avx2_fma.cc'), ('masked and partial loads at the edge', 'ruy/pack_avx512.cc'), ('portable packing', 'ruy/pack.h')],
     technique=KT, note=KN)
prop(id='M07', title='A kernel reads only packed data, sums and per-channel values that exist',
     statement='Computing a block reads only inside the packed operands, their sums and those per-channel buffers that were supplied, up to whole kernel blocks. Nothing is read through an optional input that is absent, and nothing past the last packed element.',
     over=['inputs', 'configurations'], forall='every size, depth, block position, channel dimension and combination of optional inputs',
     why='A read one step ahead of the data goes unnoticed unless the packed buffer ends at unmapped memory, which depends on the allocator.',
     files=KX, mech=[('depth loop over packed operands', 'ruy/kernel_avx.cc'), ('bias and multiplier loads', 'ruy/kernel_avx2_fma.cc'), ('sums loads for zero points', 'ruy/kernel_avx512.cc')],
     technique=KT, note=KN)
prop(id='M08', title='Packing writes only the packed columns it was asked for',
     statement='Packing a range of columns writes only the packed form of those columns and their sums, within the stride of the packed layout. The packed form of other columns, which another thread may be writing or reading, is never touched.',
     over=['inputs', 'configurations', 'schedules'], forall='every number of rows and columns, stride, storage order, range of columns, path and type',
     why='Writes past the range are repeated correctly when the neighbouring range is packed, so only a particular order of threads, or the very last range, shows them.',
     files=PX, mech=[('block stores', 'ruy/pack_avx2_fma.cc'), ('trailing rows buffer', 'ruy/pack_avx512.cc'), ('portable packing', 'ruy/pack.h')],
     technique=KT, note=KN)


MPH = 'ruy/mul_params.h'
prop(id='A05', title='Options of the public objects are independent and read back as set',
     statement='Whatever an object of the public interface held before, reading an option right after setting it gives the value that was set, and setting one option does not change what another one reads, apart from scalar and per-channel multipliers, which exclude each other. A new object has neutral options: no bias, no zero point, no caching, bounds that limit nothing.',
     over=['inputs', 'histories'], forall='every value of every option, every earlier state of the object and every instantiation in use',
     why='Tests set options once, in one order, to few values; an option that loses some values or disturbs another one needs the right earlier state to show.',
     files=[MPH, 'ruy/matrix.h', 'ruy/context.h', 'ruy/context.cc', CX], mech=[('setters and getters of the post-processing parameters', MPH), ('setters and getters of matrices and layouts', 'ruy/matrix.h'), ('options of a context', CX)],
     technique='byte-precise symbolic copy propagation through setter and getter pairs; effect sets of setters against read sets of getters',
     note='All values and earlier states symbolic, for four matrix, six parameter and the context class.')
prop(id='A06', title='What a context reports about the last multiplication is about that one',
     statement='After a multiplication the advisories of its context depend on nothing that happened in earlier multiplications, and the one about copied per-channel buffers is given exactly when this multiplication copied one. The path reported as last used is the one this multiplication selected.',
     over=['inputs', 'histories', 'configurations'], forall='every earlier state of the context, every storage order, channel dimension, code path, capacity and combination of per-channel buffers',
     why='Tests query one advisory after a few calls; a stale or missing report needs a particular earlier call or combination of buffers.',
     files=['ruy/frontend.h', CT, CX, 'ruy/performance_advisory.h'], mech=[('advisories cleared at the start', 'ruy/frontend.h'), ('advisory given before copying', CT), ('selected path stored', CX)],
     technique='byte-precise symbolic interpretation of the front end on all paths; effect query for the phases after it',
     note='14 type combinations and path sets, 16 combinations of orders and channel dimension each; all earlier states symbolic.')
prop(id='T01', title='Every thread runs with the tuning asked for, or a recent automatic choice',
     statement='A tuning set explicitly on a context is what packing and kernels of every thread of its next multiplication run with, and setting it back to automatic has effect on every thread as well. An automatic choice is always an actual tuning, is made from the current processor, and is reused only while it is younger than its expiry time.',
     over=['inputs', 'histories', 'schedules', 'configurations'], forall='every sequence of tunings set on a context, number of threads, clock reading and processor answer',
     why='The tuning does not change results, and on the tested processors all tunings lead to the same code, so that no test can see which one was used.',
     files=['ruy/tune.cc', 'ruy/tune.h', TM, CX, 'ruy/prepare_packed_matrices.cc'], mech=[('resolution with expiry', 'ruy/tune.cc'), ('resolvers of all threads told', TM), ('calling thread told before packing', CX)],
     technique='case analysis of the resolver with linear entailment of the expiry condition; must-precede analysis of telling before starting threads; origin analysis of the tuning arguments',
     note='All cases of the resolver, all calls of packing routines and kernels.')
KX = ['ruy/kernel.h', 'ruy/kernel_x86.h', 'ruy/kernel_avx.cc', 'ruy/kernel_avx2_fma.cc', 'ruy/kernel_avx512.cc']
prop(id='D01', title='Every result written is within the clamp bounds of the multiplication',
     statement='Each value a kernel writes to the destination, in whole blocks as in the remaining rows and columns, was limited by both the lower and the upper bound the caller gave for this multiplication, after all other steps. Raw accumulators, which have no bounds, are exempt.',
     over=['inputs', 'configurations'], forall='every operand value, shape, bound, code path and destination type',
     why='Tests use bounds one step from the extreme values of the type, which almost no result exceeds; each combination of path, type and leftover shape has clamping code of its own.',
     files=KX, mech=[('clamping before the store, per destination type and leftover case', k) for k in KX],
     technique='backward value-flow analysis of every lane stored to the destination to its dominating minimum and maximum with the bounds',
     note='Every destination store of every x86 and portable kernel the front end can name; results that are not numbers are out of scope.')
PI, PIC, PPC, PTV = 'ruy/profiler/instrumentation.h', 'ruy/profiler/instrumentation.cc', 'ruy/profiler/profiler.cc', 'ruy/profiler/treeview.cc'
prop(id='R01', title='The profiler touches label stacks of live threads only, under their lock',
     statement='Whenever instrumented code runs while a profile is being taken, each access to the stack of labels of a thread, by that thread or by the sampling thread, happens with the lock of that stack held. The list of stacks and the other data all threads share are accessed only under one common lock, a stack found in the list is used only while that lock is held and leaves the list before its thread is gone, and the two kinds of locks are always taken in the same order.',
     over=['schedules', 'histories'], forall='every interleaving of instrumented threads starting, entering and leaving scopes and ending with a sampling thread',
     why='The profiler tests run a few threads that live as long as the profile; a race or a stale stack needs a thread to end or to enter a scope at the right instant.',
     files=[PI, PIC, PPC], mech=[('lock of a stack around pushing, popping and sampling', PI), ('registration and removal of stacks', PIC), ('sampling loop', PPC)],
     technique='lockset analysis over all functions of the profiler and instrumented client code; path query for removal; lock-order analysis',
     note='All accesses of the profiler; process exit (destruction of the list itself) is out of scope.')
prop(id='R02', title='A profile has one sampling thread, which ends before samples are read',
     statement='A profile starts its sampling thread only when no other profile is running, tells it to end and waits for it before any sample is read and before the profile is gone, on every path. Afterwards another profile can always start.',
     over=['schedules', 'histories'], forall='every sequence of profiles, enabled or not, with and without samples, and every timing of the sampling thread',
     why='Tests take one profile at a time with samples in it; reading early or a mark left behind shows only with particular timing or an empty profile.',
     files=[PPC, 'ruy/profiler/profiler.h'], mech=[('start, sampling loop and destruction of a profile', PPC)],
     technique='typestate and path queries over the life of a scoped profile with the sampling thread',
     note='Profiles held for a scope, with and without a view supplied, enabled or not.')
prop(id='R03', title='Samples hold exactly the labels of the scopes entered and read back the same',
     statement='Entering a scope adds exactly its label, with text and arguments, behind the ones already there, never beyond the capacity of the stack of labels or of the label, and leaving the scope restores the depth. A sample is appended behind the earlier ones in room made for exactly its bytes, however many there are, and reading the samples restores identity, depth and each label of every one.',
     over=['inputs', 'histories'], forall='every depth of nesting up to and beyond the capacity, every label and every number of samples taken before',
     why='Tests nest a few scopes and take short profiles; errors at the capacity, at large depths or after two gigabytes of samples stay unseen.',
     files=[PI, PIC, PPC, PTV], mech=[('push and pop', PI), ('size, writing and reading of a sample', PIC), ('appending samples', PPC), ('reading all samples', PTV)],
     technique='byte-precise symbolic interpretation of push, pop, sampling and reading at every depth; compile-fail witness for too many arguments',
     note='Depths 0 to twice the capacity, all buffer lengths symbolic.')
