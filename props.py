#!/usr/bin/env python3
"""Source of properties.jsonl (run to regenerate) ."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, na=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))


C, R, PL, K = 'src/core/', 'src/runtime/', 'src/plugins/', 'src/kernel/'

prop('C01', 'Simulated accesses never reach host memory outside a live allocation',
     'Every load, store, copy, atomic or map performed on a simulated memory touches backing storage only after the exact address and size of that access have been validated to lie inside a live allocation. '
     'An access that fails validation has no effect on host memory and is answered with a failure result.',
     ['inputs', 'programs'], 'all kernels and host calls, all addresses, sizes and address spaces',
     'Tests run a few kernels with a handful of bad addresses; the guarantee is over every access path in the simulator and every address/size pair.',
     [C + 'Memory.cpp', C + 'Memory.h'],
     [('validity test dominating every dereference of buffer storage', 'Memory::load/store/copy/atomic*/getPointer/mapBuffer'),
      ('validity predicate', 'Memory::isAddressValid'), ('address encoding', 'Memory::extractBuffer/extractOffset/allocateBuffer')])

prop('C02', 'Every simulated memory access is announced to the analysis plugins',
     'Each load, store, atomic read-modify-write, copy, allocation, deallocation, map and unmap of simulated memory is reported to the analysis layer exactly as performed: same memory, same address, same size, same stored data, the load half and the store half of an update each reported. '
     'The report happens on every path of the access, including accesses that then turn out to be invalid.',
     ['inputs', 'programs'], 'every access made by any kernel or host command',
     'A missing or mis-sized report silently blinds every checker for one kind of access; tests only notice for the kinds they happen to check.',
     [C + 'Memory.cpp', C + 'Queue.cpp', C + 'Context.cpp'],
     [('notification calls in each access method', 'Memory::load/store/copy/atomic/atomicCmpxchg/allocateBuffer/deallocateBuffer'),
      ('map/unmap announcement', 'Queue::executeMap/executeUnmap')])

prop('C03', 'Every simulation event is delivered to every loaded plugin',
     'Whenever the simulator announces an event (kernel, work-group and work-item begin and end, barrier, instruction, memory event, log message), every loaded plugin receives the callback of that same event with the same arguments. '
     'Accesses made while a work-item or work-group is executing are attributed to it, all others to the host.',
     ['programs', 'configurations'], 'all events, all sets of loaded plugins',
     'Tests load one plugin at a time and look at one kind of event.',
     [C + 'Context.cpp', C + 'Plugin.h'],
     [('per-event forwarding loops', 'Context::notify*'), ('plugin callbacks', 'class Plugin')])

prop('C04', 'Execution events are properly bracketed and ordered',
     'For every kernel launch the begin event precedes all of its work-group events and the end event follows them; each work-group and each work-item that runs is announced before it executes and its completion is announced once it finishes. '
     'Every instruction a work-item executes is announced, exactly once, after it took effect.',
     ['programs', 'schedules'], 'all kernels, NDRanges and worker-thread counts',
     'Depends on control flow through the scheduler for every kernel shape and thread count.',
     [C + 'KernelInvocation.cpp', C + 'WorkItem.cpp', C + 'WorkGroup.cpp'],
     [('launch bracketing', 'KernelInvocation::run'), ('group bracketing', 'KernelInvocation::runWorker'),
      ('item and instruction events', 'WorkItem::step/execute/call/ret')])

prop('C05', 'Invalid kernel accesses are always diagnosed',
     'With the memory checker loaded, every non-atomic or atomic load or store issued by a kernel is checked against its own address and size: an access outside any live allocation, a write to a read-only buffer, a read of a write-only buffer, or an access overlapping a conflicting host mapping produces an error message. '
     'Conforming accesses produce none.',
     ['inputs', 'programs'], 'all kernel accesses',
     'Each test covers one access kind in one address space.',
     [PL + 'MemCheck.cpp'],
     [('access callbacks', 'MemCheck::memoryLoad/memoryStore/memoryAtomic*'), ('checks', 'MemCheck::checkLoad/checkStore/logInvalidAccess'),
      ('mapping list', 'MemCheck::memoryMap/memoryUnmap')])

prop('C06', 'Conflicting unsynchronised accesses are recognised as a data race',
     'With the race detector loaded, two accesses to the same byte by different work-items (or different work-groups) with no synchronisation between them are reported unless both are loads, both are atomic, or (when uniform writes are allowed) both are non-atomic stores of the same value. '
     'Every byte of every global or local load, store and atomic takes part in this comparison.',
     ['programs', 'schedules'], 'all pairs of accesses of any kernel',
     'Race verdicts depend on every pair of accesses; the tests contain about a dozen fixed kernels.',
     [PL + 'RaceDetector.cpp', PL + 'RaceDetector.h'],
     [('recording', 'RaceDetector::registerAccess/insert'), ('conflict predicate', 'RaceDetector::check'),
      ('access kinds', 'RaceDetector::MemoryAccess')])

prop('C07', 'Race detection honours barriers and work-group boundaries',
     'Accesses separated by a barrier with the fence of the accessed address space are never compared inside a work-group, and all others are; when a group or the kernel finishes, its accesses are merged so that conflicts between different groups are still found and no access survives into the next launch. '
     'Shared state of the detector is only touched under its lock or by the owning worker thread.',
     ['programs', 'schedules'], 'all barrier placements, group counts and thread interleavings',
     'Requires reasoning over all schedules of groups on worker threads.',
     [PL + 'RaceDetector.cpp'],
     [('barrier synchronisation', 'RaceDetector::workGroupBarrier/syncWorkItems'), ('group merge', 'RaceDetector::workGroupComplete'),
      ('kernel end', 'RaceDetector::kernelEnd')])

prop('C08', 'Every supported IR instruction is executed by its own semantics',
     'Each instruction kind of the kernel IR is executed by the operation the IR assigns to it (integer and floating-point arithmetic, shifts, logic, conversions, comparisons with every predicate, selection, control flow), with operands in the right order and the right signedness. '
     'An instruction kind the simulator does not implement is reported as a fatal error rather than skipped.',
     ['programs', 'inputs'], 'all instruction kinds, predicates and vector lanes',
     'Tests execute a few operators on a few values.',
     [C + 'WorkItem.cpp'],
     [('dispatch', 'WorkItem::dispatch'), ('handlers', 'WorkItem::add ... WorkItem::zext')])

prop('C09', 'Work-item identity functions describe the launched index space',
     'The identity queries of a kernel (work dimension, global, local and group ids, sizes, counts, offsets, linear ids) return, for each dimension 0..2, the quantity they are named after, and the defined default for any larger dimension. '
     'The ids themselves satisfy global id = group id x group size + local id + offset, and the linear indices are the row-major linearisation of the ids.',
     ['inputs', 'programs'], 'all NDRanges, offsets and dimension arguments',
     'Tests use a handful of index spaces, most of them one-dimensional.',
     [C + 'WorkItemBuiltins.cpp', C + 'WorkItem.cpp', C + 'WorkGroup.cpp', C + 'KernelInvocation.cpp'],
     [('identity builtins', 'WorkItemBuiltins::get_*'), ('id computation', 'WorkItem::WorkItem, WorkGroup::WorkGroup')])

prop('C10', 'Every work-group of the index space is run exactly once with its own size',
     'The set of work-groups executed for a launch is exactly the grid obtained by dividing the global size by the group size, rounded up, each taken once by one worker; the last group in a dimension has the remainder size when the division is not exact. '
     'Within a group exactly one work-item per local id is created and run to completion.',
     ['inputs', 'schedules'], 'all index spaces and worker-thread counts',
     'Coverage of the grid must hold for every size and every number of workers.',
     [C + 'KernelInvocation.cpp', C + 'WorkGroup.cpp'],
     [('work list', 'KernelInvocation::KernelInvocation'), ('work distribution', 'KernelInvocation::runWorker'),
      ('work-item creation', 'WorkGroup::WorkGroup')])

prop('C11', 'Barriers and group copies synchronise the whole group or are diagnosed',
     'A work-item that reaches a barrier or group-wide copy waits there until every running work-item of its group has arrived; a work-item arriving at a different point, with different fence, event or copy arguments, or finishing while others wait, is reported as divergence. '
     'When the last one arrives all waiting work-items resume, and all registered copies that are waited for have been performed.',
     ['programs', 'schedules'], 'all kernels using group synchronisation',
     'Divergence patterns are unbounded; the tests exercise a few.',
     [C + 'WorkGroup.cpp', C + 'WorkItemBuiltins.cpp'],
     [('arrival', 'WorkGroup::notifyBarrier'), ('release', 'WorkGroup::clearBarrier'), ('copies', 'WorkGroup::async_copy'), ('finish', 'WorkGroup::notifyFinished')])

prop('C12', 'Each built-in function name is bound to its own implementation',
     'Calling an OpenCL built-in by name executes the implementation of that very function: the operation, and any operation selector passed with it, correspond to the called name, and prefix-matched families do not capture names of other functions. '
     'A call to a function with no definition and no implementation is reported as a fatal error.',
     ['programs'], 'all built-in names the simulator knows',
     'The table has several hundred entries; tests call a small fraction of them.',
     [C + 'WorkItemBuiltins.cpp', C + 'WorkItem.cpp', C + 'common.h'],
     [('name table', 'workItemBuiltins initialiser'), ('lookup', 'WorkItem::call / InterpreterCache::addBuiltin')])

prop('C13', 'Atomic built-ins perform their named update and return the old value',
     'Each atomic function performs the read-modify-write it is named after, with the signedness of its operand type, on the addressed location, returns the value held before, and is atomic with respect to all other atomics on that memory. '
     'Access to an invalid address never touches memory, and a misaligned address is reported.',
     ['programs', 'schedules', 'inputs'], 'all atomic operations, operand values and interleavings',
     'Atomicity is a schedule property and tests only sample values.',
     [C + 'Memory.cpp', C + 'WorkItemBuiltins.cpp'],
     [('operations', 'Memory::atomic'), ('compare-exchange', 'Memory::atomicCmpxchg'), ('name to operation', 'WorkItemBuiltins::atomic_op')])

prop('C14', 'Locks are always released and guard the state they protect',
     'Every lock the simulator takes is released again on every way out of the region, including fatal errors, and state shared between worker threads is modified only while its lock is held or is per-thread. '
     'When a loaded plugin is not thread safe only one worker thread is used.',
     ['schedules', 'fault_sequences'], 'all interleavings of worker threads, all error exits',
     'Interleavings and error exits are not enumerable by tests.',
     [C + 'Memory.cpp', C + 'Context.cpp', PL + 'RaceDetector.cpp', PL + 'InstructionCounter.cpp', C + 'KernelInvocation.cpp', PL + 'Uninitialized.cpp', PL + 'MemCheck.cpp'],
     [('atomic mutexes', 'Memory::atomic*'), ('plugin locks', 'RaceDetector/InstructionCounter/Uninitialized'), ('worker count', 'KernelInvocation ctor, Context::isThreadSafe')])

prop('C15', 'Image element layout is the same for every component',
     'For every supported image format the number of channels, the size of a channel and therefore the size of a pixel used by the host API agree with those used when a kernel reads or writes that image. '
     'Image element addresses are computed from the same row and slice pitches everywhere. A coordinate and a sampler select the pixels the specification defines for that addressing mode.',
     ['inputs', 'configurations'], 'all image formats, dimensions and coordinates',
     'Formats are a large product space; tests use two or three.',
     [R + 'runtime.cpp', C + 'WorkItemBuiltins.cpp', C + 'Queue.cpp'],
     [('host tables', 'getNumChannels/getPixelSize'), ('device tables', 'WorkItemBuiltins::getNumChannels/getChannelSize')])

prop('C16', 'API entry points reject invalid handles before using them',
     'An API call given a null object handle that the specification requires to be valid returns the error code of that object class and does not dereference the handle. '
     'This holds for every entry point and every handle argument.',
     ['inputs', 'programs'], 'all entry points and handle arguments',
     'Over a hundred entry points times their arguments; the tests pass valid handles almost always.',
     [R + 'runtime.cpp'], [('entry validation', 'every cl* entry point')])

prop('C17', 'Error reporting of object-creating calls is consistent',
     'A call that creates an object either returns a valid object and reports success, or returns no object and reports a specific failure code through the caller\'s error location; it never returns no object with a success code or an unset code, nor an object with a failure code. '
     'A caller that passes no error location is handled.',
     ['inputs', 'fault_sequences'], 'all creating entry points and all argument errors',
     'Every error path of every creating call would have to be driven.',
     [R + 'runtime.cpp'], [('error macros', 'SetErrorInfo/ReturnErrorInfo'), ('creation paths', 'clCreate*, clLinkProgram, clEnqueueMap*')])

prop('C18', 'API objects live exactly as long as their references',
     'Every API object starts with one reference, each retain adds one, each release removes one, and the object is destroyed when, and only when, the last reference goes; an object keeps the objects it depends on alive until it is destroyed. '
     'Destruction releases each of those dependencies exactly once and uses the object no more.',
     ['histories'], 'all sequences of create/retain/release calls',
     'Lifetime errors need specific histories of retains and releases.',
     [R + 'runtime.cpp', R + 'async_queue.cpp'],
     [('retain/release entry points', 'clRetain*/clRelease*'), ('creation', 'clCreate*'), ('dependencies', 'context/program/parent references')])

prop('C19', 'Information queries never overrun the caller\'s buffer and report true sizes',
     'Each information query writes at most the caller-provided number of bytes, fails with an invalid-value error when the buffer is too small or the queried name is unknown, and reports the exact size of the value through the size result whenever requested. '
     'The bytes written are the bytes of the queried value and nothing else.',
     ['inputs'], 'all query functions, parameter names, buffer sizes and null combinations',
     'The product of query functions, parameters and buffer sizes is far beyond the tests.',
     [R + 'runtime.cpp'], [('query idiom', 'clGet*Info')])

prop('C20', 'Queued commands keep everything they use alive until they have run',
     'From the moment a command is enqueued until it has executed, every memory object, kernel and event it depends on is retained, and these references are dropped exactly once when the command is released. '
     'An event returned to the caller describes that command and carries its command type and queue.',
     ['histories', 'schedules'], 'all sequences of enqueue and release calls',
     'A dangling object needs a release between enqueue and execution.',
     [R + 'async_queue.cpp', R + 'runtime.cpp'],
     [('retain/release bookkeeping', 'asyncQueueRetain/asyncEnqueue/asyncQueueRelease'), ('enqueue entry points', 'clEnqueue*')])

prop('C21', 'Transfer commands are bounds- and permission-checked against their objects',
     'A host command that reads, writes, copies, fills or maps a buffer or image is rejected with an error unless the whole requested range lies inside the object, and host reads or writes the object\'s access flags forbid are rejected with the invalid-operation error. '
     'Rejected commands are never enqueued.',
     ['inputs'], 'all offsets, sizes, pitches, regions and flags',
     'Tests use in-range requests plus a few specific out-of-range ones.',
     [R + 'runtime.cpp'], [('range and flag checks', 'clEnqueueRead/Write/Copy/Fill/Map*')])

prop('C22', 'Each enqueued command is carried out as requested',
     'A command taken from a queue is executed by the operation of its own kind with the parameters of the request: host pointer, source and destination, offsets, sizes, pitches, pattern and arguments reach the memory operation unchanged. '
     'Rectangular transfers move exactly the rows and slices of the region at the addresses given by origin and pitches.',
     ['inputs', 'histories'], 'all commands and parameter values',
     'Parameter mix-ups show only for particular asymmetric arguments.',
     [C + 'Queue.cpp', C + 'Queue.h', R + 'runtime.cpp'],
     [('command dispatch', 'Queue::execute'), ('execution', 'Queue::execute*'), ('request capture', 'clEnqueue*')])

prop('C23', 'Commands respect dependencies and publish their progress in order',
     'A command runs only after every event it waits for has completed; if one of them failed, the command does not run and its own event reports the failure. '
     'Command events move through queued, running and complete in that order with non-decreasing timestamps, and every command is executed once and removed.',
     ['histories', 'schedules'], 'all dependency graphs between commands',
     'Dependency graphs are unbounded.',
     [C + 'Queue.cpp', R + 'runtime.cpp', R + 'async_queue.cpp'],
     [('execution loop', 'Queue::execute/enqueue/finish'), ('user events', 'clSetUserEventStatus')])

prop('C24', 'Blocking and synchronising calls return only after the work is done',
     'A call that is blocking by definition or by its blocking flag does not return success before the command, and everything enqueued before it on that queue, has been executed or has failed because of a failed event. '
     'Waiting on events executes the commands they belong to on their queues, returns success only once every event is final, and reports an error if one of them failed.',
     ['histories'], 'all blocking calls after any history of enqueues',
     'Depends on what was enqueued before the call.',
     [R + 'runtime.cpp'], [('blocking paths', 'clEnqueueRead*/Write*/Map*, clFinish, clWaitForEvents')])

prop('C25', 'The ICD dispatch table routes every API function to its own implementation',
     'Each slot of the driver\'s dispatch table holds the implementation of the API function that the OpenCL loader calls through that slot, and every object handed out begins with that table. '
     'Extension lookups by name return the function of that name.',
     ['programs'], 'all API functions reachable through the loader',
     'A swapped slot is seen only by programs that use the loader and that function.',
     [R + 'runtime.cpp', R + 'icd.h', 'include/CL/cl_icd.h'],
     [('dispatch table', 'm_dispatchTable'), ('object creation', 'every new _cl_*'), ('lookup', 'clGetExtensionFunctionAddress*')])

prop('C26', 'Every command-line option controls the feature it names',
     'Each launcher option is passed on to the simulation under the setting that the simulator reads for that feature, so giving the option and setting the documented variable are equivalent, in both launchers. '
     'An option that needs a value and is given none is rejected, as is an unknown option.',
     ['configurations', 'inputs'], 'all options and argument vectors',
     'Most options are never exercised by the tests.',
     [R + 'oclgrind.cpp', K + 'oclgrind-kernel.cpp', C + 'Context.cpp', C + 'common.cpp', C + 'KernelInvocation.cpp'],
     [('option parsing', 'parseArguments'), ('readers', 'checkEnv/getEnvInt/getenv users')])

prop('C27', 'Kernel arguments are validated, stored privately and required',
     'Setting a kernel argument succeeds only for an existing index and the size (and kind) the parameter requires; the value is copied so that later changes by the caller have no effect, and a kernel cannot be launched until every argument has been set. '
     'A launch uses the argument values in force when it was enqueued.',
     ['inputs', 'histories'], 'all kernels, argument indices, sizes and set/launch histories',
     'Depends on call histories and sizes the tests do not vary.',
     [R + 'runtime.cpp', C + 'Kernel.cpp'],
     [('argument setting', 'clSetKernelArg, Kernel::setArgument'), ('completeness', 'Kernel::allArgumentsSet, clEnqueueNDRangeKernel')])

prop('C28', 'Launch parameters are validated before any simulation starts',
     'A kernel launch is accepted only with one to three dimensions, non-zero group sizes within the device limits (each and in total) that divide the global size where the kernel needs uniform groups and match any required group size, all arguments set and memory needs within the device limits; anything else returns the specific error and enqueues nothing. An empty global size runs nothing. '
     'No accepted launch can make the simulator divide by zero or exceed its limits.',
     ['inputs'], 'all dimension counts and sizes',
     'Tests launch valid configurations.',
     [R + 'runtime.cpp', K + 'Simulation.cpp'], [('checks', 'clEnqueueNDRangeKernel, clEnqueueTask')])

prop('C29', 'Uninitialised-value tracking covers every instruction and access',
     'With the uninitialised-value checker loaded, every instruction kind the simulator executes has a shadow rule, results depend on the shadow of all operands, loads and stores move shadow state for exactly the bytes accessed, and using an undefined value for an address, a branch condition or an index is reported. '
     'Host writes and initialised allocations mark their bytes as defined.',
     ['programs', 'inputs'], 'all instruction kinds and accesses',
     'A missing rule loses warnings only for kernels using it.',
     [PL + 'Uninitialized.cpp'], [('shadow transfer', 'Uninitialized::instructionExecuted'), ('shadow memory', 'ShadowMemory'), ('host events', 'hostMemoryStore/memoryMap')])

prop('C30', 'Instruction counts equal the instructions executed',
     'With instruction counting enabled, every executed instruction increments exactly one counter, the one named in the report for its opcode, callee or memory space, and the totals of all worker threads are combined without loss. '
     'Byte totals add the size of each counted load and store.',
     ['programs', 'schedules'], 'all kernels and worker counts',
     'Lost updates are schedule dependent; label mix-ups show only for specific opcodes.',
     [PL + 'InstructionCounter.cpp'], [('counting', 'instructionExecuted'), ('merge', 'workGroupComplete'), ('report', 'kernelEnd/getOpcodeName')])

prop('C31', 'Simulated allocations are released by whoever made them',
     'Every allocation in simulated memory made for a kernel, a work-group, a work-item, a program or an API object is returned when that owner ends, on every path, so that repeated work does not exhaust simulated memory and freed addresses become invalid. '
     'Heap objects owned by one component are freed with the matching form of deallocation.',
     ['histories', 'programs'], 'all sequences of launches, builds and releases',
     'Leaks and mismatches do not fail any test.',
     [C + 'Memory.cpp', C + 'WorkItem.cpp', C + 'WorkGroup.cpp', C + 'Kernel.cpp', C + 'Program.cpp', R + 'runtime.cpp', C + 'Queue.cpp'],
     [('allocation/deallocation pairs', 'Memory::allocateBuffer/deallocateBuffer callers'), ('destructors', '~WorkItem, ~WorkGroup, ~KernelInvocation, ~Kernel, ~Program')])

prop('C32', 'A failing kernel is contained and reported',
     'A fatal error raised while interpreting a kernel is caught, reported with its origin, and ends the affected work without bringing down the process; it never escapes a worker thread or an API call. '
     'Building an invalid program likewise ends in a failed build status with a log, not a crash.',
     ['programs', 'fault_sequences'], 'all kernels and all failure points',
     'Failure points are unbounded.',
     [C + 'KernelInvocation.cpp', C + 'Program.cpp', C + 'Context.cpp', R + 'runtime.cpp'],
     [('catch blocks', 'KernelInvocation::runWorker, runtime entry points'), ('build status', 'Program::build')])

prop('C33', 'Kernel-controlled indices cannot escape simulator data structures',
     'Any index, count or lane number that a kernel or simulation file can choose is range-checked before the simulator uses it to address its own data structures. '
     'Out-of-range values have a defined outcome.',
     ['inputs', 'programs'], 'all index values a program can produce',
     'Only hostile values trigger it.',
     [C + 'WorkItem.cpp', C + 'WorkItemBuiltins.cpp', K + 'Simulation.cpp'],
     [('lane accesses', 'extractelem/insertelem/shuffle'), ('dimension arguments', 'get_* builtins')])

prop('C34', 'Simulation files are interpreted with the declared types and sizes',
     'In a kernel simulation file every declared element type is parsed, initialised, stored and printed with the width, signedness and number format of that type, and the declared size of an argument bounds all the data written for it. '
     'Malformed input is rejected with a message giving its position.',
     ['inputs'], 'all simulation files',
     'Type tables have a dozen entries in several places; tests use a few.',
     [K + 'Simulation.cpp', K + 'Simulation.h'], [('type table', 'Simulation::parseArgument'), ('dump table', 'Simulation::run / dumpArgument')])

prop('C35', 'Rounding and conversion state never leaks between instructions',
     'An operation that changes the host floating-point rounding mode to implement a conversion restores the previous mode on every path before the next instruction executes. '
     'The mode used is the one requested by the operation\'s name.',
     ['programs', 'inputs'], 'all conversions and values',
     'A leaked mode corrupts later unrelated arithmetic by an ulp.',
     [C + 'WorkItemBuiltins.cpp'], [('save/restore', 'convert_* builtins')])

prop('C36', 'Vector loads and stores address consecutive elements of their own type',
     'Vector load/store and strided or group copies access, for lane or element i, the address base + (offset x width + i) x element size in the address space of the given pointer, with three-element and half-precision variants using their defined strides. '
     'Reading and writing variants of a function use the same addresses.',
     ['programs', 'inputs'], 'all vector widths, element types, offsets and address spaces',
     'Tests cover a few widths.',
     [C + 'WorkItemBuiltins.cpp', C + 'WorkGroup.cpp'], [('vload/vstore', 'WorkItemBuiltins::vload/vstore*'), ('copies', 'WorkGroup::clearBarrier')])

prop('C37', 'Numerical results of math built-ins meet the OpenCL accuracy limits',
     'Each math built-in returns a result within the error bound that OpenCL prescribes for it, for every input. '
     'Special values are handled as specified.',
     ['inputs'], 'all floating-point inputs', 'The input space is 2^64 per function.',
     [C + 'WorkItemBuiltins.cpp'], [('host math library', 'F1ARG/F2ARG tables')])

prop('C38', 'A kernel computes what the OpenCL C source specifies',
     'For every valid kernel and input, the memory contents after simulation equal those prescribed by the OpenCL C and SPIR semantics. '
     'This includes the front end, the IR passes run on the program and the interpreter.',
     ['programs', 'inputs'], 'all kernels and inputs', 'Unbounded programs and inputs.',
     [C + 'Program.cpp', C + 'WorkItem.cpp'], [('front end and passes', 'Program::build'), ('interpreter', 'WorkItem')])

prop('C39', 'Formatted printing follows the OpenCL printf conventions',
     'Output of printf in a kernel is the text prescribed for the format and arguments, including vector and length modifiers. '
     'Malformed formats do not read arguments that were not passed.',
     ['inputs', 'programs'], 'all formats and arguments', 'Formats are unbounded strings.',
     [C + 'WorkItemBuiltins.cpp'], [('formatter', 'WorkItemBuiltins::printf_builtin')])

prop('C40', 'Results do not depend on the number of worker threads',
     'For a race-free kernel the memory contents, the set of diagnostics and the statistics are identical for every number of worker threads. '
     'Debugger sessions show the state of the selected work-item.',
     ['schedules'], 'all interleavings', 'Interleavings are unbounded.',
     [C + 'KernelInvocation.cpp'], [('worker pool', 'KernelInvocation::run')])

prop('C41', 'Integer built-ins deliver the exact result for every operand',
     'add_sat, sub_sat and mad_sat deliver the true result where it fits the element type and the nearest end of its range otherwise; abs, abs_diff, hadd, rhadd, mul_hi, mad_hi, rotate, upsample and clz deliver the exact result. '
     'This holds for every element type and all operand values, including the extremes, with no carry or sign lost in between.',
     ['inputs'], 'all operand values of all eight integer types', 'Tests try a handful of values; the mistakes sit at the extremes of 64-bit types.',
     [C + 'WorkItemBuiltins.cpp'], [('saturation', 'WorkItemBuiltins::add_sat/sub_sat/mad_sat'), ('high halves', 'WorkItemBuiltins::_umul_hi_/_smul_hi_')])
prop('C42', 'Selecting and permuting built-ins deliver exactly the prescribed element',
     'all and any combine the sign bits of every lane; select and bitselect take each lane or bit from the operand its condition names without changing its representation. '
     'shuffle and shuffle2 take the element named by the lane number reduced to the number of elements; sign delivers one, minus one, the zero of its operand with its sign, or zero for a NaN.',
     ['inputs'], 'all operand values, lane numbers and vector widths', 'Tests try a handful of values; NaN, signed zeros, out-of-range lane numbers and masks of subnormal value are not among them.',
     [C + 'WorkItemBuiltins.cpp'], [('conditions', 'WorkItemBuiltins::select_builtin/all/any'), ('lane numbers', 'WorkItemBuiltins::shuffle_builtin/shuffle2_builtin'),
      ('bits', 'WorkItemBuiltins::bitselect')])


if __name__ == '__main__':
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    import jsonschema
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in P:
        jsonschema.validate(p, s)
        assert len(p['title']) <= 80, p['id']
        assert p['statement'].count('. ') <= 2, p['id']
    print(len(P), 'properties')
