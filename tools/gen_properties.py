#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single place where the property texts are edited)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})
W='src/core/WorkItem.cpp'; B='src/core/WorkItemBuiltins.cpp'; R='src/runtime/runtime.cpp'
K='src/core/Kernel.cpp'; KI='src/core/KernelInvocation.cpp'; WG='src/core/WorkGroup.cpp'
M='src/core/Memory.cpp'; CM='src/core/common.cpp'; PR='src/core/Program.cpp'; CX='src/core/Context.cpp'; Q='src/core/Queue.cpp'; AQ='src/runtime/async_queue.cpp'

prop('C01', 'Kernels compute what OpenCL C prescribes, at every optimisation level',
 "For every well-defined OpenCL C kernel (scalar and vector integer and floating-point arithmetic, comparisons, casts, control flow, function calls, structs, unions, arrays, pointers in every address space, swizzles), running it leaves in every buffer exactly the bytes that native execution of the same source produces. "
 "This holds for any build options that do not change the language semantics (including -cl-opt-disable), and the run reports no error.",
 ['programs','inputs','configurations'], 'all well-defined kernels x input data x optimisation options',
 'The ~60 test kernels are fixed programs with fixed inputs and mostly check diagnostics, not values; the space of IR the interpreter must execute is unbounded.',
 [W,'src/core/WorkItem.h',K,CM,M,PR],
 [('one handler per LLVM instruction','WorkItem::dispatch and the INSTRUCTION() handlers'),('typed access to values','TypedValue getters/setters in common.cpp'),('operand and constant evaluation','WorkItem::getOperand, getConstantData, resolveConstExpr')],
 ['bytes of every buffer after clFinish'])
prop('C02', 'Options, plugins and threads never change what a correct program computes',
 "For every race-free kernel launch sequence, the contents of all buffers and all API return codes are identical whatever the number of worker threads, and whichever of the diagnostic facilities (data-race, uninitialized, instruction-count, API checking, logging to a file) are switched on, alone or combined. "
 "None of the diagnostic facilities reports an error for a program that is free of errors.",
 ['configurations','schedules','programs'], 'all subsets of options x thread counts x race-free programs',
 'Tests run each kernel in one configuration, with one thread count.',
 [KI,CX,Q,'src/plugins/RaceDetector.cpp','src/plugins/Uninitialized.cpp','src/plugins/InstructionCounter.cpp','src/plugins/MemCheck.cpp'],
 [('work-group distribution over threads','KernelInvocation::run, runWorker'),('plugin notifications','Context::notify* functions')],
 ['buffers, return codes, log text'])
prop('C03', 'Integer built-in functions return the exact OpenCL-defined result',
 "For every integer type, vector width and argument values, the OpenCL integer built-ins (abs, abs_diff, add_sat, sub_sat, hadd, rhadd, clamp, clz, ctz, popcount, mad_hi, mad_sat, mad24, mul24, mul_hi, max, min, rotate, upsample, bit-select/select) return exactly the value the OpenCL specification defines, including scalar-argument overloads.",
 ['inputs','programs'], 'all integer types, widths 1-16 and operand values, with emphasis on boundary values',
 'No test calls most integer built-ins, and correctness at extreme operands cannot be sampled by a few constants.',
 [B,W],[('built-in table and handlers','WorkItemBuiltins::initBuiltins and the DEFINE_BUILTIN functions'),('LLVM intrinsics produced by optimisation','llvm_* handlers')],['result buffer'])
prop('C04', 'Math built-ins return correctly rounded or within-tolerance results',
 "For every single- and double-precision argument, including zeros, denormals, infinities and NaNs, the math built-ins (including two-result ones such as fract, modf, frexp, remquo, sincos, lgamma_r, and the native_/half_ variants) return a value within the error bound the OpenCL specification allows, with exact functions exact and special values as specified. "
 "Vector forms equal the component-wise scalar results.",
 ['inputs','programs'], 'all floating-point argument values x widths x precisions',
 'Tests exercise only a handful of math functions at single points.',
 [B],[('math built-in handlers','DEFINE_BUILTIN functions under Math functions'),('function tables','ADD_BUILTIN / F1ARG / F2ARG / F3ARG')],['result buffer'])
prop('C05', 'Relational, common and geometric built-ins follow the OpenCL definition',
 "For all argument values and vector widths, relational functions (isequal, isless, isnan, isinf, isnormal, signbit, any, all, select, bitselect, ...) return exactly the specified 0/1/-1 results, common functions (clamp, degrees, max, min, mix, radians, sign, smoothstep, step) return the specified value, and geometric functions (cross, dot, distance, length, normalize and fast_ variants) equal the mathematical definition within rounding. "
 "Each function writes only its own result components.",
 ['inputs','programs'], 'all argument values (incl. special values), vector widths and precisions',
 'Practically none of these functions appears in a test.',
 [B],[('relational/common/geometric handlers','WorkItemBuiltins.cpp Common, Geometric, Relational sections')],['result buffer'])
prop('C06', 'Conversions and vector data load/store built-ins are exact',
 "For every source and destination type, vector width, saturation flag and rounding mode, convert_<type>[_sat][_rte|_rtz|_rtp|_rtn] returns exactly the specified value, and implicit C casts agree with it. "
 "as_<type>, vloadN/vstoreN, vload_half/vstore_half (all rounding modes, aligned vloada/vstorea variants) and shuffle/shuffle2 move exactly the specified bits to exactly the specified locations.",
 ['inputs','programs'], 'all type pairs x modes x values x offsets',
 'One vload/vstore test exists; conversions with rounding modes are untested.',
 [B,'src/core/half.h',W],[('conversion handlers','convert_float, convert_half, convert_uint, convert_sint'),('vector data handlers','vload, vstore, vload_half, vstore_half, shuffle')],['result buffer'])
prop('C07', 'Every NDRange executes each work-item exactly once with correct identifiers',
 "For every launch (1-3 dimensions, any global size, offset and local size, including automatic local size, required work-group sizes and non-uniform remainder groups), each work-item of the NDRange runs exactly once and no other work-item runs. "
 "Inside it every identity query (get_global_id, get_local_id, get_group_id, sizes, offsets, group counts, enqueued local size, linear ids, work_dim) returns the value defined by OpenCL, including for out-of-range dimension arguments.",
 ['inputs','configurations','schedules'], 'all NDRange shapes, with any number of worker threads',
 'Tests use a few one-dimensional uniform launches.',
 [KI,WG,B,R,'src/core/common.h'],[('group enumeration','KernelInvocation constructor and run'),('group shape','WorkGroup constructor'),('ID built-ins','get_global_id etc. in WorkItemBuiltins.cpp')],['ids stored per work-item'])
prop('C08', 'Barriers, local memory and async copies give work-group semantics',
 "At every barrier all work-items of a group (and only that group) observe the memory writes made by the others before it, regardless of group shape, loop count and control flow that leads uniformly to it. "
 "Each work-group has its own copy of __local variables and __local arguments, and async_work_group_copy / strided copies transfer exactly the specified elements (once per group) before wait_group_events returns.",
 ['programs','schedules','inputs'], 'all phase-structured kernels, group shapes, thread counts',
 'Existing tests use a fixed reduction-like kernel and small fixed copies.',
 [WG,KI,B],[('barrier','WorkGroup::notifyBarrier, clearBarrier'),('async copies','WorkGroup::async_copy, wait_event'),('local memory','WorkGroup constructor, Kernel local arguments')],['result buffers'])
prop('C09', 'Work-group divergence is reported exactly when work-items diverge',
 "If some work-items of a group reach a barrier or async-copy that others do not (or reach different ones, or pass different arguments to the async copy), a work-group divergence error is reported for the launch; if all work-items of each group reach the same sequence of barriers and async copies with the same arguments, none is. "
 "Waiting on an invalid event and finishing with un-awaited async copies are likewise reported exactly when they happen, and the launch always terminates.",
 ['programs','schedules'], 'all kernels built from barriers and async copies under work-item dependent control flow',
 'Fixed divergent kernels only.',
 [WG,KI,B],[('divergence checks','WorkGroup::notifyBarrier, async_copy, wait_event'),('end-of-kernel checks','KernelInvocation::runWorker / WorkGroup')],['log text'])
prop('C10', 'Atomic built-ins are atomic and return the correct old value',
 "For every mix of atomic operations (atomic_/atom_ add, sub, xchg, inc, dec, cmpxchg, min, max, and, or, xor on signed and unsigned integers, xchg on float, in global and local memory) executed by all work-items with any number of worker threads, the final values and the returned old values are those of some sequential order of the operations. "
 "Atomics on distinct locations do not interfere, and a misaligned atomic is reported.",
 ['schedules','inputs','programs'], 'all operation mixes, operand values and thread counts',
 'Tests run one increment kernel in one thread interleaving.',
 [M,B,W],[('locked read-modify-write','Memory::atomic, atomicCmpxchg'),('handlers','atomic_* built-ins; WorkItem atomicrmw/cmpxchg')],['memory and returned old values'])
prop('C11', 'Memory checking reports exactly the invalid accesses and contains them',
 "Every kernel load, store, atomic or bulk copy that touches memory outside a live buffer, writes a read-only or constant buffer, reads a write-only one, touches a buffer region mapped incompatibly by the host, or indexes a fixed-size array out of bounds is reported with the access kind, size and address space; accesses that are in bounds and permitted are never reported. "
 "An out-of-bounds write changes no buffer, and execution of the remaining work continues.",
 ['inputs','programs','histories'], 'all access sizes, offsets, address spaces, buffer shapes and map states',
 'A few fixed out-of-bounds kernels.',
 ['src/plugins/MemCheck.cpp',M,W,CX,R],[('bounds and flag checks','MemCheck::checkLoad, checkStore, memoryMap'),('containment','Memory::load/store/isAddressValid'),('array bounds','MemCheck::checkArrayAccess')],['log text and buffers'])
prop('C12', 'Data races are reported exactly when conflicting accesses are unordered',
 "With race detection on, a kernel in which two work-items make conflicting accesses (at least one a write, not both atomic, different values unless uniform writes are to be reported) to the same byte of global or local memory without a barrier of the right kind between them gets a race report naming that memory, and a kernel without such a pair gets none. "
 "This holds across work-groups and within one, for every NDRange shape and number of worker threads.",
 ['programs','schedules','inputs'], 'all access patterns per phase x NDRange shapes x thread counts',
 'Around fifteen fixed 1D kernels.',
 ['src/plugins/RaceDetector.cpp',WG,'src/plugins/RaceDetector.h'],[('per-byte access records','RaceDetector::registerLoadStore, syncWorkItems, checkForRace'),('cross-group check','RaceDetector::workGroupComplete, getAccessWorkGroup')],['log text'])
prop('C13', 'Use of uninitialized memory is reported exactly when it matters',
 "With uninitialized-value checking on, a kernel in which an uninitialized value reaches a store to a user-visible buffer, a branch condition, an address or a barrier-relevant decision is reported, and a kernel whose used values are all initialized (through any data flow: copies, vectors, structs, function calls, bitwise masking that discards the undefined bits, async copies, host writes) is not. "
 "Memory written by the host or by earlier kernels counts as initialized, byte for byte.",
 ['programs','histories','inputs'], 'all data-flow shapes and initialisation histories',
 'About forty fixed kernels.',
 ['src/plugins/Uninitialized.cpp','src/plugins/Uninitialized.h'],[('shadow propagation','Uninitialized::instructionExecuted and helpers'),('shadow memory','ShadowMemory load/store, memory callbacks')],['log text'])
prop('C14', 'Buffer commands behave as a byte array shared with the host',
 "For every sequence of buffer operations (create with or without host pointer, sub-buffers, read, write, copy, fill, rectangular read/write/copy with any pitches, map/unmap, kernel writes), each command reads and writes exactly the bytes OpenCL specifies and no others, in the buffer and in host memory. "
 "Sub-buffers alias their parent, overlapping lifetimes are preserved, and commands whose region leaves the buffer are refused without any effect.",
 ['histories','inputs'], 'all sequences of buffer commands with all offsets, sizes and pitches',
 'Tests only map one buffer and use plain read/write.',
 [R,Q,M,AQ],[('bounds checks and command construction','clEnqueue*Buffer* in runtime.cpp'),('execution','Queue::executeCopyBuffer, executeReadBufferRect, ...'),('storage','Memory::read/write/copy/createBuffer')],['bytes of buffers and host arrays'])
prop('C15', 'Image commands transfer exactly the specified texels',
 "For every image type (1D, 1D array, 1D buffer, 2D, 2D array, 3D), format, region, origin and pitch, host-side image reads, writes, copies (image-image, image-buffer, buffer-image), fills and maps transfer exactly the specified texels and leave all other bytes of the image and of host memory unchanged. "
 "Fill converts colours to the image format as OpenCL defines, and image queries return the creation parameters.",
 ['histories','inputs'], 'all formats, dimensionalities, origins, regions, pitches and command sequences',
 'One fixed image application with one format.',
 [R,Q],[('image commands','clCreateImage, clEnqueue*Image* in runtime.cpp'),('rect machinery','Queue rect commands'),('pixel conversion','clEnqueueFillImage')],['bytes read back, info queries'])
prop('C16', 'Kernel image access samples and stores as specified',
 "For every image type, format, sampler (normalised or not, all addressing and filter modes, declared in the kernel or passed as argument) and coordinate, read_imagef/i/ui returns the specified texel or filtered colour (with the border colour and channel order rules), and write_image* stores the colour converted to the format at exactly that texel. "
 "Image query functions return the image's dimensions, format and order.",
 ['inputs','configurations'], 'all image types x formats x samplers x coordinates',
 'A single fixed image kernel and one sampler test.',
 [B,R],[('sampling','read_imagef/i/ui, getNearestTexel, linear filtering helpers'),('stores','write_imagef/i/ui'),('queries','get_image_* handlers')],['result buffer / image bytes'])
prop('C17', 'Commands run in dependency order and event status tells the truth',
 "For every history of enqueues, user events, markers, barriers, wait lists, flushes and finishes over any number of in-order and out-of-order queues, no command's effects happen before all commands it depends on are complete, every command whose dependencies complete is executed exactly once by the time a blocking call that needs it returns, and event status and callbacks report each state exactly once. "
 "If a dependency terminates abnormally, the dependent command is not executed and its event carries a negative status.",
 ['histories','schedules','fault_sequences'], 'all histories of queue and event operations including failing user events',
 'Tests use a single queue and at most two events.',
 [Q,AQ,R],[('command selection and execution','Queue::findReady, executeNext, execute'),('event bookkeeping','async_queue.cpp asyncEnqueue, asyncQueueRelease'),('user events, callbacks','clSetUserEventStatus, clSetEventCallback, clWaitForEvents')],['buffer contents, event status, callbacks'])
prop('C18', 'Invalid API calls return the specified error and change nothing',
 "For every API entry point and every single invalid argument (null or mismatched objects, bad flags, sizes, offsets, regions, wait lists, indices, work sizes), the call returns an OpenCL error code that the specification lists for that entry point, sets the errcode_ret consistently with a null result, and changes no observable state. "
 "Valid calls return CL_SUCCESS, and with API checking on, exactly the failing calls are reported.",
 ['inputs','fault_sequences'], 'all entry points x argument corruptions',
 'Tests make only valid calls, apart from one or two.',
 [R],[('argument checks','every cl* function in runtime.cpp, ReturnError/SetError macros')],['return codes, state before/after, log text'])
prop('C19', 'Object lifetimes, reference counts and info queries obey the API contract',
 "For every history of create, retain and release over contexts, queues, buffers, sub-buffers, images, samplers, programs, kernels and events, reference-count queries agree with the history, objects stay usable while referenced directly or by a dependent object, and destructor callbacks run exactly once, in reverse registration order, when the last reference goes. "
 "Every info query reports the size it needs, refuses a too small buffer without writing to it, writes no byte past that size, and returns the value given at creation.",
 ['histories','inputs'], 'all histories of retain/release and all info queries with all buffer sizes',
 'Tests never query reference counts or use callbacks.',
 [R,'src/runtime/icd.h'],[('reference counting','clRetain*/clRelease* in runtime.cpp'),('info queries','clGet*Info in runtime.cpp')],['info results, callbacks'])
prop('C20', 'Programs build, link, serialise and clone to the same behaviour',
 "For every set of kernel sources and options, a program built directly, compiled and linked from separate parts (with headers and libraries), or recreated from its binary exposes the same kernels and computes the same results; build options such as -D, -U, -I, -w, -Werror and -cl-std take effect exactly as given. "
 "A source that is not valid is rejected with an error code and a non-empty build log, and leaves a later successful rebuild possible.",
 ['programs','configurations','histories'], 'all splits of programs into units, macro/option sets and build histories',
 'One build test with fixed options.',
 [PR,R],[('compilation and linking','Program::build, Program constructor from binary, createFromPrograms'),('API','clBuildProgram, clCompileProgram, clLinkProgram, clCreateProgramWithBinary')],['kernel results, build status/log'])
prop('C21', 'Kernel arguments and metadata are passed and reported faithfully',
 "For every kernel signature (scalars, vectors, structs by value, pointers in each address space, local sizes, images, samplers) each work-item receives exactly the bytes last set for each argument at enqueue time, also through cloned kernels and later argument changes, and program-scope constants and initialised data have exactly their source values. "
 "Argument queries (address, access and type qualifiers, type names, names), attribute and work-group queries report what the source declares, and setting an argument with a wrong size or index is refused.",
 ['programs','histories','inputs'], 'all kernel signatures and sequences of argument settings',
 'Fixed signatures, few types.',
 [K,PR,R],[('argument storage','Kernel::setArgument, allocateArguments'),('metadata','Kernel argument/attribute queries, clGetKernelArgInfo'),('constants','KernelInvocation/Kernel::allocateConstants')],['result buffers, info queries'])
prop('C22', 'Instruction histograms count exactly the instructions executed',
 "With instruction counting on, the histogram printed for a kernel gives, for every kind of instruction, exactly the number of times work-items executed it, with loads and stores split by address space together with the exact number of bytes, and function calls by name. "
 "Entries are listed from the most to the least frequent, those of equal frequency by name. "
 "The numbers do not depend on the number of worker threads, on the NDRange shape that covers the same work, or on earlier launches.",
 ['programs','configurations','schedules'], 'all kernels with data dependent control flow x thread counts x launches',
 'No test runs the instruction counter.',
 ['src/plugins/InstructionCounter.cpp'],[('counting','InstructionCounter::instructionExecuted, workGroupComplete'),('report','InstructionCounter::kernelEnd')],['printed histogram'])
prop('C23', 'printf in kernels prints what the format specifies',
 "For every printf format string (flags, width, precision, length and vector modifiers, all conversions, literal text and %%) and argument values, the text printed by each work-item equals the text C printf (with the OpenCL vector extension) prints for the same values. "
 "Each executed call prints exactly once, and the calls of one work-item appear in program order.",
 ['inputs','programs'], 'all format strings and argument values',
 'A single printf test with fixed output.',
 [B,CM],[('format interpretation','WorkItemBuiltins printf_builtin')],['stdout'])
prop('C24', 'The oclgrind-kernel front end runs a simulator file exactly as written',
 "For every well-formed simulator file (program, kernel, sizes, and argument entries of each type with values, fill, range, hex, null, read-only/write-only, noinit and dump attributes, in any layout or with comments), oclgrind-kernel runs the kernel with exactly those arguments and dumps exactly the resulting values. "
 "Malformed files are reported with an error and a failing exit status, never with a crash or a wrong run.",
 ['inputs','configurations'], 'all argument descriptions, types, value formats and layouts, and corruptions of them',
 'Tests use about sixty files with a narrow subset of the syntax.',
 ['src/kernel/Simulation.cpp','src/kernel/oclgrind-kernel.cpp'],[('parsing','Simulation::load, parseArgument, parseTypedArgument...'),('dump','Simulation::dumpArgument')],['stdout, stderr, exit status'])
prop('C25', 'The interactive debugger stops where asked and shows true values',
 "For every debugging session (step, next, continue, breakpoints set, deleted and listed, work-item switching, quit), execution stops exactly at the lines requested in the order the program executes them, and print and memory-inspection commands show the values that the program's variables and buffers hold at that point. "
 "Debugger commands do not change the results of the program, and unknown or malformed commands are rejected without effect.",
 ['histories','programs','inputs'], 'all command sequences over generated kernels',
 'Three fixed sessions.',
 ['src/plugins/InteractiveDebugger.cpp',KI],[('command loop','InteractiveDebugger::instructionExecuted and command handlers'),('variable printing','print, printTypedData')],['debugger output, final buffers'])
prop('C26', 'Launcher options and message limits take effect exactly as documented',
 "Every option of the oclgrind launcher (and its environment variable) has exactly its documented effect on the launched program - device limits, build options, log file, thread count, quick mode, checks - in any combination and order; the program receives its own arguments, environment and exit status unchanged, and unknown or incomplete options are refused with a failing status. "
 "The error limit suppresses exactly the messages beyond the limit, and logging to a file redirects all messages and nothing else.",
 ['configurations','inputs'], 'all option combinations and orders',
 'No test invokes the launcher with more than default options.',
 ['src/runtime/oclgrind.cpp',CX,'src/plugins/Logger.cpp',KI,R],[('argument parsing','parseArguments in oclgrind.cpp'),('limits','Logger::log'),('device configuration','device setup in runtime.cpp')],['child output, exit status, log file'])
prop('C27', 'Plugins are told of every event of an execution, exactly once and in order',
 "A plugin loaded through OCLGRIND_PLUGINS is told of everything that happens in its context and of nothing else: every allocation, release, map and unmap of memory and the bytes that each host command reads and writes; the begin and end of every kernel launch, work-group and work-item with its identifiers and sizes; every barrier with its flags; every load, store, atomic operation and asynchronous copy with its address space, address, size and data, in program order of its work-item and within its barrier interval; every instruction executed; and every message logged. "
 "A plugin that is not declared thread safe is never called by several worker threads during a kernel.",
 ['histories','programs','configurations','schedules'], 'all histories of buffer commands and kernel launches, in any number of contexts, with any number of threads and any built-in diagnostics',
 'No test loads an external plugin; the built-in diagnostics each look at a few kinds of event.',
 [CX,M,KI,WG,W,Q,'src/core/Plugin.h',R],[('notification of plugins','Context::notify* functions and their callers'),('plugin loading','Context::loadPlugins, unloadPlugins, registerPlugin'),('thread safety','Context::isThreadSafe, Plugin::isThreadSafe')],['the sequence of callbacks that a plugin receives'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
