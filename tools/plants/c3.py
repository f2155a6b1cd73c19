ID='c22-intrinsic-calls-hidden'
PROP='C22'
EDITS=[('src/plugins/InstructionCounter.cpp','name.compare(0, 14, "call llvm.dbg.") == 0','name.compare(0, 10, "call llvm.") == 0')]
NEEDS='a kernel that the compiler turns into calls of LLVM intrinsics (fma, min/max, memset, bit reversal, ...)'
BREAKS='the histogram does not list the calls of LLVM intrinsics that work-items executed'
DEMO=r'''
SRC = "kernel void k(global float *o, global const float *a) { size_t i = get_global_id(0); o[i] = fma(a[i], a[i], 2.0f) + __builtin_bitreverse32(i); }"
rt.setenv(INST_COUNTS=True)
with rt.Capture() as cap:
    with rt.Ctx() as c:
        o, a = c.buffer(64, bytes(64)), c.buffer(64, bytes(64))
        k = c.kernel(c.program(SRC), 'k')
        c.setargs(k, [('m', o), ('m', a)])
        c.ndrange(k, [4], [4])
assert 'call llvm.bitreverse' in cap.stdout, cap.stdout
'''
