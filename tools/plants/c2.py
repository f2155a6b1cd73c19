ID='c06-rounding-mode-left-set'
PROP='C06'
EDITS=[('src/core/WorkItemBuiltins.cpp','DEFINE_BUILTIN(convert_float)','    fesetround(origRnd);','    if (origRnd != FE_TONEAREST)\n      fesetround(origRnd);')]
NEEDS='a convert_float or convert_double with an explicit rounding mode, and arithmetic with a rounded result after it on the same worker thread'
BREAKS='the rounding mode of the conversion stays in force for what the worker executes afterwards'
DEMO=r'''
SRC = """kernel void k(global float *o, global const int *a, float x, float y)
{
  size_t i = get_global_id(0);
  float f = convert_float_rtn(a[i]);
  o[i] = x / (y + (f - a[i]));
}"""
rt.setenv(NUM_THREADS=1)
with rt.Ctx() as c:
    o, a = c.buffer(16, bytes(16)), c.buffer(16, struct.pack('<4i', 1, 2, 3, 4))
    k = c.kernel(c.program(SRC), 'k')
    c.setargs(k, [('m', o), ('m', a), ('b', struct.pack('<f', 1.0)), ('b', struct.pack('<f', 10.0))])
    c.ndrange(k, [4], [4])
    got = c.read(o, 16)
assert got == struct.pack('<f', 0.1) * 4, got.hex()
'''
