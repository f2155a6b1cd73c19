ID='c01-ulong-to-float-double-rounding'
PROP='C01'
EDITS=[('src/core/WorkItem.cpp','INSTRUCTION(uitofp)','''    if (result.size == 4)
      result.setFloat(in ? (float)in : 0.f, i);
    else
      result.setFloat(in ? (double)in : 0.0, i);''','''    result.setFloat(in ? (double)in : 0.0, i);''')]
NEEDS='a ulong just above the middle between two neighbouring floats, converted to float at run time'
BREAKS='the value is rounded twice, first to double, and the float is one unit too small'
DEMO=r'''
SRC = "kernel void k(global float *o, global const ulong *a) { o[0] = a[0]; o[1] = a[1]; }"
with rt.Ctx() as c:
    o, a = c.buffer(8, bytes(8)), c.buffer(16, struct.pack('<QQ', 2**63 + 2**39 + 1, 3))
    k = c.kernel(c.program(SRC), 'k')
    c.setargs(k, [('m', o), ('m', a)])
    c.ndrange(k, [1], [1])
    got = struct.unpack('<2f', c.read(o, 8))
assert got == (float(2**63 + 2**40), 3.0), got
'''
