ID='c05-islessgreater-nan'
PROP='C05'
EDITS=[('src/core/WorkItemBuiltins.cpp','return islessgreater(x, y);','return x != y;')]
NEEDS='islessgreater with a NaN operand'
BREAKS='unordered operands count as less or greater'
DEMO=r'''
SRC = "kernel void k(global int4 *o, float4 a, float4 b) { o[0] = islessgreater(a, b); }"
with rt.Ctx() as c:
    o = c.buffer(16, bytes(16))
    k = c.kernel(c.program(SRC), 'k')
    n = float('nan')
    c.setargs(k, [('m', o), ('b', struct.pack('<4f', 1, 2, n, 4)), ('b', struct.pack('<4f', 1, 3, 1, n))])
    c.ndrange(k, [1], [1])
    got = struct.unpack('<4i', c.read(o, 16))
assert got == (0, -1, 0, 0), got
'''
