ID='c03-rhadd-mixed-signs'
PROP='C03'
EDITS=[('src/core/WorkItemBuiltins.cpp','DEFINE_BUILTIN(rhadd)',' int64_t c = (a | b) & 1;',' int64_t c = (a & b & 1) | ((a ^ b) > 0 && ((a ^ b) & 1));')]
NEEDS='rhadd of signed operands of different sign and parity'
BREAKS='the rounding increment is lost when the operands differ in sign'
DEMO='''
SRC = """
kernel void k(global char2 *a, global char2 *b, global char2 *o) { o[0] = rhadd(a[0], b[0]); }
"""
with rt.Ctx() as c:
    a, b, o = c.buffer(2, struct.pack('bb', -7, 5)), c.buffer(2, struct.pack('bb', 4, 8)), c.buffer(2)
    k = c.kernel(c.program(SRC), 'k')
    c.setargs(k, [('m', a), ('m', b), ('m', o)])
    c.ndrange(k, [1])
    r = struct.unpack('bb', c.read(o, 2))
    assert r == (-1, 7), r
'''
