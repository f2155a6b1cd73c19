ID='c06-vstorea-half3'
PROP='C06'
EDITS=[('src/core/WorkItemBuiltins.cpp','if (fnName.compare(0, 7, "vstorea") == 0 && op.num == 3)','if (fnName.compare(0, 7, "vstorea") == 0 && op.num == 3 && op.size == 4)')]
NEEDS='vstorea_half3 of a double3 at a non-zero offset'
BREAKS='the aligned store of three doubles as halves uses a stride of three instead of four'
DEMO='''
SRC = """
kernel void k(global half *o, int n) { vstorea_half3((double3)(1.0, 2.0, 3.0), n, o); }
"""
with rt.Ctx() as c:
    o = c.buffer(32, bytes(32))
    k = c.kernel(c.program(SRC), 'k')
    c.setargs(k, [('m', o), ('b', struct.pack('<i', 1))])
    c.ndrange(k, [1])
    r = struct.unpack('<16H', c.read(o, 32))
    assert r[4:7] == (0x3c00, 0x4000, 0x4200), r
'''
