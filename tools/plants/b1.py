ID = 'c13-shuffle2-second-source'
PROP = 'C13'
EDITS = [('src/plugins/Uninitialized.cpp', 'size_t srcOffset = index * shadow[src].size;', '        memcpy(newShadow.data + i * newShadow.size,\n               shadow[src].data + srcOffset, newShadow.size);', '        memcpy(newShadow.data + i * newShadow.size,\n               shadow[src && m <= 4].data + srcOffset, newShadow.size);')]
NEEDS = 'shuffle2 of vectors of 8 or 16 components whose second operand has undefined components that get selected'
BREAKS = 'undefined components selected from the second operand of shuffle2 are taken as those of the first, so their use is not reported'
DEMO = r'''
SRC = """kernel void k(global float8 *o, float8 a)
{
  float8 b;
  b.lo = a.lo;
  o[0] = shuffle2(a, b, (uint8)(0, 1, 2, 3, %s));
}"""
def reports(m):
    rt.setenv(UNINITIALIZED=True)
    with rt.Capture() as cap:
        with rt.Ctx() as c:
            k = c.kernel(c.program(SRC % m, '-cl-opt-disable'), 'k')
            c.setargs(k, [('m', c.buffer(32, bytes(32))), ('b', bytes(32))])
            c.ndrange(k, [1], [1])
    return cap.stderr.count('Uninitialized value written to global')
assert reports('8, 9, 10, 11') == 0
assert reports('8, 9, 14, 11') > 0
'''
