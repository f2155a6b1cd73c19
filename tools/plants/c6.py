ID='c04-fract-reaches-one'
PROP='C04'
EDITS=[('src/core/WorkItemBuiltins.cpp','r = fmin(x - fl, nextafterf(1, 0));','r = fmin((float)(x - fl), 1.0f);')]
NEEDS='fract of a negative float of tiny magnitude'
BREAKS='fract returns 1.0f instead of the largest float below 1'
DEMO=r'''
SRC = "kernel void k(global float *o, float a) { float f; o[0] = fract(a, &f); o[1] = f; }"
with rt.Ctx() as c:
    o = c.buffer(8, bytes(8))
    k = c.kernel(c.program(SRC), 'k')
    def run(x):
        c.setargs(k, [('m', o), ('b', struct.pack('<f', x))])
        c.ndrange(k, [1], [1])
        return struct.unpack('<2f', c.read(o, 8))
    assert run(1.25) == (0.25, 1.0)
    assert run(-1e-20) == (1 - 2.0**-24, -1.0), run(-1e-20)
'''
