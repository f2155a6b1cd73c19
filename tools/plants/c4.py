ID='c16-linear-clamp-last-texel'
PROP='C16'
EDITS=[('src/core/WorkItemBuiltins.cpp','*c1 = _clamp_<int>((floorf(u - 0.5f)) + 1, -1, size);','*c1 = _clamp_<int>((floorf(u - 0.5f)) + 1, -1, size - 1);')]
NEEDS='CLK_FILTER_LINEAR with CLK_ADDRESS_CLAMP sampled in the last half texel of a dimension or just behind it'
BREAKS='the last texel is used in place of the border colour'
DEMO=r'''
import ctypes as C
SRC = """const sampler_t S = CLK_NORMALIZED_COORDS_FALSE | CLK_ADDRESS_CLAMP | CLK_FILTER_LINEAR;
kernel void k(read_only image2d_t im, global float4 *o, float2 p) { o[0] = read_imagef(im, S, p); }"""
class Desc(C.Structure):
    _fields_ = [('type', C.c_uint)] + [(n, C.c_size_t) for n in 'whdnrs'] + [('mips', C.c_uint), ('samples', C.c_uint), ('mem', C.c_void_p)]
class Fmt(C.Structure):
    _fields_ = [('o', C.c_uint), ('t', C.c_uint)]
def sample(p):
    with rt.Ctx() as c:
        d = Desc(type=0x10F1, w=2, h=2)
        f = Fmt(0x10B5, 0x10DE)
        data = C.create_string_buffer(struct.pack('<16f', *([1.0] * 16)), 64)
        im = rt.create('clCreateImage', c.ctx, C.c_ulong(1 | 32), C.byref(f), C.byref(d), data)
        o = c.buffer(16, bytes(16))
        k = c.kernel(c.program(SRC), 'k')
        c.setargs(k, [('m', im), ('m', o), ('b', struct.pack('<2f', *p))])
        c.ndrange(k, [1], [1])
        return struct.unpack('<4f', c.read(o, 16))
assert sample((1.0, 1.0)) == (1.0,) * 4
assert sample((0.0, 1.0)) == (0.5,) * 4, sample((0.0, 1.0))
assert sample((2.0, 1.0)) == (0.5,) * 4, sample((2.0, 1.0))
assert sample((1.0, 2.0)) == (0.5,) * 4, sample((1.0, 2.0))
'''
