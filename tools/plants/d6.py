ID='c20-first-cl-std-wins'
PROP='C20'
EDITS=[('src/core/Program.cpp','''        clstd = opt;
        continue;''','''        if (!clstd)
          clstd = opt;
        continue;''')]
NEEDS='two -cl-std options in one option string'
BREAKS='the first one is used instead of the last one'
DEMO=r'''
SRC = "kernel void k(global int *o) { o[0] = __OPENCL_C_VERSION__; }"
with rt.Ctx() as c:
    o = c.buffer(4, bytes(4))
    k = c.kernel(c.program(SRC, '-cl-std=CL1.2 -cl-std=CL2.0'), 'k')
    c.setargs(k, [('m', o)])
    c.ndrange(k, [1], [1])
    got = struct.unpack('<i', c.read(o, 4))[0]
assert got == 200, got
'''
