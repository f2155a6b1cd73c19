ID='c11-store-behind-mapped-region'
PROP='C11'
EDITS=[('src/plugins/MemCheck.cpp','void MemCheck::checkStore','''    if (address < region->address + region->size &&''','''    if (address <= region->address + region->size &&''')]
NEEDS='a store to the byte that follows a mapped region'
BREAKS='a valid write is reported as a write to a mapped buffer'
DEMO=r'''
SRC = "kernel void k(global int *a) { a[4] = 1; }"
with rt.Capture() as cap:
    with rt.Ctx() as c:
        a = c.buffer(32, bytes(32))
        k = c.kernel(c.program(SRC), 'k')
        c.setargs(k, [('m', a)])
        p = rt.create('clEnqueueMapBuffer', c.q, a, C.c_uint(1), C.c_uint64(1), C.c_size_t(8), C.c_size_t(8), C.c_uint(0), None, None)
        c.ndrange(k, [1], [1])
s = cap.stderr.encode() if isinstance(cap.stderr, str) else cap.stderr
assert b'mapped buffer' not in s, s
'''
