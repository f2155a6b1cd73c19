ID='c07-group-index-race'
PROP='C07'
EDITS=[('src/core/KernelInvocation.cpp','        unsigned index = nextGroupIndex++;','''        unsigned index = nextGroupIndex;
        nextGroupIndex = index + 1;''')]
NEEDS='two worker threads that take their next work-group at the same moment'
BREAKS='both workers get the same index, so that a work-group is executed twice'
DEMO=r'''
SRC = "kernel void k(global uint *a) { a[get_global_id(0)] += 1; }"
import os
os.environ['OCLGRIND_NUM_THREADS'] = '8'
with rt.Ctx() as c:
    n, launches = 2000, 60
    b = c.buffer(4 * n, bytes(4 * n))
    k = c.kernel(c.program(SRC), 'k')
    c.setargs(k, [('m', b)])
    for _ in range(launches):
        c.ndrange(k, [n], [1])
    got = set(struct.unpack('<%dI' % n, c.read(b, 4 * n)))
assert got == {launches}, got
'''
