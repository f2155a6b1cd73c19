ID='c21-volatile-after-const'
PROP='C21'
EDITS=[('src/core/Kernel.cpp','''    else if (tok == "volatile")
    {''','''    else if (tok == "volatile" && result == CL_KERNEL_ARG_TYPE_NONE)
    {''')]
NEEDS='a pointer argument that is both restrict (or const) and volatile'
BREAKS='the volatile qualifier is not reported'
DEMO=r'''
SRC = "kernel void k(global const volatile int *restrict a) { }"
with rt.Ctx() as c:
    k = c.kernel(c.program(SRC), 'k')
    q = C.c_uint64(0)
    rt.call('clGetKernelArgInfo', k, C.c_uint(0), C.c_uint(0x1199), C.c_size_t(8), C.byref(q), None)
assert q.value == 7, q.value
'''
