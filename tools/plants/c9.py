ID='c19-sub-buffer-argument-not-retained'
PROP='C19'
EDITS=[('src/runtime/async_queue.cpp','    asyncQueueRetain(cmd, itr->second);','    asyncQueueRetain(cmd, itr->second->parent ? itr->second->parent : itr->second);')]
NEEDS='a sub-buffer argument of a queued kernel that the program releases before the kernel runs'
BREAKS='the sub-buffer is destroyed (with its destructor callbacks) although a queued command still uses it'
DEMO=r'''
CB = C.CFUNCTYPE(None, C.c_void_p, C.c_void_p)
seen = []
cb = CB(lambda m, d: seen.append(1))
SRC = "kernel void k(global int *a) { a[0] = 7; }"
with rt.Ctx() as c:
    b = c.buffer(256, bytes(256))
    reg = (C.c_size_t * 2)(128, 64)
    sub = C.c_void_p(rt.create('clCreateSubBuffer', b, C.c_ulong(1), 0x1220, reg))
    rt.call('clSetMemObjectDestructorCallback', sub, cb, None)
    k = c.kernel(c.program(SRC), 'k')
    rt.call('clSetKernelArg', k, 0, C.c_size_t(8), C.byref(sub))
    u = rt.create('clCreateUserEvent', c.ctx)
    rt.call('clEnqueueNDRangeKernel', c.q, k, 1, None, rt.szarr([1]), None, 1, (C.c_void_p * 1)(u), None)
    rt.call('clReleaseMemObject', sub)
    assert seen == [], 'destroyed while a command uses it'
    rt.call('clSetUserEventStatus', C.c_void_p(u), 0)
    rt.call('clFinish', c.q)
    assert seen == [1], seen
'''
