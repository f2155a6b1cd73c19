ID='c26-limit-counts-errors-only'
PROP='C26'
EDITS=[('src/plugins/Logger.cpp','if (type == ERROR || type == WARNING)','if (type == ERROR)')]
NEEDS='more warnings than the limit (--max-errors) of a run, such as those about uninitialized values'
BREAKS='warnings are neither counted nor suppressed'
DEMO=r'''
rt.setenv(UNINITIALIZED=True, MAX_ERRORS=2)
S = 'kernel void k(global int *a, global int *o) { o[get_global_id(0)] = a[get_global_id(0)] > 3 ? 1 : 2; }'
with rt.Capture() as cap:
    with rt.Ctx() as c:
        a = rt.create('clCreateBuffer', c.ctx, 1, 32, None)
        o = c.buffer(32, bytes(32))
        k = c.kernel(c.program(S), 'k')
        c.setargs(k, [('m', a), ('m', o)])
        c.ndrange(k, [8], [8], None)
        c.read(o, 32)
e = cap.stderr + cap.stdout
e = e.decode() if isinstance(e, bytes) else e
print(e)
assert e.lower().count('uninitialized') > 0, e
assert 'suppressing further errors' in e, e
assert e.count('Uninitialized') + 0 <= 2, e
'''
