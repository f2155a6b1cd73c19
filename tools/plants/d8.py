ID='c18-user-event-status-twice'
PROP='C18'
EDITS=[('src/runtime/runtime.cpp','  if (event->event->state == CL_COMPLETE || event->event->state < 0)','  if (event->event->state == CL_COMPLETE)')]
NEEDS='a user event that was given an error status and is given a status again'
BREAKS='the second call succeeds instead of returning CL_INVALID_OPERATION'
DEMO=r'''
with rt.Ctx() as c:
    e = rt.create('clCreateUserEvent', c.ctx)
    rt.call('clSetUserEventStatus', e, C.c_int(-5))
    r = rt.raw('clSetUserEventStatus')(e, C.c_int(0))
assert r == -59, r
'''
