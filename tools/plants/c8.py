ID='c17-callback-status'
PROP='C17'
EDITS=[('src/runtime/async_queue.cpp','callItr->first(event, event->event->state, callItr->second);','callItr->first(event, CL_COMPLETE, callItr->second);')]
NEEDS='a callback on the event of a command that was aborted because an event it waited for failed'
BREAKS='the callback is told CL_COMPLETE although the event has a negative status'
DEMO=r'''
CB = C.CFUNCTYPE(None, C.c_void_p, C.c_int, C.c_void_p)
seen = []
cb = CB(lambda e, s, d: seen.append(s))
with rt.Ctx() as c:
    b = c.buffer(64, bytes(64))
    u = rt.create('clCreateUserEvent', c.ctx)
    ev = C.c_void_p()
    host = C.create_string_buffer(64)
    rt.call('clEnqueueReadBuffer', c.q, b, 0, C.c_size_t(0), C.c_size_t(64), host, 1, (C.c_void_p * 1)(u), C.byref(ev))
    rt.call('clSetEventCallback', ev, 0, cb, None)
    rt.call('clSetUserEventStatus', C.c_void_p(u), -7)
    rt.raw('clFinish')(c.q)
    st = C.c_int(99)
    rt.call('clGetEventInfo', ev, 0x11D3, C.c_size_t(4), C.byref(st), None)
assert st.value < 0, st.value
assert seen == [st.value], (seen, st.value)
'''
