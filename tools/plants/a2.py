ID='c08-chained-async-events'
PROP='C08'
EDITS=[('src/core/WorkGroup.cpp','if (!m_events.count(event))','if (!m_events.count(event) || copy.event != event || m_events[event].front().type != type)')]
NEEDS='two asynchronous copies of opposite directions chained on the same event'
BREAKS='the copies already pending on the event are forgotten when a copy in the other direction joins it'
DEMO='''
SRC = """
kernel void k(global int *in, global int *out, local int *l, local int *m)
{
  for (int i = get_local_id(0); i < 16; i += get_local_size(0)) { l[i] = -1; m[i] = 100 + i; }
  barrier(CLK_LOCAL_MEM_FENCE);
  event_t e = async_work_group_copy(l, in, 16, 0);
  e = async_work_group_copy(out + 16, m, 16, e);
  wait_group_events(1, &e);
  out[get_local_id(0)] = l[get_local_id(0)];
}
"""
with rt.Ctx() as c:
    a = c.buffer(64, struct.pack('<16i', *range(16)))
    o = c.buffer(128, bytes(128))
    k = c.kernel(c.program(SRC), 'k')
    c.setargs(k, [('m', a), ('m', o), ('l', 64), ('l', 64)])
    c.ndrange(k, [16], [16])
    r = struct.unpack('<32i', c.read(o, 128))
    assert r == tuple(range(16)) + tuple(range(100, 116)), r
'''
