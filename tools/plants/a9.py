ID='c09-async-stride-divergence'
PROP='C09'
EDITS=[('src/core/WorkGroup.cpp',"        (itr->first.num != copy.num) ||\n","        (itr->first.num > copy.num) ||\n")]
NEEDS='work-items of one group that reach the same async copy with element counts that grow with the work-item ID'
BREAKS='a later work-item asking for more elements than the first is not reported as divergence'
DEMO='''
SRC = """
kernel void k(global int *in, global int *out, local int *l)
{
  event_t e = async_work_group_copy(l, in, 4 + get_local_id(0), 0);
  wait_group_events(1, &e);
  out[get_local_id(0)] = l[get_local_id(0)];
}
"""
with rt.Capture() as cap:
    with rt.Ctx() as c:
        a, o = c.buffer(64, bytes(64)), c.buffer(64)
        k = c.kernel(c.program(SRC), 'k')
        c.setargs(k, [('m', a), ('m', o), ('l', 64)])
        c.ndrange(k, [2], [2])
assert 'Work-group divergence detected (async copy)' in cap.stderr, cap.stderr
'''
