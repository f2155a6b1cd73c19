ID='c12-plain-load-after-atomic'
PROP='C12'
EDITS=[('src/plugins/RaceDetector.cpp','    if (!record.load.isSet() || record.load.isAtomic())','    if (!record.load.isSet())')]
NEEDS='a plain read that follows an atomic operation of the same work-item on the same address, against an atomic of another one'
BREAKS='only the atomic read is remembered, and the race with the other atomic is not reported'
DEMO=r'''
SRC = """kernel void k(global int *a, global int *o) {
  atomic_inc(a); if (get_global_id(0) == 0) o[0] = a[0]; }"""
import os
os.environ['OCLGRIND_NUM_THREADS'] = '1'
os.environ['OCLGRIND_DATA_RACES'] = '1'
with rt.Capture() as cap:
    with rt.Ctx() as c:
        a, o = c.buffer(4, bytes(4)), c.buffer(64, bytes(64))
        k = c.kernel(c.program(SRC), 'k')
        c.setargs(k, [('m', a), ('m', o)])
        c.ndrange(k, [4], [1])
assert b'race' in (cap.stderr.encode() if isinstance(cap.stderr, str) else cap.stderr), cap.stderr
'''
