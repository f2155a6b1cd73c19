ID='c12-both-fences'
PROP='C12'
EDITS=[('src/plugins/RaceDetector.cpp','if (flags & CLK_GLOBAL_MEM_FENCE)','if ((flags & CLK_GLOBAL_MEM_FENCE) && !((flags & CLK_LOCAL_MEM_FENCE) && STATE(workGroup).wiLocal.back().empty() && workGroup->getGroupSize().y > 1))')]
NEEDS='a barrier with both fences in a work-group of more than one dimension that orders accesses to global memory'
BREAKS='a barrier with both fences does not order global accesses, so properly ordered accesses are reported as races'
DEMO='''
SRC = """
kernel void k(global int *v, global int *out)
{
  int i = get_local_id(1) * get_local_size(0) + get_local_id(0);
  v[i] = i;
  barrier(CLK_LOCAL_MEM_FENCE | CLK_GLOBAL_MEM_FENCE);
  out[i] = v[3 - i];
}
"""
os.environ['OCLGRIND_DATA_RACES'] = '1'
with rt.Capture() as cap:
    with rt.Ctx() as c:
        a, o = c.buffer(16, bytes(16)), c.buffer(16)
        k = c.kernel(c.program(SRC), 'k')
        c.setargs(k, [('m', a), ('m', o)])
        c.ndrange(k, [2, 2], [2, 2])
assert 'race' not in cap.stderr, cap.stderr
'''
