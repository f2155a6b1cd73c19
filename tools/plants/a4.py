ID='c11-read-straddling-end'
PROP='C11'
EDITS=[('src/core/Memory.cpp','bool Memory::isAddressValid(','size_t offset = extractOffset(address);','size_t offset = extractOffset(address) & (m_addressSpace == AddrSpaceLocal ? ~(size - 1) : ~(size_t)0);')]
NEEDS='an access to local memory that starts inside a buffer and ends beyond it'
BREAKS='accesses that straddle the end of a local buffer are neither reported nor suppressed'
DEMO='''
SRC = """
kernel void k(global int *out, local uchar *l, int n)
{
  l[0] = 1; l[1] = 2; l[2] = 3; l[3] = 4; l[4] = 5; l[5] = 6;
  uchar4 v = vload4(0, l + n);
  out[0] = v.x;
}
"""
for n, bad in ((2, 0), (3, 1)):
    with rt.Capture() as cap:
        with rt.Ctx() as c:
            o = c.buffer(4)
            k = c.kernel(c.program(SRC), 'k')
            c.setargs(k, [('m', o), ('l', 6), ('b', struct.pack('<i', n))])
            c.ndrange(k, [1], [1])
    assert cap.stderr.count('Invalid read of size 4 at local') == bad, (n, cap.stderr)
'''
