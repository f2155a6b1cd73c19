ID='c10-cmpxchg-unlocked-read'
PROP='C10'
EDITS=[('src/core/Memory.cpp','T Memory::atomicCmpxchg(','''  if (m_addressSpace == AddrSpaceGlobal)
    ATOMIC_MUTEX(offset).lock();

  // Perform cmpxchg
  T old = *ptr;
  if (old == cmp)
  {
''','''  // Perform cmpxchg
  T old = *ptr;
  if (m_addressSpace == AddrSpaceGlobal)
    ATOMIC_MUTEX(offset).lock();
  if (old == cmp)
  {
''')]
NEEDS='work-groups on different threads running compare-and-exchange on one location at the same time'
BREAKS='the comparison uses a value read before the lock is taken, so two work-items can both succeed'
DEMO='''
SRC = """
kernel void k(volatile global uint *v)
{
  for (int i = 0; i < 400; i++) {
    uint o = *v;
    for (;;) { uint p = atomic_cmpxchg(v, o, o + 1); if (p == o) break; o = p; }
  }
}
"""
os.environ['OCLGRIND_NUM_THREADS'] = '8'
for rep in range(20):
    with rt.Ctx() as c:
        a = c.buffer(4, bytes(4))
        k = c.kernel(c.program(SRC), 'k')
        c.setargs(k, [('m', a)])
        c.ndrange(k, [64], [1])
        r = struct.unpack('<I', c.read(a, 4))[0]
        assert r == 64 * 400, r
'''
