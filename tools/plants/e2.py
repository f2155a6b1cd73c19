import os
exec(open(os.path.join('/verif/tools/plants/e1.py')).read())
ID='c27-copy-source-not-announced'
EDITS=[('src/core/Memory.cpp','''bool Memory::copy(size_t dst, size_t src, size_t size)
{
  m_context->notifyMemoryLoad(this, src, size);

  // Check source address
  if (!isAddressValid(src, size))
  {
    return false;
  }''','''bool Memory::copy(size_t dst, size_t src, size_t size)
{
  // Check source address
  if (!isAddressValid(src, size))
  {
    m_context->notifyMemoryLoad(this, src, size);
    return false;
  }''')]
NEEDS='a plugin that looks at the loads made by buffer copies'
BREAKS='the source of a copy between buffers is not announced as loaded'
DEMO=PRE+r'''
with rt.Ctx() as c:
    a, b = c.buffer(64, bytes(64)), c.buffer(64, bytes(64))
    lib = C.CDLL(T + '/plug.so')
    before = lib.loaded()
    rt.call('clEnqueueCopyBuffer', c.q, a, b, C.c_size_t(0), C.c_size_t(8), C.c_size_t(40), C.c_uint(0), None, None)
    rt.call('clFinish', c.q)
    n = lib.loaded() - before
assert n == 40, n
'''
