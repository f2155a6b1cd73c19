ID='c23-vector-width-kept'
PROP='C23'
EDITS=[('src/core/WorkItemBuiltins.cpp','''    int arg = 1;
    while (true)
    {
      char c;
      memory->load((unsigned char*)&c, formatPtr++);''','''    int arg = 1;
    unsigned vectorWidth = 1;
    while (true)
    {
      char c;
      memory->load((unsigned char*)&c, formatPtr++);'''),
 ('src/core/WorkItemBuiltins.cpp','''        unsigned vectorWidth = 1;
        string format = "%";''','''        string format = "%";''')]
NEEDS='a format with a scalar conversion after a vector conversion'
BREAKS='the scalar is printed as if it were a vector'
DEMO=r'''
SRC = """kernel void k(int2 v, int s) { printf("%v2d|%d|\\n", v, s); }"""
with rt.Capture() as cap:
    with rt.Ctx() as c:
        k = c.kernel(c.program(SRC), 'k')
        c.setargs(k, [('b', struct.pack('<2i', 3, 4)), ('b', struct.pack('<i', 5))])
        c.ndrange(k, [1], [1])
out = cap.stdout.encode() if isinstance(cap.stdout, str) else cap.stdout
assert b'3,4|5|\n' in out, out
'''
