ID = 'c13-vector-select-condition'
PROP = 'C13'
EDITS = [('src/plugins/Uninitialized.cpp', 'else if (name == "select")', '      if (!ShadowContext::isCleanValue(selectShadow, i))', '      if (!ShadowContext::isCleanValue(selectShadow, i & 3))')]
NEEDS = 'select() of vectors of 8 or 16 components whose condition is undefined in a component after the fourth'
BREAKS = 'a value selected by an undefined vector condition counts as defined'
DEMO = r'''
SRC = """kernel void k(global int8 *o, int8 a)
{
  int8 c;
  %s;
  o[0] = select(a, a + 1, c);
}"""
def reports(m):
    rt.setenv(UNINITIALIZED=True)
    with rt.Capture() as cap:
        with rt.Ctx() as c:
            k = c.kernel(c.program(SRC % m, '-cl-opt-disable'), 'k')
            c.setargs(k, [('m', c.buffer(32, bytes(32))), ('b', bytes(32))])
            c.ndrange(k, [1], [1])
    return cap.stderr.count('Uninitialized value written to global')
assert reports('c = a') == 0
assert reports('c.lo = a.lo; c.s6 = 0') > 0
'''
