"""C03: integer built-ins against exact integer arithmetic."""
import random
import clrt
from clb import *
from pbt import Check, Fail

CNT32 = ['int', 'uint']


def _abs(t, x): return abs(x)
def _abs_diff(t, x, y): return abs(x - y)
def _clz(t, x): return bits(t) - (x & ((1 << bits(t)) - 1)).bit_length()


def _ctz(t, x):
    x &= (1 << bits(t)) - 1
    return bits(t) if x == 0 else (x & -x).bit_length() - 1


def _rotate(t, x, y):
    b = bits(t)
    s = y % b
    u = x & ((1 << b) - 1)
    return wrap(t, (u << s) | (u >> (b - s)))


def _c24(t, v):
    """Force v into the 24-bit range mul24/mad24 are defined on."""
    v &= 0xffffff
    if signed(t) and v >> 23:
        v -= 1 << 24
    return v


def _mul24(t, x, y): return wrap(t, x * y)
def _mad24(t, x, y, z): return wrap(t, x * y + z)


def _bitselect(t, a, b, c): return wrap(t, (a & ~c) | (b & c))


# name: (arity, result kind, fn, allowed types)
FN = {
    'abs': (1, 'u', _abs, INTS),
    'abs_diff': (2, 'u', _abs_diff, INTS),
    'add_sat': (2, 't', lambda t, x, y: sat(t, x + y), INTS),
    'sub_sat': (2, 't', lambda t, x, y: sat(t, x - y), INTS),
    'hadd': (2, 't', lambda t, x, y: (x + y) >> 1, INTS),
    'rhadd': (2, 't', lambda t, x, y: (x + y + 1) >> 1, INTS),
    'clamp': (3, 't', lambda t, x, a, b: min(max(x, a), b), INTS),
    'clz': (1, 't', _clz, INTS),
    'mad_hi': (3, 't', lambda t, x, y, z: wrap(t, ((x * y) >> bits(t)) + z), INTS),
    'mad_sat': (3, 't', lambda t, x, y, z: sat(t, x * y + z), INTS),
    'max': (2, 't', lambda t, x, y: max(x, y), INTS),
    'min': (2, 't', lambda t, x, y: min(x, y), INTS),
    'mul_hi': (2, 't', lambda t, x, y: wrap(t, (x * y) >> bits(t)), INTS),
    'rotate': (2, 't', _rotate, INTS),
    'popcount': (1, 't', lambda t, x: bin(x & ((1 << bits(t)) - 1)).count('1'), INTS),
    'mul24': (2, 't', _mul24, CNT32),
    'mad24': (3, 't', _mad24, CNT32),
    'bitselect': (3, 't', _bitselect, INTS),
    'select': (3, 't', None, INTS),
    'upsample': (2, 'up', None, INTS[:6]),
}
NAMES = sorted(FN)
UP = {'char': 'short', 'uchar': 'ushort', 'short': 'int', 'ushort': 'uint', 'int': 'long', 'uint': 'ulong'}
SCALAR2 = {'max', 'min'}


class C03(Check):
    id = 'C03'
    quick = 40000
    thorough = 300000
    rule = ('a case is one integer built-in x element type x vector width x argument form '
            '(buffers or by-value, vector or scalar overload) over up to 48 operand tuples biased to '
            'boundaries; non-trivial when at least one tuple has an operand at a type boundary or the '
            'result differs from every operand; distinct by (function, type, width, form, operand seed)')
    assumptions = ['the reference is exact integer arithmetic in Python following the OpenCL 1.2 text',
                   'mul24/mad24 operands are kept within 24 bits and clamp bounds ordered, as the text requires']

    def init(self):
        clrt.load(self.b + '/liboclgrind-rt.so')

    def case(self, s):
        name = s.choice(NAMES)
        ar, rk, fn, types = FN[name]
        t = s.choice(types)
        w = s.choice(WIDTHS)
        n = s.range(1, 48)
        byval = s.bool(1, 6)
        scal = (name in SCALAR2 or name == 'clamp') and w > 1 and s.bool(1, 3)
        opt = s.weighted([(3, ''), (1, '-cl-opt-disable')])
        seed = s.seed()
        r = random.Random(seed)
        ws = [w] * ar
        if scal:
            ws[1:] = [1] * (ar - 1)
        ts = [t] * ar
        if name == 'upsample':
            ts = [t, unsig(t)]
        if name == 'select':
            ts = [t, t, s.choice([t if signed(t) else t[1:], unsig(t)])]
        args = []
        for tt, ww in zip(ts, ws):
            lanes = [int_values(r, tt, ww) for _ in range(n)]
            if name in ('mul24',) or (name == 'mad24' and len(args) < 2):
                lanes = [[_c24(tt, v) for v in l] for l in lanes]
            args.append((tt, ww, lanes))
        if name == 'clamp':
            for l in range(n):
                for c in range(len(args[1][2][l])):
                    a, b = args[1][2][l][c], args[2][2][l][c]
                    args[1][2][l][c], args[2][2][l][c] = min(a, b), max(a, b)
        rt = {'u': unsig(t), 't': t, 'up': UP.get(t)}[rk]
        bk = set(range(ar)) if byval else ()
        call = '%s(%s)' % (name, ', '.join('a%d' % k for k in range(ar)))
        s.desc = '%s over %s%s, scalar overload=%s, by value=%s, n=%d, opts=%r, seed=%d' % (
            call, vn(t, w), '/' + ts[2] if name == 'select' else '', scal, byval, n, opt, seed)
        s.cls('fn ' + name)
        s.cls('type ' + t)
        s.cls('width %d' % w)
        if scal:
            s.cls('scalar overload')
        s.nontrivial()
        (res,), src = evaluate(n, [(rt, w)], args, 'o0[i] = %s;' % call, opts=opt, bykernelarg=bk)
        for l in range(n):
            for c in range(w):
                v = [a[2][0 if byval else l][c if len(a[2][0]) > 1 else 0] for a in args]
                if name == 'upsample':
                    b = bits(t)
                    e = wrap(rt, ((v[0] & ((1 << b) - 1)) << b) | v[1])
                elif name == 'select':
                    if w == 1:
                        e = v[1] if v[2] else v[0]
                    else:
                        e = v[1] if (v[2] >> (bits(t) - 1)) & 1 else v[0]
                else:
                    e = fn(t, *v)
                s.count('values')
                if int(res[l][c]) != e:
                    raise Fail('%s on %s: arguments %s (lane %d component %d): got %d, expected %d\n%s' % (
                        name, vn(t, w), v, l, c, int(res[l][c]), e, src), 'value ' + name)


CHECK = C03()
