"""Shared helpers for checks that call one OpenCL built-in over many values."""
import struct
import numpy as np
import clrt
from pbt import Fail

# name: (numpy dtype, bytes, kind)   kind: i signed, u unsigned, f float
T = {
    'char': ('i1', 1, 'i'), 'uchar': ('u1', 1, 'u'),
    'short': ('<i2', 2, 'i'), 'ushort': ('<u2', 2, 'u'),
    'int': ('<i4', 4, 'i'), 'uint': ('<u4', 4, 'u'),
    'long': ('<i8', 8, 'i'), 'ulong': ('<u8', 8, 'u'),
    'half': ('<f2', 2, 'f'), 'float': ('<f4', 4, 'f'), 'double': ('<f8', 8, 'f'),
}
INTS = ['char', 'uchar', 'short', 'ushort', 'int', 'uint', 'long', 'ulong']
WIDTHS = [1, 2, 3, 4, 8, 16]


def bits(t):
    return T[t][1] * 8


def signed(t):
    return T[t][2] == 'i'


def lo(t):
    return -(1 << (bits(t) - 1)) if signed(t) else 0


def hi(t):
    return (1 << (bits(t) - 1)) - 1 if signed(t) else (1 << bits(t)) - 1


def wrap(t, v):
    b = bits(t)
    v &= (1 << b) - 1
    if signed(t) and v >> (b - 1):
        v -= 1 << b
    return v


def sat(t, v):
    return max(lo(t), min(hi(t), v))


def unsig(t):
    return t if t.startswith('u') else 'u' + t


def vn(t, w):
    return t if w == 1 else '%s%d' % (t, w)


def stride(w):
    return 4 if w == 3 else w


def int_values(r, t, n):
    """n interesting integers of type t from random.Random r."""
    b = bits(t)
    L, H = lo(t), hi(t)
    out = []
    for _ in range(n):
        k = r.randrange(10)
        if k < 3:
            v = r.choice([0, 1, 2, 3, H, H - 1, L, L + 1, H // 2, H // 2 + 1, L // 2, -1, -2, 7, 8])
        elif k < 5:
            v = (1 << r.randrange(b)) + r.choice([-1, 0, 1])
            if r.random() < .5:
                v = -v
        elif k < 7:
            v = r.randrange(-20, 21)
        elif k < 8:
            v = r.getrandbits(r.randrange(1, b + 1))
        else:
            v = r.getrandbits(b)
        out.append(wrap(t, v))
    return out


F = {'half': (5, 10, 15), 'float': (8, 23, 127), 'double': (11, 52, 1023)}


def f_from_bits(t, v):
    return np.array([v], dtype='<u%d' % T[t][1]).view(T[t][0])[0]


def float_values(r, t, n, nan=True, lim=None):
    """n interesting floats of type t, returned as a numpy array."""
    eb, mb, bias = F[t]
    tot = eb + mb + 1
    out = []
    special = [0, 1 << (tot - 1), 1, (1 << (tot - 1)) | 1,               # +-0, +-min denormal
               (1 << mb) - 1, 1 << mb,                                    # max denormal, min normal
               ((1 << eb) - 1) << mb, (((1 << eb) - 1) << mb) | 1 << (tot - 1),   # +-inf
               (((1 << eb) - 1) << mb) - 1,                               # max
               bias << mb, (bias << mb) | 1 << (tot - 1),                 # +-1
               (bias << mb) + 1, (bias << mb) - 1,
               (bias - 1) << mb, ((bias - 1) << mb) + 1, ((bias - 1) << mb) - 1]   # .5
    if nan:
        special += [(((1 << eb) - 1) << mb) | 1 << (mb - 1)]
    for _ in range(n):
        k = r.randrange(12)
        if k < 3:
            v = r.choice(special)
        elif k < 5:    # small integers and halves
            x = r.randrange(-40, 41) / r.choice([1, 1, 2, 4])
            v = int(np.array([x], T[t][0]).view('<u%d' % T[t][1])[0])
        elif k < 9:    # moderate magnitude
            e = bias + r.randrange(-min(8, bias - 1), min(9, bias))
            v = (r.getrandbits(1) << (tot - 1)) | (e << mb) | r.getrandbits(mb)
        elif k < 10:   # any exponent
            e = r.randrange(0, (1 << eb) - 1)
            v = (r.getrandbits(1) << (tot - 1)) | (e << mb) | r.getrandbits(mb)
        elif k < 11:   # near power of two
            e = r.randrange(1, (1 << eb) - 1)
            v = ((r.getrandbits(1) << (tot - 1)) | (e << mb)) + r.choice([-1, 0, 1, 2])
        else:
            v = r.getrandbits(tot)
            if not nan and (v >> mb) & ((1 << eb) - 1) == (1 << eb) - 1:
                v ^= 1 << mb
        out.append(v)
    a = np.array(out, dtype='<u%d' % T[t][1]).view(T[t][0])
    if not nan:
        a = np.where(np.isnan(a), np.array(1, T[t][0]), a)
    return a


def pack(t, w, lanes):
    """lanes: list of lists of w scalars -> bytes with vec3 padded."""
    st = stride(w)
    a = np.zeros((len(lanes), st), dtype=T[t][0])
    a[:, :w] = np.array(lanes, dtype=T[t][0]).reshape(len(lanes), w)
    return a.tobytes()


def unpack(t, w, n, data):
    return np.frombuffer(data, dtype=T[t][0]).reshape(n, stride(w))[:, :w]


GUARD = 64


def evaluate(n, outs, args, body, prelude='', opts='', env=None, lsize=None, bykernelarg=()):
    """Runs  kernel(global outs..., args...) over n work-items.

    outs: [(type, width)]; args: [(type, width, lanes)]; body uses o0.. (global
    pointers), a0.. (values) and i.  Arguments whose position is in
    `bykernelarg` are passed by value (their first lane for all).
    Returns [numpy array (n, width)] and checks guards and diagnostics."""
    clrt.setenv(**(env or {}))
    params = []
    decl = []
    for k, (t, w) in enumerate(outs):
        params.append('global %s *o%d' % (vn(t, w), k))
    for k, (t, w, l) in enumerate(args):
        if k in bykernelarg:
            params.append('%s a%d' % (vn(t, w), k))
        else:
            params.append('global const %s *p%d' % (vn(t, w), k))
            decl.append('  %s a%d = p%d[i];' % (vn(t, w), k, k))
    src = prelude + '\nkernel void k(%s)\n{\n  size_t i = get_global_id(0);\n%s\n  %s\n}\n' % (
        ', '.join(params), '\n'.join(decl), body)
    with clrt.Capture() as cap:
        with clrt.Ctx() as c:
            p = c.program(src, opts)
            k = c.kernel(p, 'k')
            ka = []
            sizes = []
            for (t, w) in outs:
                sz = n * stride(w) * T[t][1]
                sizes.append(sz)
                ka.append(('m', c.buffer(sz + GUARD, b'\xa5' * (sz + GUARD))))
            for j, (t, w, l) in enumerate(args):
                if j in bykernelarg:
                    ka.append(('b', pack(t, w, l[:1])))
                else:
                    d = pack(t, w, l)
                    ka.append(('m', c.buffer(len(d), d)))
            c.setargs(k, ka)
            c.ndrange(k, [n], [lsize] if lsize else None)
            res = []
            for (t, w), sz, (_, m) in zip(outs, sizes, ka):
                d = c.read(m, sz + GUARD)
                if d[sz:] != b'\xa5' * GUARD:
                    raise Fail('bytes beyond the result were written\n' + src, 'guard')
                res.append(unpack(t, w, n, d[:sz]))
    if cap.out or cap.err:
        raise Fail('unexpected output from a valid kernel:\n%s%s\n%s' % (cap.stdout, cap.stderr, src), 'diag')
    return res, src
