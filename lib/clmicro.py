"""Small OpenCL C kernels that put single operations through edge values.

Each case is a batch of independent snippets; every snippet reads the four
64-bit inputs of its work-item and writes output slots.  The inputs mix values
that are special as integers, as floats and as doubles.
"""
import random
import struct

INTS = ['char', 'uchar', 'short', 'ushort', 'int', 'uint', 'long', 'ulong']
FLT = ['float', 'double']
SIZE = dict(char=1, uchar=1, short=2, ushort=2, int=4, uint=4, long=8, ulong=8, float=4, double=8)
U = dict(char='uchar', uchar='uchar', short='ushort', ushort='ushort', int='uint', uint='uint', long='ulong', ulong='ulong',
         float='uint', double='ulong')
SI = {1: 'char', 2: 'short', 4: 'int', 8: 'long'}
CMP = ['<', '<=', '>', '>=', '==', '!=']
HEX = '0123456789abcdef'

PRE = '''#pragma OPENCL FP_CONTRACT OFF
ulong DF(float x) { return x != x ? 0x7fc00000ul : as_uint(x); }
ulong DD(double x) { return x != x ? 0x7ff8000000000000ul : as_ulong(x); }
'''


def bits(t):
    return SIZE[t] * 8


def lo(t):
    return 0 if t[0] == 'u' else -(1 << bits(t) - 1)


def hi(t):
    return (1 << bits(t)) - 1 if t[0] == 'u' else (1 << bits(t) - 1) - 1


# ------------------------------------------------------------------ inputs
def special_int(r):
    k = r.randrange(6)
    if k == 0:
        return r.choice([0, 1, 2, 3, -1, -2, 5, 7, 8, 10, 100])
    if k == 1:
        return (1 << r.randrange(64)) + r.choice([-1, 0, 1])
    if k == 2:
        return -(1 << r.randrange(64)) + r.choice([-1, 0, 1])
    if k == 3:
        # halfway between neighbouring floating-point numbers
        e = r.randrange(20, 63)
        m = r.choice([24, 24, 53])
        x = (1 << e) | r.getrandbits(e)
        if e >= m:
            sh = e - m + 1
            x = (x >> sh << sh) + (1 << sh - 1) + r.choice([0, 0, 1, -1, 1 << max(0, sh - 31)])
        return x
    if k == 4:
        b = r.getrandbits(8)
        return int.from_bytes(bytes([b]) * 8, 'little')
    return r.getrandbits(64)


def special_double(r):
    k = r.randrange(8)
    if k < 2:
        x = r.choice([0.0, -0.0, 1.0, -1.0, 0.5, 1.5, 2.5, -2.5, 255.0, 256.0, 65535.5, -128.5, 2147483647.0, 2147483648.0, 4294967295.0,
                      -2147483649.0, 9223372036854775807.0, 1.8446744073709551615e19, 1e-40, 3.4e38, 3.5e38, 1e308, 5e-324])
    elif k == 2:
        x = r.choice([float('inf'), float('-inf'), float('nan'), -float('nan')])
    elif k == 3:
        # halfway between floats
        f = r.getrandbits(32) & 0xbfffffff
        a = struct.unpack('<f', struct.pack('<I', f))[0]
        b = struct.unpack('<f', struct.pack('<I', f + 1))[0]
        x = (a + b) / 2
    elif k == 4:
        x = r.uniform(-300, 300)
    elif k == 5:
        x = float(r.randrange(-1000, 1000)) / r.choice([1, 2, 4, 3])
    else:
        return r.getrandbits(64)
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def special_float(r):
    k = r.randrange(6)
    if k < 2:
        x = r.choice([0.0, -0.0, 1.0, -1.0, 0.5, 1.5, 2.5, -2.5, 255.0, 256.0, -128.5, 2147483648.0, 4294967296.0, 1e-40, 3.4e38, 1e-45, 16777216.0, 16777217.0])
    elif k == 2:
        x = r.choice([float('inf'), float('-inf'), float('nan'), -float('nan')])
    elif k == 3:
        x = r.uniform(-300, 300)
    else:
        return r.getrandbits(32)
    return struct.unpack('<I', struct.pack('<f', x))[0]


def inputs(r, n, nin):
    """n items of nin 64-bit values"""
    out = []
    for _ in range(n):
        kind = r.randrange(4)
        v = []
        for i in range(nin):
            if v and r.random() < .25:
                p = r.choice(v)
                x = r.choice([p, p ^ (1 << 63), p + 1, p - 1, -p, ~p])
            elif kind == 0 or (kind == 3 and r.random() < .4):
                x = special_int(r)
                if r.random() < .4:
                    x = (x & 0xffffffff) | (special_int(r) & 0xffffffff) << 32
            elif kind == 1:
                x = special_double(r)
            else:
                x = special_float(r) | special_float(r) << 32
            v.append(x & (1 << 64) - 1)
        out += v
    return out


class Micro:
    def __init__(self, s):
        self.s = s
        self.top = []
        self.body = []
        self.slots = 0
        self.uid = 0
        self.feat = set()

    def name(self, p='v'):
        self.uid += 1
        return '%s%d' % (p, self.uid)

    # -------------------------------------------------------------- pieces
    def load(self, t, k=None):
        """An input value as type t."""
        s = self.s
        i = s.draw(4) if k is None else k
        if t in FLT:
            if t == 'double':
                return 'as_double(in[%d])' % i
            return 'as_float((uint)(in[%d]%s))' % (i, ' >> 32' if s.bool() else '')
        if s.bool(1, 5) and bits(t) < 64:
            return '((%s)(in[%d] >> %d))' % (t, i, s.choice([8, 32, 16, 24, 48]))
        return '((%s)in[%d])' % (t, i)

    def const(self, t):
        s = self.s
        if t in FLT:
            x = s.choice(['0.0', '1.0', '-1.0', '0.5', '-0.0', '3.0', '1e10', '-7.25', '16777216.0'])
            return '(%s%s)' % (x, 'f' if t == 'float' else '')
        v = s.choice([0, 1, -1, 2, 3, 7, 10, lo(t), hi(t), hi(t) // 2, 1 << s.draw(bits(t))])
        return '((%s)0x%xul)' % (t, v & (1 << 64) - 1)

    def val(self, t):
        return self.load(t) if self.s.bool(5, 6) else self.const(t)

    def ty(self, ints=False):
        return self.s.choice(INTS if ints else INTS + FLT + FLT)

    def out(self, t, e):
        f = {'float': 'DF(%s)', 'double': 'DD(%s)'}.get(t, '(ulong)(%s)')
        self.body.append('  o[%d] = %s;' % (self.slots, f % e))
        self.slots += 1

    def outv(self, t, w, v):
        for i in range(w):
            self.out(t, '%s.s%s' % (v, HEX[i]))

    def line(self, x):
        self.body.append('  ' + x)

    def var(self, t, e):
        n = self.name()
        self.line('%s %s = %s;' % (t, n, e))
        return n

    def w(self):
        return self.s.choice([2, 2, 3, 4, 4, 8, 16])

    def vec(self, t, w):
        n = self.name()
        self.line('%s%d %s = (%s%d)(%s);' % (t, w, n, t, w, ', '.join(self.val(t) for _ in range(w))))
        return n

    def toint(self, frm, t, e):
        """Guarded float-to-integer conversion of a variable."""
        sfx = 'f' if frm == 'float' else ''
        # bounds that are exact in the source type
        l, h = lo(t), hi(t) + 1
        lb = '%s%s' % (float(l).hex(), sfx)
        hb = '%s%s' % (float(h).hex(), sfx)
        return '(%s > %s && %s < %s ? (%s)%s : (%s)1)' % (e, lb if l else '-1.0' + sfx, e, hb, t, e, t)

    # ------------------------------------------------------------ snippets
    def s_cast(self):
        a, t = self.ty(), self.ty()
        v = self.var(a, self.val(a))
        if a in FLT and t in INTS:
            return self.out(t, self.toint(a, t, v))
        self.out(t, '(%s)%s' % (t, v) if self.s.bool() else '(%s)(%s)%s' % (t, t, v))

    def s_vcast(self):
        a, t, w = self.ty(), self.ty(), self.w()
        v = self.vec(a, w)
        n = self.name()
        if a in FLT and t in INTS:
            self.line('%s%d %s;' % (t, w, n))
            sfx = 'f' if a == 'float' else ''
            l, h = float(max(lo(t), -(1 << 62))), float(min(hi(t), 1 << 62))
            self.line('%s = __builtin_convertvector(%s >= (%s%d)(%s%s) && %s < (%s%d)(%s%s) ? %s : (%s%d)(1), %s%d);' % (
                n, v, a, w, l.hex(), sfx, v, a, w, h.hex(), sfx, v, a, w, t, w))
        else:
            self.line('%s%d %s = __builtin_convertvector(%s, %s%d);' % (t, w, n, v, t, w))
        self.outv(t, w, n)

    def s_cmp(self):
        s = self.s
        t = self.ty()
        a, b = self.var(t, self.val(t)), self.var(t, self.val(t))
        e = '%s %s %s' % (a, s.choice(CMP), b)
        if s.bool():
            e = '!(%s)' % e
        k = s.draw(4)
        if k == 0:
            self.out('int', e)
        elif k == 1:
            self.out(t, '(%s) ? %s : %s' % (e, a, b))
        elif k == 2:
            n = self.var('int', '0')
            self.line('if (%s) %s = 1; else %s += 2;' % (e, n, n))
            self.out('int', n)
        else:
            c = self.load(t)
            op = s.choice(['&&', '||'])
            n = self.var('int', '0')
            m = self.var('int', '((%s) %s (%s++, %s %s %s))' % (e, op, n, c, s.choice(CMP), a))
            self.out('int', '%s * 2 + %s' % (m, n))

    def s_vcmp(self):
        s = self.s
        t, w = self.ty(), self.w()
        it = SI[SIZE[t]]
        a, b = self.vec(t, w), self.vec(t, w)
        e = '(%s %s %s)' % (a, s.choice(CMP), b)
        k = s.draw(5)
        n = self.name()
        if k == 0:
            e = s.choice('~!') + e
        elif k == 1:
            e = '%s %s (%s %s %s)' % (e, s.choice(['&&', '||', '&', '^']), b, s.choice(CMP), a)
        elif k == 2:
            e = '%s(%s ? %s : %s)' % ('' if t == it else 'as_%s%d' % (it, w), e, a, b)
            if t in FLT:
                # avoid NaN payloads
                self.line('%s%d %s = %s ? %s : %s;' % (t, w, n, '(%s %s %s)' % (a, s.choice(CMP), b), a, b))
                return self.outv(t, w, n)
        elif k == 3:
            c = self.vec(t, w)
            self.line('%s%d %s = !(%s) ? %s : %s;' % (t, w, n, e, c, a))
            return self.outv(t, w, n)
        self.line('%s%d %s = %s;' % (it, w, n, e))
        self.outv(it, w, n)

    def s_shift(self):
        s = self.s
        t = self.ty(True)
        b = max(32, bits(t))
        sh = '((uint)in[%d] & %d)' % (s.draw(4), b - 1)
        a = self.val(t)
        if s.bool():
            self.out(t, '(%s)(%s >> %s)' % (t, a, sh))
        else:
            self.out(t, '(%s)((%s)%s << %s)' % (t, 'ulong' if b == 64 else 'uint', a, sh))

    def s_vshift(self):
        s = self.s
        t, w = self.ty(True), self.w()
        a, b = self.vec(t, w), self.vec(t, w)
        n = self.name()
        if s.bool():
            # the amount is taken modulo the width
            amt = s.choice([b, '(%s%d)(%s)' % (t, w, self.load(t))])
        else:
            amt = self.load(U[t])
        x = a if s.bool() else 'as_%s%d(as_%s%d(%s) %s %s)' % (t, w, U[t], w, a, s.choice('+-*^'), '(%s%d)(%s)' % (U[t], w, self.const(U[t])))
        self.line('%s%d %s = %s %s (%s%d)((%s%d)(%s) & (%s%d)(%d));' % (t, w, n, x, s.choice(['>>', '<<']), t, w, t, w, amt, t, w, bits(t) - 1))
        self.outv(t, w, n)

    def s_div(self):
        s = self.s
        t = self.ty(True)
        a, b = self.var(t, self.val(t)), self.var(t, self.val(t))
        op = s.choice('/%')
        bad = '%s == 0' % b
        if t[0] != 'u' and bits(t) >= 32:
            bad += ' || (%s == (%s)%s && %s == -1)' % (a, t, self.minlit(t), b)
        self.out(t, '(%s) ? (%s)1 : (%s)(%s %s %s)' % (bad, t, t, a, op, b))

    def minlit(self, t):
        return '(-%d%s - 1)' % (hi(t), 'l' if bits(t) == 64 else '')

    def s_vdiv(self):
        s = self.s
        t, w = s.choice(['uchar', 'ushort', 'uint', 'ulong', 'char', 'short', 'int', 'long']), self.w()
        a, b = self.vec(t, w), self.vec(t, w)
        n = self.name()
        one = '(%s%d)(1)' % (t, w)
        if t[0] == 'u':
            self.line('%s = %s == (%s%d)(0) ? %s : %s;' % (b, b, t, w, one, b))
        else:
            self.line('%s = (%s == (%s%d)(0) || %s == (%s%d)(-1)) ? %s : %s;' % (b, b, t, w, b, t, w, one, b))
        self.line('%s%d %s = %s %s %s;' % (t, w, n, a, s.choice('/%'), b))
        self.outv(t, w, n)

    def s_arith(self):
        s = self.s
        t = s.choice(['uchar', 'ushort', 'uint', 'ulong'] + FLT * 2)
        a, b = self.val(t), self.val(t)
        if t in FLT:
            e = '%s %s %s' % (a, s.choice('+-*/'), b)
            if s.bool(1, 4):
                e = '-(%s)' % e
            return self.out(t, e)
        self.out(t, '(%s)(%s%s %s %s)' % (t, '(uint)' if bits(t) < 32 else '', a, s.choice('+-*&|^'), b))

    def s_varith(self):
        s = self.s
        t, w = s.choice(['uchar', 'ushort', 'uint', 'ulong'] + FLT * 2), self.w()
        a = self.vec(t, w)
        b = self.vec(t, w) if s.bool(2, 3) else self.val(t)
        n = self.name()
        self.line('%s%d %s = %s %s %s;' % (t, w, n, a, s.choice('+-*/' if t in FLT else '+-*&|^'), b))
        if s.bool(1, 4):
            self.line('%s = -%s;' % (n, n))
        self.outv(t, w, n)

    def s_bitfield(self):
        s = self.s
        n = self.name('B')
        base = s.choice(['int', 'uint', 'uint', 'int', 'ulong', 'long', 'uchar', 'short'])
        f, left = [], 3
        for i in range(s.range(2, 5)):
            f.append((s.choice([base, base, base if base[0] != 'u' else base[1:], U[base]]), s.range(1, bits(base))))
        self.top.append('typedef struct { %s } %s;' % (' '.join('%s f%d : %d;' % (t, i, b) for i, (t, b) in enumerate(f)), n))
        v = self.name()
        self.line('%s %s = {%s};' % (n, v, ', '.join('0' for _ in f)))
        for _ in range(len(f) + 1):
            i = s.draw(len(f))
            self.line('%s.f%d %s %s;' % (v, i, s.choice(['=', '=', '+=', '^=']), self.load(U[base])))
        for i, (t, b) in enumerate(f):
            self.out('long', '(long)%s.f%d' % (v, i))

    def s_byval(self):
        s = self.s
        S = self.name('S')
        t, u = s.choice(INTS), s.choice(INTS)
        m = s.range(1, 9)
        self.top.append('typedef struct { %s a[%d]; uchar b; %s c; %s4 d; } %s;' % (t, m, u, s.choice(['uchar', 'uint', 'ushort']), S))
        ni = lambda: s.choice(['__attribute__((noinline)) ', '__attribute__((noinline)) ', ''])
        depth = s.range(1, 4)
        prev = None
        for k in range(depth):
            f = self.name('f')
            b = []
            if prev is None:
                b.append('  s.a[x & %d] = (%s)(s.a[0] + 3); s.c ^= (%s)5; s.b++; s.d.y += (uchar)x;' % (1 if m > 1 else 0, t, u))
            else:
                b.append('  ulong r = %s(s, x + 1);' % prev)
                b.append('  s.a[%d] ^= (%s)(r + x); s.d.xw = s.d.wx; s.b += 3;' % (s.draw(m), t))
                if s.bool(2, 3):
                    b.append('  r = r * 31 + %s(s, x);' % prev)
                b.append('  s.c += (%s)r;' % u)
            b.append('  ulong h = x;')
            b.append('  for (int i = 0; i < %d; i++) h = h * 31 + (ulong)s.a[i];' % m)
            b.append('  return h * 7 + (ulong)s.c * 3 + s.b + (ulong)s.d.x + ((ulong)s.d.y << 8) + ((ulong)s.d.w << 16)%s;' % (' + r * 5' if prev else ''))
            self.top.append('%sulong %s(%s s, ulong x)\n{\n%s\n}' % (ni(), f, S, '\n'.join(b)))
            prev = f
        v = self.name()
        self.line('%s %s;' % (S, v))
        self.line('for (int i = 0; i < %d; i++) %s.a[i] = (%s)(in[i & 3] + (ulong)i);' % (m, v, t))
        self.line('%s.b = (uchar)in[1]; %s.c = %s; %s.d = 7; %s.d.z = 9;' % (v, v, self.load(u), v, v))
        self.out('ulong', '%s(%s, in[0])' % (prev, v))
        self.out('ulong', '%s(%s, 1)' % (prev, v))
        self.out('ulong', '(ulong)%s.a[%d] + (ulong)%s.c * 3 + %s.b + %s.d.y' % (v, s.draw(m), v, v, v))

    def s_sret(self):
        """Structures and vectors returned from calls, and swapped by assignment."""
        s = self.s
        S = self.name('R')
        t, u = s.choice(INTS + FLT), s.choice(INTS)
        w = s.choice([2, 3, 4])
        self.top.append('typedef struct { %s x; %s%d v; %s y[%d]; } %s;' % (t, u, w, t, s.range(1, 5), S))
        f = self.name('f')
        self.top.append('%s%s %s(%s x, %s%d v) { %s s; s.x = x; s.v = v; for (int i = 0; i < (int)(sizeof(s.y) / sizeof(s.y[0])); i++) s.y[i] = (%s)(i + 1); s.y[0] = x; return s; }' % (
            s.choice(['', '__attribute__((noinline)) ']), S, f, t, u, w, S, t))
        a, b, c = self.name(), self.name(), self.name()
        self.line('%s %s = %s(%s, (%s%d)(%s)), %s = %s(%s, (%s%d)(%s));' % (
            S, a, f, self.val(t), u, w, self.val(u), b, f, self.val(t), u, w, ', '.join(self.val(u) for _ in range(w))))
        self.line('%s %s = %s;' % (S, c, a))
        if s.bool():
            self.line('if (in[0] & 1) { %s = %s; %s = %s; }' % (a, b, b, c))
        for x in (a, b):
            self.out(t, x + '.x')
            self.outv(u, w, x + '.v')
            self.out(t, x + '.y[0]')

    def s_switch(self):
        s = self.s
        t = self.ty(True)
        u = self.load(t)
        vals = {0, 1, lo(t), hi(t)}
        for _ in range(s.draw(8)):
            vals.add(min(max(s.choice([s.range(0, 20) - 5, 1 << s.draw(bits(t)), s.draw(256)]), lo(t)), hi(t)))
        vals = sorted(vals)
        r = self.var('int', '0')
        o = ['switch (%s) {' % u]
        for i, v in enumerate(s.shuffle(vals)):
            lit = '(%s)%s' % (t, self.minlit(t) if v == lo(t) and v else '%d%s' % (v, 'ul' if v > 2 ** 62 and t[0] == 'u' else 'l' if bits(t) == 64 else ''))
            o.append('  case %s: %s += %d;%s' % (lit, r, i + 3, ' break;' if s.bool(3, 4) else ''))
        o.append('  default: %s += 100; }' % r)
        for l in o:
            self.line(l)
        self.out('int', r)

    def s_loop(self):
        s = self.s
        t = s.choice(['uchar', 'ushort', 'uint', 'ulong'])
        x, y, z = [self.var(t, self.load(t)) for _ in range(3)]
        i = self.name('i')
        n = s.choice(['(int)(in[%d] & 7)' % s.draw(4), '5', '3'])
        self.line('for (int %s = 0; %s < %s; %s++) {' % (i, i, n, i))
        k = s.draw(4)
        tmp = self.name()
        if k == 0:
            self.line('  %s %s = %s; %s = %s; %s = (%s)(%s + %s);' % (t, tmp, x, x, y, y, t, tmp, i))
        elif k == 1:
            self.line('  %s %s = %s; %s = %s; %s = %s; %s = %s;' % (t, tmp, x, x, y, y, z, z, tmp))
        elif k == 2:
            self.line('  if (%s & 1) continue; %s = (%s)(%s * 3 + %s); if (%s > %s) break; %s--;' % (x, x, t, x, y, x, z, y))
        else:
            self.line('  %s %s = %s; %s = %s; if (%s & 1) { %s = %s; %s++; }' % (t, tmp, x, x, y, z, y, tmp, z))
        self.line('}')
        for v in (x, y, z):
            self.out(t, v)

    def s_array(self):
        s = self.s
        t = self.ty()
        m = s.choice([4, 8, 16])
        a = self.name('a')
        k = s.draw(5)
        if k == 0:
            self.line('%s %s[%d] = {%s};' % (t, a, m, ', '.join(self.const(t) for _ in range(s.range(1, m)))))
        elif k == 1:
            self.line('%s %s[%d] = {0};' % (t, a, m))
        else:
            self.line('%s %s[%d]; for (int i = 0; i < %d; i++) %s[i] = (%s)(i * 3);' % (t, a, m, m, a, t))
        for _ in range(s.range(1, 4)):
            self.line('%s[in[%d] & %d] = %s;' % (a, s.draw(4), m - 1, self.val(t)))
        p = self.name('p')
        self.line('private %s *%s = %s + %d;' % (t, p, a, m))
        self.out(t, '%s[-(int)(in[%d] & %d) - 1]' % (p, s.draw(4), m - 1))
        self.out(t, '%s[(short)(in[%d] & %d)]' % (a, s.draw(4), m - 1))
        self.out(t, '*(%s - (long)((in[%d] & %d) + 1))' % (p, s.draw(4), m - 1))
        self.out('long', '&%s[in[0] & %d] - &%s[in[1] & %d]' % (a, m - 1, a, m - 1))
        self.out('int', '&%s[in[0] & %d] %s &%s[in[1] & %d]' % (a, m - 1, s.choice(CMP), a, m - 1))

    def s_array2(self):
        s = self.s
        t = self.ty(True)
        x, y, z = s.range(2, 4), s.range(2, 5), s.range(1, 3)
        a = self.name('a')
        st = self.name('T')
        self.top.append('typedef struct { uchar p; %s m[%d][%d]; } %s;' % (t, x, y, st))
        self.line('%s %s[%d]; for (int i = 0; i < %d; i++) { %s[i].p = (uchar)(i + 1); for (int j = 0; j < %d; j++) for (int k = 0; k < %d; k++) %s[i].m[j][k] = (%s)(i * 100 + j * 10 + k); }' % (
            st, a, z, z, a, x, y, a, t))
        self.line('%s[in[0] %% %d].m[in[1] %% %d][in[2] %% %d] += %s;' % (a, z, x, y, self.const(t)))
        h = self.var('ulong', '0')
        self.line('for (int i = 0; i < %d; i++) { %s = %s * 3 + %s[i].p; for (int j = 0; j < %d; j++) for (int k = 0; k < %d; k++) %s = %s * 31 + (ulong)%s[i].m[j][k]; }' % (
            z, h, h, a, x, y, h, h, a))
        self.out('ulong', h)
        self.out(t, '%s[in[1] %% %d].m[in[2] %% %d][in[3] %% %d]' % (a, z, x, y))

    def s_vecelem(self):
        s = self.s
        t, w = self.ty(), s.choice([2, 4, 8, 16])
        v = self.vec(t, w)
        for _ in range(s.range(1, 4)):
            k = s.draw(5)
            if k == 0:
                self.line('((private %s *)&%s)[in[%d] & %d] = %s;' % (t, v, s.draw(4), w - 1, self.val(t)))
            elif k == 1:
                self.line('%s.s%s = %s;' % (v, HEX[s.draw(w)], self.val(t)))
            elif k == 2 and w > 2:
                self.line('%s.%s = %s;' % (v, s.choice(['lo', 'hi', 'even', 'odd']), self.vec(t, w // 2)))
            elif k == 3:
                p = s.shuffle(list(range(w)))[:2]
                if w > 4:
                    q = s.shuffle(list(range(w)))[:4]
                    self.line('%s.s%s = %s.s%s;' % (v, ''.join(HEX[i] for i in q), v, ''.join(HEX[s.draw(w)] for _ in q)))
                else:
                    self.line('%s.s%s = %s.s%s;' % (v, ''.join(HEX[i] for i in p), v, ''.join(HEX[s.draw(w)] for _ in p)))
            else:
                q = [s.draw(w) for _ in range(w)]
                if s.bool():
                    # most elements stay
                    q = list(range(w))
                    for _ in range(s.range(1, 3)):
                        q[s.draw(w)] = s.draw(w)
                self.line('%s = %s.s%s;' % (v, v, ''.join(HEX[i] for i in q)))
        self.out(t, '((private %s *)&%s)[in[%d] & %d]' % (t, v, s.draw(4), w - 1))
        self.outv(t, w, v)

    def s_union(self):
        s = self.s
        n = self.name('U')
        self.top.append('typedef union { ulong u[2]; uchar b[16]; float f[4]; ushort8 h; int3 i; struct { ushort a; ulong c; } s; double d; } %s;' % n)
        v = self.name()
        self.line('%s %s; %s.u[0] = in[%d]; %s.u[1] = in[%d];' % (n, v, v, s.draw(4), v, s.draw(4)))
        for _ in range(s.draw(4)):
            self.line(s.choice(['@.b[in[2] & 15] ^= 0x5a;', '@.h.s3 += 7;', '@.s.a++;', '@.i.y = -5;', '@.s.c ^= 0xfffful;',
                                '@.h.odd = @.h.even;']).replace('@', v))
        self.out('ulong', v + '.u[0]')
        self.out('ulong', v + '.u[1]')
        self.out('float', '%s.f[in[1] & 3]' % v)
        self.out('int', v + '.i.z')

    def s_compound(self):
        s = self.s
        t = self.ty(True)
        a = self.var(t, self.load(t))
        acc = self.var('ulong', '0')
        for _ in range(s.range(1, 5)):
            k = s.draw(6)
            if t[0] != 'u' and bits(t) >= 32:
                # no signed overflow
                k = s.choice([2, 4, 5])
            self.line(['%s++;', '--%s;', '%%s ^= %s;' % self.load(t), '%%s += %s;' % self.load(U[t] if bits(t) >= 32 else 'uchar'),
                       '%%s >>= (in[1] & %d);' % (bits(t) - 1), '%%s |= %s;' % self.const(t)][k] % a)
            if t[0] == 'u' or bits(t) < 32:
                self.line('%s = %s * 3 + (ulong)(%s);' % (acc, acc, s.choice(['%s++', '++%s', '%s--', '--%s', '-%s', '~%s', '+%s', '!%s']) % a))
        self.out(t, a)
        self.out('ulong', acc)

    def s_const(self):
        s = self.s
        t = self.ty()
        m = s.choice([3, 5, 8])
        n = self.name('C')
        form = s.draw(3)
        if form == 0:
            self.top.append('constant %s %s[%d] = {%s};' % (t, n, m, ', '.join(self.const(t) for _ in range(m))))
            self.out(t, '%s[in[%d] %% %d]' % (n, s.draw(4), m))
        elif form == 1:
            st = self.name('K')
            w = s.choice([2, 3, 4])
            self.top.append('typedef struct { uchar c; %s%d v; %s x[2]; } %s;' % (t, w, t, st))
            self.top.append('constant %s %s[%d] = {%s};' % (st, n, m, ', '.join('{%d, (%s%d)(%s), {%s}}' % (
                i + 1, t, w, ', '.join(self.const(t) for _ in range(w)), self.const(t)) for i in range(m - 1))))
            e = '%s[in[%d] %% %d]' % (n, s.draw(4), m)
            self.out('int', e + '.c')
            self.outv(t, w, '(%s.v)' % e)
            self.out(t, '%s.x[in[1] & 1]' % e)
        else:
            txt = ''.join(s.choice('abcXYZ019 _') for _ in range(12))
            self.top.append('constant char %s[] = "%s";' % (n, txt))
            self.out('char', '%s[in[%d] %% 13]' % (n, s.draw(4)))
            self.out('int', 'sizeof(%s)' % n)

    def s_bool(self):
        s = self.s
        t = self.ty()
        v = self.var(t, self.val(t))
        b = self.name('b')
        self.line('bool %s = %s;' % (b, v))
        k = s.draw(3)
        if k == 0:
            self.out('int', '%s + %s' % (b, s.choice(['true', 'false', '!%s' % b])))
        elif k == 1:
            t2 = self.ty()
            self.out(t2, '(%s)%s' % (t2, b))
        else:
            a = self.name('b')
            self.line('bool %s[4] = {%s, !%s, 1, 0}; %s[in[1] & 3] ^= %s;' % (a, b, b, a, b))
            self.out('int', '%s[0] * 8 + %s[1] * 4 + %s[2] * 2 + %s[3]' % (a, a, a, a))

    def s_ptrsel(self):
        s = self.s
        t = self.ty()
        a, b = self.name('a'), self.name('a')
        p = self.name('p')
        self.line('%s %s[3] = {%s, %s, %s}, %s = %s;' % (t, a, self.val(t), self.val(t), self.val(t), b, self.val(t)))
        self.line('private %s *%s = (in[%d] & 1) ? &%s[in[1] %% 3] : &%s;' % (t, p, s.draw(4), a, b))
        self.line('*%s = %s; %s = (%s == &%s) ? %s + 1 : &%s;' % (p, self.val(t), p, p, b, a, b))
        self.out(t, '*' + p)
        self.out(t, a + '[0]')
        self.out(t, a + '[2]')
        self.out(t, b)

    def s_lang(self):
        """Loops with several exits and goto-free nesting."""
        s = self.s
        x = self.var('uint', self.load('uint'))
        c = self.var('uint', '0')
        i, j = self.name('i'), self.name('i')
        self.line('for (uint %s = 0; %s < (%s & 7); %s++) {' % (i, i, x, i))
        self.line('  uint %s = %s; do { %s += %s * %s + 1; if (%s == %d) break; if (%s & 1) continue; %s ^= 0x55; } while (%s++ < %d);' % (
            j, i, c, i, j, j, s.range(1, 6), j, c, j, s.range(1, 6)))
        self.line('  while (%s > 3) { if ((%s & 3) == 2) break; %s -= 2; }' % (j, j, j))
        self.line('  %s = %s * 33 + %s;' % (c, c, j))
        self.line('}')
        self.out('uint', c)

    def program(self, count, nin=4):
        s = self.s
        kinds = [(3, 'cast'), (2, 'vcast'), (3, 'cmp'), (4, 'vcmp'), (2, 'shift'), (2, 'vshift'), (2, 'div'), (1, 'vdiv'), (3, 'arith'), (2, 'varith'),
                 (2, 'byval'), (1, 'sret'), (2, 'switch'), (2, 'loop'), (2, 'array'), (1, 'array2'), (2, 'vecelem'), (1, 'union'),
                 (2, 'compound'), (2, 'const'), (1, 'bool'), (1, 'ptrsel'), (1, 'lang')]
        for _ in range(count):
            k = s.weighted(kinds)
            self.feat.add('micro ' + k)
            self.line('{')
            getattr(self, 's_' + k)()
            self.line('}')
        return PRE + '\n'.join(self.top) + '\nvoid body(global ulong *o, global const ulong *in)\n{\n' + '\n'.join(self.body) + '\n}\n', self.slots, self.feat
