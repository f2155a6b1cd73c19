"""Generator of well-defined OpenCL C programs.

Programs avoid undefined and unspecified behaviour by construction: arithmetic
on signed operands goes through unsigned types, shift counts are masked,
divisors are made non-zero, float-to-integer conversions are range-guarded,
indices are masked, every variable is initialised, FP contraction is off and
NaNs are canonicalised before they become visible.
"""
import struct

INTS = ['char', 'uchar', 'short', 'ushort', 'int', 'uint', 'long', 'ulong']
SIZE = {'char': 1, 'uchar': 1, 'short': 2, 'ushort': 2, 'int': 4, 'uint': 4,
        'long': 8, 'ulong': 8, 'float': 4, 'double': 8}
FLT = ['float', 'double']
UNS = {'char': 'uchar', 'short': 'ushort', 'int': 'uint', 'long': 'ulong'}
SGN = {'uchar': 'char', 'ushort': 'short', 'uint': 'int', 'ulong': 'long'}
ISIZE = {1: ('char', 'uchar'), 2: ('short', 'ushort'), 4: ('int', 'uint'), 8: ('long', 'ulong')}
RANGE = {'char': ('-100', '100'), 'uchar': ('0', '200'), 'short': ('-30000', '30000'), 'ushort': ('0', '60000'),
         'int': ('-1000000000', '1000000000'), 'uint': ('0', '4000000000'),
         'long': ('-1000000000000000000', '1000000000000000000'), 'ulong': ('0', '10000000000000000000')}
HEX = '0123456789abcdef'


def U(t):
    return UNS.get(t, t)


class Ty:
    """kind: s scalar, v vector, a array, t struct, p pointer."""
    __slots__ = ('k', 't', 'n', 'name', 'fields', 'elt', 'space', 'union')

    def __init__(self, k, **kw):
        self.k = k
        self.union = False
        for a, v in kw.items():
            setattr(self, a, v)

    def base(self):
        if self.k == 's':
            return self.t
        if self.k == 'v':
            return '%s%d' % (self.t, self.n)
        if self.k == 't':
            return self.name
        if self.k == 'p':
            return '%s %s *' % (self.space, self.elt.base())
        raise AssertionError(self.k)

    def decl(self, name):
        if self.k == 'a':
            return self.elt.decl('%s[%d]' % (name, self.n))
        return '%s %s' % (self.base(), name)


_S = {t: Ty('s', t=t) for t in INTS + FLT}


def S(t):
    return _S[t]


def V(t, n):
    return Ty('v', t=t, n=n)


class Var:
    def __init__(self, name, ty, ro=False, space='private', prefix=''):
        self.name = name
        self.ty = ty
        self.ro = ro


class Gen:
    def __init__(self, s, floats=True, vectors=True, structs=True, funcs=True, pointers=True,
                 budget=40, consts=True, doubles=True, depth=4):
        self.s = s
        self.o_floats = floats
        self.o_vectors = vectors
        self.o_structs = structs
        self.o_funcs = funcs
        self.o_pointers = pointers
        self.o_consts = consts
        self.o_doubles = doubles
        self.budget = budget
        self.maxdepth = depth
        self.n = 0
        self.scope = []
        self.structs = []
        self.helpers = []
        self.top = []
        self.loopdepth = 0
        self.infunc = False
        self.noassign = set()
        self.feat = {}
        self.iters = 1

    def f(self, x):
        self.feat[x] = self.feat.get(x, 0) + 1

    def fresh(self, p='v'):
        self.n += 1
        return '%s%d' % (p, self.n)

    # ------------------------------------------------------------ types
    def scalar(self, ints_only=False):
        s = self.s
        if not ints_only and self.o_floats and s.bool(1, 4):
            return s.choice(FLT if self.o_doubles else ['float'])
        return s.weighted([(3, 'int'), (3, 'uint'), (1, 'char'), (1, 'uchar'), (1, 'short'),
                           (1, 'ushort'), (2, 'long'), (2, 'ulong')])

    def width(self):
        return self.s.weighted([(3, 4), (3, 2), (2, 3), (2, 8), (1, 16)])

    def scalar_or_vec(self):
        if self.o_vectors and self.s.bool(2, 5):
            return V(self.scalar(), self.width())
        return S(self.scalar())

    def anytype(self, depth=0):
        s = self.s
        k = s.draw(10)
        if k < 6 or depth > 1:
            return self.scalar_or_vec()
        if k < 8:
            return Ty('a', elt=self.anytype(depth + 1), n=s.choice([2, 4, 8]))
        if self.structs and self.o_structs:
            return s.choice(self.structs)
        return self.scalar_or_vec()

    def mkstruct(self):
        s = self.s
        name = self.fresh('S')
        u = s.bool(1, 4)
        fields = []
        for k in range(s.range(1, 4)):
            t = self.anytype(1)
            if u:   # type punning: no floats (NaN payloads), no vec3 / structs (padding)
                while not self._punnable(t):
                    t = S(self.scalar(True))
            fields.append(('f%d' % k, t))
        ty = Ty('t', name=name, fields=fields)
        ty.union = u
        packed = not u and s.bool(1, 6) and all(t.k in 'sv' for _, t in fields)
        self.top.append('typedef %s %s{ %s } %s;' % (
            'union' if u else 'struct', '__attribute__((packed)) ' if packed else '',
            ' '.join(t.decl(n) + ';' for n, t in fields), name))
        self.structs.append(ty)
        self.f('union' if u else 'struct')

    def _punnable(self, t):
        if t.k == 's':
            return t.t in INTS
        if t.k == 'v':
            return t.t in INTS and t.n != 3
        if t.k == 'a':
            return self._punnable(t.elt)
        return False

    # ------------------------------------------------------------ literals
    def lit(self, t, const=False):
        s = self.s
        if t in FLT:
            k = s.draw(4)
            if k == 0:
                v = s.choice([0.0, 1.0, -1.0, 0.5, 2.0, -0.0, 3.0, 1e10, -1e-10])
            elif k == 1:
                v = s.range(-0, 200) - 100
            elif k == 2:
                v = (s.range(0, 4000) - 2000) / 16.0
            else:
                if t == 'float':
                    b = s.draw(1 << 32)
                    v = struct.unpack('<f', struct.pack('<I', b))[0]
                else:
                    b = s.draw(1 << 32) << 32 | s.draw(1 << 32)
                    v = struct.unpack('<d', struct.pack('<Q', b))[0]
                if v != v or v in (float('inf'), float('-inf')):
                    if const:
                        return '1.0f' if t == 'float' else '1.0'
                    return 'as_float(0x%08xu)' % b if t == 'float' else 'as_double(0x%016xul)' % b
                x = '%s%s' % (v.hex(), 'f' if t == 'float' else '')
                return '(%s)' % x if x[0] == '-' else x
            x = '%r%s' % (float(v), 'f' if t == 'float' else '')
            return '(%s)' % x if x[0] == '-' else x
        b = SIZE[t] * 8
        k = s.draw(4)
        if k == 0:
            v = s.choice([0, 1, 2, 3, -1, -2, 7, 255])
        elif k == 1:
            v = (1 << s.draw(b)) + s.range(-1, 1)
        elif k == 2:
            v = s.range(0, 128) - 64
        else:
            v = s.draw(1 << 32)
            if b > 32:
                v |= s.draw(1 << 32) << 32
        v &= (1 << b) - 1
        if b == 64:
            return '0x%xul' % v if t == 'ulong' else '((long)0x%xul)' % v
        if t == 'uint':
            return '0x%xu' % v
        return '((%s)0x%xu)' % (t, v)

    # ------------------------------------------------------------ paths
    def paths(self, ty, text, ro, depth=0):
        """Yields (text, type, ro) of scalars and vectors reachable."""
        if ty.k in 'sv':
            return text, ty, ro
        if ty.k == 'a':
            if self.s.bool(1, 2):
                idx = str(self.s.draw(ty.n))
            else:
                idx = '(%s) & %d' % (self.expr(S('uint'), self.maxdepth - 1), ty.n - 1)
            return self.paths(ty.elt, '%s[%s]' % (text, idx), ro, depth + 1)
        if ty.k == 't':
            n, t = self.s.choice(ty.fields)
            return self.paths(t, '%s.%s' % (text, n), ro, depth + 1)
        if ty.k == 'p':
            return self.paths(ty.elt, '(*%s)' % text, ro, depth + 1)
        raise AssertionError

    def pick(self, writable=False):
        vs = [v for v in self.scope if not (writable and (v.ro or v.name in self.noassign))]
        if not vs:
            return None
        v = self.s.choice(vs)
        return self.paths(v.ty, v.name, v.ro)

    # ------------------------------------------------------------ expressions
    def expr(self, ty, d=0):
        if ty.k == 's':
            return self.sexpr(ty.t, d)
        if ty.k == 'v':
            return self.vexpr(ty.t, ty.n, d)
        raise AssertionError

    def leaf(self, ty):
        if ty.k == 's':
            r = self.pick()
            if r is None or self.s.bool(1, 4):
                return self.lit(ty.t)
            text, t, ro = r
            return self.cast(text, t, ty)
        r = self.pick()
        if r is not None and r[1].k == 'v' and r[1].n == ty.n and r[1].t == ty.t:
            return r[0]
        if r is not None and r[1].k == 'v' and r[1].t == ty.t:
            return '%s.%s' % (r[0], self.swz(r[1].n, ty.n))
        if r is not None and r[1].k == 's':
            return '((%s)(%s))' % (ty.base(), self.cast(r[0], r[1], S(ty.t)))
        return '((%s)(%s))' % (ty.base(), ', '.join(self.lit(ty.t) for _ in range(ty.n)))

    def swz(self, n, w):
        s = self.s
        if w == 1 or s.bool(2, 3) or n == 3:
            comps = [s.draw(n) for _ in range(w)]
            if n <= 4 and s.bool(1, 2):
                return ''.join('xyzw'[c] for c in comps)
            return 's' + ''.join(HEX[c] for c in comps)
        if n == 2 * w:
            return s.choice(['lo', 'hi', 'even', 'odd'])
        return 's' + ''.join(HEX[s.draw(n)] for c in range(w))

    def cast(self, text, frm, to):
        """Converts a scalar/vector expression of type frm to scalar type to."""
        if frm.k == 'v':
            text = '%s.%s' % (text, self.swz(frm.n, 1))
            frm = S(frm.t)
        if frm.t == to.t:
            return text
        if frm.t in FLT and to.t in INTS:
            lo, hi = RANGE[to.t]
            sfx = '.0f' if frm.t == 'float' else '.0'
            self.f('fptoint')
            return '((%s)(((%s) >= %s%s && (%s) <= %s%s) ? (%s) : 1%s))' % (
                to.t, text, lo, sfx, text, hi, sfx, text, sfx)
        return '((%s)(%s))' % (to.t, text)

    def cond(self, d):
        s = self.s
        k = s.draw(7)
        if k == 0:
            return '(%s)' % self.sexpr(self.scalar(True), d + 1)
        if k < 5:
            t = self.scalar()
            if t in FLT:
                self.f('fcmp')
            return '(%s %s %s)' % (self.sexpr(t, d + 1), s.choice(['<', '<=', '>', '>=', '==', '!=']),
                                   self.sexpr(t, d + 1))
        if k == 5 and d < self.maxdepth:
            return '(%s %s %s)' % (self.cond(d + 1), s.choice(['&&', '||']), self.cond(d + 1))
        return '(!%s)' % self.cond(d + 1) if d < self.maxdepth else '(1)'

    def sexpr(self, t, d=0):
        s = self.s
        if d >= self.maxdepth:
            return self.leaf(S(t))
        if t in FLT:
            k = s.draw(10)
            if k < 3:
                return self.leaf(S(t))
            if k < 7:
                self.f('float arith')
                return '(%s %s %s)' % (self.sexpr(t, d + 1), s.choice('+-*/'), self.sexpr(t, d + 1))
            if k == 7:
                return '(-%s)' % self.sexpr(t, d + 1)
            if k == 8:
                self.f('int to float')
                return '((%s)%s)' % (t, self.sexpr(self.scalar(), d + 1))
            return '(%s ? %s : %s)' % (self.cond(d + 1), self.sexpr(t, d + 1), self.sexpr(t, d + 1))
        b = SIZE[t] * 8
        k = s.draw(24)
        if k < 5:
            return self.leaf(S(t))
        u = 'ulong' if b == 64 else 'uint'
        if k < 11:
            self.f('int arith')
            return '((%s)((%s)%s %s (%s)%s))' % (t, u, self.sexpr(t, d + 1), s.choice('+-*&|^'),
                                                 u, self.sexpr(t, d + 1))
        if k == 11:
            sh = self.sexpr('uint', d + 1)
            if s.bool():
                return '((%s)((%s)%s << (%s & %d)))' % (t, u, self.sexpr(t, d + 1), sh, max(b, 32) - 1)
            return '((%s)(%s >> (%s & %d)))' % (t, self.sexpr(t, d + 1), sh, max(b, 32) - 1)
        if k == 12:
            op = s.choice('/%')
            if t.startswith('u'):
                return '((%s)((%s)%s %s ((%s)%s | 1)))' % (t, u, self.sexpr(t, d + 1), op, u, self.sexpr(t, d + 1))
            w = 'long' if b == 64 else 'int'
            return '((%s)(((%s)%s >> 1) %s ((%s)%s | 1)))' % (t, w, self.sexpr(t, d + 1), op, w, self.sexpr(t, d + 1))
        if k == 13:
            return '((%s)(%s%s))' % (t, s.choice(['~', '-(%s)' % u, '+']), self.sexpr(t, d + 1))
        if k == 14:
            return '((%s)%s)' % (t, self.cond(d + 1))
        if k == 15:
            return '(%s ? %s : %s)' % (self.cond(d + 1), self.sexpr(t, d + 1), self.sexpr(t, d + 1))
        if k == 16:
            return self.cast(*self._se(d), to=S(t))
        if k == 17 and self.o_vectors:
            w = self.width()
            return '(%s).%s' % (self.vexpr(t, w, d + 1), self.swz(w, 1))
        if k == 18 and self.helpers and not self.infunc:
            r = self.callexpr(S(t), d)
            if r:
                return r
        if k == 19:
            self.f('idiom')
            return self.idiom(t, u, b, d)
        if k == 20 and self.o_vectors:
            # reduction over a vector comparison
            w = self.width()
            et = self.scalar()
            it = ISIZE[SIZE[et]][0]
            x = '(%s %s %s)' % (self.vexpr(et, w, d + 1), s.choice(['<', '>', '==', '!=', '<=', '>=']),
                                self.vexpr(et, w, d + 1))
            self.f('vector compare')
            return self.cast('(%s).%s' % (x, self.swz(w, 1)), S(it), S(t))
        if k == 21:
            a = self.s.choice([8, 16, 32])
            return '((%s)((%s)%s & 0x%xu))' % (t, u, self.sexpr(t, d + 1), (1 << a) - 1)
        if k == 22:
            vs = [v for v in self.scope if v.ty.k in 'at']
            if vs:
                return '((%s)sizeof(%s))' % (t, s.choice(vs).name)
        return self.leaf(S(t))

    def _se(self, d):
        t = self.scalar()
        return self.sexpr(t, d + 1), S(t)

    def idiom(self, t, u, b, d):
        """Source patterns the optimiser turns into intrinsics."""
        s = self.s
        a = self.leaf(S(t))
        c = self.leaf(S(t))
        k = s.draw(8)
        if k == 0:
            return '((%s)(%s < 0 ? (%s)(-(%s)%s) : %s))' % (t, a, t, u, a, a)
        if k == 1:
            o = s.choice('<>')
            return '(%s %s %s ? %s : %s)' % (a, o, c, a, c)
        if k == 2:
            ut = U(t)
            n = s.range(1, b - 1)
            return '((%s)(((%s)%s << %d) | ((%s)%s >> %d)))' % (t, ut, a, n, ut, a, b - n)
        if k == 3:
            ut = U(t)
            n = self.leaf(S('uint'))
            return '((%s)(((%s)%s << ((%s) & %d)) | ((%s)%s >> ((-(%s)) & %d))))' % (
                t, ut, a, n, b - 1, ut, a, n, b - 1)
        if k == 4:
            x = '((uint)%s)' % a
            return '((%s)((%s >> 24) | ((%s >> 8) & 0xff00u) | ((%s << 8) & 0xff0000u) | (%s << 24)))' % (t, x, x, x, x)
        if k == 5:
            ut = U(t)
            return '((%s)((%s)((%s)%s + (%s)%s) < (%s)%s ? (%s)-1 : (%s)((%s)%s + (%s)%s)))' % (
                t, ut, ut, a, ut, c, ut, a, ut, ut, ut, a, ut, c)
        if k == 6:
            return '((%s)((%s > %s) - (%s < %s)))' % (t, a, c, a, c)
        ut = U(t)
        return '((%s)((%s)%s > (%s)%s ? (%s)%s - (%s)%s : 0))' % (t, ut, a, ut, c, ut, a, ut, c)

    def vcond(self, w, size, d):
        """A vector comparison giving an integer vector of `size`-byte elements."""
        s = self.s
        cand = [t for t in INTS + (FLT if self.o_floats else []) if SIZE[t] == size]
        if not self.o_doubles:
            cand = [t for t in cand if t != 'double']
        t = s.choice(cand)
        self.f('vector compare')
        r = '(%s %s %s)' % (self.vexpr(t, w, d + 1), s.choice(['<', '<=', '>', '>=', '==', '!=']), self.vexpr(t, w, d + 1))
        k = s.draw(5)
        if k == 0:
            return '(!%s)' % r if s.bool() else '(~%s)' % r
        if k == 1 and d < self.maxdepth:
            return '(%s %s %s)' % (r, s.choice(['&&', '||', '&', '|', '^']), self.vcond(w, size, d + 1))
        return r

    def vexpr(self, t, w, d=0):
        s = self.s
        ty = V(t, w)
        if d >= self.maxdepth:
            return self.leaf(ty)
        T = ty.base()
        size = SIZE[t]
        k = s.draw(16)
        if k < 3:
            return self.leaf(ty)
        if k < 5:
            # vector literal from scalars and smaller vectors
            parts, left = [], w
            while left:
                opts = [1] + [x for x in (2, 3, 4, 8) if x <= left]
                n = s.choice(opts) if len(parts) < 3 else 1
                if left > 8 and n == 1:
                    n = max(opts)
                parts.append(self.sexpr(t, d + 1) if n == 1 else self.vexpr(t, n, d + 1))
                left -= n
            self.f('vector literal')
            return '((%s)(%s))' % (T, ', '.join(parts))
        if k == 5:
            n = self.width()
            if n == 3 and w > 2:
                n = 4
            return '(%s).%s' % (self.vexpr(t, n, d + 1), self.swz(n, w))
        if k == 6:
            ft = self.scalar()
            e = self.vexpr(ft, w, d + 1)
            self.f('vector convert')
            if ft in FLT and t in INTS:
                lo, hi = RANGE[t]
                sfx = '.0f' if ft == 'float' else '.0'
                FT = '%s%d' % (ft, w)
                e = '(((%s >= (%s)(%s%s)) && (%s <= (%s)(%s%s))) ? %s : (%s)(1%s))' % (
                    e, FT, lo, sfx, e, FT, hi, sfx, e, FT, sfx)
            return '__builtin_convertvector(%s, %s)' % (e, T)
        if k == 7:
            c = self.vcond(w, size, d + 1)
            self.f('vector select')
            return '(%s ? %s : %s)' % (c, self.vexpr(t, w, d + 1), self.vexpr(t, w, d + 1))
        if k == 8:
            return '(%s ? %s : %s)' % (self.cond(d + 1), self.vexpr(t, w, d + 1), self.vexpr(t, w, d + 1))
        if t in FLT:
            if k == 9:
                return '(-%s)' % self.vexpr(t, w, d + 1)
            self.f('vector float arith')
            b = self.vexpr(t, w, d + 1) if s.bool(2, 3) else self.sexpr(t, d + 1)
            return '(%s %s %s)' % (self.vexpr(t, w, d + 1), s.choice('+-*/'), b)
        ut = U(t)
        UT = '%s%d' % (ut, w)
        a = self.vexpr(t, w, d + 1)
        if t != ut:
            a = 'as_%s(%s)' % (UT, a)
        self.f('vector int arith')
        if k == 9:
            r = '(%s%s)' % (s.choice('~-'), a)
        elif k == 10:
            r = '(%s %s (%s & (%s)(%d)))' % (a, s.choice(['<<', '>>']), self.vexpr(ut, w, d + 1), UT, size * 8 - 1)
            if s.bool(1, 3):   # arithmetic shift
                return '(%s >> (%s & (%s)(%d)))' % (self.vexpr(t, w, d + 1), self.vexpr(t, w, d + 1), T, size * 8 - 1)
        elif k == 11:
            r = '(%s %s (%s | (%s)(1)))' % (a, s.choice('/%'), self.vexpr(ut, w, d + 1), UT)
        elif k == 12 and (t != ut):
            return self.vcond_exact(t, w, d)
        else:
            b = self.vexpr(ut, w, d + 1) if s.bool(2, 3) else '(%s)(%s)' % (UT, self.sexpr(ut, d + 1))
            r = '(%s %s %s)' % (a, s.choice('+-*&|^'), b)
        return r if t == ut else 'as_%s(%s)' % (T, r)

    def vcond_exact(self, t, w, d):
        return self.vcond(w, SIZE[t], d + 1)

    # ------------------------------------------------------------ functions
    def callexpr(self, ty, d):
        s = self.s
        hs = [h for h in self.helpers if h[1].k == ty.k and h[1].k in 'sv' and h[1].t == ty.t
              and (ty.k == 's' or h[1].n == ty.n)]
        if not hs:
            return None
        h = s.choice(hs)
        args = self.args(h, d)
        if args is None:
            return None
        self.f('call')
        return '%s(%s)' % (h[0], args)

    def args(self, h, d):
        out = []
        for p in h[2]:
            if p.ty.k in 'sv':
                out.append(self.expr(p.ty, d + 2))
            elif p.ty.k == 't':
                vs = [v for v in self.scope if v.ty is p.ty]
                if not vs:
                    return None
                out.append(self.s.choice(vs).name)
            else:
                vs = [v for v in self.scope if v.ty.k in 'sv' and not v.ro and v.ty.base() == p.ty.elt.base()
                      and v.name not in self.noassign]
                if not vs:
                    return None
                out.append('&' + self.s.choice(vs).name)
        return ', '.join(out)

    def mkhelper(self):
        s = self.s
        name = self.fresh('fn')
        ret = self.scalar_or_vec() if not (self.structs and s.bool(1, 5)) else s.choice(self.structs)
        params = []
        for k in range(s.range(1, 3)):
            r = s.draw(6)
            if r < 4:
                ty = self.scalar_or_vec()
            elif r == 4 and self.structs:
                ty = s.choice(self.structs)
            elif self.o_pointers:
                ty = Ty('p', space='private', elt=self.scalar_or_vec())
            else:
                ty = self.scalar_or_vec()
            params.append(Var(self.fresh('p'), ty))
        save = self.scope, self.budget, self.infunc, self.noassign
        self.scope = list(self.globals) + params
        self.noassign = set()
        self.infunc = True
        self.budget = s.range(1, 6)
        body = self.block(1)
        if ret.k == 't':
            rv = self.fresh('r')
            init = self.vardecl(rv, ret)
            body += init + ['return %s;' % rv]
        else:
            if s.bool(1, 4):
                body.append('if (%s) return %s;' % (self.cond(2), self.expr(ret, 2)))
            body.append('return %s;' % self.expr(ret, 1))
        self.scope, self.budget, self.infunc, self.noassign = save
        attr = s.choice(['', '__attribute__((noinline)) ', '__attribute__((always_inline)) '])
        self.top.append('%s%s %s(%s)\n{\n%s\n}' % (
            attr, ret.base(), name, ', '.join(p.ty.decl(p.name) for p in params), indent(body)))
        self.helpers.append((name, ret, params))
        self.f('helper')

    # ------------------------------------------------------------ statements
    def vardecl(self, name, ty, d=1):
        """Declaration with full initialisation; returns statements."""
        s = self.s
        if ty.k in 'sv':
            if ty.k == 's' and ty.t in FLT:
                pass
            return ['%s = %s;' % (ty.decl(name), self.expr(ty, d))]
        if ty.k == 't':
            cands = [h for h in self.helpers if h[1] is ty] if not self.infunc else []
            if cands and s.bool():
                a = self.args(cands[0], d)
                if a is not None:
                    self.f('struct return')
                    return ['%s = %s(%s);' % (ty.decl(name), cands[0][0], a)]
        out = ['%s;' % ty.decl(name)]
        out += self.initpath(name, ty, d)
        return out

    def initpath(self, text, ty, d):
        if ty.k in 'sv':
            return ['%s = %s;' % (text, self.expr(ty, max(d + 1, self.maxdepth - 1)))]
        if ty.k == 'a':
            if ty.elt.k in 'sv':
                i = self.fresh('i')
                e = self.expr(ty.elt, self.maxdepth - 1)
                if ty.elt.k == 's' and ty.elt.t in INTS:
                    u = 'ulong' if SIZE[ty.elt.t] == 8 else 'uint'
                    e = '(%s)((%s)%s + (%s)%s * %s)' % (ty.elt.t, u, e, u, i, self.lit(u))
                return ['for (int %s = 0; %s < %d; %s++) %s[%s] = %s;' % (i, i, ty.n, i, text, i, e)]
            out = []
            for k in range(ty.n):
                if k == 0:
                    out += self.initpath('%s[0]' % text, ty.elt, d)
                else:
                    if ty.elt.k == 'a':
                        out += self.initpath('%s[%d]' % (text, k), ty.elt, d)
                    else:
                        out.append('%s[%d] = %s[0];' % (text, k, text))
            return out
        out = []
        fs = ty.fields
        if ty.union:
            big = max(fs, key=lambda f: tysize(f[1]))
            fs = [big]
        for n, t in fs:
            out += self.initpath('%s.%s' % (text, n), t, d)
        return out

    def block(self, d):
        mark = len(self.scope)
        out = []
        for _ in range(self.s.range(1, 4)):
            if self.budget <= 0:
                break
            out += self.stmt(d)
        del self.scope[mark:]
        return out

    def assign(self, d):
        s = self.s
        r = self.pick(writable=True)
        if r is None:
            return []
        text, ty, _ = r
        if ty.k == 's':
            if ty.t in INTS and s.bool(1, 3):
                if ty.t in ('uint', 'ulong'):
                    op = s.choice(['+=', '-=', '*=', '&=', '|=', '^='])
                else:
                    op = s.choice(['&=', '|=', '^='])
                return ['%s %s %s;' % (text, op, self.sexpr(ty.t, 1))]
            if ty.t in ('uint', 'ulong', 'uchar', 'ushort', 'char', 'short') and s.bool(1, 6):
                return [s.choice(['%s++;', '%s--;', '++%s;', '--%s;']) % text]
            if ty.t in FLT and s.bool(1, 3):
                return ['%s %s %s;' % (text, s.choice(['+=', '-=', '*=', '/=']), self.sexpr(ty.t, 1))]
            return ['%s = %s;' % (text, self.sexpr(ty.t, 1))]
        k = s.draw(4)
        if k == 0:
            return ['%s = %s;' % (text, self.vexpr(ty.t, ty.n, 1))]
        if k == 1:
            w = s.choice([x for x in (1, 2, 3, 4, 8) if x <= ty.n])
            comps = s.sample(range(ty.n), w)
            self.f('swizzle store')
            return ['%s.s%s = %s;' % (text, ''.join(HEX[c] for c in comps),
                                      self.sexpr(ty.t, 1) if w == 1 else self.vexpr(ty.t, w, 1))]
        if k == 2 and ty.n != 3:
            self.f('vector index')
            return ['%s[%s & %d] = %s;' % (text, self.sexpr('uint', 2), ty.n - 1, self.sexpr(ty.t, 1))]
        op = s.choice('+-*&|^') if ty.t in UNS.values() else (s.choice('+-*') if ty.t in FLT else s.choice('&|^'))
        return ['%s %s= %s;' % (text, op, self.vexpr(ty.t, ty.n, 1))]

    def stmt(self, d):
        s = self.s
        self.budget -= 1
        k = s.draw(20)
        if d >= 4 and k >= 9 and k not in (17, 18):
            k = 4
        if k < 4:
            ty = self.anytype()
            name = self.fresh()
            out = self.vardecl(name, ty)
            self.scope.append(Var(name, ty))
            return out
        if k < 9:
            return self.assign(d)
        if k < 11:
            self.f('if')
            out = ['if (%s)' % self.cond(1), '{'] + ind(self.block(d + 1)) + ['}']
            if s.bool():
                out += ['else', '{'] + ind(self.block(d + 1)) + ['}']
            return out
        if k < 14 and self.iters * 4 <= 256:
            return self.loop(d)
        if k == 14:
            self.f('switch')
            t = self.scalar(True)
            m = s.choice([3, 7, 15])
            out = ['switch (%s & %d)' % (self.sexpr(t, 1), m), '{']
            vals = s.sample(range(m + 1), s.range(1, 4))
            for v in vals:
                out.append('case %d:' % v)
                out.append('{')
                out += ind(self.block(d + 1))
                out.append('}')
                if s.bool(2, 3):
                    out.append('  break;')
            if s.bool():
                out += ['default:', '{'] + ind(self.block(d + 1)) + ['}']
            return out + ['}']
        if k == 15 and self.helpers and not self.infunc:
            h = s.choice(self.helpers)
            a = self.args(h, 1)
            if a is not None:
                self.f('call')
                name = self.fresh()
                self.scope.append(Var(name, h[1]))
                return ['%s = %s(%s);' % (h[1].decl(name), h[0], a)]
            return self.assign(d)
        if k == 16 and self.o_pointers:
            return self.pointer(d)
        if k == 17:
            # whole-aggregate copy
            vs = [v for v in self.scope if v.ty.k in 'tv' and not v.ro and v.name not in self.noassign]
            if vs:
                a = s.choice(vs)
                bs = [v for v in self.scope if v.ty.k == 'v' and v.ty.base() == a.ty.base()] if a.ty.k == 'v' else \
                     [v for v in self.scope if v.ty is a.ty]
                b = s.choice(bs)
                self.f('aggregate copy')
                return ['%s = %s;' % (a.name, b.name)]
        if k == 18 and self.loopdepth and not self.inswitchsafe():
            return self.assign(d)
        return self.assign(d)

    def inswitchsafe(self):
        return True

    def loop(self, d):
        s = self.s
        self.f('loop')
        n = s.range(1, 4)
        i = self.fresh('i')
        self.iters *= n
        self.loopdepth += 1
        mark = len(self.scope)
        kind = s.draw(4)
        if kind == 3:
            # data dependent trip count, bounded
            cnt = '(%s & %d)' % (self.sexpr('uint', 2), 7)
        else:
            cnt = str(n)
        ity = s.choice(['int', 'uint', 'uchar', 'long', 'short'])
        self.scope.append(Var(i, S(ity), ro=True))
        body = self.block(d + 1)
        if s.bool(1, 3):
            body.append('if (%s) %s;' % (self.cond(2), s.choice(['break', 'continue']) if kind in (0, 3) else 'break'))
            body += self.block(d + 1) if self.budget > 0 else []
        del self.scope[mark:]
        self.loopdepth -= 1
        self.iters //= n
        if kind in (0, 3):
            if s.bool():
                return ['for (%s %s = 0; %s < %s; %s++)' % (ity, i, i, '(%s)%s' % (ity, cnt), i), '{'] + ind(body) + ['}']
            return ['for (%s %s = %s; %s > 0; %s--)' % (ity, i, cnt, i, i), '{'] + ind(body) + ['}']
        if kind == 1:
            return ['{', '  %s %s = 0;' % (ity, i), '  while (%s < %s)' % (i, cnt), '  {', '    %s++;' % i] + \
                ind(ind(body)) + ['  }', '}']
        return ['{', '  %s %s = 0;' % (ity, i), '  do', '  {', '    %s++;' % i] + ind(ind(body)) + \
            ['  } while (%s < %s);' % (i, cnt), '}']

    def pointer(self, d):
        """Pointers into private arrays and to variables, with arithmetic."""
        s = self.s
        self.f('pointer')
        vs = [v for v in self.scope if not v.ro and v.name not in self.noassign and v.ty.k in 'svat']
        if not vs:
            return []
        v = s.choice(vs)
        p = self.fresh('q')
        if v.ty.k == 'a' and v.ty.elt.k in 'svt':
            e = v.ty.elt
            n = v.ty.n
            idx = '(%s & %d)' % (self.sexpr('uint', 2), n - 1)
            out = ['private %s *%s = &%s[%s];' % (e.base(), p, v.name, idx)]
            k = s.draw(5)
            if k == 0:
                out = ['private %s *%s = %s + %s;' % (e.base(), p, v.name, idx)]
            elif k == 1:
                out += ['if (%s - %s > %d) %s -= 1;' % (p, v.name, s.draw(n), p)]
            elif k == 2:
                out += ['if (%s != %s + %d) %s++;' % (p, v.name, n - 1, p)]
            elif k == 3:
                w = self.fresh('q')
                out += ['private %s *%s = &%s[%d];' % (e.base(), w, v.name, s.draw(n)),
                        '%s = %s ? %s : %s;' % (p, self.cond(2), p, w)]
                if s.bool():
                    out += ['%s = (%s < %s) ? %s : %s;' % (p, p, w, w, p)]
            self.scope.append(Var(p, Ty('p', space='private', elt=e)))
            return out
        if v.ty.k == 't' and not v.ty.union:
            n, t = s.choice(v.ty.fields)
            if t.k in 'sv' and not self.packed(v.ty):
                self.scope.append(Var(p, Ty('p', space='private', elt=t)))
                return ['private %s *%s = &%s.%s;' % (t.base(), p, v.name, n)]
        if v.ty.k in 'svt':
            self.scope.append(Var(p, Ty('p', space='private', elt=v.ty)))
            return ['private %s *%s = &%s;' % (v.ty.base(), p, v.name)]
        return []

    def packed(self, ty):
        return any(l.startswith('typedef struct __attribute__((packed))') and l.endswith(' %s;' % ty.name)
                   for l in self.top)

    # ------------------------------------------------------------ output
    def dump(self, text, ty, out):
        """Statements storing every scalar reachable through text."""
        if ty.k == 's':
            if ty.t == 'float':
                out.append('o[n++] = CANONF(%s);' % text)
            elif ty.t == 'double':
                out.append('o[n++] = CANOND(%s);' % text)
            else:
                out.append('o[n++] = (ulong)%s;' % text)
        elif ty.k == 'v':
            for c in range(ty.n):
                self.dump('%s.s%s' % (text, HEX[c]), S(ty.t), out)
        elif ty.k == 'a':
            i = self.fresh('i')
            sub = []
            self.dump('%s[%s]' % (text, i), ty.elt, sub)
            out.append('for (int %s = 0; %s < %d; %s++) {' % (i, i, ty.n, i))
            out += ind(sub)
            out.append('}')
        elif ty.k == 't':
            fs = ty.fields
            if ty.union:
                fs = [max(fs, key=lambda f: tysize(f[1]))]
            for n, t in fs:
                self.dump('%s.%s' % (text, n), t, out)
        elif ty.k == 'p':
            self.dump('(*%s)' % text, ty.elt, out)

    def program(self, nin=4):
        """Returns (source, output slots, dict of features).  Kernel k(global ulong *o,
        global const ulong *in): o has `slots` elements and in has nin elements per work-item."""
        s = self.s
        self.globals = []
        if self.o_structs:
            for _ in range(s.draw(3)):
                self.mkstruct()
        if self.o_consts:
            for _ in range(s.draw(3)):
                t = self.scalar_or_vec()
                n = s.choice([2, 4, 8])
                name = self.fresh('C')
                if t.k == 's':
                    vals = ', '.join(self.lit(t.t, True) for _ in range(n))
                else:
                    vals = ', '.join('(%s)(%s)' % (t.base(), ', '.join(self.lit(t.t, True) for _ in range(t.n)))
                                     for _ in range(n))
                self.top.append('constant %s = { %s };' % (t.decl('%s[%d]' % (name, n)), vals))
                self.globals.append(Var(name, Ty('a', elt=t, n=n), ro=True))
                self.f('constant array')
        if self.o_funcs:
            for _ in range(s.draw(3)):
                self.mkhelper()
        self.scope = list(self.globals)
        body = []
        for k in range(nin):
            t = self.scalar_or_vec() if k else S('ulong')
            name = self.fresh('in')
            src = 'in[%d]' % k
            if t.k == 's':
                e = {'float': 'as_float((uint)%s)' % src, 'double': 'as_double(%s)' % src}.get(t.t, '(%s)%s' % (t.t, src))
                if t.t in FLT and s.bool(2, 3):
                    e = '((%s)(int)(%s & 0xffff) / 16%s)' % (t.t, src, '.0f' if t.t == 'float' else '.0')
                body.append('%s %s = %s;' % (t.t, name, e))
            else:
                es = []
                for c in range(t.n):
                    x = '(%s >> %d)' % (src, (c * 5) % 48)
                    es.append({'float': '(float)(short)%s' % x, 'double': '(double)(int)%s' % x}.get(t.t, '(%s)%s' % (t.t, x)))
                body.append('%s %s = (%s)(%s);' % (t.base(), name, t.base(), ', '.join(es)))
            self.scope.append(Var(name, t))
        base = len(self.scope)
        while self.budget > 0:
            body += self.stmt(1)
        out = []
        for v in self.scope:
            if not v.ro:
                self.dump(v.name, v.ty, out)
        slots = sum(count(v.ty) for v in self.scope if not v.ro)
        src = '#pragma OPENCL FP_CONTRACT OFF\n'
        src += '#define CANONF(x) ((x) != (x) ? 0x7fc00000ul : (ulong)as_uint(x))\n'
        src += '#define CANOND(x) ((x) != (x) ? 0x7ff8000000000000ul : as_ulong(x))\n'
        src += '\n'.join(self.top) + '\n'
        src += 'void body(global ulong *o, global const ulong *in)\n{\n  int n = 0;\n%s\n}\n' % indent(body + out)
        return src, slots, self.feat


def count(ty):
    if ty.k == 's':
        return 1
    if ty.k == 'v':
        return ty.n
    if ty.k == 'a':
        return ty.n * count(ty.elt)
    if ty.k == 'p':
        return count(ty.elt)
    if ty.union:
        return count(max(ty.fields, key=lambda f: tysize(f[1]))[1])
    return sum(count(t) for _, t in ty.fields)


def tysize(ty):
    if ty.k == 's':
        return SIZE[ty.t]
    if ty.k == 'v':
        return SIZE[ty.t] * (4 if ty.n == 3 else ty.n)
    if ty.k == 'a':
        return ty.n * tysize(ty.elt)
    return sum(tysize(t) for _, t in ty.fields)


def ind(lines):
    return ['  ' + l for l in lines]


def indent(lines):
    return '\n'.join('  ' + l for l in lines)
