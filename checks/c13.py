"""C13: use of uninitialized memory is reported exactly when it matters."""
import re
import ctypes as C
import clrt
from pbt import Check, Fail

INTS = ['char', 'uchar', 'short', 'ushort', 'int', 'uint', 'long', 'ulong']
FLTS = ['float', 'double']
SIZE = {'char': 1, 'uchar': 1, 'short': 2, 'ushort': 2, 'int': 4, 'uint': 4, 'long': 8, 'ulong': 8, 'float': 4,
        'double': 8, 'half': 2}
MSG = re.compile(r'(Uninitialized value written to (\w+) memory|Controlflow depends on uninitialized value|'
                 r'Uninitialized address used to (read from|write to) (\w+) memory|'
                 r'Instruction depends on an uninitialized index value)')
LINE = re.compile(r'At line (\d+) ')


def tn(et, w):
    return et if w == 1 else '%s%d' % (et, w)


class Var:
    def __init__(self, name, et, w, D):
        self.name, self.et, self.w, self.D = name, et, w, D


class Arr:
    """R rows of one slot per work-item; D[t][r][c] for work-item t's slot."""
    pass


class C13(Check):
    id = 'C13'
    case_timeout = 30.0
    quick = 24000
    thorough = 120000
    rule = ('a case is one kernel over private, local and global objects of which the definedness of every component in '
            'every work-item is tracked by a model; non-trivial when an undefined value is computed with and a sink '
            '(store, branch, address, index, atomic) is executed; distinct by source')
    assumptions = ['copying whole structures with undefined members is not a use',
                   'passing an undefined value to an ordinary built-in is a use, and its result is then defined',
                   'storing an undefined value to local memory is a use, through any kind of store',
                   'missing reports are only judged with the optimiser off, which may fold undefined values to any constant',
                   'with the optimiser on only scalars are stored (known finding opt-component)',
                   'bits are undefined independently: masking or shifting them out makes the result defined']

    def init(self):
        clrt.load(self.b + '/liboclgrind-rt.so')

    # ------------------------------------------------------------- helpers
    def full(self, w, v):
        return [[v] * w for _ in range(self.TOT)]

    def isclean(self, D):
        return all(all(D[t]) for t in self.act)

    def lit(self, et, w):
        v = str(self.s.draw(100)) + ('.5f' if et == 'float' else '.5' if et == 'double' else '')
        return '(%s)(%s)' % (tn(et, w), v) if w > 1 else '(%s)%s' % (et, v)

    def newvar(self, et, w, D):
        self.uid += 1
        v = Var('v%d' % self.uid, et, w, D)
        self.vars.append(v)
        return v

    def line(self, t, kinds=()):
        """Emit one line; kinds: list of (kind, per-work-item condition)."""
        self.lines.append(t)
        n = len(self.lines)
        for k, c in kinds:
            if any(c[t] for t in self.act):
                self.must.setdefault(n, set()).add(k)
        return n

    def pick(self, et, w, clean):
        c = [v for v in self.vars if v.et == et and v.w == w and not (clean and not self.isclean(v.D))]
        return self.s.choice(c) if c else None

    def dirty(self, D):
        return [not all(d) for d in D]

    # An expression of the given type: (text, D)
    def expr(self, et, w, clean, d=0):
        s = self.s
        full = self.full
        k = s.weighted([(6, 'var'), (1, 'lit'), (4 if d < 3 else 0, 'bin'), (1 if d < 3 else 0, 'un'),
                        (2 if d < 2 else 0, 'cond'), (2 if d < 2 else 0, 'swz'), (1 if d < 2 else 0, 'cast'),
                        (1 if d < 2 else 0, 'mask'), (1 if d < 2 else 0, 'cmp'), (1 if d < 2 else 0, 'call'),
                        (2 if d < 2 and w > 1 else 0, 'build'), (1 if d < 2 else 0, 'as'),
                        (2 if d < 2 and w > 1 else 0, 'vcond'), (1 if d < 2 else 0, 'shuffle')])
        if k == 'var':
            v = self.pick(et, w, clean)
            if v:
                return v.name, [list(x) for x in v.D]
            k = 'lit'
        if k == 'bin':
            a, A = self.expr(et, w, clean, d + 1)
            b, B = self.expr(et, w, clean, d + 1)
            if w > 1 and s.bool(1, 6):
                b, B1 = self.expr(et, 1, clean, d + 1)
                b = '(%s)(%s)' % (tn(et, w), b)
                B = [x * w for x in B1]
            op = s.choice(['+', '-', '*', '^'] if et in INTS else ['+', '-', '*'])
            return '(%s)(%s %s %s)' % (tn(et, w), a, op, b) if w == 1 else '(%s %s %s)' % (a, op, b), \
                [[p and q for p, q in zip(x, y)] for x, y in zip(A, B)]
        if k == 'un':
            a, A = self.expr(et, w, clean, d + 1)
            return ('(%s)(%s%s)' % (et, s.choice('-~' if et in INTS else '-'), a) if w == 1 else '(-%s)' % a), A
        if k == 'cond':
            n = s.draw(self.W)
            a, A = self.expr(et, w, clean, d + 1)
            b, B = self.expr(et, w, clean, d + 1)
            return '(lid == %d ? %s : %s)' % (n, a, b), [A[t] if t % self.W == n else B[t] for t in range(self.TOT)]
        if k == 'swz':
            w2 = s.choice([x for x in (2, 3, 4, 8, 16)])
            v = self.pick(et, w2, clean)
            if v:
                idx = [s.draw(w2) for _ in range(w)]
                return '%s.s%s' % (v.name, ''.join('%x' % i for i in idx)), [[x[i] for i in idx] for x in v.D]
            k = 'lit'
        if k == 'cast' and w == 1:
            e2 = s.choice(INTS[2:] + FLTS)
            if e2 in FLTS and et in INTS:
                # out of range, the compiler may fold this to an undefined value
                v = None if self.optd else self.pick(e2, 1, clean)
                return ('(%s)(%s)' % (et, v.name), [list(x) for x in v.D]) if v else (self.lit(et, w), full(w, True))
            a, A = self.expr(e2, 1, clean, d + 1)
            return '(%s)(%s)' % (et, a), A
        if k == 'mask' and et in INTS:
            a, A = self.expr(et, w, clean and s.bool(), d + 1)
            m = '(%s)%s' % (tn(et, w), s.choice(['0', '-1']))
            if s.bool():
                op = '&' if m.endswith(')0') else '|'
                r = '(%s)(%s %s %s)' % (et, a, op, m) if w == 1 else '(%s %s %s)' % (a, op, m)
                return r, full(w, True)
            if clean and not self.isclean(A):
                return self.lit(et, w), full(w, True)
            op = '|' if m.endswith(')0') else '&'
            r = '(%s)(%s %s %s)' % (et, a, op, m) if w == 1 else '(%s %s %s)' % (a, op, m)
            return r, A
        if k == 'cmp' and et == 'int' and w == 1:
            e2 = s.choice(INTS + FLTS)
            a, A = self.expr(e2, 1, clean, d + 1)
            b, B = self.expr(e2, 1, clean, d + 1)
            return '(%s %s %s)' % (a, s.choice(['<', '==', '>=']), b), [[x[0] and y[0]] for x, y in zip(A, B)]
        if k == 'call':
            a, A = self.expr(et, w, clean, d + 1)
            b, B = self.expr(et, w, clean, d + 1)
            f = s.choice(['fst', 'snd', 'add'])
            self.helpers.add((f, et, w))
            R = A if f == 'fst' else B if f == 'snd' else [[p and q for p, q in zip(x, y)] for x, y in zip(A, B)]
            if clean and not self.isclean(R):
                return self.lit(et, w), full(w, True)
            return '%s_%s(%s, %s)' % (f, tn(et, w), a, b), R
        if k == 'build':
            parts = []
            D = [[] for _ in range(self.TOT)]
            left = w
            while left:
                p = s.choice([x for x in (1, 2, 3, 4, 8) if x <= left])
                a, A = self.expr(et, p, clean, d + 2)
                parts.append(a)
                D = [x + y for x, y in zip(D, A)]
                left -= p
            return '(%s)(%s)' % (tn(et, w), ', '.join(parts)), D
        if k == 'as' and w != 3:
            c = [(e, SIZE[et] * w // SIZE[e]) for e in INTS + FLTS
                 if SIZE[et] * w % SIZE[e] == 0 and SIZE[et] * w // SIZE[e] in (1, 2, 4, 8, 16)]
            e2, w2 = s.choice(c)
            v = self.pick(e2, w2, clean)
            if v:
                D = []
                for x in v.D:
                    by = [q for q in x for _ in range(SIZE[e2])]
                    D.append([all(by[i * SIZE[et]:(i + 1) * SIZE[et]]) for i in range(w)])
                # half a component undefined: leave that to the byte-wise chunk
                if SIZE[e2] <= SIZE[et] and any(not all(x) for x in v.D) and e2 != et:
                    pass
                else:
                    return 'as_%s(%s)' % (tn(et, w), v.name), D
        if k == 'vcond' and et in ('int', 'float', 'uint') and w > 1:
            a, A = self.expr(et, w, clean, d + 1)
            b, B = self.expr(et, w, clean, d + 1)
            m = [s.bool() for _ in range(w)]
            mt = ', '.join('-1' if x else '0' for x in m)
            f = s.bool()
            return ('select(%s, %s, (int%d)(%s))' % (b, a, w, mt) if f else '((int%d)(%s) ? %s : %s)' % (w, mt, a, b)), \
                [[p if c else q for c, p, q in zip(m, x, y)] for x, y in zip(A, B)]
        if k == 'shuffle' and w in (2, 4, 8, 16):
            w2 = s.choice([2, 4, 8, 16])
            a = self.pick(et, w2, clean)
            b = self.pick(et, w2, clean)
            if a and b:
                two = s.bool()
                n = w2 * (2 if two else 1)
                m = [s.draw(n) for _ in range(w)]
                mt = {1: 'uchar', 2: 'ushort', 4: 'uint', 8: 'ulong'}[SIZE[et]]
                hi = s.draw(2) * 32
                D = [[(x + y)[i] for i in m] for x, y in zip(a.D, b.D)]
                return 'shuffle%s(%s%s, (%s%d)(%s))' % ('2' if two else '', a.name, ', ' + b.name if two else '', mt, w,
                                                        ', '.join(str(i + hi) for i in m)), D
        return self.lit(et, w), full(w, True)

    def ty(self, wide=True):
        s = self.s
        return s.choice(self.types) if wide else (s.choice(self.types)[0], 1)

    # ------------------------------------------------------------ statements
    def guardstmt(self):
        s = self.s
        if self.guard is None and self.W > 1 and s.bool(1, 4):
            return s.draw(self.W)
        return None

    def assign(self):
        """One data-flow statement."""
        s = self.s
        k = s.weighted([(3, 'decl'), (4, 'set'), (2, 'comp'), (2, 'guarded'), (2, 'arrw'), (2, 'arrr'), (2, 'struct'),
                        (1, 'outp'), (1, 'pack'), (2, 'two'), (1, 'loop'), (1, 'ret'), (1, 'half'), (1, 'any'), (1, 'copyarr'), (1, 'swap'), (2, 'shuf'), (1, 'selu')])
        et, w = self.ty()
        if k == 'decl':
            m = s.draw(3)
            if m == 0:
                v = self.newvar(et, w, self.full(w, False))
                self.line('%s %s;' % (tn(et, w), v.name))
                return
            e, D = self.expr(et, w, m == 1)
            v = self.newvar(et, w, D)
            self.line('%s %s = %s;' % (tn(et, w), v.name, e))
        elif k == 'set':
            v = s.choice(self.vars)
            e, D = self.expr(v.et, v.w, s.bool())
            self.line('%s = %s;' % (v.name, e))
            v.D = D
        elif k == 'comp':
            vs = [v for v in self.vars if v.w > 1]
            if vs:
                v = s.choice(vs)
                idx = s.sample(range(v.w), s.choice([x for x in (1, 1, 2, 3, 4) if x <= v.w]))
                e, D = self.expr(v.et, len(idx), s.bool())
                self.line('%s.s%s = %s;' % (v.name, ''.join('%x' % i for i in idx), e))
                for t in range(self.TOT):
                    x = list(v.D[t])
                    for j, i in enumerate(idx):
                        x[i] = D[t][j]
                    v.D[t] = x
        elif k == 'guarded':
            v = s.choice(self.vars)
            n = s.draw(self.W)
            old = [list(x) for x in v.D]
            act = self.act
            self.act = [t for t in act if t % self.W == n]
            e, D = self.expr(v.et, v.w, s.bool())
            self.line('if (lid == %d) %s = %s;' % (n, v.name, e))
            self.act = act
            v.D = [D[t] if t % self.W == n else old[t] for t in range(self.TOT)]
        elif k in ('arrw', 'arrr'):
            a = [x for x in self.arrs if x.space == 'private']
            if not a:
                return
            a = s.choice(a)
            r = s.draw(a.R)
            ix = str(r) if s.bool() else '(one + %d)' % (r - 1) if r else 'one - 1'
            if k == 'arrw':
                e, D = self.expr(a.et, a.w, s.bool())
                self.line('%s[%s] = %s;' % (a.name, ix, e))
                for t in range(self.TOT):
                    a.D[t][r] = D[t]
            else:
                v = self.newvar(a.et, a.w, [list(a.D[t][r]) for t in range(self.TOT)])
                self.line('%s %s = %s[%s];' % (tn(a.et, a.w), v.name, a.name, ix))
        elif k == 'struct':
            # struct with mixed members, copied, passed and returned by value
            self.uid += 1
            u = self.uid
            ms = [self.ty() for _ in range(s.range(1, 3))]
            arr = s.bool()
            self.structs.append('struct S%d { %s%s };' % (u, ' '.join('%s m%d;' % (tn(*m), i) for i, m in enumerate(ms)),
                                                         ' int r[3];' if arr else ''))
            self.line('struct S%d s%d;' % (u, u))
            Ds = []
            for i, m in enumerate(ms):
                if s.bool(2, 3):
                    e, D = self.expr(m[0], m[1], s.bool())
                    self.line('s%d.m%d = %s;' % (u, i, e))
                else:
                    D = self.full(m[1], False)
                Ds.append(D)
            f = s.draw(6)
            nm = 's%d' % u
            if f == 1:
                self.line('struct S%d c%d = s%d;' % (u, u, u))
                nm = 'c%d' % u
            elif f == 2:
                self.line('struct S%d c%d = pass%d(s%d);' % (u, u, u, u))
                self.funcs.append('struct S%d pass%d(struct S%d x) { return x; }' % (u, u, u))
                nm = 'c%d' % u
            elif f == 3:
                i = s.draw(len(ms))
                e, D = self.expr(ms[i][0], ms[i][1], True)
                self.funcs.append('void fill%d(private struct S%d *x, %s y) { x->m%d = y; }' % (u, u, tn(*ms[i]), i))
                self.line('fill%d(&s%d, %s);' % (u, u, e))
                Ds[i] = D
            elif f == 4:
                i = s.draw(len(ms))
                self.funcs.append('%s get%d(struct S%d x) { x.m0 = x.m0; return x.m%d; }' % (tn(*ms[i]), u, u, i))
                v = self.newvar(ms[i][0], ms[i][1], [list(x) for x in Ds[i]])
                self.line('%s %s = get%d(s%d);' % (tn(*ms[i]), v.name, u, u))
            elif f == 5:
                self.line('struct S%d q%d[2]; q%d[one] = s%d;' % (u, u, u, u))
                nm = 'q%d[1]' % u
            if arr:
                e, D = self.expr('int', 1, s.bool())
                self.line('%s.r[one] = %s;' % (nm, e))
                j = s.draw(3)
                v = self.newvar('int', 1, D if j == 1 else self.full(1, False))
                self.line('int %s = %s.r[%d];' % (v.name, nm, j))
            i = s.draw(len(ms))
            v = self.newvar(ms[i][0], ms[i][1], [list(x) for x in Ds[i]])
            self.line('%s %s = %s.m%d;' % (tn(*ms[i]), v.name, nm, i))
        elif k == 'outp':
            v = s.choice(self.vars)
            e, D = self.expr(v.et, v.w, s.bool())
            self.helpers.add(('put', v.et, v.w))
            self.line('put_%s(&%s, %s);' % (tn(v.et, v.w), v.name, e))
            v.D = D
        elif k == 'pack':
            # several small integers in one word: every byte keeps its own state
            e1, D1 = self.expr('uint', 1, s.bool())
            e2, D2 = self.expr('uint', 1, False)
            self.uid += 1
            u = self.uid
            o = s.choice(['|', '^', '+'])
            self.line('ulong p%d = ((ulong)(%s) << 32) %s (ulong)(%s);' % (u, e1, '|', e2))
            v = self.newvar('uint', 1, D1)
            self.line('uint %s = (uint)(p%d >> 32);' % (v.name, u))
            v = self.newvar('uint', 1, D2)
            self.line('uint %s = (uint)%s;' % (v.name, s.choice(['p%d' % u, '(p%d & 0xffffffffUL)' % u])))
            v = self.newvar('uint', 1, D1)
            self.line('uint %s = (uint)((p%d & 0xffff00000000UL) >> 40);' % (v.name, u))
            v = self.newvar('uchar', 1, D2)
            self.line('uchar %s = (uchar)(p%d >> 20);' % (v.name, u))
        elif k == 'two':
            self.two('private')
        elif k == 'loop':
            a = [x for x in self.arrs if x.space == 'private' and x.w == 1]
            v = [x for x in self.vars if x.w == 1]
            if a:
                a = s.choice(a)
                n = s.range(0, a.R)
                e, D = self.expr(a.et, 1, s.bool())
                self.line('for (int i = 0; i < %d; i++) %s[i] = %s;' % (n, a.name, e))
                for t in range(self.TOT):
                    for r in range(n):
                        a.D[t][r] = list(D[t])
                self.uid += 1
                n = s.range(0, a.R)
                v = self.newvar(a.et, 1, [[all(a.D[t][r][0] for r in range(n))] for t in range(self.TOT)])
                self.line('%s %s = 0; for (int i = 0; i < %d; i++) %s += %s[i];' % (a.et, v.name, n, v.name, a.name))
        elif k == 'ret':
            # values swapped around a loop
            a, b = self.pick(et, w, False), self.pick(et, w, False)
            if a and b and a is not b:
                n = s.range(0, 5)
                self.line('for (int i = 0; i < %d * one; i++) { %s tmp = %s; %s = %s; %s = tmp; }' % (
                    n, tn(et, w), a.name, a.name, b.name, b.name))
                if n & 1:
                    a.D, b.D = b.D, a.D
        elif k == 'half':
            if 'float' in [t[0] for t in self.types]:
                w = s.choice([1, 2, 4, 8])
                a = [x for x in self.arrs if x.space == 'private' and x.et in ('short', 'ushort') and x.w == 1 and x.R >= w]
                if a:
                    a = s.choice(a)
                    o = s.draw(a.R // w)
                    v = self.newvar('float', w, [[a.D[t][o * w + i][0] for i in range(w)] for t in range(self.TOT)])
                    self.line('%s %s = vload_half%s(%d, (private half *)%s);' % (tn('float', w), v.name, w if w > 1 else '', o, a.name))
        elif k == 'any':
            # any and all of a vector: what decides the answer must be defined
            vs = [v for v in self.vars if v.w > 1 and v.et in ('int', 'short', 'char', 'long')]
            if vs:
                v = s.choice(vs)
                f = s.choice(['any', 'all'])
                if f == 'all' or all(all(x) or not any(x) for x in v.D):
                    if f == 'any':
                        r = self.newvar('int', 1, [[all(x)] for x in v.D])
                        self.line('int %s = any(%s);' % (r.name, v.name))
                    elif self.isclean(v.D):
                        r = self.newvar('int', 1, self.full(1, True))
                        self.line('int %s = all(%s);' % (r.name, v.name))
        elif k == 'copyarr':
            a = [x for x in self.arrs if x.space == 'private' and x.w == 1]
            if a:
                a = s.choice(a)
                ww = s.choice([x for x in (2, 3, 4, 8) if x <= a.R] or [0])
                if ww:
                    if s.bool():
                        o = s.range(0, a.R - ww)
                        v = self.newvar(a.et, ww, [[a.D[t][o + i][0] for i in range(ww)] for t in range(self.TOT)])
                        self.line('%s %s = vload%d(0, %s + %d);' % (tn(a.et, ww), v.name, ww, a.name, o))
                    else:
                        o = s.range(0, a.R // ww - 1)
                        e, D = self.expr(a.et, ww, s.bool())
                        self.line('vstore%d(%s, %d, %s);' % (ww, e, o, a.name))
                        for t in range(self.TOT):
                            for i in range(ww):
                                a.D[t][o * ww + i] = [D[t][i]]
        elif k == 'shuf' and not self.optd:
            # vectors defined in part, and a permutation of them
            et = s.choice(INTS + FLTS)
            n, m = s.choice([2, 4, 8, 16]), s.choice([2, 4, 8, 16])
            vs = []
            for _ in range(s.range(1, 2)):
                v = self.newvar(et, n, self.full(n, False))
                idx = s.subset(range(n)) or [0]
                idx = idx if len(idx) in (1, 2, 4, 8, 16) else idx[:1]
                self.line('%s %s; %s.s%s = %s;' % (tn(et, n), v.name, v.name, ''.join('%x' % i for i in idx), self.lit(et, len(idx))))
                for t in range(self.TOT):
                    v.D[t] = [i in idx for i in range(n)]
                vs.append(v)
            if s.bool():
                vs.reverse()
            N = n * len(vs)
            ix = [s.draw(N) for _ in range(m)]
            mt = {1: 'uchar', 2: 'ushort', 4: 'uint', 8: 'ulong'}[SIZE[et]]
            r = self.newvar(et, m, [[(vs[0].D[t] + vs[-1].D[t])[i] for i in ix] for t in range(self.TOT)])
            self.line('%s %s = shuffle%s(%s, (%s%d)(%s));' % (tn(et, m), r.name, '2' if len(vs) == 2 else '',
                                                            ', '.join(v.name for v in vs), mt, m, ', '.join(map(str, ix))))
            self.probe(r)
        elif k == 'selu' and not self.optd:
            # selection by a vector of which components are undefined
            it = s.choice(['char', 'short', 'int', 'long'])
            et = s.choice([t for t in INTS + FLTS if SIZE[t] == SIZE[it]])
            n = s.choice([2, 3, 4, 8])
            c = self.newvar(it, n, self.full(n, False))
            i = s.draw(n)
            self.line('%s %s; %s.s%x = %s;' % (tn(it, n), c.name, c.name, i, self.lit(it, 1)))
            for t in range(self.TOT):
                c.D[t] = [j == i for j in range(n)]
            a, A = self.expr(et, n, True)
            r = self.newvar(et, n, [list(x) for x in c.D])
            self.line('%s %s = select(%s, %s, %s);' % (tn(et, n), r.name, a, self.lit(et, n), c.name))
            self.probe(r)
        elif k == 'swap':
            # address of a variable, and reinterpretation of its bytes
            vs = [v for v in self.vars if v.w in (2, 4, 8)]
            if vs:
                v = s.choice(vs)
                i = s.draw(v.w)
                j = s.draw(SIZE[v.et])
                r = self.newvar('uchar', 1, [[x[i]] for x in v.D])
                self.line('uchar %s = ((private uchar *)&%s)[%d];' % (r.name, v.name, i * SIZE[v.et] + j))

    def two(self, space):
        """Built-ins with a second result behind a pointer."""
        s = self.s
        f = s.choice(['fract', 'modf', 'sincos', 'frexp', 'lgamma_r', 'remquo'])
        fl = [t for t in self.types if t[0] in FLTS]
        if not fl:
            return False
        et, w = s.choice(fl)
        if f == 'remquo' and w == 3:
            pass
        it = 'int' if f in ('frexp', 'lgamma_r', 'remquo') else et
        clean = space != 'private' and not self.p_dirty or s.bool(1, 3)
        a, A = self.expr(et, w, clean)
        D = A
        args = a
        if f == 'remquo':
            b, B = self.expr(et, w, clean)
            args += ', ' + b
            D = [[p and q for p, q in zip(x, y)] for x, y in zip(A, B)]
        r = self.newvar(et, w, [list(x) for x in D])
        if space == 'private':
            p = self.newvar(it, w, [list(x) for x in D])
            self.line('%s %s; %s %s = %s(%s, &%s);' % (tn(it, w), p.name, tn(et, w), r.name, f, args, p.name))
        else:
            ar = [x for x in self.arrs if x.space == space and x.et == it and x.w == w and not x.ro]
            if not ar:
                self.vars.remove(r)
                return False
            ar = s.choice(ar)
            row = s.draw(ar.R)
            self.line('%s %s = %s(%s, &%s[%s]);' % (tn(et, w), r.name, f, args, ar.name, self.slot(ar, row)),
                      [('W:' + space, self.dirty(D))])
            for t in range(self.TOT):
                ar.D[t][row] = list(D[t])
        return True

    def slot(self, a, row):
        if a.space == 'private':
            return str(row)
        return '%d + %s' % (row * (self.W if a.space == 'local' else self.TOT), 'lid' if a.space == 'local' else 'gid')

    def nslot(self, a, row):
        if a.space == 'local':
            return '%d + (lid + 1) %% %d' % (row * self.W, self.W)
        return '%d + grp * %d + (lid + 1) %% %d' % (row * self.TOT, self.W, self.W)

    def neigh(self, t):
        return t - t % self.W + (t % self.W + 1) % self.W

    def probe(self, v):
        """Branch on one component."""
        s = self.s
        i = s.draw(v.w)
        bad = [not v.D[t][i] for t in range(self.TOT)]
        if not any(bad) or s.bool(self.p_dirty, 100):
            self.line('if (%s.s%x == 3) dummy++;' % (v.name, i), [('cf', bad)])

    def sink(self):
        s = self.s
        clean = not s.bool(self.p_dirty, 100)
        mem = [a for a in self.arrs if a.space != 'private']
        wr = [a for a in mem if not a.ro ]
        k = s.weighted([(6 if wr else 0, 'store'), (3 if mem else 0, 'load'), (2 if mem else 0, 'nload'), (3, 'if'), (1, 'switch'),
                        (2, 'addr'), (1, 'idx'), (2, 'fn'), (2, 'atomic'), (2 if wr else 0, 'vstore'),
                        (1 if mem else 0, 'vload'), (2, 'async'), (2, 'two'), (1, 'gstruct'), (1, 'and'), (1, 'incall'), (1, 'while')])
        kinds = []
        if k == 'store':
            a = s.choice(wr)
            row = s.draw(a.R)
            e, D = self.expr(a.et, a.w, clean)
            self.line('%s[%s] = %s;' % (a.name, self.slot(a, row), e), [('W:' + a.space, self.dirty(D))])
            for t in range(self.TOT):
                a.D[t][row] = list(D[t])
        elif k == 'load':
            a = s.choice(mem)
            row = s.draw(a.R)
            v = self.newvar(a.et, a.w, [list(a.D[t][row]) for t in range(self.TOT)])
            self.line('%s %s = %s[%s];' % (tn(a.et, a.w), v.name, a.name, self.slot(a, row)))
        elif k == 'nload':
            a = s.choice(mem)
            row = s.draw(a.R)
            v = self.newvar(a.et, a.w, [list(a.D[self.neigh(t)][row]) for t in range(self.TOT)])
            self.line('barrier(CLK_LOCAL_MEM_FENCE | CLK_GLOBAL_MEM_FENCE);')
            self.line('%s %s = %s[%s];' % (tn(a.et, a.w), v.name, a.name, self.nslot(a, row)))
            self.line('barrier(CLK_LOCAL_MEM_FENCE | CLK_GLOBAL_MEM_FENCE);')
        elif k in ('if', 'switch', 'while'):
            et = s.choice([t[0] for t in self.types if k == 'if' or t[0] in INTS] or ['int'])
            e, D = self.expr(et, 1, clean)
            if k == 'if':
                self.line('if (%s) dummy += 2;' % e, [('cf', self.dirty(D))])
            elif k == 'while':
                self.line('for (int i = 0; i < ((int)(%s) & 3); i++) dummy += i;' % e, [('cf', self.dirty(D))])
            else:
                self.line('switch (%s) { case 1: dummy++; break; case 5: dummy += 3; break; default: dummy += 7; }' % e,
                          [('cf', self.dirty(D))])
        elif k == 'and':
            e, D = self.expr('int', 1, False)
            c = s.choice(['one != 1 && %s', 'one == 1 || %s'])
            self.line('if (%s) dummy++;' % (c % e))
        elif k == 'addr':
            # other groups may be anywhere in the kernel
            a = [x for x in self.arrs if all(all(c for c in r) for t in x.D for r in t) and (x.space != 'global' or self.G == 1)]
            et = s.choice([t[0] for t in self.types if t[0] in INTS] or ['int'])
            if a:
                a = s.choice(a)
                e, D = self.expr(et, 1, clean)
                n = a.R if a.space == 'private' else a.R * (self.W if a.space == 'local' else self.TOT)
                m = 1
                while m * 2 <= n:
                    m *= 2
                if s.bool() or a.ro or a.space != 'private':
                    if a.space != 'private':
                        self.line('barrier(CLK_LOCAL_MEM_FENCE | CLK_GLOBAL_MEM_FENCE);')
                    v = self.newvar(a.et, a.w, self.full(a.w, True))
                    if m == 1:
                        D = self.full(1, True)
                    self.line('%s %s = %s[(int)(%s) & %d];' % (tn(a.et, a.w), v.name, a.name, e, m - 1),
                              [('AR:' + a.space, self.dirty(D))])
                    if a.space != 'private':
                        self.line('barrier(CLK_LOCAL_MEM_FENCE | CLK_GLOBAL_MEM_FENCE);')
                else:
                    if m == 1:
                        D = self.full(1, True)
                    self.line('%s[(int)(%s) & %d] = %s;' % (a.name, e, m - 1, self.lit(a.et, a.w)),
                              [('AW:' + a.space, self.dirty(D))])
        elif k == 'idx':
            vs = [v for v in self.vars if v.w in (2, 4, 8, 16) and all(all(x) for x in v.D)]
            if vs:
                v = s.choice(vs)
                e, D = self.expr('int', 1, clean)
                rd = s.bool()
                if rd:
                    r = self.newvar(v.et, 1, self.full(1, True))
                    self.line('%s %s = %s[%s & %d];' % (v.et, r.name, v.name, e, v.w - 1), [('idx', self.dirty(D))])
                else:
                    self.line('%s[%s & %d] = %s;' % (v.name, e, v.w - 1, self.lit(v.et, 1)), [('AW:private', self.dirty(D))])
        elif k == 'fn':
            et, w = self.ty()
            e, D = self.expr(et, w, clean)
            v = self.newvar(et, w, self.full(w, True))
            g = s.draw(4)
            if g == 0 and et in INTS:
                x = 'rotate((%s)(%s), (%s)3)' % (tn(et, w), e, tn(et, w))
            elif g == 1:
                x = 'min((%s)(%s), (%s)3)' % (tn(et, w), e, tn(et, w))
            elif et in INTS:
                x = 'hadd((%s)(%s), (%s)(%s))' % (tn(et, w), e, tn(et, w), e)
            else:
                x = 'fmod((%s)(%s), (%s)3)' % (tn(et, w), e, tn(et, w))
            self.line('%s %s = %s;' % (tn(et, w), v.name, x), [('cf', self.dirty(D))])
        elif k == 'atomic':
            a = [x for x in wr if x.et in ('int', 'uint', 'long', 'ulong') and x.w == 1]
            if a:
                a = s.choice(a)
                row = s.draw(a.R)
                op = s.choice(['add', 'sub', 'or', 'xor', 'min', 'max', 'xchg', 'inc', 'dec', 'cmpxchg', 'and'])
                pre = 'atom' if SIZE[a.et] == 8 else s.choice(['atomic', 'atomic', 'atom'])
                ptr = '&%s[%s]' % (a.name, self.slot(a, row))
                old = [list(a.D[t][row]) for t in range(self.TOT)]
                if clean and op != 'xchg' and not self.isclean(old):
                    op = 'xchg'
                D = self.full(1, True)
                args = ''
                if op not in ('inc', 'dec'):
                    e, D = self.expr(a.et, 1, clean)
                    args = ', ' + e
                if op == 'cmpxchg':
                    e2, D2 = self.expr(a.et, 1, True)
                    args = args + ', ' + e2
                    new = old
                    bad = [not (D[t][0] and old[t][0]) for t in range(self.TOT)]
                    if any(bad[t] and not (self.isclean(old)) for t in self.act):
                        return      # what is stored then depends on undefined values
                    kinds = [('cf', bad)]
                    new = self.full(1, True)
                elif op == 'xchg':
                    new = D
                    kinds = [('W:' + a.space, self.dirty(D))]
                else:
                    new = [[D[t][0] and old[t][0]] for t in range(self.TOT)]
                    kinds = [('W:' + a.space, self.dirty(new))]
                r = self.newvar(a.et, 1, old)
                self.line('%s %s = %s_%s(%s%s);' % (a.et, r.name, pre, op, ptr, args), kinds)
                for t in range(self.TOT):
                    a.D[t][row] = list(new[t])
        elif k == 'vstore':
            # each work-item has R consecutive elements of its own
            a = [x for x in self.blocks if not x.ro]
            if a:
                a = s.choice(a)
                hf = a.et in ('ushort',) and s.bool(1, 2) and 'float' in [t[0] for t in self.types]
                ww = s.choice([x for x in ((1, 2, 3, 4, 8) if hf else (2, 3, 4, 8)) if x <= a.R] or [0])
                if not ww:
                    return
                o = s.range(0, a.R // ww - 1)
                base = '%s + %s * %d' % (a.name, 'lid' if a.space == 'local' else 'gid', a.R)
                if hf:
                    fe = s.choice([t[0] for t in self.types if t[0] in FLTS])
                    e, D = self.expr(fe, ww, clean)
                    sp = 'private' if a.space == 'private' else a.space
                    self.line('vstore_half%s%s(%s, %d, (%s half *)(%s));' % (
                        ww if ww > 1 else '', s.choice(['', '_rte', '_rtz']), e, o, sp, base), [('W:' + a.space, self.dirty(D))])
                else:
                    e, D = self.expr(a.et, ww, clean)
                    self.line('vstore%d(%s, %d, %s);' % (ww, e, o, base), [('W:' + a.space, self.dirty(D))])
                for t in range(self.TOT):
                    for i in range(ww):
                        a.D[t][o * ww + i] = [D[t][i]]
        elif k == 'vload':
            a = self.blocks
            if a:
                a = s.choice(a)
                hf = a.et in ('ushort',) and s.bool(1, 2) and 'float' in [t[0] for t in self.types]
                ww = s.choice([x for x in ((1, 2, 3, 4, 8) if hf else (2, 3, 4, 8)) if x <= a.R] or [0])
                if not ww:
                    return
                o = s.range(0, a.R // ww - 1)
                base = '%s + %s * %d' % (a.name, 'lid' if a.space == 'local' else 'gid', a.R)
                D = [[a.D[t][o * ww + i][0] for i in range(ww)] for t in range(self.TOT)]
                if hf:
                    v = self.newvar('float', ww, D)
                    self.line('%s %s = vload_half%s(%d, (%s half *)(%s));' % (
                        tn('float', ww), v.name, ww if ww > 1 else '', o, a.space, base))
                else:
                    v = self.newvar(a.et, ww, D)
                    self.line('%s %s = vload%d(%d, %s);' % (tn(a.et, ww), v.name, ww, o, base))
        elif k == 'async':
            g = [x for x in mem if x.space == 'global']
            l = [x for x in mem if x.space == 'local']
            p = [(x, y) for x in l for y in g if (x.et, x.w) == (y.et, y.w)]
            if p:
                L, G = s.choice(p)
                lr, gr = s.draw(L.R), s.draw(G.R)
                tol = G.ro or s.bool()
                st = s.choice([0, 1, 2]) if True else 0
                if st == 2 and self.W < 2:
                    st = 1
                # rows are contiguous within the group; stride 2 takes every other slot of the global row
                n = (self.W + 1) // 2 if st == 2 else self.W
                srcD, dstD = (G.D, L.D) if tol else (L.D, G.D)
                sr, dr = (gr, lr) if tol else (lr, gr)
                pairs = []      # (source slot, destination slot) within the group
                for i in range(n):
                    gi, li = (2 * i if st == 2 else i), i
                    pairs.append((gi, li) if tol else (li, gi))
                bad = [False] * self.TOT
                for gp in range(self.TOT // self.W):
                    for a, b in pairs:
                        if not all(srcD[gp * self.W + a][sr]):
                            for t in range(self.W):
                                bad[gp * self.W + t] = True
                if any(bad) and clean:
                    return
                gp_ = '%s + %d + grp * %d' % (G.name, gr * self.TOT, self.W)
                lp_ = '%s + %d' % (L.name, lr * self.W)
                self.uid += 1
                self.line('barrier(CLK_LOCAL_MEM_FENCE | CLK_GLOBAL_MEM_FENCE);')
                self.line('event_t e%d = async_work_group_%scopy(%s, %s, %d%s, 0);' % (
                    self.uid, 'strided_' if st else '', lp_ if tol else gp_, gp_ if tol else lp_, n,
                    ', %d' % max(1, st) if st else ''),
                    [('W:' + ('local' if tol else 'global'), bad)])
                self.line('wait_group_events(1, &e%d);' % self.uid)
                for gp in range(self.TOT // self.W):
                    new = [(b, list(srcD[gp * self.W + a][sr])) for a, b in pairs]
                    for b, d in new:
                        dstD[gp * self.W + b][dr] = d
        elif k == 'two':
            self.two(s.choice(['local', 'global']))
        elif k == 'gstruct':
            # a structure copied through global memory
            self.uid += 1
            u = self.uid
            ms = [self.ty() for _ in range(2)]
            self.structs.append('struct G%d { %s };' % (u, ' '.join('%s m%d;' % (tn(*m), i) for i, m in enumerate(ms))))
            self.params.append(('G', 'global struct G%d *gs%d' % (u, u), 8192))
            self.line('struct G%d g%d;' % (u, u))
            Ds = []
            for i, m in enumerate(ms):
                if s.bool(2, 3):
                    e, D = self.expr(m[0], m[1], s.bool())
                    self.line('g%d.m%d = %s;' % (u, i, e))
                else:
                    D = self.full(m[1], False)
                Ds.append(D)
            if self.optd and not all(self.isclean(D) for D in Ds):
                return      # taken apart into stores of the members
            self.line('gs%d[gid] = g%d;' % (u, u))
            i = s.draw(2)
            v = self.newvar(ms[i][0], ms[i][1], [list(x) for x in Ds[i]])
            self.line('%s %s = gs%d[gid].m%d;' % (tn(*ms[i]), v.name, u, i))
        elif k == 'incall':
            # the sink is inside a called function
            a = [x for x in wr]
            if a:
                a = s.choice(a)
                row = s.draw(a.R)
                e, D = self.expr(a.et, a.w, clean)
                self.uid += 1
                n = 'sink%d' % self.uid
                self.sinks.append((n, 'void %s(%s %s *p, %s v) { *p = v; }' % (n, a.space, tn(a.et, a.w), tn(a.et, a.w)),
                                   'W:' + a.space, any(self.dirty(D)[t] for t in self.act)))
                self.line('%s(&%s[%s], %s);' % (n, a.name, self.slot(a, row), e))
                for t in range(self.TOT):
                    a.D[t][row] = list(D[t])

    # ------------------------------------------------------------------ case
    def case(self, s):
        self.s = s
        self.uid = 0
        self.W = s.weighted([(3, 1), (3, 2), (2, 3), (1, 4)])
        self.G = s.weighted([(2, 1), (1, 2)])
        self.TOT = self.W * self.G
        self.act = list(range(self.TOT))
        self.guard = None
        self.opts = s.weighted([(5, '-cl-opt-disable'), (2, ''), (1, '-O1'), (1, '-cl-fast-relaxed-math')])
        self.optd = self.opts != '-cl-opt-disable'
        self.p_dirty = 0 if self.optd or s.bool(1, 4) else s.choice([10, 30, 60])
        self.types = [(s.choice(INTS + FLTS), s.weighted([(4, 1), (2, 2), (1, 3), (3, 4), (1, 8), (1, 16)]))
                      for _ in range(s.range(1, 4))] + [('int', 1)]
        if self.optd and s.known('opt-component'):
            # so only scalars with the optimiser on
            if any(w > 1 for _, w in self.types):
                s.excluded('opt-component')
            self.types = [(e, 1) for e, w in self.types]
        if s.bool(1, 4):
            self.types += [('ushort', 1), ('float', s.choice([1, 2, 4]) if not self.optd else 1)]
        if s.bool(1, 4):
            self.types += [('int', s.choice([2, 4]) if not self.optd else 1), (s.choice(['long', 'uint']), 1)]
        self.vars, self.arrs, self.blocks = [], [], []
        self.lines, self.must = [], {}
        self.helpers, self.structs, self.funcs, self.sinks, self.params = set(), [], [], [], []
        # objects -------------------------------------------------------
        decl = []
        hostinit = []
        kinit = []
        locs = []
        for i in range(s.range(1, 6)):
            a = Arr()
            a.et, a.w = s.choice(self.types)
            a.space = s.choice(['private', 'local', 'global', 'global'])
            a.R = s.choice([1, 2, 3, 4, 8])
            a.block = a.space != 'private' and a.w == 1 and s.bool(1, 3)   # own consecutive elements instead of rows
            a.ro = False
            a.name = 'a%d' % i
            a.D = [[[False] * a.w for _ in range(a.R)] for _ in range(self.TOT)]
            cnt = a.R * (1 if a.space == 'private' else self.W if a.space == 'local' else self.TOT)
            a.cnt = cnt
            esz = SIZE[a.et] * (4 if a.w == 3 else a.w)
            if a.space == 'private':
                m = s.draw(3)
                if m == 0:
                    decl.append('%s %s[%d];' % (tn(a.et, a.w), a.name, a.R))
                else:
                    # partial initialiser lists zero the rest
                    n = s.range(1, a.R)
                    decl.append('%s %s[%d] = {%s};' % (tn(a.et, a.w), a.name, a.R, ', '.join(self.lit(a.et, a.w) for _ in range(n))))
                    a.D = [[[True] * a.w for _ in range(a.R)] for _ in range(self.TOT)]
            elif a.space == 'local':
                if s.bool():
                    self.params.append(('l', 'local %s *%s' % (tn(a.et, a.w), a.name), cnt * esz))
                else:
                    locs.append('local %s %s[%d];' % (tn(a.et, a.w), a.name, cnt))
            else:
                m = s.choice(['full', 'none', 'part', 'part', 'kern'])
                E = [[False] * a.w for _ in range(cnt)]
                ops = []
                if m == 'full':
                    E = [[True] * a.w for _ in range(cnt)]
                elif m in ('part', 'kern'):
                    for _ in range(s.range(1, 3)):
                        lo = s.range(0, cnt - 1)
                        n = s.range(1, cnt - lo)
                        if m == 'kern':
                            kinit.append((a, lo, n))
                        else:
                            ops.append((s.choice(['write', 'fill', 'map', 'rect', 'copy']), lo * esz, n * esz))
                        for j in range(lo, lo + n):
                            E[j] = [True] * a.w
                for t in range(self.TOT):
                    for r in range(a.R):
                        a.D[t][r] = list(E[t * a.R + r if a.block else r * self.TOT + t])
                self.params.append(('g', 'global %s *%s' % (tn(a.et, a.w), a.name), (cnt * esz, m, ops, a)))
            (self.blocks if a.block else self.arrs).append(a)
        self.line('#LOCALS')
        for d in locs + decl:
            self.line(d)
        self.line('int dummy = 0;')
        for et, w in self.types[:3]:
            for q in range(s.range(1, 2)):
                v = self.newvar(et, w, self.full(w, bool(s.draw(2))))
                self.line('%s %s%s;' % (tn(et, w), v.name, ' = ' + self.lit(et, w) if v.D[0][0] else ''))
        for _ in range(s.range(3, 20)):
            if s.bool(3, 5):
                self.assign()
            else:
                self.sink()
        # assemble -------------------------------------------------------
        head = ['#pragma OPENCL EXTENSION cl_khr_fp64 : enable']
        head += self.structs + self.funcs
        for f, et, w in sorted(self.helpers):
            T = tn(et, w)
            if f == 'put':
                head.append('void put_%s(private %s *p, %s v) { *p = v; }' % (T, T, T))
            else:
                head.append('%s %s_%s(%s a, %s b) { return %s; }' % (T, f, T, T, T, {'fst': 'a', 'snd': 'b', 'add': 'a + b'}[f]))
        must = {}
        for n, t, kind, bad in self.sinks:
            head.append(t)
            if bad:
                must.setdefault(len(head), set()).add(kind)
        for i, (a, lo, n) in enumerate(kinit):
            head.append('kernel void init%d(global %s *p) { for (int i = %d; i < %d; i++) p[i] = (%s)7; }' % (
                i, tn(a.et, a.w), lo, lo + n, tn(a.et, a.w)))
        head.append('kernel void k(%s)' % ', '.join(['int one'] + [p[1] for p in self.params]))
        head.append('{')
        self.lines[0] = 'size_t lid = get_local_id(0), gid = get_global_id(0), grp = get_group_id(0);'
        for l, ks in self.must.items():
            must.setdefault(l + len(head), set()).update(ks)
        src = '\n'.join(head + self.lines + ['}', ''])
        s.desc = 'options "%s", %d groups of %d\n%s\nexpected: %s' % (self.opts, self.G, self.W, src, must)
        s.cls('optimised' if self.optd else 'dirty' if must else 'clean')
        nund = sum(1 for v in self.vars if not all(all(x) for x in v.D))
        if nund and (self.arrs or must):
            s.nontrivial((src, self.opts))
        self.execute(s, src, must, kinit)

    def execute(self, s, src, must, kinit):
        clrt.setenv(UNINITIALIZED=True, NUM_THREADS=s.choice([1, 2]))
        with clrt.Capture() as cap:
            with clrt.Ctx() as c:
                p = c.program(src, self.opts)
                k = c.kernel(p, 'k')
                args = [('b', b'\1\0\0\0')]
                bufs = {}
                for t, _, x in self.params:
                    if t == 'l':
                        args.append(('l', x))
                    elif t == 'G':
                        args.append(('m', c.buffer(x)))
                    else:
                        sz, m, ops, a = x
                        b = c.buffer(sz, bytes(sz) if m == 'full' else None)
                        for op, off, n in ops:
                            self.hostop(c, b, op, off, n, sz)
                        bufs[a.name] = b
                        args.append(('m', b))
                for i, (a, lo, n) in enumerate(kinit):
                    k2 = c.kernel(p, 'init%d' % i)
                    c.setargs(k2, [('m', bufs[a.name])])
                    c.ndrange(k2, [1], [1])
                c.setargs(k, args)
                c.ndrange(k, [self.TOT], [self.W])
        got = {}
        err = cap.stderr
        cur = None
        rest = []
        for l in err.split('\n'):
            m = MSG.search(l)
            if m:
                cur = ('W:' + m.group(2) if m.group(2) else ('AR:' if m.group(3) == 'read from' else 'AW:') + m.group(4)
                       if m.group(3) else 'cf' if 'Controlflow' in l else 'idx')
                continue
            m = LINE.search(l)
            if m and cur:
                got.setdefault(int(m.group(1)), set()).add(cur)
                cur = None
            elif cur and 'Debugging information not available' in l:
                got.setdefault(0, set()).add(cur)
                cur = None
            elif 'ERROR' in l or 'Invalid' in l or 'exceeds' in l:
                rest.append(l)
        if rest:
            raise Fail('unexpected diagnostic: %s\n%s' % (rest[0], err[-1500:]), 'other')
        if got != must:
            ls = src.split('\n')
            d = []
            for n in sorted(set(got) | set(must)):
                if got.get(n) != must.get(n):
                    d.append('line %d `%s`: expected %s, reported %s' % (n, ls[n - 1] if n else '?', sorted(must.get(n, [])), sorted(got.get(n, []))))
            raise Fail('\n'.join(d), 'reports')

    def hostop(self, c, b, op, off, n, sz):
        data = bytes((i * 7 + 1) & 255 for i in range(n))
        if op == 'write':
            c.write(b, data, off)
        elif op == 'fill':
            clrt.call('clEnqueueFillBuffer', c.q, b, C.cast(C.c_char_p(b'\5'), clrt.vp), 1, off, n, 0, None, None)
        elif op == 'map':
            p = clrt.create('clEnqueueMapBuffer', c.q, b, 1, 2, off, n, 0, None, None)
            C.memmove(p, data, n)
            clrt.call('clEnqueueUnmapMemObject', c.q, b, p, 0, None, None)
        elif op == 'rect':
            clrt.call('clEnqueueWriteBufferRect', c.q, b, 1, clrt.szarr([off, 0, 0]), clrt.szarr([0, 0, 0]),
                      clrt.szarr([n, 1, 1]), 0, 0, 0, 0, C.cast(C.c_char_p(data), clrt.vp), 0, None, None)
        else:
            b2 = c.buffer(n, data)
            clrt.call('clEnqueueCopyBuffer', c.q, b2, b, 0, off, n, 0, None, None)
        clrt.call('clFinish', c.q)

    def repro_opt_component(self):
        clrt.setenv(UNINITIALIZED=True)
        with clrt.Capture() as cap:
            with clrt.Ctx() as c:
                k = c.kernel(c.program('''kernel void k(global uchar8 *o) {
  uchar8 v = (uchar8)(2);
  v.s5 = get_global_id(0) == 0 ? (uchar)3 : (uchar)4;
  o[1 + get_global_id(0)] = v; }''', ''), 'k')
                c.setargs(k, [('m', c.buffer(64))])
                c.ndrange(k, [1], [1])
        if MSG.search(cap.stderr):
            raise Fail('a vector with every component defined is reported', 'opt-component')

    known_repros = {'opt-component': repro_opt_component}


CHECK = C13()
