"""C08: barriers, local memory and async copies, against a lock-step model."""
import random
import struct
from math import prod
import clrt
from pbt import Check, Fail

M32 = 0xffffffff
# async element types: name, element size in bytes (3-component vectors occupy 4)
ATYPES = [('uint', 4), ('uchar', 1), ('ushort', 2), ('int', 4), ('float', 4), ('ulong', 8), ('uint2', 8), ('uchar4', 4),
          ('float4', 16), ('short8', 16), ('char16', 16), ('double2', 16), ('int3', 16), ('uchar3', 4), ('long', 8)]


class Prog:
    """A random kernel together with its model."""

    def __init__(self, s, nmax, std2):
        self.s = s
        self.nmax = nmax
        self.std2 = std2
        self.arrs = []
        for i in range(s.weighted([(2, 1), (3, 2), (3, 3), (1, 5)])):
            kind = s.choice(['arg', 'var', 'global'])
            self.arrs.append((kind, 'A%d' % i, nmax + s.draw(9)))
        self.nreg = s.range(1, 3)
        self.state = {}
        self.uid = 0
        self.helpers = []
        self.feat = set()
        self.body = self.block(s.range(3, 12), 0)

    # ---- expressions over own registers, local id and group id
    def expr(self, d=0):
        s = self.s
        k = s.draw(7 if d < 3 else 4)
        if k == 0:
            return ('c', s.weighted([(3, s.draw(16)), (1, s.draw(1 << 32))]))
        if k in (1, 2):
            return ('r', s.draw(self.nreg))
        if k == 3:
            return (s.choice(['l', 'l', 'g']),)
        return (s.choice('+-*^'), self.expr(d + 1), self.expr(d + 1))

    def uni(self):
        """A group-uniform small value."""
        s = self.s
        return s.choice([('c', s.draw(5)), ('&', ('g',), ('c', 3)), ('&', ('a',), ('c', 3)),
                         ('&', ('+', ('g',), ('a',)), ('c', 1))])

    # ---- hazards
    def barrier(self, kinds):
        for n, (kind, name, _) in enumerate(self.arrs):
            if ('g' if kind == 'global' else 'l') in kinds:
                self.state[n] = None
        return ('B', kinds)

    def kindof(self, n):
        return 'g' if self.arrs[n][0] == 'global' else 'l'

    def need(self, n, write, c, out):
        """Inserts a barrier when the access conflicts with earlier ones."""
        st = self.state.get(n)
        if st is not None:
            wr, cs = st
            if (write and cs != {c}) or (not write and wr and cs != {c}):
                k = self.kindof(n)
                out.append(self.barrier(self.s.choice([k, 'lg'])))
        st = self.state.get(n)
        wr, cs = st if st else (False, set())
        self.state[n] = (wr or write, cs | {c})

    def block(self, n, depth):
        s = self.s
        out = []
        for _ in range(n):
            k = s.weighted([(5, 'W'), (6, 'R'), (2, 'E'), (2, 'B'), (2 if depth < 3 else 0, 'L'),
                            (2 if depth < 3 else 0, 'I'), (3, 'A')])
            a = s.draw(len(self.arrs))
            if k == 'W':
                c = s.draw(self.nmax + 1)
                self.need(a, True, c, out)
                out.append(('W', a, c, self.expr()))
            elif k == 'R':
                c = s.draw(self.nmax + 1)
                self.need(a, False, c, out)
                out.append(('R', s.draw(self.nreg), a, c, s.choice('+^-*')))
            elif k == 'E':
                out.append(('E', s.draw(self.nreg), self.expr()))
            elif k == 'B':
                out.append(self.barrier(s.choice(['l', 'g', 'lg', 'lg'])))
            elif k == 'L':
                self.feat.add('loop')
                u = self.uni()
                out.append(self.barrier('lg'))
                b = self.block(s.range(1, 4), depth + 1)
                b.append(self.barrier('lg'))
                out.append(('L', s.draw(3), u, b))
            elif k == 'I':
                self.feat.add('if')
                u = self.uni()
                out.append(self.barrier('lg'))
                x = self.block(s.range(1, 3), depth + 1)
                x.append(self.barrier('lg'))
                y = []
                if s.bool():
                    y = self.block(s.range(1, 3), depth + 1)
                    y.append(self.barrier('lg'))
                out.append(('I', u, x, y))
            elif k == 'A':
                self.feat.add('async')
                self.async_(out)
        return out

    def async_(self, out):
        s = self.s
        # the copies touch distinct parts of the arrays, so they do not conflict
        loc = [i for i, x in enumerate(self.arrs) if x[0] != 'global']
        if not loc:
            return
        copies = []
        gbase = 0
        for a in s.sample(loc, s.range(1, len(loc))):
            nseg = s.weighted([(5, 1), (2, 2), (1, 3)])
            total = self.arrs[a][2] * 4
            cuts = [0] + sorted(s.draw(total + 1) for _ in range(nseg - 1)) + [total]
            for lo, hi in zip(cuts, cuts[1:]):
                t, sz = s.choice(ATYPES)
                first = -(-lo // sz)
                cap = hi // sz - first
                if cap <= 0:
                    continue
                to_local = s.bool(3, 4)
                strided = s.bool(1, 3)
                num = s.range(0 if s.bool(1, 6) else 1, min(cap, 24))
                off = first + s.draw(cap - num + 1)
                stride = s.weighted([(8, s.choice([1, 2, 3, 5])), (1, s.range(6, 300))]) if strided else 1
                goff = s.draw(4)
                if not to_local:
                    # nor do they in the destination
                    goff += -(-gbase // sz)
                    gbase = (goff + num * stride) * sz
                copies.append((a, t, sz, to_local, strided, num, off, stride, goff, self.uniq()))
        if not copies:
            return
        copies = s.shuffle(copies)
        if len(copies) > 3:
            self.feat.add('4+ copies')
        out.append(self.barrier('lg'))
        out.append(('A', copies, s.draw(3), s.seed()))
        out.append(self.barrier('lg'))

    def uniq(self):
        self.uid += 1
        return self.uid

    # ---- OpenCL text
    def ex(self, e):
        if e[0] == 'c':
            return '0x%xu' % e[1]
        if e[0] == 'r':
            return 'r%d' % e[1]
        if e[0] == 'l':
            return 'l'
        if e[0] == 'g':
            return 'g'
        if e[0] == 'a':
            return 'arg'
        return '(%s %s %s)' % (self.ex(e[1]), e[0], self.ex(e[2]))

    def fence(self, k):
        f = ' | '.join({'l': 'CLK_LOCAL_MEM_FENCE', 'g': 'CLK_GLOBAL_MEM_FENCE'}[x] for x in k)
        fn = 'barrier'
        if self.std2 and self.uniq() % 2:
            fn = 'work_group_barrier'
        if self.uniq() % 5 == 0:
            h = 'hb%d' % self.uniq()
            self.helpers.append('void %s(void) { %s(%s); }' % (h, fn, f))
            return '%s();' % h
        return '%s(%s);' % (fn, f)

    def text(self, b, ind):
        o = []
        p = '  ' * ind
        for st in b:
            if st[0] == 'W':
                o.append(p + '%s[(l + %du) %% n] = %s;' % (self.arrs[st[1]][1], st[2], self.ex(st[3])))
            elif st[0] == 'R':
                o.append(p + 'r%d = r%d %s %s[(l + %du) %% n];' % (st[1], st[1], st[4], self.arrs[st[2]][1], st[3]))
            elif st[0] == 'E':
                o.append(p + 'r%d = %s;' % (st[1], self.ex(st[2])))
            elif st[0] == 'B':
                o.append(p + self.fence(st[1]))
            elif st[0] == 'L':
                v = 'i%d' % self.uniq()
                if st[1] == 0:
                    o.append(p + 'for (uint %s = 0; %s < %s; %s++)' % (v, v, self.ex(st[2]), v))
                    o += [p + '{'] + self.text(st[3], ind + 1) + [p + '}']
                elif st[1] == 1:
                    o.append(p + 'uint %s = %s;' % (v, self.ex(st[2])))
                    o += [p + 'while (%s-- > 0)' % v, p + '{'] + self.text(st[3], ind + 1) + [p + '}']
                else:
                    o.append(p + 'uint %s = %s;' % (v, self.ex(st[2])))
                    o += [p + 'if (%s) do' % v, p + '{'] + self.text(st[3], ind + 1) + [p + '} while (--%s > 0);' % v]
            elif st[0] == 'I':
                o += [p + 'if (%s)' % self.ex(st[1]), p + '{'] + self.text(st[2], ind + 1) + [p + '}']
                if st[3]:
                    o += [p + 'else', p + '{'] + self.text(st[3], ind + 1) + [p + '}']
            elif st[0] == 'A':
                evs = []
                for (a, t, sz, tl, strided, num, off, stride, goff, u) in st[1]:
                    L = '(local %s *)%s + %d' % (t, self.arrs[a][1], off)
                    if tl:
                        G = '(global const %s *)src + %d' % (t, goff)
                    else:
                        G = '(global %s *)(dst + g * DST) + %d' % (t, goff)
                    d, sr = (L, G) if tl else (G, L)
                    ev = 'e%d' % u
                    # one event for all, or one each
                    if st[2] == 2 and evs:
                        prev, dec, ev = evs[0], '%s = ', evs[0]
                    else:
                        prev, dec = '0', 'event_t %s = '
                        evs.append(ev)
                    dec = dec % ev
                    if strided:
                        o.append(p + dec + 'async_work_group_strided_copy(%s, %s, %d, %d, %s);' % (d, sr, num, stride, prev))
                    else:
                        o.append(p + dec + 'async_work_group_copy(%s, %s, %d, %s);' % (d, sr, num, prev))
                random.Random(st[3]).shuffle(evs)
                if st[2] == 1:
                    o.append(p + 'event_t ev%d[%d] = {%s};' % (u, len(evs), ', '.join(evs)))
                    o.append(p + 'wait_group_events(%d, ev%d);' % (len(evs), u))
                else:
                    for e in evs:
                        o.append(p + 'wait_group_events(1, &%s);' % e)
        return o

    def source(self, dstwords):
        body = self.text(self.body, 1)
        args = ['global uint *out', 'global const uint *src', 'global uint *dst', 'uint arg']
        pre = []
        for kind, name, m in self.arrs:
            if kind == 'arg':
                args.append('local uint *%s' % name)
            elif kind == 'var':
                pre.append('local uint %s[%d] __attribute__((aligned(16)));' % (name, m))
            else:
                args.append('global uint *%s_' % name)
                pre.append('global uint *%s = %s_ + g * %d;' % (name, name, m))
        nout = self.nreg
        src = '\n'.join(['#define DST %d' % dstwords] + self.helpers) + '\n'
        src += 'kernel void k(%s)\n{\n' % ', '.join(args)
        src += '  uint n = get_local_size(0) * get_local_size(1) * get_local_size(2);\n'
        src += '  uint l = (get_local_id(2) * get_local_size(1) + get_local_id(1)) * get_local_size(0) + get_local_id(0);\n'
        src += '  uint g = (get_group_id(2) * get_num_groups(1) + get_group_id(1)) * get_num_groups(0) + get_group_id(0);\n'
        src += ''.join('  %s\n' % x for x in pre)
        src += '  uint %s;\n' % ', '.join('r%d = l * %du + g' % (i, 3 + i) for i in range(self.nreg))
        for kind, name, m in self.arrs:
            src += '  for (uint j = l; j < %d; j += n) %s[j] = j * 7 + g;\n' % (m, name)
        src += '  barrier(CLK_LOCAL_MEM_FENCE | CLK_GLOBAL_MEM_FENCE);\n'
        src += '\n'.join(body) + '\n'
        src += '  barrier(CLK_LOCAL_MEM_FENCE | CLK_GLOBAL_MEM_FENCE);\n'
        tot = sum(m for k, _, m in self.arrs) + self.nmax * nout
        src += '  global uint *o = out + g * %d;\n' % tot
        base = 0
        for i in range(self.nreg):
            src += '  o[%d + l] = r%d;\n' % (base, i)
            base += self.nmax
        for kind, name, m in self.arrs:
            src += '  for (uint j = l; j < %d; j += n) o[%d + j] = %s[j];\n' % (m, base, name)
            base += m
        src += '}\n'
        return src, tot

    # ---- model of one group
    def run(self, n, g, arg, src, dstwords):
        self.n, self.g, self.arg = n, g, arg
        self.src = src
        self.R = [[(l * (3 + i) + g) & M32 for l in range(n)] for i in range(self.nreg)]
        self.A = [bytearray(struct.pack('<%dI' % m, *[(j * 7 + g) & M32 for j in range(m)])) for _, _, m in self.arrs]
        self.dst = bytearray(b'\xdd' * (dstwords * 4))
        self.steps = 0
        self.exec(self.body)
        out = bytearray(b'\xee' * 4 * (self.nmax * self.nreg))
        for i in range(self.nreg):
            struct.pack_into('<%dI' % n, out, i * self.nmax * 4, *self.R[i])
        for a in self.A:
            out += a
        return bytes(out), bytes(self.dst)

    def ev(self, e, l):
        k = e[0]
        if k == 'c':
            return e[1]
        if k == 'r':
            return self.R[e[1]][l]
        if k == 'l':
            return l
        if k == 'g':
            return self.g
        if k == 'a':
            return self.arg
        x, y = self.ev(e[1], l), self.ev(e[2], l)
        return {'+': x + y, '-': x - y, '*': x * y, '^': x ^ y, '&': x & y}[k] & M32

    def get(self, a, j):
        return struct.unpack_from('<I', self.A[a], j * 4)[0]

    def exec(self, b):
        for st in b:
            self.steps += 1
            if self.steps > 3000:
                raise Fail('model runs too long', 'internal')
            if st[0] == 'W':
                v = [self.ev(st[3], l) for l in range(self.n)]
                for l in range(self.n):
                    struct.pack_into('<I', self.A[st[1]], ((l + st[2]) % self.n) * 4, v[l])
            elif st[0] == 'R':
                for l in range(self.n):
                    x, y = self.R[st[1]][l], self.get(st[2], (l + st[3]) % self.n)
                    self.R[st[1]][l] = {'+': x + y, '-': x - y, '*': x * y, '^': x ^ y}[st[4]] & M32
            elif st[0] == 'E':
                v = [self.ev(st[2], l) for l in range(self.n)]
                self.R[st[1]] = v
            elif st[0] == 'L':
                for _ in range(self.ev(st[2], 0)):
                    self.exec(st[3])
            elif st[0] == 'I':
                self.exec(st[2] if self.ev(st[1], 0) else st[3])
            elif st[0] == 'A':
                for (a, t, sz, tl, strided, num, off, stride, goff, u) in st[1]:
                    for j in range(num):
                        if tl:
                            p = (goff + j * stride) * sz
                            self.A[a][(off + j) * sz:(off + j + 1) * sz] = self.src[p:p + sz]
                        else:
                            p = (goff + j * stride) * sz
                            self.dst[p:p + sz] = self.A[a][(off + j) * sz:(off + j + 1) * sz]


class C08(Check):
    id = 'C08'
    quick = 5000
    thorough = 100000
    rule = ('a case is one generated kernel over one NDRange; non-trivial when a group has at least two work-items and '
            'the kernel exchanges data through memory after a barrier or copies asynchronously; distinct by source and shape')
    assumptions = ['work-groups of at most 128 work-items; the generated kernels are free of data races']

    def init(self):
        clrt.load(self.b + '/liboclgrind-rt.so')

    def case(self, s):
        std2 = s.bool(1, 3)
        dims = s.range(1, 3)
        big = s.bool(1, 12)
        L, left = [], 128 if big else 32
        for d in range(dims):
            x = min(left, s.weighted([(2, 1), (3, 2), (3, 3), (2, 4), (2, 5), (2, 8), (1, 16)] if not big else [(1, 4), (1, 16), (1, s.range(33, 128))]))
            L.append(x)
            left //= x
        N = [s.range(1, 3 if not big else 2) for _ in range(dims)]
        G = [a * b for a, b in zip(L, N)]
        if std2 and s.bool():
            d = s.draw(dims)
            G[d] = max(1, G[d] - s.draw(L[d]))
        N = [-(-G[d] // L[d]) for d in range(dims)]
        n = prod(L)
        p = Prog(s, n, std2)
        dstw = max([0] + [(goff + num * stride + 1) * sz for st in flat(p.body) if st[0] == 'A'
                          for (a, t, sz, tl, strided, num, off, stride, goff, u) in st[1]])
        dstw = (dstw + 63) // 64 * 16 + 16
        src, tot = p.source(dstw)
        opts = s.choice(['', '-cl-opt-disable', '-O2', '-O3'])
        if std2:
            opts += ' -cl-std=CL2.0'
        env = {'NUM_THREADS': s.weighted([(2, 1), (2, 2), (1, 3), (1, 8)])}
        plug = s.weighted([(4, ''), (1, 'DATA_RACES')])
        if plug:
            env[plug] = True
        arg = s.draw(8)
        r = random.Random(s.seed())
        sb = bytes(r.randrange(256) for _ in range(dstw * 4))
        s.desc = 'opts=%r env=%r global=%s local=%s arg=%d\n%s' % (opts, env, G, L, arg, src)
        for f in p.feat:
            s.cls(f)
        ng = prod(N)
        stm = [st[0] for st in flat(p.body)]
        if n > 1 and ('A' in stm or ('R' in stm and 'B' in stm)):
            s.nontrivial((src, tuple(G), tuple(L)))
        want, wdst = [], []
        for z in range(N[2] if dims > 2 else 1):
            for y in range(N[1] if dims > 1 else 1):
                for x in range(N[0]):
                    q = (x, y, z)
                    ln = prod(min(L[d], G[d] - q[d] * L[d]) for d in range(dims))
                    o, d = p.run(ln, len(want), arg, sb, dstw)
                    want.append(o)
                    wdst.append(d)
        clrt.setenv(**env)
        with clrt.Capture() as cap:
            with clrt.Ctx() as c:
                k = c.kernel(c.program(src, opts), 'k')
                out = c.buffer(tot * 4 * ng, b'\xee' * (tot * 4 * ng))
                bs = c.buffer(len(sb), sb, 4)
                bd = c.buffer(dstw * 4 * ng, b'\xdd' * (dstw * 4 * ng))
                a = [('m', out), ('m', bs), ('m', bd), ('b', struct.pack('<I', arg))]
                for kind, name, m in p.arrs:
                    if kind == 'arg':
                        a.append(('l', m * 4))
                    elif kind == 'global':
                        a.append(('m', c.buffer(m * 4 * ng)))
                c.setargs(k, a)
                c.ndrange(k, G, L)
                got = c.read(out, tot * 4 * ng)
                gd = c.read(bd, dstw * 4 * ng)
        if cap.stdout or cap.stderr:
            raise Fail('unexpected output:\n%s%s' % (cap.stdout[:1500], cap.stderr[:1500]), 'output')
        for g in range(ng):
            x = got[g * tot * 4:(g + 1) * tot * 4]
            if x != want[g]:
                j = next(j for j in range(tot) if x[j * 4:j * 4 + 4] != want[g][j * 4:j * 4 + 4])
                raise Fail('group %d: output word %d is %08x, expected %08x' % (
                    g, j, struct.unpack_from('<I', x, j * 4)[0], struct.unpack_from('<I', want[g], j * 4)[0]), 'value')
            x = gd[g * dstw * 4:(g + 1) * dstw * 4]
            if x != wdst[g]:
                j = next(j for j in range(dstw * 4) if x[j] != wdst[g][j])
                raise Fail('group %d: byte %d written by async copies is %02x, expected %02x' % (g, j, x[j], wdst[g][j]),
                           'async dst')


def flat(b):
    for st in b:
        yield st
        if st[0] == 'L':
            yield from flat(st[3])
        elif st[0] == 'I':
            yield from flat(st[2])
            yield from flat(st[3])


CHECK = C08()
