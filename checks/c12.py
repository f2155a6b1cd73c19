"""C12: data races are reported exactly when conflicting accesses are unordered."""
import ctypes as C
import random
import re
import struct
from math import gcd
import clrt
from pbt import Check, Fail, Discard

TY = {'uchar': 1, 'ushort': 2, 'uint': 4, 'ulong': 8, 'uint2': 8, 'uchar4': 4, 'uint4': 16, 'float': 4}
ELT = {'uint2': 'uint', 'uchar4': 'uchar', 'uint4': 'uint'}
RACE = re.compile(r'(Read-write|Write-write) data race at (\w+) memory address 0x([0-9a-f]+)$')
ENT = re.compile(r'(First|Second) entity: +(?:Global\((\d+),(\d+),(\d+)\) Local\((\d+),(\d+),(\d+)\) )?Group\((\d+),(\d+),(\d+)\)$')


class Obj:
    pass


class Gen:
    """A random kernel, as statements the model can execute."""

    def __init__(self, s, W, NG):
        self.s, self.W, self.NG = s, W, NG
        self.objs = []
        n = s.range(1, 3)
        for i in range(n):
            o = Obj()
            o.kind = s.choice(['global', 'global', 'localarg', 'localvar'])
            o.loc = o.kind != 'global'
            o.slot = s.choice([4, 8, 16])
            o.n = o.slot * W * (1 if o.loc else NG) + s.choice([0, 0, 1, 2, 3, 5])
            o.name = '%s%d' % (o.kind[0] if o.kind != 'localvar' else 'v', i)
            o.i = i
            self.objs.append(o)
        self.mode = s.weighted([(4, 'owned'), (5, 'inject'), (2, 'sparse')])
        self.remap()
        self.shared = [s.bool(1, 5) for _ in self.objs]     # only ever loaded, or stored uniformly
        self.bodyn = 0
        self.body = self.block(s.range(2, 8), 0)
        if self.mode == 'inject':
            for _ in range(s.range(1, 2)):
                tgt = [self.body]
                while True:
                    subs = [x[-1] for x in tgt[-1] if x[0] in ('loop', 'async')]
                    if subs and s.bool():
                        tgt.append(s.choice(subs))
                    else:
                        break
                tgt[-1].insert(s.draw(len(tgt[-1]) + 1), self.access(wild=True))

    def remap(self):
        s = self.s
        self.map = []
        for o in self.objs:
            a = s.range(1, self.W)
            while gcd(a, self.W) != 1:
                a -= 1
            self.map.append((max(a, 1), s.draw(self.W)))

    def access(self, wild=False):
        s = self.s
        o = s.choice(self.objs)
        at = s.bool(1, 5)
        ty = 'uint' if at else s.choice([t for t in TY if TY[t] <= o.slot])
        sz = TY[ty]
        op = s.choice(['atomic_add', 'atomic_xchg', 'atomic_inc', 'atomic_min', 'atomic_cmpxchg', 'atomic_sub']) if at else \
            s.choice(['load', 'store', 'store', 'storev', 'storex'])
        val = s.draw(1 << 32) if s.bool(1, 2) else s.draw(3)
        if op == 'storex':
            if ELT.get(ty, ty) == 'float':
                op = 'store'
            else:
                # values that differ in one bit
                val = (val, s.draw(min(32, 8 * TY[ELT.get(ty, ty)])))
        tot = self.W * self.NG
        if wild:
            g = s.choice([('eq', s.draw(tot)), ('eq', s.draw(tot)), ('mod', s.range(1, 3), 0)])
            m = o.n // sz
            off = ('lin', sz, s.choice([s.draw(m), s.draw(m), m - 1]), s.choice([0, 0, 1, s.draw(5)]), m, s.bool())
        elif self.mode == 'sparse':
            g = s.choice([('all',), ('eq', s.draw(tot)), ('mod', s.range(1, 3), s.draw(2)), ('lt', s.draw(tot))])
            m = o.n // sz
            off = ('lin', sz, s.draw(m), s.choice([0, 1, 1, s.draw(5)]), s.range(1, m), s.bool())
        else:
            g = s.choice([('all',), ('all',), ('eq', s.draw(tot)), ('mod', s.range(1, 3), s.draw(2))])
            if self.shared[o.i]:
                k = s.draw(3)
                if k == 0 or self.shared[o.i] is True and s.bool():
                    op, ty = 'load', (ty if not at else 'uint')
                elif k == 1:
                    op, ty, val = 'store', 'uchar', 7
                    sz = 1
                    return ('acc', g, o, op, ty, ('lin', 1, s.draw(o.slot), 0, o.n, False), val, self.uid())
                else:
                    op = 'load'
                sz = TY[ty]
                m = o.n // sz
                return ('acc', g, o, op, ty, ('lin', sz, s.draw(m), s.draw(3), m, s.bool()), val, self.uid())
            a, b = self.map[o.i]
            off = ('own', a, b, sz * s.draw(o.slot // sz))
        return ('acc', g, o, op, ty, off, val, self.uid())

    def uid(self):
        self.bodyn += 1
        return self.bodyn

    def block(self, n, d):
        s = self.s
        out = []
        for _ in range(n):
            k = s.weighted([(8, 'acc'), (3, 'bar'), (1 if d < 2 else 0, 'loop'), (1 if d < 2 else 0, 'async')])
            if k == 'acc':
                out.append(self.access())
            elif k == 'bar':
                f = s.weighted([(3, 'LG'), (1, 'L'), (1, 'G')])
                out.append(('bar', f))
                if f == 'LG':
                    self.remap()
            elif k == 'loop':
                b = self.block(s.range(1, 3), d + 1)
                if s.bool(3, 4):
                    b.append(('bar', s.choice(['LG', 'LG', 'L', 'G'])))
                if s.bool(3, 4):
                    out.append(('bar', 'LG'))
                out.append(('loop', s.range(1, 3), b))
                if s.bool(3, 4):
                    out.append(('bar', 'LG'))
                self.remap()
            else:
                lo = [o for o in self.objs if o.loc]
                gl = [o for o in self.objs if not o.loc]
                if not lo or not gl:
                    continue
                l, g = s.choice(lo), s.choice(gl)
                e = s.choice([1, 4, 8])
                st = s.choice([1, 1, 2, 3])
                mx = min(l.n, g.n // self.NG // st) // e
                if mx < 1:
                    continue
                cnt = s.range(1, mx)
                o1 = s.draw(l.n // e - cnt + 1) * e
                grp = s.bool(3, 4)       # each group its own part of the global buffer
                part = g.n // self.NG // e * e
                o2 = s.draw(part // e - (cnt - 1) * st) * e
                out.append(('bar', 'LG'))
                betw = self.block(s.draw(3), 2) if s.bool(1, 3) else []
                out.append(('async', s.bool(), l, o1, g, o2, part if grp else 0, cnt, e, st, betw))
                out.append(('bar', 'LG'))
                self.remap()
        return out

    # ------------------------------------------------------------ source
    def guard(self, g):
        return {'all': '', 'eq': 'if (lin == %d) ', 'mod': 'if (lin %% %d == %d) ', 'lt': 'if (lin < %d) '}[g[0]] % (
            (g[1],) if g[0] in ('eq', 'lt') else (g[1], g[2] % g[1]) if g[0] == 'mod' else ())

    def off(self, o, off):
        if off[0] == 'own':
            return '((%s(ll * %d + %d) %% %d) * %d + %d)' % ('' if o.loc else 'gl * %d + ' % self.W, off[1], off[2], self.W, o.slot, off[3])
        _, sz, base, st, m, loop = off
        return '(((%d + %d * lin%s) %% %d) * %d)' % (base, st, ' + it' if loop else '', m, sz)

    def src(self, b, ind):
        out = []
        for x in b:
            if x[0] == 'bar':
                out.append('barrier(%s);' % {'L': 'CLK_LOCAL_MEM_FENCE', 'G': 'CLK_GLOBAL_MEM_FENCE',
                                             'LG': 'CLK_LOCAL_MEM_FENCE | CLK_GLOBAL_MEM_FENCE'}[x[1]])
            elif x[0] == 'loop':
                out.append('for (uint j%d = 0; j%d < %d; j%d++) {\n%s\n%s  it = 0; }' % (
                    ind, ind, x[1], ind, '  ' * ind + '  it = j%d;\n' % ind + self.src(x[2], ind + 1), '  ' * ind))
            elif x[0] == 'async':
                _, toloc, l, o1, g, o2, part, cnt, e, st, betw = x
                t = {1: 'uchar', 4: 'uint', 8: 'ulong'}[e]
                lp = '(local %s *)(%s + %d)' % (t, l.name, o1)
                gp = '(global %s *)(%s + %d + gl * %d)' % (t, g.name, o2, part)
                d, sr = (lp, gp) if toloc else (gp, lp)
                if st == 1:
                    c = 'async_work_group_copy(%s, %s, %d, 0)' % (d, sr, cnt)
                else:
                    c = 'async_work_group_strided_copy(%s, %s, %d, %d, 0)' % (d, sr, cnt, st)
                out.append('{ event_t ev = %s;\n%s\n%s  wait_group_events(1, &ev); }' % (c, self.src(betw, ind + 1), '  ' * ind))
            else:
                _, g, o, op, ty, off, val, _ = x
                sp = 'local' if o.loc else 'global'
                p = '(volatile %s %s *)(%s + %s)' % (sp, ty, o.name, self.off(o, off))
                if op == 'load':
                    el = ELT.get(ty, ty)
                    st = '{ %s t_ = *%s; sink = (uint)%s; }' % (ty, p, 't_.x' if ty in ELT else 't_')
                elif op == 'store':
                    st = '*%s = (%s)(%s)%du;' % (p, ty, ELT.get(ty, ty), val)
                elif op == 'storex':
                    st = '*%s = (%s)(%s)(%du ^ ((lin & 1u) << %d));' % (p, ty, ELT.get(ty, ty), val[0], val[1])
                elif op == 'storev':
                    st = '*%s = (%s)(%s)(%du + lin);' % (p, ty, ELT.get(ty, ty), val)
                elif op == 'atomic_cmpxchg':
                    st = '%s(%s, 0u, %du);' % (op, p, val)
                elif op == 'atomic_inc':
                    st = '%s(%s);' % (op, p)
                else:
                    st = '%s(%s, %du);' % (op, p, val)
                out.append(self.guard(g) + st)
        return '\n'.join('  ' * ind + l for l in out)

    # ------------------------------------------------------------ model
    def run(self, gsize, lsize, ngr):
        """-> {(obj, group or None, byte): [access]}, access = (group, wi, interval, kind, atomic, value, optional)"""
        acc = {}
        bn = 0
        gx, gy, gz = gsize

        def add(o, g, byte, rec):
            acc.setdefault((o.i, g if o.loc else None, byte), []).append(rec)

        def val(ty, v):
            e = ELT.get(ty, ty)
            n = TY[ty] // TY[e]
            if e == 'float':
                return struct.pack('<f', float(v))
            return (v & ((1 << (8 * TY[e])) - 1)).to_bytes(TY[e], 'little') * n

        g = 0
        for kz in range(ngr[2]):
            for ky in range(ngr[1]):
                for kx in range(ngr[0]):
                    sz = [min(lsize[d], gsize[d] - k * lsize[d]) for d, k in enumerate((kx, ky, kz))]
                    wis = []
                    for z in range(sz[2]):
                        for y in range(sz[1]):
                            for x in range(sz[0]):
                                lin = (kx * lsize[0] + x) + ((ky * lsize[1] + y) + (kz * lsize[2] + z) * gy) * gx
                                ll = x + (y + z * lsize[1]) * lsize[0]
                                wis.append((lin, ll, (kx * lsize[0] + x, ky * lsize[1] + y, kz * lsize[2] + z)))
                    st = {'L': 0, 'G': 0, 'it': 0}
                    self.exec(self.body, g, wis, st, add, val)
                    g += 1
        return acc

    def exec(self, b, g, wis, st, add, val):
        for x in b:
            if x[0] == 'bar':
                for f in x[1]:
                    st[f] += 1
            elif x[0] == 'loop':
                for i in range(x[1]):
                    st['it'] = i
                    self.exec(x[2], g, wis, st, add, val)
                    st['it'] = 0
            elif x[0] == 'async':
                _, toloc, l, o1, gb, o2, part, cnt, e, stv, betw = x
                self.exec(betw, g, wis, st, add, val)
                lk, gk = ('S', 'L') if toloc else ('L', 'S')
                for i in range(cnt):
                    for j in range(e):
                        # barriers between the call and the wait order nothing for the copy; it
                        # may happen anywhere up to the wait, which is where it is performed
                        add(l, g, o1 + i * e + j, (g, None, st['L'], lk, False, None))
                        add(gb, g, o2 + g * part + i * e * stv + j, (g, None, st['G'], gk, False, None))
                st['L'] += 1
                st['G'] += 1
            else:
                _, gd, o, op, ty, off, v, _ = x
                for (lin, ll, gid) in wis:
                    k = gd[0]
                    if (k == 'eq' and lin != gd[1]) or (k == 'mod' and lin % gd[1] != gd[2] % gd[1]) or (k == 'lt' and lin >= gd[1]):
                        continue
                    if off[0] == 'own':
                        a = ((0 if o.loc else g * self.W) + (ll * off[1] + off[2]) % self.W) * o.slot + off[3]
                    else:
                        _, sz, base, sd, m, loop = off
                        a = ((base + sd * lin + (st['it'] if loop else 0)) % m) * sz
                    iv = st['L' if o.loc else 'G']
                    if op == 'load':
                        for j in range(TY[ty]):
                            add(o, g, a + j, (g, gid, iv, 'L', False, None))
                    elif op in ('store', 'storev', 'storex'):
                        d = val(ty, v if op == 'store' else v[0] ^ (lin & 1) << v[1] if op == 'storex' else v + lin & 0xffffffff)
                        for j in range(TY[ty]):
                            add(o, g, a + j, (g, gid, iv, 'S', False, d[j]))
                    else:
                        for j in range(4):
                            add(o, g, a + j, (g, gid, iv, 'L', True, None))
                            # a failing compare-and-swap stores nothing
                            add(o, g, a + j, (g, gid, iv, 'S', True, None if op == 'atomic_cmpxchg' else 0))


def conflict(a, b, uniform):
    """0 no race, 1 maybe, 2 race -> (kind, certainty)"""
    ga, wa, ia, ka, ta, va = a
    gb, wb, ib, kb, tb, vb = b
    if ga == gb and (wa == wb or ia != ib):
        return None
    if ta and tb:
        return None
    if ka == 'L' and kb == 'L':
        return None
    cert = 2
    for k, t, v in ((ka, ta, va), (kb, tb, vb)):
        if k == 'S' and t and v is None:
            cert = 1          # the compare-and-swap may not have stored
    if ka == 'S' and kb == 'S':
        if not uniform:
            if ta or tb or va is None or vb is None:
                cert = 1      # value not modelled
            elif va == vb:
                return None
        return 'Write-write', cert
    return 'Read-write', cert


class C12(Check):
    id = 'C12'
    quick = 14000
    thorough = 120000
    rule = ('a case is one kernel over up to three global or local objects with barriers, loops, atomics and async copies, '
            'launched up to twice with race detection; non-trivial when at least two entities touch a common object and a '
            'byte has two accesses, one a store; distinct by source and NDRange')
    assumptions = ['whether two work-groups\' async copies of unmodelled contents store equal values is left open',
                   'wait_group_events is always bracketed by barriers, so whether it orders other accesses is left open']

    def init(self):
        clrt.load(self.b + '/liboclgrind-rt.so')

    def case(self, s):
        dim = s.weighted([(3, 1), (2, 2), (1, 3)])
        lsize, gsize = [1, 1, 1], [1, 1, 1]
        rem = s.bool(1, 4)
        for d in range(dim):
            lsize[d] = s.range(1, 4 if dim == 1 else 3 if dim == 2 else 2)
            k = s.range(1, 3 if dim < 3 else 2)
            gsize[d] = lsize[d] * k
            if rem and lsize[d] > 1:
                gsize[d] -= s.draw(lsize[d])
        ngr = [-(-gsize[d] // lsize[d]) for d in range(3)]
        off = [s.choice([0, 0, 1, 5]) if d < dim else 0 for d in range(3)]
        lsize = [min(l, g) for l, g in zip(lsize, gsize)]
        ngr = [-(-gsize[d] // lsize[d]) for d in range(3)]
        W = lsize[0] * lsize[1] * lsize[2]
        NG = ngr[0] * ngr[1] * ngr[2]
        gen = Gen(s, W, NG)
        uniform = s.bool(1, 4)
        opts = s.choice(['', '-cl-opt-disable'])
        if any(g % l for g, l in zip(gsize, lsize)):
            opts += ' -cl-std=CL2.0'
        threads = s.choice([1, 2, 4])
        if opts == '':       # the optimiser may only see volatile accesses here too
            pass
        params = ['global ulong *bases'] + ['global uchar *%s' % o.name for o in gen.objs if o.kind == 'global'] + \
                 ['local uchar *%s' % o.name for o in gen.objs if o.kind == 'localarg']
        decl = ''.join('  local uchar %s[%d] __attribute__((aligned(16)));\n' % (o.name, o.n) for o in gen.objs if o.kind == 'localvar')
        bs = ''.join('bases[%d] = (ulong)%s; ' % (o.i, o.name) for o in gen.objs)
        src = ('kernel void k(%s)\n{\n%s  uint gx = get_global_id(0) - get_global_offset(0), gy = get_global_id(1) - get_global_offset(1), '
               'gz = get_global_id(2) - get_global_offset(2);\n'
               '  uint lin = gx + (gy + gz * get_global_size(1)) * get_global_size(0);\n'
               '  uint ll = get_local_id(0) + (get_local_id(1) + get_local_id(2) * %d) * %d;\n'
               '  uint gl = get_group_id(0) + (get_group_id(1) + get_group_id(2) * get_num_groups(1)) * get_num_groups(0);\n'
               '  uint it = 0;\n  volatile uint sink = 0;\n'
               '  if (lin == 0) { %s}\n%s\n}\n' % (', '.join(params), decl, lsize[1], lsize[0], bs, gen.src(gen.body, 1)))
        acc = gen.run(gsize, lsize, ngr)
        # ---------------------------------------------------------- expectation
        stores = {key: {x[:2] for x in l if x[3] == 'S'} for key, l in acc.items()}
        pairs = {}          # (obj, grp, byte) -> list of (a, b, kind, cert)
        must = {}           # class -> description of one racing pair
        nt = False
        for key, l in acc.items():
            l = list(dict.fromkeys(l))
            if len(l) > 200:
                raise Discard()
            pr = []
            if len({x[:2] for x in l}) > 1 and any(x[3] == 'S' for x in l):
                nt = True
            for i in range(len(l)):
                for j in range(i):
                    c = conflict(l[i], l[j], uniform)
                    if c:
                        pr.append((l[i], l[j], c[0], c[1]))
                        if c[1] == 2:
                            same = l[i][0] == l[j][0]
                            wg = l[i][1] is None or l[j][1] is None
                            cls = ('async' if wg else key[0], ('group', l[i][0]) if same else 'between groups')
                            must.setdefault(cls, '%s of byte %d of %s: %s and %s' % (c[0], key[2], gen.objs[key[0]].name, l[i], l[j]))
            if pr:
                pairs[key] = pr
        s.desc = 'global=%s local=%s offset=%s uniform-writes=%s threads=%d opts=%r mode=%s\n%s' % (
            gsize, lsize, off, uniform, threads, opts, gen.mode, src)
        s.cls('mode ' + gen.mode)
        s.cls('races' if must else 'maybe' if pairs else 'race-free')
        s.cls('%dD' % dim)
        if nt:
            s.nontrivial((s.desc,))
        clrt.setenv(NUM_THREADS=threads, DATA_RACES=True, UNIFORM_WRITES=uniform)
        with clrt.Capture() as cap:
            with clrt.Ctx() as c:
                p = c.program(src, opts)
                k = c.kernel(p, 'k')
                bases = c.buffer(8 * 4, bytes(32))
                args = [('m', bases)] + [('m', c.buffer(o.n, bytes(o.n))) for o in gen.objs if o.kind == 'global'] + \
                       [('l', o.n) for o in gen.objs if o.kind == 'localarg']
                c.setargs(k, args)
                for rep in range(s.range(1, 2)):
                    before = len(cap.peek()[1])
                    c.ndrange(k, gsize[:dim], lsize[:dim], off[:dim] if any(off) else None)
                    log = cap.peek()[1][before:].decode('latin1')
                    b = struct.unpack('<4Q', c.read(bases, 32))
                    self.judge(gen, pairs, stores, dict(must), b, log, gsize, lsize, ngr, off)

    def judge(self, gen, pairs, stores, must, bases, log, gsize, lsize, ngr, off):
        cur = None
        reps = []
        for line in log.split('\n'):
            l = line.strip()
            m = RACE.match(l)
            if m:
                cur = [m.groups(), {}]
                reps.append(cur)
                continue
            m = ENT.match(l)
            if m and cur:
                cur[1][m.group(1)] = m.groups()[1:]
            elif line and not line.startswith('\t'):
                raise Fail('unexpected message %r' % line, 'message')
        for (kind, space, addr), ents in reps:
            addr = int(addr, 16)
            what = '%s race at %s address 0x%x between %s' % (kind, space, addr, ents)
            if len(ents) != 2:
                raise Fail('a race report without two entities: ' + what, 'entity')
            o = [o for o in gen.objs if o.loc == (space == 'local') and bases[o.i] <= addr < bases[o.i] + o.n]
            if not o:
                raise Fail('spurious: %s is in no object (%s)' % (what, [hex(b) for b in bases]), 'spurious')
            o = o[0]
            E = []
            for f in ('First', 'Second'):
                v = ents[f]
                grp = tuple(int(x) for x in v[6:9])
                if not all(x < n for x, n in zip(grp, ngr)):
                    raise Fail('no such group: ' + what, 'entity')
                gl = grp[0] + (grp[1] + grp[2] * ngr[1]) * ngr[0]
                if v[0] is None:
                    E.append((gl, None))
                    continue
                gid = tuple(int(x) - d for x, d in zip(v[0:3], off))
                lid = tuple(int(x) for x in v[3:6])
                if any(g != a * l + b or not 0 <= g < G or b >= l for g, a, l, b, G in zip(gid, grp, lsize, lid, gsize)):
                    raise Fail('inconsistent entity in ' + what, 'entity')
                E.append((gl, gid))
            key = (o.i, E[0][0] if o.loc else None, addr - bases[o.i])
            # one store stands for all those of its group when another value conflicts
            ok = False
            for (a, b, kd, ce) in pairs.get(key, ()):
                if kd == kind and ({a[:2], b[:2]} == set(E) or
                                   kind[0] == 'W' and a[0] != b[0] and {a[0], b[0]} == {E[0][0], E[1][0]} and
                                   {e for e in E} <= stores.get(key, set())):
                    ok = True
            if not ok:
                raise Fail('spurious: %s; racing accesses of byte %d of %s: %s' % (what, key[2], o.name, pairs.get(key)), 'spurious')
            same = E[0][0] == E[1][0]
            scope = ('group', E[0][0]) if same else 'between groups'
            must.pop(('async', scope), None)
            must.pop((o.i, scope), None)
        if must:
            raise Fail('a data race was not reported: %s\nreports: %s' % (must, reps), 'missed')


CHECK = C12()
