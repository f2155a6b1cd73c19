"""C10: atomic built-ins are atomic and return the old value."""
import random
import struct
import clrt
from pbt import Check, Fail

NAMES = ['add', 'sub', 'xchg', 'inc', 'dec', 'cmpxchg', 'min', 'max', 'and', 'or', 'xor']


def apply(op, bits, signed, old, v, cmp):
    m = (1 << bits) - 1
    sg = lambda x: x - (1 << bits) if signed and x >> (bits - 1) else x
    if op == 'add':
        return (old + v) & m
    if op == 'sub':
        return (old - v) & m
    if op == 'xchg':
        return v
    if op == 'inc':
        return (old + 1) & m
    if op == 'dec':
        return (old - 1) & m
    if op == 'cmpxchg':
        return v if old == cmp else old
    if op == 'min':
        return old if sg(old) < sg(v) else v
    if op == 'max':
        return old if sg(old) > sg(v) else v
    if op == 'and':
        return old & v
    if op == 'or':
        return old | v
    return old ^ v


class C10(Check):
    id = 'C10'
    quick = 8000
    thorough = 60000
    rule = ('a case is one kernel in which all work-items apply generated atomics to shared cells; non-trivial when some '
            'cell is the target of at least two work-items; distinct by source, sizes and initial values')
    assumptions = ['the old values of one cell are checked to form a chain from its first to its last value that uses every '
                   'operation once (in program order for a single work-item)',
                   'thread schedules are whatever eight cores produce']

    def init(self):
        clrt.load(self.b + '/liboclgrind-rt.so')

    def case(self, s):
        heavy = s.bool(1, 4)
        lsz = s.range(1, 2) if heavy else s.range(1, 4)
        ng = s.range(4, 8) if heavy else s.range(1, 5)
        gsz = lsz * ng
        threads = s.choice([4, 8, 8]) if heavy else s.choice([1, 2, 4, 8])
        reps = s.range(100, 800) if heavy else s.range(1, 6)
        opts = s.choice(['', '-cl-opt-disable'])
        r = random.Random(s.seed())
        rv = lambda b: r.choice([0, 1, (1 << b) - 1, 1 << (b - 1), (1 << (b - 1)) - 1, r.getrandbits(b), r.randrange(8)])
        # cells
        cells = []
        offs = {'g': 0, 'l': 0}
        mem = {'g': [], 'l': []}
        for i in range(s.range(1, 2) if heavy else s.range(1, 5)):
            sp = 'g' if heavy else s.choice('gl')
            b = s.choice([32, 32, 64])
            o = -(-offs[sp] // (b // 8)) * (b // 8)
            mis = 0
            if not heavy and s.bool(1, 8):
                mis = s.choice([1, 2, 3] if b == 32 else [1, 2, 4, 7])
            offs[sp] = o + b // 8 + mis
            cells.append((sp, b, o + mis, bool(mis), s.draw(gsz), rv(b)))
        gap = 16
        size = {k: v + gap for k, v in offs.items()}
        # statements
        sts = []
        body = []
        nst = s.range(1, 3) if heavy else s.range(1, 8)
        for k in range(nst):
            c = s.draw(len(cells))
            sp, b, off, mis, own, ini = cells[c]
            sg = s.bool()
            op = s.choice(NAMES)
            fl = op == 'xchg' and b == 32 and s.bool(1, 3)
            t = 'float' if fl else ('' if sg else 'u') + ('int' if b == 32 else 'long')
            pre = 'atom_' if b == 64 or (s.bool(1, 3) and not fl) else 'atomic_'
            pfx = {'g': 'global', 'l': 'local'}[sp]
            M = (1 << b) - 1
            v0, mul = rv(b), s.choice([0, 1, 1, r.getrandbits(b)])
            cm = s.choice([ini, rv(b), 0])
            cmul = s.choice([0, 0, 1])
            last = op == 'cmpxchg' and s.bool(2, 3)
            guard = ('eq', own) if mis or (sp == 'g' and s.bool(1, 8)) else s.weighted([(4, ('all',)), (1, ('mod', s.range(2, 3), s.draw(2)))])
            ut = 'uint' if b == 32 else 'ulong'
            suf = 'u' if b == 32 else 'ul'
            val = '(%d%s + %d%s * (%s)seq)' % (v0, suf, mul, suf, ut)
            cmp = 'last%d' % c if last else '(%d%s + %d%s * (%s)seq)' % (cm, suf, cmul, suf, ut)
            cast = 'as_float(%s)' % val if fl else '(%s)%s' % (t, val)
            p = '(volatile %s %s *)(%s + %d)' % (pfx, t, 'G' if sp == 'g' else 'L', off)
            a = [p]
            if op == 'cmpxchg':
                a.append('(%s)%s' % (t, cmp))
            if op not in ('inc', 'dec'):
                a.append(cast)
            call = '%s%s(%s)' % (pre, op, ', '.join(a))
            call = 'as_uint(%s)' % call if fl else '(%s)%s' % (ut, call)
            g = {'all': '', 'eq': 'if (lin == %d) ', 'mod': 'if (lin %% %d == %d) '}[guard[0]] % (
                () if guard[0] == 'all' else (guard[1],) if guard[0] == 'eq' else guard[1:])
            body.append('    { uint seq = (it * %d + %d) * %d + lin; %sout[seq] = last%d = %s; }' % (nst, k, gsz, g, c, call))
            sts.append((c, op, sg, v0, mul, cm, None if last else cmul, guard, M, pre + op))
            s.cls('%s%s %s %d' % (pre, op, pfx, b))
        copyl = '\n'.join('    LO[grp * %d + %d] = L[%d];' % (size['l'], j, j) for j in range(size['l']))
        src = ('#pragma OPENCL EXTENSION cl_khr_int64_base_atomics : enable\n#pragma OPENCL EXTENSION cl_khr_int64_extended_atomics : enable\n'
               'kernel void k(global uchar *G, global const uchar *LI, global uchar *LO, global ulong *out)\n{\n'
               '  local uchar L[%d] __attribute__((aligned(8)));\n  uint lin = get_global_id(0), grp = get_group_id(0);\n%s'
               '  if (get_local_id(0) == 0) for (int j = 0; j < %d; j++) L[j] = LI[j];\n  barrier(CLK_LOCAL_MEM_FENCE);\n'
               '  for (uint it = 0; it < %d; it++) {\n%s\n  }\n  barrier(CLK_LOCAL_MEM_FENCE);\n'
               '  if (get_local_id(0) == 0) for (int j = 0; j < %d; j++) LO[grp * %d + j] = L[j];\n}\n' % (
                   size['l'], ''.join('  %s last%d = %d%s;\n' % ('uint' if b == 32 else 'ulong', i, ini, 'u' if b == 32 else 'ul') for i, (_, b, _, _, _, ini) in enumerate(cells)), size['l'], reps, '\n'.join(body), size['l'], size['l']))
        init = {}
        for sp in 'gl':
            d = bytearray(r.randrange(256) for _ in range(size[sp]))
            for (q, b, off, mis, own, ini) in cells:
                if q == sp:
                    d[off:off + b // 8] = ini.to_bytes(b // 8, 'little')
            init[sp] = bytes(d)
        s.desc = 'global=%d local=%d threads=%d opts=%r cells=%s\n%s' % (gsz, lsz, threads, opts, cells, src)
        clrt.setenv(NUM_THREADS=threads)
        with clrt.Capture() as cap:
            with clrt.Ctx() as c:
                p = c.program(src, opts)
                k = c.kernel(p, 'k')
                n = reps * nst * gsz
                G = c.buffer(size['g'], init['g'])
                LO = c.buffer(ng * size['l'], bytes(ng * size['l']))
                out = c.buffer(n * 8, b'\xee' * (n * 8))
                c.setargs(k, [('m', G), ('m', c.buffer(size['l'], init['l'])), ('m', LO), ('m', out)])
                before = len(cap.peek()[1])
                c.ndrange(k, [gsz], [lsz])
                log = cap.peek()[1][before:].decode('latin1')
                fin = {'g': c.read(G, size['g'])}
                lo = c.read(LO, ng * size['l'])
                o = struct.unpack('<%dQ' % n, c.read(out, n * 8))
        # ---- per cell: the operations form a chain from the first to the last value
        want = {}
        shared = False
        for ci, (sp, b, off, mis, own, ini) in enumerate(cells):
            for inst in (range(ng) if sp == 'l' else [None]):
                edges = []
                last = {}
                who = set()
                for it in range(reps):
                    for j, (c2, op, sg, v0, mul, cm, cmul, guard, M, nm) in enumerate(sts):
                        if c2 != ci:
                            continue
                        for lin in (range(gsz) if inst is None else range(inst * lsz, inst * lsz + lsz)):
                            if (guard[0] == 'eq' and lin != guard[1]) or (guard[0] == 'mod' and lin % guard[1] != guard[2]):
                                continue
                            seq = (it * nst + j) * gsz + lin
                            old = o[seq]
                            if old > M:
                                raise Fail('%s on cell %d returned 0x%x, wider than its type' % (nm, ci, old), 'old')
                            new = apply(op, b, sg, old, (v0 + mul * seq) & M, last.get(lin, ini) if cmul is None else (cm + cmul * seq) & M)
                            last[lin] = old
                            edges.append((old, new, nm, lin))
                            who.add(lin)
                            if mis:
                                want['Unaligned address on ' + nm] = want.get('Unaligned address on ' + nm, 0) + 1
                if len(who) > 1:
                    shared = True
                data = fin['g'] if sp == 'g' else lo[inst * size['l']:(inst + 1) * size['l']]
                final = int.from_bytes(data[off:off + b // 8], 'little')
                what = 'cell %d (%s, %d bits, offset %d%s)' % (ci, sp, b, off, '' if inst is None else ', group %d' % inst)
                if len(who) == 1:
                    x = ini
                    for (old, new, nm, lin) in edges:
                        if old != x:
                            raise Fail('%s: %s returned 0x%x, the value was 0x%x' % (what, nm, old, x), 'old')
                        x = new
                    if final != x:
                        raise Fail('%s ends as 0x%x, expected 0x%x' % (what, final, x), 'final')
                else:
                    self.euler(what, ini, final, edges)
        # bytes outside every cell
        for sp in 'gl':
            touched = set()
            for (q, b, off, _, _, _) in cells:
                if q == sp:
                    touched |= set(range(off, off + b // 8))
            for inst in (range(ng) if sp == 'l' else [0]):
                data = fin['g'] if sp == 'g' else lo[inst * size['l']:(inst + 1) * size['l']]
                for j in range(size[sp]):
                    if j not in touched and data[j] != init[sp][j]:
                        raise Fail('byte %d of %s memory, outside every cell, changed from %02x to %02x' % (j, sp, init[sp][j], data[j]), 'outside')
        got = {}
        for line in log.split('\n'):
            if line.startswith('Unaligned address on '):
                got[line] = got.get(line, 0) + 1
            elif line and not line.startswith('\t'):
                raise Fail('unexpected message %r' % line, 'message')
        if got != want:
            raise Fail('misaligned atomics: reported %s, expected %s' % (got, want), 'unaligned')
        if shared:
            s.nontrivial((s.desc,))
        s.count('atomics', sum(1 for x in o if x != 0xeeeeeeeeeeeeeeee))

    @staticmethod
    def euler(what, ini, final, edges):
        deg = {}
        adj = {}
        for (a, b, _, _) in edges:
            deg[a] = deg.get(a, 0) + 1
            deg[b] = deg.get(b, 0) - 1
            adj.setdefault(a, []).append(b)
            adj.setdefault(b, []).append(a)
        deg[ini] = deg.get(ini, 0) - 1
        deg[final] = deg.get(final, 0) + 1
        bad = {hex(v): d for v, d in deg.items() if d}
        if bad:
            raise Fail('%s: no order of the %d operations takes it from 0x%x to 0x%x with the returned old values; '
                       'surplus of operations that read each value over ones that leave it: %s' % (
                           what, len(edges), ini, final, dict(list(bad.items())[:12])), 'order')
        if not edges:
            return
        seen = {ini}
        st = [ini]
        while st:
            for y in adj.get(st.pop(), ()):
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        if any(v not in seen for v in adj):
            raise Fail('%s: some operations returned old values it never had: %s' % (
                what, [hex(v) for v in adj if v not in seen][:10]), 'order')


CHECK = C10()
