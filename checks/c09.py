"""C09: work-group divergence is reported exactly when work-items diverge."""
import re
import clrt
from pbt import Check, Fail

DIV = re.compile(r'Work-group divergence detected \((barrier|async copy)\)$')
GRP = re.compile(r'Work-group: \((\d+),(\d+),(\d+)\)$')


class C09(Check):
    id = 'C09'
    case_timeout = 20.0
    quick = 24000
    thorough = 200000
    rule = ('a case is one kernel whose barriers, async copies and waits sit under generated conditions and loops; '
            'non-trivial when at least one group has two or more work-items and executes a barrier, copy or wait; '
            'distinct by source and NDRange')
    assumptions = ['a missing report is only an error with the optimiser off, which may merge barriers of two branches',
                   'the number of other reports of a divergent group is left open']

    def init(self):
        clrt.load(self.b + '/liboclgrind-rt.so')

    # conditions: (text, fn(lid, grp))
    def cond(self, s, div):
        k = s.draw(4) if div else 4 + s.draw(4)
        n = s.draw(self.W)
        if k == 0:
            return 'lid == %d' % n, lambda l, g: l == n
        if k == 1:
            return 'lid < %d' % n, lambda l, g: l < n
        if k == 2:
            return '(lid & 1) == %d' % (n & 1), lambda l, g: l & 1 == n & 1
        if k == 3:
            return 'lid + grp != %d' % n, lambda l, g: l + g != n
        if k == 4:
            return 'grp == %d' % (n & 1), lambda l, g: g == n & 1
        if k == 5:
            return 'one', lambda l, g: True
        if k == 6:
            return 'grp + one > %d' % (n & 3), lambda l, g: g + 1 > n & 3
        return 'lid < %d' % (self.W + n), lambda l, g: True

    def isdiv(self):
        return self.s.bool(1, self.dv)

    def block(self, n, d):
        s = self.s
        out = []
        for _ in range(n):
            k = s.weighted([(5, 'B'), (3, 'A'), (3, 'W'), (3 if d < 3 else 0, 'I'), (2 if d < 3 else 0, 'L'), (1, 'R'), (1, 'H')])
            self.uid += 1
            if k == 'B':
                f = s.weighted([(3, 1), (2, 2), (2, 3)])
                alt = s.weighted([(2, 1), (1, 2), (1, 3)]) if self.isdiv() else None
                out.append(('B', self.uid, f, alt, self.cond(s, True) if alt else None))
            elif k == 'A':
                x = [s.draw(3), s.draw(4), s.range(0, 4), s.draw(2), s.bool(1, 5)]   # event slot, offset, count, direction, chained
                alt = None
                if self.isdiv():
                    alt = list(x)
                    j = s.choice([1, 2])
                    alt[j] = (alt[j] + 1) % 4
                    alt = (alt, self.cond(s, True))
                st = s.bool(1, 4)
                out.append(('A', self.uid, x, alt, st))
            elif k == 'W':
                evs = [s.draw(3) for _ in range(s.range(1, 3))]
                alt = None
                if self.isdiv():
                    alt = (([s.draw(3) for _ in range(s.range(1, 3))]), self.cond(s, True))
                out.append(('W', self.uid, evs, alt))
            elif k == 'I':
                c = self.cond(s, self.isdiv())
                a = self.block(s.range(1, 3), d + 1)
                b = self.block(s.range(1, 2), d + 1) if s.bool(1, 3) else []
                out.append(('I', c, a, b))
            elif k == 'L':
                cnt = s.range(0, 3)
                c = self.cond(s, True) if self.isdiv() else None
                out.append(('L', cnt, c, self.block(s.range(1, 2), d + 1), self.uid))
            elif k == 'H':
                out.append(('H', s.range(1, 2)))
            else:
                if s.bool(1, 3):
                    out.append(('R', self.cond(s, self.isdiv())))
        return out

    def src(self, b, ind):
        out = []
        for x in b:
            if x[0] == 'B':
                f = {1: 'CLK_LOCAL_MEM_FENCE', 2: 'CLK_GLOBAL_MEM_FENCE', 3: 'CLK_LOCAL_MEM_FENCE | CLK_GLOBAL_MEM_FENCE'}
                if x[3]:
                    out.append('barrier((%s) ? (%s) : (%s));' % (x[4][0], f[x[3]], f[x[2]]))
                else:
                    out.append('barrier(%s);' % f[x[2]])
            elif x[0] == 'A':
                v = lambda i: str(x[2][i]) if not x[3] or x[2][i] == x[3][0][i] else '((%s) ? %d : %d)' % (x[3][1][0], x[3][0][i], x[2][i])
                lp, gp = '(L + %s)' % v(1), '(G + grp * 16 + %s)' % v(1)
                d, r = (lp, gp) if x[2][3] else (gp, lp)
                e = 'ev[%d]' % x[2][0] if x[2][4] else '0'
                if x[4]:
                    out.append('ev[%d] = async_work_group_strided_copy(%s, %s, (size_t)%s, (size_t)2, %s);' % (x[2][0], d, r, v(2), e))
                else:
                    out.append('ev[%d] = async_work_group_copy(%s, %s, (size_t)%s, %s);' % (x[2][0], d, r, v(2), e))
            elif x[0] == 'W':
                def wl(l):
                    return '{ ' + ' '.join('wv[%d] = ev[%d];' % (i, e) for i, e in enumerate(l)) + ' wn = %d; }' % len(l)
                if x[3]:
                    out.append('if (%s) %s else %s' % (x[3][1][0], wl(x[3][0]), wl(x[2])))
                else:
                    out.append(wl(x[2]))
                out.append('wait_group_events(wn, wv);')
            elif x[0] == 'I':
                t = 'if (%s) {\n%s\n%s}' % (x[1][0], self.src(x[2], ind + 1), '  ' * ind)
                if x[3]:
                    t += ' else {\n%s\n%s}' % (self.src(x[3], ind + 1), '  ' * ind)
                out.append(t)
            elif x[0] == 'L':
                n = '%d' % x[1] if not x[2] else '((%s) ? %d : %d)' % (x[2][0], x[1] + 1, x[1])
                out.append('for (int i%d = 0; i%d < %s; i%d++) {\n%s\n%s}' % (x[4], x[4], n, x[4], self.src(x[3], ind + 1), '  ' * ind))
            elif x[0] == 'H':
                out.append('helper%d();' % x[1])
            else:
                out.append('if (%s) return;' % x[1][0])
        return '\n'.join('  ' * ind + l for l in out)

    class Ret(Exception):
        pass

    def trace(self, b, l, g, ev, out):
        """Appends the sync operations of one work-item. Events are symbolic: the position of the copy."""
        for x in b:
            if x[0] == 'B':
                out.append(('B', x[1], x[3] if x[3] and x[4][1](l, g) else x[2]))
            elif x[0] == 'A':
                a = x[3][0] if x[3] and x[3][1][1](l, g) else x[2]
                old = ev[a[0]] if a[4] else 0
                # the event a chained copy is added to is not compared
                out.append(('A', x[1], a[1], a[2], old))
                ev[a[0]] = old if old else len([1 for y in out if y[0] == 'A'])
            elif x[0] == 'W':
                w = x[3][0] if x[3] and x[3][1][1](l, g) else x[2]
                out.append(('W', x[1], tuple(ev[e] for e in w)))
            elif x[0] == 'I':
                self.trace(x[2] if x[1][1](l, g) else x[3], l, g, ev, out)
            elif x[0] == 'L':
                n = x[1] + (1 if x[2] and x[2][1](l, g) else 0)
                for _ in range(n):
                    self.trace(x[3], l, g, ev, out)
            elif x[0] == 'H':
                out.append(('B', 'h%d' % x[1], 1))
                if x[1] == 2:
                    out.append(('B', 'h1', 1))
            elif x[1][1](l, g):
                raise self.Ret()
        if len(out) > 400:
            raise self.Ret()

    def case(self, s):
        self.s = s
        dim = s.range(1, 2)
        lsize = [s.weighted([(8, s.range(1, 5)), (1, s.range(6, 24)), (1, s.range(33, 80))]) if dim == 1 else s.range(1, 3), s.range(1, 2) if dim == 2 else 1]
        ng = [s.range(1, 2), s.range(1, 2) if dim == 2 else 1]
        self.W = lsize[0] * lsize[1]
        self.uid = 0
        self.dv = s.choice([3, 8, 20, 10 ** 6] if self.W <= 8 else [8, 20, 10 ** 6, 10 ** 6])
        body = self.block(s.range(1, 7), 0)
        if self.W > 8 and s.bool(1, 2):
            # a single work-item (or a few) of a large group leaves out, or alone does, one copy
            w = s.draw(self.W)
            c = s.choice([('lid != %d' % w, lambda l, g: l != w), ('lid == %d' % w, lambda l, g: l == w), ('lid < %d' % w, lambda l, g: l < w)])
            self.uid += 1
            body.insert(s.range(0, len(body)), ('I', c, [('A', self.uid, [3, s.draw(4), s.range(0, 4), s.draw(2), False], None, s.bool(1, 4))], []))
            s.cls('lone copy')
        opts = s.weighted([(3, '-cl-opt-disable'), (1, ''), (1, '-O3')])
        plugins = s.choice([{}, {}, dict(DATA_RACES=True), dict(UNINITIALIZED=True)])
        threads = s.choice([1, 2])
        src = ('void helper1(void) { barrier(CLK_LOCAL_MEM_FENCE); }\nvoid helper2(void) { barrier(CLK_LOCAL_MEM_FENCE); helper1(); }\n'
               'kernel void k(global int *G, int one)\n{\n  local int L[16];\n'
               '  int lid = get_local_id(0) + get_local_id(1) * get_local_size(0);\n'
               '  int grp = get_group_id(0) + get_group_id(1) * get_num_groups(0);\n'
               '  event_t ev[4]; event_t z = 0; ev[0] = z; ev[1] = z; ev[2] = z; ev[3] = z; event_t wv[3]; int wn;\n%s\n}\n' % self.src(body, 1))
        s.desc = 'global=%s local=%s threads=%d opts=%r %s\n%s' % ([a * b for a, b in zip(lsize, ng)], lsize, threads, opts, plugins, src)
        # ------------------------------------------------------------ expectation
        groups = []
        invalid = unwaited = 0
        lowinv = 0
        nt = False
        for g in range(ng[0] * ng[1]):
            tr = []
            for l in range(self.W):
                t = []
                try:
                    self.trace(body, l, g, [0, 0, 0, 0], t)
                except self.Ret:
                    pass
                tr.append(t)
            if any(len(t) > 400 for t in tr):
                return
            # compared without the events copies are chained to
            cmp = [[x[:4] for x in t] for t in tr]
            div = any(c != cmp[0] for c in cmp)
            copies = any([x for x in c if x[0] == 'A'] != [x for x in cmp[0] if x[0] == 'A'] for c in cmp)
            # a difference in copies shows in the events waited for
            bars = any([x[:2] if x[0] == 'W' else x for x in c if x[0] != 'A'] != [x[:2] if x[0] == 'W' else x for x in cmp[0] if x[0] != 'A'] for c in cmp)
            waits = any([x for x in c if x[0] == 'W'] != [x for x in cmp[0] if x[0] == 'W'] for c in cmp)
            gx = (g % ng[0], g // ng[0], 0)
            if not div:
                live = set()
                n = 0
                for x in tr[0]:
                    if x[0] == 'A':
                        n += 1
                        live.add(x[4] if x[4] else n)
                    elif x[0] == 'W':
                        invalid += sum(1 for e in x[2] if e not in live)
                        live -= set(x[2])
                unwaited += 1 if live else 0
            groups.append((gx, div, copies, bars, waits))
            nt = nt or (self.W > 1 and any(tr))
        anydiv = any(g[1] for g in groups)
        s.cls('divergent' if anydiv else 'uniform')
        if invalid:
            s.cls('invalid wait')
        if unwaited:
            s.cls('unawaited')
        if nt:
            s.nontrivial((s.desc,))
        clrt.setenv(NUM_THREADS=threads, **plugins)
        with clrt.Capture() as cap:
            with clrt.Ctx() as c:
                p = c.program(src, opts)
                k = c.kernel(p, 'k')
                G = c.buffer(64 * 4 * 4, bytes(64 * 4 * 4))
                c.setargs(k, [('m', G), ('b', (1).to_bytes(4, 'little'))])
                before = len(cap.peek()[1])
                c.ndrange(k, [a * b for a, b in zip(lsize, ng)][:dim], lsize[:dim])
                log = cap.peek()[1][before:].decode('latin1')
        reps = []
        cnt = {'Invalid wait event': 0, 'Work-item finished without waiting for events': 0}
        cur = None
        for line in log.split('\n'):
            m = DIV.match(line)
            if m:
                cur = [m.group(1), None]
                reps.append(cur)
                continue
            m = GRP.match(line.strip())
            if m and cur:
                cur[1] = tuple(map(int, m.groups()))
                continue
            if line in cnt:
                cnt[line] += 1
                cur = None
            elif 'data race' in line or line.startswith('Uninitialized'):
                cur = None
                if line.startswith('Uninit') and not plugins.get('UNINITIALIZED') or 'race' in line and not plugins.get('DATA_RACES'):
                    raise Fail('unexpected message %r' % line, 'message')
            elif line and not line.startswith('\t'):
                raise Fail('unexpected message %r' % line, 'message')
        bad = {g[0] for g in groups if g[1]}
        for kind, g in reps:
            if g not in bad:
                raise Fail('divergence (%s) reported for group %s, whose work-items all agree; divergent groups: %s\n%s' % (
                    kind, g, bad, log[:1500]), 'spurious')
        if opts == '-cl-opt-disable':
            for (gx, div, copies, bars, waits) in groups:
                kinds = {k for k, g in reps if g == gx}
                if div and not kinds:
                    raise Fail('group %s diverges (copies differ: %s, barriers differ: %s) and nothing was reported\n%s' % (
                        gx, copies, bars or waits, log[:1500]), 'missed')
                if div and not copies and 'barrier' not in kinds:
                    raise Fail('group %s diverges at a barrier, reported only %s\n%s' % (gx, kinds, log[:1500]), 'missed barrier')
                if div and copies and not bars and not waits and 'async copy' not in kinds:
                    raise Fail('group %s diverges at an async copy, reported only %s\n%s' % (gx, kinds, log[:1500]), 'missed copy')
        for t, n in (('Invalid wait event', invalid), ('Work-item finished without waiting for events', unwaited)):
            if cnt[t] < n or (cnt[t] > n and not anydiv):
                raise Fail('%r reported %d times, expected %d\n%s' % (t, cnt[t], n, log[:1500]), 'events')


CHECK = C09()
