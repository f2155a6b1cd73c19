"""C27: plugins are told of every event of an execution, exactly once and in order."""
import ctypes as C
import os
import subprocess
import tempfile
import build
import clrt
from pbt import Check, Fail

OUT = os.path.join(build.VERIF, 'build', 'c27')
TYPES = [('uchar', 1), ('ushort', 2), ('uint', 4), ('ulong', 8), ('uint4', 16)]
ATOMICS = ['add', 'sub', 'xchg', 'inc', 'dec', 'min', 'max', 'and', 'or', 'xor']
FENCE = {1: 'CLK_LOCAL_MEM_FENCE', 2: 'CLK_GLOBAL_MEM_FENCE', 3: 'CLK_LOCAL_MEM_FENCE | CLK_GLOBAL_MEM_FENCE'}


# programs with struct copies are built with it: otherwise the compiler may drop, merge, forward or shorten them
OPT0 = '-cl-opt-disable'


class Buf:
    pass


class C27(Check):
    id = 'C27'
    case_timeout = 60.0
    quick = 12000
    thorough = 300000
    rule = ('a case is a history of buffer commands and kernel launches in one or two contexts, with a plugin loaded through '
            'OCLGRIND_PLUGINS; non-trivial when a kernel of two or more work-items makes at least one access; distinct by history')
    assumptions = ['accesses to private memory are only compared with the load and store instructions executed',
                   'the number of events that one buffer command is split into is left open, the bytes they cover are not',
                   'the order between work-items of a group is left open within a barrier interval, and so is that between groups of a '
                   'plugin declared thread safe']

    def setup(self, b):
        os.makedirs(OUT, exist_ok=True)
        p = subprocess.run(['g++', '-std=c++17', '-O1', '-w', '-fno-rtti', '-fPIC', '-shared', '-o', OUT + '/trace.so',
                            build.VERIF + '/lib/c27/plugin.cpp', '-I' + build.REPO + '/src', '-I' + b, '-I/usr/lib/llvm-20/include',
                            '-L' + b, '-loclgrind', '-Wl,-rpath,' + b],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise RuntimeError('plugin: ' + p.stdout.decode('latin1')[-3000:])

    def init(self):
        clrt.load(self.b + '/liboclgrind-rt.so')
        self.lib = C.CDLL(OUT + '/trace.so')

    # ------------------------------------------------------------ generation
    def gen_kernel(self, s, bufs):
        """A straight-line script; bufs are the sizes of the buffer arguments."""
        dim = s.range(1, 3)
        ls = [s.range(1, 4 if dim == 1 else 2) for _ in range(dim)]
        ng = [s.range(1, 4 if dim == 1 else 2) for _ in range(dim)]
        off = [s.draw(3) * 5 for _ in range(dim)] if s.bool(1, 3) else [0] * dim
        W = 1
        for x in ls:
            W *= x
        gs = [a * b for a, b in zip(ls, ng)]
        cl2 = s.bool(1, 4)
        if cl2 and s.bool(2, 3):
            gs = [g - s.draw(a) for g, a in zip(gs, ls)]        # remainder groups
        lsz = 16 * s.range(1, 6) + 1600       # tells the argument from other local memory
        body = []
        for _ in range(s.range(1, 8)):
            k = s.weighted([(6, 'S'), (5, 'L'), (3, 'X'), (2, 'C'), (3, 'B'), (3, 'A'), (1, 'O'), (2, 'T'), (2, 'M')])
            guard = (s.range(2, 3), s.draw(2)) if s.bool(1, 4) else None
            rep = s.range(2, 3) if s.bool(1, 5) else 1
            sp = s.draw(len(bufs) + 1)         # the last one is local memory
            size = bufs[sp] if sp < len(bufs) else lsz
            idx = (s.draw(40), s.choice([0, 1, 1, 3]), s.draw(3))
            val = (s.draw(300), s.draw(1000), s.draw(5))
            if k in 'SL':
                body.append((k, sp, s.choice([t for t in TYPES if t[1] <= size]), idx, val, guard, rep))
            elif k == 'X':
                if size >= 4:
                    body.append((k, sp, s.choice(ATOMICS), idx, val, guard, rep))
            elif k == 'C':
                body.append((k, s.draw(3), s.range(1, 3), guard, s.range(1, 2)))
            elif k == 'B':
                body.append((k, s.range(1, 3)))
            elif k == 'O':
                g = s.draw(len(bufs))
                body.append((k, g, s.range(0, 9), guard))
            elif k == 'T':
                body.append((k, idx, guard))
            elif k == 'M':
                n = s.choice([24, 33, 40])
                a, b = s.draw(len(bufs) + 1), s.draw(len(bufs) + 1)
                za, zb = [bufs[x] if x < len(bufs) else lsz for x in (a, b)]
                if min(za, zb) >= n:
                    body.append((k, n, a, s.draw(za - n + 1), b, s.draw(zb - n + 1), guard))
            else:
                g = s.draw(len(bufs))
                n = s.range(1, 4)
                st = s.range(1, 3)
                if bufs[g] >= n * st * 4 * 2:
                    body.append((k, g, n, st, s.draw(2), s.draw((bufs[g] // 4 - n * st) + 1), s.draw(4)))
        return dict(dim=dim, ls=ls, ng=ng, gs=gs, off=off, W=W, lsz=lsz, body=body,
                    opt=(OPT0 if any(x[0] == 'M' for x in body) else s.weighted([(3, OPT0), (2, ''), (1, '-O3')])) + (' -cl-std=CL2.0' if cl2 else ''))

    def source(self, k, bufs):
        o = []
        for st in k['body']:
            def ptr(sp, t):
                q, n = ('global', 'b%d' % sp) if sp < len(bufs) else ('local', 'l')
                return '((volatile %s %s *)%s)' % (q, t, n)

            def wrap(text, guard, rep):
                t = text
                if rep > 1:
                    t = 'for (uint i = 0; i < %d; i++) { %s }' % (rep, t)
                else:
                    t = '{ const uint i = 0; %s }' % t
                if guard:
                    t = 'if (lin %% %d == %d) %s' % (guard[0], guard[1], t)
                o.append('  ' + t)
            if st[0] in 'SLX':
                _, sp, ty, idx, val, guard, rep = st
                t, n = ty if st[0] != 'X' else ('uint', 4)
                size = bufs[sp] if sp < len(bufs) else k['lsz']
                e = '(%du + %du * lin + %du * i) %% %du' % (idx + (size // n,))
                v = '(%du + %du * lin + %du * i)' % val
                p = ptr(sp, t)
                if st[0] == 'S':
                    if idx[2] == 2:
                        wrap('put_%s_%s(%s, %s, (%s)(%s));' % (p[11:13], t, p, e, t, v), guard, rep)
                    else:
                        wrap('%s[%s] = (%s)(%s);' % (p, e, t, v), guard, rep)
                elif st[0] == 'L':
                    wrap(('sink = %s[%s].x;' if n == 16 else 'sink = %s[%s];') % (p, e), guard, rep)   # unused loads may be pruned
                else:
                    wrap('atomic_%s(%s + %s%s);' % (ty, p, e, '' if ty in ('inc', 'dec') else ', ' + v), guard, rep)
            elif st[0] == 'M':
                q = lambda x: ('local', 'l') if x == len(bufs) else ('global', 'b%d' % x)
                wrap('*(%s struct S%d *)(%s + %d) = *(%s struct S%d *)(%s + %d);' % (
                    (q(st[2])[0], st[1], q(st[2])[1], st[3], q(st[4])[0], st[1], q(st[4])[1], st[5])), st[6], 1)
            elif st[0] == 'C':
                wrap('atomic_cmpxchg((volatile global uint *)x + lin, %du, %du);' % (st[1], st[2]), st[3], st[4])
            elif st[0] == 'B':
                o.append('  barrier(%s);' % FENCE[st[1]])
            elif st[0] == 'O':
                wrap('sink = ((volatile global uchar *)b%d)[%du];' % (st[1], bufs[st[1]] + st[2]), st[3], 1)
            elif st[0] == 'T':
                wrap('sink = ((volatile constant uint *)T)[(%du + %du * lin + %du * i) %% 4];' % st[1], st[2], 1)
            else:
                _, g, n, stride, d, go, lo = st
                G, L = '(global uint *)b%d + %d' % (g, go), '(local uint *)l + %d' % lo
                a, b = (L, G) if d == 0 else (G, L)
                if stride == 1:
                    o.append('  { event_t e = async_work_group_copy(%s, %s, (size_t)%d, 0); wait_group_events(1, &e); }' % (a, b, n))
                else:
                    o.append('  { event_t e = async_work_group_strided_copy(%s, %s, (size_t)%d, (size_t)%d, 0); wait_group_events(1, &e); }' % (
                        a, b, n, stride))
        lin = ' + '.join('(uint)(get_global_id(%d) - get_global_offset(%d))%s' % (
            d, d, ''.join(' * (uint)get_global_size(%d)' % e for e in range(d))) for d in range(k['dim']))
        text = '\n'.join(o)
        pre = ''.join('struct S%d { uchar c[%d]; };\n' % (n, n) for n in (24, 33, 40) if 'struct S%d' % n in text)
        for q in ('global', 'local'):
            for t, _ in TYPES:
                f = 'put_%s_%s' % (q[:2], t)
                if f + '(' in text:
                    pre += '__attribute__((noinline)) void %s(volatile %s %s *p, uint e, %s v) { p[e] = v; }\n' % (f, q, t, t)
        return (pre + 'constant uint T[4] = {11, 22, 33, 44};\nkernel void k(%s, global uint *x, local uchar *l)\n{\n  volatile uint sink;\n  const uint lin = %s;\n%s\n}\n'
                % (', '.join('global uchar *b%d' % i for i in range(len(bufs))), lin, text))

    # ------------------------------------------------------------ expectation of a launch
    def expect(self, k, addrs, sizes, xaddr, laddr, taddr):
        """Per work-item (by global id): a list of event lists, one per barrier interval; and per group and barrier what the copy does."""
        nd = 3
        ls = k['ls'] + [1] * (nd - k['dim'])
        ng = k['ng'] + [1] * (nd - k['dim'])
        off = k['off'] + [0] * (nd - k['dim'])
        gs = k['gs'] + [1] * (nd - k['dim'])
        items, groups = {}, {}
        oob = 0
        bars = []
        for st in k['body']:
            if st[0] == 'B':
                bars.append((st[1], None))
            elif st[0] == 'A':
                bars.append((3, st))
        slots = {}
        for gz in range(gs[2]):
            for gy in range(gs[1]):
                for gx in range(gs[0]):
                    lin = gx + gy * gs[0] + gz * gs[0] * gs[1]
                    ph = [[]]
                    for st in k['body']:
                        if st[0] in 'BA':
                            ph.append([])
                            continue
                        guard = st[5] if st[0] in 'SLX' else st[2] if st[0] == 'T' else st[6] if st[0] == 'M' else st[3]
                        if guard and lin % guard[0] != guard[1]:
                            continue
                        rep = st[6] if st[0] in 'SLX' else st[4] if st[0] == 'C' else 1
                        for i in range(rep):
                            if st[0] in 'SLX':
                                _, sp, ty, idx, val, _, _ = st
                                n = ty[1] if st[0] != 'X' else 4
                                loc = sp == len(addrs)
                                size = k['lsz'] if loc else sizes[sp]
                                e = (idx[0] + idx[1] * lin + idx[2] * i) % (size // n)
                                v = val[0] + val[1] * lin + val[2] * i
                                a = (3, laddr + e * n, n) if loc else (1, addrs[sp] + e * n, n)
                                if st[0] == 'L':
                                    ph[-1].append(('L',) + a)
                                elif st[0] == 'S':
                                    if n == 16:
                                        h = v.to_bytes(4, 'little') * 4
                                    else:
                                        h = (v & ((1 << 8 * n) - 1)).to_bytes(n, 'little')
                                    ph[-1].append(('S',) + a + ('x' + h.hex(),))
                                else:
                                    ph[-1].append(('XL',) + a + (ty,))
                                    ph[-1].append(('XS',) + a + (ty,))
                            elif st[0] == 'C':
                                a = (1, xaddr + 4 * lin, 4, 'cmpxchg')
                                ph[-1].append(('XL',) + a)
                                if slots.get(lin, 0) == st[1]:
                                    slots[lin] = st[2]
                                    ph[-1].append(('XS',) + a)
                            elif st[0] == 'M':
                                at = lambda x, o: (3, laddr + o, st[1]) if x == len(addrs) else (1, addrs[x] + o, st[1])
                                ph[-1].append(('L',) + at(st[4], st[5]))
                                ph[-1].append(('S',) + at(st[2], st[3]) + (None,))
                            elif st[0] == 'O':
                                ph[-1].append(('L', 1, addrs[st[1]] + sizes[st[1]] + st[2], 1))
                                oob += 1
                            else:
                                ph[-1].append(('L', 1, taddr + 4 * ((st[1][0] + st[1][1] * lin + st[1][2] * i) % 4), 4))
                    grp = (gx // ls[0], gy // ls[1], gz // ls[2])
                    lid = (gx % ls[0], gy % ls[1], gz % ls[2])
                    gid = (gx + off[0], gy + off[1], gz + off[2])
                    items[gid] = (lid, grp, ph)
                    groups.setdefault(grp, []).append(gid)
        return items, groups, bars, oob, (gs, ls, off, ng)

    def check_kernel(self, lines, k, bufs, xaddr, taddr, opts, main):
        addrs = [b.addr for b in bufs]
        sizes = [b.size for b in bufs]
        la = {int(l[2]) for l in lines if l[0] == 'A' and l[1] == '3' and int(l[3]) == k['lsz']}
        if len(la) != 1:
            raise Fail('the local argument (%d bytes) was announced at addresses %s' % (k['lsz'], la), 'local allocation')
        items, groups, bars, oob, (gs, ls, off, ng) = self.expect(k, addrs, sizes, xaddr, la.pop(), taddr)
        order = [l[0] for l in lines if l[0] in ('KB', 'KE')]
        if order != ['KB', 'KE']:
            raise Fail('kernel begin and end events: %s' % order, 'kernel events')
        kb = [l for l in lines if l[0] == 'KB'][0]
        want = [str(v) for v in gs + ls + off + ng + [k['dim']]] + ['k']
        if kb[1:-1] != want:
            raise Fail('kernel begins as %s, launched as %s' % (kb[1:-1], want), 'kernel events')
        st = {}                                # group -> [phase, ...]
        pos = {g: [0] * len(bars) for g in groups}
        seq = {g: None for g in items}         # gid -> [phase, index in phase, pending instruction]
        copies = {}
        logs = {}
        inkernel = False
        alive = {}
        current = None
        tids = set()
        n3 = 0
        for l in lines:
            t = l[0]
            if t == 'KB':
                inkernel = True
                continue
            if t == 'KE':
                left = [g for g in groups if st.get(g, [0, 0])[1] != 2]
                if left:
                    raise Fail('the kernel ended before groups %s completed; messages: %s' % (left[:4], list(logs)[:4]), 'group events')
                inkernel = False
                continue
            if t == 'LOG':
                logs[(l[1], ' '.join(l[2:]))] = logs.get((l[1], ' '.join(l[2:])), 0) + 1
                continue
            if t == 'A':
                key = (l[1], l[2]) if l[1] == '1' else l[1]
                alive[key] = alive.get(key, 0) + 1
                n3 += l[1] == '3' and int(l[3]) == k['lsz']
                continue
            if t == 'D':
                key = (l[1], l[2]) if l[1] == '1' else l[1]
                alive[key] = alive.get(key, 0) - 1
                continue
            if not inkernel:
                raise Fail('event %s outside the kernel' % l, 'order')
            tids.add(l[-1])
            if t == 'GB':
                g = tuple(map(int, l[1:4]))
                if g not in groups or g in st:
                    raise Fail('group %s begins (again)' % (g,), 'group events')
                if int(l[4]) != g[0] + ng[0] * (g[1] + ng[1] * g[2]) or [int(v) for v in l[5:8]] != [min(a, z - a * x) for a, z, x in zip(ls, gs, g)]:
                    raise Fail('group %s begins as %s' % (g, l), 'group events')
                st[g] = [0, 1]
                if not opts['safe']:
                    if current is not None:
                        raise Fail('group %s begins while %s runs, for a plugin that is not thread safe' % (g, current), 'thread safety')
                    current = g
                continue
            if t in ('GC', 'GR', 'GL', 'GS'):
                g = tuple(map(int, l[1:4]))
                if st.get(g, [0, 0])[1] != 1:
                    raise Fail('event %s of a group that is not running' % l, 'group events')
                if t == 'GC':
                    if st[g][0] != len(bars):
                        raise Fail('group %s completed after %d of %d barriers' % (g, st[g][0], len(bars)), 'barrier events')
                    if any(seq[i] is None or seq[i][3] != 2 for i in groups[g]):
                        raise Fail('group %s completed before its work-items' % (g,), 'group events')
                    st[g][1] = 2
                    current = None
                elif t == 'GR':
                    p = st[g][0]
                    if p >= len(bars) or int(l[4]) != bars[p][0]:
                        raise Fail('group %s: barrier event %d has flags %s, expected %s' % (g, p, l[4], bars[p:p + 1]), 'barrier events')
                    for i in groups[g]:
                        if seq[i] is None or seq[i][0] != p or seq[i][1] != len(items[i][2][p]):
                            raise Fail('work-item %s is at %s of interval %d when barrier %d is announced' % (i, seq[i], p, p), 'barrier events')
                    if bars[p][1]:
                        self.check_copy(bars[p][1], copies.pop(g, {'GL': {}, 'GS': {}}), addrs, self.laddr(lines, k))
                    elif g in copies:
                        raise Fail('group %s copies without a copy' % (g,), 'copy events')
                    st[g][0] += 1
                    for i in groups[g]:
                        seq[i][0:2] = [p + 1, 0]
                else:
                    c = copies.setdefault(g, {'GL': {}, 'GS': {}})[t]
                    sp, a, n = map(int, l[4:7])
                    for b in range(n):
                        if (sp, a + b) in c:
                            raise Fail('group %s: byte %#x is in two %s events of a copy' % (g, a + b, t), 'copy events')
                        c[(sp, a + b)] = None if t == 'GL' else l[7][1 + 2 * b:3 + 2 * b]
                continue
            gid = tuple(map(int, l[1:4]))
            if gid not in items:
                raise Fail('event %s of a work-item that does not exist' % l, 'item events')
            lid, grp, ph = items[gid]
            if st.get(grp, [0, 0])[1] != 1:
                raise Fail('event %s of a group that is not running' % l, 'item events')
            if t == 'IB':
                if seq[gid] is not None or tuple(map(int, l[4:10])) != lid + grp:
                    raise Fail('work-item %s begins (again) as %s' % (gid, l), 'item events')
                if st[grp][0]:
                    raise Fail('work-item %s begins after a barrier' % (gid,), 'item events')
                seq[gid] = [0, 0, '', 1]
                continue
            q = seq[gid]
            if q is None or q[3] != 1:
                raise Fail('event %s of a work-item that is not running' % l, 'item events')
            if t == 'IC':
                if q[0] != len(bars) or q[1] != len(ph[-1]) or q[2] != 'ret':
                    raise Fail('work-item %s completed at %s, with %s to come' % (gid, q, ph[q[0]][q[1]:][:3]), 'missing access')
                q[3] = 2
                continue
            if t == 'I':
                # the accesses since the last instruction are its own
                if l[4] != 'call' and (q[2] if q[2] != 'ret' else '') != {'load': 'L', 'store': 'S'}.get(l[4], ''):
                    raise Fail('work-item %s executed a %s with memory events %r' % (gid, l[4], q[2]), 'instruction events')
                q[2] = 'ret' if l[4] == 'ret' else ''
                continue
            ev = (t, int(l[4]), int(l[5]), int(l[6])) + tuple(l[7:-1])
            q[2] = t if q[2] == 'ret' else q[2] + t
            if ev[1] == 0:
                continue
            if ev[0] == 'S' and q[1] < len(ph[q[0]]) and ph[q[0]][q[1]][-1] is None:
                ev = ev[:4] + (None,)          # what a structure copy moves depends on the order
            if q[1] >= len(ph[q[0]]) or ph[q[0]][q[1]] != ev:
                raise Fail('work-item %s, interval %d, event %d is %s, expected %s' % (
                    gid, q[0], q[1], ev, (ph[q[0]] + [None])[q[1]]), 'access')
            q[1] += 1
        if n3 != len(groups):
            raise Fail('the local argument was allocated %d times for %d groups' % (n3, len(groups)), 'local allocation')
        for key, v in alive.items():
            if v:
                raise Fail('allocations minus deallocations in address space %s during the kernel: %d' % (key, v), 'allocation balance')
        if not opts['noisy']:
            bad = {k2: v for k2, v in logs.items() if not k2[1].startswith('Invalid read of size 1 at global memory')}
            n = sum(v for k2, v in logs.items() if k2[0] == 'error')
            if bad or n != oob:
                raise Fail('%d invalid reads, log events %s' % (oob, logs), 'log events')
        if not opts['safe'] and len(tids) > 1:
            raise Fail('a plugin that is not thread safe was called from %d threads during a kernel' % len(tids), 'thread safety')
        return len([1 for g in items if any(items[g][2])])

    def laddr(self, lines, k):
        return [int(l[2]) for l in lines if l[0] == 'A' and l[1] == '3' and int(l[3]) == k['lsz']][0]

    def check_copy(self, st, got, addrs, laddr):
        _, g, n, stride, d, go, lo = st
        glob = [(1, addrs[g] + 4 * (go + e * stride) + b) for e in range(n) for b in range(4)]
        loc = [(3, laddr + 4 * (lo + e) + b) for e in range(n) for b in range(4)]
        src, dst = (glob, loc) if d == 0 else (loc, glob)
        if set(got['GL']) != set(src) or set(got['GS']) != set(dst):
            raise Fail('copy events cover %s / %s, the copy %s reads %s and writes %s' % (
                sorted(got['GL'])[:8], sorted(got['GS'])[:8], st, src[:8], dst[:8]), 'copy events')

    # ------------------------------------------------------------ the case
    def case(self, s):
        nctx = s.weighted([(3, 1), (1, 2)])
        opts = dict(safe=s.bool(1, 2), threads=s.choice([1, 2, 4]))
        extra = s.weighted([(4, {}), (1, dict(DATA_RACES=True)), (1, dict(UNINITIALIZED=True)), (1, dict(CHECK_API=True)), (1, dict(INST_COUNTS=True))])
        opts['noisy'] = 'DATA_RACES' in extra or 'UNINITIALIZED' in extra
        fd, path = tempfile.mkstemp(prefix='c27_', dir='/tmp')
        os.close(fd)
        try:
            self.run(s, nctx, opts, extra, path)
        finally:
            self.lib.trace_close()
            os.environ.pop('C27_SAFE', None)
            os.unlink(path)

    def run(self, s, nctx, opts, extra, path):
        clrt.setenv(NUM_THREADS=opts['threads'], PLUGINS=OUT + '/trace.so', **extra)
        os.environ.pop('C27_SAFE', None)
        if opts['safe']:
            os.environ['C27_SAFE'] = '1'
        self.lib.trace_open(path.encode())
        hist = []                              # (mark, ctx, check function taking the lines)
        desc = ['%s %s' % (opts, extra)]
        keep = []
        nt = [0]

        def mark(text, ctx, fn):
            self.lib.trace_mark(b'%d' % len(hist))
            hist.append((text, ctx, fn))
            desc.append('ctx%d: %s' % (ctx, text))

        def cover(lines, t):
            c = {}
            for l in lines:
                if l[0] != t:
                    continue
                if l[1] != '1':
                    raise Fail('host access in address space %s' % l[1], 'host events')
                a, n = int(l[2]), int(l[3])
                for b in range(n):
                    if a + b in c:
                        raise Fail('byte %#x twice in %s events' % (a + b, t), 'host events')
                    c[a + b] = l[4][1 + 2 * b:3 + 2 * b] if t == 'HS' else None
            return c

        def only(lines, kinds):
            for l in lines:
                if l[0] not in kinds:
                    raise Fail('unexpected event %s' % l, 'host events')

        def host(b, loads, stores):
            """Events of a command: offsets read, {offset: byte} written, of buffers."""
            def fn(lines):
                only(lines, ('HL', 'HS'))
                l, w = cover(lines, 'HL'), cover(lines, 'HS')
                el = {x.addr + o for x, o in loads}
                ew = {x.addr + o: '%02x' % v for (x, o), v in stores.items()}
                if set(l) != el:
                    raise Fail('host load events cover %s, expected %s' % (span(l), span(el)), 'host events')
                if w != ew:
                    raise Fail('host store events %s, expected %s' % (span(w), span(ew)), 'host events')
            return fn

        def span(x):
            x = sorted(x)
            return '%d bytes %s' % (len(x), [hex(v) for v in x[:2] + x[-2:]])

        cap = clrt.Capture()
        cap.__enter__()
        ctxs = []
        try:
            for i in range(nctx):
                ctxs.append(clrt.Ctx())
            bufs = [[] for _ in ctxs]

            def create(ci, size, kind, data):
                c = ctxs[ci]
                b = Buf()
                b.size, b.data, b.known, b.addr = size, bytearray(data), bytearray([1]) * size, None
                flags = s.choice([1, 1, 0, 2, 4]) if kind != 'x' else 1
                if flags in (2, 4):
                    flags = 1

                def fn(lines):
                    a = [l for l in lines if l[0] == 'A']
                    if len(a) != 1 or a[0][1] != '1' or int(a[0][3]) != size:
                        raise Fail('allocation events %s for a buffer of %d bytes' % (a, size), 'allocation')
                    # the default of no access flag is read-write
                    f = int(a[0][4])
                    if (f & ~1) != (fl & ~1) or (fl & 1 and not f & 1):
                        raise Fail('allocated with flags %#x, created with %#x' % (f, fl), 'allocation')
                    b.addr = int(a[0][2])
                    only(lines, ('A', 'HS'))
                    w = cover(lines, 'HS')
                    if kind == 'copy' and w != {b.addr + i: '%02x' % v for i, v in enumerate(b.init)}:
                        raise Fail('initial data stored as %s' % span(w), 'allocation')
                    if kind != 'copy' and w:
                        raise Fail('store events %s for a buffer without initial data' % span(w), 'allocation')
                b.init = bytes(data)
                host_ptr = None
                fl = flags
                if kind == 'copy':
                    fl |= 32
                    host_ptr = C.cast(C.c_char_p(b.init), C.c_void_p)
                elif kind == 'use':
                    fl |= 8
                    b.host = C.create_string_buffer(b.init, size)
                    host_ptr = C.cast(b.host, C.c_void_p)
                else:
                    b.data = bytearray(size)
                mark('create %d bytes %s flags %d' % (size, kind, fl), ci, fn)
                b.h = clrt.create('clCreateBuffer', c.ctx, fl, size, host_ptr)
                bufs[ci].append(b)
                return b

            def bytes_(n):
                x = s.seed()
                return bytes((x >> (i % 24)) + 37 * i & 255 for i in range(n))

            for ci in range(nctx):
                for _ in range(s.range(1, 3)):
                    n = s.weighted([(3, s.range(16, 200)), (1, s.range(1, 15))])
                    create(ci, n, s.choice(['copy', 'none', 'use']), bytes_(n))
            for _ in range(s.range(2, 7)):
                ci = s.draw(nctx)
                c = ctxs[ci]
                b = s.choice(bufs[ci])
                op = s.weighted([(8, 'kernel'), (2, 'write'), (2, 'read'), (2, 'fill'), (2, 'copy'), (2, 'rect'), (2, 'map'), (1, 'create'), (1, 'sub'), (1, 'swap')])
                o = s.draw(b.size)
                n = s.range(1, b.size - o)
                if op == 'create':
                    z = s.range(1, 100)
                    create(ci, z, s.choice(['copy', 'none', 'use']), bytes_(z))
                elif op == 'swap':
                    # release one and make another: addresses may be used again
                    def fn(lines, b=b):
                        if [l[:3] for l in lines] != [['D', '1', str(b.addr)]]:
                            raise Fail('release of %#x: events %s' % (b.addr, lines[:3]), 'allocation')
                    bufs[ci].remove(b)
                    mark('release', ci, fn)
                    clrt.call('clReleaseMemObject', b.h)
                    z = s.range(1, 100)
                    create(ci, z, 'copy', bytes_(z))
                elif op in ('write', 'sub'):
                    d = bytes_(n)
                    h, oo = b.h, o
                    if op == 'sub':
                        reg = (C.c_size_t * 2)(0, b.size)
                        mark('create sub-buffer', ci, lambda lines: only(lines, ()))
                        h = clrt.create('clCreateSubBuffer', b.h, 0, 0x1220, reg)
                    mark('write %d+%d' % (o, n), ci, host(b, [], {(b, o + i): d[i] for i in range(n)}))
                    clrt.call('clEnqueueWriteBuffer', c.q, h, 1, oo, n, C.cast(C.c_char_p(d), C.c_void_p), 0, None, None)
                    b.data[o:o + n] = d
                    b.known[o:o + n] = bytes([1]) * n
                    if op == 'sub':
                        mark('release sub-buffer', ci, lambda lines: only(lines, ()))
                        clrt.call('clReleaseMemObject', h)
                elif op == 'read':
                    mark('read %d+%d' % (o, n), ci, host(b, [(b, o + i) for i in range(n)], {}))
                    out = C.create_string_buffer(n)
                    clrt.call('clEnqueueReadBuffer', c.q, b.h, 1, o, n, out, 0, None, None)
                elif op == 'fill':
                    p = s.choice([1, 2, 4, 8, 16])
                    o, n = o // p * p, n // p * p
                    if n and o + n <= b.size:
                        d = bytes_(p)
                        mark('fill %d+%d pattern %d' % (o, n, p), ci, host(b, [], {(b, o + i): d[i % p] for i in range(n)}))
                        clrt.call('clEnqueueFillBuffer', c.q, b.h, C.cast(C.c_char_p(d), C.c_void_p), p, o, n, 0, None, None)
                        clrt.call('clFinish', c.q)
                        b.data[o:o + n] = (d * n)[:n]
                        b.known[o:o + n] = bytes([1]) * n
                elif op == 'copy':
                    t = s.choice(bufs[ci])
                    m = min(n, t.size)
                    to = s.draw(t.size - m + 1)
                    if t is not b or to >= o + m or o >= to + m:
                        # the bytes stored are those of the model, where it knows them
                        def fn(lines, b=b, t=t, o=o, to=to, m=m, d=bytes(b.data[o:o + m]), kn=bytes(b.known[o:o + m])):
                            only(lines, ('HL', 'HS'))
                            l, w = cover(lines, 'HL'), cover(lines, 'HS')
                            if set(l) != {b.addr + o + i for i in range(m)} or set(w) != {t.addr + to + i for i in range(m)}:
                                raise Fail('copy: load events %s, store events %s' % (span(l), span(w)), 'host events')
                            for i in range(m):
                                if kn[i] and w[t.addr + to + i] != '%02x' % d[i]:
                                    raise Fail('copy: byte %d stored as %s, expected %02x' % (i, w[t.addr + to + i], d[i]), 'host events')
                        mark('copy %d+%d to %d' % (o, m, to), ci, fn)
                        clrt.call('clEnqueueCopyBuffer', c.q, b.h, t.h, o, to, m, 0, None, None)
                        clrt.call('clFinish', c.q)
                        t.data[to:to + m] = b.data[o:o + m]
                        t.known[to:to + m] = b.known[o:o + m]
                elif op == 'rect':
                    w, h = s.range(1, 6), s.range(1, 3)
                    pitch = w + s.draw(4)
                    need = pitch * h
                    if o + need <= b.size:
                        r = s.bool()
                        d = bytes_(need)
                        offs = [(y * pitch + x) for y in range(h) for x in range(w)]
                        if r:
                            mark('read rect at %d %dx%d pitch %d' % (o, w, h, pitch), ci, host(b, [(b, o + i) for i in offs], {}))
                        else:
                            mark('write rect at %d %dx%d pitch %d' % (o, w, h, pitch), ci, host(b, [], {(b, o + i): d[i] for i in offs}))
                            for i in offs:
                                b.data[o + i] = d[i]
                                b.known[o + i] = 1
                        z = clrt.szarr
                        hp = C.create_string_buffer(d, need)
                        # the origin counts bytes, rows and slices of the buffer
                        clrt.call('clEnqueueReadBufferRect' if r else 'clEnqueueWriteBufferRect', c.q, b.h, 1,
                                  z([o % pitch, o // pitch, 0]) if o % pitch + w <= pitch else z([o, 0, 0]), z([0, 0, 0]), z([w, h, 1]),
                                  pitch, 0, pitch, 0, C.cast(hp, C.c_void_p), 0, None, None)
                elif op == 'map':
                    f = s.choice([1, 2, 3, 4])

                    def fn(lines, b=b, o=o, n=n, f=f):
                        if [l[:5] for l in lines] != [['M', '1', str(b.addr + o), str(n), str(f)]]:
                            raise Fail('map of %#x+%d, %d bytes, flags %d: events %s' % (b.addr, o, n, f, lines[:3]), 'map events')
                    mark('map %d+%d flags %d' % (o, n, f), ci, fn)
                    p = clrt.create('clEnqueueMapBuffer', c.q, b.h, 1, f, o, n, 0, None, None)
                    if f != 1:
                        d = bytes_(n)
                        C.memmove(p, d, n)
                        b.data[o:o + n] = d
                        b.known[o:o + n] = bytes([1]) * n

                    def fn(lines, p=p):
                        if [(l[0], l[-2]) for l in lines] != [('U', str(p))]:
                            raise Fail('unmap of pointer %d: events %s' % (p, lines[:3]), 'map events')
                    mark('unmap', ci, fn)
                    clrt.call('clEnqueueUnmapMemObject', c.q, b.h, p, 0, None, None)
                    clrt.call('clFinish', c.q)
                else:
                    arg = [s.choice(bufs[ci]) for _ in range(s.range(1, 3))]
                    k = self.gen_kernel(s, [a.size for a in arg])
                    src = self.source(k, [a.size for a in arg])
                    prog = {}

                    def fn(lines, prog=prog):
                        only(lines, ('A', 'HS', 'D'))
                        for l in lines:
                            if l[0] == 'HS' and int(l[3]) == 16 and l[4] == 'x0b000000160000002100' + '00002c000000':
                                prog['T'] = int(l[2])
                        a = [l[2] for l in lines if l[0] == 'A' and l[1] == '1']
                        d = [l[2] for l in lines if l[0] == 'D' and l[1] == '1']
                        prog['live'] = set(a) - set(d)
                        if len(a) != len(prog['live']) + len(d):
                            raise Fail('program-scope allocations %s, deallocations %s' % (a, d), 'allocation')
                    gs = k['gs']
                    tot = 1
                    for g in gs:
                        tot *= g
                    x = create(ci, 4 * tot, 'x', bytes(4 * tot))
                    mark('build %s\n%s' % (k['opt'], src), ci, fn)
                    p = clrt.create('clCreateProgramWithSource', c.ctx, 1, (C.c_char_p * 1)(src.encode()), None)
                    if clrt.raw('clBuildProgram')(p, 0, None, k['opt'].encode(), None, None):
                        raise Fail('build failed: ' + c.buildlog(p), 'build')
                    kk = clrt.create('clCreateKernel', p, b'k')
                    c.setargs(kk, [('m', a.h) for a in arg] + [('m', x.h), ('l', k['lsz'])])
                    for _ in range(2 if s.bool(1, 4) and not any(t[0] == 'C' for t in k['body']) else 1):
                        def fn(lines, k=k, arg=arg, x=x, prog=prog):
                            if 'T' not in prog and any(t[0] == 'T' for t in k['body']):
                                raise Fail('no event for the data of a program-scope constant', 'program scope')
                            n = self.check_kernel(lines, k, arg, x.addr, prog.get('T'), opts, None)
                            nt[0] = max(nt[0], n)
                        mark('run global=%s local=%s offset=%s args %s' % (gs, k['ls'], k['off'], [bufs[ci].index(a) for a in arg]), ci, fn)
                        c.ndrange(kk, gs, k['ls'], k['off'] if any(k['off']) else None)
                        for a in arg + [x]:
                            # what the buffer holds now is the business of other properties
                            a.known = bytearray(a.size)

                    def fn(lines, prog=prog):
                        d = [l[2] for l in lines if l[0] == 'D']
                        only(lines, ('D',))
                        if sorted(d) != sorted(prog['live']):
                            raise Fail('program released: deallocations %s, its variables are %s' % (d, prog['live']), 'allocation')
                    mark('release program', ci, fn)
                    clrt.call('clReleaseKernel', kk)
                    clrt.call('clReleaseProgram', p)
            for ci in range(nctx):
                for b in bufs[ci]:
                    def fn(lines, b=b):
                        if [l[:3] for l in lines] != [['D', '1', str(b.addr)]]:
                            raise Fail('release of %#x: events %s' % (b.addr, lines[:3]), 'allocation')
                    mark('release', ci, fn)
                    clrt.call('clReleaseMemObject', b.h)
            self.lib.trace_mark(b'end')
        finally:
            for c in ctxs:
                c.close()
            cap.__exit__(None, None, None)
        self.lib.trace_close()
        s.desc = '\n'.join(desc)
        segs, cur = {}, None
        for line in open(path, encoding='latin1'):
            w = line.split()
            if w[0] == 'MARK':
                cur = int(w[1]) if w[1] != 'end' else None
                if cur is not None:
                    segs[cur] = []
            elif cur is not None:
                # kind, fields..., thread
                segs[cur].append((int(w[0]), w[2:] + [w[1]]))
        for i, (text, ci, fn) in enumerate(hist):
            for tag, l in segs.get(i, ()):
                if tag != ci:
                    raise Fail('step %d (%s, context %d): the plugin of context %d was told %s' % (i, text.split('\n')[0], ci, tag, l), 'other context')
            try:
                fn([l for tag, l in segs.get(i, [])])
            except Fail as e:
                raise Fail('step %d (%s): %s' % (i, text.split('\n')[0], e), e.key)
        s.cls('contexts %d' % nctx)
        s.cls('thread safe' if opts['safe'] else 'not thread safe')
        s.count('kernels', sum(1 for h in hist if h[0].startswith('run')))
        if nt[0] >= 2:
            s.nontrivial((s.desc,))


CHECK = C27()
