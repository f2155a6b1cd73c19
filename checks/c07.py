"""C07: every work-item of the NDRange runs once, with the identifiers OpenCL defines."""
import struct
from math import prod
import clrt
from pbt import Check, Fail

FIELDS = ['get_global_id', 'get_local_id', 'get_group_id', 'get_global_size', 'get_local_size', 'get_num_groups',
          'get_global_offset']
F2 = ['get_enqueued_local_size']
L2 = ['get_global_linear_id', 'get_local_linear_id']
MISC = 64


def source(s, std2, reqd, style):
    """style 0: constant dimension arguments; 1: loop variable; 2: from a buffer."""
    fns = FIELDS + (F2 if std2 else [])
    n = len(fns) * 6 + 4
    body = []
    dims = ['0', '1', '2', '3', '4', '0xffffffffu']
    for k, f in enumerate(fns):
        if style == 0:
            for d in range(6):
                body.append('r[%d] = %s(%s);' % (k * 6 + d, f, dims[d]))
        elif style == 1:
            body.append('for (uint d = 0; d < 5; d++) r[%d + d] = %s(d); r[%d] = %s(0xffffffffu);' % (k * 6, f, k * 6 + 5, f))
        else:
            body.append('for (uint d = 0; d < 6; d++) r[%d + d] = %s(dims[d]);' % (k * 6, f))
    k = len(fns) * 6
    body.append('r[%d] = get_work_dim();' % k)
    body.append('r[%d] = %s;' % (k + 1, 'get_global_linear_id()' if std2 else '0'))
    body.append('r[%d] = %s;' % (k + 2, 'get_local_linear_id()' if std2 else '0'))
    body.append('r[%d] = tag;' % (k + 3))
    attr = '__attribute__((reqd_work_group_size(%d,%d,%d))) ' % tuple(reqd) if reqd else ''
    helper = s.bool()
    src = '''
void rec(global ulong *r, constant uint *dims, ulong tag) { %s }
kernel %svoid k(global ulong *out, global uint *count, global uint *stray, constant uint *dims, ulong total, ulong tag)
{
  size_t x = get_global_id(0) - get_global_offset(0), y = get_global_id(1) - get_global_offset(1),
         z = get_global_id(2) - get_global_offset(2);
  ulong i = (z * get_global_size(1) + y) * get_global_size(0) + x;
  if (x >= get_global_size(0) || y >= get_global_size(1) || z >= get_global_size(2) || i >= total) { atomic_inc(stray); return; }
  atomic_inc(&count[i]);
  %s
}
''' % ('\n  '.join(body) if helper else '', attr,
       'rec(out + i * %d, dims, tag);' % n if helper else 'global ulong *r = out + i * %d;\n  %s' % (n, '\n  '.join(body)))
    return src, fns, n


class C07(Check):
    id = 'C07'
    quick = 7000
    thorough = 120000
    rule = ('a case is one to three launches of one kernel; non-trivial when it has a launch of at least two '
            'work-groups and four work-items with a non-unit local size, an offset or a second dimension; '
            'distinct by launch shapes, language version and query style')
    assumptions = ['each launch has at most 600 work-items']

    def init(self):
        clrt.load(self.b + '/liboclgrind-rt.so')

    def size(self, s, limit):
        return min(limit, s.weighted([(4, 1), (4, 2), (4, 3), (3, 4), (3, 5), (2, 7), (2, 8), (2, 11), (1, 13),
                                      (1, 16), (1, 17), (1, 31), (1, 64)]))

    def case(self, s):
        std2 = s.bool()
        style = s.draw(3)
        reqd = None
        if s.bool(1, 4):
            reqd = [s.range(1, 4), s.range(1, 3), s.range(1, 3)]
        opts = s.choice(['', '-cl-opt-disable', '-O2', '-O3'])
        uniform = not std2
        if std2:
            opts += ' -cl-std=CL2.0'
            if s.bool(1, 4):
                opts += ' -cl-uniform-work-group-size'
                uniform = True
        launches = []
        for _ in range(s.range(1, 3)):
            dims = s.range(1, 3)
            if reqd:
                reqd = [reqd[d] if d < dims else 1 for d in range(3)]
            launches.append([dims])
        if reqd:
            dmin = min(l[0] for l in launches)
            reqd = [reqd[d] if d < dmin else 1 for d in range(3)]
        env = {'NUM_THREADS': s.weighted([(3, 1), (2, 2), (2, 3), (1, 4), (1, 8), (1, 16)])}
        plug = s.weighted([(4, ''), (1, 'DATA_RACES'), (1, 'INST_COUNTS'), (1, 'UNINITIALIZED')])
        if plug:
            env[plug] = True
        desc = []
        for l in launches:
            dims = l[0]
            lsz = None
            mode = s.weighted([(4, 'given'), (1, 'null'), (1, 'task')])
            if mode == 'task':
                if reqd and reqd != [1, 1, 1]:
                    mode = 'given'
                else:
                    l[0] = dims = 1
            gsz, left = [], 600
            for d in range(dims):
                g = 1 if mode == 'task' else self.size(s, left)
                gsz.append(g)
                left = max(1, left // g)
            if mode == 'given':
                lsz = []
                for d in range(dims):
                    if reqd:
                        lsz.append(reqd[d])
                    elif uniform:
                        lsz.append(s.choice([x for x in range(1, gsz[d] + 1) if gsz[d] % x == 0]))
                    else:
                        lsz.append(s.range(1, min(gsz[d] + s.draw(3), 1024 // prod(lsz))))
                if reqd and uniform:
                    gsz = [-(-gsz[d] // lsz[d]) * lsz[d] for d in range(dims)]
                if s.bool(1, 20):
                    d = s.draw(dims)
                    gsz[d] = 0
            off = None
            if mode != 'task' and s.bool(1, 2):
                off = [s.weighted([(2, 0), (2, 1), (2, 3), (2, 7), (2, 100), (1, 65536), (1, (1 << 32) + 5),
                                   (1, 1 << 40)]) for _ in range(dims)]
            l += [mode, gsz, lsz, off]
        src, fns, n = source(s, std2, reqd, style)
        s.desc = 'opts=%r env=%r reqd=%s launches=%s\n%s' % (opts, env, reqd, launches, src)
        clrt.setenv(**env)
        for l in launches:
            s.cls('%d-d %s%s' % (l[0], l[1], ' offset' if l[4] else ''))
            g, w = l[2], l[3]
            if w and any(a % b for a, b in zip(g, w)):
                s.cls('remainder groups')
        with clrt.Capture() as cap:
            with clrt.Ctx() as c:
                k = c.kernel(c.program(src, opts), 'k')
                for tag, l in enumerate(launches):
                    self.launch(s, c, k, l, fns, n, reqd, uniform, std2, tag + 1)
        if cap.stderr or cap.stdout:
            if not (plug == 'INST_COUNTS' and not cap.stderr):
                raise Fail('unexpected output:\n%s%s' % (cap.stdout[:1500], cap.stderr[:1500]), 'output')

    def launch(self, s, c, k, l, fns, n, reqd, uniform, std2, tag):
        dims, mode, gsz, lsz, off = l
        total = 1
        for g in gsz:
            total *= g
        G = [gsz[d] if d < dims else 1 for d in range(3)]
        O = [off[d] if off and d < dims else 0 for d in range(3)]
        cap = max(total, 1)
        out = c.buffer(cap * n * 8, b'\xee' * (cap * n * 8))
        cnt = c.buffer((cap + MISC) * 4, bytes((cap + MISC) * 4))
        stray = c.buffer(4, bytes(4))
        dv = c.buffer(24, struct.pack('<6I', 0, 1, 2, 3, 4, 0xffffffff))
        c.setargs(k, [('m', out), ('m', cnt), ('m', stray), ('m', dv), ('b', struct.pack('<Q', total)),
                      ('b', struct.pack('<Q', tag))])
        try:
            if mode == 'task':
                clrt.call('clEnqueueTask', c.q, k, 0, None, None)
                clrt.call('clFinish', c.q)
            else:
                c.ndrange(k, gsz, lsz, off)
        except clrt.CLError as e:
            # CL_INVALID_WORK_GROUP_SIZE is allowed when a required size is not given
            if mode == 'null' and reqd and e.code == -54:
                return
            if total == 0 and e.code == -63:
                return
            raise
        counts = struct.unpack('<%dI' % (cap + MISC), c.read(cnt, (cap + MISC) * 4))
        st = struct.unpack('<I', c.read(stray, 4))[0]
        raw = struct.unpack('<%dQ' % (cap * n), c.read(out, cap * n * 8))
        if st:
            raise Fail('launch %s: %d executions outside the NDRange' % (l, st), 'stray')
        for i in range(cap + MISC):
            want = 1 if i < total else 0
            if counts[i] != want:
                raise Fail('launch %s: work-item %d ran %d times instead of %d' % (l, i, counts[i], want), 'count')
        if total == 0:
            return
        if lsz:
            L = [lsz[d] if d < dims else 1 for d in range(3)]
        else:
            # the implementation chooses: take what the first work-item was told
            kk = fns.index('get_enqueued_local_size' if std2 else 'get_local_size')
            L = [raw[kk * 6 + d] for d in range(3)]
            if any(x < 1 for x in L) or any(L[d] != 1 for d in range(dims, 3)) or L[0] * L[1] * L[2] > 1024 or \
                    (uniform and any(G[d] % L[d] for d in range(3))):
                raise Fail('launch %s: implementation chose local size %s' % (l, L), 'auto local size')
            if reqd and L != reqd:
                raise Fail('launch %s: local size %s chosen although %s is required' % (l, L, reqd), 'reqd')
        N = [-(-G[d] // L[d]) for d in range(3)]
        if total >= 4 and N[0] * N[1] * N[2] >= 2 and (max(L) > 1 or off or dims > 1):
            s.nontrivial((dims, mode, tuple(G), tuple(L), tuple(O), uniform, std2))
        s.count('work-items', total)
        i = 0
        for z in range(G[2]):
            for y in range(G[1]):
                for x in range(G[0]):
                    p = (x, y, z)
                    grp = [p[d] // L[d] for d in range(3)]
                    lid = [p[d] % L[d] for d in range(3)]
                    ls = [min(L[d], G[d] - grp[d] * L[d]) for d in range(3)]
                    exp = {'get_global_id': ([O[d] + p[d] for d in range(3)], 0), 'get_local_id': (lid, 0),
                           'get_group_id': (grp, 0), 'get_global_size': (G, 1), 'get_local_size': (ls, 1),
                           'get_num_groups': (N, 1), 'get_global_offset': (O, 0), 'get_enqueued_local_size': (L, 1)}
                    want = []
                    for f in fns:
                        v, o = exp[f]
                        want += list(v) + [o] * 3
                    want.append(dims)
                    want.append(((z * G[1] + y) * G[0] + x) if std2 else 0)
                    want.append(((lid[2] * ls[1] + lid[1]) * ls[0] + lid[0]) if std2 else 0)
                    want.append(tag)
                    got = raw[i * n:(i + 1) * n]
                    if list(got) != want:
                        for j in range(n):
                            if got[j] != want[j]:
                                nm = '%s(%s)' % (fns[j // 6], ['0', '1', '2', '3', '4', '0xffffffff'][j % 6]) \
                                    if j < len(fns) * 6 else ['get_work_dim', 'get_global_linear_id',
                                                              'get_local_linear_id', 'tag'][j - len(fns) * 6]
                                raise Fail('launch %s: work-item %s: %s = %d, expected %d' % (l, p, nm, got[j], want[j]),
                                           'value ' + nm.split('(')[0])
                    i += 1


CHECK = C07()
