"""C02: options, plugins and threads never change what a correct program computes."""
import ctypes as C
import os
import random
import re
import struct
import tempfile
import clrt
import clgen
from clb import int_values
from pbt import Check, Fail, Discard

NIN = 4
WIDE = re.compile(r'Unsupported (signed |unsigned |constant )?int size: (9|\d\d+) bytes')
DIAG = ['DATA_RACES', 'UNINITIALIZED', 'INST_COUNTS', 'CHECK_API', 'UNIFORM_WRITES', 'LOG']


class Gen:
    """Race-free multi-work-item kernel over a group-private slice of global memory."""

    def __init__(self, s, W, G, dims, vec):
        self.s, self.W, self.G, self.dims, self.vec = s, W, G, dims, vec
        self.nx = 4
        self.uid = 0
        self.feat = set()
        self.locals = []
        self.pred = False       # inside a non-uniform branch

    def x(self):
        return 'x%d' % self.s.draw(self.nx)

    def e(self, d=0):
        s = self.s
        k = s.weighted([(4, 'x'), (2, 'lit'), (5 if d < 3 else 0, 'bin'), (2 if d < 3 else 0, 'fn'), (1, 'id'),
                        (1 if d < 2 else 0, 'sel'), (1, 'const'), (1 if d < 3 else 0, 'call'), (1 if d < 3 else 0, 'flt'),
                        (1 if self.vec and d < 2 else 0, 'vec')])
        if k == 'x':
            return self.x()
        if k == 'lit':
            return '%du' % s.choice([0, 1, 2, 3, 7, 255, 65537, 0x80000000, 0xffffffff])
        if k == 'bin':
            op = s.choice(['+', '-', '*', '^', '&', '|', '<<', '>>', '/', '%'])
            a, b = self.e(d + 1), self.e(d + 1)
            if op in ('<<', '>>'):
                b = '(%s & 31u)' % b
            if op in '/%':
                b = '(%s | 1u)' % b
            return '(%s %s %s)' % (a, op, b)
        if k == 'fn':
            f = s.choice(['rotate', 'popcount', 'clz', 'mul_hi', 'mad24', 'abs_diff', 'min', 'max', 'add_sat', 'hadd', 'bitselect'])
            n = {'popcount': 1, 'clz': 1, 'mad24': 3, 'bitselect': 3}.get(f, 2)
            a = [self.e(d + 1) for _ in range(n)]
            if f == 'mad24':
                a[:2] = ['(%s & 0xffffffu)' % q for q in a[:2]]
            return '%s(%s)' % (f, ', '.join(a))
        if k == 'id':
            return '(uint)%s(%d)' % (s.choice(['get_global_id', 'get_local_id', 'get_group_id', 'get_local_size',
                                               'get_global_size', 'get_num_groups']), s.draw(3))
        if k == 'sel':
            return '(%s > %s ? %s : %s)' % (self.e(d + 1), self.e(d + 1), self.e(d + 1), self.e(d + 1))
        if k == 'const':
            return 'tab[%s & 7u]' % self.e(d + 1)
        if k == 'call':
            self.feat.add('call')
            return 'mix(%s, %s)' % (self.e(d + 1), self.e(d + 1))
        if k == 'flt':
            return 'as_uint(%s((float)(%s & 0xffffu)))' % (s.choice(['sqrt', 'floor', 'fabs', '', 'rint']), self.e(d + 1))
        self.feat.add('vec')
        return '((uint4)(%s, %s, %s, %s)%s).s%d' % (self.e(d + 1), self.e(d + 1), self.x(), self.x(), s.choice(['', '.wzyx', '.s1133', ' * 3u']), s.draw(4))

    def stmts(self, n, depth, uniform):
        out = []
        for _ in range(n):
            out += self.stmt(depth, uniform)
        return out

    def name(self, p):
        self.uid += 1
        return '%s%d' % (p, self.uid)

    def stmt(self, depth, uniform):
        s = self.s
        u = uniform
        k = s.weighted([(4, 'set'), (1, 'atom'), (2 if depth else 0, 'if'), (2 if depth else 0, 'loop'), (1, 'parr'), (1, 'struct'),
                        (2 if u else 0, 'lx'), (2 if u else 0, 'gx'), (1 if u else 0, 'latom'), (1 if u else 0, 'async'),
                        (1 if u else 0, 'bar'), (1 if depth and u else 0, 'uif'), (1 if depth and u else 0, 'uloop'),
                        (1, 'ptr'), (1 if depth else 0, 'switch')])
        self.feat.add(k)
        if k == 'set':
            return ['%s %s %s;' % (self.x(), s.choice(['=', '+=', '^=', '*=']), self.e())]
        if k == 'atom':
            op = s.choice(['add', 'sub', 'xor', 'or', 'and', 'min', 'max', 'inc', 'dec'])
            # one counter for each operation: the final value is then independent of the order
            i = ['add', 'xor', 'or', 'and', 'min', 'max'].index({'sub': 'add', 'inc': 'add', 'dec': 'add'}.get(op, op))
            return ['atomic_%s(&cnt[%d]%s);' % (op, i, '' if op in ('inc', 'dec') else ', ' + self.e())]
        if k == 'if':
            o = ['if (%s > %s) {' % (self.e(), self.e())] + self.stmts(s.range(1, 3), depth - 1, False)
            if s.bool():
                o += ['} else {'] + self.stmts(s.range(1, 2), depth - 1, False)
            return o + ['}']
        if k == 'switch':
            return ['switch (%s %% 4u) {' % self.e(), 'case 0:'] + self.stmts(1, depth - 1, False) + ['break;', 'case 2:'] + \
                self.stmts(1, depth - 1, False) + ['default:'] + self.stmts(1, depth - 1, False) + ['}']
        if k == 'loop':
            i = self.name('i')
            return ['for (uint %s = 0; %s < (%s & 7u); %s++) {' % (i, i, self.x(), i)] + \
                ['%s += %s * 3u;' % (self.x(), i)] + self.stmts(s.range(1, 2), depth - 1, False) + ['}'] \
                if False else ['{ uint lim = %s & 7u; for (uint %s = 0; %s < lim; %s++) {' % (self.e(), i, i, i)] + \
                ['%s += %s * 3u;' % (self.x(), i)] + self.stmts(s.range(1, 2), depth - 1, False) + ['} }']
        if k == 'parr':
            a = self.name('p')
            return ['uint %s[4] = {%s, %s, %s, %s};' % (a, self.x(), self.e(), self.e(), self.x()),
                    '%s[%s & 3u] = %s;' % (a, self.e(), self.e()), '%s ^= %s[%s & 3u];' % (self.x(), a, self.e())]
        if k == 'struct':
            a = self.name('s')
            return ['struct S %s = step((struct S){%s, (ushort)%s, %s});' % (a, self.e(), self.e(), self.x()),
                    '%s += %s.a ^ %s.b;' % (self.x(), a, a), '%s -= %s.c;' % (self.x(), a)]
        if k == 'ptr':
            return ['bump(&%s, %s);' % (self.x(), self.e())]
        if k == 'lx':
            l = self.name('l')
            self.locals.append('local uint %s[%d];' % (l, self.W))
            f = s.choice(['CLK_LOCAL_MEM_FENCE', 'CLK_LOCAL_MEM_FENCE | CLK_GLOBAL_MEM_FENCE'])
            return ['%s[lid] = %s;' % (l, self.e()), 'barrier(%s);' % f,
                    '%s ^= %s[(lid + %s) %% %du];' % (self.x(), l, self.e(), self.W), 'barrier(%s);' % f]
        if k == 'gx':
            f = s.choice(['CLK_GLOBAL_MEM_FENCE', 'CLK_LOCAL_MEM_FENCE | CLK_GLOBAL_MEM_FENCE'])
            o = s.draw(2)
            return ['g%d[grp * %d + lid] = %s;' % (o, self.W, self.e()), 'barrier(%s);' % f,
                    '%s += g%d[grp * %d + (lid + %s) %% %du];' % (self.x(), o, self.W, self.e(), self.W), 'barrier(%s);' % f]
        if k == 'latom':
            l = self.name('c')
            self.locals.append('local uint %s;' % l)
            op = s.choice(['add', 'xor', 'max', 'or'])
            return ['if (lid == %d) %s = %s;' % (s.draw(self.W), l, self.e()), 'barrier(CLK_LOCAL_MEM_FENCE);',
                    'atomic_%s(&%s, %s);' % (op, l, self.e()), 'barrier(CLK_LOCAL_MEM_FENCE);', '%s += %s;' % (self.x(), l),
                    'barrier(CLK_LOCAL_MEM_FENCE);']
        if k == 'async':
            l = self.name('a')
            self.locals.append('local uint %s[%d];' % (l, self.W))
            ev = self.name('e')
            return ['event_t %s = async_work_group_copy(%s, in + grp * %d, %d, 0);' % (ev, l, self.W, self.W),
                    'wait_group_events(1, &%s);' % ev, '%s += %s[(lid + %du) %% %du];' % (self.x(), l, s.draw(4), self.W),
                    'barrier(CLK_LOCAL_MEM_FENCE);']
        if k == 'bar':
            return ['barrier(%s);' % s.choice(['CLK_LOCAL_MEM_FENCE', 'CLK_GLOBAL_MEM_FENCE', '0'])]
        if k == 'uif':
            return ['if ((grp & 1u) == %du) {' % s.draw(2)] + self.stmts(s.range(1, 3), depth - 1, True) + ['}']
        i = self.name('i')
        return ['for (uint %s = 0; %s < (grp + %du) %% 3u; %s++) {' % (i, i, s.draw(3), i)] + self.stmts(s.range(1, 2), depth - 1, True) + ['}']

    def kernel(self, name, n, depth):
        body = self.stmts(n, depth, True)
        lid = 'get_local_id(1) * get_local_size(0) + get_local_id(0)' if self.dims == 2 else 'get_local_id(0)'
        grp = 'get_group_id(1) * get_num_groups(0) + get_group_id(0)' if self.dims == 2 else 'get_group_id(0)'
        return '\n'.join(['kernel void %s(global const uint *in, global uint *g0, global uint *g1, global uint *cnt, global uint *out)' % name, '{'] +
                         self.locals +
                         ['uint lid = %s, grp = %s, me = grp * %du + lid;' % (lid, grp, self.W)] +
                         ['uint x%d = in[me] * %du + me;' % (i, 2 * i + 1) for i in range(self.nx)] +
                         body + ['out[me] = %s;' % ' ^ '.join('rotate(x%d, %du)' % (i, 7 * i) for i in range(self.nx)), '}', ''])


HEAD = '''constant uint tab[8] = {3, 1, 4, 1, 5, 9, 2, 6};
struct S { uint a; ushort b; uint c; };
uint mix(uint a, uint b) { a ^= b * 2654435761u; if (a & 1u) a = a * 3u + 1u; return a ^ (a >> 15); }
struct S step(struct S s) { s.a += s.c; s.b ^= (ushort)s.a; return s; }
void bump(private uint *p, uint d) { *p = *p * 5u + d; }
'''


class C02(Check):
    id = 'C02'
    quick = 4500
    thorough = 80000
    case_timeout = 120.0
    rule = ('a case is one race-free program (1-3 launches of generated kernels with host commands between) run in a plain '
            'single-threaded configuration and in 2-3 others; non-trivial when two configurations differ in thread count or '
            'in a diagnostic facility and a kernel uses at least three features; distinct by source and configurations')
    assumptions = ['instruction counting may print its histograms on standard output, and nothing else',
                   'the uninitialized plugin runs with optimised vector code only in its own check (C13)',
                   'atomics only through commutative operations whose old values are not used']

    def init(self):
        clrt.load(self.b + '/liboclgrind-rt.so')

    def config(self, s, optd):
        on = s.subset(DIAG) if s.bool(3, 4) else list(DIAG)
        cfg = {k: True for k in on}
        if optd:
            cfg.pop('UNINITIALIZED', None)
        cfg['NUM_THREADS'] = s.choice([1, 2, 3, 4, 8, 16])
        if s.bool(1, 6):
            cfg['COMPUTE_UNITS'] = s.choice([1, 4, 64])
        if s.bool(1, 8):
            cfg['MAX_ERRORS'] = s.choice([1, 10])
        return cfg

    def case(self, s):
        optd = s.bool(1, 3)
        opts = s.choice(['', '-O1', '-O2', '-cl-mad-enable']) if optd else '-cl-opt-disable'
        if s.bool(1, 3):
            self.single(s, opts, optd)
        else:
            self.groups(s, opts, optd)

    def configs(self, s, optd):
        return [{'NUM_THREADS': 1}] + [self.config(s, optd) for _ in range(s.range(2, 3))]

    # a generated single-work-item function under every facility
    def single(self, s, opts, optd):
        g = clgen.Gen(s, budget=s.range(3, 20), floats=s.bool(3, 4), vectors=s.bool(3, 4), depth=s.range(2, 4))
        src, slots, feat = g.program(NIN)
        if len(src) > 40000:
            raise Discard()
        n = s.range(1, 6)
        r = random.Random(s.seed())
        vals = []
        for _ in range(n * NIN):
            vals += int_values(r, 'ulong', 1)
        data = struct.pack('<%dQ' % len(vals), *vals)
        src += ('kernel void k(global ulong *o, global const ulong *in) '
                '{ size_t i = get_global_id(0); body(o + i * %d, in + i * %d); }\n' % (slots, NIN))
        cfgs = self.configs(s, optd)
        s.desc = 'options "%s", %d work-items, configurations %s\n%s' % (opts, n, cfgs, src)
        s.cls('function')
        if len(feat) >= 3:
            s.nontrivial((src, str(cfgs)))

        def run():
            with clrt.Ctx() as c:
                p = c.program(src, opts)
                k = c.kernel(p, 'k')
                ob = c.buffer(max(8, slots * 8 * n), bytes(max(8, slots * 8 * n)))
                ib = c.buffer(len(data), data)
                c.setargs(k, [('m', ob), ('m', ib)])
                c.ndrange(k, [n], [1])
                return [c.read(ob, max(8, slots * 8 * n)), c.read(ib, len(data))]
        self.compare(s, cfgs, run)

    def groups(self, s, opts, optd):
        dims = s.weighted([(3, 1), (1, 2)])
        W = s.choice([1, 2, 3, 4, 6, 8])
        G = s.choice([1, 2, 3, 5, 8, 12])
        if dims == 2:
            wx = s.choice([x for x in range(1, W + 1) if W % x == 0])
            gx = s.choice([x for x in range(1, G + 1) if G % x == 0])
            glob, loc = [wx * gx, (W // wx) * (G // gx)], [wx, W // wx]
        else:
            glob, loc = [W * G], [W]
        feats = set()
        src = HEAD
        nk = s.range(1, 2)
        for i in range(nk):
            g = Gen(s, W, G, dims, not optd)
            src += g.kernel('k%d' % i, s.range(1, 9), s.range(0, 3))
            feats |= g.feat
        N = W * G
        plan = []
        for _ in range(s.range(1, 3)):
            plan.append(('run', s.draw(nk)))
            if s.bool():
                plan.append(s.choice(['swap', 'copy', 'fill', 'write', 'map', 'read']))
        r = random.Random(s.seed())
        data = struct.pack('<%dI' % N, *[r.getrandbits(32) for _ in range(N)])
        cfgs = self.configs(s, optd)
        s.desc = 'options "%s", %s work-items in groups of %s, plan %s, configurations %s\n%s' % (opts, glob, loc, plan, cfgs, src)
        for f in feats:
            s.cls(f)
        if len(feats) >= 3:
            s.nontrivial((src, str(cfgs)))

        def run():
            rec = []
            with clrt.Ctx() as c:
                p = c.program(src, opts)
                ks = [c.kernel(p, 'k%d' % i) for i in range(nk)]
                bi = c.buffer(N * 4, data)
                bo = c.buffer(N * 4, bytes(N * 4))
                g0, g1 = c.buffer(N * 4, bytes(N * 4)), c.buffer(N * 4, data)
                cn = c.buffer(24, struct.pack('<6I', 5, 7, 0, 0xffffffff, 0xffffffff, 0))
                for st in plan:
                    if isinstance(st, tuple):
                        c.setargs(ks[st[1]], [('m', bi), ('m', g0), ('m', g1), ('m', cn), ('m', bo)])
                        c.ndrange(ks[st[1]], glob, loc, finish=False)
                    elif st == 'swap':
                        bi, bo = bo, bi
                    elif st == 'copy':
                        rec.append(clrt.raw('clEnqueueCopyBuffer')(c.q, bo, g0, 0, 0, N * 4, 0, None, None))
                    elif st == 'fill':
                        rec.append(clrt.raw('clEnqueueFillBuffer')(c.q, bi, C.cast(C.c_char_p(b'\1\2\3\4'), clrt.vp), 4, 0, N * 4, 0, None, None))
                    elif st == 'write':
                        c.write(g1, data)
                    elif st == 'map':
                        m = clrt.create('clEnqueueMapBuffer', c.q, bi, 1, 3, 0, N * 4, 0, None, None)
                        C.memmove(m + N * 4 - 4, b'abcd', 4)
                        rec.append(clrt.raw('clEnqueueUnmapMemObject')(c.q, bi, m, 0, None, None))
                    else:
                        rec.append(c.read(bo, N * 4))
                rec.append(clrt.raw('clFinish')(c.q))
                for b in (bi, bo, g0, g1):
                    rec.append(c.read(b, N * 4))
                rec.append(c.read(cn, 24))
            return rec
        self.compare(s, cfgs, run)

    def compare(self, s, cfgs, run):
        base = None
        for cfg in cfgs:
            log = None
            env = dict(cfg)
            if env.pop('LOG', None):
                fd, log = tempfile.mkstemp(prefix='c02_', dir='/tmp')
                os.close(fd)
                env['LOG'] = log
            clrt.setenv(**env)
            try:
                with clrt.Capture() as cap:
                    try:
                        rec = run()
                    except clrt.CLError as e:
                        t = cap.peek()[1].decode('latin1')
                        if log:
                            t += open(log).read()
                        if WIDE.search(t):
                            s.excluded('wide-int')
                            return
                        raise
                text = open(log).read() if log else ''
            finally:
                if log:
                    os.unlink(log)
            err = re.sub(r'(?m)^\d+ warnings? generated\.\n', '', cap.stderr)
            if WIDE.search(err + text):
                s.excluded('wide-int')
                return
            if err or text:
                raise Fail('configuration %s: a correct program is reported:\n%s%s' % (cfg, err[:2500], text[:2500]), 'diag')
            out = cap.stdout
            if cfg.get('INST_COUNTS') != (True if out else None):
                raise Fail('configuration %s: standard output is\n%s' % (cfg, out[:1000]), 'stdout')
            if base is None:
                base = rec
            elif rec != base:
                for i, (a, b) in enumerate(zip(base, rec)):
                    if a != b:
                        if isinstance(a, bytes):
                            j = next(j for j in range(len(a)) if a[j] != b[j])
                            raise Fail('configuration %s: result %d differs from the plain configuration at byte %d: %s instead of %s' % (
                                cfg, i, j, b[j & ~3:(j & ~3) + 8].hex(), a[j & ~3:(j & ~3) + 8].hex()), 'result')
                        raise Fail('configuration %s: return code %s instead of %s' % (cfg, b, a), 'result')


CHECK = C02()
