"""C20: programs built, compiled, linked, serialised and rebuilt."""
import ctypes as C
import os
import shutil
import struct
import tempfile
import clrt
from clrt import vp, szarr, parr, call, raw, create, PROGCB
from pbt import Check, Fail

M32 = 0xFFFFFFFF
NONE, COMPILED, LIBRARY, EXECUTABLE = 0, 1, 2, 4
PRE = {'__OPENCL_VERSION__': 300, '__IMAGE_SUPPORT__': 1, '__ENDIAN_LITTLE__': 1}
STD = {'CL1.0': 100, 'CL1.1': 110, 'CL1.2': 120, 'CL2.0': 200, 'CL3.0': 300}
HEADERS = ['h0.h', 'sub/h1.h', 'h2.inc']
IGNORED = ['-cl-mad-enable', '-cl-kernel-arg-info', '-cl-opt-disable', '-cl-denorms-are-zero', '-cl-no-signed-zeros', '-cl-strict-aliasing', '-cl-fast-relaxed-math',
           '-cl-finite-math-only', '-cl-unsafe-math-optimizations', '-cl-fp32-correctly-rounded-divide-sqrt', '-O0', '-O2']


class Unit:
    """Source text with its definitions."""

    def __init__(self, name):
        self.name = name
        self.funcs = {}         # name -> (linkage, expr)
        self.tables = {}        # name -> (linkage, values)
        self.globs = {}         # name -> (linkage, value)
        self.kernels = {}       # name -> (expr, reqd size or 0, (global, increment) or None, peek global or None)
        self.includes = []
        self.broken = None


class Inst:
    """A unit compiled with particular options."""

    def __init__(self, unit, env):
        self.unit, self.env = unit, env


class Env:
    def __init__(self):
        self.defs = {}          # macros defined by options: name -> value (or function for FN0)
        self.headers = {}       # header name -> variant
        self.std = 'CL1.2'


class Var:
    """One variant of a header."""

    def __init__(self, name, const, expr, includes):
        self.name, self.const, self.expr, self.includes = name, const, expr, includes


class Prog:
    pass


class C20(Check):
    id = 'C20'
    quick = 4000
    thorough = 80000
    case_timeout = 60
    rule = ('a case is a project (functions, tables, globals and kernels spread over up to four units, headers in three variants) and a history of up to sixteen source, build, '
            'compile, link, library, serialise, rebuild and release operations; non-trivial when the results of a kernel using a symbol of another unit, a header or an option were '
            'compared; distinct by operations and sources')
    assumptions = ['sources whose external symbols are not all defined are only compiled or linked to libraries, never executed',
                   'the error code for an unknown option may be CL_INVALID_BUILD_OPTIONS or the build failure code',
                   'whether a program created from the binary of an executable can be used before clBuildProgram is not judged',
                   'options that Oclgrind documents as ignored are only required not to disturb the others']

    def init(self):
        clrt.load(self.b + '/liboclgrind-rt.so')
        self.dev = clrt.device()[1]

    # ------------------------------------------------------------ generation
    def expr(self, s, d, unit, fns, header=None):
        """Expression over x; fns: functions that may be called, header: restrict to what headers can use"""
        k = s.weighted([(3, 'x'), (2, 'c'), (3, 'm'), (4, 'bin'), (2, 'sel'), (1, 'pre'), (5, 'call'), (2, 'tab'), (2, 'hc'), (2, 'hf'), (1, 'fn'), (1, 'sh')])
        if d <= 0 and k in ('bin', 'sel', 'call', 'tab', 'hf', 'fn', 'sh'):
            k = 'x'
        if k == 'c':
            return ('c', s.draw(1 << 32))
        if k == 'm':
            return ('m', 'M%d' % s.draw(4))
        if k == 'pre':
            return ('pre', s.choice(list(PRE) + ['__OPENCL_C_VERSION__']))
        if k == 'bin':
            return ('bin', s.choice('+-*^&|'), self.expr(s, d - 1, unit, fns, header), self.expr(s, d - 1, unit, fns, header))
        if k == 'sh':
            return ('sh', s.choice(['<<', '>>']), self.expr(s, d - 1, unit, fns, header), s.draw(32))
        if k == 'sel':
            return ('sel', 'F%d' % s.draw(3), self.expr(s, d - 1, unit, fns, header), self.expr(s, d - 1, unit, fns, header))
        if k == 'fn':
            return ('fn', self.expr(s, d - 1, unit, fns, header))
        if header is None:
            if k == 'call' and fns:
                return ('call', s.choice(fns), self.expr(s, d - 1, unit, fns))
            if k == 'tab' and self.tabs:
                return ('tab', s.choice(self.tabs), self.expr(s, d - 1, unit, fns))
            if k in ('hc', 'hf') and unit.includes:
                h = s.choice(unit.includes)
                return ('hc', h) if k == 'hc' else ('hf', h, self.expr(s, d - 1, unit, fns))
        return ('x',)

    def text(self, e):
        k = e[0]
        if k == 'x':
            return 'x'
        if k == 'c':
            return '0x%xu' % e[1]
        if k in ('m', 'pre'):
            return '((uint)(%s))' % e[1]
        if k == 'bin':
            return '(%s %s %s)' % (self.text(e[2]), e[1], self.text(e[3]))
        if k == 'sh':
            return '(%s %s %d)' % (self.text(e[2]), e[1], e[3])
        if k == 'sel':
            return '%s_SEL((%s), (%s))' % (e[1], self.text(e[2]), self.text(e[3]))
        if k == 'fn':
            return 'FN0(%s)' % self.text(e[1])
        if k == 'call':
            return '%s(%s)' % (e[1], self.text(e[2]))
        if k == 'tab':
            return '%s[(%s) & 3u]' % (e[1], self.text(e[2]))
        if k == 'hc':
            return self.hname(e[1]) + '_C'
        if k == 'hf':
            return '%s_f(%s)' % (self.hname(e[1]), self.text(e[2]))

    @staticmethod
    def hname(h):
        return 'H' + h.replace('/', '_').replace('.', '_')

    def guards(self):
        out = []
        for k in range(4):
            out.append('#ifndef M%d\n#define M%d 0x%xu\n#endif' % (k, k, self.defaults[k]))
        for k in range(3):
            out.append('#ifndef F%d_SEL\n#ifdef F%d\n#define F%d_SEL(a, b) (a)\n#else\n#define F%d_SEL(a, b) (b)\n#endif\n#endif' % (k, k, k, k))
        out.append('#ifndef FN0\n#define FN0(v) ((v) + 1u)\n#endif')
        return '\n'.join(out) + '\n'

    def headertext(self, v):
        n = self.hname(v.name)
        return ('#ifndef %s_H\n#define %s_H\n%s%s#define %s_C 0x%xu\nstatic uint %s_f(uint x) { return %s; }\n#endif\n'
                % (n, n, ''.join('#include "%s"\n' % i for i in v.includes), self.guards(), n, v.const, n, self.text(v.expr)))

    def source(self, u):
        out = ['// %s' % u.name]
        out += ['#include "%s"' % h for h in u.includes]
        out.append(self.guards().rstrip())
        out.append('#ifdef BAD0\n#error option bad0\n#endif')
        out.append('#ifdef WARN0\n#warning option warn0\n#endif')
        if u.broken and u.broken[0] == 'before':
            out.append(u.broken[1])
        own = set(u.funcs) | set(u.tables) | set(u.globs)
        for n, o in self.home.items():
            if n not in own and not n.startswith('s_') and self.used(u, n):
                if n in self.tabs:
                    out.append('extern constant uint %s[4];' % n)
                elif n in self.globnames:
                    out.append('extern global uint %s;' % n)
                else:
                    out.append('uint %s(uint x);' % n)
        for n, (l, v) in u.tables.items():
            out.append('%sconstant uint %s[4] = {%s};' % ('static ' if l else '', n, ', '.join('0x%xu' % x for x in v)))
        for n, (l, v) in u.globs.items():
            out.append('%sglobal uint %s = 0x%xu;' % ('static ' if l else '', n, v))
        for n, (l, e) in u.funcs.items():
            out.append('%suint %s(uint x);' % ('static ' if l else '', n))
        for n, (l, e) in u.funcs.items():
            out.append('%suint %s(uint x) { return %s; }' % ('static ' if l else '', n, self.text(e)))
        for n, (e, req, bump, peek) in u.kernels.items():
            attr = '__attribute__((reqd_work_group_size(%d, 1, 1))) ' % req if req else ''
            body = 'uint i = get_global_id(0); uint x = i * a + 7u; out[i] = %s;' % (peek if peek else self.text(e))
            if bump:
                body += ' if (i == 0) %s += 0x%xu;' % bump
            out.append('kernel %svoid %s(global uint *out, const uint a) { %s }' % (attr, n, body))
        if u.broken and u.broken[0] == 'after':
            out.append(u.broken[1])
        return '\n'.join(out) + '\n'

    def refs(self, e):
        k = e[0]
        r = set()
        if k in ('call', 'tab'):
            r.add(e[1])
        for x in e[1:]:
            if isinstance(x, tuple):
                r |= self.refs(x)
        return r

    def unitrefs(self, u):
        r = set()
        for l, e in u.funcs.values():
            r |= self.refs(e)
        for e, _, bump, peek in u.kernels.values():
            r |= self.refs(e)
            if bump:
                r.add(bump[0])
            if peek:
                r.add(peek)
        return r

    def used(self, u, n):
        return n in self.unitrefs(u)

    def project(self, s):
        nu = s.weighted([(1, 1), (3, 2), (3, 3), (2, 4)])
        self.units = [Unit('unit %d' % k) for k in range(nu)]
        self.defaults = [s.draw(1 << 32) for _ in range(4)]
        self.cl2 = s.bool(1, 4)
        self.home = {}
        self.tabs = []
        self.globnames = []
        for u in self.units:
            u.includes = s.subset(HEADERS)
        for k in range(s.draw(4)):
            n = 't%d' % k
            u = s.draw(nu)
            self.units[u].tables[n] = (False, [s.draw(1 << 32) for _ in range(4)])
            self.home[n] = u
            self.tabs.append(n)
        if self.cl2:
            for k in range(s.range(1, 3)):
                n = 'g%d' % k
                u = s.draw(nu)
                self.units[u].globs[n] = (False, s.draw(1 << 32))
                self.home[n] = u
                self.globnames.append(n)
        # header variants: 0 embedded, 1 and 2 in directories
        self.variants = {}
        for j, h in enumerate(HEADERS):
            self.variants[h] = [Var(h, s.draw(1 << 32), self.expr(s, 2, None, [], header=h), [HEADERS[0]] if j == 1 and s.bool(1, 3) else []) for _ in range(3)]
        # the same static names in several units
        snames = ['s_0', 's_1'][:s.draw(3)]
        fns = []
        for k in range(s.range(1, 6)):
            n = 'f%d' % k
            u = self.units[s.draw(nu)]
            self.makestatics(s, u, snames, fns)
            mine = [x for x in u.funcs if x.startswith('s_')]
            u.funcs[n] = (False, self.expr(s, 3, u, fns + mine))
            self.home[n] = self.units.index(u)
            fns.append(n)
        for k in range(s.range(1, 4)):
            u = self.units[s.draw(nu)]
            self.makestatics(s, u, snames, fns)
            mine = [x for x in u.funcs if x.startswith('s_')]
            bump = peek = None
            if self.globnames and s.bool():
                if s.bool():
                    bump = (s.choice(self.globnames), s.draw(1 << 16))
                else:
                    peek = s.choice(self.globnames)
            name = s.choice(['k%d', 'k_%d_long_kernel_name', 'k1%d'])
            u.kernels[name % k] = (self.expr(s, 3, u, fns + mine), s.choice([0, 0, 2, 4]), bump, peek)

    def makestatics(self, s, u, snames, fns):
        for n in snames:
            if n not in u.funcs and s.bool():
                u.funcs[n] = (True, self.expr(s, 2, u, list(fns)))

    def monolith(self, s):
        """All units in one source, with the static functions renamed"""
        m = Unit('monolith')
        order = s.shuffle(range(len(self.units)))
        for k in order:
            u = self.units[k]
            ren = {n: 'u%d_%s' % (k, n) for n, (l, _) in u.funcs.items() if l}

            def sub(e):
                if e[0] == 'call' and e[1] in ren:
                    return ('call', ren[e[1]], sub(e[2]))
                return tuple(sub(x) if isinstance(x, tuple) else x for x in e)
            for n, (l, e) in u.funcs.items():
                m.funcs[ren.get(n, n)] = (l, sub(e))
            m.tables.update(u.tables)
            m.globs.update(u.globs)
            for n, (e, req, bump, peek) in u.kernels.items():
                m.kernels[n] = (sub(e), req, bump, peek)
            for h in u.includes:
                if h not in m.includes:
                    m.includes.append(h)
        return m

    # ------------------------------------------------------------ model
    def value(self, mod, inst, e, x, depth=0):
        k = e[0]
        v = lambda y: self.value(mod, inst, y, x, depth)
        if k == 'x':
            return x
        if k == 'c':
            return e[1]
        if k == 'm':
            return inst.env.defs.get(e[1], self.defaults[int(e[1][1:])]) & M32
        if k == 'pre':
            return PRE.get(e[1]) if e[1] in PRE else STD[inst.env.std]
        if k == 'bin':
            a, b = v(e[2]), v(e[3])
            return {'+': a + b, '-': a - b, '*': a * b, '^': a ^ b, '&': a & b, '|': a | b}[e[1]] & M32
        if k == 'sh':
            a = v(e[2])
            return (a << e[3] if e[1] == '<<' else a >> e[3]) & M32
        if k == 'sel':
            return v(e[2]) if e[1] in inst.env.defs else v(e[3])
        if k == 'fn':
            f = inst.env.defs.get('FN0', ('+', 1))
            a = v(e[1])
            return (a + f[1] if f[0] == '+' else a * f[1]) & M32
        if k == 'hc':
            return inst.env.headers[e[1]].const
        if k == 'hf':
            return self.value(mod, inst, inst.env.headers[e[1]].expr, v(e[2]), depth)
        if k == 'tab':
            a = v(e[2])
            for i in mod:
                if e[1] in i.unit.tables:
                    return i.unit.tables[e[1]][1][a & 3]
        if k == 'call':
            a = v(e[2])
            key = None
            if e[1] in inst.unit.funcs:
                key = inst
            else:
                key = [i for i in mod if e[1] in i.unit.funcs and not i.unit.funcs[e[1]][0]][0]
            ck = (id(key), e[1], a)
            if ck not in self.memo:
                self.memo[ck] = self.value(mod, key, key.unit.funcs[e[1]][1], a, depth + 1)
            return self.memo[ck]
        raise AssertionError(e)

    @staticmethod
    def defined(mod):
        out = []
        for i in mod:
            out += [n for n, (l, _) in i.unit.funcs.items() if not l] + [n for n, (l, _) in i.unit.tables.items() if not l]
            out += [n for n, (l, _) in i.unit.globs.items() if not l] + list(i.unit.kernels)
        return out

    def closed(self, mod):
        d = set(self.defined(mod))
        for i in mod:
            if self.unitrefs(i.unit) - d - set(i.unit.funcs):
                return False
        return True

    # ------------------------------------------------------------ options
    def options(self, s, embedded, fault=None):
        """Returns (string, Env, ok). embedded: header names given to clCompileProgram"""
        env = Env()
        toks = []
        dirs = []

        def q(t, must=False):
            # one token, quoted when it contains spaces
            if ' ' in t or must:
                m = s.draw(3)
                if m == 0:
                    return t.replace(' ', '\\ ')
                if m == 1 and '=' in t:
                    a, b = t.split('=', 1)
                    return '%s="%s"' % (a, b)
                return '"%s"' % t
            return t
        for _ in range(s.weighted([(2, 0), (3, 1), (3, 2), (2, 4)])):
            k = s.weighted([(5, 'D'), (3, 'F'), (1, 'U'), (3, 'ign'), (1, 'fn'), (1, 'w')])
            if k == 'D':
                n = s.draw(4)
                a, b = s.draw(1 << 16), s.draw(1 << 16)
                t, v = s.choice([('%du' % a, a), ('(%du+%du)' % (a, b), a + b), ('%du + %du' % (a, b), a + b), ('0x%x' % a, a), ('M%d_' % n, None), (None, 1)])
                if v is None:
                    # through another macro
                    toks.append(self.dopt(s, q('M%d_=%d' % (n, b))))
                    v = b
                toks.append(self.dopt(s, 'M%d' % n if t is None else q('M%d=%s' % (n, t))))
                env.defs['M%d' % n] = v
            elif k == 'F':
                n = s.draw(3)
                toks.append(self.dopt(s, 'F%d' % n if s.bool() else 'F%d=%d' % (n, s.draw(2))))
                env.defs['F%d' % n] = 1
            elif k == 'U':
                n = s.choice(['M0', 'M1', 'F0', 'F1'])
                toks.append('-U' + n if s.bool() else '-U ' + n)
                env.defs.pop(n, None)
            elif k == 'fn':
                o, c = s.choice('+*'), s.draw(1000)
                toks.append(self.dopt(s, q('FN0(v)=((v) %s %du)' % (o, c)) if s.bool() else 'FN0(v)=((v)%s%du)' % (o, c)))
                env.defs['FN0'] = (o, c)
            elif k == 'ign':
                toks.append(s.choice(IGNORED))
            else:
                toks.append('-w')
        if self.cl2 or s.bool(1, 8):
            env.std = 'CL2.0' if self.cl2 else s.weighted([(10, 'CL1.2'), (10, 'CL2.0'), (1, 'CL3.0')])
            toks.insert(s.draw(len(toks) + 1), '-cl-std=' + env.std)
            if s.bool(1, 6):
                toks.insert(0, '-cl-std=CL1.2')      # the last one counts
        if s.bool(1, 8):
            toks.append('-D WARN0')
        need = set()

        def add(h, chain):
            need.add(h)
        dirs = s.sample([1, 2], s.range(1, 2))
        for d in dirs:
            path = self.dirs[d]
            toks.append(('-I' if s.bool() else '-I ') + q(path))
        ok = True
        if fault == 'nodir':
            toks = [t for t in toks if not t.startswith('-I')]
            dirs = []
        if fault == 'bad':
            toks.insert(s.draw(len(toks) + 1), '-DBAD0')
        if fault == 'unknown':
            toks.append(s.choice(['-cl-not-an-option', '--bogus', '-cl-std=CL9.9', '-fno-such-thing']))
        if fault == 'werror':
            toks += ['-DWARN0', '-Werror']
            toks = [t for t in toks if t != '-w']
        self.resolve(env, embedded, dirs)
        text = ''
        for t in toks:
            text += t + ' ' * s.choice([1, 1, 1, 2, 3])
        if s.bool():
            text = text.strip()
        if s.bool(1, 6):
            text = '  ' + text
        return text, env

    def dopt(self, s, t):
        return '-D' + t if s.bool() else '-D ' + t

    def resolve(self, env, embedded, dirs):
        for h in HEADERS:
            if h in embedded:
                env.headers[h] = self.variants[h][0]
            elif dirs:
                env.headers[h] = self.variants[h][dirs[0]]

    def available(self, u, env):
        """Every header reachable from the unit's includes is available"""
        todo, seen = list(u.includes), set()
        while todo:
            h = todo.pop()
            if h in seen:
                continue
            seen.add(h)
            if h not in env.headers:
                return False
            todo += env.headers[h].includes
        return True

    # ------------------------------------------------------------ API
    def create(self, s, ctx, text):
        b = text.encode()
        n = s.weighted([(3, 1), (1, 2), (1, 3), (1, 5)])
        cuts = sorted(s.draw(len(b) + 1) for _ in range(n - 1))
        parts = [b[i:j] for i, j in zip([0] + cuts, cuts + [len(b)])]
        mode = s.draw(3)
        lens, ptrs, keep = [], [], []
        for p in parts:
            explicit = mode == 2 or (mode == 1 and s.bool())
            if explicit and p:
                buf = C.create_string_buffer(p + b'garbage }{', len(p) + 10)
                lens.append(len(p))
            else:
                buf = C.create_string_buffer(p)
                lens.append(0)
            keep.append(buf)
            ptrs.append(C.cast(buf, C.c_char_p))
        h = create('clCreateProgramWithSource', ctx, len(parts), (C.c_char_p * len(parts))(*ptrs), None if mode == 0 else szarr(lens))
        return h

    def cb(self):
        calls = []
        f = PROGCB(lambda p, u: calls.append((p, u)))
        self.keep.append(f)
        return f, calls

    def info(self, p, what, build=False):
        n = C.c_size_t()
        args = (p.h, self.dev) if build else (p.h,)
        f = 'clGetProgramBuildInfo' if build else 'clGetProgramInfo'
        call(f, *args, what, 0, None, C.byref(n))
        buf = C.create_string_buffer(n.value + 1)
        call(f, *args, what, n.value, buf, None)
        return buf.raw[:n.value]

    def binary(self, p):
        n = struct.unpack('<Q', self.info(p, 0x1165))[0]
        if n == 0:
            return b''
        buf = C.create_string_buffer(n)
        arr = (vp * 1)(C.cast(buf, vp))
        call('clGetProgramInfo', p.h, 0x1166, C.sizeof(arr), arr, None)
        return buf.raw

    def new(self, h, ctx, kind, unit=None):
        p = Prog()
        p.h, p.ctx, p.kind, p.unit = h, ctx, kind, unit
        p.mod, p.status, p.type, p.opts = None, -1, NONE, ''
        p.state, p.kernels, p.log = {}, [], None
        p.id = self.serial
        self.serial += 1
        self.progs.append(p)
        return p

    def judge(self, s, p):
        """Compare everything the API reports about the program"""
        st = struct.unpack('<i', self.info(p, 0x1181, True))[0]
        if p.kind != 'bin0' and st != p.status:
            raise Fail('program %d: build status is %d, expected %d' % (p.id, st, p.status))
        bt = struct.unpack('<I', self.info(p, 0x1184, True))[0]
        if bt != p.type:
            raise Fail('program %d: binary type is %d, expected %d' % (p.id, bt, p.type))
        if p.opts is not None:
            o = self.info(p, 0x1182, True)
            if o != p.opts.encode() + b'\0':
                raise Fail('program %d: build options reported as %r, expected %r' % (p.id, o, p.opts))
        log = self.info(p, 0x1183, True)[:-1]
        if p.log == 'error' and not log.strip():
            raise Fail('program %d: build failed but the build log is empty' % p.id)
        if p.log == 'clean' and log:
            raise Fail('program %d: the build log of a clean build is %r' % (p.id, log))
        if p.log == 'warn' and b'option warn0' not in log:
            raise Fail('program %d: warning not in the build log %r' % (p.id, log))
        src = self.info(p, 0x1164)
        want = (self.texts[p.id] if p.kind == 'src' else '').encode() + b'\0'
        if src != want:
            raise Fail('program %d: source reported as %r, expected %r' % (p.id, src, want))
        n = C.c_size_t()
        r1 = raw('clGetProgramInfo')(p.h, 0x1167, 0, None, C.byref(n))
        r2 = raw('clGetProgramInfo')(p.h, 0x1168, 0, None, C.byref(n))
        if p.status == 0 and p.type == EXECUTABLE and p.kind != 'bin0':
            names = self.info(p, 0x1168)[:-1].decode().split(';')
            num = struct.unpack('<Q', self.info(p, 0x1167))[0]
            want = sorted(k for i in p.mod for k in i.unit.kernels)
            if names == ['']:
                names = []
            if sorted(names) != want or num != len(want):
                raise Fail('program %d: kernels are %r (%d), expected %r' % (p.id, names, num, want))
        elif p.kind != 'bin0':
            if r1 != -45 or r2 != -45:
                raise Fail('program %d: kernel names of a program without executable: error %d and %d, expected -45' % (p.id, r1, r2))
            err = C.c_int(77)
            k = raw('clCreateKernel')(p.h, b'k0', C.byref(err))
            if k or err.value != -45:
                raise Fail('program %d: clCreateKernel on a program without executable: %r, error %d, expected -45' % (p.id, k, err.value))
            r = raw('clCreateKernelsInProgram')(p.h, 0, None, None)
            if r != -45:
                raise Fail('program %d: clCreateKernelsInProgram on a program without executable returned %d, expected -45' % (p.id, r))
        size = struct.unpack('<Q', self.info(p, 0x1165))[0]
        if (size != 0) != (p.mod is not None):
            raise Fail('program %d: binary size is %d' % (p.id, size))

    def kernelsof(self, s, p):
        want = {n: (i, v) for i in p.mod for n, v in i.unit.kernels.items()}
        if s.bool(1, 3):
            num = C.c_uint()
            call('clCreateKernelsInProgram', p.h, 0, None, C.byref(num))
            if num.value != len(want):
                raise Fail('clCreateKernelsInProgram reports %d kernels, expected %d' % (num.value, len(want)))
            arr = (vp * max(1, len(want)))()
            if want:
                call('clCreateKernelsInProgram', p.h, len(want) + s.draw(2), arr, None)
            hs = {}
            for h in arr[:len(want)]:
                hs[self.kname(h)] = h
            if sorted(hs) != sorted(want):
                raise Fail('clCreateKernelsInProgram created %r, expected %r' % (sorted(hs), sorted(want)))
        else:
            hs = {n: create('clCreateKernel', p.h, n.encode()) for n in want}
            err = C.c_int()
            for n in ('nosuchkernel', 'f0', ''):
                if raw('clCreateKernel')(p.h, n.encode(), C.byref(err)) or err.value != -46:
                    raise Fail('clCreateKernel("%s") gave error %d, expected CL_INVALID_KERNEL_NAME' % (n, err.value))
        return {n: (hs[n], want[n]) for n in want}

    def kname(self, h):
        buf = C.create_string_buffer(200)
        call('clGetKernelInfo', h, 0x1190, 200, buf, None)
        return buf.value.decode()

    def run(self, s, p):
        """Create the kernels, run them and compare"""
        ks = self.kernelsof(s, p)
        for n in s.shuffle(list(ks)):
            h, (inst, k) = ks[n]
            self.runkernel(s, p, n, h, inst, k)
        for h, _ in ks.values():
            call('clReleaseKernel', h)

    def runkernel(self, s, p, n, h, inst, k):
        expr, req, bump, peek = k
        ctx = self.ctxs[p.ctx]
        cws = (C.c_size_t * 3)()
        call('clGetKernelWorkGroupInfo', h, self.dev, 0x11B1, 24, cws, None)
        if list(cws) != ([req, 1, 1] if req else [0, 0, 0]):
            raise Fail('program %d, %s: compile work-group size %r' % (p.id, n, list(cws)))
        names = []
        for j in range(2):
            buf = C.create_string_buffer(100)
            call('clGetKernelArgInfo', h, j, 0x1198, 100, buf, None)
            t = buf.value
            call('clGetKernelArgInfo', h, j, 0x119A, 100, buf, None)
            names.append((t, buf.value))
        if names != [(b'uint*', b'out'), (b'uint', b'a')]:
            raise Fail('program %d, %s: arguments reported as %r' % (p.id, n, names))
        a = s.draw(1 << 32)
        buf = ctx.buffer(16)
        call('clSetKernelArg', h, 0, 8, C.byref(vp(buf)))
        call('clSetKernelArg', h, 1, 4, C.byref(C.c_uint32(a)))
        call('clEnqueueNDRangeKernel', ctx.q, h, 1, None, szarr([4]), szarr([req]) if req else None, 0, None, None)
        call('clFinish', ctx.q)
        got = struct.unpack('<4I', ctx.read(buf, 16))
        call('clReleaseMemObject', buf)
        ctx.objs = [o for o in ctx.objs if o[1] != buf]
        want = []
        for i in range(4):
            x = (i * a + 7) & M32
            if peek:
                want.append(p.state[peek])
            else:
                self.memo = {}
                want.append(self.value(p.mod, inst, expr, x))
        if list(got) != want:
            raise Fail('program %d, kernel %s(%d): results %r, expected %r' % (p.id, n, a, ['%x' % x for x in got], ['%x' % x for x in want]))
        if bump:
            p.state[bump[0]] = (p.state[bump[0]] + bump[1]) & M32
        refs = self.refs(expr)
        if len(p.mod) > 1 or inst.env.defs or inst.unit.includes or peek:
            self.interesting = True

    def fresh(self, p):
        p.state = {n: v for i in p.mod for n, (l, v) in i.unit.globs.items()}

    def built(self, s, p):
        self.judge(s, p)
        if p.status == 0 and p.type == EXECUTABLE and p.mod and p.kind != 'bin0':
            if self.closed(p.mod):
                self.run(s, p)

    def release(self, s, p):
        call('clReleaseProgram', p.h)
        self.progs.remove(p)

    # ------------------------------------------------------------ operations
    def op_source(self, s):
        if s.bool(1, 3):
            u = self.monolith(s)
        else:
            u = s.choice(self.units)
        if s.bool(1, 8):
            b = Unit(u.name)
            b.__dict__.update(u.__dict__)
            b.broken = s.choice([('after', 'uint broken(uint x) { return x'), ('before', '#error broken'), ('after', 'uint broken(void) { return undeclared; }'),
                                 ('after', 'kernel void kb(uint **p) {}'), ('after', '}'), ('after', '#if 1'), ('before', '#include "missing.h"'),
                                 ('after', 'kernel int kc(void) { return 1; }')])
            u = b
        t = self.source(u)
        c = s.weighted([(8, 0), (1, 1)])
        p = self.new(self.create(s, self.ctxs[c].ctx, t), c, 'src', u)
        self.texts[p.id] = t
        self.ops.append('%d=source(%s, %s)' % (p.id, u.name, u.broken))
        self.built(s, p)
        return p

    def fault(self, s):
        return s.weighted([(12, None), (1, 'bad'), (1, 'unknown'), (1, 'werror'), (1, 'nodir')])

    def outcome(self, u, env, opts, fault):
        if u.broken or fault in ('bad', 'unknown', 'werror') or not self.available(u, env):
            return False
        return True

    def setresult(self, p, ok, env, opts, typ):
        p.opts = opts or ''
        if ok:
            p.status, p.type, p.mod = 0, typ, [Inst(p.unit, env)]
            p.log = 'warn' if 'WARN0' in opts and '-w' not in opts.split() else None
            if 'WARN0' not in opts and '-M' not in opts:
                p.log = None
            self.fresh(p)
        else:
            p.status, p.type, p.mod, p.log = -2, NONE, None, 'error'

    def op_build(self, s, p=None):
        c = [x for x in self.progs if x.kind == 'src' and not self.attached(x)]
        if not p:
            if not c:
                return
            p = s.choice(c)
        f = self.fault(s)
        opts, env = self.options(s, [], f)
        # unresolved externals may not be built
        if not self.closed([Inst(p.unit, env)]):
            return self.op_compile(s, p)
        ok = self.outcome(p.unit, env, opts, f)
        self.ops.append('build(%d, %r)' % (p.id, opts))
        cb, calls = (None, []) if s.bool(2, 3) else self.cb()
        ud = s.choice([None, 0x1234]) if cb else None
        r = self.callbuild(s, p, opts, cb, ud)
        if cb and calls != [(p.h, ud)]:
            raise Fail('build notification called with %r' % (calls,))
        self.coderesult(p, 'clBuildProgram', r, ok, f, -11)
        self.setresult(p, ok, env, opts, EXECUTABLE)
        self.built(s, p)

    def coderesult(self, p, what, r, ok, f, code):
        if ok and r != 0:
            raise Fail('%s of a valid program returned %d: %s' % (what, r, self.info(p, 0x1183, True).decode('latin1')[:600]))
        if not ok and r not in ((code, -43) if f == 'unknown' else (code,)):
            raise Fail('%s of an invalid program returned %d, expected %d' % (what, r, code))

    def callbuild(self, s, p, opts, cb, ud):
        o = None if not opts and s.bool() else opts.encode()
        if s.bool():
            return raw('clBuildProgram')(p.h, 1, parr([self.dev]), o, cb or PROGCB(0), ud)
        return raw('clBuildProgram')(p.h, 0, None, o, cb or PROGCB(0), ud)

    def attached(self, p):
        return bool(p.kernels)

    def op_compile(self, s, p=None):
        c = [x for x in self.progs if x.kind == 'src' and not self.attached(x)]
        if not p:
            if not c:
                return
            p = s.choice(c)
        emb = s.subset(HEADERS)
        f = self.fault(s)
        opts, env = self.options(s, emb, f)
        ok = self.outcome(p.unit, env, opts, f)
        hp = []
        ctx = self.ctxs[p.ctx].ctx
        for h in emb:
            hp.append(self.create(s, ctx, self.headertext(self.variants[h][0])))
        self.ops.append('compile(%d, %r, %r)' % (p.id, opts, emb))
        cb, calls = (None, []) if s.bool(2, 3) else self.cb()
        names = (C.c_char_p * len(emb))(*[h.encode() for h in emb]) if emb else None
        r = raw('clCompileProgram')(p.h, 0, None, opts.encode(), len(emb), parr(hp) if emb else None, names, cb or PROGCB(0), None)
        for h in hp:
            call('clReleaseProgram', h)
        if cb and calls != [(p.h, None)]:
            raise Fail('compile notification called with %r' % (calls,))
        self.coderesult(p, 'clCompileProgram', r, ok, f, -15)
        self.setresult(p, ok, env, opts, COMPILED)
        self.built(s, p)

    def op_link(self, s):
        c = [x for x in self.progs if x.type in (COMPILED, LIBRARY) and x.status == 0]
        if not c:
            return
        ctx = s.choice(c).ctx
        c = [x for x in c if x.ctx == ctx]
        lib = s.bool(1, 3)
        # prefer sets without clashes
        pick, have = [], set()
        for x in s.shuffle(c):
            d = self.defined(x.mod)
            if not (set(d) & have):
                pick.append(x)
                have |= set(d)
        if s.bool(1, 6):
            pick.append(s.choice(c))
        if s.bool(1, 3):
            pick = pick[:s.range(1, len(pick))]
        mod = [i for x in pick for i in x.mod]
        d = self.defined(mod)
        clash = len(d) != len(set(d))
        if not lib and not clash and not self.closed(mod):
            lib = True
        wrong = None
        if s.bool(1, 12):
            bad = [x for x in self.progs if x.ctx == ctx and x.type == NONE]
            if bad:
                wrong = s.choice(bad)
                pick.insert(s.draw(len(pick) + 1), wrong)
        opts = '-create-library' + s.choice(['', ' -enable-link-options']) if lib else s.choice(['', '', '-cl-mad-enable', '  -cl-denorms-are-zero '])
        self.ops.append('link(%r, %r)' % ([x.id for x in pick], opts))
        cb, calls = (None, []) if s.bool(2, 3) else self.cb()
        err = C.c_int(77)
        dev = s.bool()
        h = raw('clLinkProgram')(self.ctxs[ctx].ctx, 1 if dev else 0, parr([self.dev]) if dev else None, opts.encode() if opts or s.bool() else None, len(pick),
                                 parr([x.h for x in pick]), cb or PROGCB(0), None, C.byref(err))
        if wrong:
            if h or err.value != -59:
                raise Fail('linking a program that is not compiled: %r, error %d, expected CL_INVALID_OPERATION' % (h, err.value))
            return
        if clash:
            if err.value != -17:
                raise Fail('linking programs with duplicate definitions: error %d, expected CL_LINK_PROGRAM_FAILURE' % err.value)
            if h:
                p = self.new(h, ctx, 'link')
                p.status, p.log, p.opts = -2, 'error', opts
                self.judge(s, p)
                self.release(s, p)
            return
        if err.value != 0 or not h:
            raise Fail('clLinkProgram failed with error %d' % err.value)
        if cb and calls != [(h, None)]:
            raise Fail('link notification called with %r' % (calls,))
        p = self.new(h, ctx, 'link')
        p.status, p.type, p.opts = 0, LIBRARY if lib else EXECUTABLE, opts
        # own copies of the instances, as the inputs may be recompiled
        p.mod = list(mod)
        self.fresh(p)
        self.built(s, p)

    def op_binary(self, s):
        c = [x for x in self.progs if x.mod]
        if not c:
            return
        q = s.choice(c)
        data = self.binary(q)
        ctx = s.weighted([(3, q.ctx), (1, 1 - q.ctx)])
        if s.bool(1, 10):
            # a binary that is not valid
            bad = s.choice([data[:s.draw(len(data) // 2)], b'', b'BC', b'\x7fELF' + data, bytes(4) + data[4:], data[1:]])
            st = C.c_int(77)
            err = C.c_int(77)
            buf = C.create_string_buffer(bad, len(bad) + 1)
            h = raw('clCreateProgramWithBinary')(self.ctxs[ctx].ctx, 1, parr([self.dev]), szarr([len(bad)]), (vp * 1)(C.cast(buf, vp)), C.byref(st), C.byref(err))
            exp = (-42, -30) if not bad else (-42,)
            if h or err.value not in exp:
                raise Fail('a damaged binary was accepted (error %d, status %d)' % (err.value, st.value))
            self.ops.append('damaged binary(%d)' % q.id)
            return
        st = C.c_int(77)
        buf = C.create_string_buffer(data, len(data))
        h = create('clCreateProgramWithBinary', self.ctxs[ctx].ctx, 1, parr([self.dev]), szarr([len(data)]), (vp * 1)(C.cast(buf, vp)), s.choice([None, C.byref(st)]))
        C.memset(buf, 0xAA, len(data))
        p = self.new(h, ctx, 'bin0')
        p.mod, p.type, p.opts = q.mod, q.type, None
        p.status = 0
        self.ops.append('%d=binary(%d) in context %d' % (p.id, q.id, ctx))
        self.fresh(p)
        self.judge(s, p)
        if p.type == EXECUTABLE or (p.type == COMPILED and s.bool(1, 3) and self.closed(p.mod)):
            opts = s.choice(['', '-cl-opt-disable', '-D M0=99'])
            self.ops.append('build(%d, %r)' % (p.id, opts))
            r = self.callbuild(s, p, opts, None, None)
            if r != 0:
                raise Fail('building a program created from a valid binary returned %d' % r)
            p.kind, p.type, p.opts = 'bin', EXECUTABLE, opts
            self.built(s, p)
        elif s.bool(1, 3):
            r = raw('clCompileProgram')(p.h, 0, None, b'', 0, None, None, PROGCB(0), None)
            if r != -59:
                raise Fail('compiling a program created from a binary returned %d, expected CL_INVALID_OPERATION' % r)
            self.ops.append('compile(%d)' % p.id)

    def op_rebin(self, s):
        # build a program from a binary again
        c = [x for x in self.progs if x.kind == 'bin' and not self.attached(x)]
        if not c:
            return
        p = s.choice(c)
        self.ops.append('build(%d) again' % p.id)
        r = self.callbuild(s, p, '', None, None)
        if r != 0:
            raise Fail('building a program created from a binary again returned %d' % r)
        p.opts = ''
        self.fresh(p)
        self.built(s, p)

    def op_release(self, s):
        if len(self.progs) < 2:
            return
        p = s.choice(self.progs)
        self.ops.append('release(%d)' % p.id)
        self.progs.remove(p)
        call('clReleaseProgram', p.h)
        if p.kernels:
            self.orphans.append(p)

    def op_hold(self, s):
        """Keep a kernel: the program cannot be rebuilt until it is released"""
        c = [x for x in self.progs if x.status == 0 and x.type == EXECUTABLE and x.kind != 'bin0' and self.closed(x.mod) and any(i.unit.kernels for i in x.mod)]
        if not c:
            return
        p = s.choice(c)
        n, i = s.choice([(n, i) for i in p.mod for n in i.unit.kernels])
        h = create('clCreateKernel', p.h, n.encode())
        if s.bool(1, 3):
            h2 = create('clCloneKernel', h)
            if s.bool():
                h, h2 = h2, h
            call('clReleaseKernel', h2)
        if s.bool(1, 3):
            call('clRetainKernel', h)
            call('clReleaseKernel', h)
        p.kernels.append((n, h, i))
        self.ops.append('hold(%d, %s)' % (p.id, n))

    def op_held(self, s):
        c = [(p, k) for p in self.progs + self.orphans for k in p.kernels]
        if not c:
            return
        p, k = s.choice(c)
        n, h, i = k
        if p in self.progs and s.bool():
            opts, env = self.options(s, [])
            which = s.choice(['clBuildProgram', 'clCompileProgram'])
            if which == 'clBuildProgram':
                r = self.callbuild(s, p, opts, None, None)
            else:
                r = raw('clCompileProgram')(p.h, 0, None, opts.encode(), 0, None, None, PROGCB(0), None)
            self.ops.append('%s(%d) with kernels' % (which, p.id))
            if r != -59:
                raise Fail('%s of a program with kernel objects returned %d, expected CL_INVALID_OPERATION' % (which, r))
            self.judge(s, p)
        self.runkernel(s, p, n, h, i, i.unit.kernels[n])
        if s.bool():
            call('clReleaseKernel', h)
            p.kernels.remove(k)
            self.ops.append('drop(%d, %s)' % (p.id, n))
            if p in self.orphans and not p.kernels:
                self.orphans.remove(p)

    def op_rerun(self, s):
        c = [x for x in self.progs if x.status == 0 and x.type == EXECUTABLE and x.kind != 'bin0' and self.closed(x.mod)]
        if c:
            p = s.choice(c)
            self.ops.append('run(%d)' % p.id)
            self.run(s, p)

    # ------------------------------------------------------------ case
    def case(self, s):
        clrt.setenv()
        self.keep, self.progs, self.orphans, self.ops, self.texts, self.serial = [], [], [], [], {}, 0
        self.interesting = False
        self.project(s)
        tmp = tempfile.mkdtemp(prefix='c20')
        self.dirs = {1: tmp + '/a', 2: tmp + s.choice(['/b', '/b dir', '/b  c'])}
        try:
            for v in (1, 2):
                for h in HEADERS:
                    f = self.dirs[v] + '/' + h
                    os.makedirs(os.path.dirname(f), exist_ok=True)
                    with open(f, 'w') as o:
                        o.write(self.headertext(self.variants[h][v]))
            with clrt.Capture() as cap:
                self.ctxs = [clrt.Ctx(), clrt.Ctx()]
                try:
                    self.history(s)
                except Exception as e:
                    s.desc = '\n'.join(self.ops) + '\n' + '\n'.join('--- %d\n%s' % x for x in sorted(self.texts.items()))
                    raise
                for p in list(self.progs) + self.orphans:
                    for _, h, _ in p.kernels:
                        call('clReleaseKernel', h)
                for p in self.progs:
                    call('clReleaseProgram', p.h)
                for c in self.ctxs:
                    c.close()
            s.desc = '\n'.join(self.ops)
            if self.interesting:
                s.nontrivial('\n'.join(self.ops) + ''.join(self.texts.values()))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    def history(self, s):
        for u in self.units:
            t = self.source(u)
            p = self.new(self.create(s, self.ctxs[0].ctx, t), 0, 'src', u)
            self.texts[p.id] = t
            self.ops.append('%d=source(%s)' % (p.id, u.name))
            self.op_compile(s, p)
        for _ in range(s.range(1, 12)):
            k = s.weighted([(3, 'source'), (4, 'build'), (3, 'compile'), (6, 'link'), (5, 'binary'), (1, 'rebin'), (2, 'release'), (3, 'hold'), (4, 'held'), (1, 'rerun')])
            s.cls(k)
            getattr(self, 'op_' + k)(s)


CHECK = C20()
