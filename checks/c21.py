"""C21: kernel arguments, program-scope data and kernel metadata."""
import ctypes as C
import random
import struct
import clrt
from clrt import vp, szarr, call, raw, create
from pbt import Check, Fail

SC = {'char': 1, 'uchar': 1, 'short': 2, 'ushort': 2, 'int': 4, 'uint': 4, 'long': 8, 'ulong': 8, 'float': 4, 'double': 8}
PAD = None      # a byte whose value is not specified
ADDR = {'global': 0x119B, 'local': 0x119C, 'constant': 0x119D, 'private': 0x119E}
DUMP = 24       # bytes dumped of a buffer


class T:
    """A type: scalar/vector (base, w), struct (fields) or array (of, n)."""

    def __init__(self, name, size, align, base=None, w=1, fields=None, of=None, n=0):
        self.name, self.size, self.align, self.base, self.w, self.fields, self.of, self.n = name, size, align, base, w, fields, of, n

    def decl(self, v):
        if self.of:
            return self.of.decl('%s[%d]' % (v, self.n))
        return '%s %s' % (self.name, v)


def scalar(b, w=1):
    n = SC[b] * {3: 4}.get(w, w)
    return T(b if w == 1 else '%s%d' % (b, w), n, n, base=b, w=w)


def array(of, n):
    return T(None, of.size * n, of.align, of=of, n=n)


def mkstruct(name, fields, packed):
    off, al, fs = 0, 1, []
    for n, t in fields:
        a = 1 if packed else t.align
        off = (off + a - 1) // a * a
        fs.append((n, t, off))
        off += t.size
        al = max(al, a)
    t = T(name, (off + al - 1) // al * al, al, fields=fs)
    t.packed = packed
    return t


def mask(t):
    """True for every byte that holds a value"""
    if t.base:
        return [True] * (SC[t.base] * t.w) + [False] * (t.size - SC[t.base] * t.w)
    if t.of:
        return mask(t.of) * t.n
    m = [False] * t.size
    for _, f, o in t.fields:
        m[o:o + f.size] = mask(f)
    return m


def image_create(ctx, pixels, w, flags=4):
    class F(C.Structure):
        _fields_ = [('o', C.c_uint32), ('t', C.c_uint32)]

    class D(C.Structure):
        _fields_ = [('type', C.c_uint32), ('w', C.c_size_t), ('h', C.c_size_t), ('d', C.c_size_t), ('n', C.c_size_t), ('rp', C.c_size_t), ('sp', C.c_size_t),
                    ('lev', C.c_uint32), ('smp', C.c_uint32), ('mem', vp)]
    f = F(0x10B5, 0x10DC)       # RGBA, UNSIGNED_INT32
    d = D(0x10F1, w, len(pixels) // w, 0, 0, 0, 0, 0, 0, None)
    data = (C.c_uint32 * (4 * len(pixels)))(*[x for p in pixels for x in p])
    return create('clCreateImage', ctx, flags | 32, C.byref(f), C.byref(d), data)


class Arg:
    pass


class Sig:
    pass


class K:
    def __init__(self, h, sig):
        self.h, self.sig, self.vals = h, sig, {}


class C21(Check):
    id = 'C21'
    quick = 6000
    thorough = 100000
    case_timeout = 30
    rule = ('a case is one program with up to three kernels of generated signatures, program-scope data, and a history of argument settings, refused settings, clones and '
            'enqueues; non-trivial when a kernel with at least two kinds of argument ran; distinct by source')
    assumptions = ['padding bytes of structures and the fourth lane of 3-component vectors are not compared',
                   'the code for refusing an image where a buffer is expected (and the reverse) may be CL_INVALID_MEM_OBJECT or CL_INVALID_ARG_VALUE']

    def init(self):
        clrt.load(self.b + '/liboclgrind-rt.so')

    # ------------------------------------------------------------ generation
    def sctype(self, s):
        return scalar(s.choice(list(SC)), s.weighted([(4, 1), (1, 2), (1, 3), (1, 4), (1, 8), (1, 16)]))

    def anytype(self, s, structs=True):
        if structs and self.structs and s.bool(1, 3):
            return s.choice(self.structs)
        return self.sctype(s)

    def newstruct(self, s):
        packed = s.bool(1, 6)
        fields = []
        for k in range(s.range(1, 5)):
            t = self.sctype(s) if packed else self.anytype(s)
            if not packed and s.bool(1, 4):
                t = array(t, s.range(1, 4))
            fields.append(('f%d' % k, t))
        name = 'S%d' % len(self.structs)
        t = mkstruct(name, fields, packed)
        t.tag = s.weighted([(2, ''), (1, 'image_'), (1, 'tag_'), (1, 'my_image')])
        if t.tag:
            t.tag += name
        self.structs.append(t)
        self.src.append('typedef struct%s %s { %s } %s;' % (' __attribute__((packed))' if packed else '', t.tag, ' '.join(f.decl(n) + ';' for n, f in fields), name))

    def lit(self, s, t):
        """(initialiser text, bytes with None for padding)"""
        if t.base:
            xs = [self.num(s, t.base) for _ in range(t.w)]
            b = [x for _, d in xs for x in d]
            b += [PAD] * (t.size - len(b))
            if t.w == 1:
                return xs[0][0], b
            if s.bool(1, 5):
                return '(%s)(%s)' % (t.name, xs[0][0]), list(xs[0][1]) * t.w + [PAD] * (t.size - SC[t.base] * t.w)
            return '(%s)(%s)' % (t.name, ', '.join(x for x, _ in xs)), b
        if t.of:
            n = t.n if s.bool(3, 4) else s.range(1, t.n)
            xs = [self.lit(s, t.of) for _ in range(n)]
            b = [x for _, d in xs for x in d]
            return '{%s}' % ', '.join(x for x, _ in xs), b + self.zero(t.of) * (t.n - n)
        n = len(t.fields) if s.bool(3, 4) else s.range(1, len(t.fields))
        b = [PAD] * t.size
        out = []
        des = n == len(t.fields) and s.bool(1, 4)
        for k, (name, f, o) in enumerate(t.fields):
            if k < n:
                x, d = self.lit(s, f)
                out.append(('.%s = ' % name if des else '') + x)
            else:
                d = self.zero(f)
            b[o:o + f.size] = d
        if des:
            out = s.shuffle(out)
        return '{%s}' % ', '.join(out), b

    def zero(self, t):
        return [0 if m else PAD for m in mask(t)]

    def num(self, s, b):
        if b == 'float':
            v = struct.unpack('<f', struct.pack('<f', s.choice([0.0, -0.0, 1.5, -3.25, 1e-40, 3e38, s.draw(1 << 24) * 2.0 ** (s.draw(60) - 40), -s.draw(1 << 20) / 7.0])))[0]
            return v.hex() + 'f', struct.pack('<f', v)
        if b == 'double':
            v = s.choice([0.0, -0.0, 1.5, 5e-320, 1e308, s.draw(1 << 30) * 2.0 ** (s.draw(600) - 400), -s.draw(1 << 30) / 7.0])
            return v.hex(), struct.pack('<d', v)
        n = SC[b] * 8
        v = s.choice([0, 1, (1 << n) - 1, 1 << (n - 1), s.draw(1 << min(n, 32)), s.draw(1 << min(n, 32)) << max(0, n - 32)]) & ((1 << n) - 1)
        return '(%s)0x%x%s' % (b, v, 'UL' if n == 64 else 'u'), v.to_bytes(n // 8, 'little')

    def constants(self, s):
        """program-scope variables: list of (dump lines, expected bytes)"""
        self.globs = []
        prev = []
        for k in range(s.range(0, 4)):
            name = 'c%d' % k
            kind = s.weighted([(5, 'val'), (2 if prev else 0, 'ptr'), (1, 'str'), (1, 'enum'), (1 if prev else 0, 'ptrs')])
            if kind == 'val':
                t = self.anytype(s)
                if s.bool(1, 2):
                    t = array(t, s.range(1, 6))
                    if s.bool(1, 4):
                        t = array(t, s.range(1, 3))
                x, b = self.lit(s, t)
                self.src.append('constant %s = %s;' % (t.decl(name), x))
                prev.append((name, t, b))
                self.globs.append(('(constant uchar *)&%s' % name, b))
            elif kind == 'str':
                txt = ''.join(s.choice('abz 09%') for _ in range(s.range(0, 12)))
                n = len(txt) + s.range(1, 5)
                self.src.append('constant char %s[%d] = "%s";' % (name, n, txt))
                self.globs.append(('(constant uchar *)%s' % name, list(txt.encode()) + [0] * (n - len(txt))))
            elif kind == 'enum':
                v = s.draw(1000)
                self.src.append('enum { E%d = %d, F%d }; constant int %s[2] = {F%d, -E%d};' % (k, v, k, name, k, k))
                self.globs.append(('(constant uchar *)%s' % name, list(struct.pack('<ii', v + 1, -v))))
            elif kind == 'ptr':
                n, t, b = s.choice(prev)
                e, off, q = '&' + n, 0, t
                while q.of and s.bool(2, 3) or q.fields and not q.packed and s.bool(1, 2):
                    if q.of:
                        i = s.draw(q.n)
                        e, off, q = e + '[%d]' % i, off + i * q.of.size, q.of
                    else:
                        f, ft, o = s.choice(q.fields)
                        e, off, q = e + '.' + f, off + o, ft
                if q.of:
                    continue
                self.src.append('constant %s *constant %s = %s;' % (q.name, name, e))
                self.globs.append(('(constant uchar *)%s' % name, b[off:off + q.size]))
            else:
                # a structure that holds a pointer
                n, t, b = s.choice([p for p in prev])
                q = t
                e = '&' + n
                while q.of:
                    e, q = e + '[0]', q.of
                v = s.draw(1 << 31)
                self.src.append('typedef struct { int a; constant %s *p; } P%d; constant P%d %s = {%d, %s};' % (q.name, k, k, name, v, e))
                self.globs.append(('(constant uchar *)&%s.a' % name, list(struct.pack('<i', v))))
                self.globs.append(('(constant uchar *)%s.p' % name, b[:q.size]))

    def signature(self, s, name):
        g = Sig()
        g.name = name
        g.args = []
        for k in range(s.range(1, 7)):
            a = Arg()
            a.kind = s.weighted([(5, 'val'), (3, 'global'), (1, 'constant'), (2, 'local'), (1, 'image'), (1, 'sampler')])
            a.name = s.choice(['a', 'x', 'arg', 'v_']) + str(k)
            a.quals = []
            a.n = None
            a.access = None
            a.td = s.bool(1, 10)
            if a.kind == 'val':
                a.ty = self.anytype(s)
                a.quals = ['const'] if s.bool(1, 5) else []
            elif a.kind in ('global', 'constant', 'local'):
                a.ty = self.anytype(s)
                a.quals = [q for q in ('const', 'volatile', 'restrict') if s.bool(1, 4)]
                if a.kind == 'local' and 'const' in a.quals:
                    a.quals.remove('const')
            elif a.kind == 'image':
                a.access = s.choice([None, 'read_only'])
            a.sp = None
            if a.kind in ('val', 'global', 'constant', 'local'):
                a.sp = a.ty.name
                if a.ty.fields and a.ty.tag and s.bool(2, 3):
                    a.sp = 'struct ' + a.ty.tag
            g.args.append(a)
            if a.kind == 'local':
                b = Arg()
                b.kind, b.name, b.ty, b.quals, b.access, b.n = 'val', 'n%d' % k, scalar('uint'), [], None, k
                b.of = a
                b.sp = 'uint'
                b.td = False
                a.count = b
                g.args.append(b)
        for nm, kind in (('o', 'out'), ('img', 'image'), ('smp', 'sampler')):
            a = Arg()
            a.kind, a.name, a.quals, a.access, a.ty, a.td = kind, nm, [], None, scalar('uchar'), kind == 'sampler' and s.bool(1, 10)
            g.args.insert(s.draw(len(g.args) + 1), a)
        g.locals = []
        for k in range(s.weighted([(3, 0), (1, 1), (1, 2)])):
            t = self.anytype(s)
            g.locals.append(('l%d' % k, array(t, s.range(1, 5))))
        self.render(s, g)
        return g

    def render(self, s, g):
        ps, first, body = [], [], []
        g.fields = []
        off = 0
        for k, a in enumerate(g.args):
            a.i = k
            q = a.quals
            pre = ''.join(x + ' ' for x in q if x != 'restrict')
            if a.kind == 'val':
                ps.append('%s%s %s' % (pre, a.sp, a.name))
                body.append('  { %s t = %s; const uchar *p = (const uchar *)&t; for (uint i = 0; i < %d; i++) o[%d + i] = p[i]; }' % (a.ty.name, a.name, a.ty.size, off))
                a.off, a.len = off, a.ty.size
            elif a.kind == 'out':
                ps.append('global uchar *o')
                continue
            elif a.kind in ('global', 'constant'):
                ps.append('%s%s %s *%s%s' % (pre, a.kind, a.sp, 'restrict ' if 'restrict' in q else '', a.name))
                body.append('  o[%d] = %s == 0; if (%s) for (uint i = 0; i < %d; i++) o[%d + i] = ((const %s uchar *)%s)[i];' % (off, a.name, a.name, DUMP, off + 1, a.kind, a.name))
                a.off, a.len = off, DUMP + 1
            elif a.kind == 'local':
                ps.append('%slocal %s *%s%s' % (pre, a.sp, 'restrict ' if 'restrict' in q else '', a.name))
                first.append('  for (uint i = get_local_id(0); i < n%d; i += get_local_size(0)) ((local uchar *)%s)[i] = i * 7 + %d;' % (k_of(a), a.name, 1 + 31 * k))
                body.append('  { uint bad = 0; for (uint i = 0; i < n%d; i++) bad += ((local uchar *)%s)[i] != ((i * 7 + %d) & 255); for (uint i = 0; i < 4; i++) o[%d + i] = bad >> (i * 8); }'
                            % (k_of(a), a.name, 1 + 31 * k, off))
                a.off, a.len = off, 4
            elif a.kind == 'image':
                ps.append('%simage2d_t %s' % (a.access + ' ' if a.access else '', a.name))
                body.append('  { uint4 t = read_imageui(%s, (int2)(1, 0)); const uchar *p = (const uchar *)&t; for (uint i = 0; i < 16; i++) o[%d + i] = p[i]; }' % (a.name, off)
                            if a.name != 'img' else
                            '  { uint4 t = read_imageui(%s, smp, (int2)(-1, 1)); const uchar *p = (const uchar *)&t; for (uint i = 0; i < 16; i++) o[%d + i] = p[i]; }' % (a.name, off))
                a.off, a.len = off, 16
            else:
                ps.append('sampler_t %s' % a.name)
                body.append('  { uint4 t = read_imageui(img, %s, (int2)(-1, 0)); const uchar *p = (const uchar *)&t; for (uint i = 0; i < 16; i++) o[%d + i] = p[i]; }' % (a.name, off))
                a.off, a.len = off, 16
            off += a.len
            if a.td:
                ty = ps[-1][:-len(a.name)].rstrip()
                self.ntd += 1
                ps[-1] = 'td%d %s' % (self.ntd, a.name)
                self.src.append('typedef %s td%d;' % (ty, self.ntd))
        decl = []
        for nm, t in g.locals:
            decl.append('  local %s;' % t.decl(nm))
            first.append('  for (uint i = get_local_id(0); i < %d; i += get_local_size(0)) ((local uchar *)%s)[i] = i * 5 + %d;' % (t.size, nm, 3 + int(nm[1:])))
            body.append('  { uint bad = 0; for (uint i = 0; i < %d; i++) bad += ((local uchar *)%s)[i] != ((i * 5 + %d) & 255); o[%d] = min(bad, 255u); }' % (t.size, nm, 3 + int(nm[1:]), off))
            g.fields.append((off, [0]))
            off += 1
        if s.bool(1, 2):
            for e, b in self.globs:
                body.append('  for (uint i = 0; i < %d; i++) o[%d + i] = (%s)[i];' % (len(b), off, e))
                g.fields.append((off, b))
                off += len(b)
        g.stride = off
        g.attrs = []
        g.reqd = None
        if s.bool(1, 3):
            g.reqd = [s.range(1, 3), s.choice([1, 1, 2]), 1]
            g.attrs.append('reqd_work_group_size(%d,%d,%d)' % tuple(g.reqd))
        if s.bool(1, 4):
            g.attrs.append('work_group_size_hint(%d,%d,%d)' % (s.range(1, 9), s.range(1, 3), 1))
        if s.bool(1, 4):
            t = self.sctype(s)
            g.attrs.append('vec_type_hint(%s)' % t.name)
        at = ''.join('__attribute__((%s)) ' % a.replace(',', ', ') for a in g.attrs)
        g.text = 'kernel %svoid %s(%s)\n{\n%s\n}' % (at, g.name, ', '.join(ps), '\n'.join(
            decl + ['  o += (get_global_id(1) * get_global_size(0) + get_global_id(0)) * %d;' % off] + first + ['  barrier(CLK_LOCAL_MEM_FENCE);'] + body))
        self.src.append(g.text)

    # --------------------------------------------------------------- the case
    def case(self, s):
        self.r = random.Random(s.seed())
        self.src, self.structs, self.ntd = [], [], 0
        for _ in range(s.draw(3)):
            self.newstruct(s)
        self.constants(s)
        names = s.choice([['k'], ['k', 'k1'], ['kk', 'k'], ['k', 'k_', 'kx'], ['foo', 'foobar'], ['foobar', 'foo']])
        sigs = [self.signature(s, n) for n in names]
        src = '\n'.join(self.src) + '\n'
        self.log = []
        clrt.setenv(NUM_THREADS=1)
        opts = s.choice(['', '-cl-opt-disable', '-cl-kernel-arg-info', '-cl-std=CL1.2 -cl-kernel-arg-info'])
        try:
            with clrt.Capture() as cap:
                with clrt.Ctx() as c:
                    self.run(s, c, src, opts, sigs)
            if cap.stdout or cap.stderr:
                raise Fail('unexpected output: %s' % (cap.stdout + cap.stderr)[:800], 'output')
        except clrt.CLError as e:
            raise Fail(str(e), 'failed call')
        except clrt.BuildError as e:
            raise Fail(str(e)[:1500], 'build')
        finally:
            s.desc = src + '\noptions: %s\n' % opts + '\n'.join(self.log)

    def run(self, s, c, src, opts, sigs):
        self.c = c
        prog = create('clCreateProgramWithSource', c.ctx, 1, (C.c_char_p * 1)(src.encode()), None)
        if raw('clBuildProgram')(prog, 0, None, opts.encode(), None, None):
            raise clrt.BuildError(c.buildlog(prog))
        r = self.r
        rb = lambda n: bytes(r.randrange(256) for _ in range(n))
        self.mems = []
        for k in range(3):
            n = 4096 + 128 * k
            d = rb(n)
            b = c.buffer(n, d)
            self.mems.append((b, d))
            if r.random() < 0.5:
                o = 128 * r.randrange(8)
                sub = create('clCreateSubBuffer', b, 1, 0x1220, szarr([o, 256]), )
                c.objs.append(('clReleaseMemObject', sub))
                self.mems.append((sub, d[o:o + 256]))
        self.imgs = []
        for k in range(3):
            w = r.randrange(2, 5)
            px = [tuple(r.randrange(1 << 32) for _ in range(4)) for _ in range(w * 2)]
            m = image_create(c.ctx, px, w)
            c.objs.append(('clReleaseMemObject', m))
            self.imgs.append((m, w, px))
        self.smps = []
        for mode in (0x1132, 0x1131):
            h = create('clCreateSampler', c.ctx, 0, mode, 0x1140)
            c.objs.append(('clReleaseSampler', h))
            self.smps.append((h, mode))
        if s.bool(1, 5):
            hs = (vp * 8)()
            n = C.c_uint32()
            call('clCreateKernelsInProgram', prog, 8, hs, C.byref(n))
            if n.value != len(sigs):
                raise Fail('clCreateKernelsInProgram found %d kernels, not %d' % (n.value, len(sigs)), 'kernels in program')
            ks = []
            for h in hs[:n.value]:
                nm = self.strinfo('clGetKernelInfo', h, 0x1190)
                g = [g for g in sigs if g.name == nm]
                if not g or any(k.sig is g[0] for k in ks):
                    raise Fail('clCreateKernelsInProgram: unexpected kernel %r' % nm, 'kernels in program')
                ks.append(K(h, g[0]))
        else:
            ks = [K(create('clCreateKernel', prog, g.name.encode()), g) for g in sigs]
        self.progfree = False
        self.pending = []      # (kernel sig, out mem, n, snapshot)
        q = c.queue(0)
        ue = None
        ran = False
        for k in ks:
            self.metadata(s, k, opts)
        for _ in range(s.range(4, 14)):
            if not ks:
                break
            op = s.weighted([(6, 'set'), (3, 'bad'), (4, 'run'), (1, 'clone'), (1, 'defer'), (1, 'release'), (1, 'finish'), (1, 'meta')])
            k = s.choice(ks)
            kn = '%s@%x' % (k.sig.name, k.h & 0xffff)
            if op == 'set':
                for a in s.shuffle(k.sig.args)[:s.range(1, 3)]:
                    self.set(k, a)
            elif op == 'bad':
                self.bad(s, k)
            elif op == 'clone':
                n = K(create('clCloneKernel', k.h), k.sig)
                n.vals = dict(k.vals)
                ks.append(n)
                self.log.append('clone %s' % kn)
            elif op == 'defer':
                if ue is None:
                    ue = create('clCreateUserEvent', c.ctx)
                    self.log.append('defer')
            elif op == 'release':
                if len(ks) > 1 or s.bool(1, 5):
                    call('clReleaseKernel', k.h)
                    ks.remove(k)
                    self.log.append('release %s' % kn)
                    if not self.progfree and s.bool(1, 3):
                        call('clReleaseProgram', prog)
                        self.progfree = True
                        self.log.append('release program')
            elif op == 'finish':
                if ue is not None:
                    call('clSetUserEventStatus', ue, 0)
                    call('clReleaseEvent', ue)
                    ue = None
                call('clFinish', q)
                self.judge()
            elif op == 'meta':
                self.metadata(s, k, opts)
            else:
                if s.bool(9, 10):
                    for a in k.sig.args:
                        if a.i not in k.vals:
                            self.set(k, a)
                missing = [a for a in k.sig.args if a.i not in k.vals and a.kind != 'out']
                ls = [x for x in k.sig.reqd[:2]] if k.sig.reqd else [s.range(1, 3), s.choice([1, 1, 2])]
                gs = [x * s.range(1, 2) for x in ls]
                n = gs[0] * gs[1]
                out = create('clCreateBuffer', c.ctx, 1, n * k.sig.stride + 8, None)
                z = b'\xa5'
                call('clEnqueueFillBuffer', q, out, z, 1, 0, n * k.sig.stride + 8, 0, None, None)
                o = [a for a in k.sig.args if a.kind == 'out'][0]
                self.rawset(k, o.i, 8, vp(out))
                wl = (vp * 1)(ue) if ue is not None else None
                e = raw('clEnqueueNDRangeKernel')(q, k.h, 2, None, szarr(gs), szarr(ls) if not k.sig.reqd or s.bool() else None, 1 if wl else 0, wl, None)
                self.log.append('run %s %s %s%s -> %d' % (kn, gs, ls, ' (deferred)' if wl else '', e))
                if missing:
                    if e != -52:
                        raise Fail('enqueueing %s with %s unset returned %d, expected CL_INVALID_KERNEL_ARGS' % (kn, missing[0].name, e), 'unset argument')
                    call('clReleaseMemObject', out)
                    continue
                parts = [t.size for _, t in k.sig.locals] + [v for x, v in k.vals.items() if isinstance(x, tuple)]
                if e == -5 and sum(parts) + 128 * len(parts) > 32768:
                    s.cls('too much local memory')
                    call('clReleaseMemObject', out)
                    continue
                if e:
                    raise Fail('enqueueing %s returned %d' % (kn, e), 'failed call')
                if sum(parts) > 32768:
                    raise Fail('enqueueing %s with %d bytes of local memory succeeded' % (kn, sum(parts)), 'local limit')
                if s.bool(1, 6):
                    # OpenCL C 1.2 programs have uniform work-groups only
                    lr = [s.range(2, 4), 1] if not k.sig.reqd else ls
                    if lr[0] > 1:
                        e = raw('clEnqueueNDRangeKernel')(q, k.h, 2, None, szarr([lr[0] * s.range(1, 2) + 1, lr[1]]), szarr(lr), 0, None, None)
                        if e != -54:
                            raise Fail('enqueueing %s with a global size that is no multiple of the local size %s returned %d' % (kn, lr, e), 'uniform')
                self.pending.append((k.sig, out, n, dict(k.vals)))
                if len(set(a.kind for a in k.sig.args)) > 4:
                    ran = True
        if ue is not None:
            call('clSetUserEventStatus', ue, 0)
            call('clReleaseEvent', ue)
        call('clFinish', q)
        self.judge()
        for k in ks:
            call('clReleaseKernel', k.h)
        if not self.progfree:
            call('clReleaseProgram', prog)
        call('clReleaseCommandQueue', q)
        if ran:
            s.nontrivial(src + str(self.log))
        for g in sigs:
            for a in g.args:
                s.cls(a.kind)

    def rawset(self, k, i, n, v):
        p = C.byref(v) if isinstance(v, vp) else v
        call('clSetKernelArg', k.h, i, n, p)

    def set(self, k, a):
        r = self.r
        t = None
        if a.kind == 'out':
            return
        if a.kind == 'val':
            if getattr(a, 'of', None):
                return self.set(k, a.of)
            d = bytes(r.randrange(256) for _ in range(a.ty.size))
            b = C.create_string_buffer(d, len(d))
            call('clSetKernelArg', k.h, a.i, len(d), b)
            C.memset(b, 0x77, len(d))
            k.vals[a.i] = [x if m else PAD for x, m in zip(d, mask(a.ty))]
        elif a.kind in ('global', 'constant'):
            j = r.randrange(len(self.mems) + 2)
            if j < len(self.mems):
                m, d = self.mems[j]
                h = vp(m)
                call('clSetKernelArg', k.h, a.i, 8, C.byref(h))
                k.vals[a.i] = [0] + list(d[:DUMP])
            else:
                h = vp(None)
                call('clSetKernelArg', k.h, a.i, 8, C.byref(h) if j == len(self.mems) else None)
                k.vals[a.i] = [1] + [0xa5] * DUMP
        elif a.kind == 'local':
            n = a.ty.size * r.choice([1, 2, 3, 17])
            call('clSetKernelArg', k.h, a.i, n, None)
            call('clSetKernelArg', k.h, a.count.i, 4, C.byref(C.c_uint32(n)))
            k.vals[a.i] = [0] * 4
            k.vals[a.count.i] = list(struct.pack('<I', n))
            k.vals[('localsize', a.i)] = n
            t = n
        elif a.kind == 'image':
            j = r.randrange(len(self.imgs))
            h = vp(self.imgs[j][0])
            call('clSetKernelArg', k.h, a.i, 8, C.byref(h))
            k.vals[a.i] = ('img', j)
            t = j
        else:
            j = r.randrange(2)
            h = vp(self.smps[j][0])
            call('clSetKernelArg', k.h, a.i, 8, C.byref(h))
            k.vals[a.i] = ('smp', j)
            t = j
        self.log.append('set %s@%x.%s%s' % (k.sig.name, k.h & 0xffff, a.name, '' if t is None else ' %d' % t))

    def bad(self, s, k):
        r = self.r
        n = len(k.sig.args)
        buf = C.create_string_buffer(bytes(r.randrange(256) for _ in range(2048)), 2048)
        mem = vp(self.mems[0][0])
        img = vp(self.imgs[0][0])
        if s.bool(1, 6):
            i = s.choice([n, n + 1, 1000, 0xffffffff])
            want, e = (-49,), raw('clSetKernelArg')(k.h, i, s.choice([4, 8]), s.choice([buf, None]))
            what = 'index %d' % i
        else:
            a = s.choice(k.sig.args)
            i = a.i
            if a.kind == 'val':
                what = s.choice(['size', 'null'])
                if what == 'size':
                    m = s.choice([x for x in (0, 1, 2, 3, 4, 8, 16, a.ty.size - 1, a.ty.size + 1, a.ty.size * 2, 1024) if x >= 0 and x != a.ty.size])
                    want, e = (-51,), raw('clSetKernelArg')(k.h, i, m, buf)
                    what = 'size %d, not %d' % (m, a.ty.size)
                else:
                    want, e = (-50,), raw('clSetKernelArg')(k.h, i, a.ty.size, None)
            elif a.kind in ('global', 'constant', 'out'):
                what = s.choice(['size', 'image'])
                if what == 'size':
                    want, e = (-51,), raw('clSetKernelArg')(k.h, i, s.choice([0, 1, 4, 7, 9, 16]), C.byref(mem))
                else:
                    want, e = (-38, -50), raw('clSetKernelArg')(k.h, i, 8, C.byref(img))
            elif a.kind == 'local':
                what = s.choice(['size 0', 'value'])
                want, e = ((-51,), raw('clSetKernelArg')(k.h, i, 0, None)) if what == 'size 0' else ((-50,), raw('clSetKernelArg')(k.h, i, 16, buf))
            elif a.kind == 'image':
                what = s.choice(['size', 'buffer', 'null', 'nullptr'])
                want, e = {'size': ((-51,), (4, C.byref(img))), 'buffer': ((-38, -50), (8, C.byref(mem))), 'null': ((-38, -50), (8, C.byref(vp(None)))),
                           'nullptr': ((-38, -50), (8, None))}[what]
                e = raw('clSetKernelArg')(k.h, i, *e)
            else:
                what = s.choice(['size', 'null', 'nullptr'])
                smp = vp(self.smps[0][0])
                want, e = {'size': ((-51,), (4, C.byref(smp))), 'null': ((-41, -50), (8, C.byref(vp(None)))), 'nullptr': ((-41, -50), (8, None))}[what]
                e = raw('clSetKernelArg')(k.h, i, *e)
            what = '%s (%s): %s' % (a.name, a.kind, what)
        self.log.append('bad setting of %s: %s -> %d' % (k.sig.name, what, e))
        if e not in want:
            raise Fail('clSetKernelArg with bad %s returned %d, expected %s' % (what, e, want), 'bad setting ' + what.split(':')[-1].split(',')[0].rstrip('0123456789 '))

    def judge(self):
        for sig, out, n, vals in self.pending:
            d = self.c.read(out, n * sig.stride + 8)
            call('clReleaseMemObject', out)
            for w in range(n):
                row = d[w * sig.stride:(w + 1) * sig.stride]
                for a in sig.args:
                    if a.kind == 'out':
                        continue
                    want = vals[a.i]
                    if isinstance(want, tuple):
                        if want[0] == 'img':
                            m, wd, px = self.imgs[want[1]]
                            p = px[1]
                            if a.name == 'img':
                                smp = [x for x in sig.args if x.name == 'smp'][0]
                                mode = self.smps[vals[smp.i][1]][1]
                                p = (0, 0, 0, 0) if mode == 0x1132 else px[wd]
                        else:
                            im = [x for x in sig.args if x.name == 'img'][0]
                            m, wd, px = self.imgs[vals[im.i][1]]
                            p = (0, 0, 0, 0) if self.smps[want[1]][1] == 0x1132 else px[0]
                        want = list(struct.pack('<4I', *p))
                    self.cmp('argument %s (%s) of %s' % (a.name, a.kind, sig.name), row[a.off:a.off + a.len], want, w)
                for off, want in sig.fields:
                    self.cmp('program-scope or static local data in %s' % sig.name, row[off:off + len(want)], want, w)
            if d[n * sig.stride:] != b'\xa5' * 8:
                raise Fail('bytes past the results of %s changed' % sig.name, 'overrun')
        self.pending = []

    def cmp(self, what, got, want, w):
        if any(b is not PAD and b != g for g, b in zip(got, want)):
            raise Fail('%s, work-item %d: %s, expected %s' % (what, w, got.hex(), ''.join('--' if b is PAD else '%02x' % b for b in want)),
                       what.split(' of ')[0].split(' in ')[0].split('(')[-1])

    # ----------------------------------------------------------------- queries
    def strinfo(self, fn, *a):
        n = C.c_size_t()
        call(fn, *a, 0, None, C.byref(n))
        b = C.create_string_buffer(n.value + 1)
        call(fn, *a, n.value, b, None)
        if n.value != len(b.value) + 1:
            raise Fail('%s%s: size %d for %r' % (fn, a[1:], n.value, b.value), 'string size')
        return b.value.decode()

    def intinfo(self, fn, n, *a):
        b = C.c_uint64(0)
        m = C.c_size_t()
        call(fn, *a, n, C.byref(b), C.byref(m))
        if m.value != n:
            raise Fail('%s%s reports size %d, expected %d' % (fn, a[1:], m.value, n), 'size')
        return b.value

    def metadata(self, s, k, opts):
        g = k.sig

        def eq(what, got, want):
            if got != want:
                raise Fail('%s of kernel %s is %r, expected %r' % (what, g.name, got, want), 'query ' + what.split(' of ')[0])
        eq('name', self.strinfo('clGetKernelInfo', k.h, 0x1190), g.name)
        eq('number of arguments', self.intinfo('clGetKernelInfo', 4, k.h, 0x1191), len(g.args))
        at = self.strinfo('clGetKernelInfo', k.h, 0x1195)
        eq('attributes', sorted(at.replace(', ', ',').split()), sorted(g.attrs))
        w = (C.c_size_t * 3)(9, 9, 9)
        call('clGetKernelWorkGroupInfo', k.h, self.c.dev, 0x11B1, 24, w, None)
        eq('required work-group size', list(w), g.reqd or [0, 0, 0])
        loc = self.intinfo('clGetKernelWorkGroupInfo', 8, k.h, self.c.dev, 0x11B2)
        parts = [t.size for _, t in g.locals] + [v for x, v in k.vals.items() if isinstance(x, tuple)]
        if not sum(parts) <= loc <= sum(parts) + 128 * len(parts):
            raise Fail('local memory size of kernel %s is %d, its local variables and arguments have %s bytes' % (g.name, loc, parts), 'query local memory')
        for i, a in enumerate(g.args):
            nm = 'argument %s' % a.name
            probe = raw('clGetKernelArgInfo')(k.h, i, 0x119A, 0, None, None)
            if probe == -19 and 'arg-info' not in opts:
                continue
            sp = 'private' if a.kind in ('val', 'sampler') else 'global' if a.kind in ('image', 'out') else a.kind
            eq('address qualifier of ' + nm, self.intinfo('clGetKernelArgInfo', 4, k.h, i, 0x1196), ADDR[sp])
            eq('access qualifier of ' + nm, self.intinfo('clGetKernelArgInfo', 4, k.h, i, 0x1197), 0x11A0 if a.kind == 'image' else 0x11A3)
            ty = {'val': lambda: a.sp, 'out': lambda: 'uchar*', 'image': lambda: 'image2d_t', 'sampler': lambda: 'sampler_t'}.get(a.kind, lambda: a.sp + '*')()
            if not a.td:
                eq('type name of ' + nm, self.strinfo('clGetKernelArgInfo', k.h, i, 0x1198), ty)
            tq = 0
            if a.kind in ('global', 'constant', 'local'):
                tq = (1 if 'const' in a.quals or a.kind == 'constant' else 0) | (2 if 'restrict' in a.quals else 0) | (4 if 'volatile' in a.quals else 0)
            eq('type qualifier of ' + nm, self.intinfo('clGetKernelArgInfo', 8, k.h, i, 0x1199), tq)
            eq('name of ' + nm, self.strinfo('clGetKernelArgInfo', k.h, i, 0x119A), a.name)
        for i in (len(g.args), len(g.args) + 7):
            e = raw('clGetKernelArgInfo')(k.h, i, 0x119A, 0, None, None)
            eq('info of argument %d' % i, e, -49)


def k_of(a):
    return a.count.n


CHECK = C21()
