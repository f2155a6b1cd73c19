"""C24: oclgrind-kernel runs a simulator file exactly as written."""
import os
import random
import re
import shutil
import struct
import subprocess
import tempfile
from pbt import Check, Fail

T = {'char': (1, 'b'), 'uchar': (1, 'B'), 'short': (2, 'h'), 'ushort': (2, 'H'), 'int': (4, 'i'), 'uint': (4, 'I'), 'long': (8, 'q'), 'ulong': (8, 'Q'),
     'float': (4, 'f'), 'double': (8, 'd')}
FL = ('float', 'double')


def rng(t):
    n = 8 * T[t][0]
    return (0, (1 << n) - 1) if t[0] == 'u' else (-(1 << (n - 1)), (1 << (n - 1)) - 1)


def pack(t, vals):
    return struct.pack('<%d%s' % (len(vals), T[t][1]), *vals)


def unpack(t, b):
    return list(struct.unpack('<%d%s' % (len(b) // T[t][0], T[t][1]), b))


def value(r, t):
    if t in FL:
        v = r.choice([0.0, 1.0, -1.0, 0.5, 3.25, 1e10, -1e-5, 123456.0, 0.1, r.uniform(-1000, 1000), r.uniform(-1, 1) * 10.0 ** r.randint(-20, 20)])
        return struct.unpack('<' + T[t][1], struct.pack('<' + T[t][1], v))[0]
    lo, hi = rng(t)
    return r.choice([lo, hi, 0, 1, hi // 2, max(lo, -1), r.randint(lo, hi), min(hi, r.randint(0, 200)), min(hi, r.randint(0, 9))])


def text(r, t, v, hexa):
    if t in FL:
        o = r.choice([repr(v), '%.17g' % v, '%.20e' % v, ('%+.17g' % v)])
        return o
    if hexa:
        a = '%x' % abs(v)
        a = r.choice([a, a.upper(), a.zfill(T[t][0] * 2)])
        return ('-' if v < 0 else '') + r.choice(['0x', '', '0X']) + a
    return r.choice(['%d', '%d', '%+d'] if v >= 0 else ['%d']) % v


class Arg:
    pass


class C24(Check):
    id = 'C24'
    quick = 9000
    thorough = 40000
    case_timeout = 120
    rule = ('a case is one simulator file run by oclgrind-kernel, well-formed or corrupted; non-trivial when it has at least two arguments with '
            'different descriptions, or is corrupted; distinct by file and kernel')
    assumptions = ['floating point values are dumped with the default six digits; hex is used with integer types only',
                   'randomly mutated files are only required not to crash, and to fail visibly when they do not run']

    def setup(self, b):
        self.exe = b + '/oclgrind-kernel'

    def init(self):
        self.exe = self.b + '/oclgrind-kernel'

    def run(self, d, args, timeout=60):
        env = {k: v for k, v in os.environ.items() if not k.startswith('OCLGRIND') and not k.startswith('LC_')}
        env['OCLGRIND_PCH_DIR'] = self.b + '/include/oclgrind'
        env['LC_ALL'] = 'C'
        cmd = 'ulimit -v 8000000; exec "$@"'
        try:
            p = subprocess.run(['bash', '-c', cmd, 'x', self.exe] + args, cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Fail('oclgrind-kernel %s did not finish in %d s' % (args, timeout), 'hang')
        err = '\n'.join(l for l in p.stderr.decode('latin1').split('\n') if not re.match(r'\d+ warnings? generated\.$', l))
        return p.returncode, p.stdout.decode('latin1'), err

    def gen(self, s, r):
        gs = [s.range(1, 6), s.choice([1, 1, s.range(1, 3)]), s.choice([1, 1, 1, 2])]
        ws = [s.choice([d for d in range(1, g + 1) if g % d == 0]) for g in gs]
        total = gs[0] * gs[1] * gs[2]
        args, params, body = [], [], []
        outoff = 0
        out = []
        for i in range(s.range(1, 5)):
            a = Arg()
            a.name = 'a%d_%s' % (i, ''.join(r.choice('xyzABC_') for _ in range(r.randint(0, 4))))
            a.kind = s.weighted([(5, 'rw'), (2, 'ro'), (2, 'constant'), (3, 'scalar'), (1, 'local'), (1, 'null')])
            a.decl = a.t = s.choice(list(T))
            a.flags = []
            n = s.range(1, 12)
            a.vec = 1
            if a.kind in ('rw', 'ro', 'constant', 'scalar') and s.bool(1, 4):
                a.vec = s.choice([2, 4, 8] if a.kind == 'scalar' else [2, 3, 4, 8, 16])
            if a.kind == 'scalar':
                n = a.vec
            elif a.vec > 1:
                n = (4 if a.vec == 3 else a.vec) * s.range(1, 2)
            a.n = n
            a.hex = False
            a.dump = False
            a.explicit = s.bool(1, 3)
            # the initialiser type may differ from the parameter type
            es = T[a.decl][0]
            if a.kind in ('rw', 'ro', 'constant', 'scalar') and s.bool(1, 5):
                c = [t for t in T if (n * es) % T[t][0] == 0]
                a.t = s.choice(c)
                a.explicit = True
                a.n = n * es // T[a.t][0]
            a.bytes = a.n * T[a.t][0]
            ct = a.decl + (str(a.vec) if a.vec > 1 else '')
            if a.t not in FL and a.kind in ('rw', 'ro', 'constant', 'scalar'):
                a.hex = s.bool(1, 4)
            if a.kind in ('rw', 'ro', 'constant', 'scalar'):
                a.init = s.weighted([(5, 'values'), (2, 'fill'), (2, 'range')] + ([(1, 'noinit')] if a.kind == 'rw' else []))
                if a.init == 'values':
                    a.vals = [value(r, a.t) for _ in range(a.n)]
                elif a.init == 'fill':
                    v = value(r, a.t)
                    a.vals = [v] * a.n
                    a.header = 'fill=' + text(r, a.t, v, a.hex)
                elif a.init == 'range':
                    if a.t in FL:
                        st, inc = r.choice([0.0, -1.5, 0.25, 8.0]), r.choice([1.0, 0.5, -0.25, 2.0])
                    else:
                        lo, hi = rng(a.t)
                        inc = r.choice([1, 1, 2, 3, 7] + ([-1, -2] if lo < 0 else []))
                        a0, a1 = (0, (a.n - 1) * inc)
                        st = r.randint(lo - min(a0, a1), hi - max(a0, a1)) if r.random() < 0.5 and lo - min(a0, a1) <= hi - max(a0, a1) else max(0, -min(a0, a1))
                        if abs(st) > 2**50:
                            st = 5 if inc > 0 else 5 - inc * a.n
                    if a.n == 1 and a.t not in FL and False:
                        pass
                    a.vals = [st + k * inc for k in range(a.n)]
                    if a.t not in FL and not (lo <= a.vals[-1] <= hi):
                        a.init, a.vals = 'values', [value(r, a.t) for _ in range(a.n)]
                    else:
                        a.header = 'range=%s:%s:%s' % tuple(text(r, a.t, x, a.hex) for x in (st, inc, a.vals[-1]))
                else:
                    a.vals = None
                    a.header = 'noinit'
            qual = {'rw': 'global', 'ro': 'global const', 'constant': 'constant', 'local': 'local', 'null': s.choice(['global', 'constant'])}.get(a.kind)
            if a.kind == 'scalar':
                params.append('%s %s' % (ct, a.name))
                body.append('  if (gid == 0) { %s t_ = %s; for (int i = 0; i < %d; i++) OUT[%d + i] = ((uchar *)&t_)[i]; }' % (ct, a.name, a.bytes, outoff))
                out.append(pack(a.t, a.vals))
                outoff += a.bytes
            elif a.kind == 'local':
                # size in work-group units
                a.bytes = T[a.decl][0] * ws[0] * ws[1] * ws[2]
                a.explicit = False
                params.append('local %s *%s' % (a.decl, a.name))
                body.append('  %s[lid] = (%s)(lid + %d); barrier(CLK_LOCAL_MEM_FENCE); OUT[%d + gid] = (uchar)%s[lsz - 1 - lid];' % (a.name, a.decl, i, outoff, a.name))
                ls = ws[0] * ws[1] * ws[2]
                # filled in by group geometry below
                out.append(('local', i, ls))
                outoff += total
            elif a.kind == 'null':
                params.append('%s %s *%s' % (qual, a.decl, a.name))
                body.append('  if (gid == 0) OUT[%d] = (%s == 0);' % (outoff, a.name))
                out.append(b'\x01')
                outoff += 1
            else:
                params.append('%s %s *%s' % (qual, ct, a.name))
                a.dump = s.bool(2, 3)
                if a.kind == 'rw':
                    nb = a.bytes
                    if s.bool():
                        body.append('  { global uchar *b = (global uchar *)%s; for (int i = gid; i < %d; i += %d) b[i] %s; }' % (a.name, nb, total, '= i + 7' if a.vals is None else '^= (i & 3) ? 0 : 1'))
                        a.after = bytes([(i + 7) & 255 for i in range(nb)]) if a.vals is None else bytes(v ^ (0 if i & 3 else 1) for i, v in enumerate(pack(a.t, a.vals)))
                    elif a.vals is None:
                        a.dump = False
                        a.after = None
                    else:
                        a.after = pack(a.t, a.vals)
                    if s.bool(1, 6) and a.vals is not None and a.after == pack(a.t, a.vals):
                        a.flags.append('ro')
                else:
                    a.after = pack(a.t, a.vals)
                    if a.kind == 'ro' and s.bool(1, 2):
                        a.flags.append('ro')
                    p = 'const constant uchar *' if a.kind == 'constant' else 'const global uchar *'
                    body.append('  { %sb = (%s)%s; for (int i = gid; i < %d; i += %d) OUT[%d + i] = b[i]; }' % (p, p, a.name, a.bytes, total, outoff))
                    out.append(a.after)
                    outoff += a.bytes
            args.append(a)
        o = Arg()
        o.name, o.kind, o.decl, o.t, o.vec, o.n, o.hex, o.dump, o.explicit, o.flags = 'OUT', 'rw', 'uchar', 'uchar', 1, outoff + 2, s.bool(1, 4), True, s.bool(1, 3), ['wo'] if s.bool(1, 4) else []
        o.bytes = o.n
        o.init, o.header, o.vals = 'fill', 'fill=' + ('ab' if o.hex else '171'), None
        img = bytearray(b'\xab' * o.n)
        pos = 0
        for x in out:
            if isinstance(x, tuple):
                _, k, ls = x
                for g in range(total):
                    gx, gy, gz = g % gs[0], g // gs[0] % gs[1], g // (gs[0] * gs[1])
                    lid = gx % ws[0] + ws[0] * (gy % ws[1] + ws[1] * (gz % ws[2]))
                    img[pos + g] = (ls - 1 - lid) + k & 255
                pos += total
            else:
                img[pos:pos + len(x)] = x
                pos += len(x)
        o.after = bytes(img)
        args.append(o)
        pos = s.draw(len(args))
        args.insert(pos, args.pop())
        params.insert(pos, 'global uchar *OUT')
        kn = s.choice(['k', 'kern_1', 'Main'])
        src = ('%skernel void %s(%s)\n{\n  int gid = get_global_id(0) + get_global_size(0) * (get_global_id(1) + get_global_size(1) * get_global_id(2));\n'
               '  int lid = get_local_id(0) + get_local_size(0) * (get_local_id(1) + get_local_size(1) * get_local_id(2));\n'
               '  int lsz = get_local_size(0) * get_local_size(1) * get_local_size(2);\n%s\n}\n') % (
                   '', kn, ', '.join(params), '\n'.join(body))
        return gs, ws, args, kn, src

    def header(self, r, a, fields=None):
        f = ['size=%d' % a.bytes] if a.kind != 'null' else ['null']
        if a.explicit:
            f.append(a.t)
        if a.hex:
            f.append('hex')
        if a.dump:
            f.append('dump')
        f += a.flags
        if a.kind in ('rw', 'ro', 'constant', 'scalar') and a.init != 'values':
            f.append(a.header)
        r.shuffle(f)
        if fields is not None:
            fields(f)
        sp = lambda: ' ' * r.choice([1, 1, 1, 2, 3]) if r.random() < 0.9 else '\t'
        return '<' + (sp() if r.random() < 0.2 else '') + ''.join(x + (sp() if i < len(f) - 1 else '') for i, x in enumerate(f)) + (sp() if r.random() < 0.15 else '') + '>'

    def values(self, r, a):
        if a.kind in ('rw', 'ro', 'constant', 'scalar') and a.init == 'values':
            return [text(r, a.t, v, a.hex) for v in a.vals]
        return []

    def case(self, s):
        bad = s.bool(2, 5)
        r = random.Random(s.seed())
        gs, ws, args, kn, src = self.gen(s, r)
        # tokens: strings; headers stay on one line
        toks = ['p.cl', kn] + [str(v) for v in gs + ws]
        spans = []
        for a in args:
            st = len(toks)
            toks.append(self.header(r, a))
            toks += self.values(r, a)
            spans.append((st, len(toks)))
        files = {'p.cl': src.encode()}
        what = None
        strict = True
        if bad:
            what, strict = self.corrupt(s, r, gs, ws, args, kn, toks, spans, files)
        style = s.choice(['lines', 'lines', 'random', 'dense'])
        txt = ''
        header_done = False
        for i, t in enumerate(toks):
            nxt = toks[i + 1] if i + 1 < len(toks) else None
            txt += t
            if nxt is None:
                break
            if style == 'dense':
                sep = ' '
                # a header takes its whole line up to the last '>'
                if nxt.startswith('<') or t.startswith('<'):
                    sep = '\n'
            elif style == 'lines':
                sep = '\n' if nxt.startswith('<') or i in (0, 1, 4, 7) else r.choice([' ', ' ', '\n', '\t', '  '])
            else:
                sep = r.choice([' ', '\n', '\n\n', '\t', ' \n ', '  # comment <size=4> 1 2\n', '\n# a comment line\n', '\r\n' if False else '\n'])
                if nxt.startswith('<') and '\n' not in sep:
                    sep = '\n'
            if t.startswith('<') and sep == '\t':
                sep = ' '
            txt += sep
        end = s.weighted([(5, '\n'), (1, ''), (1, '\n\n'), (1, '  \n'), (1, ' # the end\n'), (1, '\n# the end'), (1, '\n# the end\n')])
        txt += end
        if what == 'mutated':
            b = bytearray(txt.encode())
            for _ in range(r.randint(1, 4)):
                k = r.randrange(4)
                i = r.randrange(len(b))
                if k == 0:
                    b[i] = r.randrange(256)
                elif k == 1:
                    del b[i:i + r.randint(1, 8)]
                elif k == 2:
                    b[i:i] = bytes(r.choice(b'<>=:-#0 9\nxrange') for _ in range(r.randint(1, 5)))
                else:
                    b = b[:i]
                b = b or bytearray(b' ')
            raw = bytes(b)
            # keep the work small: the sizes lead
            if re.search(rb'\d{4}', raw[:60]):
                raw = raw.replace(b'p.cl', b'q.cl')
        else:
            raw = txt.encode()
        opts = []
        if s.bool(1, 4):
            opts += ['--num-threads', str(s.range(1, 4))]
        if s.bool(1, 6):
            opts += ['--build-options', '-cl-opt-disable']
        gm = not bad and s.bool(1, 6)
        if gm:
            opts.append(s.choice(['-g', '--global-mem']))
        order = opts + ['t.sim'] if s.bool() else ['t.sim'] + opts
        s.desc = 'corruption=%s options=%s\n--- t.sim\n%s\n--- p.cl\n%s' % (what, order, raw.decode('latin1'), files.get('p.cl', b'').decode('latin1'))
        d = tempfile.mkdtemp(prefix='c24_', dir='/tmp')
        try:
            for n, c in files.items():
                with open(d + '/' + n, 'wb') as f:
                    f.write(c)
            with open(d + '/t.sim', 'wb') as f:
                f.write(raw)
            rc, so, se = self.run(d, order)
        finally:
            shutil.rmtree(d)
        if what:
            s.cls('corrupt: ' + what)
            s.nontrivial((raw, src))
            if rc not in (0, 1):
                raise Fail('%s: exit status %d\nstderr: %s' % (what, rc, se[:500]), 'crash ' + what)
            if rc != 0 and not se.strip():
                raise Fail('%s: failed without a message' % what, 'silent ' + what)
            if strict:
                if rc == 0:
                    raise Fail('%s: accepted; output:\n%s' % (what, so[:600]), 'accepted ' + what)
                if so.strip():
                    raise Fail('%s: printed results:\n%s' % (what, so[:400]), 'ran ' + what)
            return
        if rc != 0 or se.strip():
            raise Fail('exit status %d\nstderr: %s' % (rc, se[:600]), 'rejected')
        exp = ''
        for a in args:
            if not a.dump:
                continue
            exp += "\nArgument '%s': %d bytes\n" % (a.name, a.bytes)
            for i, v in enumerate(unpack(a.t, a.after)):
                if a.hex:
                    v = '0x%0*x' % (T[a.t][0] * 2, v & (1 << 8 * T[a.t][0]) - 1)
                elif a.t in FL:
                    v = '-nan' if v != v and a.after[(i + 1) * T[a.t][0] - 1] & 0x80 else '%g' % v
                exp += '  %s[%d] = %s\n' % (a.name, i, v)
            exp += '\n'
        if gm:
            head, sep, mem = so.partition('\nGlobal Memory:\n')
            if not sep:
                raise Fail('no global memory dump', 'global')
            have = head
        else:
            have, mem = so, None
        if have != exp:
            g, w = have.split('\n'), exp.split('\n')
            k = next((i for i in range(max(len(g), len(w))) if g[i:i + 1] != w[i:i + 1]), 0)
            raise Fail('output line %d: got %r, expected %r' % (k + 1, g[k:k + 1], w[k:k + 1]), 'dump')
        if mem is not None:
            bufs = {}
            for l in mem.split('\n'):
                m = re.match(r'^ *([0-9A-F]+):((?: [0-9A-F]{2})+)$', l)
                if not m:
                    if l.strip():
                        raise Fail('global memory dump line %r' % l, 'global')
                    continue
                ad = int(m.group(1), 16)
                b = bufs.setdefault(ad >> 48, bytearray())
                if ad & (1 << 48) - 1 != len(b):
                    raise Fail('global memory dump: address %x follows %d bytes' % (ad, len(b)), 'global')
                b += bytes.fromhex(m.group(2))
            want = [a.after for a in args if a.kind in ('rw', 'ro', 'constant')]
            have = [bytes(b) for k, b in sorted(bufs.items())]
            # other buffers (program scope data) may follow or precede
            it = iter(have)
            for a in (a for a in args if a.kind in ('rw', 'ro', 'constant')):
                if not any((len(h) == a.bytes if a.after is None else h == a.after) for h in it):
                    raise Fail('global memory dump lacks argument %s' % a.name, 'global')
        for a in args:
            s.cls('%s %s%s%s' % (a.kind, getattr(a, 'init', ''), ' hex' if a.hex else '', ' other type' if a.t != a.decl else ''))
        if len(args) >= 2:
            s.nontrivial((raw, src))

    def corrupt(self, s, r, gs, ws, args, kn, toks, spans, files):
        pick = lambda p: [i for i, a in enumerate(args) if p(a)]
        withvals = pick(lambda a: a.kind in ('rw', 'ro', 'constant', 'scalar') and a.init == 'values')
        data = pick(lambda a: a.kind in ('rw', 'ro', 'constant', 'scalar'))
        bufs = pick(lambda a: a.kind in ('rw', 'ro', 'constant'))
        nonbuf = pick(lambda a: a.kind in ('scalar', 'local'))
        rehead = lambda i, fn: toks.__setitem__(spans[i][0], self.header(r, args[i], fn))
        opts = [(3, 'mutated'), (1, 'no such program'), (1, 'no such kernel'), (1, 'build failure'), (1, 'empty program'), (1, 'directory as program'),
                (1, 'zero size'), (1, 'negative size'), (1, 'word size'), (1, 'indivisible'), (1, 'no size'), (1, 'bad size'), (1, 'huge size'),
                (1, 'negative arg size'), (1, 'unknown token'), (1, 'missing <'), (1, 'missing >'), (1, 'two types'),
                (1, 'extra token'), (1, 'truncated'), (1, 'extra argument'), (1, 'prefix token'), (1, 'no equals')]
        if withvals:
            opts += [(1, 'missing value'), (2, 'bad value'), (1, 'out of range'), (1, 'odd size')]
        if data:
            opts += [(1, 'two initialisers'), (1, 'bad range'), (1, 'bad fill')]
        if bufs:
            opts += [(1, 'ro and wo'), (1, 'null and size')]
        if nonbuf:
            opts += [(1, 'buffer flag on non-buffer')]
        if pick(lambda a: a.kind == 'scalar'):
            opts += [(2, 'scalar size')]
        w = s.weighted(opts)
        any_ = r.randrange(len(args))
        if w == 'mutated':
            return w, False
        if w == 'no such program':
            toks[0] = 'nope.cl'
        elif w == 'no such kernel':
            toks[1] = r.choice(['nope', kn + 'x', kn[:-1] or 'z', 'OUT'])
        elif w == 'build failure':
            files['p.cl'] = files['p.cl'].replace(b'int gid =', r.choice([b'int gid == ', b'undeclared = ', b'int gid gid =']), 1)
        elif w == 'empty program':
            files['p.cl'] = r.choice([b'', b'\n', b' ', b'//'])
        elif w == 'directory as program':
            toks[0] = r.choice(['.', '/', '/tmp'])
        elif w in ('zero size', 'negative size', 'word size'):
            # a zero NDRange is left out: launching nothing is not an error of the file
            i = r.randrange(5 if w == 'zero size' else 2, 8)
            toks[i] = {'zero size': '0', 'negative size': '-1', 'word size': r.choice(['x', 'one', '<', '?'])}[w]
        elif w == 'indivisible':
            i = r.randrange(3)
            toks[5 + i] = str(gs[i] + r.randint(1, 3))
        elif w == 'no size':
            if args[any_].kind == 'null':
                rehead(any_, lambda f: f.remove('null'))
            else:
                rehead(any_, lambda f: f.remove('size=%d' % args[any_].bytes))
        elif w in ('bad size', 'huge size', 'negative arg size', 'no equals'):
            c = pick(lambda a: a.kind != 'null')
            i = r.choice(c)

            def fn(f):
                f.remove('size=%d' % args[i].bytes)
                f.append({'bad size': r.choice(['size=', 'size=x', 'size=4x', 'size=1.5', 'size:4']), 'huge size': 'size=%d' % r.choice([1 << 62, (1 << 63) - 8, 10**30 if r.random() < 0.3 else 1 << 45]),
                          'negative arg size': 'size=-%d' % args[i].bytes, 'no equals': r.choice(['size%d' % args[i].bytes, 'size', 'size =%d' % args[i].bytes])}[w])
            if w == 'huge size' and args[i].kind == 'local':
                return self.fallback(toks)
            rehead(i, fn)
        elif w == 'unknown token':
            rehead(any_, lambda f: f.insert(r.randrange(len(f) + 1), r.choice(['foo', 'Dump', 'int4', 'half', 'INT', '=', 'rw', 'xyz=3', 'unsigned'])))
        elif w == 'prefix token':
            rehead(any_, lambda f: f.insert(r.randrange(len(f) + 1), r.choice(['dumped', 'dump=1', 'dumps', 'filled', 'fill', 'range', 'ranges=0:1:3', 'sizes=4', 'hexa', 'nul', 'rowo'])))
        elif w == 'missing <':
            toks[spans[any_][0]] = toks[spans[any_][0]][1:].lstrip()
        elif w == 'missing >':
            toks[spans[any_][0]] = toks[spans[any_][0]][:-1]
        elif w == 'two types':
            rehead(any_, lambda f: f.extend(r.choice([['int', 'float'], ['char', 'char'], ['uint', 'long']])))
        elif w == 'extra token':
            toks.append(r.choice(['0', '1 2', 'x', '<size=4> 1', '>']))
        elif w == 'extra argument':
            toks.insert(spans[any_][0], '<size=4 int> 1')
            if any_ < len(args) and args[any_].kind not in ('null', 'local'):
                pass
        elif w == 'truncated':
            n = r.randrange(1, spans[-1][0] + 1)
            del toks[n:]
        elif w == 'missing value':
            i = r.choice(withvals)
            del toks[r.randrange(spans[i][0] + 1, spans[i][1])]
        elif w == 'bad value':
            i = r.choice(withvals)
            toks[r.randrange(spans[i][0] + 1, spans[i][1])] = r.choice(['x', '?', '--1', 'g1', '12z', '1,2', '<', '0x', '"1"', '1..2', ',']) if args[i].t not in FL else r.choice(['x', 'one', '1.0q', '1,5', '--1', '.'])
        elif w == 'out of range':
            i = r.choice(withvals)
            a = args[i]
            if a.t in FL or a.t == 'ulong':
                toks[spans[i][0] + 1] = 'zz'
            else:
                v = rng(a.t)[1] + r.choice([1, 2, 1000])
                toks[r.randrange(spans[i][0] + 1, spans[i][1])] = '%x' % v if a.hex else str(v)
        elif w == 'odd size':
            i = r.choice(withvals)
            a = args[i]
            if T[a.t][0] == 1:
                del toks[spans[i][0] + 1]
            else:
                def fn(f):
                    f[f.index('size=%d' % a.bytes)] = 'size=%d' % (a.bytes + r.randint(1, T[a.t][0] - 1))
                rehead(i, fn)
        elif w == 'two initialisers':
            i = r.choice(data)
            rehead(i, lambda f: f.extend(['fill=1', 'range=0:1:%d' % (args[i].n - 1)] if args[i].init not in ('fill', 'noinit') else ['range=0:1:%d' % (args[i].n - 1)]))
        elif w == 'bad range':
            i = r.choice(data)
            a = args[i]
            a.header, old = 'range=' + r.choice(['', '0', '0:1', '0:1:%d' % a.n, '0:0:0', '0:1:x', '0:1:%d:2' % (a.n - 1), 'a:b:c', '0-1-3', '::', '0:1:%dq' % (a.n - 1)]), a.init
            if a.n == 1 and a.header in ('range=0:0:0',):
                a.header = 'range=0:1'
            a.init = 'range'
            del toks[spans[i][0] + 1:spans[i][1]]
            toks[spans[i][0]] = self.header(r, a)
        elif w == 'bad fill':
            i = r.choice(data)
            a = args[i]
            a.header = 'fill' + r.choice(['=', '=x', '=1z', '=1,2', '', ':1', '==1'])
            a.init = 'fill'
            del toks[spans[i][0] + 1:spans[i][1]]
            toks[spans[i][0]] = self.header(r, a)
        elif w == 'ro and wo':
            rehead(r.choice(bufs), lambda f: f.extend([x for x in r.choice([['ro', 'wo'], ['wo', 'ro']])]))
        elif w == 'null and size':
            rehead(r.choice(bufs), lambda f: f.append('null'))
        elif w == 'buffer flag on non-buffer':
            rehead(r.choice(nonbuf), lambda f: f.append(r.choice(['noinit', 'null', 'ro', 'wo', 'dump'])))
        elif w == 'scalar size':
            i = r.choice(pick(lambda a: a.kind == 'scalar'))
            a = args[i]
            es = T[a.t][0]
            n = r.choice([a.n - 1, a.n + 1, a.n * 2, a.n + 5])
            if n == 0:
                n = a.n + 1
            a.bytes = n * es
            a.init = 'fill'
            a.header = 'fill=1'
            del toks[spans[i][0] + 1:spans[i][1]]
            toks[spans[i][0]] = self.header(r, a)
        return w, True

    def fallback(self, toks):
        toks.append('x')
        return 'extra token', True


CHECK = C24()
