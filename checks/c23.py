"""C23: printf in kernels prints what the format specifies."""
import ctypes
import random
import struct
import clrt
from pbt import Check, Fail

libc = ctypes.CDLL(None)


def cfmt(fmt, ctype=None, val=None):
    buf = ctypes.create_string_buffer(8192)
    n = libc.snprintf(buf, ctypes.c_size_t(8192), fmt, *([] if ctype is None else [ctype(val)]))
    assert 0 <= n < 8192
    return buf.raw[:n]


LIT = b'abcXYZ 019.,:;-_+*/()[]{}<>=!?#@$^&~|\'"\\\n\tdluxhv'


def lit(r, n):
    return bytes(r.choice(LIT) for _ in range(n))


def cstr(b):
    o = ''
    for c in b:
        if c in (0x22, 0x5c):
            o += '\\' + chr(c)
        elif 32 <= c < 127 and c != 0x3f:
            o += chr(c)
        else:
            o += '\\%03o' % c
    return '"%s"' % o


ITYPES = {'char': (1, 1), 'uchar': (1, 0), 'short': (2, 1), 'ushort': (2, 0), 'int': (4, 1), 'uint': (4, 0), 'long': (8, 1), 'ulong': (8, 0)}
CT = {(1, 1): ctypes.c_byte, (1, 0): ctypes.c_ubyte, (2, 1): ctypes.c_short, (2, 0): ctypes.c_ushort, (4, 1): ctypes.c_int, (4, 0): ctypes.c_uint,
      (8, 1): ctypes.c_longlong, (8, 0): ctypes.c_ulonglong}
IV = [0, 1, 2, 7, 9, 10, 65, 97, 127, 128, 200, 255, 256, 300, 1000, 32767, 32768, 65535, 65536, 99999, 123456789, 2**31 - 1, 2**31, 2**32 - 1, 2**32,
      2**53, 2**63 - 1, 2**63, 2**64 - 1, 2**64 - 2, 2**64 - 100, 2**64 - 2**31, 0xdeadbeefcafebabe]
FV = [0.0, -0.0, 1.0, -1.0, 0.5, 1.5, 2.5, 0.1, -0.1, 3.14159265, 1e10, 1e-10, 123456.789, 9.9999999, 0.99999994, 1e30, 1.17549435e-38, 1e-44, 3.4e38,
      float('inf'), float('-inf'), float('nan'), 65504.0, 16777216.0, 1e5, 1e6, 999999.5, 1e-5, 0.0001, 0.00001234]


def ival(r, size, signed):
    v = r.choice(IV) if r.random() < 0.6 else r.getrandbits(r.randint(1, 64))
    if r.random() < 0.2:
        v = -v
    v &= (1 << 8 * size) - 1
    if signed and v >> (8 * size - 1):
        v -= 1 << 8 * size
    return v


def fval(r, dbl):
    v = r.choice(FV) if r.random() < 0.6 else (r.random() - 0.5) * 10.0 ** r.randint(-40 if dbl else -30, 40 if dbl else 30)
    if r.random() < 0.3:
        v = round(v, r.randint(0, 3)) if v == v and abs(v) < 1e15 else v
    return v if dbl else struct.unpack('f', struct.pack('f', v))[0]


class C23(Check):
    id = 'C23'
    quick = 30000
    thorough = 200000
    rule = ('a case is one kernel with generated printf calls; non-trivial when it prints at least one conversion other than a '
            'plain %d; distinct by source and argument data')
    assumptions = ['the C library\'s snprintf formats single scalar values as C99 says',
                   'a work-item\'s output of one call is contiguous (cases with several work-items tag each call)',
                   'undefined combinations (mismatched argument types, flags without meaning for the conversion) are not generated']

    def init(self):
        clrt.load(self.b + '/liboclgrind-rt.so')

    def spec(self, s, r):
        """-> (format bytes, arg C type, [elements], ctype, scalar format without vector parts) """
        kind = s.weighted([(6, 'i'), (5, 'f'), (2, 's'), (2, 'c'), (1, '%'), (1, 'p')])
        width = b'' if s.bool(1, 2) else b'%d' % s.choice([1, 2, 5, 8, 12, 20, 60])
        prec = b'' if s.bool(1, 2) else s.choice([b'.', b'.0', b'.1', b'.3', b'.10', b'.17'])

        def flags(allowed):
            return b''.join(bytes([c]) for c in s.subset(list(allowed))) if s.bool() else b''
        if kind == '%':
            return b'%%', None, None, None, b'%%'
        if kind == 'c':
            f = flags(b'-')
            v = r.randint(1, 126)
            return b'%' + f + width + b'c', 'int', [v], ctypes.c_int, b'%' + f + width + b'c'
        if kind == 's':
            f = flags(b'-')
            x = b'%' + f + width + prec + b's'
            t = None if s.bool(1, 12) and prec == b'' else lit(r, r.choice([0, 1, 3, 10, 40]))
            return x, 's', t, ctypes.c_char_p, x
        if kind == 'p':
            f = flags(b'-')
            x = b'%' + f + width + b'p'
            return x, 'p', [r.choice([1, 0x1000, 0xdeadbeef, 0x123456789abc])], ctypes.c_void_p, x
        vec = s.choice([0, 0, 2, 3, 4, 8, 16])
        if kind == 'i':
            conv = s.choice([b'd', b'i', b'u', b'x', b'X', b'o'])
            sg = conv in b'di'
            f = flags(b'-+ 0' if sg else b'-0#' if conv in b'oxX' else b'-0')
            if vec:
                ln, sz = s.choice([(b'hh', 1), (b'h', 2), (b'hl', 4), (b'l', 8)])
            else:
                ln, sz = s.choice([(b'hh', 1), (b'h', 2), (b'', 4), (b'', 4), (b'l', 8)])
            if not vec and sz < 4 and s.bool(1, 2):
                # an int argument is converted to the narrow type
                v = ival(r, 4, sg)
                at = 'int' if sg else 'uint'
                vals = [v]
            else:
                at = {v: k for k, v in ITYPES.items()}[(sz, int(sg))]
                vals = [ival(r, sz, sg) for _ in range(vec or 1)]
            fmt = b'%' + f + width + prec + (b'v%d' % vec if vec else b'') + ln + conv
            # the oracle converts the value itself and prints it with ll
            def conv_(v):
                v &= (1 << 8 * sz) - 1
                return v - (1 << 8 * sz) if sg and v >> (8 * sz - 1) else v
            vals2 = [conv_(v) for v in vals]
            return fmt, at + (str(vec) if vec else ''), vals, (ctypes.c_longlong if sg else ctypes.c_ulonglong, vals2), b'%' + f + width + prec + b'll' + conv
        conv = s.choice([b'f', b'F', b'e', b'E', b'g', b'G', b'a', b'A'])
        f = flags(b'-+ 0#')
        dbl = s.bool(1, 3)
        if vec:
            ln = b'l' if dbl else b'hl'
        else:
            ln = s.choice([b'', b'', b'l'])
        vals = [fval(r, dbl) for _ in range(vec or 1)]
        fmt = b'%' + f + width + prec + (b'v%d' % vec if vec else b'') + ln + conv
        return fmt, ('double' if dbl else 'float') + (str(vec) if vec else ''), vals, (ctypes.c_double, vals), b'%' + f + width + prec + conv

    def case(self, s):
        items = s.weighted([(3, 1), (2, s.range(2, 6))])
        lsz = 1 if items == 1 else s.choice([d for d in range(1, items + 1) if items % d == 0])
        threads = s.choice([1, 1, 2, 4])
        opts = s.choice(['', '-cl-opt-disable'])
        r = random.Random(s.seed())
        body, decl, expected = [], [], [[] for _ in range(items)]
        data = bytearray()
        ret = []
        nont = False
        for k in range(s.range(1, 5)):
            pre = b'' if items == 1 else b'{%d.%d|'
            fmt, args, per = pre, ([] if items == 1 else ['gid', str(k)]), [b''] * items
            loop = s.range(1, 3)
            guard = s.weighted([(3, None), (1, ('gid %% 2 == %d' % (k & 1), lambda g, k=k: g % 2 == (k & 1))), (1, ('gid >= %d' % (k - 1), lambda g, k=k: g >= k - 1))])
            outs = [[] for _ in range(items)]      # pieces per item
            for _ in range(s.range(0, 4)):
                if s.bool(1, 2):
                    t = lit(r, r.randint(0, 6))
                    fmt += t
                    for o in outs:
                        o.append(t)
                f, at, vals, oc, sf = self.spec(s, r)
                if f[1:] not in (b'd', b'%'):
                    nont = True
                fmt += f
                s.cls(chr(f[-1]) + (' vector' if b'v' in f else ''))
                if at is None:
                    for o in outs:
                        o.append(b'%')
                    continue
                if at == 's':
                    nm = 'str%d' % len(decl)
                    if vals is None:
                        args.append('(constant char *)0')
                        txt = cfmt(sf, ctypes.c_char_p, None)
                    elif s.bool():
                        args.append(cstr(vals))
                        txt = cfmt(sf, ctypes.c_char_p, vals)
                    else:
                        decl.append('constant char %s[] = %s;' % (nm, cstr(vals)))
                        args.append(nm)
                        txt = cfmt(sf, ctypes.c_char_p, vals)
                    for o in outs:
                        o.append(txt)
                    continue
                if at == 'p':
                    args.append('(global void *)%#xul' % vals[0])
                    txt = cfmt(sf, ctypes.c_void_p, vals[0])
                    for o in outs:
                        o.append(txt)
                    continue
                base = at.rstrip('0123456789')
                n = int(at[len(base):] or 1)
                esz = {'float': 4, 'double': 8}.get(base) or ITYPES[base][0]
                rows = [vals]
                # different values per work-item, from a buffer
                dyn = s.bool(3, 4)
                if dyn:
                    for _ in range(items - 1):
                        if base in ('float', 'double'):
                            rows.append([fval(r, base == 'double') for _ in vals])
                        elif oc is ctypes.c_int:
                            rows.append([r.randint(1, 126)])
                        else:
                            rows.append([ival(r, *ITYPES[base]) for _ in vals])
                    al = 4 if n == 3 else n
                    while len(data) % (esz * al):
                        data.append(0)
                    off = len(data)
                    for row in rows:
                        for v in row:
                            data += struct.pack('<f', v) if base == 'float' else struct.pack('<d', v) if base == 'double' else (v & (1 << 8 * esz) - 1).to_bytes(esz, 'little')
                    p = '(global const %s *)(D + %d)' % (base, off)
                    args.append('vload%d(gid, %s)' % (n, p) if n > 1 else '(%s)[gid]' % p)
                else:
                    def c(v):
                        if base in ('float', 'double'):
                            b = struct.pack('<f' if base == 'float' else '<d', v)
                            return ('as_float(0x%xu)' if base == 'float' else 'as_double(0x%xul)') % int.from_bytes(b, 'little')
                        return '(%s)0x%x%s' % (base, v & (1 << 8 * esz) - 1, 'ul' if esz == 8 else 'u')
                    args.append('(%s)(%s)' % (at, ', '.join(map(c, vals))) if n > 1 else c(vals[0]))
                    rows *= items
                for row, o in zip(rows, outs):
                    if isinstance(oc, tuple):
                        ct = oc[0]
                        if ct is not ctypes.c_double:
                            ln = 1 if b'hh' in f else 4 if b'hl' in f else 2 if b'h' in f else 8 if b'l' in f else 4
                            sg = ct is ctypes.c_longlong
                            row = [(v & (1 << 8 * ln) - 1) - ((1 << 8 * ln) if sg and (v >> (8 * ln - 1)) & 1 else 0) for v in row]
                    else:
                        ct = oc
                    o.append(b','.join(cfmt(sf, ct, v) for v in row))
            if s.bool(1, 2):
                t = lit(r, r.randint(0, 4))
                fmt += t
                for o in outs:
                    o.append(t)
            end = b'' if items == 1 else b'}'
            fmt += end
            via = s.weighted([(4, 'literal'), (1, 'variable'), (1, 'select')])
            if via == 'literal':
                fe = cstr(fmt)
            else:
                nm = 'fmt%d' % k
                decl.append('constant char %s[] = %s;' % (nm, cstr(fmt)))
                fe = nm if via == 'variable' else '(D[0] == 256 ? "never\\n" : %s)' % nm
            call = 'printf(%s)' % ', '.join([fe] + args)
            keep = s.bool(1, 3)
            st = 'R[gid * 5 + %d] = %s;' % (k, call) if keep else call + ';'
            if loop > 1:
                st = 'for (int i = 0; i < %d; i++) %s' % (loop, st)
            if guard:
                st = 'if (%s) %s' % (guard[0], st)
            body.append('  ' + st)
            for g in range(items):
                if guard is None or guard[1](g):
                    head = b'' if items == 1 else b'{%d.%d|' % (g, k)
                    expected[g] += [head + b''.join(outs[g]) + end] * loop
                    if keep:
                        ret.append(g * 5 + k)
        src = '%s\nkernel void k(global const uchar *D, global int *R)\n{\n  int gid = get_global_id(0);\n%s\n}\n' % ('\n'.join(decl), '\n'.join(body))
        data += bytes(16)
        s.desc = 'items=%d local=%d threads=%d opts=%r data=%s\n%s' % (items, lsz, threads, opts, bytes(data).hex(), src)
        clrt.setenv(NUM_THREADS=threads)
        with clrt.Capture() as cap:
            with clrt.Ctx() as c:
                p = c.program(src, opts)
                k = c.kernel(p, 'k')
                R = c.buffer(items * 20, b'\x55' * items * 20)
                c.setargs(k, [('m', c.buffer(len(data), bytes(data))), ('m', R)])
                b1 = len(cap.peek()[0])
                b2 = len(cap.peek()[1])
                c.ndrange(k, [items], [lsz])
                o, e = cap.peek()
                out, err = o[b1:], e[b2:]
                res = struct.unpack('<%di' % (items * 5), c.read(R, items * 20))
        if err:
            raise Fail('diagnostic from a correct printf: %r' % err[:300], 'diag')
        # consume the output call by call
        pos, nxt = 0, [0] * items
        while pos < len(out) or any(nxt[g] < len(expected[g]) for g in range(items)):
            for g in range(items):
                if nxt[g] < len(expected[g]) and out.startswith(expected[g][nxt[g]], pos):
                    pos += len(expected[g][nxt[g]])
                    nxt[g] += 1
                    break
            else:
                want = [expected[g][nxt[g]] for g in range(items) if nxt[g] < len(expected[g])]
                raise Fail('at byte %d of the output: got %r, expected one of %r' % (pos, out[pos:pos + 200], [w[:200] for w in want[:4]]), 'text')
        for i in ret:
            if res[i] != 0:
                raise Fail('printf returned %d' % res[i], 'return')
        for i in range(items * 5):
            if i not in ret and res[i] != 0x55555555:
                raise Fail('R[%d] changed to %d' % (i, res[i]), 'stray')
        if nont:
            s.nontrivial((src, bytes(data)))


CHECK = C23()
