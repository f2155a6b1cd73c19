"""C06: conversions, reinterpretation, vector data load/store and shuffles."""
import math
import random
from fractions import Fraction
import numpy as np
import clrt
from clb import *
from pbt import Check, Fail

FT = ['float', 'double']
ALL = INTS + FT
MODES = ['', '_rte', '_rtz', '_rtp', '_rtn']


def round_int(fr, mode):
    if mode == '_rtz':
        return math.trunc(fr)
    if mode == '_rtp':
        return math.ceil(fr)
    if mode == '_rtn':
        return math.floor(fr)
    return round(fr)            # Fraction: ties to even


def round_float(fr, t, mode):
    """Fraction -> value of float type t under the rounding mode, as a Python float."""
    eb, mb, bias = F[t]
    if fr == 0:
        return 0.0
    neg = fr < 0
    a = abs(fr)
    e = a.numerator.bit_length() - a.denominator.bit_length()
    if a < Fraction(2) ** e:
        e -= 1
    e = max(e, 1 - bias)
    q = Fraction(2) ** (e - mb)
    k = a / q
    up = {'_rtp': not neg, '_rtn': neg}.get(mode)
    if up is True:
        n = math.ceil(k)
    elif up is False or mode == '_rtz':
        n = math.floor(k)
    else:
        n = round(k)
    v = n * q
    if v >= Fraction(2) ** (bias + 1):
        toinf = mode in ('', '_rte') or up is True
        v = math.inf if toinf else float((2 - Fraction(2) ** -mb) * Fraction(2) ** bias)
    else:
        v = v.numerator / v.denominator
    return -v if neg else v


def fbits(t, v):
    return int(np.array([v], T[t][0]).view('<u%d' % T[t][1])[0])


def isnan_bits(t, v):
    eb, mb, bias = F[t]
    return (v >> mb) & ((1 << eb) - 1) == (1 << eb) - 1 and v & ((1 << mb) - 1) != 0


class C06(Check):
    id = 'C06'
    quick = 24000
    thorough = 200000
    rule = ('a case is one conversion (source type x destination type x width x saturation x rounding mode, or a C cast), '
            'one as_<type> pair, one vload/vstore/vload_half/vstore_half form (type, width, address space, rounding mode, '
            'alignment variant, per-item offsets) or one shuffle form, over up to 32 work-items; distinct by form and seed')
    assumptions = ['references are exact rational arithmetic and byte moves; out-of-range conversions without _sat are '
                   'undefined and not generated; any NaN is accepted for a NaN']

    def init(self):
        clrt.load(self.b + '/liboclgrind-rt.so')

    def case(self, s):
        k = s.weighted([(6, 'convert'), (2, 'astype'), (4, 'vec'), (4, 'half'), (3, 'shuffle')])
        s.cls('kind ' + k)
        n = s.range(1, 32)
        opt = s.weighted([(4, ''), (1, '-cl-opt-disable')])
        seed = s.seed()
        getattr(self, k)(s, random.Random(seed), n, opt, seed)

    # ------------------------------------------------------------------
    def expect(self, v, st, dt, sat_, mode):
        """Expected value of converting v (Python int/float); None if undefined."""
        if T[dt][2] == 'f':
            if T[st][2] == 'f':
                if math.isnan(v) or math.isinf(v):
                    return v
                r = round_float(Fraction(v), dt, mode)
                return math.copysign(r, v)
            return round_float(Fraction(v), dt, mode)
        if T[st][2] == 'f':
            if math.isnan(v):
                return 0 if sat_ else None
            if math.isinf(v):
                return (hi(dt) if v > 0 else lo(dt)) if sat_ else None
            r = round_int(Fraction(v), mode or '_rtz')
            if sat_:
                return sat(dt, r)
            return r if lo(dt) <= r <= hi(dt) else None
        return sat(dt, v) if sat_ else wrap(dt, v)

    def source(self, r, st, dt, m):
        if T[st][2] != 'f':
            v = int_values(r, st, m)
            for i in range(m):
                if T[dt][2] == 'f' and r.random() < .5 and bits(st) > 16:     # near rounding boundaries
                    mb = F[dt][1]
                    e = r.randrange(1, max(2, bits(st) - 1))
                    x = (1 << e) + r.getrandbits(e)
                    sh = max(0, e - mb)
                    if sh:
                        x = (x >> sh << sh) + (1 << (sh - 1)) + r.choice([-1, 0, 1]) * (r.random() < .8)
                        if r.random() < .3 and sh > 30:
                            x += (1 << r.randrange(0, sh - 1))
                    v[i] = wrap(st, x * r.choice([1, -1]))
                elif T[dt][2] != 'f' and r.random() < .3:
                    v[i] = wrap(st, r.choice([lo(dt), hi(dt)]) + r.randrange(-2, 3))
            return v
        v = [float(x) for x in float_values(r, st, m)]
        for i in range(m):
            k = r.random()
            if T[dt][2] != 'f':
                if k < .3:
                    v[i] = r.randrange(-300, 300) / r.choice([2, 4, 1, 3])
                elif k < .5:
                    v[i] = float(r.choice([lo(dt), hi(dt), hi(dt) + 1])) + r.choice([-1, -.5, 0, .5, 1, .25, -.25])
                elif k < .7:
                    v[i] = r.uniform(lo(dt), hi(dt))
            elif dt == 'float' and st == 'double' and k < .6:
                f = float_values(r, 'float', 2, nan=False)
                g = float(np.nextafter(f[0], np.float32(r.choice([-np.inf, np.inf]))))
                if math.isfinite(g) and math.isfinite(float(f[0])):
                    v[i] = (float(f[0]) + g) / 2
                    if r.random() < .5:
                        v[i] = float(np.nextafter(v[i], r.choice([-np.inf, np.inf])))
        np.seterr(all='ignore')
        return [float(x) for x in np.array(v, T[st][0])]

    def convert(self, s, r, n, opt, seed):
        st, dt = s.choice(ALL), s.choice(ALL)
        w = s.choice(WIDTHS)
        form = s.weighted([(4, 'convert'), (1, 'cast')])
        sat_ = mode = ''
        if form == 'convert':
            mode = s.choice(MODES)
            if T[dt][2] != 'f' and s.bool(1, 2):
                sat_ = '_sat'
            call = 'convert_%s%s%s(a0)' % (vn(dt, w), sat_, mode)
        else:
            w = 1
            call = s.choice(['a0', '(%s)a0' % dt])
        s.desc = 'o0[i] = %s for %s -> %s, n=%d, opts=%r, seed=%d' % (call, vn(st, w), vn(dt, w), n, opt, seed)
        s.cls('from ' + st)
        s.cls('to ' + dt)
        s.cls('mode ' + (mode or 'default') + sat_)
        s.nontrivial((call, st, seed))
        v = self.source(r, st, dt, n * w)
        exp = []
        for i in range(n * w):
            e = self.expect(v[i], st, dt, sat_, mode)
            for _ in range(20):
                if e is not None:
                    break
                v[i] = self.source(r, st, dt, 1)[0]
                e = self.expect(v[i], st, dt, sat_, mode)
            if e is None:
                v[i] = 1.0
                e = 1
            exp.append(e)
        a = np.array(v, T[st][0]).reshape(n, w)
        # arithmetic next to the conversion keeps rounding to nearest
        x = np.array([r.uniform(-10, 10) for _ in range(n * 2)], np.float32).reshape(n, 2)
        (res, arith), src = evaluate(n, [(dt, w), ('float', 2)], [(st, w, a), ('float', 2, x)],
                                     'o0[i] = %s; o1[i] = (float2)(a1.x + a1.y, a1.x * a1.y);' % call, opts=opt)
        want = np.stack([x[:, 0] + x[:, 1], x[:, 0] * x[:, 1]], 1)
        if not (arith == want).all():
            i = int(np.argwhere((arith != want).any(1))[0][0])
            raise Fail('after %s, sum and product of %s are %s, expected %s\n%s' % (call, x[i], arith[i], want[i], src), 'rounding mode kept')
        got = res.reshape(-1)
        s.count('values', n * w)
        for i in range(n * w):
            g, e = got[i].item(), exp[i]
            ok = g == e
            if T[dt][2] == 'f':
                ok = (math.isnan(e) and math.isnan(g)) or (g == e and math.copysign(1, g) == math.copysign(1, e))
            if not ok:
                raise Fail('%s -> %s: %s of %r gives %r, expected %r\n%s' % (vn(st, w), vn(dt, w), call, v[i], g, e, src),
                           'convert %s %s %s' % (form, T[st][2], T[dt][2]))

    # ------------------------------------------------------------------
    def astype(self, s, r, n, opt, seed):
        st = s.choice(ALL)
        w = s.choice(WIDTHS)
        size = stride(w) * T[st][1]
        cand = [(t, x) for t in ALL for x in WIDTHS if stride(x) * T[t][1] == size and
                ((x == 3) == (w == 3) or (T[t][1] == T[st][1] and {x, w} == {3, 4}))]
        dt, dw = s.choice(cand)
        s.desc = 'as_%s(%s), n=%d, opts=%r, seed=%d' % (vn(dt, dw), vn(st, w), n, opt, seed)
        s.nontrivial((st, w, dt, dw, seed))
        if T[st][2] == 'f':
            a = float_values(r, st, n * w, nan=False)
        else:
            a = np.array([r.getrandbits(bits(st)) if r.random() < .7 else 0 for _ in range(n * w)],
                         '<u%d' % T[st][1]).view(T[st][0])
        # integer sources must not look like signalling NaNs once they are floating values
        if T[dt][2] == 'f':
            eb, mb, bias = F[dt]
            raw = np.frombuffer(pack(st, w, a.reshape(n, w)), '<u%d' % T[dt][1]).copy()
            m = ((raw >> mb) & ((1 << eb) - 1)) == (1 << eb) - 1
            raw[m] &= ~np.array(1 << mb, raw.dtype)
            a = np.frombuffer(raw.tobytes(), T[st][0]).reshape(n, stride(w))[:, :w].copy()
        a = a.reshape(n, w)
        (res,), src = evaluate(n, [(dt, dw)], [(st, w, a)], 'o0[i] = as_%s(a0);' % vn(dt, dw), opts=opt)
        raw = pack(st, w, a)
        exp = np.frombuffer(raw, T[dt][0]).reshape(n, stride(dw))
        k = min(w, dw) if {w, dw} == {3, 4} else dw
        g = np.ascontiguousarray(res[:, :k]).tobytes()
        e = np.ascontiguousarray(exp[:, :k]).tobytes()
        if g != e:
            raise Fail('as_%s of %s moved the wrong bits: got %r, expected %r\n%s' % (
                vn(dt, dw), vn(st, w), res[:, :k], exp[:, :k], src), 'astype')

    # ------------------------------------------------------------------
    def memrun(self, n, B, srcbytes, dstbytes, params, extra, body, opt, lsize):
        """kernel k(S uchar *src, global uchar *dst, global uchar *val, global const uint *off)"""
        clrt.setenv()
        src = 'kernel void k(%s)\n{\n  size_t i = get_global_id(0);\n%s}\n' % (params, body)
        with clrt.Capture() as cap:
            with clrt.Ctx() as c:
                p = c.program(src, opt)
                k = c.kernel(p, 'k')
                args = []
                for d in [srcbytes, dstbytes] + extra:
                    args.append(c.buffer(len(d), d))
                c.setargs(k, [('m', m) for m in args])
                c.ndrange(k, [n], [lsize])
                out = [c.read(m, len(d)) for m, d in zip(args, [srcbytes, dstbytes] + extra)]
        if cap.out or cap.err:
            raise Fail('unexpected output from a valid kernel:\n%s%s\n%s' % (cap.stdout, cap.stderr, src), 'diag')
        if out[0] != srcbytes:
            raise Fail('the source buffer changed\n' + src, 'source changed')
        return out, src

    def vec(self, s, r, n, opt, seed):
        t = s.choice(ALL)
        w = s.choice([2, 3, 4, 8, 16])
        store = s.bool()
        space = s.choice(['global', 'local', 'private'] + ([] if store else ['constant']))
        disp = s.choice([0, 0, 1, 2, 3])                 # element displacement of the pointer
        maxoff = s.range(0, 3)
        ls = s.choice([d for d in range(1, n + 1) if n % d == 0])
        es = T[t][1]
        cells = disp + (maxoff + 1) * w + 2
        B = cells * es
        offs = [r.randrange(0, maxoff + 1) for _ in range(n)]
        s.desc = '%s%d on %s %s, pointer displaced by %d elements, offsets up to %d, n=%d, group=%d, opts=%r, seed=%d' % (
            'vstore' if store else 'vload', w, space, t, disp, maxoff, n, ls, opt, seed)
        s.cls('%s %s' % ('vstore' if store else 'vload', space))
        s.nontrivial((store, t, w, space, disp, seed))
        self.move(s, r, n, opt, t, t, w, w, store, space, disp, cells, offs, ls,
                  'vload%d(off[i], %%s)' % w, 'vstore%d(v, off[i], %%s)' % w, w * es, None)

    def half(self, s, r, n, opt, seed):
        w = s.choice(WIDTHS)
        store = s.bool(2, 3)
        al = w > 1 and s.bool(1, 2)
        space = s.choice(['global', 'local', 'private'] + ([] if store else ['constant']))
        t = s.choice(FT) if store else 'float'
        mode = s.choice(MODES) if store else ''
        adv = 4 if (al and w == 3) else w
        disp = s.choice([0, 1, 2, 3]) * (adv if al else 1)
        maxoff = s.range(0, 3)
        ls = s.choice([d for d in range(1, n + 1) if n % d == 0])
        cells = -(-(disp + (maxoff + 1) * adv + 2) // 16) * 16 if al else disp + (maxoff + 1) * adv + 2
        offs = [r.randrange(0, maxoff + 1) for _ in range(n)]
        a = 'a' if al else ''
        sfx = str(w) if w > 1 else ''
        s.desc = '%s%s_half%s%s on %s memory (%s), displaced by %d, offsets up to %d, n=%d, group=%d, opts=%r, seed=%d' % (
            'vstore' if store else 'vload', a, sfx, mode, space, t, disp, maxoff, n, ls, opt, seed)
        s.cls('%s%s_half %s' % ('vstore' if store else 'vload', a, space))
        s.cls('mode ' + (mode or 'default'))
        s.nontrivial((store, t, w, space, al, mode, disp, seed))
        self.move(s, r, n, opt, 'half', t, w, adv, store, space, disp, cells, offs, ls,
                  'vload%s_half%s(off[i], %%s)' % (a, sfx), 'vstore%s_half%s%s(v, off[i], %%s)' % (a, sfx, mode),
                  adv * 2, mode)

    def move(self, s, r, n, opt, mt, t, w, adv, store, space, disp, cells, offs, ls, ld, st, advbytes, mode):
        """mt: type in memory, t: type of the value; adv elements per offset step."""
        es = T[mt][1]
        B = cells * es
        v = vn(t, w)
        mq = mt
        mem = bytearray(r.randbytes(n * B))
        if mt == 'half':      # interesting half values, no signalling NaNs
            h = np.frombuffer(bytes(mem), '<u2').copy()
            for i in range(len(h)):
                if r.random() < .3:
                    h[i] = r.choice([0, 0x8000, 1, 0x3ff, 0x400, 0x7bff, 0x7c00, 0xfc00, 0x8001, 0x3c00, 0x7e00])
                if h[i] & 0x7c00 == 0x7c00 and h[i] & 0x3ff:
                    h[i] |= 0x200
            mem = bytearray(h.tobytes())
        elif T[mt][2] == 'f':
            eb, mb, bias = F[mt]
            h = np.frombuffer(bytes(mem), '<u%d' % es).copy()
            m = ((h >> mb) & ((1 << eb) - 1)) == (1 << eb) - 1
            h[m] |= np.array(1 << (mb - 1), h.dtype)
            mem = bytearray(h.tobytes())
        mem = bytes(mem)
        off = np.array(offs, '<u4').tobytes()
        copyin = ''
        ptr = '(%s %s*)(src + i * %d) + %d' % ('global', mq, B, disp)
        lq = space
        if space == 'constant':
            ptr = '(constant %s*)(src + i * %d) + %d' % (mq, B, disp)
        elif space != 'global':
            dim = '' if space == 'private' else '[%d]' % ls
            idx = '' if space == 'private' else '[get_local_id(0)]'
            ali = '__attribute__((aligned(128)))'
            copyin = '  %s uchar tmp%s[%d] %s;\n  for (int j = 0; j < %d; j++) tmp%s[j] = %s[i * %d + j];\n' % (
                space, dim, B, ali, B, idx, 'dst' if store else 'src', B)
            ptr = '(%s %s*)(tmp%s) + %d' % (space, mq, idx, disp)
        # unaligned rows of a local/private byte array are not valid for wider types
        if space == 'local' and B % 128 and not (B % es == 0):
            return
        if store:
            vals = []
            for i in range(n * w):
                if mt == 'half':
                    k = r.random()
                    if k < .3:
                        x = float(float_values(r, t, 1)[0])
                    else:
                        hb = r.getrandbits(16) & 0xfbff if k < .6 else r.choice([0, 1, 0x3ff, 0x400, 0x7bff, 0x7bfe, 2, 0x3c00])
                        if hb & 0x7c00 == 0x7c00:
                            hb &= 0xbfff
                        hb |= r.choice([0, 0x8000])
                        p = float(np.array([hb], '<u2').view('<f2')[0])
                        hn = (hb & 0x7fff) + 1
                        q = 65536.0 if hn == 0x7c00 else float(np.array([hn], '<u2').view('<f2')[0])
                        q = math.copysign(q, p)
                        x = p + (q - p) * r.choice([0, .5, .5, .25, .75, .5 + 2.0 ** -12, .5 - 2.0 ** -12, .5 + 2.0 ** -40,
                                                    2.0 ** -13])
                    np.seterr(all='ignore')
                    x = np.array([x], T[t][0])[0]
                    vals.append(x)
                elif T[t][2] == 'f':
                    vals.append(float_values(r, t, 1)[0])
                else:
                    vals.append(int_values(r, t, 1)[0])
            a = np.array(vals, T[t][0]).reshape(n, w)
            if T[t][2] == 'f':
                a = np.where(np.isnan(a), np.array(np.nan, a.dtype), a)
            body = copyin + '  %s v = val[i];\n  %s;\n' % (v, st % (ptr.replace('src', 'dst')))
            if copyin:
                body += '  for (int j = 0; j < %d; j++) dst[i * %d + j] = tmp%s[j];\n' % (B, B, idx)
            params = 'global uchar *src, global uchar *dst, global %s *val, global uint *off' % v
            out, src = self.memrun(n, B, b'\0' * 16, mem, params, [pack(t, w, a), off], body, opt, ls)
            exp = bytearray(mem)
            nanpos = set()
            for i in range(n):
                base = i * B + (disp + offs[i] * adv) * es
                for c in range(w):
                    if mt == 'half':
                        x = float(a[i][c])
                        if math.isnan(x):
                            nanpos.add(base + c * 2)
                            hv = 0x7e00
                        else:
                            hv = fbits('half', math.copysign(round_float(Fraction(x), 'half', mode), x)) \
                                if math.isfinite(x) else (0x7c00 if x > 0 else 0xfc00)
                        exp[base + 2 * c: base + 2 * c + 2] = hv.to_bytes(2, 'little')
                    else:
                        exp[base + es * c: base + es * (c + 1)] = np.array([a[i][c]], T[t][0]).tobytes()
            got = out[1]
            self.cmpmem(got, exp, nanpos, src, '%s of %r' % (st, a.tolist()), B, es, a)
            return
        params = '%s uchar *src, global uchar *dst, global %s *val, global uint *off' % (
            'constant' if space == 'constant' else 'global', v)
        body = copyin + '  val[i] = %s;\n' % (ld % ptr)
        out, src = self.memrun(n, B, mem, b'\0' * 16, params, [b'\0' * (n * stride(w) * T[t][1]), off], body, opt, ls)
        res = unpack(t, w, n, out[2])
        exp = np.zeros((n, w), T[t][0])
        for i in range(n):
            base = i * B + (disp + offs[i] * adv) * es
            exp[i] = np.frombuffer(mem[base: base + w * es], T[mt][0]).astype(T[t][0])
        ok = res == exp
        if T[t][2] == 'f':
            ok |= np.isnan(res) & np.isnan(exp)
            ok &= np.isnan(exp) | (np.signbit(res) == np.signbit(exp))
        if not ok.all():
            i = np.argwhere(~ok)[0]
            raise Fail('%s: work-item %d component %d is %r, expected %r\n%s' % (ld, i[0], i[1], res[tuple(i)], exp[tuple(i)],
                                                                              src), 'load')

    def cmpmem(self, got, exp, nanpos, src, what, B, es, a):
        if got == bytes(exp):
            return
        for k in range(0, len(exp), es):
            if k in nanpos:
                if isnan_bits('half', int.from_bytes(got[k:k + 2], 'little')):
                    continue
            if got[k:k + es] != bytes(exp[k:k + es]):
                raise Fail('%s: work-item %d, element %d of its memory is %s, expected %s\n%s' % (
                    what[:2000], k // B, k % B // es, got[k:k + es].hex(), bytes(exp[k:k + es]).hex(), src), 'store')

    # ------------------------------------------------------------------
    def shuffle(self, s, r, n, opt, seed):
        t = s.choice(ALL)
        m = s.choice([2, 4, 8, 16])
        w = s.choice([2, 4, 8, 16])
        two = s.bool()
        mt = {1: 'uchar', 2: 'ushort', 4: 'uint', 8: 'ulong'}[T[t][1]]
        s.desc = '%s of %s by %s, n=%d, opts=%r, seed=%d' % ('shuffle2' if two else 'shuffle', vn(t, m), vn(mt, w), n, opt, seed)
        s.cls('shuffle2' if two else 'shuffle')
        s.nontrivial((t, m, w, two, seed))

        def vals(k):
            return float_values(r, t, k, nan=False) if T[t][2] == 'f' else np.array(int_values(r, t, k), T[t][0])
        a = vals(n * m).reshape(n, m)
        b = vals(n * m).reshape(n, m)
        mask = np.array([r.randrange(0, 2 * m) if r.random() < .7 else r.getrandbits(bits(mt)) for _ in range(n * w)],
                        T[mt][0]).reshape(n, w)
        args = [(t, m, a)] + ([(t, m, b)] if two else []) + [(mt, w, mask)]
        body = 'o0[i] = %s;' % ('shuffle2(a0, a1, a2)' if two else 'shuffle(a0, a1)')
        (res,), src = evaluate(n, [(t, w)], args, body, opts=opt)
        pool = np.concatenate([a, b], axis=1) if two else a
        idx = (mask.astype('u8') % (2 * m if two else m)).astype(int)
        exp = np.take_along_axis(pool, idx, axis=1)
        if res.tobytes() != exp.tobytes():
            raise Fail('shuffle: got %r, expected %r with mask %r\n%s' % (res, exp, mask, src), 'shuffle')


CHECK = C06()
