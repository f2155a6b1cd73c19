"""C05: relational, common and geometric built-ins."""
import random
import numpy as np
import clrt
from clb import *
from pbt import Check, Fail

L = np.longdouble
PI = L('3.14159265358979323846264338327950288')
IT = {'float': ('int', 'uint'), 'double': ('long', 'ulong')}

REL1 = {
    'isfinite': np.isfinite, 'isinf': np.isinf, 'isnan': np.isnan, 'signbit': np.signbit,
    'isnormal': lambda x: np.isfinite(x) & (np.abs(x) >= np.finfo(x.dtype).tiny),
}
REL2 = {
    'isequal': np.equal, 'isnotequal': np.not_equal, 'isgreater': np.greater, 'isgreaterequal': np.greater_equal,
    'isless': np.less, 'islessequal': np.less_equal, 'islessgreater': lambda x, y: (x < y) | (x > y),
    'isordered': lambda x, y: (x == x) & (y == y), 'isunordered': lambda x, y: (x != x) | (y != y),
}
# operators; {r} is the result type, used to turn the comparison into a mask
OPS = {
    'a0 == a1': np.equal, 'a0 != a1': np.not_equal, 'a0 < a1': np.less, 'a0 <= a1': np.less_equal,
    'a0 > a1': np.greater, 'a0 >= a1': np.greater_equal,
    '!(a0 < a1)': lambda x, y: ~(x < y), '!(a0 <= a1)': lambda x, y: ~(x <= y), '!(a0 > a1)': lambda x, y: ~(x > y),
    '!(a0 >= a1)': lambda x, y: ~(x >= y), '!(a0 == a1)': np.not_equal,
    '(a0 < a1) | (a0 > a1)': lambda x, y: (x < y) | (x > y), '(a0 == a0) & (a1 == a1)': REL2['isordered'],
    '(a0 != a0) | (a1 != a1)': REL2['isunordered'], '(a0 < a1) & (a0 > a1)': lambda x, y: (x < y) & (x > y),
    '(a0 == a1) | (a0 != a0) | (a1 != a1)': lambda x, y: (x == y) | (x != x) | (y != y),
}
COMMON = ['clamp', 'degrees', 'max', 'min', 'mix', 'radians', 'sign', 'smoothstep', 'step']
GEO = ['cross', 'dot', 'distance', 'length', 'normalize', 'fast_distance', 'fast_length', 'fast_normalize']
MISC = ['any', 'all', 'select', 'bitselect']
KINDS = [('rel1', sorted(REL1)), ('rel2', sorted(REL2)), ('op', sorted(OPS)), ('common', COMMON), ('geo', GEO),
         ('misc', MISC)]


def modest(r, t, n):
    """Finite values well inside the exponent range."""
    lim = 8 if r.random() < .7 else {'float': 30, 'double': 250}[t]
    out = []
    for _ in range(n):
        k = r.random()
        v = 0.0 if k < .08 else float(r.randrange(-9, 10)) if k < .3 else r.uniform(-2, 2) * 2.0 ** r.uniform(-lim, lim)
        out.append(v)
    return np.array(out, T[t][0])


class C05(Check):
    id = 'C05'
    quick = 20000
    thorough = 200000
    rule = ('a case is one relational/common/geometric built-in or comparison operator x float/double (any integer type '
            'for any/all/select/bitselect) x vector width x scalar overload over up to 32 argument tuples biased to '
            'boundaries, equal operands, NaNs, infinities and denormals; distinct by (function, type, width, form, '
            'argument seed); all are non-trivial')
    assumptions = ['references are numpy operations (exact functions) or extended-precision formulas with a tolerance of a '
                   'few ulp of the conditioned terms; arguments OpenCL leaves undefined (NaN or unordered bounds in '
                   'clamp/smoothstep/min/max) are not generated',
                   'either zero is accepted from min/max/clamp of equal zeros']

    def init(self):
        clrt.load(self.b + '/liboclgrind-rt.so')

    def close(self, t, name, got, ref, tol, args, src):
        g = got.astype(L)
        with np.errstate(all='ignore'):
            ok = (np.abs(g - ref) <= tol) | (g == ref) | (np.isnan(g) & np.isnan(ref))
        bad = np.nonzero(~ok)[0]
        if len(bad):
            i = bad[0]
            raise Fail('%s (%s): arguments %s: got %r, expected %r (%d of %d wrong)\n%s' % (
                name, t, [repr(a[i]) for a in args], got[i], ref[i], len(bad), len(ok), src), 'value ' + name)

    def exact(self, t, name, got, ref, args, src):
        bad = np.nonzero(np.asarray(got) != np.asarray(ref))[0]
        if len(bad):
            i = bad[0]
            raise Fail('%s (%s): arguments %s: got %r, expected %r (%d of %d wrong)\n%s' % (
                name, t, [repr(a[i]) for a in args], got[i], ref[i], len(bad), len(got), src), 'value ' + name)

    def case(self, s):
        kind, names = s.weighted([(2, KINDS[0]), (3, KINDS[1]), (2, KINDS[2]), (4, KINDS[3]), (4, KINDS[4]),
                                  (3, KINDS[5])])
        name = s.choice(names)
        t = s.choice(['float', 'double'])
        w = s.choice(WIDTHS)
        n = s.range(1, 32)
        opt = s.weighted([(4, ''), (1, '-cl-opt-disable')])
        seed = s.seed()
        r = random.Random(seed)
        s.cls('fn ' + name)
        np.seterr(all='ignore')
        getattr(self, kind)(s, r, name, t, w, n, opt, seed)

    def note(self, s, name, t, w, n, opt, seed, extra=''):
        s.desc = '%s over %s, n=%d, opts=%r, %s seed=%d' % (name, vn(t, w), n, opt, extra, seed)
        s.cls('type ' + t)
        s.cls('width %d' % w)
        s.count('values', n * w)
        s.nontrivial((name, t, w, extra, seed))

    def pair(self, r, t, m, nan=True):
        a = float_values(r, t, m, nan=nan)
        b = float_values(r, t, m, nan=nan)
        for i in range(m):
            k = r.random()
            if k < .3:
                b[i] = a[i]
            elif k < .4:
                b[i] = np.nextafter(a[i], a[i].dtype.type(r.choice([-1, 1]) * np.inf))
            elif k < .45:
                b[i] = -a[i]
        return a, b

    def rel1(self, s, r, name, t, w, n, opt, seed):
        a = float_values(r, t, n * w)
        rt = 'int' if w == 1 else IT[t][0]
        self.note(s, name, t, w, n, opt, seed)
        (res,), src = evaluate(n, [(rt, w)], [(t, w, a.reshape(n, w))], 'o0[i] = %s(a0);' % name, opts=opt)
        e = REL1[name](a).astype('i8') * (1 if w == 1 else -1)
        self.exact(t, name, res.reshape(-1), e, [a], src)

    def rel2(self, s, r, name, t, w, n, opt, seed):
        a, b = self.pair(r, t, n * w)
        rt = 'int' if w == 1 else IT[t][0]
        body = 'o0[i] = %s(a0, a1);' % name
        fn = REL2.get(name) or OPS[name]
        if name in OPS:
            body = 'o0[i] = %s;' % name
            if s.bool(1, 3) and w == 1:
                body = 'if (%s) o0[i] = 1; else o0[i] = 0;' % name
        self.note(s, name, t, w, n, opt, seed)
        (res,), src = evaluate(n, [(rt, w)], [(t, w, a.reshape(n, w)), (t, w, b.reshape(n, w))], body, opts=opt)
        e = fn(a, b).astype('i8') * (1 if w == 1 else -1)
        self.exact(t, name, res.reshape(-1), e, [a, b], src)

    op = rel2

    def misc(self, s, r, name, t, w, n, opt, seed):
        t = s.choice(['float', 'double'] + INTS) if name in ('select', 'bitselect') else s.choice(
            ['char', 'short', 'int', 'long'])
        if name in ('any', 'all'):
            v = [[int_values(r, t, 1)[0] if r.random() < .5 else r.choice([0, -1, lo(t), hi(t)])
                  for _ in range(w)] for _ in range(n)]
            if r.random() < .5:       # nearly uniform vectors
                for l in v:
                    if r.random() < .7:
                        x = r.choice([0, 1, hi(t)]) if name == 'any' else r.choice([-1, lo(t)])
                        for c in range(w):
                            l[c] = x
                        if r.random() < .5:
                            l[r.randrange(w)] = r.choice([-1, 0, lo(t), 1])
            self.note(s, name, t, w, n, opt, seed)
            (res,), src = evaluate(n, [('int', 1)], [(t, w, v)], 'o0[i] = %s(a0);' % name, opts=opt)
            f = {'any': any, 'all': all}[name]
            return self.exact(t, name, res.reshape(-1), [int(f(x < 0 for x in l)) for l in v], [v], src)
        fl = T[t][2] == 'f'

        def vals():
            return float_values(r, t, n * w, nan=False) if fl else np.array(int_values(r, t, n * w), T[t][0])
        a, b = vals(), vals()
        if name == 'bitselect':
            m = n * w
            ut = '<u%d' % T[t][1]
            nb = bits(t)
            c = np.array([r.getrandbits(nb) if r.random() < .6 else r.choice([0, (1 << nb) - 1, 1 << nb - 1, 1,
                          ((1 << nb) - 1) ^ (1 << nb - 1), (1 << (nb // 2)) - 1]) for _ in range(m)], ut)
            ua, ub = a.view(ut), b.view(ut)
            e = (ua & ~c) | (ub & c)
            self.note(s, name, t, w, n, opt, seed)
            it = IT[t][1] if fl else t
            if fl:        # pass the mask through an integer type so that its bits survive
                body = 'o0[i] = as_%s(bitselect(a0, a1, as_%s(a2)));' % (vn(it, w), vn(t, w))
                # results that are NaNs may legitimately be quietened on the way
            else:
                body = 'o0[i] = bitselect(a0, a1, a2);'
            (res,), src = evaluate(n, [(it, w)], [(t, w, a.reshape(n, w)), (t, w, b.reshape(n, w)),
                                                  (it, w, c.view(T[it][0]).reshape(n, w))], body, opts=opt)
            got = res.reshape(-1).view(ut) if not fl else res.reshape(-1)
            got = np.ascontiguousarray(got).view(ut)
            if fl:
                isn = np.isnan(e.view(T[t][0]))
                q = np.array(1 << (F[t][1] - 1), ut)
                got = np.where(isn, got | q, got)
                e = np.where(isn, e | q, e)
            return self.exact(t, name, got, e, [a, b, c], src)
        # select
        ct = s.choice(IT[t]) if fl else s.choice([t.lstrip('u') if t.startswith('u') else t, unsig(t)])
        c = np.array(int_values(r, ct, n * w), T[ct][0])
        self.note(s, name, t, w, n, opt, seed, 'selector ' + ct)
        (res,), src = evaluate(n, [(t, w)], [(t, w, a.reshape(n, w)), (t, w, b.reshape(n, w)),
                                             (ct, w, c.reshape(n, w))], 'o0[i] = select(a0, a1, a2);', opts=opt)
        take = c != 0 if w == 1 else c.view('<i%d' % T[ct][1]) < 0
        e = np.where(take, b, a)
        ut = '<u%d' % T[t][1]
        self.exact(t, name, np.ascontiguousarray(res.reshape(-1)).view(ut), e.view(ut), [a, b, c], src)

    def common(self, s, r, name, t, w, n, opt, seed):
        m = n * w
        eps = L(2) ** -F[t][1]
        sm = L(2) ** (1 - F[t][2] - F[t][1])
        one = {'degrees': 1, 'radians': 1, 'sign': 1}.get(name)
        scal = w > 1 and not one and s.bool(1, 3)
        dt = T[t][0]

        def run(args, body):
            self.note(s, name, t, w, n, opt, seed, 'scalar overload %s' % scal)
            (res,), src = evaluate(n, [(t, w)], [(t, ww, a.reshape(n, ww)) for a, ww in args], body, opts=opt)
            full = [a if ww == w else np.repeat(a, w) for a, ww in args]
            return res.reshape(-1), src, full
        sw = 1 if scal else w
        if one:
            a = float_values(r, t, m)
            got, src, full = run([(a, w)], 'o0[i] = %s(a0);' % name)
            la = a.astype(L)
            if name == 'sign':
                e = np.where(np.isnan(a), 0, np.where(a == 0, a, np.where(a > 0, 1, -1))).astype(dt)
                return self.exact(t, name, got.view('<u%d' % T[t][1]) if got.flags['C_CONTIGUOUS'] else
                                  np.ascontiguousarray(got).view('<u%d' % T[t][1]), e.view('<u%d' % T[t][1]), full, src)
            e = la * (180 / PI if name == 'degrees' else PI / 180)
            mx = L(np.finfo(dt).max)
            e = np.where(np.abs(e) > mx, np.copysign(L(np.inf), e), e)
            return self.close(t, name, got, e, np.maximum(np.abs(e) * 2 * eps, 2 * sm), full, src)
        if name in ('max', 'min'):
            a, b = self.pair(r, t, m, nan=False)
            b = b if not scal else float_values(r, t, n, nan=False)
            got, src, full = run([(a, w), (b, sw)], 'o0[i] = %s(a0, a1);' % name)
            fn = np.maximum if name == 'max' else np.minimum
            return self.close(t, name, got, fn(full[0], full[1]).astype(L), 0, full, src)
        if name == 'clamp':
            x = float_values(r, t, m, nan=False)
            p = float_values(r, t, n * sw, nan=False)
            q = float_values(r, t, n * sw, nan=False)
            lo_, hi_ = np.minimum(p, q), np.maximum(p, q)
            for i in range(m):
                if r.random() < .3:
                    j = i if sw == w else i // w
                    x[i] = r.choice([lo_[j], hi_[j], np.nextafter(lo_[j], hi_[j])])
            got, src, full = run([(x, w), (lo_, sw), (hi_, sw)], 'o0[i] = clamp(a0, a1, a2);')
            e = np.minimum(np.maximum(full[0], full[1]), full[2])
            return self.close(t, name, got, e.astype(L), 0, full, src)
        if name == 'step':
            e0 = float_values(r, t, n * sw, nan=False)
            x = float_values(r, t, m, nan=False)
            for i in range(m):
                if r.random() < .4:
                    j = i if sw == w else i // w
                    x[i] = r.choice([e0[j], np.nextafter(e0[j], dt_inf(t)), -e0[j]])
            got, src, full = run([(e0, sw), (x, w)], 'o0[i] = step(a0, a1);')
            return self.close(t, name, got, np.where(full[1] < full[0], 0, 1).astype(L), 0, full, src)
        if name == 'mix':
            a, b = modest(r, t, m), modest(r, t, m)
            k = np.array([r.choice([0, 1, .5, r.random()]) if r.random() < .9 else r.uniform(-3, 3)
                          for _ in range(n * sw)], dt)
            got, src, full = run([(a, w), (b, w), (k, sw)], 'o0[i] = mix(a0, a1, a2);')
            x, y, z = [v.astype(L) for v in full]
            e = x + (y - x) * z
            tol = 4 * eps * (np.abs(x) + (np.abs(x) + np.abs(y)) * np.abs(z)) + sm
            return self.close(t, name, got, e, tol, full, src)
        # smoothstep
        p, q = modest(r, t, n * sw), modest(r, t, n * sw)
        e0, e1 = np.minimum(p, q), np.maximum(p, q)
        e1 = np.where(e1 <= e0, e0 + np.abs(e0) + dt_one(t), e1)
        x = np.empty(m, dt)
        for i in range(m):
            j = i if sw == w else i // w
            k = r.random()
            x[i] = e0[j] if k < .1 else e1[j] if k < .2 else e0[j] + (e1[j] - e0[j]) * dt_one(t) * r.random() \
                if k < .8 else modest(r, t, 1)[0]
        got, src, full = run([(e0, sw), (e1, sw), (x, w)], 'o0[i] = smoothstep(a0, a1, a2);')
        a, b, c = [v.astype(L) for v in full]
        u = np.clip((c - a) / (b - a), 0, 1)
        e = u * u * (3 - 2 * u)
        self.close(t, name, got, e, 16 * eps * np.maximum(e, 0) + sm * 4 + 4 * eps * u, full, src)

    def geo(self, s, r, name, t, w, n, opt, seed):
        w = s.choice([1, 2, 3, 4]) if name != 'cross' else s.choice([3, 4])
        if name.startswith('fast_'):
            t = 'float'
        dt = T[t][0]
        eps = L(2) ** -F[t][1]
        sm = L(2) ** (1 - F[t][2] - F[t][1])
        two = name in ('cross', 'dot', 'distance', 'fast_distance')
        mode = 'modest'
        if name in ('length', 'normalize', 'distance') and s.bool(1, 3):
            mode = s.choice(['huge', 'tiny', 'special', 'small squares', 'large squares'])

        def vec():
            if mode == 'modest':
                return modest(r, t, n * w)
            a = modest(r, t, n * w)
            if mode == 'huge':
                return (r.choice([-1, 1]) * np.array([2.0 ** (F[t][2] - 3) * r.uniform(.1, 1) if r.random() < .8 else 1.0
                                                      for _ in range(n * w)], dt)).astype(dt)
            if mode.endswith('squares'):
                # the squares are at the end of the exponent range
                sg = -1 if mode[0] == 's' else 1
                base = r.randrange(-24, 25)
                return np.array([2.0 ** (sg * (F[t][2] // 2) + base + r.choice([0, 0, 1, -1, -12])) * r.uniform(-1, 1)
                                 for _ in range(n * w)], dt)
            if mode == 'tiny':
                return np.array([2.0 ** (-F[t][2] - r.randrange(0, 8)) * r.uniform(-1, 1) for _ in range(n * w)], dt)
            for i in range(n * w):
                if r.random() < .3:
                    a[i] = r.choice([np.inf, -np.inf, 0.0, -0.0]) if name != 'distance' else 0.0
                    if name == 'normalize' and r.random() < .1:
                        a[i] = np.nan
            return a
        A = vec().reshape(n, w)
        B = vec().reshape(n, w) if two else None
        if two and r.random() < .3:
            for l in range(n):
                if r.random() < .5:
                    B[l] = A[l]
        args = [(t, w, A)] + ([(t, w, B)] if two else [])
        vres = name in ('cross', 'normalize', 'fast_normalize')
        rw = w if vres else 1
        self.note(s, name, t, w, n, opt, seed, mode)
        # values computed around the call must survive it
        body = '%s g0 = a0.s0 * 2; o0[i] = %s(a0%s); o1[i] = g0 + a0.s0;' % (t, name, ', a1' if two else '') if w > 1 \
            else '%s g0 = a0 * 2; o0[i] = %s(a0%s); o1[i] = g0 + a0;' % (t, name, ', a1' if two else '')
        (res, g), src = evaluate(n, [(t, rw), (t, 1)], args, body, opts=opt)
        f = A[:, 0]
        self.exact(t, name + ' (value kept across the call)', *[
            np.nan_to_num(v, nan=1.25) for v in (g.reshape(-1), f * dt_one(t) * 2 + f)],
            [[tuple(map(float, l)) for l in A]], src)
        x = A.astype(L)
        slack = 1 if not name.startswith('fast_') else 8192
        fullA = [tuple(map(float, l)) for l in A]
        fullB = [tuple(map(float, l)) for l in B] if two else None
        per = [fullA] + ([fullB] if two else [])
        mx = L(np.finfo(dt).max)

        def inf(e):
            return np.where(np.abs(e) > mx, np.copysign(L(np.inf), e), e)
        if name == 'dot':
            p = x * B.astype(L)
            e = p.sum(axis=1)
            return self.close(t, name, res.reshape(-1), inf(e), 2 * w * eps * np.abs(p).sum(axis=1) + w * sm, per, src)
        if name == 'cross':
            y = B.astype(L)
            c = np.zeros((n, w), L)
            tol = np.zeros((n, w), L)
            for k, (i, j) in enumerate([(1, 2), (2, 0), (0, 1)]):
                p, q = x[:, i] * y[:, j], x[:, j] * y[:, i]
                c[:, k] = p - q
                tol[:, k] = 3 * eps * (np.abs(p) + np.abs(q)) + 2 * sm
            rep = [[v for v in col for _ in range(w)] for col in per]
            return self.close(t, name, res.reshape(-1), inf(c.reshape(-1)), tol.reshape(-1), rep, src)
        if name.endswith('normalize'):
            e = np.zeros((n, w), L)
            for l in range(n):
                v = x[l]
                if np.isnan(v).any():
                    e[l] = np.nan
                    continue
                if np.isinf(v).any():
                    v = np.where(np.isinf(v), np.copysign(L(1), v), np.copysign(L(0), v))
                ln = np.sqrt((v * v).sum())
                e[l] = v if ln == 0 else v / ln
            rep = [[v for v in col for _ in range(w)] for col in per]
            return self.close(t, name, res.reshape(-1), e.reshape(-1),
                              slack * (4 + w) * eps * np.abs(e.reshape(-1)) + sm, rep, src)
        d = x if not two else x - B.astype(L)
        e = np.sqrt((d * d).sum(axis=1))
        tol = slack * (4 + 2 * w) * eps * e + sm * slack
        if two:
            tol = tol + 2 * eps * (np.abs(x).max(axis=1) + np.abs(B.astype(L)).max(axis=1)) * 0
        e = np.where(np.isinf(x).any(axis=1), L(np.inf), e)
        self.close(t, name, res.reshape(-1), inf(e), tol, per, src)


def dt_one(t):
    return np.dtype(T[t][0]).type(1)


def dt_inf(t):
    return np.dtype(T[t][0]).type(np.inf)


CHECK = C05()
