"""C04: math built-ins against extended-precision and exact references."""
import ctypes
import math
import random
from fractions import Fraction
import numpy as np
import clrt
from clb import *
from pbt import Check, Fail

L = np.longdouble
PI = L('3.14159265358979323846264338327950288')
LN10 = L('2.30258509299404568401799145468436421')
libm = ctypes.CDLL('libm.so.6')
for _n in ('erf', 'erfc', 'tgamma', 'lgamma'):
    f = getattr(libm, _n + 'l')
    f.restype = ctypes.c_longdouble
    f.argtypes = [ctypes.c_longdouble]


def viac(name):
    f = getattr(libm, name + 'l')
    return lambda t, x: np.array([L(f(float(v))) for v in x], dtype=L)


def _sincospi(x, which):
    """sin(pi x) / cos(pi x) with exact argument reduction; correct zeros."""
    out = np.empty(len(x), dtype=L)
    for i, v in enumerate(x):
        if not np.isfinite(v):
            out[i] = np.nan
            continue
        a = np.fmod(abs(v), L(2))           # exact, in [0,2)
        s = 1
        if which == 'sin':
            if a >= 1:
                a -= 1
                s = -s
            if a > L(0.5):
                a = 1 - a
            r = np.sin(PI * a) if a <= L(0.25) else np.cos(PI * (L(0.5) - a))
            if a == 0:
                r = L(0)
                s = 1
            out[i] = np.copysign(abs(r), -1 if (s < 0) != bool(np.signbit(v)) else 1)
        else:
            if a > 1:
                a = 2 - a
            if a > L(0.5):
                a = 1 - a
                s = -s
            r = L(0) if a == L(0.5) else np.cos(PI * a) if a <= L(0.25) else np.sin(PI * (L(0.5) - a))
            out[i] = s * r if r else L(0)
    return out


def _tanpi(t, x):
    out = np.empty(len(x), dtype=L)
    for i, v in enumerate(x):
        if not np.isfinite(v):
            out[i] = np.nan
            continue
        if v == np.floor(v):
            odd = np.fmod(abs(v), L(2)) == 1
            out[i] = np.copysign(L(0), -v if odd else v)
            continue
        f = v - L(0.5)
        if abs(v) < L(2) ** 62 and np.fmod(abs(v), L(1)) == L(0.5):
            odd = np.fmod(abs(np.floor(v)), L(2)) == 1
            out[i] = -np.inf if odd else np.inf
            continue
        a = np.fmod(abs(v), L(1))           # (0,1)
        s = -1 if v < 0 else 1
        if a > L(0.5):
            a = 1 - a
            s = -s
        r = np.tan(PI * a) if a <= L(0.25) else 1 / np.tan(PI * (L(0.5) - a))
        out[i] = s * r
    return out


def _powr(t, x, y):
    out = np.power(np.abs(x), y)
    for i in range(len(x)):
        a, b = x[i], y[i]
        if np.isnan(a) or np.isnan(b) or a < 0:
            out[i] = np.nan
        elif b == 0 and (a == 0 or np.isinf(a)):
            out[i] = np.nan
        elif a == 1 and np.isinf(b):
            out[i] = np.nan
    return out


def _rootn(t, x, n):
    out = np.empty(len(x), dtype=L)
    for i in range(len(x)):
        a, k = x[i], int(n[i])
        if np.isnan(a) or k == 0 or (a < 0 and k % 2 == 0):
            out[i] = np.nan
        elif a == 0:
            r = L(0) if k > 0 else L(np.inf)
            out[i] = np.copysign(r, a) if k % 2 else r
        else:
            out[i] = np.copysign(np.power(abs(a), 1 / L(k)), a)
    return out


def frac(v):
    return Fraction(float(v))


def round_frac(fr, t):
    """Fraction -> nearest value of type t (ties to even) as a Python float."""
    eb, mb, bias = F[t]
    if fr == 0:
        return 0.0
    a = abs(fr)
    e = a.numerator.bit_length() - a.denominator.bit_length()
    if a < Fraction(2) ** e:
        e -= 1
    e = max(e, 1 - bias)
    q = Fraction(2) ** (e - mb)
    k = a / q
    n = k.numerator // k.denominator
    rem = k - n
    if rem > Fraction(1, 2) or (rem == Fraction(1, 2) and n & 1):
        n += 1
    v = n * q
    if v >= Fraction(2) ** (bias + 1):
        r = math.inf
    else:
        r = v.numerator / v.denominator
    return -r if fr < 0 else r


def _fma1(t, a, b, c):
    if not (math.isfinite(a) and math.isfinite(b) and math.isfinite(c)):
        with np.errstate(all='ignore'):
            p = np.float64(a) * np.float64(b) if not (math.isfinite(a) and math.isfinite(b)) else np.float64(0)
            if math.isfinite(a) and math.isfinite(b):
                return c
            return float(p + np.float64(c))
    e = Fraction(a) * Fraction(b) + Fraction(c)
    if e == 0:
        p0 = math.copysign(1, a) * math.copysign(1, b)
        if (a == 0 or b == 0) and c == 0:
            return p0 * 0.0 if p0 == math.copysign(1, c) else 0.0
        return 0.0
    return round_frac(e, t)


def _fma(t, x, y, z):
    return np.array([_fma1(t, float(a), float(b), float(c)) for a, b, c in zip(x, y, z)], dtype=L)


def _ldexp(t, x, n):
    out = np.empty(len(x), dtype=L)
    for i in range(len(x)):
        a = float(x[i])
        if not math.isfinite(a) or a == 0:
            out[i] = a
            continue
        k = max(-3000, min(3000, int(n[i])))
        r = round_frac(Fraction(a) * Fraction(2) ** k, t)
        out[i] = math.copysign(r, a)
    return out


def same(t, fn):
    """Reference computed by numpy in the type itself."""
    def g(tt, *a):
        return fn(*[v.astype(T[tt][0]) for v in a]).astype(L)
    return g


def _maxmag(a, b):
    return np.where(np.abs(a) > np.abs(b), a, np.where(np.abs(b) > np.abs(a), b, np.fmax(a, b)))


def _minmag(a, b):
    return np.where(np.abs(a) < np.abs(b), a, np.where(np.abs(b) < np.abs(a), b, np.fmin(a, b)))


def _round(t, x):
    r = np.trunc(np.abs(x))
    r = r + (np.abs(x) - r >= L(0.5))
    return np.copysign(np.where(np.isfinite(x), r, x), x)


def _remainder(t, x, y):
    def one(a, b):
        if math.isnan(a) or math.isnan(b) or math.isinf(a) or b == 0:
            return math.nan
        return math.remainder(a, b)
    return np.array([one(float(a), float(b)) for a, b in zip(x, y)], dtype=L)


def _logb(t, x):
    m, e = np.frexp(x)
    r = (e - 1).astype(L)
    r = np.where(x == 0, L(-np.inf), r)
    r = np.where(np.isinf(x), L(np.inf), r)
    return np.where(np.isnan(x), x, r)


def _fdim(x, y):
    r = np.where(x > y, x - y, np.array(0, x.dtype))
    return np.where(np.isnan(x) | np.isnan(y), np.array(np.nan, x.dtype), r)


def u(fn):
    return lambda t, *a: fn(*a)


# name: (argument kinds, ulp (float, double) or None for exact, reference, domains)
# kinds: 'f' floating, 'n' int.   domains: list of generator shapes
FN = {
    'acos': ('f', (4, 4), u(np.arccos), 'unit'),
    'acosh': ('f', (4, 4), u(np.arccosh), 'pos'),
    'acospi': ('f', (5, 5), u(lambda x: np.arccos(x) / PI), 'unit'),
    'asin': ('f', (4, 4), u(np.arcsin), 'unit'),
    'asinh': ('f', (4, 4), u(np.arcsinh), 'any'),
    'asinpi': ('f', (5, 5), u(lambda x: np.arcsin(x) / PI), 'unit'),
    'atan': ('f', (5, 5), u(np.arctan), 'any'),
    'atan2': ('ff', (6, 6), u(np.arctan2), 'any'),
    'atanh': ('f', (5, 5), u(np.arctanh), 'unit'),
    'atanpi': ('f', (5, 5), u(lambda x: np.arctan(x) / PI), 'any'),
    'atan2pi': ('ff', (6, 6), u(lambda y, x: np.arctan2(y, x) / PI), 'any'),
    'cbrt': ('f', (2, 2), u(np.cbrt), 'any'),
    'ceil': ('f', None, u(np.ceil), 'any'),
    'copysign': ('ff', None, u(np.copysign), 'any'),
    'cos': ('f', (4, 4), u(np.cos), 'trig'),
    'cosh': ('f', (4, 4), u(np.cosh), 'exp'),
    'cospi': ('f', (4, 4), lambda t, x: _sincospi(x, 'cos'), 'pi'),
    'erfc': ('f', (16, 16), viac('erfc'), 'erf'),
    'erf': ('f', (16, 16), viac('erf'), 'erf'),
    'exp': ('f', (3, 3), u(np.exp), 'exp'),
    'exp2': ('f', (3, 3), u(np.exp2), 'exp'),
    'exp10': ('f', (3, 3), u(lambda x: np.power(L(10), x)), 'exp'),
    'expm1': ('f', (3, 3), u(np.expm1), 'exp'),
    'fabs': ('f', None, u(np.fabs), 'any'),
    'fdim': ('ff', None, same(None, _fdim), 'any'),
    'floor': ('f', None, u(np.floor), 'any'),
    'fma': ('fff', None, _fma, 'fma'),
    'fmax': ('ff', None, u(np.fmax), 'any'),
    'fmin': ('ff', None, u(np.fmin), 'any'),
    'fmod': ('ff', None, same(None, np.fmod), 'div'),
    'hypot': ('ff', (4, 4), u(np.hypot), 'any'),
    'ilogb': ('f', None, None, 'any'),
    'ldexp': ('fn', None, _ldexp, 'any'),
    'lgamma': ('f', 'lgamma', viac('lgamma'), 'gamma'),
    'log': ('f', (3, 3), u(np.log), 'pos'),
    'log2': ('f', (3, 3), u(np.log2), 'pos'),
    'log10': ('f', (3, 3), u(np.log10), 'pos'),
    'log1p': ('f', (2, 2), u(np.log1p), 'any'),
    'logb': ('f', None, _logb, 'any'),
    'mad': ('fff', None, _fma, 'fma'),
    'maxmag': ('ff', None, u(_maxmag), 'any'),
    'minmag': ('ff', None, u(_minmag), 'any'),
    'nan': ('u', None, None, 'any'),
    'nextafter': ('ff', None, same(None, np.nextafter), 'near'),
    'pow': ('ff', (16, 16), u(np.power), 'pow'),
    'pown': ('fn', (16, 16), u(lambda x, n: np.power(x, n.astype(L))), 'pow'),
    'powr': ('ff', (16, 16), _powr, 'pow'),
    'remainder': ('ff', None, _remainder, 'div'),
    'rint': ('f', None, u(np.rint), 'any'),
    'rootn': ('fn', (16, 16), _rootn, 'pow'),
    'round': ('f', None, _round, 'any'),
    'rsqrt': ('f', (2, 2), u(lambda x: np.where(x == 0, np.copysign(L(np.inf), x), 1 / np.sqrt(x))), 'pos'),
    'sin': ('f', (4, 4), u(np.sin), 'trig'),
    'sinh': ('f', (4, 4), u(np.sinh), 'exp'),
    'sinpi': ('f', (4, 4), lambda t, x: _sincospi(x, 'sin'), 'pi'),
    'sqrt': ('f', (3, 0.5), u(np.sqrt), 'pos'),
    'tan': ('f', (5, 5), u(np.tan), 'trig'),
    'tanh': ('f', (5, 5), u(np.tanh), 'any'),
    'tanpi': ('f', (6, 6), _tanpi, 'pi'),
    'tgamma': ('f', (16, 16), viac('tgamma'), 'gamma'),
    'trunc': ('f', None, u(np.trunc), 'any'),
    # two results
    'fract': ('f', None, None, 'any'),
    'frexp': ('f', None, None, 'any'),
    'modf': ('f', None, None, 'any'),
    'remquo': ('ff', None, None, 'div'),
    'sincos': ('f', (4, 4), None, 'trig'),
    'lgamma_r': ('f', 'lgamma', None, 'gamma'),
}
_h = {'cos': 'trigh', 'sin': 'trigh', 'tan': 'trigh', 'exp': 'exp', 'exp2': 'exp', 'exp10': 'exp', 'log': 'pos',
      'log2': 'pos', 'log10': 'pos', 'powr': 'pow', 'rsqrt': 'pos', 'sqrt': 'pos'}
for _n, _d in _h.items():
    for _p in ('half_', 'native_'):
        FN[_p + _n] = (FN[_n][0], (8192, 8192), FN[_n][2], _d)
for _p in ('half_', 'native_'):
    FN[_p + 'divide'] = ('ff', (8192, 8192), u(np.divide), 'any')
    FN[_p + 'recip'] = ('f', (8192, 8192), u(lambda x: 1 / x), 'any')
NAMES = sorted(FN)
TWO = {'fract': 't', 'frexp': 'int', 'modf': 't', 'remquo': 'int', 'sincos': 't', 'lgamma_r': 'int'}
SCAL = {'fmax', 'fmin', 'ldexp'}


def gen(r, t, dom, n, pos):
    """n arguments (array of type t) of the given domain for argument number pos."""
    base = float_values(r, t, n)
    eb, mb, bias = F[t]
    out = base.copy()
    lim = {'float': 110, 'double': 760}[t]
    for i in range(n):
        if np.isnan(out[i]):
            out[i] = np.nan             # quiet
        if dom == 'any' or r.random() < .4:
            continue
        k = r.random()
        if dom == 'unit':
            v = r.uniform(-1, 1) if k < .6 else r.choice([1, -1]) * (1 - 2.0 ** -r.randrange(1, mb + 2)) \
                if k < .8 else r.uniform(-1, 1) * 2.0 ** -r.randrange(0, bias)
        elif dom == 'pos':
            v = r.uniform(0, 4) if k < .3 else 2.0 ** r.uniform(-bias, bias) if k < .7 else \
                1 + r.choice([-1, 1]) * 2.0 ** -r.randrange(1, mb + 1)
        elif dom in ('trig', 'trigh'):
            q = r.randrange(-60, 61) if k < .8 else r.randrange(-20000, 20001)
            v = r.uniform(-20, 20) if k < .4 else q * math.pi / 4
            if k > .95 and dom == 'trig':
                v = r.choice([-1, 1]) * 2.0 ** r.uniform(5, bias)
        elif dom == 'pi':
            v = r.randrange(-400, 401) / r.choice([1, 2, 4, 8, 3]) if k < .6 else r.uniform(-3, 3) if k < .8 else \
                r.choice([-1, 1]) * (r.getrandbits(r.randrange(1, mb + 2)) + r.choice([0, .5, .25]))
        elif dom == 'exp':
            v = r.uniform(-lim, lim) if k < .6 else r.uniform(-2, 2) if k < .8 else float(r.randrange(-lim, lim))
        elif dom == 'erf':
            v = r.uniform(-6, 12) if k < .7 else r.uniform(-1, 1) * 2.0 ** -r.randrange(0, 30)
        elif dom == 'gamma':
            v = r.uniform(-12, 40) if k < .4 else r.uniform(-200, 180) if k < .7 else float(r.randrange(-220, 60)) if \
                k < .85 else r.randrange(-40, 20) + 2.0 ** -r.randrange(1, 12)
        elif dom == 'pow':
            if pos == 0:
                v = r.uniform(0, 10) if k < .4 else float(r.randrange(-12, 13)) if k < .6 else -r.uniform(0, 5) \
                    if k < .7 else 1 + r.uniform(-1, 1) * 2.0 ** -r.randrange(0, mb) if k < .9 else 2.0 ** r.uniform(
                        -bias, bias)
            else:
                v = r.uniform(-40, 40) if k < .4 else float(r.randrange(-20, 21)) if k < .8 else r.choice(
                    [.5, -.5, 1 / 3, 2, 1e5 + 1, -1e6])
        elif dom == 'div':
            if pos == 0 and k < .8:
                v = r.uniform(-1, 1) * 10.0 ** r.uniform(0, 8)
            else:
                v = r.uniform(-20, 20) if k < .6 else float(r.randrange(-9, 10))
        elif dom in ('fma', 'near'):
            if pos and k < .6:
                v = r.uniform(-2, 2)
            else:
                v = (1 + r.getrandbits(mb) * 2.0 ** -mb) * 2.0 ** r.randrange(-4, 5) * r.choice([-1, 1])
        else:
            continue
        with np.errstate(all='ignore'):
            out[i] = v
    return out


def ulp_of(t, x):
    """ulp of type t at |x| (longdouble array)."""
    eb, mb, bias = F[t]
    m, e = np.frexp(np.where(np.isfinite(x), np.abs(x), L(1)))
    e = np.clip(e.astype(np.int64) - 1, 1 - bias, bias)
    return np.ldexp(L(1), (e - mb).astype(np.int32))


class C04(Check):
    id = 'C04'
    quick = 10000
    thorough = 150000
    rule = ('a case is one math built-in x float/double x vector width x call form (vector, scalar overload, '
            'two-result pointer in private/local/global memory, component-wise twin) over up to 32 argument tuples; '
            'non-trivial when the reference result of at least one tuple is finite and nonzero or a special value '
            'of the specification; distinct by (function, type, width, form, argument seed)')
    assumptions = ['references: x87 extended-precision libm, exact rational arithmetic (fma, ldexp, remquo), or '
                   'numpy operations of the same type for exact functions',
                   'half is not a supported arithmetic type of this device (no cl_khr_fp16)',
                   'native_ functions are held to the bound of the half_ functions; arguments are never signalling NaNs']

    def init(self):
        clrt.load(self.b + '/liboclgrind-rt.so')

    def compare(self, t, name, got, ref, ulps, args, src, zsign=True):
        g = got.astype(L)
        with np.errstate(all='ignore'):
            if ulps is None:
                ok = (g == ref) | (np.isnan(g) & np.isnan(ref))
                tol = None
            else:
                ul = ulp_of(t, ref)
                if ulps == 'lgamma':
                    tol = ul * 32 + L(2) ** (-F[t][1] + 3)
                else:
                    tol = ul * L(ulps[t == 'double']) * (1 + L(2) ** -9)
                    if name.startswith(('half_', 'native_')):
                        tol = np.maximum(tol, L(2) ** (1 - F[t][2]))
                ok = (np.abs(g - ref) <= tol) | (g == ref) | (np.isnan(g) & np.isnan(ref))
                big = L(2) ** (F[t][2] + 1)
                half = ul / 2
                ok |= np.isinf(g) & (np.sign(g) == np.sign(ref)) & (np.abs(ref) + tol + half >= big)
                ok |= np.isinf(ref) & False
                # a reference beyond the type's range may round to the largest value
                mx = big - L(2) ** (F[t][2] - F[t][1])
                over = (np.abs(ref) > mx) & np.isfinite(ref)
                ok |= over & (np.abs(g) == mx) & (np.sign(g) == np.sign(ref)) & (np.abs(ref) - tol <= mx)
            if zsign:
                ok &= ~((ref == 0) & (g == 0) & (np.signbit(ref) != np.signbit(g)))
        bad = np.nonzero(~ok)[0]
        if len(bad):
            i = bad[0]
            raise Fail('%s (%s): arguments %s: got %r, expected %r%s (%d of %d wrong)\n%s' % (
                name, t, [repr(a[i]) for a in args], got[i], ref[i],
                '' if tol is None else ' +- %.3g' % float(tol[i]), len(bad), len(ok), src), 'value ' + name)

    def case(self, s):
        name = s.choice(NAMES)
        kinds, ulps, ref, dom = FN[name]
        fo = name.startswith(('half_', 'native_'))
        t = 'float' if fo else s.choice(['float', 'double'])
        w = s.choice(WIDTHS)
        n = s.range(1, 32)
        ar = len(kinds)
        scal = name in SCAL and w > 1 and s.bool(1, 2)
        byval = s.bool(1, 8) and name not in TWO
        twin = w > 1 and name not in TWO and not scal and s.bool(1, 4)
        space = s.choice(['private', 'local', 'global']) if name in TWO else None
        opt = s.weighted([(4, ''), (1, '-cl-opt-disable')])
        seed = s.seed()
        r = random.Random(seed)
        args, flat = [], []
        for k, kd in enumerate(kinds):
            ww = 1 if scal and k else w
            m = n * ww
            if kd == 'f':
                a = gen(r, t, dom, m, k)
                if k and dom in ('near', 'fma', 'any', 'div') and r.random() < .5 and m == len(flat[0]):
                    for i in range(m):           # related to the first argument
                        if r.random() < .4:
                            with np.errstate(all='ignore'):
                                a[i] = flat[0][i] * T2[t](r.choice([1, -1, 2, .5, 1 + 2.0 ** -F[t][1]]))
                if dom == 'trigh':
                    with np.errstate(all='ignore'):
                        a = np.where(np.abs(a) <= 65536, a, np.array(1, T[t][0]))
                if name in ('half_powr', 'native_powr') and k == 0:
                    a = np.abs(a)
                tt = t
            elif kd == 'n':
                a = np.array([r.choice([0, 1, -1, 2, -2, 3, -3, 5, 7]) if r.random() < .4 else
                              r.randrange(-60, 61) if r.random() < .5 else
                              r.randrange(-2200, 2200) if r.random() < .8 else wrap('int', r.getrandbits(32))
                              for _ in range(m)], 'i4')
                tt = 'int'
            else:
                tt = 'uint' if t == 'float' else 'ulong'
                a = np.array([r.getrandbits(bits(tt)) for _ in range(m)], T[tt][0])
            args.append((tt, ww, a.reshape(n, ww)))
            flat.append(a if ww == w else np.repeat(a, w))
        bk = set(range(ar)) if byval else ()
        if byval:
            flat = [np.tile((a[2][0] if a[1] == w else np.repeat(a[2][0], w)), n) for a in args]
        call = ', '.join('a%d' % k for k in range(ar))
        rt = 'int' if name == 'ilogb' else t
        outs = [(rt, w)]
        lsize = None
        if name in TWO:
            ot = t if TWO[name] == 't' else 'int'
            outs.append((ot, w))
            v = vn(ot, w)
            if space == 'private':
                body = '%s tmp; o0[i] = %s(%s, &tmp); o1[i] = tmp;' % (v, name, call)
            elif space == 'local':
                lsize = s.choice([d for d in range(1, n + 1) if n % d == 0])
                body = ('local %s tmp[32]; o0[i] = %s(%s, &tmp[get_local_id(0)]); o1[i] = tmp[get_local_id(0)];'
                        % (v, name, call))
            else:
                body = 'o0[i] = %s(%s, &o1[i]);' % (name, call)
        else:
            body = 'o0[i] = %s(%s);' % (name, call)
            if twin:
                outs.append((rt, w))
                for c in range(w):
                    body += '\n  o1[i].s%x = %s(%s);' % (c, name, ', '.join('a%d.s%x' % (k, c) for k in range(ar)))
        s.desc = '%s over %s, n=%d, scalar overload=%s, by value=%s, component-wise twin=%s, pointer=%s, opts=%r, seed=%d' % (
            name, vn(t, w), n, scal, byval, twin, space, opt, seed)
        s.cls('fn ' + name)
        s.cls('type ' + t)
        s.cls('width %d' % w)
        if space:
            s.cls('pointer ' + space)
        if scal:
            s.cls('scalar overload')
        s.count('values', n * w)
        s.nontrivial((name, t, w, space, scal, byval, twin, seed))
        res, src = evaluate(n, outs, args, body, opts=opt, lsize=lsize, bykernelarg=bk)
        res = [x.reshape(-1) for x in res]
        with np.errstate(all='ignore'):
            la = [a.astype(L) if k == 'f' else a for a, k in zip(flat, kinds)]
            self.judge(s, t, name, ulps, ref, la, flat, res, src)
        if twin:
            a, b = res
            same_ = (a == b) | ((a != a) & (b != b)) if rt != 'int' else a == b
            if not same_.all():
                i = np.nonzero(~same_)[0][0]
                raise Fail('%s: vector form gives %r, component-wise scalar form %r for %s\n%s' % (
                    name, a[i], b[i], [repr(x[i]) for x in flat], src), 'twin ' + name)

    def judge(self, s, t, name, ulps, ref, la, flat, res, src):
        x = la[0]
        got = res[0]
        dt = T[t][0]
        if name == 'nan':
            if not np.isnan(got).all():
                raise Fail('nan() returned %r\n%s' % (got, src), 'value nan')
            return
        if name == 'ilogb':
            m, e = np.frexp(x)
            e = (e - 1).astype(np.int64)
            e = np.where(np.isnan(x) | np.isinf(x), 2147483647, e)
            e = np.where(x == 0, -2147483648, e)
            return self.compare('double', name, got.astype('f8'), e.astype(L), None, flat, src)
        if name == 'sincos':
            self.compare(t, name, got, np.sin(x), ulps, flat, src)
            return self.compare(t, name, res[1], np.cos(x), ulps, flat, src)
        if name == 'lgamma_r':
            self.compare(t, name, got, FN['lgamma'][2](t, x), ulps, flat, src, zsign=False)
            fl = np.floor(x)
            odd = np.fmod(np.abs(fl), L(2)) == 1
            sg = np.where((x < 0) & odd, -1, 1)
            sg = np.where((x <= 0) & (fl == x), 0, sg)
            sg = np.where(np.isfinite(x), sg, res[1])
            return self.compare('double', name, res[1].astype('f8'), sg.astype(L), None, flat, src)
        if name == 'fract':
            fl = np.floor(x)
            v = flat[0]
            d = np.minimum(v - np.floor(v), np.nextafter(np.array(1, dt), np.array(0, dt))).astype(L)
            d = np.where(x == 0, x, d)
            d = np.where(np.isinf(x), np.copysign(L(0), x), d)
            d = np.where(np.isnan(x), x, d)
            self.compare(t, name, got, d, None, flat, src)
            return self.compare(t, name, res[1], fl, None, flat, src)
        if name == 'frexp':
            m, e = np.frexp(x)
            m = np.where(np.isfinite(x), m, x)
            e = np.where(np.isfinite(x), e, 0)
            self.compare(t, name, got, m, None, flat, src)
            return self.compare('double', name, res[1].astype('f8'), e.astype(L), None, flat, src)
        if name == 'modf':
            i = np.trunc(x)
            fr = np.copysign(np.where(np.isinf(x), L(0), x - i), x)
            fr = np.where(np.isnan(x), x, fr)
            self.compare(t, name, got, fr, None, flat, src)
            return self.compare(t, name, res[1], i, None, flat, src)
        if name == 'remquo':
            self.compare(t, name, got, _remainder(t, x, la[1]), None, flat, src)
            q = []
            for a, b in zip(flat[0].astype('f8'), flat[1].astype('f8')):
                a, b = float(a), float(b)
                if math.isnan(a) or math.isnan(b) or math.isinf(a) or b == 0 or math.isinf(b):
                    q.append(0)
                    continue
                k = round(Fraction(a) / Fraction(b))
                q.append((abs(k) & 127) * (1 if k > 0 else -1))
            return self.compare('double', name, res[1].astype('f8'), np.array(q, dtype=L), None, flat, src, zsign=False)
        rv = ref(t, *la)
        if name == 'mad':
            sep = (flat[0] * flat[1] + flat[2]).astype(L)
            g = got.astype(L)
            rv = np.where((g == sep) | (np.isnan(g) & np.isnan(sep)), sep, rv)
        zs = name not in ('fmax', 'fmin', 'maxmag', 'minmag', 'mad', 'lgamma')
        self.compare(t, name, got, rv, ulps, flat, src, zsign=zs)


T2 = {'float': np.float32, 'double': np.float64}
CHECK = C04()
