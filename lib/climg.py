"""Reference model of OpenCL images: formats, texel layout, sampling rules."""
import math
import struct
import numpy as np

ORD = {'R': 0x10B0, 'A': 0x10B1, 'RG': 0x10B2, 'RA': 0x10B3, 'RGBA': 0x10B5, 'BGRA': 0x10B6, 'ARGB': 0x10B7,
       'INTENSITY': 0x10B8, 'LUMINANCE': 0x10B9, 'Rx': 0x10BA, 'RGx': 0x10BB}
TYP = {'SNORM_INT8': 0x10D0, 'SNORM_INT16': 0x10D1, 'UNORM_INT8': 0x10D2, 'UNORM_INT16': 0x10D3,
       'SIGNED_INT8': 0x10D7, 'SIGNED_INT16': 0x10D8, 'SIGNED_INT32': 0x10D9, 'UNSIGNED_INT8': 0x10DA, 'UNSIGNED_INT16': 0x10DB,
       'UNSIGNED_INT32': 0x10DC, 'HALF_FLOAT': 0x10DD, 'FLOAT': 0x10DE}
CHARS = {'SNORM_INT8': 'b', 'SNORM_INT16': 'h', 'UNORM_INT8': 'B', 'UNORM_INT16': 'H', 'SIGNED_INT8': 'b', 'SIGNED_INT16': 'h', 'SIGNED_INT32': 'i',
         'UNSIGNED_INT8': 'B', 'UNSIGNED_INT16': 'H', 'UNSIGNED_INT32': 'I', 'HALF_FLOAT': 'e', 'FLOAT': 'f'}
# position of each stored channel in (r, g, b, a)
CHAN = {'R': [0], 'Rx': [0], 'A': [3], 'RG': [0, 1], 'RGx': [0, 1], 'RA': [0, 3], 'RGBA': [0, 1, 2, 3], 'BGRA': [2, 1, 0, 3], 'ARGB': [3, 0, 1, 2],
        'INTENSITY': [0], 'LUMINANCE': [0]}
NORM = ['SNORM_INT8', 'SNORM_INT16', 'UNORM_INT8', 'UNORM_INT16', 'HALF_FLOAT', 'FLOAT']
FORMATS = [(o, t) for o in ('R', 'Rx', 'A', 'RG', 'RGx', 'RA', 'RGBA') for t in TYP] + \
          [(o, t) for o in ('INTENSITY', 'LUMINANCE') for t in NORM] + \
          [(o, t) for o in ('ARGB', 'BGRA') for t in ('SNORM_INT8', 'UNORM_INT8', 'SIGNED_INT8', 'UNSIGNED_INT8')]
IMAGE1D, IMAGE1D_ARRAY, IMAGE1D_BUFFER, IMAGE2D, IMAGE2D_ARRAY, IMAGE3D = 0x10F4, 0x10F5, 0x10F6, 0x10F1, 0x10F3, 0x10F2
KINDS = {'1D': IMAGE1D, '1Da': IMAGE1D_ARRAY, '1Db': IMAGE1D_BUFFER, '2D': IMAGE2D, '2Da': IMAGE2D_ARRAY, '3D': IMAGE3D}
CLTYPE = {'1D': 'image1d_t', '1Da': 'image1d_array_t', '1Db': 'image1d_buffer_t', '2D': 'image2d_t', '2Da': 'image2d_array_t', '3D': 'image3d_t'}
NDIM = {'1D': 1, '1Db': 1, '1Da': 2, '2D': 2, '2Da': 3, '3D': 3}


def kindof(t):
    """'f', 'i' or 'ui': which read/write functions apply"""
    return 'i' if t.startswith('SIGNED') else 'ui' if t.startswith('UNSIGNED') else 'f'


def nchan(o):
    return len(CHAN[o])


def chsize(t):
    return struct.calcsize(CHARS[t])


def pxsize(fmt):
    return nchan(fmt[0]) * chsize(fmt[1])


def decode(fmt, raw):
    """stored texel -> (r, g, b, a)"""
    o, t = fmt
    v = struct.unpack('<%d%s' % (nchan(o), CHARS[t]), raw)
    if t == 'SNORM_INT8':
        v = [max(-1.0, x / 127.0) for x in v]
    elif t == 'SNORM_INT16':
        v = [max(-1.0, x / 32767.0) for x in v]
    elif t == 'UNORM_INT8':
        v = [x / 255.0 for x in v]
    elif t == 'UNORM_INT16':
        v = [x / 65535.0 for x in v]
    if o == 'INTENSITY':
        return [v[0]] * 4
    if o == 'LUMINANCE':
        return [v[0]] * 3 + [1]
    c = [0, 0, 0, 1]
    if o in ('A', 'RA', 'RGBA', 'BGRA', 'ARGB'):
        c[3] = 0
    for x, p in zip(v, CHAN[o]):
        c[p] = x
    return c


def border(o):
    return [0, 0, 0, 1 if o in ('R', 'RG', 'LUMINANCE') else 0]


def randpx(r, fmt, special=True):
    o, t = fmt
    n = nchan(o)
    ch = CHARS[t]
    if ch in 'ef':
        v = []
        for _ in range(n):
            x = r.choice([0.0, 1.0, -1.0, 0.5, r.uniform(-2, 2), r.uniform(-100, 100), 6.1e-5, 5.96e-8, 65504.0])
            if special and r.random() < 0.06:
                x = r.choice([math.inf, -math.inf, math.nan])
            v.append(x)
        return struct.pack('<%d%s' % (n, ch), *v)
    b = bytearray(r.getrandbits(8) for _ in range(n * chsize(t)))
    if r.random() < 0.2:
        b = bytearray(r.choice([b'\0', b'\xff', b'\x80', b'\x7f'])[0] for _ in b)
    return bytes(b)


def f32(x):
    return float(np.float32(x))


def encodable(fmt, color):
    """for each stored channel, the set (or predicate) of acceptable stored bytes"""
    o, t = fmt
    out = []
    for p in CHAN[o]:
        x = color[p]
        if t == 'FLOAT':
            out.append([struct.pack('<f', x)])
        elif t == 'HALF_FLOAT':
            with np.errstate(all='ignore'):
                h = np.float16(np.float32(x))
            c = [h.tobytes()]
            if math.isfinite(x):
                z = h
                if abs(float(h)) > abs(x):
                    z = np.nextafter(h, np.float16(0))
                c.append(z.tobytes())
            out.append(c)
        elif t[1:].startswith('NORM') or t.startswith(('SNORM', 'UNORM')):
            bits = 8 * chsize(t)
            m = (1 << (bits - 1)) - 1 if t[0] == 'S' else (1 << bits) - 1
            lo, hi = (-m - 1, m) if t[0] == 'S' else (0, m)
            e = x * m
            if not math.isfinite(e):
                c = [hi if e > 0 else lo]
            else:
                e = min(max(e, lo), hi)
                c = [k for k in (math.floor(e), math.floor(e) + 1) if abs(k - e) <= 0.6 and lo <= k <= hi]
            out.append([struct.pack('<' + CHARS[t], k) for k in c])
        else:
            bits = 8 * chsize(t)
            lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if t[0] == 'S' else (0, (1 << bits) - 1)
            out.append([struct.pack('<' + CHARS[t], min(max(x, lo), hi))])
    return out


def accepts(enc, raw):
    n = len(raw) // len(enc)
    for i, c in enumerate(enc):
        b = raw[i * n:(i + 1) * n]
        if b in c:
            continue
        # any NaN for a NaN
        f = {2: 'e', 4: 'f'}.get(n)
        if f and any(struct.unpack('<' + f, x)[0] != struct.unpack('<' + f, x)[0] for x in c) and struct.unpack('<' + f, b)[0] != struct.unpack('<' + f, b)[0]:
            continue
        return False
    return True


class Image:
    """kind, (w, h, d, layers), format, texel bytes (tightly packed)"""

    def __init__(self, kind, w, h, d, n, fmt, data):
        self.kind, self.w, self.h, self.d, self.n, self.fmt, self.data = kind, w, h, d, n, fmt, data
        self.px = pxsize(fmt)

    def index(self, i, j, k, layer):
        return i + self.w * (j + self.h * (k + self.d * layer))

    def texel(self, i, j, k, layer):
        if not (0 <= i < self.w and 0 <= j < self.h and 0 <= k < self.d):
            return border(self.fmt[0])
        o = self.index(i, j, k, layer) * self.px
        return decode(self.fmt, self.data[o:o + self.px])


NONE, EDGE, CLAMP, REPEAT, MIRROR = 'NONE', 'CLAMP_TO_EDGE', 'CLAMP', 'REPEAT', 'MIRRORED_REPEAT'


def nearest(mode, s, u, size):
    if mode == NONE:
        return math.floor(u)
    if mode == EDGE:
        return min(max(math.floor(u), 0), size - 1)
    if mode == CLAMP:
        return min(max(math.floor(u), -1), size)
    if mode == REPEAT:
        i = math.floor((s - math.floor(s)) * size)
        return i - size if i > size - 1 else i
    m = abs(s - 2 * round(0.5 * s))
    return min(math.floor(m * size), size - 1)


def linear(mode, s, u, size):
    """-> i0, i1, fraction"""
    if mode == REPEAT:
        u = (s - math.floor(s)) * size
        i0 = math.floor(u - 0.5)
        i1 = i0 + 1
        if i0 < 0:
            i0 += size
        if i1 > size - 1:
            i1 -= size
    elif mode == MIRROR:
        u = abs(s - 2 * round(0.5 * s)) * size
        i0 = math.floor(u - 0.5)
        i1 = min(i0 + 1, size - 1)
        i0 = max(i0, 0)
    else:
        i0 = math.floor(u - 0.5)
        i1 = i0 + 1
        if mode == EDGE:
            i0, i1 = min(max(i0, 0), size - 1), min(max(i1, 0), size - 1)
        elif mode == CLAMP:
            i0, i1 = min(max(i0, -1), size), min(max(i1, -1), size)
    a = (u - 0.5) - math.floor(u - 0.5)
    return i0, i1, a
