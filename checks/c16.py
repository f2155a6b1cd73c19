"""C16: kernel image access samples and stores as specified."""
import ctypes as ct
import math
import random
import struct
import climg
import clrt
from climg import KINDS, CLTYPE, NDIM, TYP, ORD, FORMATS, kindof
from pbt import Check, Fail

AM = {'NONE': 0x1130, 'CLAMP_TO_EDGE': 0x1131, 'CLAMP': 0x1132, 'REPEAT': 0x1133, 'MIRRORED_REPEAT': 0x1134}


class ImageDesc(ct.Structure):
    _fields_ = [('type', ct.c_uint), ('w', ct.c_size_t), ('h', ct.c_size_t), ('d', ct.c_size_t), ('n', ct.c_size_t), ('rp', ct.c_size_t), ('sp', ct.c_size_t),
                ('mips', ct.c_uint), ('samples', ct.c_uint), ('mem', ct.c_void_p)]


class ImageFormat(ct.Structure):
    _fields_ = [('order', ct.c_uint), ('type', ct.c_uint)]


def dims(kind, w, h, d, n):
    """origin-style region of the whole image"""
    return {'1D': (w, 1, 1), '1Db': (w, 1, 1), '1Da': (w, n, 1), '2D': (w, h, 1), '2Da': (w, h, n), '3D': (w, h, d)}[kind]


def create(c, img, flags, data, pad=None):
    """pad: (texels, rows) of padding of the host memory the image uses in place"""
    f = ImageFormat(ORD[img.fmt[0]], TYP[img.fmt[1]])
    d = ImageDesc(KINDS[img.kind], img.w, img.h if img.kind in ('2D', '2Da', '3D') else 0, img.d if img.kind == '3D' else 0,
                  img.n if img.kind.endswith('a') else 0, 0, 0, 0, 0, None)
    buf = None
    if img.kind == '1Db':
        buf = c.buffer(len(data), data)
        d.mem = buf.value if hasattr(buf, 'value') else buf
        return clrt.create('clCreateImage', c.ctx, flags, ct.byref(f), ct.byref(d), None)
    if pad is not None:
        rows = img.h if img.kind != '1Da' else 1
        d.rp = (img.w + pad[0]) * img.px
        d.sp = d.rp * (rows + pad[1]) if img.kind in ('1Da', '2Da', '3D') else 0
        sp = d.sp or d.rp * rows
        b = ct.create_string_buffer(b'\x3c' * (sp * img.d * img.n), sp * img.d * img.n)
        for z in range(img.d * img.n):
            for y in range(rows):
                a = (z * rows + y) * img.w * img.px
                ct.memmove(ct.addressof(b) + z * sp + y * d.rp, data[a:a + img.w * img.px], img.w * img.px)
        img.hostmem = b
        return clrt.create('clCreateImage', c.ctx, flags | 8, ct.byref(f), ct.byref(d), b)
    b = ct.create_string_buffer(data, len(data))
    return clrt.create('clCreateImage', c.ctx, flags | 0x20, ct.byref(f), ct.byref(d), b)


def readback(c, mem, img):
    out = ct.create_string_buffer(len(img.data))
    clrt.call('clEnqueueReadImage', c.q, mem, 1, clrt.szarr([0, 0, 0]), clrt.szarr(dims(img.kind, img.w, img.h, img.d, img.n)), 0, 0, out, 0, None, None)
    return out.raw


class C16(Check):
    id = 'C16'
    quick = 10000
    thorough = 80000
    rule = ('a case is one image and a kernel that reads it through generated samplers and coordinates, writes another image or queries both; '
            'non-trivial when it samples outside the image, filters linearly, or writes; distinct by images, kernel and data')
    assumptions = ['the filtering equations of the OpenCL 1.2 specification, section 8.2, evaluated in double precision; nearest sampling within 1e-4 of a '
                   'texel boundary is only judged where single precision is exact',
                   'stored normalised values may be off by 0.6 of a unit and halves may round to zero, as the specification allows',
                   'linear filtering is judged on images without infinities or NaNs']

    def init(self):
        clrt.load(self.b + '/liboclgrind-rt.so')

    def image(self, s, r, kind, fmt, special=True):
        sz = lambda: s.weighted([(3, s.range(1, 9)), (2, s.choice([1, 2, 4, 8]))])
        w = sz()
        h = sz() if kind in ('2D', '2Da', '3D') else 1
        d = s.range(1, 5) if kind == '3D' else 1
        n = s.range(1, 4) if kind.endswith('a') else 1
        px = [climg.randpx(r, fmt, special) for _ in range(w * h * d * n)]
        return climg.Image(kind, w, h, d, n, fmt, b''.join(px))

    def case(self, s):
        r = random.Random(s.seed())
        kind = s.choice(list(KINDS))
        fmt = s.choice(FORMATS)
        kf = kindof(fmt[1])
        special = s.bool()
        img = self.image(s, r, kind, fmt, special)
        nc = s.range(1, 12)
        opts = s.choice(['', '-cl-opt-disable', ''])
        nd = NDIM[kind]
        body, decl, extra = [], [], []     # extra kernel args
        coords = []                          # (float tuple)
        icoords = []
        size = [img.w, img.n if kind == '1Da' else img.h, img.n if kind == '2Da' else img.d]
        layer_axis = {'1Da': 1, '2Da': 2}.get(kind)
        for _ in range(nc):
            co, ic = [], []
            for a in range(nd):
                k = size[a]
                # unnormalised coordinate, usually on an eighth
                mode = r.randrange(6)
                if mode == 0:
                    u = r.randint(-2 * k, 3 * k)
                elif mode == 1:
                    u = r.randint(0, k - 1) + 0.5
                elif mode == 2:
                    u = r.randint(-16 * k, 24 * k) / 8
                elif mode == 3:
                    u = r.uniform(-2 * k, 3 * k)
                elif mode == 4:
                    u = r.uniform(0, k)
                else:
                    u = r.choice([0, -0.5, 0.5, k - 0.5, k, k + 0.5, -1, -0.25, k - 0.25, 1e4, -1e4,
                                  -1e-9, 1e-9, -1e-6 * k, k * (1 - 1e-7), -k * 1e-12, 2 * k * (1 + 1e-7)])
                co.append(climg.f32(u))
                ic.append(r.choice([r.randint(0, k - 1), r.randint(0, k - 1), r.randint(-2, k + 1), -1, k, 1000, -1000]))
            coords.append(co)
            icoords.append(ic)
        reads = []
        T4 = {'f': 'float4', 'i': 'int4', 'ui': 'uint4'}[kf]
        nreads = s.range(1, 5)
        outn = 0
        samplers = []
        acc = 'read_only'
        helper = s.bool(1, 4)
        for k in range(nreads):
            nosamp = kind == '1Db' or s.bool(1, 4)
            vec = {1: '', 2: '2', 3: '4'}[nd]
            if nosamp:
                cexpr = 'IC[i * 4]' if nd == 1 else '(int%s)(%s)' % (vec, ', '.join('IC[i * 4 + %d]' % a if a < nd else '0' for a in range({1: 1, 2: 2, 3: 4}[nd])))
                # in-range coordinates only
                cl = ', '.join('clamp(IC[i * 4 + %d], 0, %d)' % (a, size[a] - 1) if a < nd else '77' for a in range({1: 1, 2: 2, 3: 4}[nd]))
                cexpr = cl if nd == 1 else '(int%s)(%s)' % (vec, cl)
                ex = 'read_image%s(I, %s)' % (kf, cexpr)
                reads.append(('none', None, None))
                s.cls('read without sampler ' + kind)
            else:
                norm = s.bool()
                lin = kf == 'f' and s.bool()
                mode = s.choice(['CLAMP_TO_EDGE', 'CLAMP', 'NONE'] + (['REPEAT', 'MIRRORED_REPEAT'] * 2 if norm else []))
                integer = not norm and not lin and s.bool(1, 3)
                flags = 'CLK_NORMALIZED_COORDS_%s | CLK_ADDRESS_%s | CLK_FILTER_%s' % ('TRUE' if norm else 'FALSE', mode, 'LINEAR' if lin else 'NEAREST')
                via = s.choice(['literal', 'local', 'global', 'arg', 'arg'])
                if via == 'literal':
                    sx = 'smp%d' % k
                    body.append('  const sampler_t smp%d = %s;' % (k, flags))
                elif via == 'local':
                    sx = 'smp%d' % k
                    body.append('  const sampler_t smp%d = %s;' % (k, flags))
                elif via == 'global':
                    sx = 'smp%d' % k
                    decl.append('%ssampler_t smp%d = %s;' % (s.choice(['const ', 'constant ']), k, flags))
                else:
                    sx = 'smp%d' % k
                    extra.append('sampler_t smp%d' % k)
                    samplers.append((norm, mode, lin))
                nn = {1: 1, 2: 2, 3: 4}[nd]
                if integer:
                    cl = ', '.join(('clamp(IC[i * 4 + %d], 0, %d)' % (a, size[a] - 1) if mode == 'NONE' and a != layer_axis else 'IC[i * 4 + %d]' % a) if a < nd else '5' for a in range(nn))
                    cexpr = cl if nd == 1 else '(int%s)(%s)' % (vec, cl)
                else:
                    parts = []
                    for a in range(nn):
                        if a >= nd:
                            parts.append('9.0f')
                            continue
                        e = 'FC[i * 4 + %d]' % a
                        if a != layer_axis:
                            if mode == 'NONE':
                                # coordinates must stay inside
                                lo, hi = (0.5, size[a] - 0.5) if lin else (0.0, size[a] - 0.5)
                                e = 'clamp(%s, %rf, %rf)' % (e, lo, hi)
                            if norm:
                                e = '(%s) / %d.0f' % (e, size[a])
                        parts.append(e)
                    cexpr = parts[0] if nd == 1 else '(float%s)(%s)' % (vec, ', '.join(parts))
                if helper and s.bool():
                    hn = 'h%d' % k
                    ctp = ('int' if integer else 'float') + vec
                    decl.append('%s%s %s(read_only %s img, sampler_t sm, %s c) { return read_image%s(img, sm, c); }' % (
                        s.choice(['', '__attribute__((noinline)) ']), T4, hn, CLTYPE[kind], ctp, kf))
                    ex = '%s(I, %s, %s)' % (hn, sx, cexpr)
                else:
                    ex = 'read_image%s(I, %s, %s)' % (kf, sx, cexpr)
                reads.append(('int' if integer else 'lin' if lin else 'near', norm, mode))
                s.cls('%s %s %s %s' % (kind, 'normalised' if norm else 'plain', mode, 'linear' if lin else 'integer' if integer else 'nearest'))
            body.append('  O[i * %d + %d] = as_uint4(%s);' % (nreads, k, ex))
        # writes to a second image
        wimg = None
        if s.bool(2, 3):
            wk = s.choice(list(KINDS))
            wf = s.choice(FORMATS)
            wimg = self.image(s, r, wk, wf)
            total = wimg.w * wimg.h * wimg.d * wimg.n
            nw = min(nc, total)
            where = r.sample(range(total), nw)
            kw = kindof(wf[1])
            colors = []
            for _ in range(nw):
                if kw == 'f':
                    colors.append([climg.f32(r.choice([0.0, 1.0, -1.0, 0.5, -0.5, r.uniform(-1.5, 1.5), r.uniform(0, 1), r.randint(0, 255) / 255, (r.randint(0, 255) + 0.5) / 255, 100.0, -100.0, 65519.0, 70000.0, 1e-8, -0.0] +
                                                      ([math.inf, -math.inf, math.nan, 1e38] if wf[1] in ('FLOAT', 'HALF_FLOAT') else []))) for _ in range(4)])
                elif kw == 'i':
                    colors.append([r.choice([0, 1, -1, 127, 128, -128, -129, 255, 32767, 32768, -32768, -32769, 2**31 - 1, -2**31, r.randint(-300, 300), r.randint(-2**31, 2**31 - 1)]) for _ in range(4)])
                else:
                    colors.append([r.choice([0, 1, 127, 128, 255, 256, 65535, 65536, 2**31, 2**32 - 1, r.randint(0, 300), r.getrandbits(32)]) for _ in range(4)])
            n2 = {1: 1, 2: 2, 3: 4}[NDIM[wk]]
            cx = 'WC[i * 4]' if n2 == 1 else '(int%d)(%s)' % (n2, ', '.join('WC[i * 4 + %d]' % a for a in range(n2)))
            if wk == '3D':
                decl.insert(0, '#pragma OPENCL EXTENSION cl_khr_3d_image_writes : enable')
            body.append('  if (i < %d) write_image%s(W, %s, as_%s(WV[i]));' % (nw, kw, cx, {'f': 'float4', 'i': 'int4', 'ui': 'uint4'}[kw]))
            extra += ['write_only %s W' % CLTYPE[wk], 'global const int *WC', 'global const uint4 *WV']
            s.cls('write %s %s' % (wk, wf[1]))
        # queries
        qs = []
        if s.bool(1, 2):
            def q(e, v):
                qs.append(v)
                body.append('  if (i == 0) Q[%d] = %s;' % (len(qs) - 1, e))
            for nm, im in [('I', img)] + ([('W', wimg)] if wimg else []):
                q('get_image_width(%s)' % nm, im.w)
                q('get_image_channel_data_type(%s)' % nm, TYP[im.fmt[1]])
                q('get_image_channel_order(%s)' % nm, ORD[im.fmt[0]])
                q('(get_image_channel_order(%s) == CLK_%s)' % (nm, im.fmt[0]), 1)
                q('(get_image_channel_data_type(%s) == CLK_%s)' % (nm, im.fmt[1]), 1)
                if im.kind in ('2D', '2Da', '3D'):
                    q('get_image_height(%s)' % nm, im.h)
                    q('get_image_dim(%s).x' % nm, im.w)
                    q('get_image_dim(%s).y' % nm, im.h)
                if im.kind == '3D':
                    q('get_image_depth(%s)' % nm, im.d)
                    q('get_image_dim(%s).z' % nm, im.d)
                    q('get_image_dim(%s).w' % nm, 0)
                if im.kind.endswith('a'):
                    q('get_image_array_size(%s)' % nm, im.n)
        src = '%s\nkernel void k(read_only %s I, global const float *FC, global const int *IC, global uint4 *O, global int *Q%s)\n{\n  int i = get_global_id(0);\n%s\n}\n' % (
            '\n'.join(decl), CLTYPE[kind], ''.join(', ' + e for e in extra), '\n'.join(body))
        FC = struct.pack('<%df' % (nc * 4), *[x for c in coords for x in (c + [0.0] * 4)[:4]])
        IC = struct.pack('<%di' % (nc * 4), *[x for c in icoords for x in (c + [0] * 4)[:4]])
        s.desc = 'image %s %s %dx%dx%d n=%d data=%s\nfloat coordinates %s\nint coordinates %s\nopts=%r %s\n%s' % (
            kind, fmt, img.w, img.h, img.d, img.n, img.data.hex(), coords, icoords, opts,
            '' if not wimg else 'write image %s %s %dx%dx%d n=%d at %s colours %s' % (wimg.kind, wimg.fmt, wimg.w, wimg.h, wimg.d, wimg.n, where, colors), src)
        pads = [(s.range(0, 2), s.range(0, 2)) if s.bool(1, 4) else None for _ in range(2)]
        if pads[0]:
            s.cls('image in padded host memory')
        clrt.setenv(NUM_THREADS=s.choice([1, 1, 4]))
        with clrt.Capture() as cap:
            with clrt.Ctx() as c:
                p = c.program(src, opts)
                k = c.kernel(p, 'k')
                I = create(c, img, 4, img.data, pads[0])
                O = c.buffer(nc * nreads * 16)
                Q = c.buffer(256, b'\xff' * 256)
                a = [('m', I), ('m', c.buffer(len(FC), FC)), ('m', c.buffer(len(IC), IC)), ('m', O), ('m', Q)]
                for (norm, mode, lin) in samplers:
                    a.append(('s', clrt.create('clCreateSampler', c.ctx, int(norm), AM[mode], 0x1141 if lin else 0x1140)))
                if wimg:
                    W = create(c, wimg, 2, wimg.data, pads[1])
                    xyz = []
                    for t in where:
                        x, y, z = t % wimg.w, t // wimg.w % wimg.h, t // (wimg.w * wimg.h)
                        if wimg.kind == '1Da':
                            y, z = t // wimg.w, 0
                        xyz += [x, y, z, 3]
                    wc = struct.pack('<%di' % len(xyz), *xyz)
                    wv = b''.join(struct.pack('<4' + {'f': 'f', 'i': 'i', 'ui': 'I'}[kw], *cl) for cl in colors)
                    a += [('m', W), ('m', c.buffer(len(wc), wc)), ('m', c.buffer(len(wv), wv))]
                # kernel arguments in declaration order: samplers come before W
                try:
                    c.setargs(k, a)
                    c.ndrange(k, [nc])
                    out = c.read(O, nc * nreads * 16)
                    qv = struct.unpack('<64i', c.read(Q, 256))
                    if wimg:
                        wout = readback(c, W, wimg)
                    after = readback(c, I, img)
                except clrt.CLError as e:
                    raise Fail('%s\n%s' % (e, cap.peek()[1].decode('latin1')[:600]), 'error')
        import re
        err = re.sub(r'(?m)^\d+ warnings? generated\.\n', '', cap.stderr)
        if err or cap.stdout:
            raise Fail('unexpected output: %s%s' % (cap.stdout[:400], err[:400]), 'diag')
        if after != img.data:
            raise Fail('the read-only image changed', 'input')
        for i, v in enumerate(qs):
            if qv[i] != v:
                raise Fail('query %d gives %d (%#x), expected %d (%#x)' % (i, qv[i], qv[i], v, v), 'query')
        finite = not any(x != x or abs(x) == math.inf for j in range(len(img.data) // img.px) for x in climg.decode(fmt, img.data[j * img.px:(j + 1) * img.px])) if kf == 'f' else True
        nont = bool(wimg)
        for i in range(nc):
            for kx, (how, norm, mode) in enumerate(reads):
                got = struct.unpack('<4' + {'f': 'f', 'i': 'i', 'ui': 'I'}[kf], out[(i * nreads + kx) * 16:(i * nreads + kx + 1) * 16])
                res = self.expect(img, how, norm, mode, coords[i], icoords[i], size, layer_axis, finite)
                if res is None:
                    s.cls('ambiguous or non-finite sample skipped')
                    continue
                wants, tol, outside = res
                nont = nont or outside or how == 'lin'

                def near(g, w):
                    if kf != 'f':
                        return g == w
                    if w != w:
                        return g != g
                    if abs(w) == math.inf:
                        return g == w
                    return abs(g - w) <= tol + 2.5e-7 * abs(w)
                bad = [[ch for ch in range(4) if not near(got[ch], want[ch])] for want in wants]
                if all(bad):
                    ch, w = bad[0][0], wants[0][bad[0][0]]
                    raise Fail('read %d (%s, %s, %s) at %s: channel %s is %r, expected %r%s' % (
                        kx, how, 'normalised' if norm else 'unnormalised', mode, icoords[i] if how in ('int', 'none') else coords[i], 'rgba'[ch], got[ch], w,
                        ' or a neighbour' if len(wants) > 1 else ''), 'read ' + how)
        if wimg:
            exp = wimg.data
            px = wimg.px
            enc = {t: climg.encodable(wimg.fmt, cl) for t, cl in zip(where, colors)}
            for t in range(len(exp) // px):
                g = wout[t * px:(t + 1) * px]
                if t in enc:
                    if not climg.accepts(enc[t], g):
                        raise Fail('texel %d was written %s from %s, expected one of %s' % (t, g.hex(), colors[where.index(t)], [[b.hex() for b in e] for e in enc[t]]), 'write')
                elif g != exp[t * px:(t + 1) * px]:
                    raise Fail('texel %d was not written by any work-item and changed from %s to %s' % (t, exp[t * px:(t + 1) * px].hex(), g.hex()), 'stray')
        if nont:
            s.nontrivial((src, img.data, FC, IC, wimg.data if wimg else b''))

    def expect(self, img, how, norm, mode, fc, ic, size, la, finite):
        """-> (rgba, tolerance, outside) or None when not judged"""
        nd = len(fc)
        f = [0.0] * 3
        layer = 0
        if how in ('none', 'int'):
            c = list(ic) + [0] * (3 - nd)
            if how == 'none' or mode == 'NONE':
                for a in range(nd):
                    if how == 'none' or a != la:
                        c[a] = min(max(c[a], 0), size[a] - 1)
            if la is not None:
                layer = min(max(c[la], 0), img.n - 1)
            sz = [img.w, img.h, img.d]
            idx = []
            for a in range(3):
                if a == la or a >= nd:
                    idx.append(0)
                elif how == 'none':
                    idx.append(c[a])
                else:
                    idx.append(climg.nearest(mode, 0, c[a], sz[a]))
            outside = any(not 0 <= idx[a] < sz[a] for a in range(3))
            return [img.texel(idx[0], idx[1], idx[2], layer)], 0, outside
        lin = how == 'lin'
        sz = [img.w, img.h, img.d]
        ax = []
        outside = False
        for a in range(3):
            if a >= nd or a == la:
                ax.append((0, 0, 0.0))
                if a == la:
                    layer = min(max(round(fc[a]), 0), img.n - 1)
                continue
            k = sz[a]
            u = fc[a]
            if mode == 'NONE':
                lo, hi = (0.5, k - 0.5) if lin else (0.0, k - 0.5)
                u = min(max(u, lo), hi)
            exact = True
            if norm:
                exact = k & (k - 1) == 0 and u * 64 == math.floor(u * 64) and abs(u) < 4096
                sn = climg.f32(u / k)
                un = sn * k
            else:
                sn, un = 0.0, u
                # subtracting a half is exact for coordinates on a grid
            if lin:
                ax.append(climg.linear(mode, sn, un, k))
            else:
                if not exact:
                    fr = un - math.floor(un)
                    if abs(u) > 1000:
                        return None
                    if min(fr, 1 - fr) < 1e-3 or (mode == 'MIRRORED_REPEAT' and abs(sn - round(sn)) < 1e-4):
                        # rounding may select either neighbour, but nothing else
                        alt = {climg.nearest(mode, sn + e / k, un + e, k) for e in (-1e-3, 1e-3)}
                        if mode in ('NONE', 'REPEAT', 'MIRRORED_REPEAT'):
                            alt = {i for i in alt if 0 <= i < k}
                        ax.append(sorted(alt))
                        continue
                i = climg.nearest(mode, sn, un, k)
                ax.append((i, i, 0.0))
            outside = outside or not 0 <= un <= k
        if not lin:
            one = [list(x[:1]) if isinstance(x, tuple) else x for x in ax]
            return [img.texel(i, j, l, layer) for i in one[0] for j in one[1] for l in one[2]], 0, outside
        if not finite:
            return None
        acc = [0.0] * 4
        mag = 0.0
        for bits in range(8):
            w = 1.0
            idx = []
            for a in range(3):
                i0, i1, fr = ax[a]
                w *= fr if bits >> a & 1 else 1 - fr
                idx.append(i1 if bits >> a & 1 else i0)
            t = img.texel(idx[0], idx[1], idx[2], layer)
            mag = max(mag, max(abs(x) for x in t))
            for ch in range(4):
                acc[ch] += w * t[ch]
        big = max([abs(x) for x in fc] + [1])
        if norm and big > 1000:
            return None
        return [acc], mag * (2e-6 + big * 4e-6 if norm else 2e-6 + big * 5e-7), outside


CHECK = C16()
