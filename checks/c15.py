"""C15: histories of image commands against a model of texels."""
import ctypes as C
import math
import random
import struct
import climg
import clrt
from climg import KINDS, TYP, ORD, FORMATS, kindof
from clrt import vp, szarr, call, raw
from c16 import ImageDesc, ImageFormat, dims
from pbt import Check, Fail

INVALID_VALUE, INVALID_OP, OVERLAP, MISMATCH = -30, -59, -8, -9
H_WO, H_RO, H_NO = 128, 256, 512
USE, COPY = 8, 32
BIG = (1 << 64) - 1


class Host:
    """Host memory between guards."""
    G = 48

    def __init__(self, data):
        self.n = len(data)
        self.model = bytearray(data)
        self.buf = C.create_string_buffer(b'\xa5' * self.G + bytes(data) + b'\xa5' * self.G, self.n + 2 * self.G)
        self.addr = C.addressof(self.buf) + self.G

    def check(self, what):
        g, w = self.buf.raw, b'\xa5' * self.G + bytes(self.model) + b'\xa5' * self.G
        if g != w:
            j = next(j for j in range(len(g)) if g[j] != w[j])
            raise Fail('%s: host byte %d is %02x, expected %02x' % (what, j - self.G, g[j], w[j]), 'host bytes')


class Img:
    """dims X, Y, Z are in the units of origin and region"""

    def __init__(self, name, kind, fmt, w, h, d, n, data, flags):
        self.name, self.kind, self.fmt, self.w, self.hh, self.d, self.n = name, kind, fmt, w, h, d, n
        self.X, self.Y, self.Z = dims(kind, w, h, d, n)
        self.px = climg.pxsize(fmt)
        self.data = data              # bytearray (tight); a buffer's bytes for 1Db
        self.flags = flags
        self.host = None              # CL_MEM_USE_HOST_PTR memory, row and slice pitch
        self.maps = []
        self.mem = None
        self.rp = self.sp = 0

    def rows(self, o, reg):
        """(byte offset, length) of every row of a region, in order"""
        for z in range(reg[2]):
            for y in range(reg[1]):
                yield (o[0] + self.X * (o[1] + y + self.Y * (o[2] + z))) * self.px, reg[0] * self.px

    def get(self, o, reg):
        return [bytes(self.data[a:a + n]) for a, n in self.rows(o, reg)]

    def put(self, o, reg, rows):
        for (a, n), b in zip(self.rows(o, reg), rows):
            assert len(b) == n
            self.data[a:a + n] = b

    def size(self):
        return self.X * self.Y * self.Z * self.px

    def full(self):
        return [0, 0, 0], [self.X, self.Y, self.Z]


class Buf:
    def __init__(self, name, data):
        self.name, self.data = name, bytearray(data)
        self.images = []


class C15(Check):
    id = 'C15'
    quick = 90000
    thorough = 600000
    rule = ('a case is a history of image commands over several images and buffers; non-trivial when it contains a partial region or a pitch larger than a row '
            'and at least three successful transfers; distinct by history and data')
    assumptions = ['colours filled into normalised images may be off by 0.6 of a unit, halves may round toward zero',
                   'commands that the specification leaves undefined (host access to a region while it is mapped, overlapping aliases) are not generated']

    def init(self):
        clrt.load(self.b + '/liboclgrind-rt.so')

    def rnd(self, n):
        return self.r.randbytes(n) if n else b''

    # ------------------------------------------------------------------ objects
    def region(self, s, im, reg=None):
        o, out = [0] * 3, [1] * 3
        for a, k in enumerate((im.X, im.Y, im.Z)):
            n = min(reg[a], k) if reg else s.weighted([(2, k), (3, s.range(1, k))])
            out[a] = n
            o[a] = s.weighted([(1, 0), (1, k - n), (2, s.range(0, k - n))])
        return o, out

    def new_image(self, s, c):
        kind = s.choice(list(KINDS))
        fmt = s.choice(FORMATS) if not self.imgs or s.bool() else s.choice(self.imgs).fmt
        sz = lambda m: s.weighted([(4, s.range(1, m)), (1, 1)])
        w = sz(9)
        h = sz(7) if kind in ('2D', '2Da', '3D') else 1
        d = sz(4) if kind == '3D' else 1
        n = sz(4) if kind.endswith('a') else 1
        px = climg.pxsize(fmt)
        flags = s.weighted([(6, 1), (1, 2), (1, 4)]) | s.weighted([(8, 0), (1, H_RO), (1, H_WO), (1, H_NO)])
        name = 'i%d' % len(self.imgs)
        X, Y, Z = dims(kind, w, h, d, n)
        f = ImageFormat(ORD[fmt[0]], TYP[fmt[1]])
        if kind == '1Db':
            ok = [b for b in self.bufs if len(b.data) >= px]
            if not ok:
                return
            b = s.choice(ok)
            w = X = min(w, len(b.data) // px)
            flags = 1
            im = Img(name, kind, fmt, w, h, d, n, b.data, flags)
            dd = ImageDesc(KINDS[kind], w, 0, 0, 0, 0, 0, 0, 0, b.mem)
            im.mem = clrt.create('clCreateImage', c.ctx, flags, C.byref(f), C.byref(dd), None)
            im.buf = b
            self.log.append('%s = 1D image of buffer %s, %s, %d texels' % (name, b.name, fmt, w))
        else:
            how = s.weighted([(2, 'plain'), (3, 'copy'), (3, 'use')])
            tight = self.rnd(X * Y * Z * px)
            im = Img(name, kind, fmt, w, h, d, n, bytearray(tight), flags)
            # pitches
            rp = sp = 0
            one_d_array = kind == '1Da'
            if how != 'plain':
                if s.bool(1, 2):
                    rp = (w + s.range(0, 3)) * px
                erp = rp or w * px
                if kind in ('2Da', '3D') and s.bool(1, 2):
                    sp = (h + s.range(0, 3)) * erp
                if one_d_array and s.bool(1, 2):
                    sp = erp * s.range(1, 3)
            erp = rp or w * px
            esp = sp or (erp if one_d_array else erp * h)
            im.rp, im.sp = (erp, esp) if how == 'use' else (w * px, w * px if one_d_array else w * px * h)
            ystep, zstep = (esp, 0) if one_d_array else (erp, esp)
            hostbytes = bytearray(self.rnd(zstep * Z + ystep * Y + erp))
            # exactly as much as the image needs
            need = (Z - 1) * zstep + (Y - 1) * ystep + w * px
            total = (Z * esp if Z > 1 or kind in ('2Da', '3D') else 0) or (Y * ystep)
            hostbytes = (hostbytes + self.rnd(total))[:max(total, need)]
            for k, (a, nn) in enumerate(im.rows(*im.full())):
                y, z = k % Y, k // Y
                hostbytes[z * zstep + y * ystep:z * zstep + y * ystep + nn] = tight[a:a + nn]
            host = Host(hostbytes) if how != 'plain' else None
            im.ystep, im.zstep = ystep, zstep
            hf = {'plain': 0, 'copy': COPY, 'use': USE}[how]
            ptr = host.addr if host else None
            if kind == '2D' and not sp and s.bool(1, 3):
                im.mem = clrt.create('clCreateImage2D', c.ctx, flags | hf, C.byref(f), w, h, rp, ptr)
                via = 'clCreateImage2D'
            elif kind == '3D' and s.bool(1, 3):
                im.mem = clrt.create('clCreateImage3D', c.ctx, flags | hf, C.byref(f), w, h, d, rp, sp, ptr)
                via = 'clCreateImage3D'
            else:
                junk = lambda: s.choice([0, 0, 3])    # members that do not apply are ignored
                dd = ImageDesc(KINDS[kind], w, h if kind in ('2D', '2Da', '3D') else junk(), d if kind == '3D' else junk(),
                               n if kind.endswith('a') else junk(), rp, sp, 0, 0, None)
                im.mem = clrt.create('clCreateImage', c.ctx, flags | hf, C.byref(f), C.byref(dd), ptr)
                via = 'clCreateImage'
            self.log.append('%s = %s %s %s %dx%dx%d n=%d flags=%#x %s pitches=%d,%d' % (name, via, kind, fmt, w, h, d, n, flags, how, rp, sp))
            if how == 'copy':
                C.memset(host.addr, 0xcc, host.n)    # only read during creation
            if how == 'use':
                im.host = host
                self.hosts.append((im, host))
            if rp > w * px or sp > erp * h:
                self.feat.add('pitch')
            if how == 'plain':
                # contents are undefined until written; write without the host access flags in the way
                if flags & (H_RO | H_NO):
                    im.flags = flags
                    kern = c.buffer(len(tight), tight)
                    call('clEnqueueCopyBufferToImage', c.q, kern, im.mem, 0, szarr([0, 0, 0]), szarr([X, Y, Z]), 0, None, None)
                else:
                    hb = Host(tight)
                    call('clEnqueueWriteImage', c.q, im.mem, 1, szarr([0, 0, 0]), szarr([X, Y, Z]), 0, 0, hb.addr, 0, None, None)
        self.imgs.append(im)
        self.query(im)

    def query(self, im):
        def q(n, t):
            v = t()
            r = C.c_size_t()
            call('clGetImageInfo', im.mem, n, C.sizeof(v), C.byref(v), C.byref(r))
            if r.value != C.sizeof(v):
                raise Fail('clGetImageInfo(%#x) reports a size of %d' % (n, r.value), 'info size')
            return v
        S = C.c_size_t
        f = q(0x1110, ImageFormat)
        got = dict(format=(f.order, f.type), element=q(0x1111, S).value, row_pitch=q(0x1112, S).value, slice_pitch=q(0x1113, S).value, width=q(0x1114, S).value,
                   height=q(0x1115, S).value, depth=q(0x1116, S).value, array=q(0x1117, S).value, buffer=q(0x1118, C.c_void_p).value,
                   mips=q(0x1119, C.c_uint).value, samples=q(0x111A, C.c_uint).value)
        k = im.kind
        want = dict(format=(ORD[im.fmt[0]], TYP[im.fmt[1]]), element=im.px, width=im.w, height=im.hh if k in ('2D', '2Da', '3D') else 0,
                    depth=im.d if k == '3D' else 0, array=im.n if k.endswith('a') else 0, buffer=im.buf.mem if k == '1Db' else None,
                    mips=0, samples=0)
        for x, v in want.items():
            if got[x] != v:
                raise Fail('clGetImageInfo: %s of %s is %r, expected %r' % (x, im.name, got[x], v), 'info ' + x)
        # the pitches of an image without host memory are the implementation's choice
        if im.host:
            if got['row_pitch'] != im.rp:
                raise Fail('clGetImageInfo: row pitch of %s is %r, expected %r' % (im.name, got['row_pitch'], im.rp), 'info pitch')
            w = im.sp if k in ('1Da', '2Da', '3D') else 0
            if got['slice_pitch'] != w:
                raise Fail('clGetImageInfo: slice pitch of %s is %r, expected %r' % (im.name, got['slice_pitch'], w), 'info pitch')
        elif got['row_pitch'] < im.w * im.px:
            raise Fail('clGetImageInfo: row pitch of %s is %r, less than a row of %d bytes' % (im.name, got['row_pitch'], im.w * im.px), 'info pitch')
        elif k in ('1Da', '2Da', '3D'):
            if got['slice_pitch'] < got['row_pitch'] * (im.hh if k != '1Da' else 1):
                raise Fail('clGetImageInfo: slice pitch of %s is %r with a row pitch of %r' % (im.name, got['slice_pitch'], got['row_pitch']), 'info pitch')
        elif got['slice_pitch']:
            raise Fail('clGetImageInfo: slice pitch of %s is %r, expected 0' % (im.name, got['slice_pitch']), 'info pitch')
        ty = C.c_uint()
        call('clGetMemObjectInfo', im.mem, 0x1100, 4, C.byref(ty), None)
        if ty.value != KINDS[k]:
            raise Fail('CL_MEM_TYPE of %s is %#x' % (im.name, ty.value), 'info type')

    # ------------------------------------------------------------------ helpers
    def free(self, im, write):
        """host maps make access undefined"""
        others = [im] if im.kind != '1Db' else im.buf.images
        for x in others:
            for m in x.maps:
                if write or m['write']:
                    return False
        return True

    def failed(self, e, codes, fn):
        if e not in codes:
            raise Fail('%s returned %d, expected %s' % (fn, e, codes), 'error code')
        self.expect_err += 1

    def corrupt(self, s, im, o, reg):
        """an invalid region -> (origin, region) or None"""
        o, reg = list(o), list(reg)
        lim = (im.X, im.Y, im.Z)
        a = s.draw(3)
        how = s.choice(['beyond', 'zero', 'wrap', 'past'])
        if how == 'beyond':
            reg[a] = lim[a] - o[a] + s.range(1, 3)
        elif how == 'zero':
            reg[a] = 0
        elif how == 'wrap':
            o[a] = BIG - s.draw(reg[a])
        else:
            o[a] = lim[a] + s.range(0, 2)
        return o, reg, how

    def finish(self, what):
        call('clFinish', self.c.q)
        for w, h in self.pending:
            h.check(w)
        self.pending = []

    def settle(self, s, blk, what, h=None):
        if h is not None:
            self.pending.append((what, h))
        if blk:
            self.finish(what)
        elif s.bool(1, 4):
            self.finish(what)

    def hostlayout(self, s, im, reg):
        """pitch arguments and effective steps for a region"""
        row = reg[0] * im.px
        rp = s.weighted([(2, 0), (1, row), (2, row + s.range(1, 9))])
        erp = rp or row
        if im.kind == '1Da':
            sp = s.weighted([(2, 0), (1, erp), (2, erp + s.choice([1, 3, erp, im.px, 16]))])
            ys, zs = sp or erp, 0
        elif im.kind in ('2Da', '3D'):
            sp = s.weighted([(2, 0), (1, erp * reg[1]), (2, erp * reg[1] + s.choice([1, erp, 7]))])
            ys, zs = erp, sp or erp * reg[1]
        else:
            sp, ys, zs = 0, erp, 0
        if ys > row or zs > ys * reg[1]:
            self.feat.add('pitch')
        return rp, sp, ys, zs, (reg[2] - 1) * zs + (reg[1] - 1) * ys + row

    # ------------------------------------------------------------------ commands
    def op_transfer(self, s, write):
        im = s.choice(self.imgs)
        if not self.free(im, write):
            return
        fn = 'clEnqueueWriteImage' if write else 'clEnqueueReadImage'
        o, reg = self.region(s, im)
        rp, sp, ys, zs, need = self.hostlayout(s, im, reg)
        h = Host(self.rnd(need))
        blk = s.bool()
        noacc = im.flags & (H_NO | (H_RO if write else H_WO))
        bad = None
        if s.bool(1, 6):
            if s.bool(1, 5) and reg[0] * im.px > 1:
                bad, rp = 'pitch', s.range(1, reg[0] * im.px - 1)
                bo, br = o, reg
            else:
                bo, br, bad = self.corrupt(s, im, o, reg)
            self.log.append('%s %s origin=%s region=%s pitches=%d,%d (invalid: %s)' % (fn, im.name, bo, br, rp, sp, bad))
            e = raw(fn)(self.c.q, im.mem, blk, szarr(bo), szarr(br), rp, sp, h.addr, 0, None, None)
            self.failed(e, (INVALID_VALUE, INVALID_OP) if noacc else (INVALID_VALUE,), fn + ' (%s)' % bad)
            return self.settle(s, True, 'after a failed ' + fn, h)
        self.log.append('%s %s origin=%s region=%s pitches=%d,%d%s' % (fn, im.name, o, reg, rp, sp, '' if blk else ' non-blocking'))
        e = raw(fn)(self.c.q, im.mem, blk, szarr(o), szarr(reg), rp, sp, h.addr, 0, None, None)
        if noacc:
            self.failed(e, (INVALID_OP,), fn + ' with host access flags')
            return
        if e:
            raise Fail('%s returned %d' % (fn, e), 'failed command')
        self.part(im, reg)
        rows = im.get(o, reg)
        new = []
        for k in range(reg[1] * reg[2]):
            a = k // reg[1] * zs + k % reg[1] * ys
            if write:
                new.append(bytes(h.model[a:a + reg[0] * im.px]))
            else:
                h.model[a:a + reg[0] * im.px] = rows[k]
        if write:
            im.put(o, reg, new)
        self.done += 1
        self.settle(s, blk, '%s of %s' % (fn, im.name), h)

    def part(self, im, reg):
        if reg != [im.X, im.Y, im.Z]:
            self.feat.add('partial')

    def op_copy(self, s):
        a = s.choice(self.imgs)
        same = [x for x in self.imgs if x.fmt == a.fmt]
        b = s.choice(same) if s.bool(9, 10) else s.choice(self.imgs)
        if not self.free(a, False) or not self.free(b, True):
            return
        reg = [s.range(1, min(x, y)) for x, y in zip((a.X, a.Y, a.Z), (b.X, b.Y, b.Z))]
        ao, _ = self.region(s, a, reg)
        bo, _ = self.region(s, b, reg)
        if a is not b and a.data is b.data:
            return    # two images of one buffer
        fn = 'clEnqueueCopyImage'
        if s.bool(1, 8):
            if s.bool():
                xo, xr, bad = self.corrupt(s, a, ao, reg)
                args = (xo, bo, xr)
            else:
                xo, xr, bad = self.corrupt(s, b, bo, reg)
                args = (ao, xo, xr)
            self.log.append('%s %s->%s origins %s %s region %s (invalid: %s)' % (fn, a.name, b.name, *args, bad))
            e = raw(fn)(self.c.q, a.mem, b.mem, szarr(args[0]), szarr(args[1]), szarr(args[2]), 0, None, None)
            return self.failed(e, (INVALID_VALUE, MISMATCH) if a.fmt != b.fmt else (INVALID_VALUE, OVERLAP) if a is b else (INVALID_VALUE,), fn + ' (%s)' % bad)
        self.log.append('%s %s->%s origins %s %s region %s' % (fn, a.name, b.name, ao, bo, reg))
        e = raw(fn)(self.c.q, a.mem, b.mem, szarr(ao), szarr(bo), szarr(reg), 0, None, None)
        if a.fmt != b.fmt:
            return self.failed(e, (MISMATCH,), fn)
        if a is b and all(abs(x - y) < n for x, y, n in zip(ao, bo, reg)):
            return self.failed(e, (OVERLAP,), fn + ' with overlapping regions')
        if e:
            raise Fail('%s returned %d' % (fn, e), 'failed command')
        b.put(bo, reg, a.get(ao, reg))
        self.part(a, reg)
        self.done += 1
        self.settle(s, False, fn)

    def op_image_buffer(self, s, to_image):
        im = s.choice(self.imgs)
        b = s.choice(self.bufs)
        if im.data is b.data or not self.free(im, to_image) or any(x.maps for x in b.images):
            return
        o, reg = self.region(s, im)
        n = reg[0] * reg[1] * reg[2] * im.px
        fn = 'clEnqueueCopyBufferToImage' if to_image else 'clEnqueueCopyImageToBuffer'
        off = s.range(0, max(0, len(b.data) - n))
        bad = None
        if off + n > len(b.data):
            bad = 'bounds'
        elif s.bool(1, 8):
            k = s.draw(3)
            if k == 0:
                o, reg, bad = self.corrupt(s, im, o, reg)
            elif k == 1:
                off, bad = len(b.data) - n + s.range(1, 4), 'bounds'
            else:
                off, bad = BIG - s.draw(n), 'wrap'
        self.log.append('%s %s %s offset=%d origin=%s region=%s%s' % (fn, im.name, b.name, off, o, reg, ' (invalid: %s)' % bad if bad else ''))
        if to_image:
            e = raw(fn)(self.c.q, b.mem, im.mem, off, szarr(o), szarr(reg), 0, None, None)
        else:
            e = raw(fn)(self.c.q, im.mem, b.mem, szarr(o), szarr(reg), off, 0, None, None)
        if bad:
            return self.failed(e, (INVALID_VALUE,), fn + ' (%s)' % bad)
        if e:
            raise Fail('%s returned %d' % (fn, e), 'failed command')
        if to_image:
            w = reg[0] * im.px
            im.put(o, reg, [bytes(b.data[off + k * w:off + k * w + w]) for k in range(reg[1] * reg[2])])
        else:
            b.data[off:off + n] = b''.join(im.get(o, reg))
        self.part(im, reg)
        self.done += 1
        self.settle(s, False, fn)

    def color(self, s, fmt):
        r = self.r
        k = kindof(fmt[1])
        if k == 'f':
            ex = [math.inf, -math.inf, math.nan, 1e38, 65519.0, 65520.0, 1e-8] if fmt[1] in ('FLOAT', 'HALF_FLOAT') else []
            v = [climg.f32(r.choice([0.0, 1.0, -1.0, 0.5, -0.5, r.uniform(-1.5, 1.5), r.uniform(0, 1), r.randint(0, 255) / 255, r.randint(-32767, 32767) / 32767, 2.0, 100.0, -100.0] + ex)) for _ in range(4)]
            return v, struct.pack('<4f', *v)
        if k == 'i':
            v = [r.choice([0, 1, -1, 127, 128, -128, -129, 32767, 32768, -32768, -32769, 2**31 - 1, -2**31, r.randint(-300, 300)]) for _ in range(4)]
            return v, struct.pack('<4i', *v)
        v = [r.choice([0, 1, 127, 255, 256, 65535, 65536, 2**31, 2**32 - 1, r.randint(0, 300)]) for _ in range(4)]
        return v, struct.pack('<4I', *v)

    def op_fill(self, s):
        im = s.choice(self.imgs)
        if not self.free(im, True):
            return
        o, reg = self.region(s, im)
        col, raw16 = self.color(s, im.fmt)
        cb = C.create_string_buffer(raw16, 16)
        fn = 'clEnqueueFillImage'
        if s.bool(1, 8):
            xo, xr, bad = self.corrupt(s, im, o, reg)
            self.log.append('%s %s origin=%s region=%s (invalid: %s)' % (fn, im.name, xo, xr, bad))
            e = raw(fn)(self.c.q, im.mem, cb, szarr(xo), szarr(xr), 0, None, None)
            return self.failed(e, (INVALID_VALUE,), fn + ' (%s)' % bad)
        self.log.append('%s %s origin=%s region=%s colour=%s' % (fn, im.name, o, reg, col))
        e = raw(fn)(self.c.q, im.mem, cb, szarr(o), szarr(reg), 0, None, None)
        if e:
            raise Fail('%s returned %d' % (fn, e), 'failed command')
        C.memset(cb, 0x77, 16)          # the colour is read when the command is enqueued
        self.finish(fn)
        got = self.fetch(im)
        i = (o[0] + im.X * (o[1] + im.Y * o[2])) * im.px
        tex = got[i:i + im.px]
        enc = climg.encodable(im.fmt, col)
        if not climg.accepts(enc, tex):
            raise Fail('fill of %s %s with %s stored %s, expected one of %s' % (im.kind, im.fmt, col, tex.hex(), [[x.hex() for x in e] for e in enc]), 'fill colour')
        im.put(o, reg, [tex * reg[0]] * (reg[1] * reg[2]))
        self.part(im, reg)
        self.done += 1
        self.compare(im, got)

    def fetch(self, im):
        """whole contents, through a buffer so that host access flags do not matter"""
        n = im.size()
        b = clrt.create('clCreateBuffer', self.c.ctx, 1, n, None)
        call('clEnqueueCopyImageToBuffer', self.c.q, im.mem, b, szarr([0, 0, 0]), szarr([im.X, im.Y, im.Z]), 0, 0, None, None)
        d = self.c.read(b, n)
        call('clReleaseMemObject', b)
        return d

    def compare(self, im, got):
        want = bytes(im.data[:im.size()])
        if got != want:
            j = next(j for j in range(len(want)) if got[j] != want[j])
            t = j // im.px
            raise Fail('texel (%d, %d, %d) of %s is %s, expected %s' % (
                t % im.X, t // im.X % im.Y, t // (im.X * im.Y), im.name, got[t * im.px:(t + 1) * im.px].hex(), want[t * im.px:(t + 1) * im.px].hex()), 'texels')

    def op_map(self, s):
        im = s.choice(self.imgs)
        o, reg = self.region(s, im)
        fl = s.choice([1, 2, 3, 4])
        fn = 'clEnqueueMapImage'
        err = C.c_int32(-999)
        rp, sp = C.c_size_t(0x5555), C.c_size_t(0x5555)
        no = (fl & 1 and im.flags & (H_NO | H_WO)) or (fl & 6 and im.flags & (H_NO | H_RO))
        if s.bool(1, 8):
            xo, xr, bad = self.corrupt(s, im, o, reg)
            self.log.append('%s %s origin=%s region=%s flags=%d (invalid: %s)' % (fn, im.name, xo, xr, fl, bad))
            p = raw(fn)(self.c.q, im.mem, 1, fl, szarr(xo), szarr(xr), C.byref(rp), C.byref(sp), 0, None, None, C.byref(err))
            self.failed(err.value, (INVALID_VALUE, INVALID_OP) if no else (INVALID_VALUE,), fn + ' (%s)' % bad)
            if p:
                raise Fail('failed map returned a pointer', 'null result')
            return
        if not self.free(im, fl != 1):
            return
        blk = s.bool(3, 4)
        needslice = im.kind in ('1Da', '2Da', '3D')
        slc = needslice or s.bool()
        self.log.append('%s %s origin=%s region=%s flags=%d%s' % (fn, im.name, o, reg, fl, '' if blk else ' non-blocking'))
        p = raw(fn)(self.c.q, im.mem, blk, fl, szarr(o), szarr(reg), C.byref(rp), C.byref(sp) if slc else None, 0, None, None, C.byref(err))
        if no:
            if fl == 4 and not err.value:
                call('clEnqueueUnmapMemObject', self.c.q, im.mem, p, 0, None, None)
                return
            if p:
                raise Fail('failed map returned a pointer', 'null result')
            return self.failed(err.value, (INVALID_OP,), fn + ' with host access flags')
        if err.value or not p:
            raise Fail('%s returned %s, error %d' % (fn, p, err.value), 'failed command')
        if slc and not needslice and sp.value:
            raise Fail('%s of a %s image gives a slice pitch of %d, expected 0' % (fn, im.kind, sp.value), 'map slice pitch')
        self.finish(fn)
        if im.host:
            if (rp.value, sp.value) != (im.rp, im.sp if needslice else 0) and slc:
                raise Fail('%s of %s gives pitches %d, %d, expected %d, %d' % (fn, im.name, rp.value, sp.value, im.rp, im.sp), 'map pitch')
            at = o[0] * im.px + o[1] * im.ystep + o[2] * im.zstep
            if p != im.host.addr + at:
                raise Fail('map of a CL_MEM_USE_HOST_PTR image is not derived from host_ptr (offset %d, expected %d)' % (p - im.host.addr, at), 'map pointer')
        ys, zs = (sp.value, 0) if im.kind == '1Da' else (rp.value, sp.value)
        n = reg[0] * im.px
        if fl & 1:
            rows = im.get(o, reg)
            for k in range(reg[1] * reg[2]):
                g = C.string_at(p + k // reg[1] * zs + k % reg[1] * ys, n)
                if g != rows[k]:
                    raise Fail('mapped row %d of %s is %s, expected %s' % (k, im.name, g.hex(), rows[k].hex()), 'mapped bytes')
        wr = fl & 6
        if wr:
            new = im.get(o, reg)
            for k in range(len(new)):
                if fl == 4 or s.bool(2, 3):
                    new[k] = self.rnd(n)
                    C.memmove(p + k // reg[1] * zs + k % reg[1] * ys, new[k], n)
            im.put(o, reg, new)
        self.part(im, reg)
        self.done += 1
        im.maps.append(dict(p=p, write=bool(wr)))

    def op_unmap(self, s):
        m = [x for x in self.imgs if x.maps]
        if not m:
            return
        im = s.choice(m)
        e = im.maps.pop(s.draw(len(im.maps)))
        self.log.append('unmap %s' % im.name)
        call('clEnqueueUnmapMemObject', self.c.q, im.mem, e['p'], 0, None, None)
        self.settle(s, False, 'unmap')

    def op_bufwrite(self, s):
        b = s.choice(self.bufs)
        if any(x.maps for x in b.images):
            return
        o = s.draw(len(b.data))
        n = s.range(1, len(b.data) - o)
        d = self.rnd(n)
        self.log.append('write buffer %s offset=%d size=%d' % (b.name, o, n))
        call('clEnqueueWriteBuffer', self.c.q, b.mem, 1, o, n, d, 0, None, None)
        self.finish('write buffer')
        b.data[o:o + n] = d

    # ------------------------------------------------------------------ case
    def case(self, s):
        self.r = random.Random(s.seed())
        self.log, self.imgs, self.bufs, self.hosts, self.pending = [], [], [], [], []
        self.feat, self.done, self.expect_err = set(), 0, 0
        clrt.setenv(NUM_THREADS=1, CHECK_API=None)
        try:
            with clrt.Capture() as cap:
                with clrt.Ctx() as c:
                    self.c = c
                    try:
                        self.history(s, c)
                    except clrt.CLError as e:
                        raise Fail('%s' % e, 'failed command')
            if cap.stdout or cap.stderr:
                raise Fail('unexpected output: %s' % (cap.stdout + cap.stderr)[:600], 'output')
        finally:
            s.desc = '\n'.join(self.log)
            self.c = None
        for f in self.feat:
            s.cls(f)
        s.count('rejected commands', self.expect_err)
        if self.feat and self.done >= 3:
            s.nontrivial()

    def history(self, s, c):
        for k in range(s.range(1, 2)):
            b = Buf('b%d' % k, self.rnd(s.weighted([(1, s.range(1, 300)), (2, s.range(300, 3000))])))
            b.mem = c.buffer(len(b.data), bytes(b.data))
            self.log.append('%s = buffer of %d bytes' % (b.name, len(b.data)))
            self.bufs.append(b)
        while len(self.imgs) < s.range(1, 3):
            self.new_image(s, c)
            for b in self.bufs:
                b.images = [x for x in self.imgs if x.data is b.data]
        ops = [(4, 'read'), (4, 'write'), (4, 'copy'), (2, 'tobuf'), (2, 'toimg'), (2, 'fill'), (3, 'map'), (3, 'unmap'), (1, 'bufwrite'), (1, 'image')]
        for _ in range(s.range(2, 14)):
            op = s.weighted(ops)
            s.cls(op)
            if op in ('read', 'write'):
                self.op_transfer(s, op == 'write')
            elif op == 'copy':
                self.op_copy(s)
            elif op in ('tobuf', 'toimg'):
                self.op_image_buffer(s, op == 'toimg')
            elif op == 'fill':
                self.op_fill(s)
            elif op == 'map':
                self.op_map(s)
            elif op == 'unmap':
                self.op_unmap(s)
            elif op == 'bufwrite':
                self.op_bufwrite(s)
            elif len(self.imgs) < 5:
                self.new_image(s, c)
                for b in self.bufs:
                    b.images = [x for x in self.imgs if x.data is b.data]
        for im in self.imgs:
            while im.maps:
                call('clEnqueueUnmapMemObject', c.q, im.mem, im.maps.pop()['p'], 0, None, None)
        self.finish('at the end')
        for im in self.imgs:
            self.compare(im, self.fetch(im))
        for b in self.bufs:
            d = c.read(b.mem, len(b.data))
            if d != bytes(b.data):
                j = next(j for j in range(len(d)) if d[j] != b.data[j])
                raise Fail('byte %d of buffer %s is %02x, expected %02x' % (j, b.name, d[j], b.data[j]), 'buffer bytes')
        # host memory of images: texels after a map, everything else at any time
        for im, h in self.hosts:
            rp, sp, err = C.c_size_t(), C.c_size_t(), C.c_int32()
            if not im.flags & (H_NO | H_WO):
                p = raw('clEnqueueMapImage')(c.q, im.mem, 1, 1, szarr([0, 0, 0]), szarr([im.X, im.Y, im.Z]), C.byref(rp), C.byref(sp), 0, None, None, C.byref(err))
                if not p:
                    raise Fail('final map failed with %d' % err.value, 'failed command')
                rows = im.get(*im.full())
                for k in range(im.Y * im.Z):
                    a = k // im.Y * im.zstep + k % im.Y * im.ystep
                    h.model[a:a + im.X * im.px] = rows[k]
                h.check('host memory of %s' % im.name)
                call('clEnqueueUnmapMemObject', c.q, im.mem, p, 0, None, None)
                call('clFinish', c.q)
        for im in self.imgs:
            self.query(im)
            call('clReleaseMemObject', im.mem)


CHECK = C15()
