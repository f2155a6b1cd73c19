"""C14: histories of buffer commands against a byte-array model."""
import ctypes as C
import random
import clrt
from clrt import vp, szarr, call, raw, create
from pbt import Check, Fail

INVALID_VALUE, OVERLAP, INVALID_OP, MISALIGNED = -30, -8, -59, -13
RW, WO, RO, USE, ALLOC, COPY = 1, 2, 4, 8, 16, 32
H_WO, H_RO, H_NO = 128, 256, 512
BIG = (1 << 64) - 1

SRC = '''
kernel void put(global uchar *b, uint off, uint n, uchar v) { b[off + get_global_id(0) % n] = v + get_global_id(0); }
kernel void cpy(global const uchar *a, global uchar *b, uint ao, uint bo)
{ size_t i = get_global_id(0); b[bo + i] = a[ao + i]; }
kernel void add4(global uint *a) { a[get_global_id(0)] += 0x01020304u; }
'''


class Store:
    """A root allocation."""

    def __init__(self, data, host=None):
        self.data = bytearray(data)
        self.host = host


class Mem:
    def __init__(self, name, h, store, off, size, flags, parent=None):
        self.name, self.h, self.store, self.off, self.size = name, h, store, off, size
        self.flags, self.parent, self.refs = flags, parent, 1
        self.maps = []

    def get(self, o, n):
        return bytes(self.store.data[self.off + o:self.off + o + n])

    def put(self, o, d):
        assert o + len(d) <= self.size
        self.store.data[self.off + o:self.off + o + len(d)] = d


class Host:
    """Host memory with guards; compared with its model at every quiet point."""
    G = 32

    def __init__(self, data):
        self.n = len(data)
        self.model = bytearray(data)
        self.buf = C.create_string_buffer(b'\x5a' * self.G + bytes(data) + b'\x5a' * self.G, self.n + 2 * self.G)
        self.addr = C.addressof(self.buf) + self.G

    def check(self, what):
        g = self.buf.raw
        w = b'\x5a' * self.G + bytes(self.model) + b'\x5a' * self.G
        if g != w:
            j = next(j for j in range(len(g)) if g[j] != w[j])
            raise Fail('%s: host byte %d is %02x, expected %02x' % (what, j - self.G, g[j], w[j]), 'host bytes')


def rect_bytes(o, r, rp, sp):
    for z in range(r[2]):
        for y in range(r[1]):
            yield (o[2] + z) * sp + (o[1] + y) * rp + o[0]


class C14(Check):
    id = 'C14'
    quick = 24000
    thorough = 400000
    rule = ('a case is one history of commands; non-trivial when at least three commands move data and at least one '
            'of them is other than a plain read or write; distinct by the list of commands')
    assumptions = ['behaviour that OpenCL leaves undefined (commands on regions mapped for writing, overlapping '
                   'kernel accesses, zero-sized transfers) is not generated']

    def init(self):
        clrt.load(self.b + '/liboclgrind-rt.so')

    def case(self, s):
        r = random.Random(s.seed())
        self.r = r
        self.log = []
        s.desc = ''
        env = {}
        if s.bool(1, 6):
            env['CHECK_API'] = True
        if s.bool(1, 8):
            env[s.choice(['UNINITIALIZED', 'DATA_RACES'])] = True
        clrt.setenv(**env)
        self.expect_err = 0
        self.moves = set()
        self.nmove = 0
        with clrt.Capture() as cap:
            c = clrt.Ctx()
            try:
                self.hist(s, c)
            finally:
                s.desc = '\n'.join(self.log)
            c.close()
        if self.nmove >= 3 and self.moves - {'read', 'write'}:
            s.nontrivial(tuple(self.log))
        if cap.out:
            raise Fail('unexpected standard output %r' % cap.out[:500], 'output')
        n = cap.stderr.count('OpenCL runtime error detected')
        if 'CHECK_API' in env:
            if n != self.expect_err:
                raise Fail('%d API errors reported, %d calls failed\n%s' % (n, self.expect_err, cap.stderr[-1500:]), 'api report')
        elif cap.err:
            raise Fail('unexpected messages: %s' % cap.stderr[:1000], 'output')

    # ------------------------------------------------------------ helpers
    def rnd(self, n):
        return self.r.randbytes(n)

    def new_buffer(self, s, c, q):
        size = s.weighted([(33, s.range(1, 64)), (33, s.range(64, 600)), (11, 128 * s.range(1, 6)), (1, s.range(66000, 200000))])
        kind = s.choice(['none', 'copy', 'use', 'alloc', 'copy+alloc'])
        fl = s.weighted([(6, RW), (1, 0), (1, RO), (1, WO)]) | s.weighted([(9, 0), (1, H_WO), (1, H_RO), (1, H_NO)])
        fl |= {'none': 0, 'copy': COPY, 'use': USE, 'alloc': ALLOC, 'copy+alloc': COPY | ALLOC}[kind]
        host = None
        ptr = None
        if 'copy' in kind or kind == 'use':
            host = Host(self.rnd(size))
            ptr = host.addr
        if s.bool(1, 6):
            h = create('clCreateBufferWithProperties', c.ctx, None, fl, size, ptr)
        else:
            h = create('clCreateBuffer', c.ctx, fl, size, ptr)
        name = 'b%d' % len(self.mems)
        self.log.append('%s = create size=%d flags=%#x %s' % (name, size, fl, kind))
        if host:
            data = bytes(host.model)
            if kind == 'use':
                self.usehosts.append(host)
            else:
                # the initial data is copied at creation
                for i in range(size):
                    host.model[i] = 0x77
                C.memmove(host.addr, bytes(host.model), size)
                self.hosts.append(host)
            st = Store(data, host if kind == 'use' else None)
        else:
            # contents unspecified: define them, unless the host may not write
            st = Store(bytes(size))
            data = self.rnd(size)
            if fl & (H_NO | H_RO):
                hb = Host(data)
                m = Mem(name, h, st, 0, size, fl)
                self.patch_fill(c, q, m)
            else:
                hb = Host(data)
                self.hosts.append(hb)
                call('clEnqueueWriteBuffer', q, h, 1, 0, size, hb.addr, 0, None, None)
                st.data[:] = data
        m = Mem(name, h, st, 0, size, fl)
        self.mems.append(m)
        return m

    def patch_fill(self, c, q, m):
        p = C.create_string_buffer(b'\x3c', 1)
        call('clEnqueueFillBuffer', q, m.h, p, 1, 0, m.size, 0, None, None)
        m.put(0, b'\x3c' * m.size)

    def sub_buffer(self, s, m):
        if m.size > 128 and s.bool(3, 4):
            o = 128 * s.draw((m.size - 1) // 128 + 1)
        else:
            o = s.draw(m.size)
        n = s.range(1, m.size - o)
        fl = 0
        if s.bool(1, 3):
            # only flags that do not contradict those of the parent
            fl |= s.choice([0, RO if m.flags & (RO | RW) or not m.flags & 7 else 0])
            if not m.flags & (H_WO | H_RO | H_NO):
                fl |= s.choice([0, H_WO, H_RO, H_NO])
        bad = s.weighted([(12, None), (1, 'big'), (1, 'zero'), (1, 'wrap'), (1, 'type')])
        typ = 0x1220
        ro, rn = o, n
        if bad == 'big':
            rn = m.size - o + s.range(1, 4)
        elif bad == 'zero':
            rn = 0
        elif bad == 'wrap':
            rn = BIG - s.draw(o + 1)
        elif bad == 'type':
            typ = s.choice([0, 0x1221])
        reg = (C.c_size_t * 2)(ro, rn)
        err = C.c_int32(-999)
        h = raw('clCreateSubBuffer')(m.h, fl, typ, reg, C.byref(err))
        name = 'b%d' % len(self.mems)
        self.log.append('%s = sub-buffer of %s origin=%d size=%d flags=%#x' % (name, m.name, ro, rn, fl))
        if m.parent or bad:
            self.failed(err.value, (-38,) if m.parent else (-68, INVALID_VALUE, -61), 'clCreateSubBuffer')
            if h:
                raise Fail('clCreateSubBuffer failed but returned an object', 'null result')
            return
        if o % 128 and err.value == MISALIGNED:
            self.expect_err += 1
            return
        if err.value != 0 or not h:
            raise Fail('clCreateSubBuffer returned %d' % err.value, 'sub')
        f = m.flags
        if fl & 7:
            f = (f & ~7) | (fl & 7)
        if fl & 896:
            f = (f & ~896) | (fl & 896)
        self.mems.append(Mem(name, h, m.store, o, n, f, m))
        self.feat.add('sub-buffer')

    def failed(self, code, want, what):
        self.expect_err += 1
        if code not in want:
            raise Fail('%s returned %d, expected one of %s' % (what, code, want), 'error code')
        if code == 0:
            raise Fail('%s succeeded' % what, 'error code')

    def ok(self, code, what):
        if code != 0:
            raise Fail('%s returned %d' % (what, code), 'valid refused')

    def writable_region(self, m, o, n):
        """No part of this region may be mapped for anything."""
        a = m.off + o
        for x in self.mems:
            if x.store is m.store:
                for (p, mo, mn, fl, hp) in x.maps:
                    if a < x.off + mo + mn and x.off + mo < a + n:
                        return False
        return True

    def readable_region(self, m, o, n):
        a = m.off + o
        for x in self.mems:
            if x.store is m.store:
                for (p, mo, mn, fl, hp) in x.maps:
                    if fl != 1 and a < x.off + mo + mn and x.off + mo < a + n:
                        return False
        return True

    def quiet(self, what):
        """The queue is empty: every host array must equal its model."""
        for h in self.hosts:
            h.check(what)
        for m in self.mems:
            if m.parent is None and m.store.host is not None:
                m.store.host.model[:] = m.store.data
                m.store.host.check(what + ' (memory of a buffer made with CL_MEM_USE_HOST_PTR)')
        self.pend = False

    def finish(self, q):
        call('clFinish', q)
        self.quiet('after clFinish')

    def span(self, s, size):
        o = s.draw(size)
        n = s.range(1, size - o)
        if s.bool(1, 4):
            o, n = 0, size
        return o, n

    def bad_span(self, s, size):
        k = s.draw(4)
        if k == 0:
            return size, s.range(1, 5)
        if k == 1:
            o = s.draw(size)
            return o, size - o + s.range(1, 9)
        if k == 2:
            o = s.range(1, size)
            return o, BIG - s.draw(o)
        return BIG - s.draw(8), s.range(1, 16)

    # ------------------------------------------------------------ the history
    def hist(self, s, c):
        self.mems, self.hosts, self.usehosts, self.keep = [], [], [], []
        self.feat = set()
        self.pend = False
        qs = [c.q]
        if s.bool(1, 4):
            q2 = c.queue(2)
            qs.append(q2)
            c.objs.append(('clReleaseCommandQueue', q2))
        cur = qs[0]
        kern = {}
        for _ in range(s.range(1, 3)):
            self.new_buffer(s, c, cur)
        self.finish(cur)
        for step in range(s.range(3, 16)):
            q = s.choice(qs)
            if q is not cur:
                self.finish(cur)
                cur = q
            live = [m for m in self.mems if m.refs]
            if not live:
                self.new_buffer(s, c, q)
                continue
            m = s.choice(live)
            op = s.weighted([(5, 'read'), (5, 'write'), (4, 'copy'), (3, 'fill'), (4, 'readrect'), (4, 'writerect'),
                             (4, 'copyrect'), (3, 'map'), (3, 'unmap'), (3, 'kernel'), (3, 'sub'), (1, 'new'),
                             (1, 'finish'), (2, 'release'), (1, 'flush'), (1, 'migrate')])
            getattr(self, 'op_' + op)(s, c, q, m, kern)
            s.cls('op ' + op)
        for m in self.mems:
            for (p, mo, mn, fl, hp) in list(m.maps):
                call('clEnqueueUnmapMemObject', cur, m.h, p, 0, None, None)
        self.finish(cur)
        for m in self.mems:
            if not m.refs:
                continue
            if not m.flags & (H_NO | H_WO):
                h = Host(bytes(m.size))
                call('clEnqueueReadBuffer', cur, m.h, 1, 0, m.size, h.addr, 0, None, None)
                h.model[:] = m.get(0, m.size)
                h.check('final contents of %s' % m.name)
            else:
                b = create('clCreateBuffer', c.ctx, RW, m.size, None)
                call('clEnqueueCopyBuffer', cur, m.h, b, 0, 0, m.size, 0, None, None)
                h = Host(bytes(m.size))
                call('clEnqueueReadBuffer', cur, b, 1, 0, m.size, h.addr, 0, None, None)
                h.model[:] = m.get(0, m.size)
                h.check('final contents of %s' % m.name)
                raw('clReleaseMemObject')(b)
        self.quiet('at the end')
        for m in s.shuffle([m for m in self.mems if m.refs]):
            call('clReleaseMemObject', m.h)
        for f in self.feat:
            s.cls(f)

    def done(self, q, blocking, kind):
        self.moves.add(kind)
        self.nmove += 1
        if blocking:
            self.quiet('after a blocking ' + kind)
        else:
            self.pend = True

    def op_new(self, s, c, q, m, kern):
        self.new_buffer(s, c, q)

    def op_finish(self, s, c, q, m, kern):
        self.log.append('finish')
        self.finish(q)

    def op_flush(self, s, c, q, m, kern):
        self.log.append('flush')
        call('clFlush', q)

    def op_migrate(self, s, c, q, m, kern):
        self.log.append('migrate %s' % m.name)
        call('clEnqueueMigrateMemObjects', q, 1, (vp * 1)(m.h), s.choice([0, 1, 2]), 0, None, None)

    def op_release(self, s, c, q, m, kern):
        """Dropping a reference must not affect pending commands or sub-buffers."""
        if m.maps:
            return
        if s.bool(1, 3):
            self.log.append('retain+release %s' % m.name)
            call('clRetainMemObject', m.h)
            call('clReleaseMemObject', m.h)
            return
        if m.store.host is not None and not any(x.refs and x is not m and x.store is m.store for x in self.mems):
            return
        self.log.append('release %s%s' % (m.name, ' with commands pending' if self.pend else ''))
        call('clReleaseMemObject', m.h)
        m.refs = 0
        if self.pend:
            self.feat.add('release while pending')
        if any(x.parent is m and x.refs for x in self.mems):
            self.feat.add('parent released before sub-buffer')

    def op_sub(self, s, c, q, m, kern):
        self.sub_buffer(s, m)

    def op_read(self, s, c, q, m, kern):
        blk = s.bool()
        if s.bool(1, 8):
            o, n = self.bad_span(s, m.size)
            h = Host(self.rnd(64))
            self.hosts.append(h)
            self.log.append('read %s offset=%d size=%d (invalid)' % (m.name, o, n))
            self.failed(raw('clEnqueueReadBuffer')(q, m.h, blk, o, n, h.addr, 0, None, None),
                        (INVALID_VALUE, INVALID_OP), 'clEnqueueReadBuffer')
            return
        o, n = self.span(s, m.size)
        if not self.readable_region(m, o, n):
            return
        ho = s.draw(20)
        h = Host(self.rnd(ho + n + s.draw(20)))
        self.hosts.append(h)
        self.log.append('read %s offset=%d size=%d%s' % (m.name, o, n, '' if blk else ' non-blocking'))
        e = raw('clEnqueueReadBuffer')(q, m.h, blk, o, n, h.addr + ho, 0, None, None)
        if m.flags & (H_NO | H_WO):
            return self.failed(e, (INVALID_OP,), 'read of a buffer the host may not read')
        self.ok(e, 'clEnqueueReadBuffer')
        h.model[ho:ho + n] = m.get(o, n)
        self.done(q, blk, 'read')

    def op_write(self, s, c, q, m, kern):
        blk = s.bool()
        if s.bool(1, 8):
            o, n = self.bad_span(s, m.size)
            h = Host(self.rnd(64))
            self.hosts.append(h)
            self.log.append('write %s offset=%d size=%d (invalid)' % (m.name, o, n))
            self.failed(raw('clEnqueueWriteBuffer')(q, m.h, blk, o, n, h.addr, 0, None, None),
                        (INVALID_VALUE, INVALID_OP), 'clEnqueueWriteBuffer')
            return
        o, n = self.span(s, m.size)
        if not self.writable_region(m, o, n):
            return
        h = Host(self.rnd(n))
        self.hosts.append(h)
        self.log.append('write %s offset=%d size=%d%s' % (m.name, o, n, '' if blk else ' non-blocking'))
        e = raw('clEnqueueWriteBuffer')(q, m.h, blk, o, n, h.addr, 0, None, None)
        if m.flags & (H_NO | H_RO):
            return self.failed(e, (INVALID_OP,), 'write of a buffer the host may not write')
        self.ok(e, 'clEnqueueWriteBuffer')
        m.put(o, bytes(h.model))
        self.done(q, blk, 'write')

    def overlap_rule(self, m, d, overlap):
        """None: undefined here; otherwise the acceptable codes."""
        if m.store is not d.store:
            return (0,)
        if m is d:
            return (OVERLAP,) if overlap else (0,)
        if m.parent and d.parent:
            a = m.off < d.off + d.size and d.off < m.off + m.size
            return (OVERLAP,) if overlap else ((0, OVERLAP) if a else (0,))
        return (OVERLAP,) if overlap else (0, OVERLAP)

    def op_copy(self, s, c, q, m, kern):
        d = s.choice([x for x in self.mems if x.refs])
        if s.bool(1, 8):
            so, n = self.bad_span(s, m.size)
            do = 0
            if s.bool() or n > d.size:
                pass
            self.log.append('copy %s+%d -> %s+%d size=%d (invalid)' % (m.name, so, d.name, do, n))
            self.failed(raw('clEnqueueCopyBuffer')(q, m.h, d.h, so, do, n, 0, None, None), (INVALID_VALUE,), 'clEnqueueCopyBuffer')
            dn = d.size
            do, n = self.bad_span(s, dn)
            self.log.append('copy %s+0 -> %s+%d size=%d (invalid)' % (m.name, d.name, do, n))
            self.failed(raw('clEnqueueCopyBuffer')(q, m.h, d.h, 0, do, n, 0, None, None), (INVALID_VALUE,), 'clEnqueueCopyBuffer')
            return
        n = s.range(1, min(m.size, d.size))
        so, do = s.draw(m.size - n + 1), s.draw(d.size - n + 1)
        if not self.readable_region(m, so, n) or not self.writable_region(d, do, n):
            return
        ov = m.store is d.store and m.off + so < d.off + do + n and d.off + do < m.off + so + n
        want = self.overlap_rule(m, d, ov)
        self.log.append('copy %s+%d -> %s+%d size=%d' % (m.name, so, d.name, do, n))
        e = raw('clEnqueueCopyBuffer')(q, m.h, d.h, so, do, n, 0, None, None)
        if e not in want:
            raise Fail('clEnqueueCopyBuffer returned %d, expected one of %s' % (e, want), 'overlap')
        if e:
            self.expect_err += 1
            self.feat.add('overlapping copy')
            return
        d.put(do, m.get(so, n))
        self.done(q, False, 'copy')

    def op_fill(self, s, c, q, m, kern):
        ps = 1 << s.draw(8)
        if ps > m.size:
            ps = 1
        pat = self.rnd(ps)
        pb = C.create_string_buffer(pat, ps)
        k = m.size // ps
        o = s.draw(k)
        n = s.range(1, k - o)
        o, n = o * ps, n * ps
        bad = s.weighted([(9, None), (1, 'span'), (1, 'offset'), (1, 'size'), (1, 'null'), (1, 'psize')])
        if bad == 'span':
            o, n = self.bad_span(s, m.size)
            if ps > 1:
                o, n = o // ps * ps, m.size // ps * ps + ps
            if o <= m.size and n <= m.size - o:
                return
        elif bad == 'offset':
            if ps == 1 or n + o + 1 > m.size:
                return
            o += 1
        elif bad == 'size':
            if ps == 1 or n + o + 1 > m.size:
                return
            n += 1
        elif not self.writable_region(m, o, n):
            return
        self.log.append('fill %s pattern=%d offset=%d size=%d%s' % (m.name, ps, o, n, ' (invalid)' if bad else ''))
        e = raw('clEnqueueFillBuffer')(q, m.h, None if bad == 'null' else pb, 0 if bad == 'psize' else ps, o, n, 0, None, None)
        if bad:
            return self.failed(e, (INVALID_VALUE,), 'clEnqueueFillBuffer')
        # the pattern may be reused at once
        C.memset(pb, 0x99, ps)
        self.ok(e, 'clEnqueueFillBuffer')
        m.put(o, pat * (n // ps))
        self.done(q, False, 'fill')

    def rect(self, s, size):
        """origin, region, row pitch, slice pitch (0 allowed), effective pitches, end"""
        reg = [s.range(1, min(size, 12)), s.range(1, 4), s.range(1, 3)]
        return self.rect_for(s, size, reg)

    def rect_for(self, s, size, reg):
        rp = s.weighted([(2, 0), (3, reg[0] + s.draw(6))])
        erp = rp or reg[0]
        sp = s.weighted([(2, 0), (3, erp * (reg[1] + s.draw(3)))])
        esp = sp or erp * reg[1]
        o = [0, 0, 0]
        end = reg[0] + (reg[1] - 1) * erp + (reg[2] - 1) * esp
        left = size - end
        if left > 0:
            o[0] = s.draw(min(left, 8) + 1)
            left -= o[0]
            o[1] = s.draw(min(left // erp, 3) + 1)
            left -= o[1] * erp
            o[2] = s.draw(min(left // esp, 2) + 1)
        end += o[0] + o[1] * erp + o[2] * esp
        return o, reg, rp, sp, erp, esp, end

    def op_readrect(self, s, c, q, m, kern, write=False):
        fn = 'clEnqueueWriteBufferRect' if write else 'clEnqueueReadBufferRect'
        o, reg, rp, sp, erp, esp, end = self.rect(s, m.size)
        ho, _, hrp, hsp, herp, hesp, hend = self.rect_for(s, 400, reg)
        blk = s.bool()
        bad = None
        if s.bool(1, 8):
            bad = s.choice(['zero', 'pitch', 'hpitch', 'far', 'wrap', 'slice'])
        if end > m.size:
            bad = bad or 'bounds'
        h = Host(self.rnd(hend + s.draw(8)))
        self.hosts.append(h)
        breg = list(reg)
        if bad == 'zero':
            breg[s.draw(3)] = 0
        elif bad == 'pitch':
            if reg[0] < 2:
                return
            rp = s.range(1, reg[0] - 1)
        elif bad == 'hpitch':
            if reg[0] < 2:
                return
            hrp = s.range(1, reg[0] - 1)
        elif bad == 'far':
            o = list(o)
            k = s.draw(3)
            o[k] += m.size // [1, erp, esp][k] + 1
        elif bad == 'wrap':
            # the last byte of the region wraps around the address space
            o = [0, 0, 0]
            if esp > 1 and s.bool():
                o[2] = (1 << 64) // esp
            else:
                o[0] = BIG - s.draw(reg[0])
        elif bad == 'slice':
            if reg[1] < 2 or erp < 2:
                return
            sp = erp * (reg[1] - 1) + 1
        what = '%s %s origin=%s host_origin=%s region=%s pitches=%d,%d host pitches=%d,%d%s%s' % (
            'writerect' if write else 'readrect', m.name, o, ho, breg, rp, sp, hrp, hsp, '' if blk else ' non-blocking',
            ' (invalid: %s)' % bad if bad else '')
        if not bad:
            if not (self.writable_region if write else self.readable_region)(m, 0, m.size):
                return
        self.log.append(what)
        e = raw(fn)(q, m.h, blk, szarr(o), szarr(ho), szarr(breg), rp, sp, hrp, hsp, h.addr, 0, None, None)
        noacc = m.flags & (H_NO | (H_RO if write else H_WO))
        if bad or noacc:
            codes = ((INVALID_VALUE,) if bad else ()) + ((INVALID_OP,) if noacc else ())
            return self.failed(e, codes, fn)
        self.ok(e, fn)
        n = reg[0]
        for a, b in zip(rect_bytes(o, reg, erp, esp), rect_bytes(ho, reg, herp, hesp)):
            if write:
                m.put(a, bytes(h.model[b:b + n]))
            else:
                h.model[b:b + n] = m.get(a, n)
        self.done(q, blk, 'writerect' if write else 'readrect')

    def op_writerect(self, s, c, q, m, kern):
        self.op_readrect(s, c, q, m, kern, True)

    def op_copyrect(self, s, c, q, m, kern):
        d = s.choice([x for x in self.mems if x.refs])
        o, reg, rp, sp, erp, esp, end = self.rect(s, m.size)
        if d is m and s.bool(9, 10):
            do, drp, dsp, derp, desp = [0, 0, 0], rp, sp, erp, esp
            dend = reg[0] + (reg[1] - 1) * erp + (reg[2] - 1) * esp
            left = d.size - dend
            if left > 0:
                do[0] = s.draw(left + 1)
                dend += do[0]
        else:
            do, _, drp, dsp, derp, desp, dend = self.rect_for(s, d.size, reg)
        bad = None
        if end > m.size or dend > d.size:
            bad = 'bounds'
        elif s.bool(1, 10):
            bad = s.choice(['zero', 'pitch', 'wrap'])
        breg = list(reg)
        if bad == 'zero':
            breg[s.draw(3)] = 0
        elif bad == 'pitch':
            if reg[0] < 2:
                return
            if s.bool():
                rp = s.range(1, reg[0] - 1)
            else:
                drp = s.range(1, reg[0] - 1)
        elif bad == 'wrap':
            if s.bool():
                o = [BIG - s.draw(reg[0]), 0, 0]
            else:
                do = [BIG - s.draw(reg[0]), 0, 0]
        codes = None
        if not bad:
            if not self.readable_region(m, 0, m.size) or not self.writable_region(d, 0, d.size):
                return
            n = reg[0]
            src = list(rect_bytes(o, reg, erp, esp))
            dst = list(rect_bytes(do, reg, derp, desp))
            codes = (0,)
            if m.store is d.store:
                A = {m.off + x + j for x in src for j in range(n)}
                B = {d.off + x + j for x in dst for j in range(n)}
                if len(B) != len(dst) * n:
                    return
                ov = bool(A & B)
                if m is d and (erp, esp) != (derp, desp):
                    codes = (INVALID_VALUE,) + ((OVERLAP,) if ov else ())
                elif ov and (erp, esp) != (derp, desp):
                    return   # overlapping sub-buffers with different pitches
                else:
                    # the specified test is conservative
                    a, b = m.off + src[0], d.off + dst[0]
                    ext = src[-1] + n - src[0]
                    sep = a + ext <= b or b + ext <= a
                    codes = (OVERLAP,) if ov else (0,) if sep and (m is d or not (m.parent and d.parent)) else (0, OVERLAP)
        self.log.append('copyrect %s->%s src=%s dst=%s region=%s pitches=%d,%d / %d,%d%s' % (
            m.name, d.name, o, do, breg, rp, sp, drp, dsp, ' (invalid: %s)' % bad if bad else ''))
        e = raw('clEnqueueCopyBufferRect')(q, m.h, d.h, szarr(o), szarr(do), szarr(breg), rp, sp, drp, dsp, 0, None, None)
        if bad:
            return self.failed(e, (INVALID_VALUE,), 'clEnqueueCopyBufferRect')
        if e not in codes:
            raise Fail('clEnqueueCopyBufferRect returned %d, expected one of %s' % (e, codes), 'overlap')
        if e:
            self.expect_err += 1
            return
        data = [m.get(x, n) for x in src]
        for x, v in zip(dst, data):
            d.put(x, v)
        self.done(q, False, 'copyrect')

    def op_map(self, s, c, q, m, kern):
        if s.bool(1, 8):
            o, n = self.bad_span(s, m.size)
            err = C.c_int32(-999)
            self.log.append('map %s offset=%d size=%d (invalid)' % (m.name, o, n))
            p = raw('clEnqueueMapBuffer')(q, m.h, 1, 1, o, n, 0, None, None, C.byref(err))
            self.failed(err.value, (INVALID_VALUE, INVALID_OP), 'clEnqueueMapBuffer')
            if p:
                raise Fail('failed map returned a pointer', 'null result')
            return
        o, n = self.span(s, m.size)
        fl = s.choice([1, 2, 3, 4])
        if not (self.readable_region if fl == 1 else self.writable_region)(m, o, n):
            return
        blk = s.bool(3, 4)
        err = C.c_int32(-999)
        self.log.append('map %s offset=%d size=%d flags=%d%s' % (m.name, o, n, fl, '' if blk else ' non-blocking'))
        p = raw('clEnqueueMapBuffer')(q, m.h, blk, fl, o, n, 0, None, None, C.byref(err))
        no = (fl & 1 and m.flags & (H_NO | H_WO)) or (fl & 6 and m.flags & (H_NO | H_RO))
        if no and fl != 4:
            if p:
                raise Fail('failed map returned a pointer', 'null result')
            return self.failed(err.value, (INVALID_OP,), 'map of a buffer with host access flags')
        if fl == 4 and no:
            if err.value:
                self.expect_err += 1
                return
        self.ok(err.value, 'clEnqueueMapBuffer')
        if m.store.host is not None and p != m.store.host.addr + m.off + o:
            raise Fail('pointer returned by a map of a CL_MEM_USE_HOST_PTR buffer is not derived from host_ptr', 'map pointer')
        if not blk:
            call('clFinish', q)
        self.quiet('after a map')
        if fl & 1:
            got = C.string_at(p, n)
            if got != m.get(o, n):
                raise Fail('mapped bytes of %s are %s, expected %s' % (m.name, got.hex(), m.get(o, n).hex()), 'mapped bytes')
        if fl & 6:
            # the host writes through the pointer
            a = s.draw(n)
            k = s.range(1, n - a)
            if fl == 4:
                a, k = 0, n
            data = self.rnd(k)
            C.memmove(p + a, data, k)
            m.put(o + a, data)
        m.maps.append((p, o, n, fl, None))
        self.done(q, True, 'map')

    def op_unmap(self, s, c, q, m, kern):
        ms = [x for x in self.mems if x.maps]
        if not ms:
            return
        m = s.choice(ms)
        e = m.maps.pop(s.draw(len(m.maps)))
        self.log.append('unmap %s offset=%d' % (m.name, e[1]))
        call('clEnqueueUnmapMemObject', q, m.h, e[0], 0, None, None)
        self.pend = True
        self.feat.add('unmap')

    def op_kernel(self, s, c, q, m, kern):
        if not kern:
            p = c.program(SRC, s.choice(['', '-cl-opt-disable']))
            for n in ('put', 'cpy', 'add4'):
                kern[n] = c.kernel(p, n)
        k = s.choice(['put', 'cpy', 'add4'])
        i4 = lambda v: ('b', v.to_bytes(4, 'little'))
        if k == 'put':
            o, n = self.span(s, m.size)
            n = min(n, 40)
            if m.flags & RO or not self.writable_region(m, o, n):
                return
            v = self.r.randrange(256)
            c.setargs(kern[k], [('m', m.h), i4(o), i4(n), ('b', bytes([v]))])
            m.put(o, bytes((v + i) & 255 for i in range(n)))
        elif k == 'cpy':
            d = s.choice([x for x in self.mems if x.refs])
            n = min(s.range(1, min(m.size, d.size)), 40)
            ao, bo = s.draw(m.size - n + 1), s.draw(d.size - n + 1)
            if m.flags & WO or d.flags & RO or m.store is d.store:
                return
            if not self.readable_region(m, ao, n) or not self.writable_region(d, bo, n):
                return
            c.setargs(kern[k], [('m', m.h), ('m', d.h), i4(ao), i4(bo)])
            d.put(bo, m.get(ao, n))
        else:
            n = min(m.size // 4, 20)
            if n < 1 or m.flags & (RO | WO) or not self.writable_region(m, 0, n * 4) or m.off % 4:
                return
            c.setargs(kern[k], [('m', m.h)])
            for i in range(n):
                v = int.from_bytes(m.get(i * 4, 4), 'little')
                m.put(i * 4, ((v + 0x01020304) & 0xffffffff).to_bytes(4, 'little'))
        self.log.append('kernel %s on %s (%d items)' % (k, m.name, n))
        call('clEnqueueNDRangeKernel', q, kern[k], 1, None, szarr([n]), None, 0, None, None)
        self.done(q, False, 'kernel')


CHECK = C14()
