"""C18: a single invalid argument is refused with a specified error and changes nothing."""
import ctypes as C
import os
import re
import clrt
from clrt import vp, szarr, parr, call, raw, create, PROGCB, NOTIFY, MEMCB, EVCB, NATIVE
from pbt import Check, Fail

u32, i32, u64, sz = C.c_uint32, C.c_int32, C.c_uint64, C.c_size_t
U64 = (1 << 64) - 1
NAMES = {
    -1: 'DEVICE_NOT_FOUND', -5: 'OUT_OF_RESOURCES', -7: 'PROFILING_INFO_NOT_AVAILABLE', -8: 'MEM_COPY_OVERLAP', -9: 'IMAGE_FORMAT_MISMATCH', -10: 'IMAGE_FORMAT_NOT_SUPPORTED',
    -11: 'BUILD_PROGRAM_FAILURE', -13: 'MISALIGNED_SUB_BUFFER_OFFSET', -14: 'EXEC_STATUS_ERROR_FOR_EVENTS_IN_WAIT_LIST', -15: 'COMPILE_PROGRAM_FAILURE', -17: 'LINK_PROGRAM_FAILURE',
    -18: 'DEVICE_PARTITION_FAILED', -30: 'INVALID_VALUE', -31: 'INVALID_DEVICE_TYPE', -32: 'INVALID_PLATFORM', -33: 'INVALID_DEVICE', -34: 'INVALID_CONTEXT', -35: 'INVALID_QUEUE_PROPERTIES',
    -36: 'INVALID_COMMAND_QUEUE', -37: 'INVALID_HOST_PTR', -38: 'INVALID_MEM_OBJECT', -39: 'INVALID_IMAGE_FORMAT_DESCRIPTOR', -40: 'INVALID_IMAGE_SIZE', -41: 'INVALID_SAMPLER',
    -42: 'INVALID_BINARY', -43: 'INVALID_BUILD_OPTIONS', -44: 'INVALID_PROGRAM', -45: 'INVALID_PROGRAM_EXECUTABLE', -46: 'INVALID_KERNEL_NAME', -48: 'INVALID_KERNEL', -49: 'INVALID_ARG_INDEX',
    -50: 'INVALID_ARG_VALUE', -51: 'INVALID_ARG_SIZE', -52: 'INVALID_KERNEL_ARGS', -53: 'INVALID_WORK_DIMENSION', -54: 'INVALID_WORK_GROUP_SIZE', -55: 'INVALID_WORK_ITEM_SIZE',
    -56: 'INVALID_GLOBAL_OFFSET', -57: 'INVALID_EVENT_WAIT_LIST', -58: 'INVALID_EVENT', -59: 'INVALID_OPERATION', -61: 'INVALID_BUFFER_SIZE', -64: 'INVALID_PROPERTY',
    -65: 'INVALID_IMAGE_DESCRIPTOR', -66: 'INVALID_COMPILER_OPTIONS', -67: 'INVALID_LINKER_OPTIONS', -12: 'MAP_FAILURE', -19: 'KERNEL_ARG_INFO_NOT_AVAILABLE', -63: 'INVALID_GLOBAL_WORK_SIZE'}
SRC = b"""
kernel void kbuf(global int *a, int b) { a[get_global_id(0)] += b; }
kernel void kmix(global int *g, constant int *c, local int *l, int s, float4 v, read_only image2d_t i, sampler_t sm)
{ l[get_local_id(0)] = c[0] + s; g[get_global_id(0)] += l[get_local_id(0)] + (int)v.x + (int)read_imagef(i, sm, (int2)(0, 0)).x; }
kernel __attribute__((reqd_work_group_size(4, 1, 1))) void kreq(global int *a) { a[get_global_id(0)] += 3; }
kernel void kloc(global int *g, local char *l) { l[get_local_id(0)] = 1; g[get_global_id(0)] += l[get_local_id(0)]; }
"""
INFO = {
    'clGetContextInfo': (0x1080, [0x1080, 0x1081, 0x1082, 0x1083]),
    'clGetCommandQueueInfo': (0x1092, [0x1090, 0x1091, 0x1092, 0x1093]),
    'clGetMemObjectInfo': (0x1105, [0x1100, 0x1101, 0x1102, 0x1103, 0x1104, 0x1105, 0x1106, 0x1107, 0x1108]),
    'clGetSamplerInfo': (0x1150, [0x1150, 0x1151, 0x1152, 0x1153, 0x1154]),
    'clGetProgramInfo': (0x1160, [0x1160, 0x1161, 0x1162, 0x1163, 0x1164, 0x1165, 0x1167, 0x1168]),
    'clGetKernelInfo': (0x1192, [0x1190, 0x1191, 0x1192, 0x1193, 0x1194]),
    'clGetEventInfo': (0x11D2, [0x11D0, 0x11D1, 0x11D2, 0x11D3, 0x11D4]),
}
DEVINFO = list(range(0x1000, 0x1012)) + list(range(0x1014, 0x1034)) + list(range(0x1034, 0x104F))
WL = 'nw wl ev'

_nop_ctx = C.CFUNCTYPE(None, vp, vp)(lambda a, b: None)
_nop_prog = PROGCB(lambda a, b: None)
_nop_nat = NATIVE(lambda a: None)
_nop_ev = EVCB(lambda a, b, c: None)


class Desc(C.Structure):
    _fields_ = [('type', u32), ('w', sz), ('h', sz), ('d', sz), ('a', sz), ('rp', sz), ('sp', sz), ('mip', u32), ('ns', u32), ('buf', vp)]


def fmt(o, t):
    return (u32 * 2)(o, t)


def region(o, n):
    return (sz * 2)(o, n)


class World:
    pass


class C18(Check):
    id = 'C18'
    quick = 18000
    thorough = 250000
    case_timeout = 60
    rule = ('a case is a set of objects in two contexts and five to twelve API calls, each valid or with exactly one invalid argument; non-trivial when at least one invalid call was '
            'refused and the state before and after compared; distinct by the calls')
    assumptions = ['invalid handles are NULL, handles of another context or of another kind of object; dangling pointers are not passed',
                   'where the specification lists several codes for the same mistake, any of them is accepted',
                   'the value left in param_value_size_ret by a refused query is not judged',
                   'whether a size of zero is refused by read, write and copy commands, and zero or NULL global sizes, is not judged (versions differ)']

    def init(self):
        clrt.load(self.b + '/liboclgrind-rt.so')
        self.plat, self.dev = clrt.device()
        self.fns = sorted(n[2:] for n in dir(self) if n.startswith('p_'))
        self.weights = [(3 if n.startswith('clEnqueue') else 1 if n in ('clBuildProgram', 'clCompileProgram', 'clLinkProgram') else 2, n) for n in self.fns]

    # ------------------------------------------------------------ the objects
    def context(self, w, src):
        x = World()
        d = parr([self.dev])
        x.notes = []

        def note(msg, a, b, c, notes=x.notes):
            notes.append(C.string_at(msg).decode('latin1'))
        x.fn = NOTIFY(note)
        x.ctx = create('clCreateContext', None, 1, d, x.fn, None)
        w.objs.append(('Context', x.ctx))
        x.q = create('clCreateCommandQueue', x.ctx, self.dev, 0)
        w.objs.append(('CommandQueue', x.q))
        x.sq = create('clCreateCommandQueue', x.ctx, self.dev, 0)
        w.objs.append(('CommandQueue', x.sq))
        return x

    def buf(self, w, x, flags, size, host=None):
        b = create('clCreateBuffer', x.ctx, flags, size, host)
        w.objs.append(('MemObject', b))
        return b

    def img(self, w, x, type, order, ct, dims, flags=1):
        d = Desc(type, *(list(dims) + [0] * (4 - len(dims))), 0, 0, 0, 0, None)
        n = dims[0] * max(1, dims[1] if len(dims) > 1 else 1) * max(1, dims[2] if len(dims) > 2 else 1) * max(1, dims[3] if len(dims) > 3 else 1)
        data = bytes((7 * k + 3) & 0x3f for k in range(n * 4))
        i = create('clCreateImage', x.ctx, flags | 32, fmt(order, ct), C.byref(d), C.cast(C.c_char_p(data), vp))
        w.objs.append(('MemObject', i))
        w.imgs.append((i, [v or 1 for v in ((dims + (0,) * 4)[:2] + ((dims + (0,) * 4)[2] or (dims + (0,) * 4)[3],))], n * 4, flags))
        return i

    def world(self, s):
        w = World()
        w.objs, w.imgs, w.tmp, w.keep = [], [], [], []
        A = w.A = self.context(w, SRC)
        B = w.B = self.context(w, SRC)
        A.qp = create('clCreateCommandQueue', A.ctx, self.dev, 3)
        w.objs.append(('CommandQueue', A.qp))
        A.rw = self.buf(w, A, 1, 256)
        A.rw2 = self.buf(w, A, 1, 256)
        A.hro = self.buf(w, A, 1 | 256, 128)
        A.hwo = self.buf(w, A, 1 | 128, 128)
        A.hna = self.buf(w, A, 1 | 512, 128)
        A.ro = self.buf(w, A, 4, 128)
        A.wo = self.buf(w, A, 2, 128)
        A.host = C.create_string_buffer(bytes(range(128)), 128)
        A.uhp = self.buf(w, A, 1 | 8, 128, A.host)
        r = region(128, 64)
        A.sub = create('clCreateSubBuffer', A.rw, 1, 0x1220, r)
        w.objs.append(('MemObject', A.sub))
        A.i2 = self.img(w, A, 0x10F1, 0x10B5, 0x10D2, (8, 6))
        A.i2b = self.img(w, A, 0x10F1, 0x10B5, 0x10D2, (8, 6))
        A.i2f = self.img(w, A, 0x10F1, 0x10B0, 0x10DE, (8, 6))
        A.i3 = self.img(w, A, 0x10F2, 0x10B5, 0x10D2, (4, 3, 2))
        A.ia = self.img(w, A, 0x10F3, 0x10B5, 0x10D2, (4, 3, 0, 2))
        A.i1 = self.img(w, A, 0x10F4, 0x10B5, 0x10D2, (9,))
        A.ihna = self.img(w, A, 0x10F1, 0x10B5, 0x10D2, (4, 4), 1 | 512)
        A.ihro = self.img(w, A, 0x10F1, 0x10B5, 0x10D2, (4, 4), 1 | 256)
        A.ihwo = self.img(w, A, 0x10F1, 0x10B5, 0x10D2, (4, 4), 1 | 128)
        B.rw = self.buf(w, B, 1, 256)
        nA = len(w.imgs)
        B.i2 = self.img(w, B, 0x10F1, 0x10B5, 0x10D2, (8, 6))
        del w.imgs[nA:]
        for x in (A, B):
            x.samp = create('clCreateSampler', x.ctx, 0, 0x1130, 0x1140)
            w.objs.append(('Sampler', x.samp))
            p = (C.c_char_p * 1)(SRC)
            x.prog = create('clCreateProgramWithSource', x.ctx, 1, p, None)
            w.objs.append(('Program', x.prog))
            call('clBuildProgram', x.prog, 0, None, b'', PROGCB(0), None)
            for k in ('kbuf', 'kmix', 'kreq', 'kloc'):
                h = create('clCreateKernel', x.prog, k.encode())
                setattr(x, k, h)
                w.objs.append(('Kernel', h))
            x.uev = create('clCreateUserEvent', x.ctx)
            w.objs.append(('Event', x.uev))
            x.done = create('clCreateUserEvent', x.ctx)
            w.objs.append(('Event', x.done))
            call('clSetUserEventStatus', x.done, 0)
            h, v = vp(x.rw), i32(5)
            call('clSetKernelArg', x.kbuf, 0, 8, C.byref(h))
            call('clSetKernelArg', x.kbuf, 1, 4, C.byref(v))
            call('clSetKernelArg', x.kreq, 0, 8, C.byref(h))
        A.unset = create('clCreateKernel', A.prog, b'kbuf')
        w.objs.append(('Kernel', A.unset))
        h = vp(A.rw)
        call('clSetKernelArg', A.unset, 0, 8, C.byref(h))
        call('clSetKernelArg', A.kloc, 0, 8, C.byref(h))
        call('clSetKernelArg', A.kloc, 1, 1 << 20, None)
        A.failed = create('clCreateUserEvent', A.ctx)
        w.objs.append(('Event', A.failed))
        call('clSetUserEventStatus', A.failed, -5)
        for n, src in (('unbuilt', SRC), ('bad', b'kernel void f(')):
            p = (C.c_char_p * 1)(src)
            h = create('clCreateProgramWithSource', A.ctx, 1, p, None)
            setattr(A, n, h)
            w.objs.append(('Program', h))
        raw('clBuildProgram')(A.bad, 0, None, b'', PROGCB(0), None)
        e = vp()
        call('clEnqueueMarkerWithWaitList', A.qp, 0, None, C.byref(e))
        call('clFinish', A.qp)
        A.prof = e.value
        w.objs.append(('Event', A.prof))
        call('clEnqueueMarkerWithWaitList', A.q, 0, None, C.byref(e))
        call('clFinish', A.q)
        A.noprof = e.value
        w.objs.append(('Event', A.noprof))
        w.mem = C.create_string_buffer(bytes((11 * k) & 255 for k in range(1024)), 1024)
        w.snapbuf = self.buf(w, A, 1, 4096)
        w.snapB = self.buf(w, B, 1, 256)
        w.bufs = [(A.rw, 256), (A.rw2, 256), (A.hro, 128), (A.hwo, 128), (A.hna, 128), (A.ro, 128), (A.wo, 128), (A.uhp, 128)]
        for k, (b, n) in enumerate(w.bufs):
            if k in (0, 1):
                d = bytes((5 * j + k) & 255 for j in range(n))
                call('clEnqueueWriteBuffer', A.q, b, 1, 0, n, C.cast(C.c_char_p(d), vp), 0, None, None)
        return w

    def close(self, w):
        for f in reversed(w.tmp):
            f()
        for kind, h in reversed(w.objs):
            raw('clRelease' + kind)(h)

    def refs(self, w):
        out = []
        for kind, h in w.objs:
            g = 'clGet%sInfo' % kind
            v = u32()
            call(g, h, INFO[g][0], 4, C.byref(v), None)
            out.append((kind, h, v.value))
            if kind == 'Event':
                v = i32()
                call(g, h, 0x11D3, 4, C.byref(v), None)
                out.append(('status', h, v.value))
        return out

    def snap(self, w):
        A = w.A
        refs = self.refs(w)
        off = 0
        for b, n in w.bufs:
            call('clEnqueueCopyBuffer', A.sq, b, w.snapbuf, 0, off, n, 0, None, None)
            off += n
        for i, r, n, f in w.imgs:
            call('clEnqueueCopyImageToBuffer', A.sq, i, w.snapbuf, szarr([0, 0, 0]), szarr(r), off, 0, None, None)
            off += n
        out = C.create_string_buffer(off)
        call('clEnqueueReadBuffer', A.sq, w.snapbuf, 1, 0, off, out, 0, None, None)
        outb = C.create_string_buffer(256)
        call('clEnqueueReadBuffer', w.B.sq, w.B.rw, 1, 0, 256, outb, 0, None, None)
        return refs, out.raw, outb.raw, w.mem.raw, A.host.raw

    # ------------------------------------------------------------ pieces of argument lists
    def wl(self, s, w):
        """A valid wait list and event output"""
        w.ev = vp(0x5a5a5a5a)
        d = {'nw': 0, 'wl': None, 'ev': C.byref(w.ev) if s.bool() else None}
        if s.bool(1, 3):
            d['nw'], d['wl'] = 2, parr([w.A.done, w.A.done])
        return d

    def wl_bad(self, w, blocking=None):
        A, B = w.A, w.B
        r = [('wait list NULL', {'nw': 1, 'wl': None}, [-57]), ('wait list without count', {'nw': 0, 'wl': parr([A.done])}, [-57]),
             ('NULL event in wait list', {'nw': 2, 'wl': parr([A.done, None])}, [-57]), ('event of another context', {'nw': 2, 'wl': parr([A.done, B.done])}, [-34])]
        if blocking:
            r.append(('blocking with a failed event', {blocking: 1, 'nw': 1, 'wl': parr([A.failed])}, [-14]))
        return r

    def q_bad(self, w):
        return [('queue NULL', {'q': None}, [-36]), ('queue of another context', {'q': w.B.q, 'nw': 0, 'wl': None}, [-34])]

    def mem_bad(self, w, name, image):
        r = [('%s NULL' % name, {name: None}, [-38])]
        if image:
            r += [('%s is a buffer' % name, {name: w.A.rw}, [-38]), ('%s of another context' % name, {name: w.B.i2}, [-34])]
        else:
            r += [('%s is an image' % name, {name: w.A.i2}, [-38]), ('%s of another context' % name, {name: w.B.rw}, [-34])]
        return r

    def oob(self, s, size):
        """offset, length outside [0, size)"""
        k = s.draw(5)
        if k == 0:
            return size + s.range(1, 40), s.range(1, 8)
        if k == 1:
            o = s.draw(size)
            return o, size - o + s.range(1, 40)
        if k == 2:
            return U64 - s.draw(8), s.range(1, 16)
        if k == 3:
            return s.draw(size), U64 - s.draw(size)
        return size, 1 + s.draw(4)

    def ptr(self, w, off=0):
        return C.cast(C.addressof(w.mem) + off, vp)

    # ------------------------------------------------------------ platform, device, context
    def p_clGetPlatformIDs(self, s, w):
        o, n = parr([None, None]), u32()
        w.keep += [o, n]
        return 'n ids num', {'n': 1 + s.draw(2), 'ids': o, 'num': C.byref(n) if s.bool() else None}, [('no room', {'n': 0}, [-30]), ('nothing asked', {'ids': None, 'num': None}, [-30])]

    def info(self, s, w, fn, obj, params, codes, extra=(), more=()):
        """Query of a valid parameter, its size asked first"""
        p = s.choice(params)
        n = sz()
        pre = [v for _, v in more]
        r = raw(fn)(obj, *pre[:0], p, 0, None, C.byref(n)) if not more else raw(fn)(obj, *pre, p, 0, None, C.byref(n))
        if r != 0:
            raise Fail('%s(0x%x) size query returns %d' % (fn, p, r), fn + ':size')
        w.out = C.create_string_buffer(b'\xa5' * (n.value + 64), n.value + 64)
        w.sret = sz(0x1234)
        base = {'o': obj, 'p': p, 'n': n.value + s.choice([0, 0, 1, 40]), 'v': w.out, 'r': C.byref(w.sret) if s.bool() else None}
        bad = [('object NULL', {'o': None}, codes), ('unknown parameter', {'p': 0xFFF0 + s.draw(15)}, [-30])]
        if n.value:
            bad.append(('size too small', {'n': s.draw(n.value)}, [-30]))
        names = 'o p n v r'
        if more:
            names = 'o ' + ' '.join(k for k, _ in more) + ' p n v r'
            base.update(dict(more))
        return names, base, bad + list(extra)

    def p_clGetPlatformInfo(self, s, w):
        n, b, bad = self.info(s, w, 'clGetPlatformInfo', self.plat, list(range(0x0900, 0x0905)) + [0x0906, 0x0907, 0x0920], [-32])
        return n, b, [x for x in bad if x[0] != 'object NULL'] + [('platform is a device', {'o': self.dev}, [-32])]

    def p_clGetDeviceIDs(self, s, w):
        o, n = parr([None, None]), u32()
        w.keep += [o, n]
        return ('p t n ids num', {'p': s.choice([self.plat, None]), 't': s.choice([1, 2, 4, 8, 0xFFFFFFFF, 6]), 'n': 1 + s.draw(2), 'ids': o, 'num': C.byref(n) if s.bool() else None},
                [('no room', {'n': 0}, [-30]), ('nothing asked', {'ids': None, 'num': None}, [-30]), ('no such type', {'t': 16}, [-1]), ('type 0', {'t': 0}, [-31]),
                 ('unknown type', {'t': 1 << 20}, [-31]), ('platform is a device', {'p': self.dev}, [-32])])

    def p_clGetDeviceInfo(self, s, w):
        return self.info(s, w, 'clGetDeviceInfo', self.dev, DEVINFO, [-33], [('device is a platform', {'o': self.plat}, [-33])])

    def p_clRetainDevice(self, s, w):
        return 'o', {'o': self.dev}, [('device NULL', {'o': None}, [-33])]
    p_clReleaseDevice = p_clRetainDevice

    def p_clCreateSubDevices(self, s, w):
        o, n = parr([None] * 4), u32()
        w.keep += [o, n]
        props = (C.c_ssize_t * 3)(0x1086, 1, 0)
        return ('d p n o num', None,
                [('device NULL', {'d': None, 'p': props, 'n': 4, 'o': o, 'num': C.byref(n)}, [-33]), ('properties NULL', {'d': self.dev, 'p': None, 'n': 4, 'o': o, 'num': C.byref(n)}, [-30]),
                 ('not partitionable', {'d': self.dev, 'p': props, 'n': 4, 'o': o, 'num': C.byref(n)}, [-30, -18])])

    def ctxprops(self, s):
        k = s.draw(3)
        return None if k == 0 else (C.c_ssize_t * 1)(0) if k == 1 else (C.c_ssize_t * 3)(0x1084, self.plat, 0)

    def p_clCreateContext(self, s, w):
        d = parr([self.dev, self.dev])
        bad = (C.c_ssize_t * 3)(0x7777, 5, 0)
        badp = (C.c_ssize_t * 3)(0x1084, self.dev, 0)
        dup = (C.c_ssize_t * 5)(0x1084, self.plat, 0x1084, self.plat, 0)
        return ('p n d f u err', {'p': self.ctxprops(s), 'n': s.choice([1, 1, 2]), 'd': d, 'f': s.choice([None, w.A.fn]), 'u': None, 'err': 1},
                [('no devices', {'n': 0}, [-30]), ('devices NULL', {'d': None}, [-30]), ('NULL device', {'n': 2, 'd': parr([self.dev, None])}, [-33]), ('user data without callback', {'f': None, 'u': 8}, [-30]),
                 ('unknown property', {'p': bad}, [-64]), ('property names a bad platform', {'p': badp}, [-32]), ('property twice', {'p': dup}, [-64])], 'Context')

    def p_clCreateContextFromType(self, s, w):
        bad = (C.c_ssize_t * 3)(0x7777, 5, 0)
        badp = (C.c_ssize_t * 3)(0x1084, self.dev, 0)
        return ('p t f u err', {'p': self.ctxprops(s), 't': s.choice([1, 2, 4, 8, 0xFFFFFFFF]), 'f': s.choice([None, w.A.fn]), 'u': None, 'err': 1},
                [('no such type', {'t': 16}, [-1]), ('type 0', {'t': 0}, [-31]), ('unknown type', {'t': 1 << 20}, [-31]), ('user data without callback', {'f': None, 'u': 8}, [-30]),
                 ('unknown property', {'p': bad}, [-64]), ('property names a bad platform', {'p': badp}, [-32])], 'Context')

    def p_clSetContextDestructorCallback(self, s, w):
        c = create('clCreateContext', None, 1, parr([self.dev]), None, None)
        w.tmp.append(lambda: raw('clReleaseContext')(c))
        return 'o f u', {'o': c, 'f': _nop_ctx, 'u': None}, [('context NULL', {'o': None}, [-34]), ('callback NULL', {'f': None}, [-30])]

    def retain(kind, code):
        def f(self, s, w):
            h = s.choice([o for k, o in w.objs if k == kind])
            return 'o', {'o': h}, [('object NULL', {'o': None}, [code])], lambda r: raw('clRelease' + kind)(h)

        def g(self, s, w):
            h = s.choice([o for k, o in w.objs if k == kind])
            return 'o', {'o': h}, [('object NULL', {'o': None}, [code])], lambda r: None, lambda: raw('clRetain' + kind)(h)
        return f, g
    p_clRetainContext, p_clReleaseContext = retain('Context', -34)
    p_clRetainCommandQueue, p_clReleaseCommandQueue = retain('CommandQueue', -36)
    p_clRetainMemObject, p_clReleaseMemObject = retain('MemObject', -38)
    p_clRetainSampler, p_clReleaseSampler = retain('Sampler', -41)
    p_clRetainProgram, p_clReleaseProgram = retain('Program', -44)
    p_clRetainKernel, p_clReleaseKernel = retain('Kernel', -48)
    p_clRetainEvent, p_clReleaseEvent = retain('Event', -58)

    def p_clGetContextInfo(self, s, w):
        return self.info(s, w, 'clGetContextInfo', w.A.ctx, INFO['clGetContextInfo'][1], [-34])

    def p_clGetCommandQueueInfo(self, s, w):
        return self.info(s, w, 'clGetCommandQueueInfo', s.choice([w.A.q, w.A.qp]), INFO['clGetCommandQueueInfo'][1], [-36], [('size of a host queue', {'p': 0x1094}, [-36])])

    def p_clGetMemObjectInfo(self, s, w):
        return self.info(s, w, 'clGetMemObjectInfo', s.choice([o for k, o in w.objs if k == 'MemObject']), INFO['clGetMemObjectInfo'][1], [-38])

    def p_clGetImageInfo(self, s, w):
        return self.info(s, w, 'clGetImageInfo', s.choice([i[0] for i in w.imgs]), list(range(0x1110, 0x111B)), [-38], [('a buffer', {'o': w.A.rw}, [-38])])

    def p_clGetSamplerInfo(self, s, w):
        return self.info(s, w, 'clGetSamplerInfo', w.A.samp, INFO['clGetSamplerInfo'][1], [-41])

    def p_clGetProgramInfo(self, s, w):
        ex = [('kernels of a program without executable', {'o': s.choice([w.A.unbuilt, w.A.bad]), 'p': s.choice([0x1167, 0x1168])}, [-45])]
        return self.info(s, w, 'clGetProgramInfo', w.A.prog, [0x1160, 0x1161, 0x1162, 0x1163, 0x1164, 0x1165, 0x1167, 0x1168], [-44], ex)

    def p_clGetProgramBuildInfo(self, s, w):
        return self.info(s, w, 'clGetProgramBuildInfo', s.choice([w.A.prog, w.A.bad, w.A.unbuilt]), [0x1181, 0x1182, 0x1183, 0x1184], [-44],
                         [('device NULL', {'d': None}, [-33]), ('device is a platform', {'d': self.plat}, [-33])], [('d', self.dev)])

    def p_clGetKernelInfo(self, s, w):
        return self.info(s, w, 'clGetKernelInfo', s.choice([w.A.kbuf, w.A.kmix, w.A.kreq]), INFO['clGetKernelInfo'][1], [-48])

    def p_clGetKernelArgInfo(self, s, w):
        return self.info(s, w, 'clGetKernelArgInfo', w.A.kmix, [0x1196, 0x1197, 0x1198, 0x1199, 0x119A], [-48], [('index too large', {'i': s.choice([7, 8, 0xFFFFFFFF])}, [-49])], [('i', s.draw(7))])

    def p_clGetKernelWorkGroupInfo(self, s, w):
        return self.info(s, w, 'clGetKernelWorkGroupInfo', s.choice([w.A.kbuf, w.A.kmix, w.A.kreq]), [0x11B0, 0x11B1, 0x11B2, 0x11B3, 0x11B4], [-48],
                         [('device is a platform', {'d': self.plat}, [-33]), ('global size of an ordinary kernel', {'p': 0x11B5}, [-30])], [('d', s.choice([self.dev, None]))])

    def p_clGetEventInfo(self, s, w):
        return self.info(s, w, 'clGetEventInfo', s.choice([o for k, o in w.objs if k == 'Event']), INFO['clGetEventInfo'][1], [-58])

    def p_clGetEventProfilingInfo(self, s, w):
        return self.info(s, w, 'clGetEventProfilingInfo', w.A.prof, [0x1280, 0x1281, 0x1282, 0x1283], [-58],
                         [('queue without profiling', {'o': w.A.noprof}, [-7]), ('user event', {'o': s.choice([w.A.done, w.A.uev, w.A.failed])}, [-7])])

    # ------------------------------------------------------------ queues, memory objects, samplers
    def p_clCreateCommandQueue(self, s, w):
        return ('c d p err', {'c': w.A.ctx, 'd': self.dev, 'p': s.draw(4), 'err': 1},
                [('context NULL', {'c': None}, [-34]), ('device NULL', {'d': None}, [-33]), ('unknown property', {'p': 1 << s.range(4, 40)}, [-30]), ('device queue', {'p': 1 | 4}, [-30, -35])], 'CommandQueue')

    def p_clCreateCommandQueueWithProperties(self, s, w):
        k = s.draw(4)
        base = None if k == 0 else (u64 * 1)(0) if k == 1 else (u64 * 3)(0x1093, s.draw(4), 0)
        return ('c d p err', {'c': w.A.ctx, 'd': self.dev, 'p': base, 'err': 1},
                [('context NULL', {'c': None}, [-34]), ('device NULL', {'d': None}, [-33]), ('unknown property', {'p': (u64 * 3)(0x7777, 1, 0)}, [-30]),
                 ('unknown bits', {'p': (u64 * 3)(0x1093, 1 << s.range(4, 40), 0)}, [-30]), ('device queue', {'p': (u64 * 3)(0x1093, 1 | 4, 0)}, [-30, -35]),
                 ('size of a host queue', {'p': (u64 * 5)(0x1093, 0, 0x1094, 64, 0)}, [-30])], 'CommandQueue')

    def flags_bad(self, s, name='f'):
        k = s.draw(6)
        acc = s.choice([1 | 2, 1 | 4, 2 | 4, 7])
        ha = s.choice([512 | 256, 512 | 128, 256 | 128, 896])
        return [('conflicting access flags', {name: acc}, [-30]), ('conflicting host access flags', {name: 1 | ha}, [-30]), ('unknown flags', {name: 1 | 1 << s.choice([6, 20, 40])}, [-30])]

    def hostflags(self, s):
        """flags, host pointer"""
        f = s.choice([0, 1, 2, 4]) | s.choice([0, 0, 128, 256, 512])
        k = s.draw(4)
        if k == 1:
            return f | 16, False
        if k == 2:
            return f | 32, True
        if k == 3:
            return f | 8, True
        return f, False

    def host_bad(self, s, w):
        return [('host pointer missing', {'f': 1 | s.choice([8, 32]), 'h': None}, [-37]), ('host pointer without flag', {'f': 1, 'h': self.ptr(w)}, [-37]),
                ('use and copy', {'f': 1 | 8 | 32, 'h': self.ptr(w)}, [-30]), ('use and alloc', {'f': 1 | 8 | 16, 'h': self.ptr(w)}, [-30])]

    def p_clCreateBuffer(self, s, w, extra=False):
        f, h = self.hostflags(s)
        bad = [('context NULL', {'c': None}, [-34]), ('size 0', {'n': 0, 'f': 1, 'h': None}, [-61]), ('too large', {'n': s.choice([(128 << 20) + 1, U64, 1 << 40]), 'f': 1, 'h': None}, [-61])]
        b2 = self.flags_bad(s)
        for _, d, _ in b2:
            d['h'] = None
        bad += b2 + self.host_bad(s, w)
        return 'c f n h err', {'c': w.A.ctx, 'f': f, 'n': s.range(1, 300), 'h': self.ptr(w) if h else None, 'err': 1}, bad, 'MemObject'

    def p_clCreateBufferWithProperties(self, s, w):
        n, b, bad, k = self.p_clCreateBuffer(s, w)
        b['p'] = s.choice([None, (u64 * 1)(0)])
        return 'c p f n h err', b, bad + [('unknown property', {'p': (u64 * 3)(0x7777, 1, 0)}, [-64])], k

    def p_clCreateSubBuffer(self, s, w):
        A = w.A
        o, n = self.oob(s, 256)
        bad = [('buffer NULL', {'b': None}, [-38]), ('parent is a sub-buffer', {'b': A.sub, 'i': region(0, 16)}, [-38]), ('parent is an image', {'b': A.i2, 'i': region(0, 16)}, [-38]), ('unknown type', {'t': 0x1221}, [-30]),
               ('information NULL', {'i': None}, [-30]), ('out of bounds', {'i': region(o, n)}, [-30]), ('size 0', {'i': region(0, 0)}, [-61]),
               ('conflicting access flags', {'f': s.choice([3, 5, 6, 7])}, [-30]), ('conflicting host access flags', {'f': s.choice([768, 640, 384])}, [-30]), ('host pointer flags', {'f': s.choice([8, 16, 32])}, [-30]),
               ('writable part of a read-only buffer', {'b': A.ro, 'f': s.choice([1, 2])}, [-30]), ('readable part of a write-only buffer', {'b': A.wo, 'f': s.choice([1, 4])}, [-30]),
               ('host-writable part', {'b': A.hro, 'f': 128}, [-30]), ('host-readable part', {'b': A.hwo, 'f': 256}, [-30]), ('host access to part', {'b': A.hna, 'f': s.choice([128, 256])}, [-30])]
        if s.known('sub-buffer-alignment'):
            s.excluded('sub-buffer-alignment')
        else:
            bad.append(('misaligned', {'i': region(s.choice([1, 4, 64]), 16)}, [-13]))
        return ('b f t i err', {'b': s.choice([A.rw, A.hro, A.hwo, A.uhp, A.ro]), 'f': s.choice([0, 0, 4, 512]), 't': 0x1220, 'i': region(0, s.range(1, 100)), 'err': 1}, bad, 'MemObject')

    def p_clCreateImage(self, s, w):
        A = w.A
        f, h = self.hostflags(s)
        t = s.choice([0x10F1, 0x10F2, 0x10F3, 0x10F4, 0x10F5])
        dim = [s.range(1, 5), 0, 0, 0]
        if t in (0x10F1, 0x10F2, 0x10F3):
            dim[1] = s.range(1, 4)
        if t == 0x10F2:
            dim[2] = s.range(1, 3)
        if t in (0x10F3, 0x10F5):
            dim[3] = s.range(1, 3)

        def D(**kw):
            d = dict(type=t, w=dim[0], h=dim[1], d=dim[2], a=dim[3], rp=0, sp=0, mip=0, ns=0, buf=None)
            d.update(kw)
            return C.pointer(Desc(*[d[k] for k in ('type', 'w', 'h', 'd', 'a', 'rp', 'sp', 'mip', 'ns', 'buf')]))
        good = fmt(0x10B5, s.choice([0x10D2, 0x10D7, 0x10DA, 0x10DE]))
        bad = [('context NULL', {'c': None}, [-34]), ('format NULL', {'fm': None}, [-39]), ('unknown order', {'fm': fmt(0x1555, 0x10D2)}, [-39, -10]), ('unknown channel type', {'fm': fmt(0x10B5, 0x1555)}, [-39, -10]),
               ('descriptor NULL', {'ds': None}, [-65]), ('unknown image type', {'ds': D(type=s.choice([0, 0x10F0, 0x10F8]))}, [-65]), ('width 0', {'ds': D(w=0)}, [-40, -65]),
               ('width too large', {'ds': D(w=1 << 20), 'f': 1, 'h': None}, [-40]), ('pitch without host pointer', {'ds': D(rp=1024), 'f': 1, 'h': None}, [-65]),
               ('mip levels', {'ds': D(mip=2)}, [-65]), ('samples', {'ds': D(ns=4)}, [-65]), ('row pitch too small', {'ds': D(rp=1), 'f': 1 | 32, 'h': self.ptr(w)}, [-65])]
        if dim[1]:
            bad += [('height 0', {'ds': D(h=0)}, [-40, -65]), ('height too large', {'ds': D(h=1 << 20), 'f': 1, 'h': None}, [-40])]
        if dim[2]:
            bad += [('depth 0', {'ds': D(d=0)}, [-40, -65]), ('depth too large', {'ds': D(d=1 << 20), 'f': 1, 'h': None}, [-40])]
        if dim[3]:
            bad += [('array size 0', {'ds': D(a=0)}, [-40, -65]), ('array too large', {'ds': D(a=1 << 20), 'f': 1, 'h': None}, [-40])]
        bad += [('buffer image without buffer', {'ds': D(type=0x10F6, h=0, d=0, a=0), 'f': 1, 'h': None}, [-65]), ('buffer image larger than its buffer', {'ds': D(type=0x10F6, h=0, d=0, a=0, w=400, buf=A.rw), 'f': 1, 'h': None}, [-40, -65]),
                ('buffer image of an image', {'ds': D(type=0x10F6, h=0, d=0, a=0, w=2, buf=A.i2), 'f': 1, 'h': None}, [-65, -38]),
                ('buffer with another type', {'ds': D(type=0x10F5, h=0, d=0, w=2, a=1, buf=A.rw), 'f': 1, 'h': None}, [-65])]
        b2 = self.flags_bad(s)
        for _, d, _ in b2:
            d['h'] = None
        return 'c f fm ds h err', {'c': A.ctx, 'f': f, 'fm': good, 'ds': D(), 'h': self.ptr(w) if h else None, 'err': 1}, bad + b2 + self.host_bad(s, w), 'MemObject'

    def p_clCreateImageWithProperties(self, s, w):
        n, b, bad, k = self.p_clCreateImage(s, w)
        b['p'] = s.choice([None, (u64 * 1)(0)])
        return 'c p f fm ds h err', b, bad + [('unknown property', {'p': (u64 * 3)(0x7777, 1, 0)}, [-64])], k

    def p_clCreateImage2D(self, s, w):
        f, h = self.hostflags(s)
        bad = [('context NULL', {'c': None}, [-34]), ('format NULL', {'fm': None}, [-39]), ('unknown order', {'fm': fmt(0x1555, 0x10D2)}, [-39, -10]), ('width 0', {'w': 0}, [-40]), ('height 0', {'y': 0}, [-40]),
               ('width too large', {'w': 1 << 20, 'f': 1, 'h': None}, [-40]), ('pitch without host pointer', {'rp': 1024, 'f': 1, 'h': None}, [-40, -65])]
        b2 = self.flags_bad(s)
        for _, d, _ in b2:
            d['h'] = None
        return 'c f fm w y rp h err', {'c': w.A.ctx, 'f': f, 'fm': fmt(0x10B5, 0x10D2), 'w': s.range(1, 6), 'y': s.range(1, 5), 'rp': 0, 'h': self.ptr(w) if h else None, 'err': 1}, bad + b2 + self.host_bad(s, w), 'MemObject'

    def p_clCreateImage3D(self, s, w):
        f, h = self.hostflags(s)
        bad = [('context NULL', {'c': None}, [-34]), ('format NULL', {'fm': None}, [-39]), ('unknown order', {'fm': fmt(0x1555, 0x10D2)}, [-39, -10]), ('width 0', {'w': 0}, [-40]), ('height 0', {'y': 0}, [-40]),
               ('depth 0', {'z': 0}, [-40]), ('depth too large', {'z': 1 << 20, 'f': 1, 'h': None}, [-40]), ('pitch without host pointer', {'rp': 1024, 'f': 1, 'h': None}, [-40, -65])]
        b2 = self.flags_bad(s)
        for _, d, _ in b2:
            d['h'] = None
        return ('c f fm w y z rp sp h err', {'c': w.A.ctx, 'f': f, 'fm': fmt(0x10B5, 0x10D2), 'w': s.range(1, 4), 'y': s.range(1, 4), 'z': s.range(2, 4), 'rp': 0, 'sp': 0, 'h': self.ptr(w) if h else None, 'err': 1},
                bad + b2 + self.host_bad(s, w), 'MemObject')

    def p_clGetSupportedImageFormats(self, s, w):
        o, n = C.create_string_buffer(8 * 4), u32()
        w.keep += [o, n]
        return ('c f t n o num', {'c': w.A.ctx, 'f': s.choice([1, 2, 4]), 't': s.range(0x10F1, 0x10F6), 'n': 4, 'o': o, 'num': C.byref(n) if s.bool() else None},
                [('context NULL', {'c': None}, [-34]), ('conflicting flags', {'f': s.choice([3, 5, 6])}, [-30]), ('not an image type', {'t': s.choice([0x10F0, 0, 0x10F8])}, [-30]), ('no room', {'n': 0}, [-30])])

    def p_clSetMemObjectDestructorCallback(self, s, w):
        b = create('clCreateBuffer', w.A.ctx, 1, 16, None)
        w.tmp.append(lambda: raw('clReleaseMemObject')(b))
        return 'o f u', {'o': b, 'f': _nop_ctx, 'u': None}, [('object NULL', {'o': None}, [-38]), ('callback NULL', {'f': None}, [-30])]

    def p_clCreateSampler(self, s, w):
        return ('c n a f err', {'c': w.A.ctx, 'n': s.draw(2), 'a': s.choice([0x1130, 0x1131, 0x1132, 0x1133, 0x1134]), 'f': s.choice([0x1140, 0x1141]), 'err': 1},
                [('context NULL', {'c': None}, [-34]), ('unknown addressing mode', {'a': s.choice([0, 0x1135, 0x1140])}, [-30]), ('unknown filter mode', {'f': s.choice([0, 0x1142, 0x1130])}, [-30])], 'Sampler')

    def p_clCreateSamplerWithProperties(self, s, w):
        k = s.draw(3)
        base = None if k == 0 else (u64 * 1)(0) if k == 1 else (u64 * 7)(0x1152, s.draw(2), 0x1153, s.range(0x1130, 0x1134), 0x1154, s.range(0x1140, 0x1141), 0)
        return ('c p err', {'c': w.A.ctx, 'p': base, 'err': 1},
                [('context NULL', {'c': None}, [-34]), ('unknown property', {'p': (u64 * 3)(0x7777, 0, 0)}, [-30]), ('unknown addressing mode', {'p': (u64 * 3)(0x1153, 0x1140, 0)}, [-30]),
                 ('unknown filter mode', {'p': (u64 * 3)(0x1154, 0x1130, 0)}, [-30]), ('property twice', {'p': (u64 * 5)(0x1152, 1, 0x1152, 1, 0)}, [-30])], 'Sampler')

    # ------------------------------------------------------------ programs and kernels
    def p_clCreateProgramWithSource(self, s, w):
        st = (C.c_char_p * 2)(b'kernel void f(', b'){}')
        return ('c n s l err', {'c': w.A.ctx, 'n': 2, 's': st, 'l': s.choice([None, szarr([0, 0]), szarr([14, 3])]), 'err': 1},
                [('context NULL', {'c': None}, [-34]), ('no strings', {'n': 0}, [-30]), ('strings NULL', {'s': None}, [-30]), ('NULL string', {'s': (C.c_char_p * 2)(b'kernel void f(){}', None)}, [-30])], 'Program')

    def binary(self, w):
        n = sz()
        call('clGetProgramInfo', w.A.prog, 0x1165, 8, C.byref(n), None)
        b = C.create_string_buffer(n.value)
        call('clGetProgramInfo', w.A.prog, 0x1166, 8, C.byref(vp(C.addressof(b))), None)
        w.keep.append(b)
        return b, n.value

    def p_clCreateProgramWithBinary(self, s, w):
        b, n = self.binary(w)
        st = i32(77)
        w.keep.append(st)
        junk = C.create_string_buffer(b'this is no bitcode at all', 32)
        w.keep.append(junk)
        d = parr([self.dev])
        return ('c n d l b st err', {'c': w.A.ctx, 'n': 1, 'd': d, 'l': szarr([n]), 'b': parr([C.addressof(b)]), 'st': C.byref(st) if s.bool() else None, 'err': 1},
                [('context NULL', {'c': None}, [-34]), ('no devices', {'n': 0}, [-30]), ('devices NULL', {'d': None}, [-30]), ('NULL device', {'d': parr([None])}, [-33]), ('lengths NULL', {'l': None}, [-30]),
                 ('length 0', {'l': szarr([0])}, [-30]), ('binaries NULL', {'b': None}, [-30]), ('NULL binary', {'b': parr([None])}, [-30]),
                 ('not a binary', {'b': parr([C.addressof(junk)]), 'l': szarr([32])}, [-42])], 'Program')

    def p_clCreateProgramWithBuiltInKernels(self, s, w):
        d = parr([self.dev])
        g = {'c': w.A.ctx, 'n': 1, 'd': d, 'k': b'nothing', 'err': 1}
        return ('c n d k err', None, [('context NULL', dict(g, c=None), [-34]), ('no devices', dict(g, n=0), [-30]), ('devices NULL', dict(g, d=None), [-30]), ('NULL device', dict(g, d=parr([None])), [-33]),
                                      ('names NULL', dict(g, k=None), [-30]), ('unknown kernel', g, [-30])], 'Program')

    def p_clCreateProgramWithIL(self, s, w):
        g = {'c': w.A.ctx, 'il': self.ptr(w), 'n': 64, 'err': 1}
        return ('c il n err', None, [('context NULL', dict(g, c=None), [-34, -59]), ('no IL support', g, [-59])], 'Program')

    def dev_bad(self):
        return [('devices missing', {'n': 1, 'd': None}, [-30]), ('devices without count', {'n': 0, 'd': parr([self.dev])}, [-30]), ('NULL device', {'n': 1, 'd': parr([None])}, [-33])]

    def newprog(self, w, src=SRC, ctx=None):
        p = (C.c_char_p * 1)(src)
        h = create('clCreateProgramWithSource', ctx or w.A.ctx, 1, p, None)
        w.tmp.append(lambda: raw('clReleaseProgram')(h))
        return h

    def devs(self, s):
        return {'n': 1, 'd': parr([self.dev])} if s.bool() else {'n': 0, 'd': None}

    def p_clBuildProgram(self, s, w):
        p = self.newprog(w)
        b = {'p': p, 'o': s.choice([None, b'', b'-DX=1']), 'f': s.choice([_nop_prog, PROGCB(0)]), 'u': None}
        b.update(self.devs(s))
        return ('p n d o f u', b, self.dev_bad() + [('program NULL', {'p': None}, [-44]), ('user data without callback', {'f': PROGCB(0), 'u': 8}, [-30]), ('unknown option', {'o': s.choice([b'-zzz', b'--bogus', b'-cl-nothing'])}, [-43, -11]),
                                                    ('program with kernels', {'p': w.A.prog}, [-59])])

    def p_clCompileProgram(self, s, w):
        p = self.newprog(w)
        h = self.newprog(w, b'#define Q 1\n')
        hn = (C.c_char_p * 1)(b'h.h')
        b = {'p': p, 'o': s.choice([None, b'', b'-DX=1']), 'f': s.choice([_nop_prog, PROGCB(0)]), 'u': None, 'nh': 0, 'h': None, 'hn': None}
        if s.bool():
            b.update({'nh': 1, 'h': parr([h]), 'hn': hn})
        b.update(self.devs(s))
        return ('p n d o nh h hn f u', b, self.dev_bad() +
                [('program NULL', {'p': None}, [-44]), ('user data without callback', {'f': PROGCB(0), 'u': 8}, [-30]), ('unknown option', {'o': s.choice([b'-zzz', b'--bogus', b'-cl-nothing'])}, [-66, -15]),
                 ('program with kernels', {'p': w.A.prog}, [-59]), ('headers without names', {'nh': 1, 'h': parr([h]), 'hn': None}, [-30]), ('names without headers', {'nh': 1, 'h': None, 'hn': hn}, [-30]),
                 ('headers without count', {'nh': 0, 'h': parr([h]), 'hn': hn}, [-30])])

    def p_clLinkProgram(self, s, w):
        p = self.newprog(w)
        call('clCompileProgram', p, 0, None, b'', 0, None, None, PROGCB(0), None)
        q = self.newprog(w)
        b = {'c': w.A.ctx, 'o': s.choice([None, b'', b'-create-library']), 'f': s.choice([_nop_prog, PROGCB(0)]), 'u': None, 'ni': 1, 'i': parr([p]), 'err': 1}
        b.update(self.devs(s))
        return ('c n d o ni i f u err', b, self.dev_bad() +
                [('context NULL', {'c': None}, [-34]), ('user data without callback', {'f': PROGCB(0), 'u': 8}, [-30]),                  ('no programs', {'ni': 0, 'i': None}, [-30]), ('programs NULL', {'i': None}, [-30]), ('programs without count', {'ni': 0}, [-30]), ('NULL program', {'ni': 2, 'i': parr([p, None])}, [-44]),
                 ('program not compiled', {'i': parr([q])}, [-59])] + self.link_bad(s), 'Program')

    def link_bad(self, s):
        if s.known('link-options'):
            s.excluded('link-options')
            return []
        return [('unknown option', {'o': s.choice([b'-zzz', b'--bogus', b'-cl-nothing'])}, [-67, -17])]

    def p_clUnloadPlatformCompiler(self, s, w):
        return 'p', {'p': self.plat}, [('platform NULL', {'p': None}, [-32]), ('platform is a device', {'p': self.dev}, [-32])]

    def p_clCreateKernel(self, s, w):
        return ('p k err', {'p': w.A.prog, 'k': s.choice([b'kbuf', b'kmix', b'kreq']), 'err': 1},
                [('program NULL', {'p': None}, [-44]), ('program without executable', {'p': s.choice([w.A.unbuilt, w.A.bad])}, [-45]), ('name NULL', {'k': None}, [-30]), ('unknown name', {'k': s.choice([b'nope', b'', b'kbuf2', b'kbu'])}, [-46])], 'Kernel')

    def p_clCreateKernelsInProgram(self, s, w):
        o, n = parr([None] * 6), u32()
        w.keep += [o, n]

        def cleanup(r):
            for h in list(o):
                if h:
                    raw('clReleaseKernel')(h)
        return ('p n o num', {'p': w.A.prog, 'n': s.range(4, 6), 'o': o, 'num': C.byref(n) if s.bool() else None},
                [('program NULL', {'p': None}, [-44]), ('program without executable', {'p': s.choice([w.A.unbuilt, w.A.bad])}, [-45]), ('too few', {'n': s.range(1, 3)}, [-30])], cleanup)

    def p_clCloneKernel(self, s, w):
        return 'k err', {'k': s.choice([w.A.kbuf, w.A.kmix, w.A.unset]), 'err': 1}, [('kernel NULL', {'k': None}, [-48])], 'Kernel'

    def p_clSetKernelArg(self, s, w):
        A = w.A
        k = create('clCreateKernel', A.prog, b'kmix')
        w.tmp.append(lambda: raw('clReleaseKernel')(k))
        m, im, sm, v = vp(A.rw), vp(A.i2), vp(A.samp), C.create_string_buffer(32)
        vals = [(8, C.byref(m)), (8, C.byref(m)), (s.choice([4, 64]), None), (4, v), (16, v), (8, C.byref(im)), (8, C.byref(sm))]
        w.keep += [m, im, sm, v]
        i = s.draw(7)
        n, p = vals[i]
        null = vp(None)
        w.keep.append(null)
        bad = [('kernel NULL', {'k': None}, [-48]), ('index too large', {'i': s.choice([7, 8, 0xFFFFFFFF])}, [-49])]
        if i == 2:
            bad += [('local size 0', {'n': 0}, [-51]), ('value for a local argument', {'v': v}, [-50])]
        else:
            bad += [('wrong size', {'n': n + s.choice([-1, 1, -2, 4])}, [-51])]
        if i in (3, 4, 5, 6):
            bad += [('value NULL', {'v': None}, [-50, -38] if i == 5 else [-50, -41] if i == 6 else [-50])]
        if i == 6:
            bad += [('NULL sampler', {'v': C.byref(null)}, [-41])]
        if i == 5:
            bad += [('buffer for an image', {'v': C.byref(m)}, [-38, -50]), ('NULL image', {'v': C.byref(null)}, [-38, -50])]
        if i in (0, 1):
            bad += [('image for a buffer', {'v': C.byref(im)}, [-38, -50])]
        return 'k i n v', {'k': k, 'i': i, 'n': n, 'v': p}, bad

    # ------------------------------------------------------------ events
    def p_clWaitForEvents(self, s, w):
        A = w.A
        return ('n e', {'n': 2, 'e': parr([A.done, A.prof])},
                [('no events', {'n': 0}, [-30]), ('list NULL', {'e': None}, [-30]), ('NULL event', {'e': parr([A.done, None])}, [-58]), ('several contexts', {'e': parr([A.done, w.B.done])}, [-34]),
                 ('failed event', {'e': parr([A.done, A.failed])}, [-14])])

    def p_clCreateUserEvent(self, s, w):
        return 'c err', {'c': w.A.ctx, 'err': 1}, [('context NULL', {'c': None}, [-34])], 'Event'

    def p_clSetUserEventStatus(self, s, w):
        e = create('clCreateUserEvent', w.A.ctx)
        w.tmp.append(lambda: raw('clReleaseEvent')(e))
        w.keep.append(e)
        return ('e v', {'e': e, 'v': s.choice([0, -1, -9999])},
                [('event NULL', {'e': None}, [-58]), ('not a user event', {'e': w.A.noprof}, [-58]), ('bad status', {'v': s.choice([1, 2, 3, 0x7fffffff])}, [-30]), ('status already set', {'e': s.choice([w.A.done, w.A.failed])}, [-59])])

    def p_clSetEventCallback(self, s, w):
        return ('e t f u', {'e': s.choice([w.A.done, w.A.noprof]), 't': s.choice([0, 1, 2]), 'f': _nop_ev, 'u': None},
                [('event NULL', {'e': None}, [-58]), ('callback NULL', {'f': EVCB(0)}, [-30]), ('bad type', {'t': s.choice([3, 4, -1])}, [-30])])

    def p_clFlush(self, s, w):
        return 'q', {'q': s.choice([w.A.q, w.A.qp, w.B.q])}, [('queue NULL', {'q': None}, [-36])]
    p_clFinish = p_clFlush
    p_clEnqueueBarrier = p_clFlush

    def p_clEnqueueMarker(self, s, w):
        w.ev = vp(0x5a5a5a5a)
        return 'q ev', {'q': w.A.q, 'ev': C.byref(w.ev)}, [('queue NULL', {'q': None}, [-36])]

    def p_clEnqueueWaitForEvents(self, s, w):
        return ('q n e', {'q': w.A.q, 'n': 2, 'e': parr([w.A.done, w.A.prof])},
                [('queue NULL', {'q': None}, [-36]), ('no events', {'n': 0}, [-30]), ('list NULL', {'e': None}, [-30]), ('NULL event', {'e': parr([w.A.done, None])}, [-58]), ('event of another context', {'e': parr([w.A.done, w.B.done])}, [-34])])

    def p_clEnqueueMarkerWithWaitList(self, s, w):
        return 'q ' + WL, dict(self.wl(s, w), q=w.A.q), [self.q_bad(w)[0]] + self.wl_bad(w)
    p_clEnqueueBarrierWithWaitList = p_clEnqueueMarkerWithWaitList

    # ------------------------------------------------------------ buffer commands
    def rwbuf(self, s, w, write):
        A = w.A
        o = s.draw(200)
        b = s.choice([A.rw, A.rw2])
        d = dict(self.wl(s, w), q=s.choice([A.q, A.qp]), b=b, k=s.draw(2), o=o, n=s.range(1, 256 - o), p=self.ptr(w))
        oo, on = self.oob(s, 256)
        bad = self.q_bad(w) + self.wl_bad(w, 'k') + self.mem_bad(w, 'b', False)
        bad += [('pointer NULL', {'p': None}, [-30]), ('out of bounds', {'o': oo, 'n': on}, [-30]), ('out of sub-buffer bounds', {'b': A.sub, 'o': s.range(1, 64), 'n': 64}, [-30]),
                ('no host access', {'b': A.hna, 'o': 0, 'n': 16}, [-59]), ('host access of the other kind', {'b': A.hro if write else A.hwo, 'o': 0, 'n': 16}, [-59])]
        return 'q b k o n p ' + WL, d, bad

    def p_clEnqueueReadBuffer(self, s, w):
        return self.rwbuf(s, w, False)

    def p_clEnqueueWriteBuffer(self, s, w):
        return self.rwbuf(s, w, True)

    def rect(self, s, size):
        """Rectangle in `size` bytes: origin, region, row pitch, slice pitch"""
        rp = s.choice([0, 8, 10, 12])
        reg = [s.range(1, 8), s.range(1, 3), s.range(1, 3)]
        r = rp or reg[0]
        sp = s.choice([0, r * 3, r * 4])
        o = [s.draw(r - reg[0] + 1), s.draw(2), s.draw(2)]
        return o, reg, rp, sp

    def rwrect(self, s, w, write):
        A = w.A
        bo, reg, brp, bsp = self.rect(s, 256)
        ho, hrp, hsp = [0, s.draw(2), s.draw(2)], s.choice([0, 8, 12]), 0
        d = dict(self.wl(s, w), q=s.choice([A.q, A.qp]), b=s.choice([A.rw, A.rw2]), k=s.draw(2), bo=szarr(bo), ho=szarr(ho), r=szarr(reg), brp=brp, bsp=bsp, hrp=hrp, hsp=hsp, p=self.ptr(w))
        bad = self.q_bad(w) + self.wl_bad(w, 'k') + self.mem_bad(w, 'b', False)
        z = s.draw(3)
        zr = list(reg)
        zr[z] = 0
        fo = list(bo)
        fo[z] = s.choice([256, 1000, U64])
        fr = list(reg)
        fr[z] = s.choice([257, 1000, U64]) if z else 300
        bad += [('pointer NULL', {'p': None}, [-30]), ('buffer origin NULL', {'bo': None}, [-30]), ('host origin NULL', {'ho': None}, [-30]), ('region NULL', {'r': None}, [-30]), ('zero region', {'r': szarr(zr)}, [-30]),
                ('origin out of bounds', {'bo': szarr(fo)}, [-30]), ('region out of bounds', {'r': szarr(fr), 'brp': 0, 'bsp': 0, 'hrp': 0, 'hsp': 0}, [-30]),
                ('no host access', {'b': A.hna, 'bo': szarr([0, 0, 0]), 'r': szarr([4, 1, 1]), 'brp': 0, 'bsp': 0, 'hrp': 0}, [-59]),
                ('host access of the other kind', {'b': A.hro if write else A.hwo, 'bo': szarr([0, 0, 0]), 'r': szarr([4, 1, 1]), 'brp': 0, 'bsp': 0, 'hrp': 0}, [-59])]
        if reg[0] > 1:
            bad += [('buffer row pitch too small', {'brp': reg[0] - 1}, [-30]), ('host row pitch too small', {'hrp': reg[0] - 1}, [-30])]
        if reg[1] > 1:
            bad += [('buffer slice pitch too small', {'brp': 8, 'bsp': 9}, [-30]), ('host slice pitch too small', {'hrp': 8, 'hsp': 9}, [-30])]
        return 'q b k bo ho r brp bsp hrp hsp p ' + WL, d, bad

    def p_clEnqueueReadBufferRect(self, s, w):
        return self.rwrect(s, w, False)

    def p_clEnqueueWriteBufferRect(self, s, w):
        return self.rwrect(s, w, True)

    def p_clEnqueueCopyBuffer(self, s, w):
        A = w.A
        so, do = s.draw(200), s.draw(200)
        n = s.range(1, 256 - max(so, do))
        a, b = s.choice([(A.rw, A.rw2), (A.rw2, A.rw), (A.sub, A.rw2)])
        if a == A.sub:
            so, n = 0, min(n, 64)
        d = dict(self.wl(s, w), q=A.q, s=a, d=b, so=so, do=do, n=n)
        o1, n1 = self.oob(s, 256)
        o2, n2 = self.oob(s, 256)
        k = s.range(1, 60)
        bad = self.q_bad(w) + self.wl_bad(w) + self.mem_bad(w, 's', False) + self.mem_bad(w, 'd', False)
        bad += [('source out of bounds', {'s': A.rw, 'd': A.rw2, 'so': o1, 'do': 0, 'n': n1}, [-30]), ('destination out of bounds', {'s': A.rw, 'd': A.rw2, 'do': o2, 'so': 0, 'n': n2}, [-30]),
                ('overlap', {'s': A.rw, 'd': A.rw, 'so': k, 'do': k + s.range(0, 20), 'n': 21 + s.draw(60)}, [-8]), ('overlap with a sub-buffer', {'s': A.rw, 'd': A.sub, 'so': 100 + s.draw(60), 'do': 0, 'n': 40}, [-8])]
        return 'q s d so do n ' + WL, d, bad

    def p_clEnqueueCopyBufferRect(self, s, w):
        A = w.A
        so, reg, srp, ssp = self.rect(s, 256)
        do, drp, dsp = [0, s.draw(2), s.draw(2)], s.choice([0, 8, 12]), 0
        d = dict(self.wl(s, w), q=A.q, s=A.rw, d=A.rw2, so=szarr(so), do=szarr(do), r=szarr(reg), srp=srp, ssp=ssp, drp=drp, dsp=dsp)
        z = s.draw(3)
        zr = list(reg)
        zr[z] = 0
        fo = list(so)
        fo[z] = s.choice([256, 1000, U64])
        bad = self.q_bad(w) + self.wl_bad(w) + self.mem_bad(w, 's', False) + self.mem_bad(w, 'd', False)
        bad += [('source origin NULL', {'so': None}, [-30]), ('destination origin NULL', {'do': None}, [-30]), ('region NULL', {'r': None}, [-30]), ('zero region', {'r': szarr(zr)}, [-30]),
                ('source out of bounds', {'so': szarr(fo)}, [-30]), ('destination out of bounds', {'do': szarr(fo)}, [-30]),
                ('overlap', {'d': A.rw, 'so': szarr([0, 0, 0]), 'do': szarr([s.draw(3), s.draw(2), 0]), 'r': szarr([4, 3, 1]), 'srp': 8, 'drp': 8, 'ssp': 0, 'dsp': 0}, [-8]),
                ('pitches of one buffer differ', {'d': A.rw, 'so': szarr([0, 0, 0]), 'do': szarr([0, 10, 0]), 'r': szarr([4, 3, 1]), 'srp': 8, 'drp': 12, 'ssp': 0, 'dsp': 0}, [-30])]
        if reg[0] > 1:
            bad += [('source row pitch too small', {'srp': reg[0] - 1}, [-30]), ('destination row pitch too small', {'drp': reg[0] - 1}, [-30])]
        if reg[1] > 1:
            bad += [('source slice pitch too small', {'srp': 8, 'ssp': 9}, [-30]), ('destination slice pitch too small', {'drp': 8, 'dsp': 9}, [-30])]
        return 'q s d so do r srp ssp drp dsp ' + WL, d, bad

    def p_clEnqueueFillBuffer(self, s, w):
        A = w.A
        ps = s.choice([1, 2, 4, 8, 16, 32, 64, 128])
        o = ps * s.draw(max(1, 256 // ps - 1))
        n = ps * s.range(1, (256 - o) // ps)
        d = dict(self.wl(s, w), q=A.q, b=A.rw, p=self.ptr(w), ps=ps, o=o, n=n)
        o1 = s.choice([256, 256 - ps + ps, 512, U64 - 127])
        bad = self.q_bad(w) + self.wl_bad(w) + self.mem_bad(w, 'b', False)
        bad += [('pattern NULL', {'p': None}, [-30]), ('pattern size 0', {'ps': 0}, [-30]), ('pattern size not a power of two', {'ps': s.choice([3, 5, 12]), 'o': 0, 'n': 60}, [-30]), ('pattern too large', {'ps': 256, 'o': 0, 'n': 256}, [-30]),
                ('offset out of bounds', {'o': o1, 'n': ps}, [-30]), ('size out of bounds', {'o': 0, 'n': s.choice([256 + ps, 512, U64 - 127])}, [-30])]
        if ps > 1:
            bad += [('offset not a multiple', {'o': s.range(1, ps - 1), 'n': ps}, [-30]), ('size not a multiple', {'o': 0, 'n': ps + s.range(1, ps - 1) if ps < 128 else s.range(1, 127)}, [-30])]
        return 'q b p ps o n ' + WL, d, bad

    # ------------------------------------------------------------ image commands
    IMG = {'i2': [8, 6, 1], 'i2b': [8, 6, 1], 'i3': [4, 3, 2], 'ia': [4, 3, 2], 'i1': [9, 1, 1], 'i2f': [8, 6, 1]}

    def area(self, s, dims):
        o = [s.draw(n) for n in dims]
        return o, [s.range(1, n - a) for n, a in zip(dims, o)]

    def area_bad(self, s, dims, o, r, oname='o', rname='r'):
        z = s.draw(3)
        zr, fo, fr = list(r), list(o), list(r)
        zr[z] = 0
        fo[z] = s.choice([dims[z], dims[z] + 3, U64])
        fr[z] = s.choice([dims[z] - o[z] + 1, dims[z] + 5, U64])
        return [('origin NULL', {oname: None}, [-30]), ('region NULL', {rname: None}, [-30]), ('zero region', {rname: szarr(zr)}, [-30]), ('origin out of bounds', {oname: szarr(fo)}, [-30]),
                ('region out of bounds', {rname: szarr(fr)}, [-30])]

    def rwimg(self, s, w, write):
        A = w.A
        n = s.choice(['i2', 'i3', 'ia', 'i1', 'i2f'])
        dims = self.IMG[n]
        o, r = self.area(s, dims)
        d = dict(self.wl(s, w), q=s.choice([A.q, A.qp]), i=getattr(A, n), k=s.draw(2), o=szarr(o), r=szarr(r), rp=s.choice([0, r[0] * 4, 40]), sp=0, p=self.ptr(w))
        bad = self.q_bad(w) + self.wl_bad(w, 'k') + self.mem_bad(w, 'i', True) + self.area_bad(s, dims, o, r)
        z = {'o': szarr([0, 0, 0]), 'r': szarr([2, 1, 1]), 'rp': 0}
        bad += [('pointer NULL', {'p': None}, [-30]), ('no host access', dict(z, i=A.ihna), [-59]), ('host access of the other kind', dict(z, i=A.ihro if write else A.ihwo), [-59]),
                ('row pitch too small', {'rp': r[0] * 4 - s.range(1, 3)}, [-30])]
        if n in ('i3', 'ia') and r[1] > 1:
            bad += [('slice pitch too small', {'rp': 40, 'sp': 40 * r[1] - s.choice([1, 4, 40])}, [-30])]
        return 'q i k o r rp sp p ' + WL, d, bad

    def p_clEnqueueReadImage(self, s, w):
        return self.rwimg(s, w, False)

    def p_clEnqueueWriteImage(self, s, w):
        return self.rwimg(s, w, True)

    def p_clEnqueueFillImage(self, s, w):
        A = w.A
        n = s.choice(['i2', 'i3', 'ia', 'i1', 'i2f'])
        o, r = self.area(s, self.IMG[n])
        d = dict(self.wl(s, w), q=A.q, i=getattr(A, n), c=(C.c_float * 4)(0.1, 0.5, 0.9, 1), o=szarr(o), r=szarr(r))
        return 'q i c o r ' + WL, d, self.q_bad(w) + self.wl_bad(w) + self.mem_bad(w, 'i', True) + self.area_bad(s, self.IMG[n], o, r) + [('colour NULL', {'c': None}, [-30])]

    def p_clEnqueueCopyImage(self, s, w):
        A = w.A
        a, b = s.choice([('i2', 'i2b'), ('i3', 'i2'), ('ia', 'i3'), ('i1', 'i2')])
        da, db = self.IMG[a], self.IMG[b]
        r = [s.range(1, min(x, y)) for x, y in zip(da, db)]
        so = [s.draw(n - m + 1) for n, m in zip(da, r)]
        do = [s.draw(n - m + 1) for n, m in zip(db, r)]
        d = dict(self.wl(s, w), q=A.q, s=getattr(A, a), d=getattr(A, b), so=szarr(so), do=szarr(do), r=szarr(r))
        bad = self.q_bad(w) + self.wl_bad(w) + self.mem_bad(w, 's', True) + self.mem_bad(w, 'd', True) + self.area_bad(s, da, so, r, 'so') + self.area_bad(s, db, do, r, 'do')
        bad += [('formats differ', {'d': A.i2f, 'do': szarr([0, 0, 0]), 'r': szarr([1, 1, 1])}, [-9]),
                ('overlap', {'s': A.i2, 'd': A.i2, 'so': szarr([1, 1, 0]), 'do': szarr([s.draw(4), s.draw(4), 0]), 'r': szarr([3, 3, 1])}, [-8])]
        return 'q s d so do r ' + WL, d, bad

    def p_clEnqueueCopyImageToBuffer(self, s, w):
        A = w.A
        n = s.choice(['i2', 'i3', 'ia', 'i1'])
        o, r = self.area(s, self.IMG[n])
        need = r[0] * r[1] * r[2] * 4
        d = dict(self.wl(s, w), q=A.q, i=getattr(A, n), b=A.rw, o=szarr(o), r=szarr(r), bo=s.draw(256 - need + 1))
        bad = self.q_bad(w) + self.wl_bad(w) + self.mem_bad(w, 'i', True) + self.mem_bad(w, 'b', False) + self.area_bad(s, self.IMG[n], o, r)
        bad += [('buffer out of bounds', {'bo': s.choice([256 - need + 1, 256, 257, U64, U64 - need + 1])}, [-30])]
        return 'q i b o r bo ' + WL, d, bad

    def p_clEnqueueCopyBufferToImage(self, s, w):
        n, d, bad = self.p_clEnqueueCopyImageToBuffer(s, w)
        return 'q b i bo o r ' + WL, d, bad

    # ------------------------------------------------------------ maps
    def p_clEnqueueMapBuffer(self, s, w):
        A = w.A
        o = s.draw(200)
        d = dict(self.wl(s, w), q=A.q, b=A.rw, k=1, f=s.choice([1, 2, 3, 4]), o=o, n=s.range(1, 256 - o), err=1)
        oo, on = self.oob(s, 256)
        bad = self.q_bad(w) + self.wl_bad(w, 'k') + self.mem_bad(w, 'b', False)
        bad += [('out of bounds', {'o': oo, 'n': on}, [-30]), ('size 0', {'n': 0}, [-30]), ('unknown flags', {'f': s.choice([8, 1 << 20])}, [-30]), ('invalidate and read', {'f': s.choice([5, 6])}, [-30]),
                ('no host access', {'b': A.hna, 'o': 0, 'n': 8}, [-59]), ('read of host-write-only', {'b': A.hwo, 'o': 0, 'n': 8, 'f': 1}, [-59]), ('write of host-read-only', {'b': A.hro, 'o': 0, 'n': 8, 'f': s.choice([2, 4])}, [-59])]
        return 'q b k f o n ' + WL + ' err', d, bad, ('map', 'b')

    def p_clEnqueueMapImage(self, s, w):
        A = w.A
        n = s.choice(['i2', 'i3', 'ia', 'i1'])
        dims = self.IMG[n]
        o, r = self.area(s, dims)
        w.rp, w.sp = sz(77), sz(78)
        d = dict(self.wl(s, w), q=A.q, b=getattr(A, n), k=1, f=s.choice([1, 2, 3, 4]), o=szarr(o), r=szarr(r), rp=C.byref(w.rp), sp=C.byref(w.sp), err=1)
        z = {'o': szarr([0, 0, 0]), 'r': szarr([2, 1, 1])}
        bad = self.q_bad(w) + self.wl_bad(w, 'k') + self.mem_bad(w, 'b', True) + self.area_bad(s, dims, o, r)
        bad += [('unknown flags', {'f': s.choice([8, 1 << 20])}, [-30]), ('invalidate and read', {'f': s.choice([5, 6])}, [-30]), ('row pitch NULL', {'rp': None}, [-30]),
                ('no host access', dict(z, b=A.ihna), [-59]), ('read of host-write-only', dict(z, b=A.ihwo, f=1), [-59]), ('write of host-read-only', dict(z, b=A.ihro, f=s.choice([2, 4])), [-59])]
        if n in ('i3', 'ia'):
            bad += [('slice pitch NULL', {'sp': None}, [-30])]
        return 'q b k f o r rp sp ' + WL + ' err', d, bad, ('map', 'b')

    def p_clEnqueueUnmapMemObject(self, s, w):
        A = w.A
        e = i32()
        b, o = (A.rw, s.draw(100))
        p = raw('clEnqueueMapBuffer')(A.q, b, 1, 1, o, 50, 0, None, None, C.byref(e))
        state = {'done': False}

        def unmap():
            if not state['done']:
                raw('clEnqueueUnmapMemObject')(A.q, b, p, 0, None, None)
                raw('clFinish')(A.q)
        w.after.append(unmap)

        def ok(r):
            state['done'] = True
        d = dict(self.wl(s, w), q=A.q, m=b, p=p)
        bad = self.q_bad(w) + self.wl_bad(w) + [('object NULL', {'m': None}, [-38]), ('object of another context', {'m': w.B.rw}, [-34]), ('pointer NULL', {'p': None}, [-30]),
                                                ('pointer not from a map', {'p': self.ptr(w)}, [-30]), ('pointer of another object', {'m': s.choice([A.rw2, A.i2])}, [-30])]
        return 'q m p ' + WL, d, bad, ok

    def p_clEnqueueMigrateMemObjects(self, s, w):
        A = w.A
        d = dict(self.wl(s, w), q=A.q, n=2, m=parr([A.rw, A.i2]), f=s.draw(4))
        return 'q n m f ' + WL, d, self.q_bad(w) + self.wl_bad(w) + [('no objects', {'n': 0, 'm': None}, [-30]), ('list NULL', {'m': None}, [-30]), ('list without count', {'n': 0}, [-30]), ('NULL object', {'m': parr([A.rw, None])}, [-38]),
                                                                    ('object of another context', {'m': parr([A.rw, w.B.rw])}, [-34]), ('unknown flags', {'f': s.choice([4, 1 << 20])}, [-30])]

    # ------------------------------------------------------------ kernels
    def p_clEnqueueNDRangeKernel(self, s, w):
        A = w.A
        g = s.choice([[16], [8, 2], [4, 2, 2]])
        l = s.choice([None, [4], [2]]) if len(g) == 1 else s.choice([None, [4] + [1] * (len(g) - 1)])
        k = s.choice([A.kbuf, A.kreq]) if l is None or l[0] == 4 else A.kbuf
        d = dict(self.wl(s, w), q=A.q, k=k, n=len(g), o=s.choice([None, szarr([0] * len(g)), szarr([8] + [0] * (len(g) - 1))]), g=szarr(g), l=szarr(l) if l else None)
        one = [1] * (len(g) - 1)
        bad = self.q_bad(w) + self.wl_bad(w)
        bad += [('kernel NULL', {'k': None}, [-48]), ('kernel of another context', {'k': w.B.kbuf}, [-34]), ('argument not set', {'k': A.unset}, [-52]), ('arguments not set', {'k': A.kmix, 'l': None}, [-52]),
                ('no dimensions', {'n': 0}, [-53]), ('too many dimensions', {'n': s.choice([4, 5, 0xFFFFFFFF]), 'g': szarr([1] * 8), 'o': None, 'l': None}, [-53]),
                ('group too large', {'k': A.kbuf, 'n': 1, 'o': None, 'g': szarr([4096]), 'l': szarr([2048])}, [-55, -54]), ('group too large in all', {'k': A.kbuf, 'n': 2, 'o': None, 'g': szarr([64, 64]), 'l': szarr([64, 64])}, [-54]),
                ('not the required size', {'k': A.kreq, 'l': szarr([2] + one)}, [-54]), ('not the required size', {'k': A.kreq, 'n': 2, 'o': None, 'g': szarr([8, 2]), 'l': szarr([4, 2])}, [-54]),
                ('not a divisor', {'k': A.kbuf, 'l': szarr([3] + one)}, [-54]), ('local size 0', {'k': A.kbuf, 'l': szarr([0] + one)}, [-54, -55]),
                ('offset too large', {'k': A.kbuf, 'o': szarr([U64 - s.draw(3)] + [0] * (len(g) - 1))}, [-56]), ('too much local memory', {'k': A.kloc, 'l': None}, [-5])]
        return 'q k n o g l ' + WL, d, bad

    def p_clEnqueueTask(self, s, w):
        A = w.A
        return 'q k ' + WL, dict(self.wl(s, w), q=A.q, k=A.kbuf), self.q_bad(w) + self.wl_bad(w) + [('kernel NULL', {'k': None}, [-48]), ('kernel of another context', {'k': w.B.kbuf}, [-34]), ('argument not set', {'k': A.unset}, [-52]),
                                                                                                   ('not the required size', {'k': A.kreq}, [-54]), ('too much local memory', {'k': A.kloc}, [-5])]

    def p_clEnqueueNativeKernel(self, s, w):
        A = w.A
        args = C.create_string_buffer(bytes(range(32)), 32)
        w.keep.append(args)
        w.native = args
        base = C.addressof(args)
        loc = parr([base, base + 16])
        d = dict(self.wl(s, w), q=A.q, f=_nop_nat, a=args, n=32, nm=2, m=parr([A.rw, A.rw2]), l=loc)
        if s.bool(1, 3):
            d.update(nm=0, m=None, l=None)
        return ('q f a n nm m l ' + WL, d, [self.q_bad(w)[0]] + self.wl_bad(w) +
                [('function NULL', {'f': NATIVE(0)}, [-30]), ('arguments NULL', {'a': None, 'nm': 0, 'm': None, 'l': None}, [-30]), ('objects without arguments', {'a': None, 'n': 0, 'nm': 1, 'm': parr([A.rw]), 'l': loc}, [-30]),
                 ('size 0', {'n': 0, 'nm': 0, 'm': None, 'l': None}, [-30]), ('list NULL', {'nm': 1, 'm': None, 'l': loc}, [-30]), ('locations NULL', {'nm': 1, 'm': parr([A.rw]), 'l': None}, [-30]),
                 ('list without count', {'nm': 0, 'm': parr([A.rw]), 'l': loc}, [-30]), ('NULL object', {'nm': 2, 'm': parr([A.rw, None]), 'l': loc}, [-38]), ('an image', {'nm': 2, 'm': parr([A.rw, A.i2]), 'l': loc}, [-38])])

    # ------------------------------------------------------------ features that are not supported
    def p_unsupported(self, s, w):
        A = w.A
        e = C.byref(i32())
        t = s.choice([('clEnqueueSVMFree', [A.q, 1, parr([self.ptr(w).value]), None, None, 0, None, None], -36), ('clEnqueueSVMMemcpy', [A.q, 0, self.ptr(w), self.ptr(w, 64), 16, 0, None, None], -36),
                      ('clEnqueueSVMMemFill', [A.q, self.ptr(w), self.ptr(w), 4, 16, 0, None, None], -36), ('clEnqueueSVMMap', [A.q, 0, 1, self.ptr(w), 16, 0, None, None], -36),
                      ('clEnqueueSVMUnmap', [A.q, self.ptr(w), 0, None, None], -36), ('clEnqueueSVMMigrateMem', [A.q, 1, parr([self.ptr(w).value]), None, 0, 0, None, None], -36),
                      ('clSetKernelArgSVMPointer', [A.kbuf, 0, self.ptr(w)], -48), ('clSetKernelExecInfo', [A.kbuf, 0x11B6, 8, self.ptr(w)], -48), ('clSetProgramSpecializationConstant', [A.prog, 0, 4, self.ptr(w)], -44),
                      ('clSetProgramReleaseCallback', [A.prog, _nop_ctx, None], -44), ('clGetDeviceAndHostTimer', [self.dev, self.ptr(w), self.ptr(w)], -33), ('clGetHostTimer', [self.dev, self.ptr(w)], -33),
                      ('clGetKernelSubGroupInfo', [A.kbuf, self.dev, 0x2033, 8, self.ptr(w), 8, self.ptr(w), None], -48), ('clSetDefaultDeviceCommandQueue', [A.ctx, self.dev, A.q], -34),
                      ('clCreatePipe', [A.ctx, 1, 4, 4, None, 'err'], -34)])
        fn, args, code = t
        names = ['a%d' % k if a != 'err' else 'err' for k, a in enumerate(args)]
        g = dict(zip(names, args))
        return ' '.join(names), None, [('not supported', g, [-59, -30, -36] if 'Default' in fn else [-59]), ('first object NULL', dict(g, a0=None), [code, -59])], (fn, 'MemObject' if fn == 'clCreatePipe' else None)

    # ------------------------------------------------------------ judging
    def case(self, s):
        check = s.bool(4, 5)
        clrt.setenv(CHECK_API=check)
        text = []
        s.desc = ''
        with clrt.Capture() as cap:
            w = self.world(s)
            try:
                n = s.range(5, 12)
                before = None
                for k in range(n):
                    before = self.step(s, w, cap, check, before, text)
                    s.desc = '\n'.join(text)
                call('clFinish', w.A.q)
            finally:
                self.close(w)
        s.desc = '\n'.join(text)
        if any('refused' in t for t in text):
            s.nontrivial(s.desc)

    def step(self, s, w, cap, check, before, text):
        A = w.A
        name = s.weighted(self.weights)
        w.ev = None
        w.out = w.sret = w.native = None
        w.after = []
        r = getattr(self, 'p_' + name)(s, w)
        fn = name
        names, base, bads = r[:3]
        post = r[3] if len(r) > 3 else None
        prep = r[4] if len(r) > 4 else None
        if name == 'unsupported':
            fn, post = post
        names = names.split()
        invalid = base is None or s.bool(3, 4)
        label, codes = 'valid', [0]
        args = dict(base or {})
        if invalid:
            label, change, codes = bads[s.draw(len(bads))]
            args.update(change)
        kind = 'obj' if clrt._SIG[fn][0] is vp else 'int'
        vals = []
        err = i32(0x7777)
        noerr = kind == 'obj' and s.bool(1, 6)
        for a in names:
            vals.append((None if noerr else C.byref(err)) if a == 'err' else args[a])
        w.keep.append(vals)
        s.cls(fn + (':invalid' if invalid else ':valid'))
        line = '%s: %s' % (fn, label)
        key = fn + ':' + label.replace(' ', '-')
        made = bool(w.after or w.tmp)
        if before is None or made:
            before = self.snap(w)
        if prep and not invalid:
            prep()
        e0 = len(cap.peek()[1])
        n0 = len(A.notes), len(w.B.notes)
        nat = w.native.raw if w.native else None
        text.append(line)
        s.desc = '\n'.join(text)
        res = raw(fn)(*vals)
        if kind == 'obj':
            code = err.value if not noerr else (0 if res else None)
            if not noerr and code == 0x7777:
                raise Fail('%s: errcode_ret was not written' % line, key + ':errcode')
            if code is not None and (code == 0) != bool(res):
                raise Fail('%s: returned %s with errcode %d' % (line, res, code), key + ':errcode')
        else:
            code = res
        if code is None:
            if codes == [0]:
                raise Fail('%s: returned NULL' % line, key)
        elif code not in codes:
            raise Fail('%s: returned %d (%s), expected %s' % (line, code, NAMES.get(code), ' or '.join('%d (%s)' % (c, NAMES.get(c, 'SUCCESS')) for c in codes)), key)
        err_text = cap.peek()[1][e0:].decode('latin1')
        notes = A.notes[n0[0]:] + w.B.notes[n0[1]:]
        reports = re.findall(r'OpenCL runtime error detected\n\tFunction: (\w+)\n\tError:    (\w+)', err_text)
        if not invalid:
            if reports or notes:
                raise Fail('%s: a call that succeeded was reported: %s' % (line, (err_text or notes[0]).strip()), key + ':report')
        else:
            if check:
                if len(reports) != 1:
                    raise Fail('%s: %d reports of a refused call:\n%s' % (line, len(reports), err_text), key + ':reports')
                want = 'CL_' + NAMES[code if code is not None else codes[0]]
                if reports[0][0] != fn:
                    raise Fail('%s: the report names function %s' % (line, reports[0][0]), key + ':function')
                if code is not None and reports[0][1] != want or code is None and reports[0][1] not in ['CL_' + NAMES[c] for c in codes]:
                    raise Fail('%s: returned %s, reported %s' % (line, code, reports[0][1]), key + ':name')
            elif 'OpenCL runtime error' in err_text:
                raise Fail('%s: output without API checking: %s' % (line, err_text), key + ':report')
            if len(notes) > 1:
                raise Fail('%s: the context was notified %d times' % (line, len(notes)), key + ':notify')
            if notes and check and notes[0].strip() not in err_text:
                raise Fail('%s: the notification differs from the report' % line, key + ':notify')
            if fn.startswith('clEnqueue') and args.get('q') in (A.q, A.qp) and not notes:
                raise Fail('%s: the context was not notified' % line, key + ':notify')
        # state
        if invalid:
            if w.ev is not None and w.ev.value != 0x5a5a5a5a:
                raise Fail('%s: the event output was written' % line, key + ':event')
            if w.out is not None and w.out.raw.strip(b'\xa5'):
                raise Fail('%s: param_value was written' % line, key + ':output')
            if nat is not None and w.native.raw != nat:
                raise Fail('%s: the arguments were written' % line, key + ':args')
            after = self.snap(w)
            self.compare(line, key, w, before, after, True)
            for f in w.after:
                f()
            self.drop(w)
            text[-1] += ' refused'
            return None if made else after
        # a valid call: clean up what it made, and nothing may be left behind
        if nat is not None and w.native.raw != nat:
            raise Fail('%s: the caller\'s arguments were written' % line, key + ':args')
        if callable(post):
            post(res)
        elif post == 'Context':
            raw('clReleaseContext')(res)
        elif isinstance(post, str):
            raw('clRelease' + post)(res)
        elif isinstance(post, tuple) and post[0] == 'map':
            call('clEnqueueUnmapMemObject', A.q, args[post[1]], res, 0, None, None)
        for q in (A.q, A.qp, w.B.q):
            call('clFinish', q)
        if args.get('ev') is not None:
            if w.ev.value in (0x5a5a5a5a, None):
                raise Fail('%s: no event was returned' % line, key + ':event')
            st = i32(77)
            call('clGetEventInfo', w.ev, 0x11D3, 4, C.byref(st), None)
            if st.value != 0:
                raise Fail('%s: after clFinish the status of its event is %d' % (line, st.value), key + ':status')
            call('clReleaseEvent', w.ev)
        if not w.after:
            self.compare(line, key, w, before, self.snap(w), False)
        for f in w.after:
            f()
        self.drop(w)
        return None

    def drop(self, w):
        for f in reversed(w.tmp):
            f()
        w.tmp = []

    def compare(self, line, key, w, a, b, full):
        for x, y in zip(a[0], b[0]):
            if x != y:
                raise Fail('%s: %s of %s %#x went from %d to %d' % (line, 'status' if x[0] == 'status' else 'reference count', x[0], x[1], x[2], y[2]), key + ':refs')
        if full and a[1:] != b[1:]:
            raise Fail('%s: a refused call changed memory' % line, key + ':memory')

    # ------------------------------------------------------------ listed findings
    def repro_alignment(self):
        with clrt.Ctx() as c:
            b = create('clCreateBuffer', c.ctx, 1, 256, None)
            err = i32()
            m = raw('clCreateSubBuffer')(b, 1, 0x1220, region(4, 16), C.byref(err))
            if m:
                raw('clReleaseMemObject')(m)
            raw('clReleaseMemObject')(b)
            if err.value == 0:
                raise Fail('a sub-buffer at offset 4 is created', 'sub-buffer-alignment')

    def repro_link(self):
        with clrt.Ctx() as c:
            st = (C.c_char_p * 1)(b'kernel void f() {}')
            p = create('clCreateProgramWithSource', c.ctx, 1, st, None)
            call('clCompileProgram', p, 0, None, b'', 0, None, None, PROGCB(0), None)
            err = i32()
            q = raw('clLinkProgram')(c.ctx, 0, None, b'-zzz', 1, parr([p]), PROGCB(0), None, C.byref(err))
            if q:
                raw('clReleaseProgram')(q)
            raw('clReleaseProgram')(p)
            if err.value == 0:
                raise Fail('the linker option -zzz is accepted', 'link-options')

    known_repros = {'sub-buffer-alignment': repro_alignment, 'link-options': repro_link}


CHECK = C18()
