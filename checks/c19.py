"""C19: object lifetimes, reference counts and info queries (history machine)."""
import ctypes as ct
import os
import struct
import sys

# Freed memory is overwritten only where the thread caches of malloc are off.
_T = 'glibc.malloc.tcache_count=0'
if os.environ.get('GLIBC_TUNABLES') != _T and os.path.basename(sys.argv[0]) in ('run.py', 'dbg.py'):
    os.environ['GLIBC_TUNABLES'] = _T
    sys.stdout.flush()
    os.execv(sys.executable, [sys.executable] + sys.orig_argv[1:])

import clrt
from pbt import Check, Fail

SRC = b'''kernel void k(global int *a, int slot, int v) { a[slot + get_global_id(0)] = v; }
kernel void two(global int *a, global int *b, int sa, int sb, int v) { a[sa] = v; b[sb] = v; }
kernel void five(global int *a, global int *b, global int *c, global int *d, global int *e, int sa, int sb, int sc, int sd, int se, int v) { a[sa] = v; b[sb] = v; c[sc] = v; d[sd] = v; e[se] = v; }
kernel void four(global int *a, global int *b, global int *c, global int *d, int sa, int sb, int sc, int sd, int v) { a[sa] = v; b[sb] = v; c[sc] = v; d[sd] = v; }
kernel void un(global int *a, int) { a[0] = 1; }
'''
NAMES = ['k', 'two', 'un', 'four', 'five']
NARGS = {'k': 3, 'two': 5, 'un': 2, 'four': 9, 'five': 11}
NPTR = {'k': 1, 'two': 2, 'un': 1, 'four': 4, 'five': 5}

NAMED = (b'a', b'b', b'c', b'd', b'e', b'sa', b'sb', b'sc', b'sd', b'se', b'v')
RW, WO, RO, USE, ALLOC, COPY = 1, 2, 4, 8, 16, 32
SLOTS = 64
RETAIN = {'context': 'clRetainContext', 'queue': 'clRetainCommandQueue', 'buffer': 'clRetainMemObject', 'sub': 'clRetainMemObject', 'image': 'clRetainMemObject',
          'imageb': 'clRetainMemObject', 'sampler': 'clRetainSampler', 'program': 'clRetainProgram', 'kernel': 'clRetainKernel', 'user': 'clRetainEvent',
          'event': 'clRetainEvent'}
RELEASE = {k: v.replace('Retain', 'Release') for k, v in RETAIN.items()}
REFS = {'context': ('clGetContextInfo', 0x1080), 'queue': ('clGetCommandQueueInfo', 0x1092), 'buffer': ('clGetMemObjectInfo', 0x1105),
        'sub': ('clGetMemObjectInfo', 0x1105), 'image': ('clGetMemObjectInfo', 0x1105), 'imageb': ('clGetMemObjectInfo', 0x1105),
        'sampler': ('clGetSamplerInfo', 0x1150), 'program': ('clGetProgramInfo', 0x1160), 'kernel': ('clGetKernelInfo', 0x1192),
        'user': ('clGetEventInfo', 0x11D2), 'event': ('clGetEventInfo', 0x11D2)}
MEMS = ('buffer', 'sub', 'image', 'imageb')
u32 = lambda v: struct.pack('<I', v)
u64 = lambda v: struct.pack('<Q', v or 0)


FOREVER = []  # what abandoned commands use


class ImageDesc(ct.Structure):
    _fields_ = [('type', ct.c_uint), ('w', ct.c_size_t), ('h', ct.c_size_t), ('d', ct.c_size_t), ('n', ct.c_size_t), ('rp', ct.c_size_t), ('sp', ct.c_size_t),
                ('mips', ct.c_uint), ('samples', ct.c_uint), ('mem', ct.c_void_p)]


class Obj:
    def __init__(self, kind, name, h, parents, **kw):
        self.kind, self.name, self.h, self.parents = kind, name, h, parents
        self.explicit = 1
        self.held = 0          # references that callbacks drop; nothing else may rely on them
        self.cbs = []          # ids of destructor callbacks, in registration order
        self.fired = []
        self.cmd = None
        self.__dict__.update(kw)


class Cmd:
    def __init__(self, queue, waits, mems, kernel, writes):
        self.queue, self.waits, self.mems, self.kernel, self.writes = queue, waits, mems, kernel, writes
        self.ordered = not queue.ooo  # waits for all previous commands of the queue
        self.state = 'pending'  # pending | done
        self.tainted = False    # depends on something that failed
        self.event = None


class C19(Check):
    id = 'C19'
    quick = 60000
    thorough = 2500000
    rule = ('a case is a history of API calls over 1-2 contexts; non-trivial when objects outlive references to the objects they depend on, or a released '
            'object is still used by a blocked command; distinct by the sequence of operations')
    assumptions = ['counts reported while an object has dependents or unfinished commands may include references of these, one for each use',
                   'an object without references is gone when the call that dropped the last one returns (the runtime is synchronous)',
                   'what commands do that depend on a failed user event is not judged']

    def init(self):
        try:
            ct.CDLL(None).mallopt(-6, 165)  # M_PERTURB: overwrite freed memory
        except Exception:
            pass
        clrt.load(self.b + '/liboclgrind-rt.so')
        clrt.setenv()
        self.plat, self.dev = clrt.device()
        with clrt.Capture():
            with clrt.Ctx() as c:
                p = c.program(SRC.decode())
                n = ct.c_size_t()
                clrt.call('clGetProgramInfo', p, 0x1165, 8, ct.byref(n), None)
                b = ct.create_string_buffer(n.value)
                a = (ct.c_void_p * 1)(ct.addressof(b))
                clrt.call('clGetProgramInfo', p, 0x1166, 8, a, None)
                self.binary = b.raw

    # ------------------------------------------------------------ info queries
    def query(self, what, fn, pre, param, expect=None, may_fail=None, post=None):
        """the protocol of one info query; returns the value"""
        f = clrt.raw(fn)
        n = ct.c_size_t(0xabcdef)
        before = len(self.notes)
        r = f(*pre, param, 0, None, ct.byref(n))
        if r != 0:
            if may_fail and r in may_fail:
                b = ct.create_string_buffer(b'\x5a' * 64, 64)
                r2 = f(*pre, param, 64, b, None)
                if r2 != r or b.raw != b'\x5a' * 64:
                    raise Fail('%s: query refused with %d, then with a buffer %d, buffer %s' % (what, r, r2, b.raw.hex()), key='info:refused')
                self.notes[before:] = []
                return None
            raise Fail('%s: the size query failed with %d' % (what, r), key='info:size-query')
        n = n.value
        vals = []
        for size, fill, ret in ((n, 0x5a, True), (n + 9, 0xc3, True), (n + 1, 0x3c, False)):
            b = ct.create_string_buffer(bytes([fill]) * (n + 32), n + 32)
            m = ct.c_size_t(0xabcdef)
            r = f(*pre, param, size, b, ct.byref(m) if ret else None)
            if r != 0:
                raise Fail('%s: failed with %d for %d bytes, needs %d' % (what, r, size, n), key='info:call')
            if ret and m.value != n:
                raise Fail('%s: size %d, then %d' % (what, n, m.value), key='info:size')
            if b.raw[n:] != bytes([fill]) * 32:
                raise Fail('%s: wrote past the %d bytes of the value: %s' % (what, n, b.raw[n:].hex()), key='info:past-end')
            vals.append(b.raw[:n])
        if post is None and (vals[0] != vals[1] or vals[0] != vals[2]):
            raise Fail('%s: values differ between queries: %s' % (what, [v.hex() for v in vals]), key='info:unstable')
        if self.notes[before:]:
            raise Fail('%s: an error was reported for a valid query: %s' % (what, self.notes[before:]), key='info:notified')
        for size in sorted({n - 1, n // 2, 1} if n > 1 else {0} if n == 1 else ()):
            if size >= n:
                continue
            b = ct.create_string_buffer(b'\x5a' * (n + 8), n + 8)
            r = f(*pre, param, size, b, None)
            if r != -30:
                raise Fail('%s: %d instead of CL_INVALID_VALUE for a buffer of %d bytes, needs %d' % (what, r, size, n), key='info:small')
            if b.raw != b'\x5a' * (n + 8):
                raise Fail('%s: wrote to a buffer of %d bytes that is too small' % (what, size), key='info:small-written')
        self.notes[before:] = []
        if expect is not None:
            ok = vals[0] in expect if isinstance(expect, (list, tuple, set)) else vals[0] == expect
            if not ok:
                raise Fail('%s: value %s, expected %s' % (what, vals[0].hex(), expect), key='info:value')
        return vals[0]

    def infos(self, s, o):
        """[(what, fn, pre, param, expected, allowed errors)] of an object"""
        k, h = o.kind, ct.c_void_p(o.h)
        ctx = [p for p in self.ancestors(o) if p.kind == 'context']
        ch = u64(ctx[0].h) if ctx else None
        L = []
        add = lambda fn, pre, par, exp, fail=None: L.append((fn, pre, par, exp, fail))
        if k == 'context':
            f, p = 'clGetContextInfo', (h,)
            add(f, p, 0x1081, u64(self.dev))
            add(f, p, 0x1082, o.props)
            add(f, p, 0x1083, u32(1))
        elif k == 'queue':
            f, p = 'clGetCommandQueueInfo', (h,)
            add(f, p, 0x1090, ch)
            add(f, p, 0x1091, u64(self.dev))
            add(f, p, 0x1093, u64(o.props))
            add(f, p, 0x1098, o.array)
        elif k in MEMS:
            f, p = 'clGetMemObjectInfo', (h,)
            add(f, p, 0x1100, u32({'buffer': 0x10F0, 'sub': 0x10F0, 'image': 0x10F1, 'imageb': 0x10F6}[k]))
            add(f, p, 0x1101, u64(o.flags))
            add(f, p, 0x1102, u64(o.size) if k != 'imageb' else None)
            add(f, p, 0x1103, u64(o.hostptr))
            add(f, p, 0x1104, u32(0))
            add(f, p, 0x1106, ch)
            par = [x for x in o.parents if x.kind in MEMS]
            add(f, p, 0x1107, u64(par[0].h if par else 0))
            add(f, p, 0x1108, u64(o.offset))
            add(f, p, 0x1109, u32(0))
            add(f, p, 0x110A, o.props)
            f = 'clGetImageInfo'
            if k in ('image', 'imageb'):
                add(f, p, 0x1110, struct.pack('<II', 0x10B0, 0x10DC))
                add(f, p, 0x1111, u64(4))
                add(f, p, 0x1112, u64(o.w * 4))
                add(f, p, 0x1113, u64(0))
                add(f, p, 0x1114, u64(o.w))
                add(f, p, 0x1115, u64(o.hh if k == 'image' else 0))
                add(f, p, 0x1116, u64(0))
                add(f, p, 0x1117, u64(0))
                add(f, p, 0x1118, u64(par[0].h if par else 0))
                add(f, p, 0x1119, u32(0))
                add(f, p, 0x111A, u32(0))
        elif k == 'sampler':
            f, p = 'clGetSamplerInfo', (h,)
            add(f, p, 0x1151, ch)
            add(f, p, 0x1152, u32(o.norm))
            add(f, p, 0x1153, u32(o.addr))
            add(f, p, 0x1154, u32(o.filt))
            add(f, p, 0x1158, o.props)
        elif k == 'program':
            f, p = 'clGetProgramInfo', (h,)
            add(f, p, 0x1161, ch)
            add(f, p, 0x1162, u32(1))
            add(f, p, 0x1163, u64(self.dev))
            add(f, p, 0x1164, SRC + b'\0' if o.how != 'binary' else None)
            add(f, p, 0x1165, None)
            if o.built:
                add(f, p, 0x1167, u64(len(NAMES)))
                add(f, p, 0x1168, None)
            elif not o.raw:
                L.append((f, p, 0x1167, None, (-45,)))
                L.append((f, p, 0x1168, None, (-45,)))
            f, p = 'clGetProgramBuildInfo', (h, ct.c_void_p(self.dev))
            if not o.raw:
                add(f, p, 0x1181, struct.pack('<i', 0 if o.built else -1))
            add(f, p, 0x1182, o.opts + b'\0' if o.built else b'\0')
            add(f, p, 0x1183, None)
            add(f, p, 0x1184, u32(4) if o.built else None)
            add(f, p, 0x1185, u64(0))
        elif k == 'kernel':
            f, p = 'clGetKernelInfo', (h,)
            add(f, p, 0x1190, o.fn.encode() + b'\0')
            add(f, p, 0x1191, u32(NARGS[o.fn]))
            add(f, p, 0x1193, ch)
            add(f, p, 0x1194, u64(o.parents[0].h))
            add(f, p, 0x1195, None)
            i = s.range(0, NARGS[o.fn] - 1)
            f, p = 'clGetKernelArgInfo', (h, i)
            ptr = i < NPTR[o.fn]
            add(f, p, 0x1196, u32(0x119B if ptr else 0x119E))
            add(f, p, 0x1197, u32(0x11A3))
            add(f, p, 0x1198, b'int*\0' if ptr else b'int\0')
            add(f, p, 0x1199, u64(0))
            add(f, p, 0x119A, {'k': [b'a', b'slot', b'v'], 'two': [b'a', b'b', b'sa', b'sb', b'v'], 'four': list(NAMED[:4] + NAMED[5:9] + NAMED[10:]), 'five': list(NAMED), 'un': [b'a', b'']}[o.fn][i] + b'\0')
            f, p = 'clGetKernelWorkGroupInfo', (h, ct.c_void_p(self.dev))
            add(f, p, 0x11B0, None)
            add(f, p, 0x11B1, b'\0' * 24)
            add(f, p, 0x11B2, u64(0))
            add(f, p, 0x11B3, None)
            add(f, p, 0x11B4, None)
        elif k in ('user', 'event'):
            f, p = 'clGetEventInfo', (h,)
            add(f, p, 0x11D1, u32(0x1204) if k == 'user' else u32(o.type))
            add(f, p, 0x11D4, ch)
            if k == 'user':
                add(f, p, 0x11D0, u64(0))
                add(f, p, 0x11D3, struct.pack('<i', 2 if o.status is None else o.status))
                L.append(('clGetEventProfilingInfo', p, 0x1280, None, (-7,)))
            else:
                if o.cmd.queue.explicit:
                    add(f, p, 0x11D0, u64(o.cmd.queue.h))
                c = o.cmd
                if not c.tainted:
                    if c.state == 'done':
                        add(f, p, 0x11D3, struct.pack('<i', 0))
                    elif self.blocked(c):
                        add(f, p, 0x11D3, [struct.pack('<i', v) for v in (2, 3)])
                    else:
                        add(f, p, 0x11D3, None)
                    done = c.state == 'done'
                    for q in range(0x1280, 0x1284):
                        if o.profiling and done:
                            add('clGetEventProfilingInfo', p, q, None)
                        elif not o.profiling or self.blocked(c):
                            L.append(('clGetEventProfilingInfo', p, q, None, (-7,)))
        return L

    def bad_params(self, s, o):
        k, h = o.kind, ct.c_void_p(o.h)
        f = REFS[k][0]
        c = [(f, (h,))]
        if k in MEMS:
            c.append(('clGetImageInfo', (h,)))
        if k == 'program':
            c.append(('clGetProgramBuildInfo', (h, ct.c_void_p(self.dev))))
        if k == 'kernel':
            c += [('clGetKernelArgInfo', (h, 0)), ('clGetKernelWorkGroupInfo', (h, ct.c_void_p(self.dev)))]
        f, p = s.choice(c)
        return f, p, s.choice([0, 1, 0xFFFFFFFF, 0x10FF, 0x1111F, 0x11FF, 0x1070 + 0x500, 0x7FFFFFFF])

    # ------------------------------------------------------------ model
    def ancestors(self, o):
        r, todo = [], list(o.parents)
        while todo:
            p = todo.pop()
            if p not in r:
                r.append(p)
                todo += p.parents
        return r

    def blocked(self, c, seen=None):
        """does a command (transitively) wait for a user event that is not set"""
        seen = {} if seen is None else seen
        if c in seen:
            return seen[c]
        seen[c] = False
        if c.state == 'done':
            return False
        b = False
        for e in c.waits:
            if e.kind == 'user':
                b = b or e.status is None
            else:
                b = b or self.blocked(e.cmd, seen)
        if not b and c.ordered:
            for d in c.queue.cmds:
                if d is c:
                    break
                if self.blocked(d, seen):
                    b = True
                    break
        seen[c] = b
        return b

    def propagate(self):
        """mark what depends on failed events"""
        for c in self.cmds:
            if c.tainted or c.state == 'done':
                continue
            for e in c.waits:
                if e.kind == 'user' and e.status is not None and e.status < 0 or e.kind == 'event' and e.cmd.tainted:
                    c.tainted = True
            if c.ordered:
                for d in c.queue.cmds:
                    if d is c:
                        break
                    if d.tainted and d.state != 'done':
                        c.tainted = True

    def complete(self, c):
        """the command, and all it waits for, have finished"""
        if c.state == 'done':
            return
        c.state = 'done'
        for e in c.waits:
            # one that fails need not wait for the others
            if e.kind == 'event' and not c.tainted:
                self.complete(e.cmd)
        if c.ordered:
            for d in c.queue.cmds:
                if d is c:
                    break
                self.complete(d)
        if not c.tainted:
            for root, slot, v in c.writes:
                root.data[slot] = v
        else:
            for root, slot, v in c.writes:
                root.data[slot] = None

    def live(self):
        """(definitely alive, possibly alive) objects"""
        sure = set(o for o in self.objs if o.explicit)
        maybe = set(sure)
        blk = {}
        for c in self.cmds:
            if c.state == 'done':
                continue
            use = list(c.mems) + [c.queue] + ([c.kernel] if c.kernel else []) + [e for e in c.waits] + ([c.event] if c.event else [])
            maybe.update(use)
            if self.blocked(c, blk) and not c.tainted:
                sure.update(use)
        for S in (sure, maybe):
            todo = list(S)
            while todo:
                for p in todo.pop().parents:
                    if p not in S:
                        S.add(p)
                        todo.append(p)
        return sure, maybe

    def worked(self):
        self.runs = True

    def settle(self):
        """commands of released queues execute as soon as nothing blocks them, when any queue is worked on"""
        if not self.runs:
            return
        self.runs = False
        for c in self.cmds:
            if not c.queue.explicit and c.state != 'done' and not c.tainted and not self.blocked(c):
                self.complete(c)

    def sync(self, op):
        self.propagate()
        self.settle()
        sure, maybe = self.live()
        for o in self.objs:
            if o.fired and o in sure:
                raise Fail('%s was destroyed by "%s" while it was still referenced (explicitly %d, by %s)' % (
                    o.name, op, o.explicit, [x.name for x in sure if o in self.ancestors(x)]), key='destroyed-early')
            if o.cbs and not o.fired and o not in maybe:
                raise Fail('%s was not destroyed by "%s", though nothing references it' % (o.name, op), key='not-destroyed')
            if o.fired and o.fired != o.cbs[::-1]:
                raise Fail('destructor callbacks of %s ran in the order %s, registered as %s' % (o.name, o.fired, o.cbs), key='callback-order')
            if o.kind in ('event', 'user'):
                c = o.cmd
                if o.evfired and (o.status is None if o.kind == 'user' else c.state != 'done' and self.blocked(c) and not c.tainted):
                    raise Fail('the callback of %s ran before it was complete' % o.name, key='event-callback-early')
                if (o.kind == 'user' and o.status is not None or o.kind == 'event' and c.state == 'done') and o.evfired != o.evcbs:
                    raise Fail('%s has %d callbacks, %d ran' % (o.name, o.evcbs, o.evfired), key='event-callback-count')
        for e in self.errors:
            raise e
        if self.notes:
            raise Fail('an error was reported for valid calls (%s): %s' % (op, self.notes[0]), key='notified')
        # forget what is gone for sure
        self.objs = [o for o in self.objs if o in maybe and not o.fired]

    # ------------------------------------------------------------ callbacks
    def mem_cb(self, o, n):
        def f(h, data):
            try:
                o.fired.append(n)
                if h != o.h:
                    raise Fail('destructor callback of %s got another object' % o.name, key='callback-object')
                if o.kind == 'context':
                    self.query('callback of ' + o.name, 'clGetContextInfo', (ct.c_void_p(h),), 0x1082, o.props)
                else:
                    self.query('callback of ' + o.name, 'clGetMemObjectInfo', (ct.c_void_p(h),), 0x1102, u64(o.size) if o.kind != 'imageb' else None)
                    self.query('callback of ' + o.name, 'clGetMemObjectInfo', (ct.c_void_p(h),), 0x1101, u64(o.flags))
                    cx = [p for p in self.ancestors(o) if p.kind == 'context'][0]
                    self.query('context in callback of ' + o.name, 'clGetContextInfo', (ct.c_void_p(cx.h),), 0x1083, u32(1))
                x = o.also
                if x is not None and n == o.cbs[0] and x.explicit > 0:
                    x.explicit -= 1
                    x.held -= 1
                    clrt.call(RELEASE[x.kind], x.h)
                    if x.kind == 'queue':
                        self.worked()
            except Fail as e:
                self.errors.append(e)
            except clrt.CLError as e:
                self.errors.append(Fail('in a callback: %s' % e, key='callback-call'))
        cb = clrt.MEMCB(f)
        self.keep.append(cb)
        return cb

    def ev_cb(self, o, release):
        def f(h, st, data):
            o.evfired += 1
            try:
                v = self.query('status in callback of ' + o.name, 'clGetEventInfo', (ct.c_void_p(h),), 0x11D3)
                if struct.unpack('<i', v)[0] > 0 or st > 0 or h != o.h:
                    raise Fail('callback of %s: status %s, argument %d' % (o.name, v.hex(), st), key='event-callback-status')
                if release and o.explicit > 0:
                    o.explicit -= 1
                    o.held -= 1
                    clrt.call('clReleaseEvent', h)
            except Fail as e:
                self.errors.append(e)
        cb = clrt.EVCB(f)
        self.keep.append(cb)
        return cb

    # ------------------------------------------------------------ the case
    def add(self, s, kind, h, parents, **kw):
        self.n += 1
        o = Obj(kind, '%s%d' % (kind, self.n), h, parents, **kw)
        o.also = None
        if kind in ('event', 'user'):
            o.evfired = o.evcbs = 0
        self.objs.append(o)
        if kind in MEMS or kind == 'context':
            for _ in range(s.weighted([(4, 1), (2, 2), (1, 3)])):
                self.cbn += 1
                fn = 'clSetContextDestructorCallback' if kind == 'context' else 'clSetMemObjectDestructorCallback'
                o.cbs.append(self.cbn)
                clrt.call(fn, h, ct.cast(self.mem_cb(o, self.cbn), ct.c_void_p), None)
            if s.bool(1, 6):
                c = [x for x in self.objs if x.explicit > x.held and x.kind not in ('context', 'queue') and x is not o and o not in self.ancestors(x)]
                if c:
                    x = s.choice(c)
                    o.also = x
                    # the reference that the callback drops
                    x.explicit += 1
                    x.held += 1
                    clrt.call(RETAIN[x.kind], x.h)
                    o.name += '(its callback releases %s)' % x.name
        return o

    def of(self, *kinds):
        return [o for o in self.objs if o.kind in kinds and o.explicit > o.held]

    def new_context(self, s):
        how = s.range(0, 2)
        notify = clrt.NOTIFY(lambda m, p, z, d: self.notes.append(m.decode('latin1').strip().replace('\n', ' ')))
        self.keep.append(notify)
        props = None
        if s.bool():
            props = [0x1084, self.plat, 0]
        arr = (ct.c_ssize_t * len(props))(*props) if props else None
        d = (ct.c_void_p * 1)(self.dev)
        if how:
            h = clrt.create('clCreateContext', arr, 1, d, ct.cast(notify, ct.c_void_p), None)
        else:
            h = clrt.create('clCreateContextFromType', arr, s.choice([0xFFFFFFFF, 1, 2]), ct.cast(notify, ct.c_void_p), None)
        return self.add(s, 'context', h, [], props=struct.pack('<3Q', *props) if props else b'')

    def new_queue(self, s, c):
        p = s.choice([0, 1, 2, 3])
        how = s.range(0, 2)
        arr = b''
        if how == 0:
            h = clrt.create('clCreateCommandQueue', c.h, self.dev, p)
        elif how == 1 and p == 0 and s.bool():
            h = clrt.create('clCreateCommandQueueWithProperties', c.h, self.dev, None)
        else:
            a = [0x1093, p, 0]
            arr = struct.pack('<3Q', *a)
            h = clrt.create('clCreateCommandQueueWithProperties', c.h, self.dev, (ct.c_uint64 * 3)(*a))
        return self.add(s, 'queue', h, [c], props=p, array=arr, ooo=bool(p & 1), cmds=[])

    def new_buffer(self, s, c):
        fl = s.choice([RW, WO, RO])
        host = s.weighted([(3, 0), (2, USE), (2, COPY), (1, ALLOC), (1, ALLOC | COPY)])
        size = SLOTS * 4 + s.choice([0, 0, 4, 100, 4096])
        b = None
        data = None
        if host & (USE | COPY):
            b = ct.create_string_buffer(struct.pack('<%di' % SLOTS, *range(-SLOTS, 0)) + b'\0' * (size - SLOTS * 4), size)
            self.keep.append(b)
            data = list(range(-SLOTS, 0))
        props = b''
        if s.bool(1, 4):
            a = (ct.c_uint64 * 1)(0) if s.bool() else None
            props = b'\0' * 8 if a is not None else b''
            h = clrt.create('clCreateBufferWithProperties', c.h, a, fl | host, size, b)
        else:
            h = clrt.create('clCreateBuffer', c.h, fl | host, size, b)
        return self.add(s, 'buffer', h, [c], flags=fl | host, size=size, hostptr=ct.addressof(b) if host & USE else 0, offset=0, props=props, data=data or [None] * SLOTS,
                        slot=0, root=None, lo=0, hi=SLOTS, ext=size)

    def new_sub(self, s, par):
        # origins are aligned as the device demands
        o = s.choice([0, 128])
        size = s.choice([64, 128, 4, 100])
        fl = s.choice([0, par.flags & 7])
        r = (ct.c_size_t * 2)(o, size)
        h = clrt.create('clCreateSubBuffer', par.h, fl, 0x1220, r)
        return self.add(s, 'sub', h, [par], flags=par.flags, size=size, hostptr=par.hostptr + o if par.hostptr else 0, offset=o, props=b'', root=par, lo=o // 4,
                        hi=(o + size) // 4)

    def new_image(self, s, c):
        fl = s.choice([RW, WO, RO])
        b = None
        host = s.weighted([(2, 0), (1, COPY), (1, USE)])
        w, hh = s.choice([(SLOTS, 1), (SLOTS, 2)])
        if host:
            b = ct.create_string_buffer(struct.pack('<%di' % (w * hh), *[-i - 1 for i in range(w * hh)]), w * hh * 4)
            self.keep.append(b)
        f = (ct.c_uint * 2)(0x10B0, 0x10DC)
        d = ImageDesc(0x10F1, w, hh, 0, 0, 0, 0, 0, 0, None)
        props = b''
        if s.bool(1, 4):
            a = (ct.c_uint64 * 1)(0) if s.bool() else None
            props = b'\0' * 8 if a is not None else b''
            h = clrt.create('clCreateImageWithProperties', c.h, a, fl | host, f, ct.byref(d), b)
        else:
            h = clrt.create('clCreateImage', c.h, fl | host, f, ct.byref(d), b)
        return self.add(s, 'image', h, [c], flags=fl | host, size=w * hh * 4, hostptr=ct.addressof(b) if host & USE else 0, offset=0, props=props,
                        data=[-i - 1 for i in range(SLOTS)] if host else [None] * SLOTS, slot=0, root=None, lo=0, hi=SLOTS, w=w, hh=hh)

    def new_imageb(self, s, par):
        w = s.choice([SLOTS, 10])
        f = (ct.c_uint * 2)(0x10B0, 0x10DC)
        d = ImageDesc(0x10F6, w, 0, 0, 0, 0, 0, 0, 0, par.h)
        fl = par.flags & 7
        h = clrt.create('clCreateImage', [x for x in self.ancestors(par) if x.kind == 'context'][0].h, fl, f, ct.byref(d), None)
        return self.add(s, 'imageb', h, [par], flags=par.flags, size=w * 4, hostptr=par.hostptr, offset=0, props=b'', root=par, lo=0, hi=w, w=w, hh=1)

    def new_sampler(self, s, c):
        n, a, f = s.range(0, 1), s.choice([0x1130, 0x1131, 0x1132]), s.choice([0x1140, 0x1141])
        if s.bool():
            h = clrt.create('clCreateSampler', c.h, n, a, f)
            props = b''
        else:
            l = [0x1152, n, 0x1153, a, 0x1154, f, 0]
            h = clrt.create('clCreateSamplerWithProperties', c.h, (ct.c_uint64 * 7)(*l))
            props = struct.pack('<7Q', *l)
        return self.add(s, 'sampler', h, [c], norm=n, addr=a, filt=f, props=props)

    def new_program(self, s, c):
        how = s.weighted([(2, 'source'), (2, 'binary'), (1, 'build')])
        if how == 'binary':
            b = ct.create_string_buffer(self.binary, len(self.binary))
            n = (ct.c_size_t * 1)(len(self.binary))
            a = (ct.c_void_p * 1)(ct.addressof(b))
            d = (ct.c_void_p * 1)(self.dev)
            h = clrt.create('clCreateProgramWithBinary', c.h, 1, d, n, a, None)
        else:
            src = (ct.c_char_p * 1)(SRC)
            h = clrt.create('clCreateProgramWithSource', c.h, 1, src, None)
        opts = b''
        if how == 'build':
            opts = s.choice([b'', b'-w', b'-DX=1'])
            clrt.call('clBuildProgram', h, 0, None, opts, None, None)
        elif how == 'binary' and s.bool():
            clrt.call('clBuildProgram', h, 0, None, b'', None, None)
        elif how == 'binary':
            how = 'raw'
        return self.add(s, 'program', h, [c], how='binary' if how in ('raw', 'binary') else how, raw=how == 'raw', built=how in ('binary', 'build'), opts=opts)

    def context_of(self, o):
        return [x for x in [o] + self.ancestors(o) if x.kind == 'context'][0]

    def next_slot(self, m):
        root = m.root or m
        # slots of the root are handed out once
        free = [i for i in range(m.lo, m.hi) if i not in root.__dict__.setdefault('used', set())]
        if not free:
            return None, None
        root.used.add(free[0])
        return root, free[0]

    def enqueue(self, s, q):
        ctx = self.context_of(q)
        mems = [o for o in self.of(*MEMS) if self.context_of(o) is ctx]
        ks = [o for o in self.of('kernel') if o.fn != 'un' and self.context_of(o) is ctx]
        evs = [o for o in self.of('user', 'event') if self.context_of(o) is ctx]
        # waiting for a failed event is refused or fails: do not start that
        evs = [e for e in evs if not (e.kind == 'user' and e.status is not None and e.status < 0) and not (e.kind == 'event' and e.cmd.tainted)]
        waits = s.subset(evs, 1, 2)[:3] if evs and s.bool(2, 3) else []
        kinds = [(1, 'marker')]
        if mems:
            kinds += [(3, 'write'), (1, 'fill')]
        bufs = [m for m in mems if m.kind in ('buffer', 'sub')]
        if ks and bufs:
            kinds.append((6, 'kernel'))
        k = s.weighted(kinds)
        v = s.range(1, 0x7fffffff)
        wl = clrt.parr([e.h for e in waits])
        ev = ct.c_void_p() if s.bool(2, 3) else None
        evp = ct.byref(ev) if ev is not None else None
        writes, used, kern = [], [], None
        if k == 'marker':
            clrt.call('clEnqueueMarkerWithWaitList', q.h, len(waits), wl, evp)
            typ = 0x11FE
        elif k in ('write', 'fill'):
            m = s.choice(mems)
            root, slot = self.next_slot(m)
            if root is None:
                return None
            b = ct.create_string_buffer(struct.pack('<i', v), 4)
            self.keep.append(b)
            if m.kind in ('buffer', 'sub'):
                if k == 'write':
                    clrt.call('clEnqueueWriteBuffer', q.h, m.h, 0, (slot - m.lo) * 4, 4, b, len(waits), wl, evp)
                    typ = 0x11F4
                else:
                    clrt.call('clEnqueueFillBuffer', q.h, m.h, b, 4, (slot - m.lo) * 4, 4, len(waits), wl, evp)
                    typ = 0x1207
                    ct.memset(b, 0x77, 4)
            else:
                o, r = clrt.szarr([slot - m.lo, 0, 0]), clrt.szarr([1, 1, 1])
                if k == 'write':
                    clrt.call('clEnqueueWriteImage', q.h, m.h, 0, o, r, 0, 0, b, len(waits), wl, evp)
                    typ = 0x11F7
                else:
                    px = (ct.c_uint * 4)(v, 0, 0, 0)
                    clrt.call('clEnqueueFillImage', q.h, m.h, px, o, r, len(waits), wl, evp)
                    typ = 0x1208
            writes, used = [(root, slot, v)], [m]
        else:
            kern = s.choice(ks)
            # kernels must not write to read-only buffers
            bufs = [m for m in bufs if not m.flags & RO]
            if not bufs:
                return None
            ms = [s.choice(bufs) for _ in range(NPTR[kern.fn])]
            sl = []
            for m in ms:
                root, slot = self.next_slot(m)
                if root is None:
                    return None
                sl.append(slot - m.lo)
                writes.append((root, slot, v))
            i = 0
            kern.args = ms
            for m in ms:
                clrt.call('clSetKernelArg', kern.h, i, 8, ct.byref(ct.c_void_p(m.h)))
                i += 1
            for x in sl + [v]:
                clrt.call('clSetKernelArg', kern.h, i, 4, ct.byref(ct.c_int(x)))
                i += 1
            if s.bool(1, 4):
                clrt.call('clEnqueueTask', q.h, kern.h, len(waits), wl, evp)
                typ = 0x11F1
            else:
                clrt.call('clEnqueueNDRangeKernel', q.h, kern.h, 1, None, clrt.szarr([1]), None, len(waits), wl, evp)
                typ = 0x11F0
            used = kern.args = ms
        c = Cmd(q, waits, used, kern, writes)
        c.ordered = not q.ooo or k == 'marker' and not waits
        q.cmds.append(c)
        self.cmds.append(c)
        if ev is not None:
            c.event = self.add(s, 'event', ev.value, [ctx], type=typ, profiling=bool(q.props & 2))
            c.event.cmd = c
        return '%s on %s %s waits %s%s -> %s' % (k, q.name, [m.name for m in used], [e.name for e in waits], ' ' + kern.name if kern else '',
                                                 c.event.name if c.event else None)

    def readback(self, s, m):
        root = m.root or m
        if root.fired:
            return
        ctx = self.context_of(m)
        q = clrt.create('clCreateCommandQueue', ctx.h, self.dev, 0)
        n = m.hi - m.lo
        out = ct.create_string_buffer(n * 4)
        if m.kind in ('buffer', 'sub'):
            clrt.call('clEnqueueReadBuffer', q, m.h, 1, 0, n * 4, out, 0, None, None)
        else:
            clrt.call('clEnqueueReadImage', q, m.h, 1, clrt.szarr([0, 0, 0]), clrt.szarr([n, 1, 1]), 0, 0, out, 0, None, None)
        clrt.call('clReleaseCommandQueue', q)
        self.worked()
        got = struct.unpack('<%di' % n, out.raw)
        unknown = {}
        for c in self.cmds:
            if c.state != 'done':
                for r, slot, v in c.writes:
                    if r is root:
                        unknown[slot] = (v, c)
        for i in range(n):
            slot = m.lo + i
            e = root.data[slot]
            ok = [e]
            if slot in unknown:
                v, c = unknown[slot]
                if not self.blocked(c) or c.tainted:
                    ok.append(v)
            if e is None:
                if slot in unknown and self.blocked(unknown[slot][1]) and not unknown[slot][1].tainted and got[i] == unknown[slot][0]:
                    raise Fail('%s: a command that waits for an unset event has executed' % m.name, key='executed-early')
                continue
            if got[i] not in ok:
                raise Fail('%s[%d]: %d, expected %s' % (m.name, i, got[i], ok), key='data')

    def refs(self, o):
        fn, par = REFS[o.kind]
        v = struct.unpack('<I', self.query('reference count of ' + o.name, fn, (ct.c_void_p(o.h),), par))[0]
        sure, maybe = self.live()
        extra = 0
        for x in maybe:
            if x.kind == 'context' or x is o:
                continue
            extra += x.parents.count(o)
            if o.kind == 'context' and o in self.ancestors(x) and o not in x.parents:
                extra += 1
        for c in self.cmds:
            if c.state != 'done':
                extra += c.mems.count(o) + (c.kernel is o) + c.waits.count(o) + (c.event is o) + (c.queue is o)
                if o.kind == 'context' and self.context_of(c.queue) is o:
                    extra += 2
        if not o.explicit <= v <= o.explicit + extra:
            raise Fail('%s has reference count %d, expected %d%s' % (o.name, v, o.explicit, '..%d' % (o.explicit + extra) if extra else ''), key='refcount:' + o.kind)
        return v

    def case(self, s):
        self.objs, self.cmds, self.keep, self.notes, self.errors = [], [], [], [], []
        self.n = self.cbn = 0
        self.runs = False
        clrt.setenv()
        log = []
        s.desc = ''

        def did(op):
            log.append(op)
            s.desc = '\n'.join(log)
            self.sync(op)
        try:
            with clrt.Capture():
                self.run_case(s, did)
        finally:
            # python may drop the callbacks only now
            pass

    def release(self, s, o):
        o.explicit -= 1
        kids = [x for x in self.objs if o in x.parents and x.explicit > 0]
        if o.explicit == 0 and kids:
            s.cls('dependents')
            self.interesting.add('dep:' + o.kind)
        if o.explicit == 0:
            for c in self.cmds:
                if c.state != 'done' and (o in c.mems or o is c.kernel or o is c.queue or o in c.waits or o is c.event) and self.blocked(c):
                    s.cls('blocked-use')
                    self.interesting.add('blk:' + o.kind)
        clrt.call(RELEASE[o.kind], o.h)
        if o.kind == 'queue':
            self.worked()

    def run_case(self, s, did):
        self.interesting = set()
        ops = []
        c0 = self.new_context(s)
        did('create ' + c0.name)
        nops = s.range(8, 60)
        for _ in range(nops):
            ctxs = self.of('context')
            cand = []
            W = lambda w, name, f, *a: cand.append((w, (name, f, a)))
            if ctxs:
                c = s.choice(ctxs)
                if len(ctxs) < 2:
                    W(1, 'context', lambda: 'create ' + self.new_context(s).name)
                W(3, 'queue', lambda: 'create ' + self.new_queue(s, c).name)
                W(4, 'buffer', lambda: 'create ' + self.new_buffer(s, c).name)
                W(1, 'image', lambda: 'create ' + self.new_image(s, c).name)
                W(1, 'sampler', lambda: 'create ' + self.new_sampler(s, c).name)
                if len(self.of('program')) < 2:
                    W(3, 'program', lambda: 'create ' + self.new_program(s, c).name)
                W(3, 'user', lambda: 'create ' + self.add(s, 'user', clrt.create('clCreateUserEvent', c.h), [c], status=None).name)
            b = self.of('buffer')
            if b:
                par = s.choice(b)
                W(3, 'sub', lambda: 'create %s of %s' % (self.new_sub(s, par).name, par.name))
                W(2, 'imageb', lambda: 'create %s of %s' % (self.new_imageb(s, par).name, par.name))
            p = [x for x in self.of('program') if x.built]
            if p:
                pr = s.choice(p)

                def mk():
                    how = s.range(0, 3)
                    if how == 0:
                        arr = (ct.c_void_p * len(NAMES))()
                        n = ct.c_uint()
                        clrt.call('clCreateKernelsInProgram', pr.h, len(NAMES), arr, ct.byref(n))
                        r = []
                        for h in arr:
                            nm = self.query('kernel name', 'clGetKernelInfo', (ct.c_void_p(h),), 0x1190)[:-1].decode()
                            r.append(self.add(s, 'kernel', h, [pr], fn=nm, args=[]).name)
                        return 'create kernels %s of %s' % (r, pr.name)
                    fn = s.choice(NAMES)
                    return 'create %s (%s) of %s' % (self.add(s, 'kernel', clrt.create('clCreateKernel', pr.h, fn.encode()), [pr], fn=fn, args=[]).name, fn, pr.name)
                W(4, 'kernel', mk)
            ks = self.of('kernel')
            # cloning sets the same arguments, which must be there
            kc = [x for x in ks if all(m.explicit > m.held for m in x.args)]
            if kc:
                kk = s.choice(kc)
                W(1, 'clone', lambda: 'create %s, a clone of %s' % (self.add(s, 'kernel', clrt.create('clCloneKernel', kk.h), [kk.parents[0]], fn=kk.fn, args=list(kk.args)).name, kk.name))
            live = [x for x in self.objs if x.explicit > x.held]
            if live:
                o = s.choice(live)

                def ret():
                    o.explicit += 1
                    clrt.call(RETAIN[o.kind], o.h)
                    return 'retain ' + o.name

                def rel():
                    if o.kind == 'user' and o.status is None and o.explicit == 1 and s.bool(3, 4):
                        # else its commands would never execute
                        self.setstatus(o, 0)
                        did('set %s to 0' % o.name)
                    self.release(s, o)
                    return 'release ' + o.name
                W(5, 'retain', ret)
                W(14, 'release', rel)
                W(4, 'refs', lambda: 'reference count of %s: %d' % (o.name, self.refs(o)))

                def info():
                    if s.bool(1, 6):
                        f, pre, par = self.bad_params(s, o)
                        self.query('%s(%#x) of %s' % (f, par, o.name), f, pre, par, None, (-30, -38, -58, -7) if f != 'clGetImageInfo' else (-30, -38, -40))
                        return 'query %s %#x of %s' % (f, par, o.name)
                    f, pre, par, exp, fail = s.choice(self.infos(s, o))
                    v = self.query('%s(%#x) of %s' % (f, par, o.name), f, pre, par, exp, fail)
                    if fail and v is not None:
                        raise Fail('%s(%#x) of %s gives a value' % (f, par, o.name), key='info:not-refused')
                    return 'query %s %#x of %s' % (f, par, o.name)
                W(8, 'info', info)
                W(1, 'devinfo', lambda: self.devinfo(s))
                # objects that only dependents keep alive
                sure, _m = self.live()
                hidden = [x for x in self.objs if x.explicit == 0 and x in sure and x.kind not in ('event', 'queue', 'kernel')]
                if hidden:
                    x = s.choice(hidden)

                    def hid():
                        f, pre, par, exp, fail = s.choice(self.infos(s, x))
                        self.query('%s(%#x) of the released %s, which is still in use' % (f, par, x.name), f, pre, par, exp, fail)
                        self.interesting.add('hidden:' + x.kind)
                        return 'query %#x of released %s' % (par, x.name)
                    W(4, 'hidden', hid)
            qs = self.of('queue')
            if qs:
                q = s.choice(qs)
                W(9, 'enqueue', lambda: self.enqueue(s, q))
                W(2, 'flush', lambda: (clrt.call('clFlush', q.h), self.worked(), 'flush ' + q.name)[2])
                if not any(self.blocked(x) for x in q.cmds):
                    def fin():
                        clrt.call('clFinish', q.h)
                        self.worked()
                        self.propagate()
                        for x in q.cmds:
                            self.complete(x)
                        return 'finish ' + q.name
                    W(3, 'finish', fin)
            evs = [e for e in self.of('event') if not self.blocked(e.cmd) and not e.cmd.tainted] + [e for e in self.of('user') if e.status == 0]
            if evs:
                e = s.choice(evs)
                es = [e] + [x for x in s.subset(evs, 1, 4) if self.context_of(x) is self.context_of(e)]

                def wait():
                    self.worked()
                    clrt.call('clWaitForEvents', len(es), clrt.parr([x.h for x in es]))
                    for x in es:
                        if x.kind == 'event':
                            self.complete(x.cmd)
                    return 'wait for %s' % [x.name for x in es]
                W(3, 'wait', wait)
            us = [e for e in self.of('user') if e.status is None]
            if us:
                e = s.choice(us)

                def setst():
                    st = s.weighted([(6, 0), (1, -5)])
                    self.setstatus(e, st)
                    return 'set %s to %d' % (e.name, st)
                W(5, 'set', setst)
            evs2 = self.of('user', 'event')
            if evs2:
                e2 = s.choice(evs2)

                def cb():
                    if e2.kind == 'event' and e2.cmd.tainted:
                        return None
                    rl = s.bool(1, 3)
                    if rl:
                        # the reference that the callback drops
                        e2.explicit += 1
                        e2.held += 1
                        clrt.call('clRetainEvent', e2.h)
                    e2.evcbs += 1
                    clrt.call('clSetEventCallback', e2.h, s.choice([0, 0, 1, 2]) if e2.kind == 'event' else 0, ct.cast(self.ev_cb(e2, rl), ct.c_void_p), None)
                    return 'callback on %s%s' % (e2.name, ', releases it' if rl else '')
                W(2, 'evcb', cb)
            ms = [m for m in self.of(*MEMS)]
            if ms:
                m = s.choice(ms)
                W(4, 'read', lambda: (self.readback(s, m), 'read ' + m.name)[1])
            if not cand:
                break
            name, f, a = s.weighted(cand)
            try:
                r = f()
            except clrt.CLError as e:
                raise Fail('%s failed: %s' % (name, e), key='call:%s' % e.fn)
            if r:
                ops.append(name)
                did(r)
        # the end: everything is set and released, in any order
        steps = []
        for o in self.objs:
            steps += [('release', o)] * (o.explicit - o.held)
            if o.kind == 'user' and o.status is None:
                steps.append(('set', o))
        for o in [x for x in self.objs if x.kind == 'user' and x.status is None and 0 < x.explicit == x.held]:
            # only callbacks hold these, and those of others may drop them
            if not o.explicit:
                continue
            self.setstatus(o, 0)
            did('end: set ' + o.name)
        for w, o in s.shuffle(steps):
            if o.kind == 'user' and o.status is None and o.explicit and (w == 'set' or o.explicit - o.held == 1):
                # user events have to be set before they go
                self.setstatus(o, 0)
                did('end: set ' + o.name)
            if w == 'release':
                self.release(s, o)
                did('end: release ' + o.name)
        # work on another queue executes what is left, unless its user event is gone
        d = (ct.c_void_p * 1)(self.dev)
        x = clrt.create('clCreateContext', None, 1, d, None, None)
        q = clrt.create('clCreateCommandQueue', x, self.dev, 0)
        if s.bool():
            clrt.call('clFlush', q)
        clrt.call('clReleaseCommandQueue', q)
        clrt.call('clReleaseContext', x)
        blk = {}
        lost = [c for c in self.cmds if self.blocked(c, blk)]
        if lost:
            FOREVER.append(self.keep)
            s.cls('abandoned')
        for c in self.cmds:
            if c not in lost:
                c.state = 'done'
        did('end')
        if self.interesting:
            s.nontrivial((tuple(ops), tuple(sorted(self.interesting))))

    def setstatus(self, e, st):
        e.status = st
        clrt.call('clSetUserEventStatus', e.h, st)

    def devinfo(self, s):
        if s.bool(1, 4):
            f, pre, par = 'clGetPlatformInfo', (ct.c_void_p(self.plat),), s.range(0x08FF, 0x0909)
        elif s.bool(1, 12):
            # supported image formats: another protocol
            return self.formats(s)
        else:
            f, pre, par = 'clGetDeviceInfo', (ct.c_void_p(self.dev),), s.range(0xFFE, 0x1073)
        self.query('%s(%#x)' % (f, par), f, pre, par, None, (-30,))
        return 'query %s %#x' % (f, par)

    def formats(self, s):
        ctxs = self.of('context')
        if not ctxs:
            return None
        c = s.choice(ctxs)
        n = ct.c_uint(99)
        fl, t = s.choice([1, 2, 4]), s.choice([0x10F1, 0x10F2, 0x10F3, 0x10F4, 0x10F5, 0x10F6])
        clrt.call('clGetSupportedImageFormats', c.h, fl, t, 0, None, ct.byref(n))
        m = s.range(1, n.value + 2)
        b = ct.create_string_buffer(b'\x5a' * (8 * (n.value + 4)), 8 * (n.value + 4))
        clrt.call('clGetSupportedImageFormats', c.h, fl, t, m, b, None)
        k = min(m, n.value)
        if b.raw[8 * k:] != b'\x5a' * (8 * (n.value + 4 - k)):
            raise Fail('clGetSupportedImageFormats wrote past the %d entries it was given' % m, key='formats-past')
        if b'\x5a' * 8 in [b.raw[8 * i:8 * i + 8] for i in range(k)]:
            raise Fail('clGetSupportedImageFormats wrote less than %d entries' % k, key='formats-short')
        return 'image formats'


CHECK = C19()
