"""C17: histories of enqueues, user events and waits over several queues."""
import ctypes as C
import random
import threading
import time
import clrt
from clrt import vp, szarr, call, raw, create
from pbt import Check, Fail

OOO, PROF = 1, 2
QUEUED, SUBMITTED, RUNNING, COMPLETE = 3, 2, 1, 0
EXEC_ERR, PROF_NA, INVALID_OP = -14, -7, -59
N = 64          # slots of the progress buffer
TYPES = dict(native=0x11F2, kernel=0x11F0, task=0x11F1, fill=0x1207, write=0x11F4, copy=0x11F5, read=0x11F3, marker=0x11FE, barrier=0x1205, migrate=0x1206,
             map=0x11FB, unmap=0x11FD, writerect=0x1202, barrier0=0x1205, marker0=0x11FE, waitfor=0x1205)
SRC = '''
kernel void step(global uint *p, global uint *snap, uint i)
{
  for (int j = 0; j < %d; j++) snap[i * %d + j] = p[j];
  p[i] += 1;
}
''' % (N, N)


class Cmd:
    def __init__(self, i, kind, q, explicit, implicit):
        self.i, self.kind, self.q = i, kind, q
        self.explicit, self.implicit = explicit, implicit    # Cmd or User
        self.h = None
        self.status = None      # last seen
        self.final = None
        self.snap = None
        self.cbs = []

    def __repr__(self):
        return 'c%d' % self.i


class User:
    def __init__(self, i, h):
        self.i, self.h = i, h
        self.final = None
        self.setting = False
        self.by = None          # a command whose callback sets this event
        self.cbs = []
        self.explicit = self.implicit = ()

    def __repr__(self):
        return 'u%d' % self.i


class Queue:
    def __init__(self, i, h, props):
        self.i, self.h, self.props = i, h, props
        self.cmds = []
        self.barrier = None


class C17(Check):
    id = 'C17'
    quick = 24000
    thorough = 600000
    case_timeout = 12
    rule = ('a case is a history of enqueues, user events, waits and status queries over one to three queues; non-trivial when it has at least two queues or an '
            'out-of-order queue, and an explicit dependency; distinct by history')
    assumptions = ['the effects of commands that follow a failed command in an in-order queue without waiting for its event are not judged, only that status and effects agree',
                   'the host never blocks on commands that need a user event nobody sets']

    def init(self):
        clrt.load(self.b + '/liboclgrind-rt.so')
        self.cbtype = clrt.EVCB
        self._native = clrt.NATIVE(self.on_native)
        self._event = clrt.EVCB(self.on_event)

    # callbacks from the runtime -----------------------------------------
    def on_native(self, args):
        i, p = C.cast(args, C.POINTER(C.c_uint64 * 2)).contents
        a = C.cast(p, C.POINTER(C.c_uint32 * N)).contents
        self.trace.append(('native', i, list(a)))
        a[i] += 1

    def on_event(self, ev, status, data):
        self.trace.append(('callback', data, status))
        then = self.then.get(data)
        if isinstance(then, Queue):
            self.trace.append(('flush', then.i, raw('clFlush')(then.h)))
        elif then is not None:
            u, st = then
            self.trace.append(('set', u.i, raw('clSetUserEventStatus')(u.h, st)))
            u.final = st

    # model -----------------------------------------------------------------
    def blocked(self, c, memo=None):
        """depends on a user event that is not set, not counting those the command would skip by failing"""
        memo = {} if memo is None else memo
        stack = [c]
        seen = set()
        while stack:
            x = stack.pop()
            if id(x) in seen:
                continue
            seen.add(id(x))
            if isinstance(x, User):
                if x.by is not None and x.final is None:
                    stack.append(x.by)
                elif x.final is None and not x.setting:
                    return True
                continue
            if x.final is not None:
                continue
            stack.extend(x.explicit)
            stack.extend(x.implicit)
        return False

    def mayfail(self, c):
        return any(self.fin(d) is not None and self.fin(d) < 0 or not isinstance(d, User) and d.final is None and self.mayfail(d) for d in list(c.explicit) + list(c.implicit))

    def fin(self, d):
        return d.final

    def status(self, ev):
        v = C.c_int32(-9999)
        call('clGetEventInfo', ev, 0x11D3, 4, C.byref(v), None)
        return v.value

    def look(self, c):
        """query a command's status and judge it"""
        if c.h is None:
            return
        v = self.status(c.h)
        if v > QUEUED or v == -9999:
            raise Fail('event status of %r is %d' % (c, v), 'status value')
        if c.status is not None and v > c.status:
            raise Fail('event status of %r went from %d back to %d' % (c, c.status, v), 'status regress')
        if c.final is not None and v != c.final:
            raise Fail('event status of %r was %d and is now %d' % (c, c.final, v), 'status regress')
        c.status = v
        if v <= 0 and c.final is None:
            self.finished(c, v)

    def finished(self, c, v):
        if v == 0:
            for d in list(c.explicit) + list(c.implicit):
                if isinstance(d, Cmd):
                    self.settle(d)
                if d.final is None and d.h is not None:
                    raise Fail('%r is complete, but %r, which it depends on, is not' % (c, d), 'complete early')
                if d.final is not None and d.final < 0 and any(d is x for x in c.explicit):
                    raise Fail('%r is complete, but %r in its wait list terminated with %d' % (c, d, d.final), 'failed dependency ignored')
            if c.kind == 'native' and not any(t[0] == 'native' and t[1] == c.i for t in self.trace):
                raise Fail('%r is complete, but its function was not called' % c, 'no effect')
        c.final = v
        if v < 0:
            for d in list(c.explicit) + list(c.implicit):
                if isinstance(d, Cmd):
                    self.settle(d)
            if not any(d.final is not None and d.final < 0 or d.h is None and self.anyfail(d) for d in list(c.explicit) + list(c.implicit)):
                raise Fail('%r terminated with %d although nothing it depends on failed' % (c, v), 'spurious failure')

    def settle(self, c):
        """learn the final state of a command that may have finished"""
        if c.final is None and c.h is not None:
            v = self.status(c.h)
            if v <= 0:
                self.finished(c, v)

    def must(self, cs, what):
        """the commands must have finished"""
        for c in cs:
            if c.h is not None:
                self.look(c)
                if c.final is None:
                    raise Fail('%s returned, but the event of %r has status %d' % (what, c, c.status), 'not complete')

    # history ------------------------------------------------------------
    def case(self, s):
        self.trace, self.then, self.log = [], {}, []
        self.cmds, self.users, self.queues, self.keep = [], [], [], []
        self.cbcount = 0
        self.cbinfo = {}
        clrt.setenv(NUM_THREADS=1)
        try:
            with clrt.Capture() as cap:
                with clrt.Ctx() as c:
                    try:
                        if s.bool(1, 150):
                            self.long(s, c)
                        else:
                            self.history(s, c)
                    except clrt.CLError as e:
                        raise Fail(str(e), 'failed call')
                    finally:
                        # never leave a queue waiting
                        for u in self.users:
                            if u.final is None:
                                raw('clSetUserEventStatus')(u.h, -1)
            if cap.stdout or cap.stderr:
                raise Fail('unexpected output: %s' % (cap.stdout + cap.stderr)[:600], 'output')
        finally:
            s.desc = '\n'.join(self.log)
            self.keep = []

    def long(self, s, c):
        """many commands pending at once"""
        n = s.choice([500, 5000, 40000])
        q = c.queue(s.choice([0, OOO]))
        b = c.buffer(8, bytes(8))
        chain = s.bool(1, 3) and n <= 5000
        self.log.append('%d pending commands%s' % (n, ', each waiting for the previous one' if chain else ''))
        z = (C.c_uint32 * 1)(7)
        prev = None
        for i in range(n):
            e = vp()
            w = (vp * 1)(prev) if chain and prev else None
            call('clEnqueueFillBuffer', q, b, z, 4, 0, 4, 1 if w else 0, w, C.byref(e) if chain or i == n - 1 else None)
            if prev:
                call('clReleaseEvent', prev)
            prev = e.value
        if s.bool():
            call('clWaitForEvents', 1, (vp * 1)(prev))
        call('clFinish', q)
        if self.status(prev) != 0:
            raise Fail('the last of %d commands has status %d after clFinish' % (n, self.status(prev)), 'long queue')
        call('clReleaseEvent', prev)
        call('clReleaseCommandQueue', q)
        s.cls('long queue')

    def history(self, s, c):
        self.c = c
        nq = s.range(1, 3)
        for k in range(nq):
            props = s.choice([0, OOO]) | s.weighted([(2, 0), (1, PROF)])
            self.queues.append(Queue(k, c.queue(props), props))
            self.log.append('q%d: %s%s' % (k, 'out of order' if props & OOO else 'in order', ', profiling' if props & PROF else ''))
        self.prog = c.buffer(4 * N, bytes(4 * N))
        self.snaps = c.buffer(4 * N * N, b'\xff' * (4 * N * N))
        self.one = c.buffer(4, (1).to_bytes(4, 'little'))
        self.kern = None
        n = s.range(2, 26)
        thread = None
        for _ in range(n):
            op = s.weighted([(14, 'cmd'), (3, 'user'), (3, 'set'), (2, 'wait'), (2, 'finish'), (1, 'flush'), (4, 'status'), (3, 'callback'), (1, 'profile'), (1, 'thread')])
            getattr(self, 'op_' + op)(s)
        self.flushall()
        # the end: release the remaining user events and finish everything
        for u in s.shuffle(self.users):
            if u.final is None and u.by is None:
                self.setuser(u, s.weighted([(4, 0), (1, -s.range(1, 2000))]))
        self.flushall()
        for q in s.shuffle(self.queues):
            self.log.append('finish q%d' % q.i)
            call('clFinish', q.h)
            self.must(q.cmds, 'clFinish')
        self.judge(s)
        for x in self.cmds + self.users:
            if x.h is not None:
                call('clReleaseEvent', x.h)
        for q in self.queues:
            call('clReleaseCommandQueue', q.h)
        if (nq > 1 or any(q.props & OOO for q in self.queues)) and any(x.explicit for x in self.cmds):
            s.nontrivial()

    def op_user(self, s):
        if len(self.users) < 4:
            u = User(len(self.users), create('clCreateUserEvent', self.c.ctx))
            self.users.append(u)
            self.log.append('%r = user event' % u)

    def setuser(self, u, st):
        self.log.append('set %r to %d' % (u, st))
        u.final = st
        call('clSetUserEventStatus', u.h, st)
        self.look_user(u)
        e = raw('clSetUserEventStatus')(u.h, 0)
        if e != INVALID_OP:
            raise Fail('setting the status of a user event twice returned %d' % e, 'user twice')
        self.look_user(u)

    def look_user(self, u):
        v = self.status(u.h)
        want = SUBMITTED if u.final is None else u.final
        if v != want:
            raise Fail('status of user event %r is %d, expected %d' % (u, v, want), 'user status')

    def op_set(self, s):
        # callbacks of these events run in the other thread, and must not use the queues
        flushing = [self.cbinfo[d][0] for d, t in self.then.items() if isinstance(t, Queue)]
        us = [u for u in self.users if u.final is None and not u.setting and u.by is None and not any(u is x for x in flushing)]
        if us:
            self.setuser(s.choice(us), s.weighted([(4, 0), (1, -1), (1, -s.range(2, 2000))]))

    def op_cmd(self, s):
        if len(self.cmds) >= N:
            return
        q = s.choice(self.queues)
        kind = s.weighted([(6, 'native'), (3, 'kernel'), (1, 'task'), (2, 'fill'), (2, 'write'), (2, 'copy'), (2, 'read'), (1, 'writerect'), (2, 'marker'), (2, 'barrier'),
                           (1, 'marker0'), (1, 'barrier0'), (1, 'waitfor'), (1, 'migrate'), (1, 'map')])
        evs = [x for x in self.cmds + self.users if x.h is not None]
        wl = []
        if evs and kind not in ('marker0', 'barrier0') and s.bool(3, 5):
            wl = [s.choice(evs) for _ in range(s.range(1, 3))]
        if kind == 'waitfor' and not wl:
            return
        i = len(self.cmds)
        implicit = []
        if not q.props & OOO:
            implicit = [q.cmds[-1]] if q.cmds else []
        else:
            if q.barrier:
                implicit = [q.barrier]
            if kind in ('marker', 'barrier', 'marker0', 'barrier0') and not wl:
                implicit = list(q.cmds)
        c = Cmd(i, kind, q, wl, implicit)
        blocking = kind in ('read', 'write') and s.bool(1, 3)
        if blocking and self.blocked(c):
            blocking = False
        if blocking:
            self.flushall()
        track = kind not in ('waitfor', 'barrier0') and s.bool(5, 6)
        self.log.append('%r = %s on q%d%s%s%s' % (c, kind, q.i, ' after %s' % wl if wl else '', ' (blocking)' if blocking else '', '' if track else ' (no event)'))
        self.cmds.append(c)
        ev = vp()
        nw, w = len(wl), (vp * len(wl))(*[x.h for x in wl]) if wl else None
        po = C.byref(ev) if track else None
        Q = q.h
        ok = (0,)
        one = (C.c_uint32 * 1)(1)
        self.keep.append(one)
        if kind == 'native':
            args = (C.c_uint64 * 2)(i, 0)
            mems = (vp * 1)(self.prog)
            loc = (vp * 1)(C.addressof(args) + 8)
            e = raw('clEnqueueNativeKernel')(Q, self._native, args, 16, 1, mems, loc, nw, w, po)
            args[0] = args[1] = 0          # the arguments are copied
        elif kind in ('kernel', 'task'):
            if self.kern is None:
                self.kern = self.c.kernel(self.c.program(SRC), 'step')
            self.c.setargs(self.kern, [('m', self.prog), ('m', self.snaps), ('b', i.to_bytes(4, 'little'))])
            if kind == 'kernel':
                e = raw('clEnqueueNDRangeKernel')(Q, self.kern, 1, None, szarr([1]), None, nw, w, po)
            else:
                e = raw('clEnqueueTask')(Q, self.kern, nw, w, po)
        elif kind == 'fill':
            e = raw('clEnqueueFillBuffer')(Q, self.prog, one, 4, i * 4, 4, nw, w, po)
        elif kind == 'write':
            e = raw('clEnqueueWriteBuffer')(Q, self.prog, int(blocking), i * 4, 4, one, nw, w, po)
        elif kind == 'writerect':
            e = raw('clEnqueueWriteBufferRect')(Q, self.prog, 0, szarr([i * 4, 0, 0]), szarr([0, 0, 0]), szarr([4, 1, 1]), 0, 0, 0, 0, one, nw, w, po)
        elif kind == 'copy':
            e = raw('clEnqueueCopyBuffer')(Q, self.one, self.prog, 0, i * 4, 4, nw, w, po)
        elif kind == 'read':
            c.snap = (C.c_uint32 * N)(*([0xeeeeeeee] * N))
            e = raw('clEnqueueReadBuffer')(Q, self.prog, int(blocking), 0, 4 * N, c.snap, nw, w, po)
        elif kind in ('marker', 'marker0'):
            e = raw('clEnqueueMarker')(Q, C.byref(ev)) if kind == 'marker0' else raw('clEnqueueMarkerWithWaitList')(Q, nw, w, po)
            if kind == 'marker0':
                track = True
        elif kind == 'barrier':
            e = raw('clEnqueueBarrierWithWaitList')(Q, nw, w, po)
        elif kind == 'barrier0':
            e = raw('clEnqueueBarrier')(Q)
        elif kind == 'waitfor':
            e = raw('clEnqueueWaitForEvents')(Q, nw, w)
        elif kind == 'migrate':
            m = (vp * 1)(self.prog)
            e = raw('clEnqueueMigrateMemObjects')(Q, 1, m, 0, nw, w, po)
        else:
            err = C.c_int32()
            p = raw('clEnqueueMapBuffer')(Q, self.one, 0, 1, 0, 4, nw, w, po, C.byref(err))
            e = err.value
            if not e:
                c.h = ev.value if track else None
                # unmap at once, in order with the map
                w2 = (vp * 1)(c.h) if track else None
                q.cmds.append(c)
                u = Cmd(i, 'unmap', q, [c] if track else [], [c] if not q.props & OOO else ([q.barrier] if q.barrier else []))
                if not track:
                    # without an event to wait for, wait for everything
                    call('clEnqueueBarrier', Q)
                    b = Cmd(i, 'barrier0', q, [], list(q.cmds))
                    q.cmds.append(b)
                    q.barrier = b
                    u.implicit = [b]
                    self.log.append('barrier on q%d' % q.i)
                call('clEnqueueUnmapMemObject', Q, self.one, p, 1 if w2 else 0, w2, None)
                q.cmds.append(u)
                c = None
        if c is not None:
            q.cmds.append(c)
            c.h = ev.value if track else None
            if kind in ('barrier', 'barrier0', 'waitfor'):
                q.barrier = c
        else:
            c = self.cmds[-1]
        if blocking:
            maybe = self.mayfail(c)
            if e:
                c.h = None
            if e not in ((0, EXEC_ERR) if maybe else (0,)):
                raise Fail('blocking %s returned %d' % (kind, e), 'blocking result')
            if e:
                c.final = -1
                return
            self.must([c], 'a blocking ' + kind)
            if c.h is None:
                self.finished(c, 0)
            elif c.final != 0:
                raise Fail('a blocking %s returned success, but its event has status %d' % (kind, c.final), 'blocking result')
        elif e:
            raise Fail('enqueueing %s returned %d' % (kind, e), 'failed call')
        if c.h is not None:
            ty = C.c_uint()
            call('clGetEventInfo', c.h, 0x11D1, 4, C.byref(ty), None)
            if ty.value != TYPES[kind]:
                raise Fail('the event of a %s command has type %#x' % (kind, ty.value), 'event type')
            qq = vp()
            call('clGetEventInfo', c.h, 0x11D0, 8, C.byref(qq), None)
            if qq.value != Q:
                raise Fail('the event of a %s command names another queue' % kind, 'event queue')
            self.look(c)
            if c.final == 0 and self.blocked_before(c):
                raise Fail('%r ran although it depends on an incomplete user event' % c, 'complete early')

    def blocked_before(self, c):
        return any(isinstance(d, User) and d.final is None for d in c.explicit)

    def op_wait(self, s):
        evs = [x for x in self.cmds + self.users if x.h is not None and not self.blocked(x)]
        if not evs:
            return
        es = [s.choice(evs) for _ in range(s.range(1, 3))]
        self.flushall()
        self.log.append('wait for %s' % es)
        e = raw('clWaitForEvents')(len(es), (vp * len(es))(*[x.h for x in es]))
        self.must([x for x in es if isinstance(x, Cmd)], 'clWaitForEvents')
        want = EXEC_ERR if any(x.final < 0 for x in es) else 0
        if e != want:
            raise Fail('clWaitForEvents(%s) returned %d, expected %d' % (es, e, want), 'wait result')

    def op_finish(self, s):
        q = s.choice(self.queues)
        if any(self.blocked(x) for x in q.cmds):
            return
        self.flushall()
        self.log.append('finish q%d' % q.i)
        call('clFinish', q.h)
        self.must(q.cmds, 'clFinish')

    def op_flush(self, s):
        q = s.choice(self.queues)
        self.log.append('flush q%d' % q.i)
        call('clFlush', q.h)

    def op_thread(self, s):
        """another thread sets the user events while this one blocks"""
        # callbacks of these events run in the other thread, and must not use the queues
        flushing = [self.cbinfo[d][0] for d, t in self.then.items() if isinstance(t, Queue)]
        us = [u for u in self.users if u.final is None and not u.setting and u.by is None and not any(u is x for x in flushing)]
        if not us or not s.bool(1, 2):
            return
        us = s.shuffle(us)
        sts = [s.weighted([(4, 0), (1, -5)]) for _ in us]
        self.flushall()
        if any(self.stuck(u, us) for u in self.users):
            return
        q = s.choice(self.queues)
        self.log.append('another thread sets %s to %s during clFinish of q%d' % (us, sts, q.i))
        for u in us:
            u.setting = True
        hs = [(u.h, st) for u, st in zip(us, sts)]
        delay = s.choice([0, 0.0005, 0.002])
        errs = []

        def run():
            for h, st in hs:
                time.sleep(delay)
                errs.append(raw('clSetUserEventStatus')(h, st))
        t = threading.Thread(target=run)
        t.start()
        e = raw('clFinish')(q.h)
        t.join()
        for u, st in zip(us, sts):
            u.final, u.setting = st, False
        if e or any(errs):
            raise Fail('clFinish returned %d, clSetUserEventStatus in another thread %s' % (e, errs), 'failed call')
        self.must(q.cmds, 'clFinish')

    def op_status(self, s):
        for _ in range(s.range(1, 4)):
            xs = [x for x in self.cmds + self.users if x.h is not None]
            if not xs:
                return
            x = s.choice(xs)
            if isinstance(x, User):
                self.look_user(x)
                continue
            self.log.append('status of %r' % x)
            self.look(x)
            if x.final == 0 and self.unset(x):
                raise Fail('%r is complete although it depends on an incomplete user event' % x, 'complete early')

    def unset(self, c):
        """some user event that the finished command had to wait for is not set"""
        memo = {}

        def waits(x):
            if id(x) not in memo:
                memo[id(x)] = False
                if isinstance(x, User):
                    memo[id(x)] = x.final is None
                else:
                    self.settle(x)
                    # a command may terminate before its other dependencies once one of them has failed
                    if x.final is None and not self.mayfail(x):
                        memo[id(x)] = any(waits(d) for d in list(x.explicit) + list(x.implicit))
            return memo[id(x)]
        return any(waits(d) for d in list(c.explicit) + list(c.implicit))

    def stuck(self, u, us):
        return u.final is None and u not in us

    def flushall(self):
        """commands whose callbacks others wait for must have been submitted"""
        n = len([u for u in self.users if u.by is not None and u.final is None])
        for _ in range(n and n + 1):
            for q in self.queues:
                call('clFlush', q.h)

    def op_callback(self, s):
        xs = [x for x in self.cmds + self.users if x.h is not None]
        if not xs:
            return
        x = s.choice(xs)
        kind = COMPLETE if isinstance(x, User) else s.weighted([(4, COMPLETE), (1, SUBMITTED), (1, RUNNING)])
        self.cbcount += 1
        d = self.cbcount
        self.cbinfo[d] = (x, kind)
        self.log.append('callback %d on %r for %d' % (d, x, kind))
        t = s.weighted([(6, 0), (1, 1), (2, 2)])
        if t == 1:
            self.then[d] = s.choice(self.queues)
            self.log[-1] += ', which flushes q%d' % self.then[d].i
        elif t == 2 and len(self.users) < 6 and kind == COMPLETE and isinstance(x, Cmd):
            u = User(len(self.users), create('clCreateUserEvent', self.c.ctx))
            u.by = x
            self.users.append(u)
            self.then[d] = (u, s.weighted([(5, 0), (1, -3)]))
            self.log[-1] += ', which sets %r to %d' % (u, self.then[d][1])
            s.cls('callback sets a user event')
        call('clSetEventCallback', x.h, kind, self._event, vp(d))

    def op_profile(self, s):
        xs = [x for x in self.cmds + self.users if x.h is not None]
        if not xs:
            return
        self.profile(s.choice(xs))

    def profile(self, x):
        v = [C.c_uint64(0) for _ in range(4)]
        if isinstance(x, Cmd):
            self.look(x)
        e = [raw('clGetEventProfilingInfo')(x.h, 0x1280 + k, 8, C.byref(v[k]), None) for k in range(4)]
        self.log.append('profiling info of %r' % x)
        if isinstance(x, User) or not x.q.props & PROF or x.final is None:
            if e != [PROF_NA] * 4:
                raise Fail('profiling info of %r returned %s, expected %d' % (x, e, PROF_NA), 'profiling')
        elif x.final == 0:
            if e != [0] * 4:
                raise Fail('profiling info of %r returned %s' % (x, e), 'profiling')
            t = [a.value for a in v]
            if t != sorted(t) or not t[0]:
                raise Fail('profiling times of %r are %s' % (x, t), 'profiling')
            # a simulated kernel takes longer than the clock's microsecond
            if x.kind in ('kernel', 'task') and t[3] <= t[2]:
                raise Fail('profiling times of %r are %s: it took no time' % (x, t), 'profiling')
            x.times = t

    # ------------------------------------------------------------------ the end
    def judge(self, s):
        final = (C.c_uint32 * N)()
        call('clEnqueueReadBuffer', self.queues[0].h, self.prog, 1, 0, 4 * N, final, 0, None, None)
        snaps = self.c.read(self.snaps, 4 * N * N)
        effect = ('native', 'kernel', 'task', 'fill', 'write', 'writerect', 'copy')
        nat = {}
        for t in self.trace:
            if t[0] == 'native':
                if t[1] in nat:
                    raise Fail('the function of c%d was called twice' % t[1], 'executed twice')
                nat[t[1]] = t[2]
        # commands without an event: effects tell
        for c in self.cmds:
            if c.final is None and c.kind in effect:
                c.final = 0 if final[c.i] else -1
                if c.final < 0 and not self.anyfail(c):
                    raise Fail('%r has no effect, although nothing it depends on failed' % c, 'no effect')
        for c in self.cmds:
            if c.kind in effect:
                if final[c.i] != (1 if c.final == 0 else 0):
                    raise Fail('%r (status %d) took effect %d times' % (c, c.final, final[c.i]), 'effect')
            elif final[c.i]:
                raise Fail('slot of %r, which stores nothing, is %d' % (c, final[c.i]), 'effect')
            snap = None
            if c.kind == 'native':
                if (c.i in nat) != (c.final == 0):
                    raise Fail('%r has status %d, but its function was %scalled' % (c, c.final, '' if c.i in nat else 'not '), 'effect')
                snap = nat.get(c.i)
            elif c.kind in ('kernel', 'task'):
                snap = list((C.c_uint32 * N).from_buffer_copy(snaps[c.i * 4 * N:(c.i + 1) * 4 * N]))
                if c.final < 0:
                    if snap != [0xffffffff] * N:
                        raise Fail('%r terminated with %d, but ran' % (c, c.final), 'effect')
                    snap = None
            elif c.kind == 'read':
                snap = list(c.snap)
                if c.final is None:
                    c.final = 0 if snap[0] != 0xeeeeeeee else -1
                if c.final < 0:
                    if snap != [0xeeeeeeee] * N:
                        raise Fail('%r terminated with %d, but stored data' % (c, c.final), 'effect')
                    snap = None
            if snap is not None:
                for d in self.before(c):
                    if d.kind in effect and d.final == 0 and d is not c and snap[d.i] != 1:
                        raise Fail('%r ran before %r (%s), which it depends on' % (c, d, d.kind), 'order')
                if c.kind != 'read' and snap[c.i] != 0:
                    raise Fail('%r ran after its own effect' % c, 'executed twice')
                if any(v > 1 for v in snap):
                    raise Fail('%r saw slots %s' % (c, snap), 'effect')
        # failures propagate along wait lists
        for c in self.cmds:
            if c.final == 0:
                for d in c.explicit:
                    if d.final is not None and d.final < 0:
                        raise Fail('%r ran although %r in its wait list terminated with %d' % (c, d, d.final), 'failed dependency ignored')
        # callbacks
        got = {}
        pos = {}
        for k, t in enumerate(self.trace):
            if t[0] == 'callback':
                got.setdefault(t[1], []).append(t[2])
                pos[t[1]] = k
            elif t[0] == 'native':
                pos['n%d' % t[1]] = k
        bad = [t for t in self.trace if t[0] in ('set', 'flush') and t[2]]
        if bad:
            raise Fail('call made by a callback failed: %s' % (bad[0],), 'failed call')
        for d, (x, kind) in self.cbinfo.items():
            g = got.get(d, [])
            if len(g) != 1:
                raise Fail('callback %d on %r was called %d times' % (d, x, len(g)), 'callback count')
            v = g[0]
            if kind == COMPLETE and v != x.final or v > kind:
                raise Fail('callback %d on %r (registered for %d, status %d) was given %d' % (d, x, kind, x.final, v), 'callback status')
            if isinstance(x, Cmd) and x.kind == 'native' and x.final == 0 and kind == COMPLETE and pos[d] < pos['n%d' % x.i]:
                raise Fail('callback %d on %r was called before the command ran' % (d, x), 'callback early')
        for x in self.cmds:
            if x.h is not None and x.q.props & PROF and x.final == 0:
                self.profile(x)
        for x in self.cmds:
            if hasattr(x, 'times'):
                for d in list(x.explicit) + list(x.implicit):
                    if hasattr(d, 'times') and d.times[3] > x.times[2]:
                        raise Fail('%r started at %d, before %r ended at %d' % (x, x.times[2], d, d.times[3]), 'profiling order')
        for x in self.cmds:
            if x.explicit:
                s.cls('explicit dependency')
            if x.final is not None and x.final < 0:
                s.cls('abandoned command')
        s.count('commands', len(self.cmds))

    def anyfail(self, c, seen=None):
        seen = set() if seen is None else seen
        if id(c) in seen:
            return False
        seen.add(id(c))
        for d in list(c.explicit) + list(c.implicit):
            if d.final is not None and d.final < 0:
                return True
            if isinstance(d, Cmd) and self.anyfail(d, seen):
                return True
        return False

    def before(self, c):
        out, seen, st = [], set(), list(c.explicit) + list(c.implicit)
        while st:
            x = st.pop()
            if id(x) in seen or isinstance(x, User):
                continue
            seen.add(id(x))
            out.append(x)
            # what a failed command waited for need not have finished
            if x.final >= 0 if x.final is not None else not self.anyfail(x):
                st += list(x.explicit) + list(x.implicit)
        return out


CHECK = C17()
