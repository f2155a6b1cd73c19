"""C11: memory checking reports exactly the invalid accesses."""
import ctypes as C
import random
import re
import struct
import clrt
from clrt import vp, szarr, call, raw, create
from pbt import Check, Fail

# type: (size, alignment)
TY = {'uchar': (1, 1), 'ushort': (2, 2), 'uint': (4, 4), 'ulong': (8, 8), 'float': (4, 4), 'double': (8, 8),
      'uchar2': (2, 2), 'uint2': (8, 8), 'ushort4': (8, 8), 'float4': (16, 16), 'ushort8': (16, 16),
      'uchar16': (16, 16), 'ulong4': (32, 32), 'int16': (64, 64), 'S': (24, 4)}
RO, WO, RW = 4, 2, 1
SLOT = 128

MSG = re.compile(r'Invalid (read|write) of size (\d+) at (\w+) memory address 0x([0-9a-f]+)$')
ENT = re.compile(r'Entity: (?:Global\((\d+),\d+,\d+\) Local\((\d+),\d+,\d+\) )?Group\((\d+),\d+,\d+\)')


def parse(text):
    """[(first line, entity)] of the messages in the log."""
    out = []
    cur = None
    for line in text.split('\n'):
        l = line.strip()
        if line.startswith('Invalid ') or line.startswith('Index ('):
            cur = [l, None]
            out.append(cur)
        elif l.startswith('Entity: ') and cur is not None:
            m = ENT.match(l)
            cur[1] = m.groups() if m else None
        elif line and not line.startswith('\t'):
            raise Fail('unexpected message %r' % line, 'message')
    return out


class Obj:
    pass


class C11(Check):
    id = 'C11'
    quick = 27000
    thorough = 120000
    rule = ('a case is one kernel with up to 12 classified accesses, launched up to twice; non-trivial when it has both '
            'a valid and an invalid access; distinct by source, offsets and objects')
    assumptions = ['accesses within a parent buffer but outside the sub-buffer they came through are not generated',
                   'the effect on memory of a write that is in bounds but not permitted is not checked']

    def init(self):
        clrt.load(self.b + '/liboclgrind-rt.so')

    def case(self, s):
        r = random.Random(s.seed())
        rb = lambda n: bytes(r.randrange(256) for _ in range(n))
        lsz = s.range(1, 3)
        gsz = lsz * s.range(1, 2)
        opts = s.weighted([(3, '-cl-opt-disable'), (2, ''), (1, '-O2'), (1, '-O3')])
        # the compiler may assume that objects it sees are not overrun
        noub = opts != '-cl-opt-disable'
        # ---------------------------------------------------------------- objects
        objs = []
        for i in range(s.range(1, 5)):
            o = Obj()
            o.kind = s.weighted([(8, 'global'), (2, 'constant'), (2, 'localarg'), (2, 'localvar'), (3, 'private'),
                                 (2, 'table'), (1, 'null'), (1, 'dangling'), (2, 'sub')])
            o.n = s.weighted([(3, s.range(1, 40)), (2, s.range(40, 100)), (2, 4 * s.range(1, 20))])
            o.flags = s.weighted([(6, RW), (1, RO), (1, WO), (1, 0)]) if o.kind == 'global' else RW
            if o.kind == 'constant':
                o.flags = s.choice([RW, RO])
            o.init = rb(o.n)
            o.i = i
            o.name = '%s%d' % (o.kind[0], i)
            o.space = {'global': 'global', 'constant': 'constant', 'localarg': 'local', 'localvar': 'local',
                       'private': 'private', 'table': 'constant', 'null': 'global', 'dangling': 'global',
                       'sub': 'global'}[o.kind]
            o.owner = s.draw(gsz)
            o.host = s.bool(1, 4)
            objs.append(o)
        # ---------------------------------------------------------------- accesses
        accs = []
        body = []
        params = []
        decl = []
        top = []
        feats = set()
        for o in objs:
            nm = o.name
            if o.kind in ('global', 'sub', 'null'):
                params.append('global uchar *%s' % nm)
            elif o.kind == 'dangling':
                params.append('ulong %s_' % nm)
                decl.append('global uchar *%s = (global uchar *)%s_;' % (nm, nm))
            elif o.kind == 'constant':
                params.append('constant uchar *%s' % nm)
            elif o.kind == 'localarg':
                params.append('local uchar *%s' % nm)
            elif o.kind == 'localvar':
                decl.append('local uchar %s_[%d] __attribute__((aligned(64))); local uchar *%s = %s_;' % (nm, o.n, nm, nm))
            elif o.kind == 'private':
                decl.append('uchar %s_[%d] __attribute__((aligned(64))); private uchar *%s = %s_;' % (nm, o.n, nm, nm))
                decl.append('for (int j = 0; j < %d; j++) %s[j] = j * 3 + %d;' % (o.n, nm, o.i))
                o.init = bytes((j * 3 + o.i) & 255 for j in range(o.n))
            else:
                top.append('constant uchar %s_[%d] __attribute__((aligned(64))) = {%s};' % (
                    nm, o.n, ', '.join(map(str, o.init))))
                decl.append('constant uchar *%s = %s_;' % (nm, nm))
            if o.kind in ('localarg', 'localvar'):
                o.init = None
        nacc = s.range(1, 12)
        for k in range(nacc):
            o = s.choice(objs)
            a = Obj()
            a.o, a.k = o, k
            ops = ['load'] * 4 + ['vload'] * 2 + ['copyin']
            if o.space != 'constant':
                ops += ['store'] * 4 + ['vstore'] * 2
                if o.space in ('global', 'local'):
                    ops += ['atomic', 'cmpxchg']
                    if o.space == 'global' or True:
                        ops += ['copyout']
            a.op = s.choice(ops)
            if a.op in ('load', 'store'):
                a.t = s.choice([t for t in TY if t != 'S'])
                a.size, al = TY[a.t]
            elif a.op in ('vload', 'vstore'):
                e = s.choice(['uchar', 'ushort', 'uint', 'float', 'ulong'])
                w = s.choice([2, 3, 4, 8, 16])
                a.t, a.w, a.e = e + str(w), w, e
                a.size, al = TY[e][0] * w, TY[e][0]
            elif a.op in ('atomic', 'cmpxchg'):
                a.t, a.size, al = 'uint', 4, 4
            else:
                a.t, (a.size, al) = 'S', TY['S']
            # where
            where = s.weighted([(6, 'in'), (2, 'end'), (2, 'straddle'), (2, 'past'), (2, 'before'), (1, 'far')])
            if o.kind == 'sub' and where == 'before':   # still inside the parent
                where = 'past'
            if noub and o.kind in ('localvar', 'private', 'table'):
                where = 'in'
                if o.n < a.size:
                    a.op, a.t, a.size, al = 'load', 'uchar', 1, 1
            if where == 'in' and o.n < a.size:
                where = 'past'
            if where == 'in':
                off = al * s.draw((o.n - a.size) // al + 1)
            elif where == 'end':     # the last place that fits, if any
                off = max(0, (o.n - a.size) // al * al)
            elif where == 'straddle':
                off = (o.n - s.range(1, max(1, a.size - 1))) // al * al
            elif where == 'past':
                off = -(-o.n // al) * al + al * s.draw(3)
            elif where == 'before':
                off = -al * s.range(1, 4)
            else:
                off = s.choice([1 << 20, 1 << 30, (1 << 31) - 64] + ([-(1 << 20)] if o.kind != 'sub' else []))
            if o.kind == 'sub' and off < 0:
                off = -(-o.n // al) * al
            a.off = off
            a.valid = o.kind not in ('null', 'dangling') and 0 <= off and off + a.size <= o.n
            a.writes = a.op in ('store', 'vstore', 'copyout', 'atomic', 'cmpxchg')
            # one owner per object: no races and a fixed order
            a.wi = o.owner if o.kind not in ('constant', 'table') else s.draw(gsz)
            if a.op in ('copyin', 'copyout') and where == 'far':
                a.off = off = off // 4 * 4
            a.val = rb(a.size)
            p = '(%s + offs[%d])' % (o.name, k)
            sp = o.space
            slot = '(out + %d)' % (k * SLOT)
            vs = '(vals + %d)' % (k * SLOT)
            if a.op == 'load':
                st = '*(global %s *)%s = *(volatile %s %s *)%s;' % (a.t, slot, sp, a.t, p)
            elif a.op == 'store':
                st = '*(volatile %s %s *)%s = *(global const %s *)%s;' % (sp, a.t, p, a.t, vs)
            elif a.op == 'vload':
                st = 'vstore%d(vload%d(0, (const %s %s *)%s), 0, (global %s *)%s);' % (a.w, a.w, sp, a.e, p, a.e, slot)
            elif a.op == 'vstore':
                st = 'vstore%d(vload%d(0, (global const %s *)%s), 0, (%s %s *)%s);' % (a.w, a.w, a.e, vs, sp, a.e, p)
            elif a.op == 'atomic':
                a.f = s.choice(['atomic_add', 'atomic_xchg', 'atomic_or', 'atomic_min'])
                st = '*(global uint *)%s = %s((volatile %s uint *)%s, *(global const uint *)%s);' % (slot, a.f, sp, p, vs)
            elif a.op == 'cmpxchg':
                a.old = 5
                if a.valid and o.init is not None and s.bool(2, 3):
                    a.old = struct.unpack('<I', o.init[off:off + 4])[0]
                st = '*(global uint *)%s = atomic_cmpxchg((volatile %s uint *)%s, %du, *(global const uint *)%s);' % (slot, sp, p, a.old, vs)
            elif a.op == 'copyin':
                st = '*(global struct S *)%s = *(volatile %s struct S *)%s;' % (slot, sp, p)
                if s.bool():
                    st = '{ struct S t_ = *(volatile %s struct S *)%s; *(global struct S *)%s = t_; }' % (sp, p, slot)
            else:
                st = '*(volatile %s struct S *)%s = *(global const struct S *)%s;' % (sp, p, vs)
            body.append('if (gid == %d) { bases[%d] = (ulong)%s; %s }' % (a.wi, k, o.name, st))
            accs.append(a)
            s.cls('%s %s %s' % (o.kind, a.op, 'valid' if a.valid else 'invalid'))
        # ---------------------------------------------------------------- static arrays
        idx = []
        helpers = []
        if s.bool(1, 2):
            for j in range(s.range(1, 3)):
                nd = s.range(1, 2)
                dims = [s.range(2, 6) for _ in range(nd)]
                ix = [s.weighted([(5, s.draw(d)), (2, d + s.draw(3)), (1, -1 - s.draw(2))]) for d in dims]
                if noub:
                    ix = [x % d for x, d in zip(ix, dims)]
                tot = dims[0] * (dims[1] if nd > 1 else 1)
                flat = ix[0] * (dims[1] if nd > 1 else 1) + (ix[1] if nd > 1 else 0)
                sp = s.choice(['private', 'local', 'struct', 'globalstruct'])
                bad = [(x, d) for x, d in zip(ix, dims) if not 0 <= x < d]
                w = s.draw(gsz)
                wr = s.bool()
                d = ''.join('[%d]' % x for x in dims)
                q = ''.join('[ix[%d]]' % (len(idx) * 2 + t) for t in range(nd))
                e = Obj()
                e.bad, e.wi, e.wr, e.ix, e.flat, e.tot = bad, w, wr, ix, flat, tot
                e.space = 'private' if sp in ('private', 'struct') else 'local' if sp == 'local' else 'global'
                # with 16 words on either side the access stays inside the object
                pad = 0 if sp in ('private', 'local') else 16
                e.oob = sp != 'globalstruct' and not -pad <= flat < tot + pad
                nm = 'ar%d' % j
                slot = '*(global int *)(out + %d)' % ((12 + j) * SLOT)
                if sp == 'private':
                    decl.append('volatile int %s%s;' % (nm, d))
                elif sp == 'local':
                    decl.append('volatile local int %s%s;' % (nm, d))
                else:
                    top.append('struct T%d { int before[16]; int a%s; int after[16]; };' % (j, d))
                    if sp == 'struct':
                        decl.append('volatile struct T%d %s;' % (j, nm))
                    else:
                        decl.append('volatile global struct T%d *%s = (volatile global struct T%d *)(big + %d);' % (j, nm, j, 400 * j))
                if sp == 'struct':
                    acc = '%s.a%s' % (nm, q)
                elif sp == 'globalstruct':
                    acc = '%s->a%s' % (nm, q)
                else:
                    acc = nm + q
                e.addr = None
                st = '%s = 7;' % acc if wr else '%s = %s;' % (slot, acc)
                body.append('if (gid == %d) { %s }' % (w, st))
                idx.append(e)
                s.cls('array %s %s' % (sp, 'valid' if not bad else 'invalid'))
        # ---------------------------------------------------------------- async copies
        asy = None
        if s.bool(1, 3):
            asy = Obj()
            asy.g = s.draw(gsz // lsz)
            asy.flags = s.weighted([(6, RW), (1, RO), (1, WO)])
            asy.gn, asy.ln = 8 * s.range(1, 12), 8 * s.range(1, 12)
            asy.init = rb(asy.gn)
            asy.copies = []
            params += ['global uchar *AG', 'local uchar *AL', 'global const int *aoffs', 'global uchar *aout', 'global ulong *abases']
            feats.add('async')
            blk = ['if (get_local_id(0) == 0) { abases[0] = (ulong)AG; abases[1] = (ulong)AL; }', 'event_t ev;']
            for k in range(s.range(1, 3)):
                a = Obj()
                a.k = k
                a.t, a.size = s.choice([('uchar', 1), ('ushort', 2), ('uint', 4), ('float', 4), ('ulong', 8), ('double', 8), ('uchar2', 2), ('ushort4', 8), ('uint4', 16)])
                a.n = s.range(0, 9)
                a.stride = s.choice([0, 0, 1, 2, 3])
                span = [a.size * ((a.n - 1) * max(1, a.stride) + 1), a.size * a.n]
                a.off = []
                for tot, sp in ((asy.gn, span[0]), (asy.ln, span[1])):
                    w = s.weighted([(6, 'in'), (2, 'straddle'), (1, 'past'), (1, 'before')])
                    last = max(0, tot - sp)
                    if w == 'in':
                        o = s.range(0, last)
                    elif w == 'straddle':
                        o = last + a.size * s.range(0, 3)
                    elif w == 'past':
                        o = tot + s.range(0, 3) * a.size
                    else:
                        o = -a.size * s.range(1, 3)
                    a.off.append(o // a.size * a.size)
                a.tolocal = s.bool()
                gp, lp = '(global %s *)(AG + aoffs[%d])' % (a.t, 2 * k), '(local %s *)(AL + aoffs[%d])' % (a.t, 2 * k + 1)
                x = '%s, %s, %d' % ((lp, gp, a.n) if a.tolocal else (gp, lp, a.n))
                blk.append('if (get_local_id(0) == 0) for (int j = 0; j < %d; j++) AL[j] = j * 7 + %d;' % (asy.ln, k))
                blk.append('barrier(CLK_LOCAL_MEM_FENCE);')
                blk.append('ev = async_work_group_strided_copy(%s, %d, 0);' % (x, a.stride) if a.stride else 'ev = async_work_group_copy(%s, 0);' % x)
                blk.append('wait_group_events(1, &ev);')
                blk.append('if (get_local_id(0) == 0) for (int j = 0; j < %d; j++) aout[%d + j] = AL[j];' % (asy.ln, k * 128))
                asy.copies.append(a)
                s.cls('async %s%s' % ('in' if a.tolocal else 'out', ' strided' if a.stride else ''))
            body.append('if (get_group_id(0) == %d) {\n    %s\n  }' % (asy.g, '\n    '.join(blk)))
        # shuffle nothing: order matters to the model
        params = ['global uchar *out', 'global const uchar *vals', 'global const int *offs', 'global ulong *bases',
                  'global const int *ix', 'global uchar *big', 'global uint *done'] + params
        src = 'struct S { uint a[6]; };\n' + '\n'.join(top) + '\nkernel void k(%s)\n{\n  size_t gid = get_global_id(0);\n' % ', '.join(params)
        src += ''.join('  %s\n' % d for d in decl + body) + '  done[gid] = 0xfeed0000u + gid;\n}\n'
        threads = s.choice([1, 2, 4])
        # ---------------------------------------------------------------- maps
        nl = s.range(1, 2)
        maps = []
        for L in range(nl):
            ms = []
            if s.bool(1, 3):
                for o in objs:
                    if o.kind in ('global', 'sub') and s.bool() and o.n > 1:
                        mo = s.draw(o.n)
                        ms.append((o, mo, s.range(1, o.n - mo), s.choice([1, 2, 3, 4])))
            maps.append(ms)
        s.desc = '%sopts=%r threads=%d global=%d local=%d objects=%s offsets=%s ix=%s maps=%s\n%s' % (
            'AG=%d bytes (flags %d) AL=%d bytes aoffs=%s ' % (asy.gn, asy.flags, asy.ln, [a.off for a in asy.copies]) if asy else '', opts, threads, gsz, lsz, [(o.name, o.n, o.flags) for o in objs], [a.off for a in accs],
            [e.ix for e in idx], [[(o.name, a, b, f) for o, a, b, f in m] for m in maps], src)
        bad = any(not a.valid for a in accs) or any(e.bad for e in idx)
        if bad and (any(a.valid for a in accs) or any(not e.bad for e in idx)):
            s.nontrivial((s.desc,))
        clrt.setenv(NUM_THREADS=threads)
        self.run(s, r, rb, objs, accs, idx, src, opts, gsz, lsz, maps, asy)

    def run(self, s, r, rb, objs, accs, idx, src, opts, gsz, lsz, maps, asy):
        with clrt.Capture() as cap:
            with clrt.Ctx() as c:
                p = c.program(src + '\nkernel void addr(global uchar *p, global ulong *o) { *o = (ulong)p; }\n', opts)
                k = c.kernel(p, 'k')
                out = c.buffer(16 * SLOT, b'\xcc' * (16 * SLOT))
                vals = bytearray(16 * SLOT)
                for a in accs:
                    vals[a.k * SLOT:a.k * SLOT + a.size] = a.val
                ixs = []
                for e in idx:
                    ixs += (e.ix + [0])[:2]
                ixs = (ixs + [0] * 6)[:6]
                bases = c.buffer(16 * 8, bytes(128))
                done = c.buffer(4 * gsz, bytes(4 * gsz))
                args = [('m', out), ('m', c.buffer(len(vals), vals)),
                        ('m', c.buffer(64, struct.pack('<16i', *([a.off for a in accs] + [0] * (16 - len(accs)))))),
                        ('m', bases), ('m', c.buffer(24, struct.pack('<6i', *ixs))), ('m', c.buffer(1200, bytes(1200))),
                        ('m', done)]
                keep = []
                for o in objs:
                    o.mem = None
                    o.base = 0
                    if o.kind in ('global', 'constant'):
                        if o.host:
                            o.buf = C.create_string_buffer(o.init, o.n)
                            o.mem = create('clCreateBuffer', c.ctx, o.flags | 8, o.n, o.buf)
                            c.objs.append(('clReleaseMemObject', o.mem))
                        else:
                            o.mem = c.buffer(o.n, o.init, o.flags)
                        args.append(('m', o.mem))
                    elif o.kind == 'sub':
                        po = 128 * s.draw(2)
                        o.par = c.buffer(o.n + po, bytes(po) + o.init)
                        o.mem = create('clCreateSubBuffer', o.par, 0, 0x1220, (C.c_size_t * 2)(po, o.n))
                        o.base = po
                        c.objs.append(('clReleaseMemObject', o.mem))
                        args.append(('m', o.mem))
                    elif o.kind == 'localarg':
                        args.append(('l', o.n))
                    elif o.kind == 'null':
                        args.append(('m', 0))
                    elif o.kind == 'dangling':
                        keep.append((o, len(args)))
                        args.append(None)
                if asy:
                    asy.mem = c.buffer(asy.gn, asy.init, asy.flags)
                    asy.out = c.buffer(512, b'\xcc' * 512)
                    asy.bases = c.buffer(16, bytes(16))
                    asy.data = list(asy.init)
                    o6 = sum([a.off for a in asy.copies], []) + [0] * 6
                    args += [('m', asy.mem), ('l', asy.ln), ('m', c.buffer(24, struct.pack('<6i', *o6[:6]))), ('m', asy.out), ('m', asy.bases)]
                for o, j in keep:
                    b = c.buffer(o.n)
                    ab = c.buffer(8, bytes(8))
                    ka = c.kernel(p, 'addr')
                    c.setargs(ka, [('m', b), ('m', ab)])
                    c.ndrange(ka, [1])
                    args[j] = ('b', c.read(ab, 8))
                    call('clReleaseMemObject', b)
                    c.objs.remove(('clReleaseMemObject', b))
                    # the kernel still refers to it: drop that too
                    o.kernel = ka
                    o.addr = struct.unpack('<Q', args[j][1])[0]
                for i, a in enumerate(args):
                    if a == ('m', 0):
                        call('clSetKernelArg', k, i, 8, None)
                    else:
                        t, v = a
                        if t == 'm':
                            call('clSetKernelArg', k, i, 8, C.byref(vp(v)))
                        elif t == 'l':
                            call('clSetKernelArg', k, i, v, None)
                        else:
                            call('clSetKernelArg', k, i, len(v), C.c_char_p(v))
                for o in objs:
                    o.data = [x for x in o.init] if o.init is not None else [None] * o.n
                for L, ms in enumerate(maps):
                    ptrs = []
                    for (o, mo, mn, fl) in ms:
                        err = C.c_int32(0)
                        q = raw('clEnqueueMapBuffer')(c.q, o.mem, 1, fl, mo, mn, 0, None, None, C.byref(err))
                        if err.value:
                            raise Fail('map returned %d' % err.value, 'map')
                        ptrs.append((o, q))
                    c.write(out, b'\xcc' * (16 * SLOT))
                    c.write(done, bytes(4 * gsz))
                    before = len(cap.peek()[1])
                    c.ndrange(k, [gsz], [lsz])
                    log = cap.peek()[1][before:].decode('latin1')
                    d = c.read(done, 4 * gsz)
                    if d != b''.join(struct.pack('<I', 0xfeed0000 + i) for i in range(gsz)):
                        raise Fail('not all work-items ran to their end: %s\n%s' % (d.hex(), log[:1500]), 'continue')
                    bs = struct.unpack('<16Q', c.read(bases, 128))
                    res = c.read(out, 16 * SLOT)
                    for (o, q) in ptrs:
                        call('clEnqueueUnmapMemObject', c.q, o.mem, q, 0, None, None)
                    call('clFinish', c.q)
                    if asy:
                        asy.addr = struct.unpack('<2Q', c.read(asy.bases, 16))
                        asy.res = c.read(asy.out, 512)
                    self.judge(objs, accs, idx, ms, bs, res, log, gsz, lsz, asy)
                    if asy:
                        got = c.read(asy.mem, asy.gn)
                        for j in range(asy.gn):
                            if asy.data[j] is not None and got[j] != asy.data[j]:
                                raise Fail('launch %d: byte %d of AG is %02x, expected %02x\n%s' % (L, j, got[j], asy.data[j], log[:1500]), 'async contents')
                        asy.data = list(got)
                    for o in objs:
                        if o.mem is None:
                            # local memory does not persist; private is initialised
                            o.data = [x for x in o.init] if o.init is not None else [None] * o.n
                            continue
                        got = c.read(o.mem, o.n)
                        for j in range(o.n):
                            if o.data[j] is not None and got[j] != o.data[j]:
                                raise Fail('launch %d: byte %d of %s is %02x, expected %02x\n%s' % (
                                    L, j, o.name, got[j], o.data[j], log[:1500]), 'contents')
                            o.data[j] = got[j]
        if cap.out:
            raise Fail('unexpected output %r' % cap.out[:300], 'output')

    def judge(self, objs, accs, idx, ms, bs, res, log, gsz, lsz, asy):
        msgs = parse(log)
        used = [False] * len(msgs)
        optional = []

        def ent_ok(ent, wi):
            return ent is None or ent[0] is None or (int(ent[0]) == wi and int(ent[1]) == wi % lsz and int(ent[2]) == wi // lsz)

        def take(pred, wi):
            for i, (t, ent) in enumerate(msgs):
                if not used[i] and pred(t):
                    if ent is None or ent[0] is None or not ent_ok(ent, wi):
                        continue
                    used[i] = True
                    return True
            return False

        for a in accs:
            o = a.o
            base = bs[a.k]
            addr = (base + a.off) & ((1 << 64) - 1)
            what = 'access %d (%s of %d bytes at offset %d of %s, %d bytes, by work-item %d)' % (
                a.k, a.op, a.size, a.off, o.name, o.n, a.wi)
            lo, hi = a.off, a.off + a.size
            reads = a.op in ('load', 'vload', 'copyin', 'atomic', 'cmpxchg')
            # vload/vstore may legitimately be made of one access per component
            parts = 'v' == a.op[0]
            # constant memory is part of global memory
            spaces = [o.space] + (['global'] if o.space == 'constant' else [])
            if not a.valid:
                kinds = (['read'] if a.op in ('load', 'vload', 'copyin') else ['write'] if a.op in ('store', 'vstore', 'copyout')
                         else ['read', 'write'])
                got = 0
                for kd in kinds:
                    texts = ['Invalid %s of size %d at %s memory address 0x%x' % (kd, a.size, sp, addr) for sp in spaces]
                    if got:    # an atomic may be reported as a write as well
                        optional += [(t, a.wi) for t in texts]
                    elif take(lambda t: t in texts, a.wi):
                        got = 1
                if got == 0:
                    raise Fail('%s is out of bounds and was not reported; messages: %s' % (what, msgs), 'missed')
                continue
            # permitted?
            if o.kind in ('global', 'sub'):
                for (mo, moff, mn, fl) in ms:
                    if mo is o and lo < moff + mn and moff < hi:
                        if fl != 1 and reads:
                            if not take(lambda t: t == 'Invalid read from buffer mapped for writing', a.wi):
                                raise Fail('%s reads a region mapped for writing and was not reported: %s' % (what, msgs), 'missed map')
                        if a.op == 'cmpxchg' and self.cmp(o, a) is None:
                            optional.append(('Invalid write to mapped buffer', a.wi))
                        elif a.writes and (a.op != 'cmpxchg' or self.cmp(o, a)):
                            got = take(lambda t: t == 'Invalid write to mapped buffer', a.wi)
                            if not got:
                                raise Fail('%s writes a mapped region and was not reported: %s' % (what, msgs), 'missed map')
                if o.flags == RO and a.op == 'cmpxchg' and self.cmp(o, a) is None:
                    optional.append(('Invalid write to read-only buffer', a.wi))
                elif o.flags == RO and a.writes and (a.op != 'cmpxchg' or self.cmp(o, a)):
                    if not take(lambda t: t == 'Invalid write to read-only buffer', a.wi):
                        raise Fail('%s writes a read-only buffer and was not reported: %s' % (what, msgs), 'missed flag')
                if o.flags == WO and reads:
                    if not take(lambda t: t == 'Invalid read from write-only buffer', a.wi):
                        raise Fail('%s reads a write-only buffer and was not reported: %s' % (what, msgs), 'missed flag')
            mapped = any(mo is o for (mo, _, _, _) in ms)
            perm = not mapped and not (o.flags == RO and a.writes) and not (o.flags == WO and reads)
            slot = res[a.k * SLOT:a.k * SLOT + a.size]
            if reads and perm:
                for j in range(a.size):
                    w = o.data[lo + j]
                    if w is not None and slot[j] != w:
                        raise Fail('%s: byte %d is %02x, expected %02x' % (what, j, slot[j], w), 'value')
            if a.writes:
                old = o.data[lo:hi]
                if not perm:
                    new = [None] * a.size
                elif a.op in ('store', 'vstore', 'copyout'):
                    new = list(a.val)
                elif None in old:
                    new = [None] * a.size
                else:
                    x = struct.unpack('<I', bytes(old))[0]
                    v = struct.unpack('<I', a.val)[0]
                    if a.op == 'cmpxchg':
                        y = v if x == a.old else x
                    else:
                        y = {'atomic_add': (x + v) & 0xffffffff, 'atomic_xchg': v, 'atomic_or': x | v, 'atomic_min': min(x, v)}[a.f]
                    new = list(struct.pack('<I', y))
                o.data[lo:hi] = new
        for (t0, wi) in optional:
            take(lambda t: t == t0, wi)
        for e in idx:
            for (x, d) in e.bad:
                if not take(lambda t: t == 'Index (%d) exceeds static array size (%d)' % (x, d), e.wi):
                    raise Fail('index %s of an array of size %d (by work-item %d) was not reported: %s' % (x, d, e.wi, msgs), 'missed index')
            if e.oob:
                if not take(lambda t: re.match(r'Invalid %s of size 4 at %s memory address' % ('write' if e.wr else 'read', e.space), t), e.wi):
                    raise Fail('access outside an array (index %s) was not reported: %s' % (e.ix, msgs), 'missed array')
        if asy:
            self.asyncs(asy, msgs, used)
        left = [m for i, m in enumerate(msgs) if not used[i]]
        if left:
            raise Fail('reports that match no invalid access: %s' % left, 'spurious')

    def asyncs(self, asy, msgs, used):
        """Reports and effects of the asynchronous copies, element by element."""
        M = (1 << 64) - 1
        ro, wo = asy.flags == RO, asy.flags == WO
        spans = {}          # (kind, space) -> [element start, size]
        nro = nwo = 0
        for a in asy.copies:
            z = a.size
            loc = [(j * 7 + a.k) & 255 for j in range(asy.ln)]
            for i in range(a.n):
                g = a.off[0] + i * z * (a.stride or 1)
                l = a.off[1] + i * z
                gok, lok = 0 <= g and g + z <= asy.gn, 0 <= l and l + z <= asy.ln
                ga, la = (asy.addr[0] + g) & M, (asy.addr[1] + l) & M
                if not gok:
                    spans.setdefault(('read' if a.tolocal else 'write', 'global'), []).append((ga, z))
                elif a.tolocal and wo:
                    nwo += 1
                elif not a.tolocal and ro:
                    nro += 1
                if not lok:
                    spans.setdefault(('write' if a.tolocal else 'read', 'local'), []).append((la, z))
                if a.tolocal:
                    if lok:
                        loc[l:l + z] = asy.data[g:g + z] if gok and not wo else [None] * z
                elif gok:
                    asy.data[g:g + z] = loc[l:l + z] if lok and not ro else [None] * z
            got = asy.res[a.k * 128:a.k * 128 + asy.ln]
            for j in range(asy.ln):
                if loc[j] is not None and got[j] != loc[j]:
                    raise Fail('async copy %d: byte %d of the local memory is %02x, expected %02x' % (a.k, j, got[j], loc[j]), 'async value')
        seen = {}
        flag = {}
        for i, (t, ent) in enumerate(msgs):
            if used[i] or ent is None or int(ent[2]) != asy.g:
                continue
            m = MSG.match(t)
            if not m:
                if t in ('Invalid write to read-only buffer', 'Invalid read from write-only buffer'):
                    flag[t] = flag.get(t, 0) + 1
                    used[i] = True
                continue
            k = (m.group(1), m.group(3))
            b, n = int(m.group(4), 16), int(m.group(2))
            if any(x < b + n and b < x + z for x, z in spans.get(k, [])):
                used[i] = True
                seen.setdefault(k, []).append((b, n))
        for k, v in spans.items():
            for x, z in v:
                if not any(b <= x and x + z <= b + n for b, n in seen.get(k, [])):
                    raise Fail('async copy: %s of %d bytes at %s address 0x%x is out of bounds and was not reported: %s' % (k[0], z, k[1], x, msgs), 'missed async')
        for t, n in (('Invalid write to read-only buffer', nro), ('Invalid read from write-only buffer', nwo)):
            if bool(flag.get(t, 0)) != bool(n):
                raise Fail('async copies: %r reported %d times, expected %d' % (t, flag.get(t, 0), n), 'async flag')

    @staticmethod
    def cmp(o, a):
        old = o.data[a.off:a.off + 4]
        if None in old:
            return None
        return struct.unpack('<I', bytes(old))[0] == a.old


CHECK = C11()
