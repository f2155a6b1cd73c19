"""C01: generated kernels, interpreter against native execution of the same source."""
import ctypes as C
import os
import random
import re
import struct
import subprocess
import tempfile
import build
import clrt
import clgen
import clmicro
from clb import int_values
from pbt import Check, Fail, Discard

NATIVE = '''
kernel void k(global ulong *o, global const ulong *in) { body(o, in); }
'''
NIN = 4
WIDE = re.compile(r'Unsupported (signed |unsigned |constant )?int size: (9|\d\d+) bytes')
OPTS = ['', '-cl-opt-disable', '-O1', '-O2', '-O3', '-Os', '-O0', '-cl-std=CL2.0', '-cl-mad-enable', '-w -O2 -cl-std=CL3.0']


def native(src, slots, n, data, d):
    f = os.path.join(d, 'k.cl')
    so = os.path.join(d, 'k.so')
    with open(f, 'w') as h:
        h.write(src)
    p = subprocess.run([build.CLANG, '-x', 'cl', '-cl-std=CL1.2', '-O0', '-w', '-ffp-contract=off',
                        '-Xclang', '-finclude-default-header', '-Xclang', '-fdeclare-opencl-builtins',
                        '-fPIC', '-shared', '-nostdlib', '-o', so, f],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise Fail('native compile failed:\n%s\n%s' % (p.stdout.decode('latin1')[:3000], src), 'native compile')
    lib = C.CDLL(so)
    fn = lib.k
    fn.restype = None
    out = []
    for i in range(n):
        # over-aligned copies: vector loads assume natural alignment
        ob = C.create_string_buffer(slots * 8 + 256)
        ib = C.create_string_buffer(data[i * NIN * 8:(i + 1) * NIN * 8] + bytes(128))
        oa = (C.addressof(ob) + 127) & ~127
        fn(C.c_void_p(oa), C.c_void_p(C.addressof(ib)))
        out.append(C.string_at(oa, slots * 8))
    import _ctypes
    _ctypes.dlclose(lib._handle)
    return out


class C01(Check):
    id = 'C01'
    quick = 1600
    thorough = 60000
    case_timeout = 120.0
    rule = ('a case is one generated kernel (structs, unions, arrays, pointers, vectors, helpers, loops, '
            'switches) run over 1-6 work-items at two optimisation settings; non-trivial when it has at '
            'least 10 statements of output state and uses at least three language features, or (two fifths of the cases) a batch of single '
            'operations over 8-64 work-items with edge values, non-trivial with two kinds of operation; distinct by source text and inputs')
    assumptions = ['clang 20 at -O0 on x86-64 executes the same OpenCL C source correctly',
                   'generated programs contain no undefined behaviour']

    def init(self):
        clrt.load(self.b + '/liboclgrind-rt.so')
        clrt.setenv()

    def case(self, s):
        if s.bool(2, 5):
            return self.micro(s)
        g = clgen.Gen(s, budget=s.range(1, 25), floats=s.bool(3, 4), vectors=s.bool(3, 4), depth=s.range(2, 4))
        src, slots, feat = g.program(NIN)
        if len(src) > 60000:
            raise Discard()
        n = s.range(1, 6)
        opts = s.sample(OPTS, 2)
        r = random.Random(s.seed())
        vals = []
        for _ in range(n * NIN):
            vals += int_values(r, 'ulong', 1)
        data = struct.pack('<%dQ' % len(vals), *vals)
        s.desc = 'opts=%s n=%d inputs=%s\n%s' % (opts, n, ['%x' % v for v in vals], src)
        for k in feat:
            s.cls(k)
        s.count('work-items', n)
        if slots >= 10 and len(feat) >= 3:
            s.nontrivial(src)
        self.compare(s, src, slots, n, data, opts, vals)

    def micro(self, s):
        src, slots, feat = clmicro.Micro(s).program(s.range(1, 16))
        n = s.range(8, 64)
        opts = [s.choice(OPTS)]
        vals = clmicro.inputs(random.Random(s.seed()), n, NIN)
        data = struct.pack('<%dQ' % len(vals), *vals)
        s.desc = 'opts=%s n=%d inputs=%s\n%s' % (opts, n, ['%x' % v for v in vals], src)
        for k in feat:
            s.cls(k)
        s.count('work-items', n)
        if len(feat) >= 2:
            s.nontrivial((src, data))
        self.compare(s, src, slots, n, data, opts, vals)

    def compare(self, s, src, slots, n, data, opts, vals):
        d = tempfile.mkdtemp(prefix='c01_', dir='/tmp')
        try:
            want = native(src + NATIVE, slots, n, data, d)
        finally:
            for f in os.listdir(d):
                os.unlink(os.path.join(d, f))
            os.rmdir(d)
        for o in opts:
            s.cls('opt ' + o)
            try:
                self.run(src, slots, n, data, o, want, vals)
            except (Fail, clrt.CLError) as e:
                if getattr(e, 'fkey', None) == 'wide-int' or getattr(e, 'key', None) == 'wide-int':
                    if s.known('wide-int'):
                        s.excluded('wide-int')
                        continue
                raise

    def run(self, src, slots, n, data, opt, want, vals):
        ksrc = src + ('kernel void k(global ulong *o, global const ulong *in) '
                      '{ size_t i = get_global_id(0); body(o + i * %d, in + i * %d); }\n' % (slots, NIN))
        with clrt.Capture() as cap:
            with clrt.Ctx() as c:
                p = c.program(ksrc, opt)
                try:
                    k = c.kernel(p, 'k')
                except clrt.CLError as e:
                    text = cap.peek()[1].decode('latin1')
                    m = re.search(r'Undefined external function: (\S+)', text)
                    e.fkey = m.group(1) if m else 'wide-int' if WIDE.search(text) else 'createkernel'
                    raise
                ob = c.buffer(max(8, slots * 8 * n))
                ib = c.buffer(len(data), data)
                c.setargs(k, [('m', ob), ('m', ib)])
                c.ndrange(k, [n])
                got = c.read(ob, max(8, slots * 8 * n))
                got2 = c.read(ib, len(data))
        err = re.sub(r'(?m)^\d+ warnings? generated\.\n', '', cap.stderr)
        if cap.out or err:
            raise Fail('options %r: unexpected output:\n%s%s' % (opt, cap.stdout[:1500], cap.stderr[:1500]),
                       'wide-int' if WIDE.search(err) else 'diag')
        if got2 != data:
            raise Fail('options %r: the input buffer changed' % opt, 'input')
        for i in range(n):
            g = got[i * slots * 8:(i + 1) * slots * 8]
            if g != want[i]:
                a = struct.unpack('<%dQ' % slots, g)
                b = struct.unpack('<%dQ' % slots, want[i])
                bad = [j for j in range(slots) if a[j] != b[j]]
                raise Fail('options %r, work-item %d, inputs %s: output slots %s: got %s, native execution gives %s' % (
                    opt, i, ['%x' % v for v in vals[i * NIN:(i + 1) * NIN]], bad[:10],
                    ['%x' % a[j] for j in bad[:10]], ['%x' % b[j] for j in bad[:10]]), 'value')


CHECK = C01()
