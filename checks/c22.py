"""C22: instruction histograms count exactly the instructions executed."""
import ctypes
import os
import random
import re
import subprocess
from collections import Counter
import clrt
import irexec
from build import LLVM
from pbt import Check, Fail

W = 8          # global slots per work-item
LW = 4         # local slots per work-item


class Gen:
    def __init__(self, s, r):
        self.s, self.r = s, r
        self.nh = 0
        self.depth = 0
        self.loop = 0
        self.uid = 0
        self.kernel = False

    def e(self, d=0):
        r = self.r
        k = r.randrange(14) if d < 3 else r.randrange(4)
        if k < 2:
            return r.choice(self.vars)
        if k == 2:
            return '%uu' % r.choice([0, 1, 2, 3, 5, 7, 255, 65536, 2**31, 2**32 - 1, r.getrandbits(32)])
        if k == 3:
            return r.choice(self.vars)
        if k < 8:
            return '(%s %s %s)' % (self.e(d + 1), r.choice('+-*&|^'), self.e(d + 1))
        if k == 8:
            return '(%s %s (%s & %d))' % (self.e(d + 1), r.choice(['<<', '>>']), self.e(d + 1), r.choice([3, 7, 15]))
        if k == 9:
            return '(%s %s (%s | 1))' % (self.e(d + 1), r.choice('/%'), self.e(d + 1))
        if k == 10:
            return '(%s ? %s : %s)' % (self.cond(d + 1), self.e(d + 1), self.e(d + 1))
        if k == 11:
            return '(uint)(%s)(%s)' % (r.choice(['uchar', 'char', 'short', 'ushort', 'long', 'ulong']), self.e(d + 1))
        if k == 12:
            return '%s(%s, %s)' % (r.choice(['min', 'max']), self.e(d + 1), self.e(d + 1))
        if self.nh and (d == 0 or r.randrange(3) == 0):
            return 'h%d(%s, %s)' % (r.randrange(self.nh), self.e(d + 1), self.e(d + 1))
        return 'popcount(%s)' % self.e(d + 1)

    def cond(self, d=1):
        r = self.r
        if d < 3 and r.randrange(5) == 0:
            return '(%s %s %s)' % (self.cond(d + 1), r.choice(['&&', '||']), self.cond(d + 1))
        return '(%s %s %s)' % (self.e(d + 1), r.choice(['==', '!=', '<', '>', '<=', '>=']), self.e(d + 1))

    def simple(self):
        r = self.r
        c = r.randrange(12 if self.kernel else 3)
        v = r.choice(self.asg)
        if c < 2:
            return '%s %s %s;' % (v, r.choice(['=', '+=', '^=', '=', '-=']), self.e())
        if c == 2:
            return 'P[%s & 3] %s %s;' % (self.e(2), r.choice(['=', '+=']), self.e(1))
        if c == 3:
            return 'A[gid * %d + (%s & %d)] %s %s;' % (W, self.e(2), W - 1, r.choice(['=', '+=']), self.e(1))
        if c == 4:
            return '%s += A[gid * %d + (%s & %d)];' % (v, W, self.e(2), W - 1)
        if c == 5:
            return '%s += C[%s & 15];' % (v, self.e(2))
        if c == 6:
            return r.choice(['L[lid * %d + (%s & %d)] = %s;' % (LW, self.e(2), LW - 1, self.e(1)), '%s ^= L[lid * %d + (%s & %d)];' % (v, LW, self.e(2), LW - 1)])
        if c == 7:
            return '%s += T[%s & 7];' % (v, self.e(2))
        if c == 8:
            t, n = r.choice([('uchar', 1), ('short', 2), ('long', 8), ('float', 4), ('double', 8), ('int2', 8), ('float4', 16), ('uchar16', 16), ('int3', 16), ('ushort4', 8), ('double2', 16),
                             ('float16', 64), ('ulong16', 128), ('uint8', 32), ('double8', 64), ('char3', 4)])
            p = '((global %s *)(B + gid * 128))[%s & %d]' % (t, self.e(2), 128 // n - 1)
            return r.choice(['%s += (%s)1;' % (p, t), '%s = (%s)3;' % (p, t), '{ %s t = %s; %s = t * t; }' % (t, p, p)])
        if c == 9:
            return 'f = f * 1.5f + ((global float *)(B + gid * 128))[%s & 15];' % self.e(2)
        if c == 10:
            return 'vf.%s += f;' % r.choice('xyzw')
        return '((global float4 *)(B + gid * 128))[%s & 3] = vf;' % self.e(2)

    def stmts(self, n, ind):
        return ''.join(self.stmt(ind) for _ in range(n))

    def stmt(self, ind):
        r = self.r
        self.depth += 1
        try:
            k = r.randrange(10)
            if self.depth > 3 or k < 4:
                return ind + self.simple() + '\n'
            if k < 6:
                o = '%sif %s {\n%s%s}' % (ind, self.cond(), self.stmts(r.randint(1, 2), ind + '  '), ind)
                if r.randrange(2):
                    o += ' else {\n%s%s}' % (self.stmts(r.randint(1, 2), ind + '  '), ind)
                return o + '\n'
            if k == 6:
                o = '%sswitch (%s & 7) {\n' % (ind, self.e(1))
                for c in r.sample(range(8), r.randint(1, 5)):
                    o += '%s  case %d:\n%s' % (ind, c, self.stmts(1, ind + '    '))
                    if r.randrange(3):
                        o += '%s    break;\n' % ind
                if r.randrange(2):
                    o += '%s  default:\n%s' % (ind, self.stmts(1, ind + '    '))
                return o + ind + '}\n'
            if self.loop >= 2:
                return ind + self.simple() + '\n'
            self.loop += 1
            self.uid += 1
            v = 'i%d' % self.uid
            self.vars.append(v)
            b = self.stmts(r.randint(1, 2), ind + '  ')
            if r.randrange(4) == 0:
                b += '%s  if %s %s;\n' % (ind, self.cond(), r.choice(['break', 'continue']))
            self.vars.remove(v)
            self.loop -= 1
            bound = '(%s & %d)' % (self.e(1), r.choice([1, 3, 7]))
            if r.randrange(2):
                return '%sfor (uint %s = 0, n%s = %s; %s < n%s; %s++) {\n%s%s}\n' % (ind, v, v, bound, v, v, v, b, ind)
            return '%s{ uint %s = %s;\n%swhile (%s--) {\n%s%s} }\n' % (ind, v, bound, ind, v, b, ind)
        finally:
            self.depth -= 1

    def program(self, kernels):
        r = self.r
        o = 'constant ushort T[8] = {%s};\n' % ', '.join(str(r.getrandbits(16)) for _ in range(8))
        for h in range(r.randint(0, 3)):
            self.kernel = False
            self.vars, self.asg = ['x', 'y', 'z'], ['x', 'y', 'z']
            o += '%suint h%d(uint x, uint y)\n{\n  uint z = 1, P[4] = {x, y, 2, 3};\n%s  return %s;\n}\n' % (
                r.choice(['', '__attribute__((noinline)) ', '__attribute__((noinline)) ']), h, self.stmts(r.randint(1, 2), '  '), self.e())
            self.nh = h + 1
        for k in kernels:
            self.kernel = True
            self.vars, self.asg = ['x', 'y', 'gid', 'lid'], ['x', 'y']
            bar = '  barrier(%s);\n' % r.choice(['CLK_LOCAL_MEM_FENCE', 'CLK_GLOBAL_MEM_FENCE'])
            o += ('kernel void %s(global uint *A, global uchar *B, constant uint *C, local uint *L)\n{\n  uint gid = get_global_id(0), lid = get_local_id(0);\n'
                  '  uint x = A[gid * %d], y = C[gid & 15], P[4] = {1, 2, x, y};\n  float f = 0; float4 vf = (float4)1;\n  for (int i = 0; i < %d; i++) L[lid * %d + i] = gid;\n%s%s%s'
                  '  A[gid * %d + 1] = x ^ y ^ P[0];\n}\n') % (k, W, LW, LW, self.stmts(r.randint(1, 4), '  '), bar if r.randrange(2) else '', self.stmts(r.randint(0, 3), '  '), W)
        return o


def builtin(gid, lid, gsz, lsz):
    g = {'get_global_id': gid, 'get_local_id': lid, 'get_group_id': gid // lsz, 'get_global_size': gsz, 'get_local_size': lsz}
    M = 0xffffffff

    def call(name, args):
        m = re.match(r'_Z(\d+)(.*)', name)
        if m:
            n = int(m.group(1))
            fn, suf = m.group(2)[:n], m.group(2)[n:]
            if fn in g:
                return g[fn] if args[0] == 0 else {'get_global_id': 0, 'get_local_id': 0, 'get_group_id': 0}.get(fn, 1)
            if fn == 'barrier':
                return None
            if None in args:
                return None
            if (fn, suf) == ('min', 'jj'):
                return min(args)
            if (fn, suf) == ('max', 'jj'):
                return max(args)
            if fn == 'popcount':
                return bin(args[0]).count('1')
            return None
        if name.startswith(('llvm.lifetime', 'llvm.assume', 'llvm.experimental.noalias')):
            return None
        if re.match(r'llvm\.mem(set|cpy|move)', name):
            n = args[2]
            dst = args[0]
            if name.startswith('llvm.memset'):
                dst.obj[dst.off:dst.off + n] = [args[1]] * n
            else:
                src = args[1]
                dst.obj[dst.off:dst.off + n] = src.obj[src.off:src.off + n]
            return None
        if name.startswith('llvm.fmuladd') or None in args:
            return None
        m = re.match(r'llvm\.(\w+)\.i(\d+)$', name)
        if m:
            f, b = m.group(1), int(m.group(2))
            a = args
            sg = irexec.sgn
            if f == 'umin':
                return min(a)
            if f == 'umax':
                return max(a)
            if f == 'smin':
                return min(a, key=lambda v: sg(v, b))
            if f == 'smax':
                return max(a, key=lambda v: sg(v, b))
            if f == 'ctpop':
                return bin(a[0]).count('1')
            if f in ('fshl', 'fshr'):
                k = a[2] % b
                v = (a[0] << b | a[1])
                return (v << k >> b if f == 'fshl' else v >> k) & ((1 << b) - 1)
        m = re.match(r'llvm\.(usub|uadd)\.sat\.i(\d+)$', name)
        if m:
            b = int(m.group(2))
            return max(0, args[0] - args[1]) if m.group(1) == 'usub' else min((1 << b) - 1, args[0] + args[1])
        m = re.match(r'llvm\.abs\.i(\d+)$', name)
        if m:
            b = int(m.group(1))
            return abs(irexec.sgn(args[0], b)) & ((1 << b) - 1)
        raise irexec.Unsupported('call of ' + name)
    return call


HEAD = re.compile(r"^Instructions executed for kernel '(\w+)':$")
ROW = re.compile(r'^ *([\d.,]+) - (.+)$')
MEM = re.compile(r'^(load|store) (\w+) \(([\d.,]+) bytes\)$')
num = lambda t: int(re.sub('[.,]', '', t))


def parse(text):
    out, cur = [], None
    for l in text.split('\n'):
        m = HEAD.match(l)
        if m:
            cur = {}
            prev = None
            out.append((m.group(1), cur))
        elif l.strip():
            m = ROW.match(l)
            if not m or cur is None:
                raise Fail('unexpected line in the histogram: %r' % l, 'format')
            n, name = num(m.group(1)), m.group(2)
            b = MEM.match(name)
            key, val = (b.group(1) + ' ' + b.group(2), (n, num(b.group(3)))) if b else (name, (n, None))
            if key in cur:
                raise Fail('%r is listed twice' % key, 'twice')
            cur[key] = val
            # from the most to the least frequent, then by name
            if prev is not None and (-n, name) < prev:
                raise Fail('%r (%d) is listed after %r (%d)' % (name, n, prev[1], -prev[0]), 'sorted')
            prev = (-n, name)
    return out


class C22(Check):
    id = 'C22'
    quick = 2200
    thorough = 40000
    rule = ('a case is a generated program run under the instruction counter over one or more launches; non-trivial when the work-items '
            'execute different instruction counts; distinct by source, data and launches')
    assumptions = ['the instructions are those of the bitcode Oclgrind reports for the program (CL_PROGRAM_BINARIES), disassembled by LLVM 20',
                   'control flow of the generated kernels depends on scalar integers only, which the reference interpreter computes; programs '
                   'outside its subset are discarded and counted']

    def init(self):
        os.environ['LC_ALL'] = 'C'
        clrt.load(self.b + '/liboclgrind-rt.so')

    def case(self, s):
        r = random.Random(s.seed())
        kernels = ['ka', 'kb'][:s.range(1, 2)]
        src = Gen(s, r).program(kernels)
        opts = s.choice(['-cl-opt-disable', '', '-cl-mad-enable'])
        lsz, ng = s.range(1, 4), s.range(1, 6)
        n = lsz * ng
        threads = s.choice([1, 1, 2, 4, 8])
        A = [r.choice([0, 1, 2, 3, 5, r.getrandbits(32)]) for _ in range(n * W)]
        C = [r.choice([0, 1, 2, 3, 5, r.getrandbits(32)]) for _ in range(16)]
        launches = [(s.choice(kernels), s.choice([lsz, lsz, 1, n])) for _ in range(s.range(1, 3))]
        s.desc = 'n=%d threads=%d opts=%r launches=%s A=%s C=%s\n%s' % (n, threads, opts, launches, A, C, src)
        clrt.setenv(INST_COUNTS=True, NUM_THREADS=threads)
        Ab = b''.join(v.to_bytes(4, 'little') for v in A)
        Cb = b''.join(v.to_bytes(4, 'little') for v in C)
        with clrt.Capture() as cap:
            with clrt.Ctx() as c:
                p = c.program(src, opts)
                sz = clrt.szarr([0])
                clrt.call('clGetProgramInfo', p, 0x1165, 8, sz, None)
                buf = ctypes.create_string_buffer(sz[0])
                clrt.call('clGetProgramInfo', p, 0x1166, 8, ctypes.byref(ctypes.c_void_p(ctypes.addressof(buf))), None)
                a, b, cc = c.buffer(len(Ab), Ab), c.buffer(n * 128, bytes(n * 128)), c.buffer(64, Cb)
                lens = []
                for name, l in launches:
                    k = c.kernel(p, name)
                    # local memory sized for the largest possible group
                    c.setargs(k, [('m', a), ('m', b), ('m', cc), ('l', LW * 4 * n)])
                    try:
                        c.ndrange(k, [n], [l])
                    except clrt.CLError as e:
                        raise Fail('launch failed: %s\n%s' % (e, cap.peek()[1][:400]), 'launch')
                fin = c.read(a, len(Ab))
        err = re.sub(r'(?m)^\d+ warnings? generated\.\n', '', cap.stderr)
        if err:
            raise Fail('diagnostic: %s' % err[:400], 'diag')
        got = parse(cap.stdout)
        if [g[0] for g in got] != [l[0] for l in launches]:
            raise Fail('histograms for %s, launches of %s' % ([g[0] for g in got], [l[0] for l in launches]), 'launches')
        ll = subprocess.run([LLVM + '/bin/llvm-dis', '-o', '-'], input=buf.raw, stdout=subprocess.PIPE, check=True).stdout.decode('latin1')
        try:
            mod = irexec.Module(ll)
            objA, objB, objC = list(Ab), [0] * (n * 128), list(Cb)
            div = False
            for i, (name, l) in enumerate(launches):
                total, byt = Counter(), Counter()
                gl = {}
                prev = None
                for g in range(n):
                    lz = l
                    m = irexec.Machine(mod, builtin(g, g % lz, n, lz))
                    m.gobj = gl
                    if g % lz == 0:
                        L = [None] * (LW * 4 * n)
                    m.run(name, [irexec.Ptr(objA, 0), irexec.Ptr(objB, 0), irexec.Ptr(objC, 0), irexec.Ptr(L, 0)])
                    total += m.count
                    byt += m.bytes
                    if prev is not None and prev != m.count:
                        div = True
                    prev = m.count
                want = {k: (v, byt[k] if k in byt else None) for k, v in total.items()}
                have = got[i][1]
                for k in sorted(set(want) | set(have)):
                    if want.get(k) != have.get(k):
                        raise Fail('launch %d of %s: %r is reported as %s, the work-items executed %s' % (i, name, k, have.get(k), want.get(k)), 'count')
                for k in want:
                    s.cls(re.sub(r'\(\)$', '', k) if not k.startswith('call h') else 'call of a function')
        except irexec.Unsupported as e:
            s.cls('discarded: %s' % re.sub(r'\d+', 'N', str(e))[:40])
            return
        if all(isinstance(v, int) for v in objA) and bytes(objA) != fin:
            raise Fail('the reference interpreter and Oclgrind disagree about the results', 'value')
        s.cls('judged')
        if div:
            s.nontrivial((src, tuple(A), tuple(C), tuple(launches), n, opts))


CHECK = C22()
