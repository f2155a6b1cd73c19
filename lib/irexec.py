"""A small reference interpreter for the LLVM IR of generated integer kernels.
It executes one work-item at a time and counts executed instructions.  Floating
point and vector values are opaque (they never decide control flow)."""
import re
from collections import Counter


class Unsupported(Exception):
    pass


OPAQUE = None
FLOATS = {'float': 4, 'double': 8, 'half': 2}
SPACES = ['private', 'global', 'constant', 'local']
BIN = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'}
FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'inbounds', 'nusw', 'samesign', 'nneg', 'volatile', 'tail', 'musttail', 'notail',
         'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'atomic'}


def ptype(t, i=0):
    """-> (type, next position); types: ('i',n) ('f',bytes) ('p',space) ('v',n,T) ('a',n,T) ('void',)"""
    while t[i] == ' ':
        i += 1
    m = re.compile(r'i(\d+)').match(t, i)
    if m:
        return ('i', int(m.group(1))), m.end()
    for f, n in FLOATS.items():
        if t.startswith(f, i):
            return ('f', n), i + len(f)
    if t.startswith('ptr', i):
        m = re.compile(r'ptr addrspace\((\d+)\)').match(t, i)
        return (('p', int(m.group(1))), m.end()) if m else (('p', 0), i + 3)
    if t.startswith('void', i):
        return ('void',), i + 4
    m = re.compile(r'([<\[])(\d+) x ').match(t, i)
    if m:
        e, j = ptype(t, m.end())
        assert t[j] in '>]', t
        return ('v' if m.group(1) == '<' else 'a', int(m.group(2)), e), j + 1
    raise Unsupported('type ' + t[i:i + 20])


def size(t):
    k = t[0]
    if k == 'i':
        return max(1, (t[1] + 7) // 8)
    if k == 'f':
        return t[1]
    if k == 'p':
        return 8
    if k == 'v':
        n = t[1] if t[1] != 3 else 4
        return n * size(t[2])
    return t[1] * size(t[2])


def split(x):
    out, d, cur = [], 0, ''
    for c in x:
        if c in '([{<':
            d += 1
        elif c in ')]}>':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj, self.off = obj, off


class Fn:
    pass


class Module:
    def __init__(self, text):
        self.fns = {}
        self.globals = {}
        cur = None
        lines = iter(text.split('\n'))
        for l in lines:
            if cur is None:
                if l.startswith('define'):
                    m = re.search(r'@([\w.$]+)\((.*)\)[^()]*(?:memory\([^)]*\))?[^()]*\{', l)
                    cur = Fn()
                    cur.name = m.group(1)
                    a = l[m.start(2):]
                    d, j = 1, 0
                    while d:
                        d += {'(': 1, ')': -1}.get(a[j], 0)
                        j += 1
                    cur.params = [re.search(r'%[-\w.$]+$', x).group(0) for x in split(a[:j - 1])]
                    cur.blocks = {}
                    blk = None
                    self.fns[cur.name] = cur
                elif l.startswith('@'):
                    m = re.match(r'@([\w.$]+) = .*?(constant|global) (.*)$', l)
                    if m:
                        self.globals[m.group(1)] = m.group(3)
                continue
            if l.startswith('}'):
                cur = None
                continue
            m = re.match(r'([-\w.$]+):', l)
            if m:
                blk = '%' + m.group(1)
                cur.blocks[blk] = []
                if len(cur.blocks) == 1:
                    cur.entry = blk
                continue
            x = l.strip()
            if not x or x.startswith('#dbg') or x.startswith(';'):
                continue
            if blk is None:
                raise Unsupported('unnamed entry block')
            while x.count('[') > x.count(']'):
                x += ' ' + next(lines).strip()
            cur.blocks[blk].append(self.parse(x))

    def parse(self, x):
        x = re.sub(r', ![\w.]+ !\d+', '', x)
        x = re.sub(r' #\d+$', '', x)
        r = None
        m = re.match(r'(%[-\w.$]+) = ', x)
        if m:
            r, x = m.group(1), x[m.end():]
        w = x.split(' ')
        i = 0
        while w[i] in FLAGS:
            i += 1
        op = w[i]
        i += 1
        while i < len(w) and w[i] in FLAGS:
            i += 1
        rest = ' '.join(w[i:])
        if op in BIN:
            t, j = ptype(rest)
            a, b = split(rest[j:])
            return (r, op, t, self.opnd(t, a), self.opnd(t, b))
        if op == 'icmp':
            pred, rest = rest.split(' ', 1)
            while pred in FLAGS:
                pred, rest = rest.split(' ', 1)
            t, j = ptype(rest)
            a, b = split(rest[j:])
            return (r, op, t, pred, self.opnd(t, a), self.opnd(t, b))
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc'):
            t, j = ptype(rest)
            v, to = rest[j:].rsplit(' to ', 1)
            return (r, op, t, self.opnd(t, v.strip()), ptype(to)[0])
        if op in ('load', 'alloca', 'store'):
            if op == 'alloca':
                return (r, op, ptype(rest)[0])
            p = split(rest)
            if op == 'load':
                t = ptype(p[0])[0]
                pt, j = ptype(p[1])
                return (r, op, t, pt[1], self.opnd(pt, p[1][j:].strip()))
            t, j = ptype(p[0])
            pt, k = ptype(p[1])
            return (r, op, t, pt[1], self.opnd(t, p[0][j:].strip()), self.opnd(pt, p[1][k:].strip()))
        if op == 'getelementptr':
            return (r, op) + self.gep(rest)
        if op == 'br':
            p = split(rest)
            if len(p) == 1:
                return (r, op, p[0].split()[1])
            return (r, op, self.tv(p[0]), p[1].split()[1], p[2].split()[1])
        if op == 'switch':
            m = re.match(r'(.*?), label (%[-\w.$]+) \[(.*)\]', rest)
            t, j = ptype(m.group(1))
            cases = {int(a) & ((1 << t[1]) - 1): b for a, b in re.findall(r'i\d+ (-?\d+), label (%[-\w.$]+)', m.group(3))}
            return (r, op, self.tv(m.group(1)), m.group(2), cases)
        if op == 'ret':
            return (r, op, None if rest == 'void' else self.tv(rest))
        if op == 'phi':
            t, j = ptype(rest)
            d = {}
            for e in split(rest[j:]):
                v, b = e.strip('[] ').rsplit(',', 1)
                d[b.strip()] = self.opnd(t, v.strip())
            return (r, op, d)
        if op == 'select':
            p = split(rest)
            return (r, op, self.tv(p[0]), self.tv(p[1]), self.tv(p[2]))
        if op == 'freeze':
            return (r, op, self.tv(rest))
        if op == 'call':
            m = re.search(r'@([\w.$]+)\(', rest)
            if not m:
                raise Unsupported('indirect call')
            a = rest[m.end():]
            d, j = 1, 0
            while d:
                d += {'(': 1, ')': -1}.get(a[j], 0)
                j += 1
            args = []
            for y in split(a[:j - 1]):
                t, k = ptype(y)
                v = y[k:].strip()
                while not re.match(r'(undef|poison|null|true|false|zeroinitializer|splat|getelementptr)\b', v):
                    q = re.match(r'(align \d+|[a-z_]+(\([^)]*\))?) ', v)
                    if not q:
                        break
                    v = v[q.end():]
                args.append(self.opnd(t, v))
            return (r, op, m.group(1), args)
        if op == 'unreachable':
            return (r, op)
        if op in ('extractelement', 'insertelement', 'shufflevector', 'fneg', 'fcmp', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'extractvalue', 'insertvalue'):
            return (r, 'opaque:' + op)
        raise Unsupported('instruction ' + op)

    def gep(self, rest):
        p = split(rest)
        t = ptype(p[0])[0]
        return (t, self.tv(p[1]), [self.tv(q) for q in p[2:]])

    def tv(self, x):
        t, j = ptype(x)
        return self.opnd(t, x[j:].strip())

    def opnd(self, t, x):
        if x[0] == '%':
            return ('r', x)
        if x in ('undef', 'poison') or t[0] in 'fva':
            return ('c', OPAQUE)
        if x in ('true', 'false'):
            return ('c', int(x == 'true'))
        if x == 'null':
            return ('c', Ptr(None, 0))
        if x[0] == '@':
            return ('g', x[1:])
        if re.match(r'-?\d+$', x):
            return ('c', int(x) & ((1 << t[1]) - 1))
        if x.startswith('getelementptr'):
            y = x[x.index('(') + 1:x.rindex(')')]
            return ('gep',) + self.gep(y)
        raise Unsupported('operand ' + x[:40])


def sgn(v, b):
    return v - (1 << b) if v >> (b - 1) else v


class Machine:
    def __init__(self, mod, ids, limit=300000):
        """ids(name, arg): value of a work-item function"""
        self.m = mod
        self.ids = ids
        self.count = Counter()
        self.bytes = Counter()
        self.gobj = {}
        self.limit = limit

    def glob(self, name):
        if name not in self.gobj:
            init = self.m.globals[name]
            t, j = ptype(init)
            rest = init[j:].strip()
            obj = [0] * size(t)
            if t[0] in 'aA' and rest.startswith('['):
                vals = re.findall(r'i\d+ (-?\d+)', rest[:rest.index(']')])
                es = size(t[2])
                for k, v in enumerate(vals):
                    for b in range(es):
                        obj[k * es + b] = int(v) >> (8 * b) & 255
            elif t[0] == 'i' and re.match(r'-?\d+', rest):
                v = int(re.match(r'-?\d+', rest).group(0))
                for b in range(size(t)):
                    obj[b] = v >> (8 * b) & 255
            elif not rest.startswith(('zeroinitializer', 'undef')):
                obj = [None] * size(t)
            self.gobj[name] = obj
        return Ptr(self.gobj[name], 0)

    def run(self, fn, args):
        f = self.m.fns[fn]
        env = dict(zip(f.params, args))
        blk, prev = f.entry, None
        cnt, byt = self.count, self.bytes

        def ev(o):
            k = o[0]
            if k == 'r':
                return env[o[1]]
            if k == 'c':
                return o[1]
            if k == 'g':
                return self.glob(o[1])
            return gep(o[1], ev(o[2]), [ev(q) for q in o[3]])

        def gep(t, base, idx):
            if base is OPAQUE or any(i is OPAQUE for i in idx):
                raise Unsupported('opaque address')
            off = base.off + sgn(idx[0], 64) * size(t) if idx[0] < 1 << 64 else 0
            for i in idx[1:]:
                t = t[2]
                off += sgn(i, 64) * size(t)
            return Ptr(base.obj, off)
        while True:
            ins = f.blocks[blk]
            phis = [x for x in ins if x[1] == 'phi']
            if phis:
                vals = [ev(x[2][prev]) for x in phis]
                for x, v in zip(phis, vals):
                    env[x[0]] = v
                    cnt['phi'] += 1
            for x in ins[len(phis):]:
                r, op = x[0], x[1]
                self.limit -= 1
                if self.limit < 0:
                    raise Unsupported('too long')
                if op in BIN:
                    cnt[op] += 1
                    a, b = ev(x[3]), ev(x[4])
                    if x[2][0] != 'i' or a is OPAQUE or b is OPAQUE:
                        env[r] = OPAQUE
                        continue
                    w = x[2][1]
                    M = (1 << w) - 1
                    if op == 'add':
                        v = a + b
                    elif op == 'sub':
                        v = a - b
                    elif op == 'mul':
                        v = a * b
                    elif op == 'and':
                        v = a & b
                    elif op == 'or':
                        v = a | b
                    elif op == 'xor':
                        v = a ^ b
                    elif op in ('shl', 'lshr', 'ashr'):
                        if b >= w:
                            v = None
                        else:
                            v = a << b if op == 'shl' else a >> b if op == 'lshr' else sgn(a, w) >> b
                    elif b == 0:
                        v = None
                    elif op == 'udiv':
                        v = a // b
                    elif op == 'urem':
                        v = a % b
                    else:
                        p, q = sgn(a, w), sgn(b, w)
                        d = abs(p) // abs(q) * (1 if (p < 0) == (q < 0) else -1)
                        v = d if op == 'sdiv' else p - d * q
                    env[r] = None if v is None else v & M
                elif op == 'icmp':
                    cnt[op] += 1
                    a, b = ev(x[4]), ev(x[5])
                    if x[2][0] not in 'i' or a is OPAQUE or b is OPAQUE:
                        env[r] = OPAQUE
                        continue
                    p = x[3]
                    if p[0] == 's':
                        a, b = sgn(a, x[2][1]), sgn(b, x[2][1])
                    q = p[-2:]
                    env[r] = int(a == b if q == 'eq' else a != b if q == 'ne' else a < b if q == 'lt' else a <= b if q == 'le' else a > b if q == 'gt' else a >= b)
                elif op == 'load':
                    k = 'load ' + SPACES[x[3]]
                    cnt[k] += 1
                    n = size(x[2])
                    byt[k] += n
                    p = ev(x[4])
                    if p.obj is None or p.off < 0 or p.off + n > len(p.obj):
                        raise Unsupported('access outside an object')
                    d = p.obj[p.off:p.off + n]
                    if x[2][0] == 'p':
                        env[r] = d[0][0] if isinstance(d[0], tuple) else OPAQUE
                    elif x[2][0] == 'i' and all(isinstance(e, int) for e in d):
                        env[r] = int.from_bytes(bytes(d), 'little') & ((1 << x[2][1]) - 1)
                    else:
                        env[r] = OPAQUE
                elif op == 'store':
                    k = 'store ' + SPACES[x[3]]
                    cnt[k] += 1
                    n = size(x[2])
                    byt[k] += n
                    v, p = ev(x[4]), ev(x[5])
                    if p.obj is None or p.off < 0 or p.off + n > len(p.obj):
                        raise Unsupported('access outside an object')
                    if isinstance(v, Ptr):
                        d = [(v, i) for i in range(8)]
                    elif v is OPAQUE or x[2][0] != 'i':
                        d = [None] * n
                    else:
                        d = list(v.to_bytes(n, 'little'))
                    p.obj[p.off:p.off + n] = d
                elif op == 'alloca':
                    cnt[op] += 1
                    env[r] = Ptr([None] * size(x[2]), 0)
                elif op == 'getelementptr':
                    cnt[op] += 1
                    env[r] = gep(x[2], ev(x[3]), [ev(q) for q in x[4]])
                elif op in ('zext', 'sext', 'trunc'):
                    cnt[op] += 1
                    v = ev(x[3])
                    if v is OPAQUE or x[2][0] != 'i' or x[4][0] != 'i':
                        env[r] = OPAQUE
                    elif op == 'sext':
                        env[r] = sgn(v, x[2][1]) & ((1 << x[4][1]) - 1)
                    else:
                        env[r] = v & ((1 << x[4][1]) - 1)
                elif op in ('bitcast', 'freeze'):
                    cnt[op] += 1
                    env[r] = ev(x[3]) if op == 'bitcast' and x[2] == x[4] else ev(x[2]) if op == 'freeze' else OPAQUE
                elif op == 'select':
                    cnt[op] += 1
                    c = ev(x[2])
                    env[r] = OPAQUE if c is OPAQUE else ev(x[3]) if c else ev(x[4])
                elif op == 'br':
                    cnt[op] += 1
                    if len(x) == 3:
                        prev, blk = blk, x[2]
                    else:
                        c = ev(x[2])
                        if c is OPAQUE:
                            raise Unsupported('branch on an opaque value')
                        prev, blk = blk, x[3] if c else x[4]
                    break
                elif op == 'switch':
                    cnt[op] += 1
                    c = ev(x[2])
                    if c is OPAQUE:
                        raise Unsupported('switch on an opaque value')
                    prev, blk = blk, x[4].get(c, x[3])
                    break
                elif op == 'ret':
                    cnt[op] += 1
                    return ev(x[2]) if x[2] else None
                elif op == 'call':
                    name = x[2]
                    cnt['call %s()' % name] += 1
                    args = [ev(a) for a in x[3]]
                    if name in self.m.fns:
                        v = self.run(name, args)
                    else:
                        v = self.ids(name, args)
                    if r:
                        env[r] = v
                elif op.startswith('opaque:') or op in ('sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
                    cnt[op.split(':')[-1]] += 1
                    env[r] = OPAQUE
                else:
                    raise Unsupported(op)
            else:
                raise Unsupported('no terminator')
