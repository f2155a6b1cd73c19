"""C25: sessions of the interactive debugger."""
import ctypes as C
import os
import signal
import struct
import traceback
import clrt
import pbt
from clrt import vp, szarr, parr, call, raw, create
from pbt import Check, Fail

INT = {'char': (1, True), 'uchar': (1, False), 'short': (2, True), 'ushort': (2, False), 'int': (4, True), 'uint': (4, False), 'long': (8, True), 'ulong': (8, False)}
NAMES = ['a', 'b', 'c', 'd', 'e', 'x', 'y', 'z']
WILD = '\x00ANY'


def wrap(t, v):
    n, sg = INT[t]
    v &= (1 << 8 * n) - 1
    return v - (1 << 8 * n) if sg and v >> (8 * n - 1) else v


class Var:
    """A variable: kind is a scalar type, ('vec', t, n), ('arr', t, n) or 'struct'."""
    __slots__ = ('kind', 'val', 'init', 'decl')

    def __init__(self, kind):
        self.kind, self.val, self.init, self.decl = kind, None, False, False


class Scope:
    def __init__(self, decls):
        self.vars = {n: Var(k) for n, k in decls.items()}


class Block:
    def __init__(self):
        self.decls = {}
        self.stmts = []


class Func:
    def __init__(self, name, kernel, params, rettype):
        self.name, self.kernel, self.params, self.ret = name, kernel, params, rettype
        self.body = Block()
        self.first = self.last = 0
        self.locals = None


class Frame:
    def __init__(self, fn, args, shown):
        self.fn, self.args, self.shown = fn, args, shown
        self.scopes = []
        self.line = 0


STRUCT = [('m0', 'int'), ('m1', 'ushort'), ('m2', 'uchar'), ('m3', 'char')]


class Gen:
    """Generates the source; statements are tuples that start with (kind, line)."""

    def __init__(self, s):
        self.s = s
        self.lines = []
        self.funcs = []
        self.size = 0

    def emit(self, text, ind):
        self.lines.append('  ' * ind + text)
        return len(self.lines)

    def pad(self):
        s = self.s
        while s.bool(1, 8):
            self.emit(s.choice(['', '// comment', '  // nothing']), 0)

    # scopes is a list of Blocks with the decls known so far, innermost last
    def declare(self, b, name, kind):
        b.stmts.append(('decl', name))
        b.decls[name] = kind
        b.ready.add(name)

    def visible(self, scopes, pred):
        seen, r = set(), []
        for b in reversed(scopes):
            for n, k in b.decls.items():
                if n in seen:
                    continue
                seen.add(n)
                if n in b.ready and pred(k):
                    r.append((n, k))
        return r

    def source(self):
        s = self.s
        self.pad()
        self.emit('typedef struct { int m0; ushort m1; uchar m2; char m3; } St;', 0)
        for i in range(s.weighted([(2, 0), (3, 1), (3, 2)])):
            self.helper(i)
        nk = s.weighted([(4, 1), (1, 2)])
        for i in range(nk):
            self.kernel('k%d' % i)
        self.pad()
        return '\n'.join(self.lines) + '\n'

    def helper(self, i):
        s = self.s
        void = s.bool(1, 4)
        params = [('p', 'ptr'), ('i', 'int'), ('v', 'int')] if void else [(n, 'int') for n in s.sample(['i', 'a', 'x', 'v'], s.range(1, 2))]
        f = Func('f%d' % i, False, params, None if void else 'int')
        self.pad()
        self.emit('%s %s(%s)' % ('void' if void else 'int', f.name, ', '.join(('global int *' if t == 'ptr' else 'int ') + n for n, t in params)), 0)
        f.first = self.emit('{', 0)
        f.body.ready = set()
        for n, t in params:
            f.body.decls[n] = t
            f.body.ready.add(n)
        self.fn = f
        self.prot = {n for n, t in params}
        self.loops = 0
        self.depth = 0
        self.counter(f.body, params[-1][0])
        self.block(f.body, [f.body], s.range(1, 4), 1)
        if void:
            L = self.emit('p[i] = p[i] + v;', 1)
            f.body.stmts.append(('pinc', L))
        else:
            vs = self.visible([f.body], lambda k: k == 'int')
            a, b = s.choice(vs)[0], s.choice(vs)[0]
            op = s.choice('+-^')
            L = self.emit('return %s %s %s;' % (a, op, b), 1)
            f.body.stmts.append(('ret', L, a, op, b))
        f.last = self.emit('}', 0)
        self.funcs.append(f)

    def counter(self, b, src):
        if self.s.bool(4, 5):
            c = self.s.range(1, 300)
            L = self.emit('int t = (int)%s + (int)%d;' % (src, c), 1)
            self.declare(b, 't', 'int')
            b.stmts.append(('bin', L, 't', 'int', src, '+', c))

    def kernel(self, name):
        s = self.s
        f = Func(name, True, [('out', 'ptr'), ('cb', 'cptr'), ('n', 'int'), ('nx', 'int'), ('ny', 'int')], None)
        self.pad()
        self.emit('kernel void %s(global int *out, global char *cb, int n, int nx, int ny)' % name, 0)
        f.first = self.emit('{', 0)
        f.body.ready = set()
        for n, t in f.params:
            f.body.decls[n] = t
            f.body.ready.add(n)
        self.fn = f
        self.prot = {'i', 'lid', 'ln'} | {n for n, t in f.params}
        self.loops = 0
        self.depth = 0
        b = f.body
        L = self.emit('int i = get_global_id(0) + nx * (get_global_id(1) + ny * get_global_id(2));', 1)
        self.declare(b, 'i', 'int')
        b.stmts.append(('gid', L))
        if s.bool(2, 5):
            L = self.emit('int lid = get_local_id(0) + get_local_size(0) * (get_local_id(1) + get_local_size(1) * get_local_id(2));', 1)
            self.declare(b, 'lid', 'int')
            b.stmts.append(('lid', L))
            L = self.emit('int ln = get_local_size(0) * get_local_size(1) * get_local_size(2);', 1)
            self.declare(b, 'ln', 'int')
            b.stmts.append(('ln', L))
            f.locals = 'loc'
            self.emit('local int loc[32];', 1)
        self.counter(b, 'i')
        self.block(b, [b], s.range(2, 7), 1, top=True)
        vs = self.visible([b], lambda k: k == 'int')
        v = s.choice(vs)[0]
        L = self.emit('out[i] = %s;' % v, 1)
        b.stmts.append(('out', L, v))
        f.last = self.emit('}', 0)
        self.funcs.append(f)

    def block(self, b, scopes, n, ind, top=False):
        for _ in range(n):
            self.pad()
            self.stmt(b, scopes, ind, top)

    def sub(self, scopes, ind, jumps=True):
        b = Block()
        b.ready = set()
        self.depth += 1
        self.block(b, scopes + [b], self.s.range(1, 3), ind)
        self.depth -= 1
        return b

    def stmt(self, b, scopes, ind, top):
        s = self.s
        self.size += 1
        ints = self.visible(scopes, lambda k: k == 'int')
        k = s.weighted([(5, 'decl'), (6, 'assign'), (2, 'const'), (2, 'inc'), (2, 'if'), (2, 'ifelse'), (2, 'for'), (1, 'while'), (1, 'do'), (1, 'plain'), (5, 'call'), (2, 'agg'),
                        (2, 'aggset'), (1, 'out'), (2, 'barrier'), (1, 'switch'), (1, 'jump'), (1, 'tern'), (1, 'ptr'), (1, 'oob'), (1, 'flt')])
        if self.size > 40 or (self.depth >= 3 and k in ('if', 'ifelse', 'for', 'while', 'do', 'plain', 'switch')):
            k = 'inc'
        scal = self.visible(scopes, lambda q: q in INT)
        # a name declared later in an enclosing block could be captured by an inner declaration only, so any name may be reused in an inner block
        if k in ('decl', 'agg', 'flt', 'ptr'):
            free = [n for n in NAMES if n not in b.decls and n not in self.prot]
            if not free:
                k = 'inc'
            else:
                name = s.choice(free)
        if k == 'flt':
            fl = self.visible(scopes, lambda q: q == 'float')
            if fl and s.bool():
                v, w = s.choice(fl)[0], s.choice(fl)[0]
                c = s.range(-8, 8) * 0.25
                L = self.emit('%s = %s * 0.5f + %sf;' % (v, w, repr(c)), ind)
                b.stmts.append(('fset', L, v, w, c))
            else:
                c = s.range(-40, 40) * 0.25
                L = self.emit('float %s = %sf;' % (name, repr(c)), ind)
                self.declare(b, name, 'float')
                b.stmts.append(('const', L, name, c))
        elif k == 'decl':
            t = s.weighted([(4, 'int'), (1, 'char'), (1, 'uchar'), (1, 'short'), (1, 'ushort'), (1, 'uint'), (1, 'long'), (1, 'ulong')])
            if s.bool(1, 2):
                c = self.konst(t)
                L = self.emit('%s %s = %s;' % (t, name, self.lit(t, c)), ind)
                b.stmts.append(('const', L, name, c))
            else:
                src = s.choice([n for n, q in scal])
                # the initialiser must not mean the variable that is being declared
                if src == name:
                    src = s.choice(['i'] if 'i' in dict(ints) else [n for n in dict(ints) if n != name] or [None])
                if src is None:
                    c = self.konst(t)
                    L = self.emit('%s %s = %s;' % (t, name, self.lit(t, c)), ind)
                    b.stmts.append(('const', L, name, c))
                else:
                    op, c = s.choice('+-*^'), s.range(1, 300)
                    L = self.emit('%s %s = (%s)%s %s (%s)%d;' % (t, name, t, src, op, t, c), ind)
                    b.stmts.append(('bin', L, name, t, src, op, wrap(t, c)))
            st = b.stmts.pop()
            self.declare(b, name, t)
            b.stmts.append(st)
        elif k == 'agg':
            q = s.choice(['vec', 'arr', 'struct'])
            if q == 'struct':
                val = [wrap(t, s.draw(1 << 40)) for m, t in STRUCT]
                L = self.emit('St %s = {%s};' % (name, ', '.join(str(v) for v in val)), ind)
                kind = 'struct'
            else:
                t = s.choice(['int', 'uint', 'uchar', 'short', 'ushort', 'char', 'long'])
                n = s.choice([2, 4, 8]) if q == 'vec' else s.range(1, 4 if t == 'long' else 5)
                val = [self.konst(t) for _ in range(n)]
                if q == 'vec':
                    L = self.emit('%s%d %s = (%s%d)(%s);' % (t, n, name, t, n, ', '.join(self.lit(t, v) for v in val)), ind)
                else:
                    L = self.emit('%s %s[%d] = {%s};' % (t, name, n, ', '.join(self.lit(t, v) for v in val)), ind)
                kind = (q, t, n)
            self.declare(b, name, kind)
            b.stmts.append(('agginit', L, name, val))
        elif k == 'aggset':
            ag = self.visible(scopes, lambda q: isinstance(q, tuple) or q == 'struct')
            if not ag:
                return
            n, kind = s.choice(ag)
            src = s.choice([x for x, q in scal])
            if kind == 'struct':
                j = s.range(0, 3)
                t, ref = STRUCT[j][1], '%s.%s' % (n, STRUCT[j][0])
            else:
                j = s.range(0, kind[2] - 1)
                t = kind[1]
                ref = '%s.s%d' % (n, j) if kind[0] == 'vec' else '%s[%d]' % (n, j)
            L = self.emit('%s = (%s)%s;' % (ref, t, src), ind)
            b.stmts.append(('aggset', L, n, j, t, src))
        elif k == 'ptr':
            tg = [n for n, q in ints if n not in self.prot]
            if not tg:
                return
            x = s.choice(tg)
            if x == name:
                return
            L = self.emit('private int *%s = &%s;' % (name, x), ind)
            self.declare(b, name, 'pvar')
            b.stmts.append(('ptr', L, name, x))
        elif k in ('assign', 'const', 'inc', 'tern', 'call'):
            tg = [(n, q) for n, q in scal if n not in self.prot]
            if k == 'call':
                tg = [(n, q) for n, q in tg if q == 'int']
                fs = [f for f in self.funcs if not f.kernel]
                if not self.fn.kernel:
                    fs = [f for f in fs if f.ret]
                if not fs:
                    k = 'inc'
            if not tg:
                L = self.emit(';', ind)
                return
            n, t = s.choice(tg)
            if k == 'assign':
                src, op = s.choice([x for x, q in scal]), s.choice('+-*^&|')
                if s.bool(1, 2):
                    c = s.range(1, 300)
                    L = self.emit('%s = (%s)%s %s (%s)%d;' % (n, t, src, op, t, c), ind)
                    b.stmts.append(('bin', L, n, t, src, op, wrap(t, c)))
                else:
                    o = s.choice([x for x, q in scal])
                    L = self.emit('%s = (%s)%s %s (%s)%s;' % (n, t, src, op, t, o), ind)
                    b.stmts.append(('bin', L, n, t, src, op, o))
            elif k == 'const':
                c = self.konst(t)
                L = self.emit('%s = %s;' % (n, self.lit(t, c)), ind)
                b.stmts.append(('const', L, n, c))
            elif k == 'inc':
                o = s.choice(['++', '--'])
                L = self.emit('%s%s;' % (n, o), ind)
                b.stmts.append(('bin', L, n, t, n, '+' if o == '++' else '-', 1))
            elif k == 'tern':
                c = s.choice([x for x, q in ints])
                lim, p, q = s.range(-3, 9), self.konst(t), self.konst(t)
                L = self.emit('%s = %s > %d ? %s : %s;' % (n, c, lim, self.lit(t, p), self.lit(t, q)), ind)
                b.stmts.append(('tern', L, n, c, lim, p, q))
            else:
                f = s.choice(fs)
                args = []
                for p, pt in f.params:
                    if pt == 'ptr':
                        args.append('out')
                    elif p == 'i' and not f.ret:
                        args.append('i')
                    elif s.bool(1, 3):
                        args.append(s.range(-5, 9))
                    else:
                        args.append(s.choice([x for x, q in ints]))
                txt = '%s(%s)' % (f.name, ', '.join(map(str, args)))
                if f.ret:
                    pre = s.bool(1, 3)
                    L = self.emit('%s = %s%s;' % (n, n + ' + ' if pre else '', txt), ind)
                    b.stmts.append(('call', L, f, args, n, pre))
                else:
                    L = self.emit(txt + ';', ind)
                    b.stmts.append(('call', L, f, args, None, False))
        elif k == 'out':
            if not self.fn.kernel:
                return
            v = s.choice(scal)[0]
            L = self.emit('out[i] = (int)%s;' % v, ind)
            b.stmts.append(('out', L, v))
        elif k == 'oob':
            if not self.fn.kernel or s.bool():
                return
            v = s.choice(ints)[0]
            L = self.emit('out[i + 100000] = %s;' % v, ind)
            b.stmts.append(('oob', L))
        elif k == 'barrier':
            if not top or not self.fn.locals:
                return
            L = [self.emit('loc[lid] = %s;' % s.choice(ints)[0], ind)]
            src = self.lines[-1].split(' = ')[1].rstrip(';')
            L.append(self.emit('barrier(CLK_LOCAL_MEM_FENCE);', ind))
            tg = [n for n, q in ints if n not in self.prot]
            if tg:
                n = s.choice(tg)
                d = s.range(0, 2)
                L.append(self.emit('%s = loc[(lid + %d) %% ln];' % (n, d), ind))
                L.append(self.emit('barrier(CLK_LOCAL_MEM_FENCE);', ind))
                b.stmts.append(('barrier', L, src, n, d))
            else:
                b.stmts.append(('barrier', L, src, None, 0))
        elif k in ('if', 'ifelse', 'while'):
            c = s.choice(ints)[0]
            op, lim = s.choice(['>', '<', '==', '!=', '&']), s.range(-2, 12)
            cond = '%s %s %d' % (c, op, lim)
            if k == 'while':
                cnt = 'w%d%d' % (ind, len(self.lines))
                self.prot.add(cnt)
                lim = s.range(1, 3)
                L0 = self.emit('int %s = 0;' % cnt, ind)
                self.declare(b, cnt, 'int')
                b.stmts.append(('const', L0, cnt, 0))
                L = self.emit('while (%s < %d) {' % (cnt, lim), ind)
                self.loops += 1
                body = Block()
                body.ready = set()
                Li = self.emit('%s++;' % cnt, ind + 1)
                body.stmts.append(('bin', Li, cnt, 'int', cnt, '+', 1))
                self.depth += 1
                self.block(body, scopes + [body], s.range(1, 3), ind + 1)
                self.depth -= 1
                self.loops -= 1
                self.emit('}', ind)
                b.stmts.append(('while', L, cnt, lim, body))
                return
            L = self.emit('if (%s) {' % cond, ind)
            th = self.sub(scopes, ind + 1)
            if k == 'ifelse':
                M = self.emit('} else {', ind)
                el = self.sub(scopes, ind + 1)
                self.emit('}', ind)
            else:
                M = self.emit('}', ind)
                el = None
            b.stmts.append(('if', L, c, op, lim, th, M, el))
        elif k == 'for':
            v = 'j%d' % self.depth
            lim = s.range(0, 3)
            L = self.emit('for (int %s = 0; %s < %d; %s++) {' % (v, v, lim, v), ind)
            hd = Block()
            hd.decls[v] = 'int'
            hd.ready = {v}
            self.loops += 1
            self.prot.add(v)
            body = self.sub(scopes + [hd], ind + 1)
            self.prot.discard(v)
            self.loops -= 1
            M = self.emit('}', ind)
            b.stmts.append(('for', L, v, lim, hd, body, M))
        elif k == 'do':
            cnt = 'w%d%d' % (ind, len(self.lines))
            self.prot.add(cnt)
            lim = s.range(1, 3)
            L0 = self.emit('int %s = 0;' % cnt, ind)
            self.declare(b, cnt, 'int')
            b.stmts.append(('const', L0, cnt, 0))
            L = self.emit('do {', ind)
            self.loops += 1
            body = Block()
            body.ready = set()
            Li = self.emit('%s++;' % cnt, ind + 1)
            body.stmts.append(('bin', Li, cnt, 'int', cnt, '+', 1))
            self.depth += 1
            self.block(body, scopes + [body], s.range(1, 3), ind + 1)
            self.depth -= 1
            self.loops -= 1
            M = self.emit('} while (%s < %d);' % (cnt, lim), ind)
            b.stmts.append(('do', L, cnt, lim, body, M))
        elif k == 'plain':
            self.emit('{', ind)
            body = self.sub(scopes, ind + 1)
            self.emit('}', ind)
            b.stmts.append(('plain', 0, body))
        elif k == 'switch':
            c = s.choice(ints)[0]
            L = self.emit('switch (%s & 3) {' % c, ind)
            cases = []
            loops, self.loops = self.loops, 0
            for lab in s.sample([0, 1, 2, 3], s.range(1, 3)) + [None]:
                self.emit('case %d: {' % lab if lab is not None else 'default: {', ind)
                body = self.sub(scopes, ind + 1)
                E = self.emit('}', ind)
                B = self.emit('break;', ind + 1)
                cases.append((lab, body, B))
            self.loops = loops
            self.emit('}', ind)
            b.stmts.append(('switch', L, c, cases))
        elif k == 'jump':
            if not self.loops:
                return
            c = s.choice(ints)[0]
            op, lim = s.choice(['>', '<', '==']), s.range(-2, 9)
            j = s.choice(['break', 'continue'])
            L = self.emit('if (%s %s %d) {' % (c, op, lim), ind)
            J = self.emit('%s;' % j, ind + 1)
            self.emit('}', ind)
            b.stmts.append(('jump', L, c, op, lim, j, J))

    def konst(self, t):
        s = self.s
        n, sg = INT[t]
        return wrap(t, s.weighted([(2, s.draw(20)), (1, s.draw(1 << 62)), (1, (1 << (8 * n - 1)) - s.range(0, 1)), (1, -1 - s.range(0, 3))]))

    def lit(self, t, v):
        if t == 'int' and v == -(1 << 31):
            return '(-2147483647 - 1)'
        if t == 'long':
            return '(-9223372036854775807L - 1)' if v == -(1 << 63) else '%dL' % v
        return '%d%s' % (v, {'ulong': 'UL', 'uint': 'U'}.get(t, ''))


class Jump(Exception):
    pass


class WI:
    """One work-item of the reference model: a generator of ('pre'|'at', line) pairs."""

    def __init__(self, inv, grp, lid):
        self.inv, self.grp, self.lid = inv, grp, lid
        self.gid = tuple(inv.offset[d] + grp.id[d] * inv.lsize[d] + lid[d] for d in range(3))
        self.state = 'READY'
        self.frames = [Frame(inv.fn, inv.args, inv.shown)]
        self.dirty = None
        self.odd = False
        self.force = False
        self.mid = False
        self.started = False
        self.gen = self.run()
        self.line = 0
        self.ispre = False
        next(self.gen)
        self.ispre = True

    # state of the current position
    @property
    def depth(self):
        return len(self.frames) - 1

    def step(self):
        """Executes one instruction (group)."""
        if not self.ispre:
            next(self.gen)
        self.dirty, self.force, self.mid = None, False, False
        next(self.gen)
        self.ispre = False
        self.started = True

    def peek(self):
        """Moves to the instruction that is executed next."""
        if not self.ispre and self.state != 'FINISHED':
            self.dirty = None
            next(self.gen)
            self.ispre = True

    def m(self, line, fn=None, odd=False, dirty=None, force=False, mid=False):
        self.line = line
        self.odd = odd
        yield
        if fn:
            fn()
        self.dirty, self.force, self.mid = dirty, force, mid
        yield

    def many(self, line, fn=None, dirty='*', force=False):
        yield from self.m(line)
        yield from self.m(line, fn, dirty=dirty, mid=True, force=force)

    # variables
    def find(self, name):
        for sc in reversed(self.frames[-1].scopes):
            if name in sc.vars and sc.vars[name].decl:
                return sc.vars[name]
        return None

    def get(self, name):
        if isinstance(name, int):
            return name
        return self.find(name).val

    def set(self, name, v):
        x = self.find(name)
        x.val, x.init = v, True

    def binop(self, t, a, op, b):
        a, b = wrap(t, a), wrap(t, b)
        return wrap(t, {'+': a + b, '-': a - b, '*': a * b, '^': a ^ b, '&': a & b, '|': a | b}[op])

    def cond(self, v, op, lim):
        return {'>': v > lim, '<': v < lim, '==': v == lim, '!=': v != lim, '&': (v & lim) != 0}[op]

    def run(self):
        inv = self.inv
        fr = self.frames[0]
        yield from self.m(0, lambda: self.enter(fr))
        for _ in self.exec(fr.fn.body, own=False):
            yield
        yield from self.m(0, self.finish)

    def finish(self):
        self.state = 'FINISHED'
        self.frames[0].scopes = self.frames[0].scopes[:1]

    def enter(self, fr):
        sc = Scope(fr.fn.body.decls)
        for n, v in fr.args.items():
            sc.vars[n].val, sc.vars[n].init, sc.vars[n].decl = v, True, True
        fr.scopes = [sc]

    def exec(self, b, own=True):
        scopes = self.frames[-1].scopes
        if own:
            scopes.append(Scope(b.decls))
        depth = len(scopes)
        for st in b.stmts:
            yield from self.stmt(st)
        if own:
            del scopes[depth - 1:]

    def stmt(self, st):
        k, L = st[0], st[1]
        inv = self.inv
        out = inv.out
        get, set_ = self.get, self.set
        scopes = self.frames[-1].scopes
        n = len(scopes)
        if k == 'decl':
            scopes[-1].vars[L].decl = True
        elif k == 'const':
            yield from self.m(L, lambda: set_(st[2], st[3]))
        elif k == 'agginit':
            kind = scopes[-1].vars[st[2]].kind
            if isinstance(kind, tuple) and kind[0] == 'vec':
                yield from self.many(L, lambda: set_(st[2], list(st[3])))
            else:
                yield from self.m(L, lambda: set_(st[2], list(st[3])))
        elif k == 'ptr':
            yield from self.m(L, lambda: set_(st[2], self.find(st[3])))
        elif k == 'bin':
            name, t, a, op, b2 = st[2:]
            v = self.binop(t, get(a), op, get(b2))
            yield from self.many(L, lambda: set_(name, v))
        elif k == 'fset':
            v = struct.unpack('f', struct.pack('f', get(st[3]) * 0.5 + st[4]))[0]
            yield from self.many(L, lambda: set_(st[2], v))
        elif k == 'aggset':
            name, j, t, src = st[2:]
            v = wrap(t, get(src))

            def store():
                self.find(name).val[j] = v
            yield from self.many(L, store)
        elif k == 'tern':
            name, c, lim, p, q = st[2:]
            yield from self.many(L, lambda: set_(name, p if get(c) > lim else q))
        elif k == 'gid':
            g = self.gid
            yield from self.many(L, lambda: set_('i', g[0] + inv.nx * (g[1] + inv.ny * g[2])))
        elif k == 'lid':
            l, z = self.lid, self.grp.size
            yield from self.many(L, lambda: set_('lid', l[0] + z[0] * (l[1] + z[1] * l[2])))
        elif k == 'ln':
            z = self.grp.size
            yield from self.many(L, lambda: set_('ln', z[0] * z[1] * z[2]))
        elif k == 'out':
            def store():
                out[get('i')] = wrap('int', get(st[2]))
            yield from self.many(L, store)
        elif k == 'pinc':
            def store():
                i = get('i')
                out[i] = wrap('int', out[i] + get('v'))
            yield from self.many(L, store)
        elif k == 'oob':
            yield from self.many(L, dirty=None)
            yield from self.m(L, mid=True, force=True)
        elif k == 'barrier':
            lines, src, dst, d = st[1:]

            def store():
                self.grp.loc[get('lid')] = get(src)

            def wait():
                self.state = 'BARRIER'
            yield from self.many(lines[0], store)
            yield from self.m(lines[1], wait)
            if dst:
                yield from self.many(lines[2], lambda: set_(dst, self.grp.loc[(get('lid') + d) % get('ln')]))
                yield from self.m(lines[3], wait)
        elif k == 'call':
            f, args, name, pre = st[2:]
            self.inv.calls += 1
            base = get(name) if pre else 0
            vals = {p: get(a) for (p, t), a in zip(f.params, args)}
            shown = [(p, hex(inv.addr) if t == 'ptr' else str(vals[p])) for p, t in f.params]
            if pre or any(isinstance(a, str) for a in args):
                yield from self.m(L)
            yield from self.m(L, mid=pre or any(isinstance(a, str) for a in args))
            fr = Frame(f, vals, shown)
            self.frames[-1].line = L
            self.frames.append(fr)
            yield from self.m(0, lambda: self.enter(fr))
            res = [None]
            for x in f.body.stmts:
                if x[0] == 'ret':
                    v = self.binop('int', get(x[2]), x[3], get(x[4]))
                    yield from self.m(x[1])
                    yield from self.m(x[1], mid=True)
                    res[0] = v
                else:
                    yield from self.stmt(x)
            # the return is reported on the line of the call
            self.frames.pop()
            yield from self.m(L)
            if name:
                yield from self.m(L, lambda: set_(name, wrap('int', base + res[0])), dirty='*', mid=True)
        elif k == 'if':
            c, op, lim, th, M, el = st[2:]
            t = self.cond(get(c), op, lim)
            yield from self.many(L)
            if t:
                yield from self.exec(th)
                yield from self.m(M, odd=True)
            elif el:
                yield from self.exec(el)
                yield from self.m(0, odd=True)
        elif k == 'jump':
            c, op, lim, j, J = st[2:]
            t = self.cond(get(c), op, lim)
            yield from self.many(L)
            if t:
                yield from self.m(J, odd=True)
                raise Jump(j)
        elif k == 'plain':
            yield from self.exec(st[2])
        elif k == 'while':
            cnt, lim, body = st[2:]
            yield from self.many(L)
            while get(cnt) < lim:
                try:
                    yield from self.exec(body)
                except Jump as e:
                    del scopes[n:]
                    if e.args[0] == 'break':
                        break
                yield from self.many(L)
        elif k == 'do':
            cnt, lim, body, M = st[2:]
            yield from self.m(L)
            while True:
                try:
                    yield from self.exec(body)
                except Jump as e:
                    del scopes[n:]
                    if e.args[0] == 'break':
                        break
                yield from self.many(M)
                if get(cnt) >= lim:
                    break
        elif k == 'for':
            v, lim, hd, body, M = st[2:]
            sc = Scope(hd.decls)
            scopes.append(sc)

            def init():
                sc.vars[v].val, sc.vars[v].init, sc.vars[v].decl = 0, True, True
            yield from self.m(L, init)
            yield from self.m(L, mid=True)
            while sc.vars[v].val < lim:
                try:
                    yield from self.exec(body)
                    yield from self.m(M, odd=True)
                except Jump as e:
                    del scopes[n + 1:]
                    if e.args[0] == 'break':
                        break

                def inc():
                    sc.vars[v].val += 1
                yield from self.many(L, inc)
            del scopes[n:]
        elif k == 'switch':
            c, cases = st[2:]
            v = get(c) & 3
            yield from self.many(L)
            labs = [x for x in cases if x[0] == v] or [cases[-1]]
            yield from self.exec(labs[0][1])
            yield from self.m(labs[0][2], odd=True)
        else:
            raise AssertionError(k)


class Group:
    def __init__(self, inv, gid):
        self.id = gid
        self.size = tuple(min(inv.lsize[d], inv.gsize[d] - gid[d] * inv.lsize[d]) for d in range(3))
        self.loc = [None] * 32
        self.items = [WI(inv, self, (x, y, z)) for z in range(self.size[2]) for y in range(self.size[1]) for x in range(self.size[0])]

    def next(self):
        for w in self.items:
            if w.state == 'READY':
                return w
        return None

    def barrier(self):
        return any(w.state == 'BARRIER' for w in self.items)

    def clear(self):
        for w in self.items:
            if w.state == 'BARRIER':
                w.state = 'READY'


class Launch:
    pass


class Session:
    """The reference model of the debugger; draws commands and collects the expected output."""

    def __init__(self, s, gen, budget):
        self.s, self.gen, self.budget = s, gen, budget
        self.src = gen.lines
        self.cmds, self.exp = [], []
        self.running = True
        self.bps, self.nbp = {}, 1
        self.touched = False
        self.stats = set()
        self.stops = 0

    def p(self, t=''):
        self.exp.append(t)

    # ---- execution
    def launch(self, inv):
        self.inv = inv
        self.cont = self.nxt = False
        self.lastbreak = self.listpos = self.prevdepth = self.prevline = 0
        pend = [(x, y, z) for z in range(inv.ngroups[2]) for y in range(inv.ngroups[1]) for x in range(inv.ngroups[0])]
        self.pend, self.pool = pend, []
        while self.pend or self.pool:
            if self.pool:
                self.grp = self.pool.pop(0)
            else:
                self.grp = Group(inv, self.pend.pop(0))
            self.wi = self.grp.next()
            if not self.wi and self.grp.barrier():
                self.grp.clear()
                self.wi = self.grp.next()
            while self.wi:
                while self.wi.state == 'READY':
                    w = self.wi
                    w.step()
                    self.executed()
                self.wi = self.grp.next()
                if not self.wi and self.grp.barrier():
                    self.grp.clear()
                    self.wi = self.grp.next()

    def hit(self):
        line = self.cur()
        if self.lastbreak:
            if line != self.lastbreak:
                self.lastbreak = 0
            else:
                return False
        for i in sorted(self.bps):
            if self.bps[i] == line:
                self.p('Breakpoint %d hit at line %d by work-item (%d,%d,%d)' % ((i, line) + self.wi.gid))
                self.lastbreak = line
                self.listpos = 0
                self.stats.add('hit')
                return True
        return False

    def cur(self):
        return 0 if self.wi.state == 'FINISHED' else self.wi.line

    def executed(self):
        w = self.wi
        if not self.running:
            return
        if w.force:
            self.stats.add('error')
            show = True
        elif self.hit():
            show = True
        elif self.cont:
            show = False
        elif w.state != 'READY':
            show = True
        elif self.nxt and w.depth > self.prevdepth:
            show = False
        else:
            show = w.line != 0 and w.line != self.prevline
        if show:
            self.prompt()

    def funcline(self, fr, line):
        return '%s(%s) at line %d' % (fr.fn.name, ', '.join('%s=%s' % a for a in fr.shown), line)

    def curline(self):
        w = self.wi
        if w.state == 'FINISHED':
            return
        if w.line:
            self.p('%d\t%s' % (w.line, self.src[w.line - 1]))
        else:
            self.p('Source line not available.')
            self.p(WILD)

    def prompt(self):
        w = self.asked = self.wi
        w.force = False
        self.stops += 1
        if self.prevdepth != w.depth and w.state != 'FINISHED':
            self.p('In function ' + self.funcline(w.frames[-1], w.line))
        self.curline()
        self.listpos = 0
        self.cont = self.nxt = False
        while True:
            if len(self.cmds) >= self.budget:
                c = ['quit'] if self.s.bool(3, 4) else None
            else:
                c = self.command()
            if c is None:
                self.running = False        # end of input
                return
            self.cmds.append(c[0] if None in c else ' '.join(c))
            if self.execute(c):
                return

    # ---- commands
    def command(self):
        s, w = self.s, self.wi
        k = s.weighted([(10, 'step'), (6, 'next'), (7, 'continue'), (5, 'break'), (2, 'delete'), (10, 'print'), (2, 'info'), (2, 'infob'), (3, 'list'), (3, 'gmem'), (1, 'lmem'), (2, 'backtrace'),
                        (4, 'workitem'), (1, 'bad'), (1, 'help'), (1, 'empty'), (0 if len(self.cmds) < 12 else 1, 'quit')])
        short = {'step': 's', 'next': 'n', 'continue': 'c', 'break': 'b', 'delete': 'd', 'print': 'p', 'info': 'i', 'infob': 'i', 'list': 'l', 'gmem': 'gm', 'lmem': 'lm', 'backtrace': 'bt',
                 'workitem': 'wi', 'quit': 'q', 'help': 'h'}
        word = {'infob': 'info'}.get(k, k)
        if k in short and s.bool():
            word = short[k]
        n = len(self.src)
        if k in ('step', 'next', 'continue', 'info', 'quit', 'backtrace'):
            if k in ('info', 'backtrace') and not w.started:
                return ['help']
            return [word]
        if k == 'break':
            j = s.weighted([(3, 'arg'), (1, 'none'), (1, 'bad')])
            if j == 'none' and (not w.started or w.ispre):
                j = 'arg'
            if j == 'none':
                return [word]
            if j == 'bad':
                return [word, s.choice(['0', str(n + 1), '-1', 'x', '3x', str(n + 500), '99999999999999999999999', '1.5'])]
            f = s.choice(self.gen.funcs)
            return [word, str(s.range(f.first, f.last) if s.bool(4, 5) else s.range(1, n))]
        if k == 'delete':
            j = s.weighted([(3, 'one'), (1, 'all'), (1, 'no'), (1, 'bad')])
            if j == 'one' and self.bps:
                return [word, str(s.choice(sorted(self.bps)))]
            if j == 'all':
                return [word, None, 'y']
            if j == 'no':
                return [word, None, s.choice(['n', 'no', 'yes', 'x'])]
            return [word, s.choice([str(self.nbp + 3), '0', '-1', 'x', '1x'])]
        if k == 'print':
            if s.bool(1, 20):
                return [word]
            if not w.started or w.dirty:
                return ['help', 'print']
            return [word] + [self.pick() for _ in range(s.weighted([(3, 1), (1, 2), (1, 3)]))]
        if k == 'infob':
            return [word, 'break' if s.bool(7, 8) else 'foo']
        if k == 'list':
            j = s.weighted([(3, 'none'), (2, '-'), (3, 'num'), (1, 'bad')])
            if j == 'none':
                return [word]
            if j == '-':
                return [word, '-']
            if j == 'num':
                return [word, str(s.range(1, n))]
            return [word, s.choice(['x', '5y', str(n + 1), '-3', str(n + 100)])]
        if k == 'gmem':
            if w.dirty:
                return ['help', word]
            j = s.weighted([(4, 'out'), (2, 'cb'), (2, 'bad')])
            if j == 'bad':
                return [word] + s.choice([['0'], ['zz'], ['%x' % (self.inv.addr + 2)], ['%x' % self.inv.addr, '0'], ['%x' % self.inv.addr, 'x'], ['%x' % self.inv.addr, '-1'],
                                          ['%x' % (self.inv.addr + 4 * len(self.inv.out))], ['%x' % self.inv.addr, '4', '4'], ['ff000000000000'], ['%x' % self.inv.addr, '18446744073709551615'],
                                          ['%x' % (self.inv.addr + 4 * len(self.inv.out) - 4), '5'], ['fff8000000000000', '18446744073709551608']])
            size = 4 * len(self.inv.out) if j == 'out' else len(self.inv.cb)
            base = self.inv.addr if j == 'out' else self.inv.caddr
            o = s.range(0, size // 4 - 1) * 4
            a = s.choice(['%x', '0x%x', '%X'])  % (base + o)
            if s.bool() or size - o < 8:
                return [word, a, str(s.range(1, min(size - o, 40)))]
            return [word, a]
        if k == 'lmem':
            if w.dirty or not self.inv.fn.locals:
                return [word, 'q']
            a = s.range(0, 15)
            return [word, '%x' % ((1 << 48) + 4 * a), '4']
        if k == 'workitem':
            inv = self.inv
            if w.mid or s.bool(1, 5):
                return [word] + s.choice([['x'], [str(inv.offset[0] + inv.gsize[0])], ['-1'], ['0', '1', '2', '3'], ['1y'], [str(inv.offset[0]), str(inv.offset[1] + inv.gsize[1])],
                                          [str(inv.offset[0] - 1)] if inv.offset[0] else ['zero']])
            g = [inv.offset[d] + s.range(0, inv.gsize[d] - 1) for d in range(3)]
            m = s.range(0, 3)
            g = g[:m] + [inv.offset[d] for d in range(m, 3)]
            return [word] + [str(x) for x in g[:m]]
        if k == 'bad':
            return [s.choice(['foo', 'steps', 'S', 'run', 'st', 'x', 'continue;', '?'])] + (['1'] if s.bool() else [])
        if k == 'help':
            return [word] + s.choice([[], ['step'], ['s'], ['gmem'], ['gm'], ['lm'], ['pm'], ['foo'], ['q'], ['wi'], ['bt'], ['next'], ['list'], ['i'], ['d']])
        return ['']

    def pick(self):
        """An expression to print whose value is known."""
        s, w = self.s, self.wi
        fr = w.frames[-1]
        cand = []
        known = set()
        scopes = fr.scopes if not (w.odd or w.state == 'FINISHED') else fr.scopes[:1]
        inner = set()
        if w.odd or w.state == 'FINISHED':
            inner = self.inner(fr.fn)
        seen = set()
        for sc in reversed(scopes):
            for n, v in sc.vars.items():
                if n in seen:
                    continue
                seen.add(n)
                if v.init and n not in inner:
                    cand.append((n, v))
        r = s.weighted([(8, 'var'), (1, 'none'), (3, 'arg'), (1, 'err')])
        if r == 'none' or not cand:
            used = set(n for f in self.gen.funcs for n in self.inner(f) | set(f.body.decls))
            here = seen | inner | self.inner(fr.fn) | {'loc'}
            other = sorted(used - here)
            return s.choice(other + ['nosuch', 'St', fr.fn.name])
        if r == 'arg' and fr.fn.kernel:
            i = w.find('i')
            k = s.range(0, 3)
            n = len(self.inv.out)
            if k == 0:
                return 'out[%d]' % (i.val if i and i.init and s.bool() else s.range(0, n - 1))
            if k == 1:
                return 'cb[%d]' % s.range(0, len(self.inv.cb) - 1)
            if k == 2 and fr.fn.locals:
                return 'loc'
            return s.choice(['out', 'cb', 'n', 'nx', 'out[%d]' % n, 'cb[-1]', 'out[x]', 'out[1', 'n[0]', 'n.a', 'n->a', 'out.m0'])
        n, v = s.choice(cand)
        k = v.kind
        if k == 'struct':
            return n + s.choice(['', '.m0', '.m1', '.m2', '.m3', '.zz'])
        if k == 'pvar':
            return n + '[0]'
        return n

    def inner(self, f):
        r = set()

        def walk(b, top):
            if not top:
                r.update(b.decls)
            for st in b.stmts:
                for x in st:
                    if isinstance(x, Block):
                        walk(x, False)
                    elif isinstance(x, list):
                        for y in x:
                            if isinstance(y, tuple):
                                for z in y:
                                    if isinstance(z, Block):
                                        walk(z, False)
        walk(f.body, True)
        return r

    def fmt(self, k, v):
        if k in INT:
            return str(v)
        if k == 'float':
            return '%g' % v
        if isinstance(k, tuple):
            t = ','.join(str(x) for x in v)
            return '(%s)' % t if k[0] == 'vec' else '{%s}' % t
        if k == 'struct':
            return '(raw) 0x' + b''.join(wrap_bytes(t, x) for (m, t), x in zip(STRUCT, v)).hex().upper()
        raise AssertionError(k)

    def value(self, e):
        w, inv = self.wi, self.inv
        if e in ('out', 'p') and w.find(e):
            return [hex(inv.addr)]
        if e == 'cb' and w.find(e):
            return [hex(inv.caddr)]
        fr = w.frames[-1]
        if '[' in e:
            n = e[:e.index('[')]
            v = w.find(n)
            if v is None:
                return ['not found']
            if e == 'out[x]':
                return ['invalid subscript index', '']
            if e == 'out[1':
                return ["missing ']'", '']
            i = int(e[e.index('[') + 1:-1])
            if n == 'out':
                return [str(inv.out[i])] if i < len(inv.out) else ['invalid memory address']
            if n == 'cb':
                return [str(inv.cb[i])] if 0 <= i < len(inv.cb) else ['invalid memory address']
            if v.kind == 'pvar':
                return [str(v.val.val)]
            return ['not a pointer type']
        if '->' in e:
            return ['not a pointer type']
        if '.' in e:
            n, m = e.split('.')
            v = w.find(n)
            if v.kind != 'struct':
                return ['not a composite type']
            for j, (mm, t) in enumerate(STRUCT):
                if mm == m:
                    return [str(v.val[j])]
            return ["no member named '%s' found" % m]
        if e == 'loc' and fr.fn.locals:
            if None in w.grp.loc:
                return [WILD]
            return ['{%s}' % ','.join(map(str, w.grp.loc))]
        v = w.find(e)
        if v is None:
            return ['not found']
        self.stats.add('value')
        return [self.fmt(v.kind, v.val)]

    def execute(self, c):
        w, inv, s = self.wi, self.inv, self.s
        k = {'s': 'step', 'n': 'next', 'c': 'continue', 'b': 'break', 'd': 'delete', 'p': 'print', 'i': 'info', 'l': 'list', 'gm': 'gmem', 'lm': 'lmem', 'bt': 'backtrace', 'wi': 'workitem',
             'q': 'quit', 'h': 'help'}.get(c[0], c[0])
        a = c[1:]
        nsrc = len(self.src)
        self.stats.add(k)
        if k == '':
            return False
        if k in ('step', 'next'):
            if w.state == 'FINISHED':
                self.p('Work-item has finished.')
                return False
            if w.state == 'BARRIER':
                self.p('Work-item is at barrier.')
                return False
            self.prevdepth = w.depth
            self.prevline = w.line
            self.nxt = self.nxt or k == 'next'
            return True
        if k == 'continue':
            self.cont = True
            return True
        if k == 'quit':
            self.running = False
            return True
        if k == 'break':
            line = self.cur()
            if a:
                line = int(a[0]) if a[0].isdigit() else 0
                if not 1 <= line <= nsrc:
                    self.p('Invalid line number.')
                    return False
            if line:
                self.bps[self.nbp] = line
                self.nbp += 1
            else:
                self.p('Not currently on a line.')
        elif k == 'delete':
            if a[0] is None:
                self.cmds.append(a[1])
                self.part = 'Delete all breakpoints? (y/n) '
                self.exp.append('\x01' + self.part)
                if a[1] == 'y':
                    self.bps = {}
            elif not (a[0].isdigit() or a[0] == '-1'):
                self.p('Invalid breakpoint number.')
            elif int(a[0]) not in self.bps:
                self.p('Breakpoint not found.')
            else:
                del self.bps[int(a[0])]
        elif k == 'print':
            if not a:
                self.p('Variable name(s) required.')
            for e in a:
                v = self.value(e)
                self.p('%s = %s' % (e, v[0]) if v[0] != WILD else WILD)
                for x in v[1:]:
                    self.p(x)
        elif k == 'info':
            if a and a[0] == 'break':
                for i in sorted(self.bps):
                    self.p('Breakpoint %d: Line %d' % (i, self.bps[i]))
            elif a:
                self.p('Invalid info command: ' + a[0])
            else:
                self.p("Running kernel '%s'" % inv.fn.name)
                self.p('-> Global work size:   (%d,%d,%d)' % inv.gsize)
                self.p('-> Global work offset: (%d,%d,%d)' % inv.offset)
                self.p('-> Local work size:    (%d,%d,%d)' % inv.lsize)
                self.p()
                self.p('Current work-item: (%d,%d,%d)' % w.gid)
                if w.state == 'FINISHED':
                    self.p('Work-item has finished.')
                else:
                    self.p('In function ' + self.funcline(w.frames[-1], w.line))
                    self.curline()
        elif k == 'list':
            start, fwd = 0, True
            if a and a[0] == '-':
                fwd = False
            elif a:
                if not a[0].isdigit() or int(a[0]) > nsrc:
                    self.p('Invalid line number.')
                    return False
                start = max(1, int(a[0]) - 5)
            if not start:
                if fwd:
                    start = self.listpos + 10 if self.listpos else self.cur() + 1
                    if start > nsrc:
                        self.listpos = nsrc + 1
                        return False
                else:
                    start = self.listpos or self.cur()
                    start = start - 10 if start > 10 else 1
            for i in range(start, min(start + 10, nsrc + 1)):
                self.p('%d\t%s' % (i, self.src[i - 1]))
            self.listpos = start
        elif k in ('gmem', 'lmem'):
            if len(a) > 2:
                self.p('Invalid number of arguments.')
                return False
            try:
                addr = int(a[0], 16)
            except ValueError:
                addr = 1
            if addr % 4:
                self.p('Invalid address.')
                return False
            size = 8
            if len(a) == 2:
                if a[1] in ('0', 'x'):
                    self.p('Invalid size')
                    return False
                size = int(a[1])
            if k == 'gmem':
                mem = {inv.addr >> 48: struct.pack('<%di' % len(inv.out), *inv.out), inv.caddr >> 48: struct.pack('<%db' % len(inv.cb), *inv.cb)}
            else:
                mem = {1: b''.join(struct.pack('<i', v) if v is not None else None or b'????' for v in w.grp.loc)}
            m = mem.get(addr >> 48)
            o = addr & ((1 << 48) - 1)
            if m is None or size < 0 or o + size > len(m):
                self.p('Invalid memory address.')
                return False
            d = m[o:o + size]
            self.p()
            for i in range(0, size, 4):
                if k == 'lmem' and w.grp.loc[o // 4] is None:
                    self.p(WILD)
                else:
                    self.p('%16X:' % (addr + i) + ''.join(' %02X' % x for x in d[i:i + 4]))
            self.p()
            self.stats.add('mem')
        elif k == 'backtrace':
            if w.state == 'FINISHED':
                return False
            self.p('#%d ' % w.depth + self.funcline(w.frames[-1], w.line))
            for d in range(w.depth - 1, -1, -1):
                self.p('#%d ' % d + self.funcline(w.frames[d], w.frames[d].line))
        elif k == 'workitem':
            if len(a) > 3:
                self.p('Invalid number of arguments.')
                return False
            g = list(inv.offset)
            for d, x in enumerate(a):
                if not x.isdigit() or not 0 <= int(x) - inv.offset[d] < inv.gsize[d]:
                    self.p('Invalid global ID.')
                    return False
                g[d] = int(x)
            rel = tuple(g[d] - inv.offset[d] for d in range(3))
            gr = tuple(rel[d] // inv.lsize[d] for d in range(3))
            old = self.grp
            if gr == old.id:
                pass
            elif any(p.id == gr for p in self.pool):
                self.grp = [p for p in self.pool if p.id == gr][0]
                self.pool.remove(self.grp)
                self.stats.add('regroup')
            elif gr in self.pend:
                self.pend.remove(gr)
                self.grp = Group(inv, gr)
                self.stats.add('newgroup')
            else:
                self.p('Work-item has already finished, unable to load state.')
                return False
            if old is not self.grp:
                self.pool.append(old)
            l = tuple(rel[d] % inv.lsize[d] for d in range(3))
            new = [x for x in self.grp.items if x.lid == l][0]
            if new is not self.asked:
                new.peek()
            if new is not w:
                self.stats.add('switch')
            self.wi = new
            self.p('Switched to work-item: (%d,%d,%d)' % tuple(g))
            if new.state == 'FINISHED':
                self.p('Work-item has finished execution.')
            else:
                self.curline()
        elif k == 'help':
            self.help(a)
        else:
            self.p("Unrecognized command '%s'" % c[0])
        return False

    def help(self, a):
        h = {'step': ['Step forward a single source line, or an instruction if no source available.'],
             'next': ['Step forward, treating function calls as single instruction.'],
             'bt': ['Print function call stack.'], 'q': ['Quit interactive debugger.'], 'd': ['Delete a breakpoint.', 'With no arguments, deletes all breakpoints.'],
             'wi': ['Switch to a different work-item.', 'Up to three (space separated) arguments allowed, specifying the global ID of the work-item.']}
        h['s'] = h['step']
        if not a:
            n = 17
        elif a[0] in h:
            for x in h[a[0]]:
                self.p(x)
            return
        elif a[0] in ('gm', 'gmem', 'lm', 'pm'):
            self.p('Examine contents of %s memory.' % {'g': 'global', 'l': 'local', 'p': 'private'}[a[0][0]])
            n = 3
        elif a[0] in ('foo',):
            self.p("Unrecognized command 'foo'")
            return
        else:
            n = {'print': 3, 'list': 4, 'i': 3}[a[0]]
        if not a:
            n = 17
        for _ in range(n):
            self.p(WILD)


def wrap_bytes(t, v):
    n, sg = INT[t]
    return (v & ((1 << 8 * n) - 1)).to_bytes(n, 'little')


class C25(Check):
    id = 'C25'
    quick = 12000
    thorough = 150000
    case_timeout = 60
    rule = ('a case is a generated program (kernels and functions with nested blocks, loops, calls, barriers and shadowed names), one to three launches of it and a debugging session of up to 60 '
            'commands; non-trivial when the session stopped at least four times and printed a value, listed memory, hit a breakpoint or switched work-items; distinct by source and commands')
    assumptions = ['a stop is reported once the first instruction of the line has been executed (the granularity the interactive tests fix); variables that this instruction or the rest of the '
                   'line assigns are not printed', 'closing braces are lines of the program where the unoptimised code has an instruction for them',
                   'private memory dumps are not judged: private addresses are not specified']

    def init(self):
        clrt.load(self.b + '/liboclgrind-rt.so')

    def case(self, s):
        g = Gen(s)
        src = g.source()
        kernels = [f for f in g.funcs if f.kernel]
        launches = []
        size = 4
        for _ in range(s.weighted([(4, 1), (2, 2), (1, 3)])):
            inv = Launch()
            dims = s.weighted([(3, 1), (2, 2), (1, 3)])
            inv.fn = s.choice(kernels)
            gs, ls, of = [1, 1, 1], [1, 1, 1], [0, 0, 0]
            for d in range(dims):
                gs[d] = s.range(1, 4 if dims == 1 else 3)
                ls[d] = s.range(1, gs[d])
                of[d] = s.weighted([(2, 0), (1, s.range(0, 2))])
            inv.gsize, inv.lsize, inv.offset, inv.dims = tuple(gs), tuple(ls), tuple(of), dims
            inv.ngroups = tuple(-(-gs[d] // ls[d]) for d in range(3))
            inv.nx, inv.ny = gs[0] + of[0], gs[1] + of[1]
            size = max(size, inv.nx * inv.ny * (gs[2] + of[2]))
            inv.n = s.range(-2, 9)
            launches.append(inv)
        out = [s.range(-9, 9) for _ in range(size)]
        cb = [s.range(-128, 127) for _ in range(s.range(2, 9) * 4)]
        out0 = list(out)
        ses = Session(s, g, s.range(3, 60))
        for inv in launches:
            inv.out, inv.cb, inv.addr, inv.caddr, inv.calls = out, cb, 1 << 48, 2 << 48, 0
            inv.args = {'out': None, 'cb': None, 'n': inv.n, 'nx': inv.nx, 'ny': inv.ny}
            inv.shown = [('out', hex(inv.addr)), ('cb', hex(inv.caddr)), ('n', str(inv.n)), ('nx', str(inv.nx)), ('ny', str(inv.ny))]
            ses.launch(inv)
            if inv.calls:
                ses.stats.add('call')
        text = '\n'.join(ses.cmds) + '\n' if ses.cmds else ''
        s.desc = '%s\nlaunches: %s\ncommands: %s' % (src, ['%s g%s l%s o%s n=%d' % (i.fn.name, i.gsize, i.lsize, i.offset, i.n) for i in launches], ' ; '.join(ses.cmds))
        for x in ses.stats:
            s.cls('session:' + x)
        kind, r = pbt._child(lambda: self.run(src, launches, out0, cb, text), 40)
        if kind != 'ok':
            raise Fail('the debugged application did not finish: %s\n%s' % (kind, str(r)[-2000:]), kind)
        got, stdout, stderr = r
        if got is None:
            raise Fail('the application failed: ' + stdout, 'app')
        self.compare(ses.exp, stdout, stderr)
        if got != struct.pack('<%di' % size, *out):
            raise Fail('the results of the debugged program differ: %s instead of %s' % (struct.unpack('<%di' % size, got), out), 'result')
        s.count('stops compared', ses.stops)
        s.count('commands', len(ses.cmds))
        if ses.stops >= 4 and ses.stats & {'value', 'mem', 'hit', 'switch'}:
            s.nontrivial(s.desc)

    def compare(self, exp, stdout, stderr):
        lines = []
        pre = ''
        for e in exp:
            if e.startswith('\x01'):
                pre += e[1:]
                continue
            lines.append(e if not pre else WILD if e == WILD else pre + e)
            pre = ''
        act = stdout.split('\n')
        if pre:
            lines.append(pre)
        else:
            lines.append('')
        for i in range(max(len(lines), len(act))):
            a = act[i] if i < len(act) else '(nothing)'
            e = lines[i] if i < len(lines) else '(nothing)'
            if a != e and e != WILD:
                raise Fail('output line %d of the session is %r, expected %r\nbefore it:\n%s\n%s' % (i + 1, a, e, '\n'.join(act[max(0, i - 6):i]), stderr[-300:]),
                           'output')

    def run(self, *a):
        try:
            return self.run1(*a)
        except Exception:
            return None, traceback.format_exc(), ''

    def run1(self, src, launches, out0, cb, text):
        clrt.setenv(INTERACTIVE=True)
        interrupted = []
        signal.signal(signal.SIGINT, lambda *a: interrupted.append(1))
        fd = os.memfd_create('in')
        os.write(fd, text.encode())
        os.lseek(fd, 0, 0)
        os.dup2(fd, 0)
        with clrt.Capture() as cap:
            with clrt.Ctx() as x:
                size = 4 * len(out0)
                ob = x.buffer(size, struct.pack('<%di' % len(out0), *out0))
                c = x.buffer(len(cb), struct.pack('<%db' % len(cb), *cb))
                p = x.program(src, '-cl-std=CL2.0' if any(i.gsize[d] % i.lsize[d] for i in launches for d in range(3)) else '-cl-std=CL1.2')
                for inv in launches:
                    k = x.kernel(p, inv.fn.name)
                    x.setargs(k, [('m', ob), ('m', c)] + [('b', v) for v in (struct.pack('<i', inv.n), struct.pack('<i', inv.nx), struct.pack('<i', inv.ny))])
                    d = inv.dims
                    x.ndrange(k, list(inv.gsize[:d]), list(inv.lsize[:d]), list(inv.offset[:d]))
                got = x.read(ob, size)
        # the application's own handler is in place again
        os.kill(os.getpid(), signal.SIGINT)
        if not interrupted:
            raise Exception('the handler of the application was not called for SIGINT')
        return got, cap.stdout, cap.stderr


CHECK = C25()
