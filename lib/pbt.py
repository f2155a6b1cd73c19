"""A small property-based testing engine.

Every random decision of a case is drawn from a `Src`, which records the
sequence of choices.  A case is a pure function of that sequence, so a failure
is replayed by feeding the recorded choices back, and is shrunk by deleting and
lowering choices while the case keeps failing.  Cases run in forked worker
processes: a crash or a hang of the code under test is a failing case, not the
end of the search.
"""
import hashlib
import json
import mmap
import os
import pickle
import random
import select
import signal
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Fail(Exception):
    """The property does not hold on this case.  `key` names the kind of failure
    (used to keep a shrink on the same failure)."""

    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.key = key


class Discard(Exception):
    """The generated case is outside the domain of the property."""


class Src:
    def __init__(self, rng=None, prefix=None, listed=()):
        self.rng = rng
        self.prefix = prefix
        self.pos = 0
        self.log = []
        self.classes = {}
        self.counts = {}
        self.nt = False
        self.key = None
        self.desc = None
        self.excl = {}
        self.listed = listed

    # -- drawing
    def draw(self, n):
        """An integer in [0, n)."""
        if n <= 1:
            return 0
        if self.prefix is not None:
            v = self.prefix[self.pos] if self.pos < len(self.prefix) else 0
            v = min(v, n - 1)
        else:
            v = self.rng.randrange(n)
        self.pos += 1
        self.log.append(v)
        return v

    def range(self, a, b):
        """An integer in [a, b]; shrinks towards a."""
        return a + self.draw(b - a + 1)

    def bool(self, num=1, den=2):
        """True with probability num/den; shrinks to False."""
        return self.draw(den) >= den - num

    def choice(self, seq):
        return seq[self.draw(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, value)]; shrinks to the first."""
        tot = sum(w for w, _ in pairs)
        x = self.draw(tot)
        for w, v in pairs:
            if x < w:
                return v
            x -= w

    def sample(self, seq, k):
        seq = list(seq)
        out = []
        for _ in range(min(k, len(seq))):
            out.append(seq.pop(self.draw(len(seq))))
        return out

    def shuffle(self, seq):
        return self.sample(seq, len(seq))

    def subset(self, seq, num=1, den=2):
        return [x for x in seq if self.bool(num, den)]

    def bytes(self, n):
        out = b''
        while len(out) < n:
            out += struct.pack('<I', self.draw(1 << 32))
        return out[:n]

    def seed(self):
        """A seed for bulk data made by a counter-based generator."""
        return self.draw(1 << 32)

    # -- reporting
    def cls(self, label, n=1):
        self.classes[label] = self.classes.get(label, 0) + n

    def count(self, label, n=1):
        self.counts[label] = self.counts.get(label, 0) + n

    def nontrivial(self, key=None):
        self.nt = True
        if key is not None:
            self.key = key

    def known(self, key):
        """True if `key` is a listed known finding: the generator must then stay
        away from it (and say so by calling excluded)."""
        return key in self.listed

    def excluded(self, key):
        self.excl[key] = self.excl.get(key, 0) + 1


class Check:
    id = None
    rule = ''
    level = 'exploration'
    assumptions = []
    quick = 1000          # number of cases
    thorough = 20000
    workers = 8
    case_timeout = 60.0   # generous: typical cases take milliseconds
    quick_deadline = 240.0
    thorough_deadline = 2400.0
    need_build = True

    def setup(self, b):
        """Once, in the parent, after the build."""

    def init(self):
        """Once per worker process."""

    def case(self, s):
        raise NotImplementedError

    pinned = []           # [(name, fn(check))]: regression cases, run first
    known_repros = {}     # key -> fn(check) raising Fail while the finding is there


# ------------------------------------------------------------------ running
def _rng(seed, cid, idx):
    h = hashlib.sha256(('%d:%s:%d' % (seed, cid, idx)).encode()).digest()
    return random.Random(int.from_bytes(h, 'big'))


def run_case(check, s):
    """Returns None or (key, message)."""
    try:
        check.case(s)
        return None
    except Fail as e:
        return (e.key or 'fail', str(e))
    except Discard:
        s.cls('discarded')
        s.nt = False
        return None
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # an error from the API on a valid case is a failure
        tb = traceback.format_exc()
        return (getattr(e, 'fkey', None) or '%s' % type(e).__name__, '%s: %s\n%s\n%s' % (
            type(e).__name__, e, getattr(e, 'captured', ''), tb[-3000:]))


def _child(fn, timeout):
    """Runs fn() in a forked child; returns ('ok', value) | ('crash', text) | ('hang', text)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        rc = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            out = pickle.dumps(fn())
            with os.fdopen(w, 'wb') as f:
                f.write(out)
        except BaseException:
            traceback.print_exc()
            rc = 99
        finally:
            os._exit(rc)
    os.close(w)
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass
    end = time.time() + timeout
    data = b''
    hang = False
    while True:
        t = end - time.time()
        if t <= 0:
            hang = True
            break
        rl, _, _ = select.select([r], [], [], min(t, 1.0))
        if rl:
            d = os.read(r, 1 << 16)
            if not d:
                break
            data += d
    os.close(r)
    if hang:
        _killpg(pid)
        os.waitpid(pid, 0)
        return ('hang', 'no result within %.0f s' % timeout)
    _, st = os.waitpid(pid, 0)
    _killpg(pid)
    if os.WIFSIGNALED(st):
        return ('crash', 'the process died with signal %s' % signal.Signals(os.WTERMSIG(st)).name)
    if not data:
        return ('crash', 'the process exited with status %d' % os.WEXITSTATUS(st))
    return ('ok', pickle.loads(data))


def _killpg(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def _quiet():
    """Children must not write the simulator's messages to our stdout."""
    n = os.open('/dev/null', os.O_WRONLY)
    os.dup2(n, 1)
    os.dup2(n, 2)


def replay_choices(check, choices, listed, timeout):
    """Runs the case given by `choices` in a fresh process.
    Returns (failure or None, choices actually used, description)."""
    def go():
        _quiet()
        check.init()
        s = Src(prefix=choices, listed=listed)
        f = run_case(check, s)
        return (f, s.log, s.desc)
    st, v = _child(go, timeout)
    if st == 'ok':
        return v
    return ((st, v), choices, None)


def regen_choices(check, seed, idx, listed):
    """The choices of case idx up to the point where the process died."""
    path = os.path.join(VERIF, 'work_choices_%d' % os.getpid())

    class Spy(Src):
        def draw(self, n):
            v = Src.draw(self, n)
            if n > 1:
                self.fd.write('%d\n' % v)
            return v

    def go():
        _quiet()
        check.init()
        s = Spy(rng=_rng(seed, check.id, idx), listed=listed)
        s.fd = os.fdopen(os.open(path, os.O_CREAT | os.O_TRUNC | os.O_WRONLY), 'w', 1)
        run_case(check, s)
        return s.log
    st, v = _child(go, check.case_timeout)
    try:
        if st == 'ok':
            return v
        with open(path) as f:
            return [int(x) for x in f.read().split()]
    except FileNotFoundError:
        return []
    finally:
        try:
            os.unlink(path)
        except OSError:
            pass


def shrink(check, choices, key, listed, budget_s=60.0, max_attempts=400):
    """Greedy shrink; the predicate is 'fails with the same key in a fresh process'."""
    end = time.time() + budget_s
    attempts = [0]
    best = list(choices)
    seen = set()

    def bad(c):
        t = tuple(c)
        if t in seen or attempts[0] >= max_attempts or time.time() > end:
            return None
        seen.add(t)
        attempts[0] += 1
        f, used, _ = replay_choices(check, c, listed, min(check.case_timeout, 20.0))
        if f is not None and f[0] == key and key != 'hang':
            return used if len(used) <= len(c) or f[0] == 'crash' else None
        return None

    if key == 'hang':
        return best, 0
    improved = True
    while improved and attempts[0] < max_attempts and time.time() < end:
        improved = False
        for k in (32, 16, 8, 4, 2, 1):
            i = len(best) - k
            while i >= 0 and time.time() < end:
                c = best[:i] + best[i + k:]
                u = bad(c)
                if u is not None and (len(u), u) < (len(best), best):
                    best = u
                    improved = True
                    i = min(i, len(best)) - k
                    continue
                i -= max(1, k // 2) if k > 2 else 1
        for k in (8, 1):
            i = len(best) - k
            while i >= 0 and time.time() < end:
                if any(best[i:i + k]):
                    c = best[:i] + [0] * k + best[i + k:]
                    u = bad(c)
                    if u is not None:
                        best = u
                        improved = True
                i -= k
        for i in range(len(best)):
            if time.time() > end:
                break
            lo, hi = 0, best[i] if i < len(best) else 0
            while lo + 1 < hi:
                mid = (lo + hi) // 2
                c = best[:i] + [mid] + best[i + 1:]
                u = bad(c)
                if u is not None and i < len(u):
                    best = u
                    hi = mid
                    improved = True
                else:
                    lo = mid
    return best, attempts[0]


def _load_known(cid):
    """[(key, text)] of findings listed (not fixed) for this property."""
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property=%s ' % cid):
                rest = line.split(' ', 2)[2]
                key, text = rest.split(' ', 1)
                out.append((key.split('=', 1)[1], text))
    return out


class Runner:
    def __init__(self, check, tier, seed):
        self.c = check
        self.tier = tier
        self.seed = seed
        self.known = _load_known(check.id)
        self.listed = frozenset(k for k, _ in self.known)
        self.t0 = time.time()

    # worker: runs indices first, first+step, ... < n
    def _worker(self, w, slot, flag, start, step, n, fd, deadline):
        st = dict(evals=0, nt=set(), classes={}, counts={}, excl={}, samples=[],
                  next=start, fail=None, discarded=0)
        _quiet()
        fails = None
        try:
            self.c.init()
            i = start
            while i < n and not flag[0] and time.time() < deadline:
                struct.pack_into('<qd', slot, w * 16, i, time.time())
                s = Src(rng=_rng(self.seed, self.c.id, i), listed=self.listed)
                f = run_case(self.c, s)
                st['evals'] += 1
                for d, src in (('classes', s.classes), ('counts', s.counts), ('excl', s.excl)):
                    for k, v in src.items():
                        st[d][k] = st[d].get(k, 0) + v
                if s.nt:
                    key = s.key if s.key is not None else s.desc
                    st['nt'].add(hashlib.sha1(repr(key).encode()).digest()[:8])
                    if len(st['samples']) < 2 and s.desc is not None:
                        st['samples'].append('case %d: %s' % (i, str(s.desc)[:1800]))
                if f is not None:
                    fails = (i, s.log, f, s.desc)
                    flag[0] = 1
                    i += step
                    break
                i += step
            st['next'] = i
            st['fail'] = fails
        except BaseException:
            st['fail'] = (struct.unpack_from('<q', slot, w * 16)[0], None,
                          ('worker', traceback.format_exc()[-3000:]), None)
            flag[0] = 1
        data = pickle.dumps(st)
        try:
            with os.fdopen(fd, 'wb') as f:
                f.write(data)
        finally:
            os._exit(0)

    def round(self, starts, n, deadline, tot):
        """One parallel round.  Returns (starts, failures)."""
        W = self.c.workers
        slot = mmap.mmap(-1, 16 * W)
        flag = mmap.mmap(-1, 8)
        procs = {}
        sys.stdout.flush()
        sys.stderr.flush()
        for w in range(W):
            if starts[w] >= n:
                continue
            struct.pack_into('<qd', slot, w * 16, -1, time.time() + 60)
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    os.setpgid(0, 0)
                except OSError:
                    pass
                self._worker(w, slot, flag, starts[w], W, n, wr, deadline)
            os.close(wr)
            procs[r] = (w, pid, [])
        fails = []
        nexts = list(starts)
        while procs:
            rl, _, _ = select.select(list(procs), [], [], 0.5)
            now = time.time()
            for r in list(procs):
                w, pid, buf = procs[r]
                done = False
                if r in rl:
                    d = os.read(r, 1 << 20)
                    if d:
                        buf.append(d)
                    else:
                        done = True
                idx, ts = struct.unpack_from('<qd', slot, w * 16)
                hung = not done and now - ts > self.c.case_timeout
                if not (done or hung):
                    continue
                if hung:
                    _killpg(pid)
                os.close(r)
                _, st = os.waitpid(pid, 0)
                _killpg(pid)
                del procs[r]
                data = b''.join(buf)
                if data and not hung:
                    res = pickle.loads(data)
                    tot['evals'] += res['evals']
                    tot['nt'] |= res['nt']
                    for d in ('classes', 'counts', 'excl'):
                        for k, v in res[d].items():
                            tot[d][k] = tot[d].get(k, 0) + v
                    tot['samples'] += res['samples']
                    nexts[w] = res['next']
                    if res['fail']:
                        fails.append((res['fail'], w, starts[w]))
                else:
                    flag[0] = 1
                    if hung:
                        f = ('hang', 'no result within %.0f s' % self.c.case_timeout)
                    elif os.WIFSIGNALED(st):
                        f = ('crash', 'the process died with signal %s'
                             % signal.Signals(os.WTERMSIG(st)).name)
                    else:
                        f = ('crash', 'the process exited with status %d' % os.WEXITSTATUS(st))
                    fails.append(((idx, None, f, None), w, starts[w]))
                    tot['evals'] += max(0, (idx - starts[w]) // W)
                    nexts[w] = (idx if idx >= 0 else starts[w]) + W
        return nexts, fails

    def confirm(self, fn, need=3, tries=8):
        got = []
        for _ in range(tries):
            f = fn()
            if f is not None:
                got.append(f)
                if len(got) >= need:
                    return got
        return None

    def handle(self, fail, w, start):
        """Confirms and shrinks; returns replay path or None when it does not reproduce."""
        (idx, choices, f, desc) = fail
        c = self.c
        if choices is None and idx >= 0:
            choices = regen_choices(c, self.seed, idx, self.listed)
        if choices is not None:
            got = self.confirm(lambda: replay_choices(c, choices, self.listed, c.case_timeout)[0],
                               tries=3 if f[0] == 'hang' else 8)
            if got:
                key = got[0][0]
                small, n = shrink(c, choices, key, self.listed)
                ff, used, desc2 = replay_choices(c, small, self.listed, c.case_timeout)
                if ff is None:
                    small, ff, desc2 = choices, got[0], desc
                return self.write({'kind': 'choices', 'choices': small, 'index': idx,
                                   'original_choices': len(choices), 'shrink_attempts': n,
                                   'failure': ff[1], 'key': ff[0], 'case': desc2 or desc})
        # Perhaps it depends on what the process ran before: replay its whole history.
        if idx is not None and idx >= 0:
            seq = list(range(start, idx + 1, c.workers))

            def run(seq):
                def go():
                    _quiet()
                    c.init()
                    last = None
                    for i in seq:
                        s = Src(rng=_rng(self.seed, c.id, i), listed=self.listed)
                        last = run_case(c, s)
                        if last:
                            return (last, s.desc)
                    return (last, None)
                st, v = _child(go, c.case_timeout * 5)
                return v[0] if st == 'ok' else (st, v)
            got = self.confirm(lambda: run(seq), tries=5)
            if got:
                # bisect the prefix
                lo = 0
                t = time.time() + 60
                k = len(seq) // 2
                while k >= 1 and time.time() < t:
                    if lo + k < len(seq) and run(seq[lo + k:]):
                        lo += k
                    k //= 2
                return self.write({'kind': 'sequence', 'indices': seq[lo:], 'failure': got[0][1],
                                   'key': got[0][0], 'case': desc})
        return None

    def write(self, rec):
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s-%d.json' % (self.c.id, self.tier, self.seed))
        rec.update(property=self.c.id, tier=self.tier, seed=self.seed,
                   replay_cmd='python3 run.py %s --replay %s' % (self.c.id, path))
        with open(path, 'w') as f:
            json.dump(rec, f, indent=1, default=str)
        print('--- %s fails ---\n%s\n--- case ---\n%s\n---' % (
            self.c.id, str(rec['failure'])[:3000], str(rec.get('case'))[:4000]))
        return path

    def run(self):
        c = self.c
        n = c.quick if self.tier == 'quick' else c.thorough
        n = int(n * float(os.environ.get('VERIF_SCALE', '1')))
        dl = self.t0 + (c.quick_deadline if self.tier == 'quick' else c.thorough_deadline)
        tot = dict(evals=0, nt=set(), classes={}, counts={}, excl={}, samples=[])
        unrepro = []
        path = None
        # 1. listed findings
        for key, text in self.known:
            fn = c.known_repros.get(key)

            def go(fn=fn):
                _quiet()
                c.init()
                try:
                    fn(c)
                    return None
                except BaseException as e:
                    return str(e)
            st, v = _child(go, c.case_timeout) if fn else ('ok', 'no repro')
            if st != 'ok' or v is not None:
                print('KNOWN-FINDING: property=%s %s' % (c.id, text))
        # 2. pinned regressions
        npin = 0
        for name, fn in c.pinned:
            def go(fn=fn):
                _quiet()
                c.init()
                try:
                    fn(c)
                    return None
                except BaseException as e:
                    return (type(e).__name__, '%s' % (e,) if isinstance(e, Fail)
                            else traceback.format_exc()[-2000:])

            def one(go=go):
                st, v = _child(go, c.case_timeout)
                return v if st == 'ok' else (st, v)
            npin += 1
            if one() is not None:
                got = self.confirm(one, tries=6)
                if got:
                    path = self.write({'kind': 'pinned', 'name': name, 'failure': got[0][1],
                                       'key': got[0][0], 'case': 'pinned case ' + name})
                    break
                unrepro.append('pinned ' + name)
        # 3. generated search
        starts = list(range(c.workers))
        while path is None:
            starts, fails = self.round(starts, n, dl, tot)
            if not fails:
                break
            fails.sort(key=lambda x: x[0][0])
            for fail, w, st in fails:
                path = self.handle(fail, w, st)
                if path:
                    break
                unrepro.append('case %s: %s' % (fail[0], str(fail[2])[:300]))
                print('note: case %s failed once and did not reproduce: %s'
                      % (fail[0], str(fail[2])[:600]))
            if time.time() > dl or len(unrepro) > 30:
                break
        self.evidence(tot, unrepro, npin, path, n)
        wall = time.time() - self.t0
        print('%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s%s' % (
            c.id, self.tier, self.seed, tot['evals'], len(tot['nt']), wall,
            ', %d unreproduced' % len(unrepro) if unrepro else ''))
        if os.environ.get('VERIF_VERBOSE'):
            for d in ('classes', 'counts', 'excl'):
                for k, v in sorted(tot[d].items()):
                    print('  %-8s %-40s %d' % (d, k, v))
        if path:
            print('VIOLATION property=%s replay=%s' % (c.id, path))
            return 1
        return 0

    def evidence(self, tot, unrepro, npin, path, n):
        c = self.c
        cov = dict(evaluations=tot['evals'] + npin, distinct_nontrivial=len(tot['nt']),
                   rule=c.rule, samples=tot['samples'][:6],
                   planned_cases=n, pinned_cases=npin,
                   classes=dict(sorted(tot['classes'].items())),
                   counts=dict(sorted(tot['counts'].items())))
        if tot['excl']:
            cov['excluded_known_findings'] = tot['excl']
        if unrepro:
            cov['failed_once_not_reproduced'] = unrepro
        ev = dict(property=c.id, tier=self.tier, seed=self.seed, level=c.level,
                  coverage=cov, assumptions=c.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=1 if path else 0)
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, c.id + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)


def replay_file(check, path):
    rec = json.load(open(path))
    listed = frozenset(k for k, _ in _load_known(check.id))
    if rec['kind'] == 'choices':
        f, used, desc = replay_choices(check, rec['choices'], listed, check.case_timeout)
    elif rec['kind'] == 'sequence':
        def go():
            _quiet()
            check.init()
            for i in rec['indices']:
                s = Src(rng=_rng(rec['seed'], check.id, i), listed=listed)
                f = run_case(check, s)
                if f:
                    return (f, s.desc)
            return (None, None)
        st, v = _child(go, check.case_timeout * 5)
        f, desc = v if st == 'ok' else ((st, v), None)
    else:
        def go():
            _quiet()
            check.init()
            for name, fn in check.pinned:
                if name == rec['name']:
                    try:
                        fn(check)
                    except BaseException as e:
                        return (type(e).__name__, str(e))
            return None
        st, v = _child(go, check.case_timeout)
        f, desc = (v if st == 'ok' else (st, v)), rec['name']
    if f is None:
        print('%s: the case in %s passes' % (check.id, path))
        return 0
    print('--- failure ---\n%s\n--- case ---\n%s\n---' % (f[1], desc or rec.get('case')))
    print('VIOLATION property=%s replay=%s' % (check.id, path))
    return 1


def survey(check, seed, n):
    """Development aid: counts failures by key without stopping."""
    listed = frozenset(k for k, _ in _load_known(check.id))
    W = check.workers
    tot = {}
    rs = []
    # small chunks so that a crash loses little
    jobs = [list(range(k, min(n, k + 25))) for k in range(0, n, 25)]

    def mk(job):
        def go():
            _quiet()
            check.init()
            out = []
            for i in job:
                s = Src(rng=_rng(seed, check.id, i), listed=listed)
                f = run_case(check, s)
                if f:
                    out.append((i, f, len(s.log)))
            return out
        return go
    from concurrent.futures import ThreadPoolExecutor
    def run(job):
        st, v = _child(mk(job), check.case_timeout + 60)
        if st == 'ok':
            return v
        if len(job) == 1:
            return [(job[0], (st, v), 0)]
        out = []
        for i in job:
            out += run([i])
        return out
    with ThreadPoolExecutor(W) as ex:
        for v in ex.map(run, jobs):
            for i, f, ln in v:
                e = tot.setdefault(f[0], [0, None])
                e[0] += 1
                if e[1] is None or ln < e[1][2]:
                    e[1] = (i, f, ln)
    for k, (cnt, (i, f, ln)) in sorted(tot.items(), key=lambda x: -x[1][0]):
        print('=== %s: %d failures, e.g. case %d\n%s' % (k, cnt, i, f[1][:1500]))
    print('%d cases, %d failure keys' % (n, len(tot)))
    return 1 if tot else 0
