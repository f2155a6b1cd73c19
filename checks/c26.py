"""C26: launcher options, environment variables and message limits."""
import os
import re
import shutil
import signal
import subprocess
import tempfile
import build
import clrt
from pbt import Check, Fail

OUT = os.path.join(build.VERIF, 'build', 'c26')
HERE = os.path.join(build.VERIF, 'lib', 'c26')
VALUE = {'--build-options': 'BUILD_OPTIONS', '--compute-units': 'COMPUTE_UNITS', '--constant-mem-size': 'CONSTANT_MEM_SIZE',
         '--global-mem-size': 'GLOBAL_MEM_SIZE', '--local-mem-size': 'LOCAL_MEM_SIZE', '--log': 'LOG', '--max-errors': 'MAX_ERRORS',
         '--max-wgsize': 'MAX_WGSIZE', '--num-threads': 'NUM_THREADS', '--pch-dir': 'PCH_DIR', '--plugins': 'PLUGINS'}
FLAG = {'--check-api': 'CHECK_API', '--data-races': 'DATA_RACES', '--disable-pch': 'DISABLE_PCH', '--inst-counts': 'INST_COUNTS',
        '-i': 'INTERACTIVE', '--interactive': 'INTERACTIVE', '-q': 'QUICK', '--quick': 'QUICK', '--uniform-writes': 'UNIFORM_WRITES',
        '--uninitialized': 'UNINITIALIZED'}
DEFAULT = {'COMPUTE_UNITS': 1, 'CONSTANT_MEM_SIZE': 65536, 'GLOBAL_MEM_SIZE': 128 << 20, 'LOCAL_MEM_SIZE': 32768, 'MAX_WGSIZE': 1024,
           'MAX_ERRORS': 1000}
PRE = 'OCLGRIND_'
CF = 'Controlflow depends on uninitialized value'
PROBE_KERNELS = {'build': 'probe', 'errs': 'errs', 'groups': 'groups', 'local': 'loc', 'constant': 'con', 'uninit': 'uninit', 'race': 'race',
                 'uniform': 'uniform', 'say': 'say'}


class Plan:
    """What the environment the application sees should make of its operations."""


class C26(Check):
    id = 'C26'
    quick = 1500
    thorough = 60000
    case_timeout = 60
    rule = ('a case is a launcher (or oclgrind-kernel) command line with an environment and a list of operations of the application; non-trivial when '
            'at least two options or variables are set, or the command line is refused; distinct by command line, environment and operations')
    assumptions = ['API errors may appear on stderr or in the log file, but once',
                   'the order of lines from the application and from kernels on stdout is not judged']
    pinned = []

    def setup(self, b):
        p = subprocess.run(['sh', HERE + '/make.sh', OUT, build.REPO, b], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise RuntimeError('make.sh: ' + p.stdout.decode('latin1')[-3000:])

    def case(self, s):
        d = tempfile.mkdtemp(prefix='c26_', dir='/tmp')
        try:
            k = s.weighted([(12, 'launch'), (4, 'refused'), (3, 'kernel')])
            s.cls(k)
            getattr(self, k)(s, d)
        finally:
            shutil.rmtree(d)

    # ---------------------------------------------------------------- options
    def value(self, s, var, d, extra):
        """A value for a variable; extra collects files to make."""
        if var == 'BUILD_OPTIONS':
            return s.choice(['', '-DBO=%d' % s.range(0, 99), '-DBO=%d' % s.range(0, 99), '-DBO=1 -UBO -DBO=%d' % s.range(2, 99),
                             '-D BO=%d' % s.range(0, 99), '-DOTHER', '-DFAIL', '-cl-std=CL2.0', '-cl-std=CL1.2 -DBO=8', '  -DBO=5  ', '-w -DBO=3 -cl-opt-disable'])
        if var == 'LOG':
            return s.choice([d + '/log.txt', 'rel.txt', d + '/other.log', d + '/missing/x.log', d + '/log.txt'])
        if var == 'PCH_DIR':
            return s.choice([self.b + '/include/oclgrind', self.b + '/include/oclgrind/', d + '/nopch', self.b + '/include/oclgrind'])
        if var == 'PLUGINS':
            n = s.range(1, 3)
            return ':'.join(s.choice([OUT + '/one.so', OUT + '/two.so', d + '/absent.so', OUT + '/libOpenCL-empty.so']) for _ in range(n))
        if s.bool(1, 14):
            return s.choice(['abc', '12x', '-1', '0', '1 ', '0x10', '1.5', '-7', '99999999999999999999'])
        if var == 'MAX_ERRORS':
            return str(s.choice([0, 1, 2, 3, 5, 10, 7, 1000, 12]))
        if var in ('NUM_THREADS', 'COMPUTE_UNITS'):
            return s.choice(['1', '2', '3', '4', '7', '8', '12', '010'])
        if var == 'MAX_WGSIZE':
            return str(s.choice([1, 2, 3, 4, 8, 16, 100, 1024, 2048, 4096]))
        if var == 'LOCAL_MEM_SIZE':
            return str(s.choice([1, 4, 16, 100, 1024, 32768, 65536, 1 << 20]))
        if var == 'CONSTANT_MEM_SIZE':
            return str(s.choice([1, 4, 16, 100, 1024, 65536, 1 << 20]))
        return str(s.choice([1 << 20, 100000, 1 << 16, 65537, 4 << 20, 256 << 20, (1 << 32) - 1, 1 << 32, (1 << 32) + 5, 8 << 30, 12 << 30]))

    @staticmethod
    def num(env, var):
        """(valid, number)"""
        t = env.get(PRE + var)
        if t is None:
            return True, DEFAULT.get(var)
        if not re.match(r'^\d+$', t) or int(t) >= 2**64 - 1 or (var != 'MAX_ERRORS' and int(t) == 0):
            return False, None
        return True, int(t)

    def parse(self, toks, env, opts=None):
        """Model of the launcher's command line: ('exec', env, rest) | ('text', which) | ('error', text)."""
        env = dict(env)
        i = 0
        while i < len(toks):
            t = toks[i]
            if t in VALUE:
                if i + 1 >= len(toks):
                    return 'error', 'Missing argument to ' + t, None
                env[PRE + VALUE[t]] = toks[i + 1]
                i += 2
                continue
            if t in FLAG:
                env[PRE + FLAG[t]] = '1'
            elif t in ('-h', '--help'):
                return 'text', 'usage', None
            elif t in ('-v', '--version'):
                return 'text', 'version', None
            elif t.startswith('-'):
                return 'error', "Unrecognised option '%s'" % t, None
            else:
                return 'exec', env, toks[i:]
            i += 1
        return 'usage', None, None

    def environ(self, s, d):
        env = {'PATH': '/usr/bin:/bin', 'HOME': '/', 'LC_ALL': s.choice(['C', 'C', 'C.UTF-8', 'xx_YY.UTF-8', ''])}
        if s.bool(1, 3):
            env['LD_LIBRARY_PATH'] = s.choice(['/nowhere', '/a:/b c', '', OUT])
        if s.bool(1, 4):
            env['LD_PRELOAD'] = s.choice([OUT + '/libOpenCL-empty.so', ''])
        env['C26_OPS'] = d + '/ops'
        env['C26_OUT'] = d + '/out'
        env['C26_PLUGOUT'] = d + '/plug'
        return env

    def options(self, s, d, env):
        toks = []
        n = s.weighted([(2, 1), (3, 2), (4, 4), (2, 7), (1, 12), (1, 0)])
        for _ in range(n):
            if s.bool(3, 5):
                o = s.choice(sorted(VALUE))
                toks += [o, self.value(s, VALUE[o], d, None)]
            else:
                o = s.choice(sorted(FLAG))
                if FLAG[o] == 'INTERACTIVE' and not s.bool(1, 3):
                    o = '-q'
                toks.append(o)
        for _ in range(s.weighted([(3, 0), (2, 1), (1, 4)])):
            if s.bool():
                var = s.choice(sorted(VALUE.values()))
                env[PRE + var] = self.value(s, var, d, None)
            else:
                var = s.choice(sorted(set(FLAG.values()) - {'INTERACTIVE'}))
                env[PRE + var] = s.choice(['1', '1', '0', '', 'yes'])
        return toks

    def exe(self, s, d, env, name='oclgrind'):
        """How the launcher is found: returns (path, library directory)."""
        how = s.weighted([(6, 'build'), (2, 'link'), (3, 'installed')])
        if how == 'build':
            env['OCLGRIND_TESTING'] = '1'
            return self.b + '/' + name, self.b
        if how == 'link':
            env['OCLGRIND_TESTING'] = ''
            os.symlink(self.b + '/' + name, d + '/launcher')
            return d + '/launcher', self.b
        deep = d + '/' + s.choice(['inst', 'a b', 'x' * 200, '/'.join(['y' * 250] * 6)])
        suf = re.search(r'LIBDIR_SUFFIX "(.*)"', open(self.b + '/config.h').read())
        lib = deep + '/lib' + (suf.group(1) if suf else '')
        os.makedirs(deep + '/bin')
        os.makedirs(lib)
        shutil.copy(self.b + '/' + name, deep + '/bin/prog')
        os.symlink(self.b + '/liboclgrind-rt.so', lib + '/liboclgrind-rt.so')
        env.setdefault('OCLGRIND_PCH_DIR', self.b + '/include/oclgrind')
        return deep + '/bin/prog', lib

    def spawn(self, argv, env, d, stdin=b''):
        e = dict(env)
        p = subprocess.Popen(argv, env=e, cwd=d, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, close_fds=True)
        try:
            so, se = p.communicate(stdin, timeout=50)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            raise Fail('the command did not end within 50 s', 'hang')
        return p.returncode, so.decode('latin1'), se.decode('latin1')

    # ------------------------------------------------------------------ cases
    def refused(self, s, d):
        env = self.environ(s, d)
        kern = s.bool(1, 4)
        exe, lib = self.exe(s, d, env, 'oclgrind-kernel' if kern else 'oclgrind')
        toks = []
        for _ in range(s.range(0, 3)):
            o = s.choice(sorted(VALUE) + sorted(FLAG))
            toks.append(o)
            if o in VALUE:
                toks.append(s.choice(['1', '--quick', '-h', '', 'x']))
        what = s.choice(['missing', 'unknown', 'none', 'help', 'version', 'nocommand'])
        if what == 'missing':
            toks.append(s.choice(sorted(VALUE)))
        elif what == 'unknown':
            toks.append(s.choice(['--nope', '-', '--', '-x', '--quick=1', '--log=/tmp/none', '-Q', '--data-race', '--max-error', '--num-threads2',
                                  '-qi', '--quick ', '--check_api', '--dump-spirv', '--helpme', '--versions', '--uniform-write', '-ii']))
            toks += s.choice([[], [OUT + '/app'], ['-h']])
        elif what == 'help':
            toks.append(s.choice(['-h', '--help']))
            toks += s.choice([[], ['--nope'], [OUT + '/app'], ['--log']])
        elif what == 'version':
            toks.append(s.choice(['-v', '--version']))
            toks += s.choice([[], ['--nope'], [OUT + '/app']])
        elif what == 'nocommand':
            toks.append(s.choice(['/nonexistent/app', d, 'no-such-command-c26', '', OUT + '/stub']))
        with open(d + '/ops', 'w') as f:
            f.write('exit 0\n')
        if kern:
            toks = [t for t in toks if t not in ('--check-api',) and t != OUT + '/app']
        kind, val, rest = self.parse(toks, env)
        s.desc = '%s %s' % (os.path.basename(exe), toks)
        s.cls('refused: ' + what)
        s.nontrivial((kern, tuple(toks)))
        if kern and kind == 'exec':
            return
        rc, so, se = self.spawn([exe] + toks, env, d)
        txt = 'options %s: status %d\nstdout: %s\nstderr: %s' % (toks, rc, so[:300], se[:300])
        if os.path.exists(d + '/out') and not (kind == 'exec' and rest[0] == OUT + '/app'):
            raise Fail('the application ran\n' + txt, 'ran')
        usage = 'Usage: oclgrind%s [OPTIONS]' % ('-kernel' if kern else '')
        if kind == 'text':
            if rc != 0 or se or (usage not in so if val == 'usage' else 'Oclgrind 2' not in so):
                raise Fail('expected the %s text and status 0\n' % val + txt, 'text')
            if val == 'usage':
                for o in list(VALUE) + list(FLAG):
                    if o.startswith('--') and o not in so and not (kern and o == '--check-api'):
                        raise Fail('option %s is not in the usage text\n' % o + txt, 'usage text')
        elif kind == 'error':
            if rc != 1 or val not in se:
                raise Fail('expected %r and status 1\n' % val + txt, 'error')
        elif kind == 'usage':
            if rc != 1 or usage not in so + se:
                raise Fail('expected the usage text and status 1\n' + txt, 'no command')
        elif rest[0] != OUT + '/app':
            if rc != 1 or 'Failed to launch' not in se:
                raise Fail('expected a failure to launch and status 1\n' + txt, 'launch')

    def operations(self, s, env):
        ops = []
        for _ in range(s.range(1, 7)):
            o = s.weighted([(2, 'info'), (3, 'build'), (4, 'errs'), (3, 'groups'), (2, 'local'), (2, 'constant'), (2, 'alloc'), (2, 'say'), (2, 'api'),
                            (2, 'text'), (2, 'context')])
            if o == 'build':
                ops.append((o, s.choice(['', '-DHO=%d' % s.range(0, 9), '-DHO=%d' % s.range(0, 9), '-DBO=%d' % s.range(100, 109), '-DFAIL', '-cl-std=CL2.0', '-DHO=1 -DHO=2',
                                         '-cl-std=CL3.0'])))
            elif o == 'errs':
                ops.append((o, s.range(1, 12)))
            elif o == 'groups':
                ok, m = self.num(env, 'MAX_WGSIZE')
                m = m or 4
                lx = s.choice([1, 2, 3, 4, m, m + 1, max(1, m - 1)])
                gx = lx * s.range(1, 9) + (s.range(0, lx - 1) if s.bool(1, 4) else 0)
                ops.append((o, gx, lx))
            elif o in ('local', 'constant', 'alloc'):
                ok, m = self.num(env, dict(local='LOCAL_MEM_SIZE', constant='CONSTANT_MEM_SIZE', alloc='GLOBAL_MEM_SIZE')[o])
                m = m or 64
                n = s.choice([m, m + 1, max(1, m - 1), m * 2, 4, 64])
                if o == 'constant':
                    g = self.num(env, 'GLOBAL_MEM_SIZE')[1] or 64
                    n = min(n, g, 3 << 20)
                    n = max(n, 1)
                if o == 'alloc' and n > (160 << 20) and n <= m:
                    n = m + 1 + s.range(0, 3)
                ops.append((o, n))
            elif o in ('say', 'text'):
                ops.append((o, s.range(0, 9999)))
            elif o == 'context':
                ops.append((o, s.range(0, 1)))
            else:
                ops.append((o,))
        # operations whose number of messages is not modelled come last
        for o in ('uninit', 'race', 'uniform'):
            if s.bool(1, 4):
                ops.append((o, s.range(1, 9)) if o == 'uninit' else (o,))
        if s.bool(1, 5):
            ops.append(('groups', 8 * s.range(1, 3), 1, 'meet'))
        e = s.weighted([(2, None), (3, 'exit'), (1, 'kill')])
        if e == 'exit':
            ops.append((e, s.choice([0, 1, 2, 3, 77, 127, 128, 255])))
        elif e == 'kill':
            ops.append((e, s.choice([int(signal.SIGTERM), int(signal.SIGKILL), int(signal.SIGUSR1)])))
        return ops

    def launch(self, s, d):
        env = self.environ(s, d)
        toks = self.options(s, d, env)
        exe, lib = self.exe(s, d, env)
        if 'OCLGRIND_PCH_DIR' not in env and s.bool(5, 6):
            env['OCLGRIND_PCH_DIR'] = self.b + '/include/oclgrind'
        args = [s.choice(['a', '', '--quick', '-h', '--log', 'two words', '--', 'q"uote\'s', '*', '\xe9', '-i', '$HOME', '\t', '--num-threads', '1']) for _ in range(s.range(0, 4))]
        kind, exp, rest = self.parse(toks + [OUT + '/app'] + args, env)
        if kind != 'exec':
            raise RuntimeError('generator')
        ops = self.operations(s, exp)
        inter = exp.get(PRE + 'INTERACTIVE') == '1'
        if inter:
            ops = [o for o in ops if o[0] not in ('errs', 'race', 'uninit', 'uniform')] or [('info',)]
        stdin = b''
        if inter:
            stdin = s.choice([b'', b'q\n', b'c\n' * 200, b'nonsense\nc\nq\n'])
        cpu = len(os.sched_getaffinity(0))
        ok, nt = self.num(exp, 'NUM_THREADS')
        workers = 1 if inter else (nt or cpu)
        quick = exp.get(PRE + 'QUICK') == '1'
        lines = []
        for o in ops:
            if o[-1] == 'meet':
                k = 2 if quick else o[1]
                lines.append('meet %d' % min(workers, k))
                lines.append('%s %d %d' % o[:3])
                lines.append('meet 0')
            else:
                lines.append(' '.join(str(x) for x in o))
        with open(d + '/ops', 'w') as f:
            f.write('\n'.join(lines) + '\n')
        log = exp.get(PRE + 'LOG')
        logpath = os.path.join(d, log) if log else None
        if logpath and s.bool(1, 3) and os.path.isdir(os.path.dirname(logpath)):
            with open(logpath, 'w') as f:
                f.write('old contents of this file\n' * 50)
        set_ = sorted(k + '=' + v for k, v in exp.items() if k.startswith(PRE))
        s.desc = 'options %s\nenvironment %s\narguments %s\noperations %s\nstdin %r' % (toks, sorted(k + '=' + v for k, v in env.items() if k.startswith(PRE)), args, ops, stdin)
        if len(set_) >= 3:
            s.nontrivial((tuple(toks), tuple(sorted(env.items()))[:0], tuple(set_), tuple(ops), tuple(args)))
        rc, so, se = self.spawn([exe] + toks + [OUT + '/app'] + [a.encode('latin1') for a in args], env, d, stdin)
        got = open(d + '/out', encoding='latin1').read() if os.path.exists(d + '/out') else ''
        logtxt = None
        if log:
            logtxt = open(logpath, encoding='latin1').read() if os.path.exists(logpath) else None
        plug = open(d + '/plug').read().splitlines() if os.path.exists(d + '/plug') else []
        self.lib = lib
        for f in os.listdir(d):
            if f not in ('ops', 'out', 'plug', 'launcher', 'inst', 'a b') and not f.startswith(('xxx', 'yyy')) and (not log or os.path.join(d, f) != os.path.normpath(logpath)):
                raise Fail('unexpected file %s' % f, 'file')
        if [f for f in os.listdir(d) if f.startswith('core')]:
            raise Fail('core file')
        try:
            self.judge(s, d, env, exp, args, ops, inter, stdin, workers, quick, rc, so, se, got, logtxt, log, plug)
        except Fail as e:
            raise Fail('%s\nstatus %d\n--- stdout\n%s\n--- stderr\n%s\n--- application\n%s\n--- log file\n%s\n--- plugins\n%s' % (
                e, rc, so[:1500], se[:2500], '\n'.join(l for l in got.splitlines() if not l.startswith('env '))[:1500],
                logtxt[:1500] if logtxt is not None else None, '\n'.join(plug)[:1000]), e.key)

    def judge(self, s, d, env, exp, args, ops, inter, stdin, workers, quick, rc, so, se, got, logtxt, log, plug):
        lines = got.split('\n')
        if not got:
            raise Fail('the application was not started', 'not started')
        # what the application received
        av = [bytes.fromhex(l[4:]).decode('latin1') for l in lines if l.startswith('arg ')]
        if av != [OUT + '/app'] + args:
            raise Fail('the application received the arguments %r' % av, 'arguments')
        ev = dict(bytes.fromhex(l[4:]).decode('latin1').split('=', 1) for l in lines if l.startswith('env '))
        want = dict(exp)
        lib = self.lib
        for var, v in (('LD_LIBRARY_PATH', lib), ('LD_PRELOAD', lib + '/liboclgrind-rt.so')):
            old = env.get(var)
            want[var] = v + (':' + old if old is not None else '')
        for k in set(ev) | set(want):
            if k in ('LD_PRELOAD', 'LD_LIBRARY_PATH') and k in ev and ev[k] == want[k].rstrip(':'):
                continue
            if ev.get(k) != want.get(k):
                raise Fail('the application sees %s=%r; expected %r' % (k, ev.get(k), want.get(k)), 'environment')
        if 'nopreload' in lines:
            if ' ' in lib:
                s.cls('preload path with a space')      # not expressible in LD_PRELOAD
                return
            raise Fail('the runtime was not loaded into the application', 'preload')
        if ' ' in lib or len(lib) > 1000:
            s.cls('long or odd installation path')
        # ----- invalid numbers
        bad = {v for v in ('GLOBAL_MEM_SIZE', 'CONSTANT_MEM_SIZE', 'LOCAL_MEM_SIZE', 'MAX_WGSIZE', 'MAX_ERRORS', 'NUM_THREADS', 'COMPUTE_UNITS') if not self.num(exp, v)[0]}
        g, c, l, w, cu = [self.num(exp, v)[1] for v in ('GLOBAL_MEM_SIZE', 'CONSTANT_MEM_SIZE', 'LOCAL_MEM_SIZE', 'MAX_WGSIZE', 'COMPUTE_UNITS')]
        limit = self.num(exp, 'MAX_ERRORS')[1]
        on = {v: exp.get(PRE + v) == '1' for v in set(FLAG.values())}
        res = {}
        cur = None
        resl = []
        for ln in lines:
            if ln.startswith('op '):
                cur = []
                resl.append((ln[3:], cur))
            elif cur is not None and ln and ln != 'done':
                cur.append(ln)
        # ----- model
        std = exp.get(PRE + 'BUILD_OPTIONS', '')
        expect = []     # per operation: list of expected result lines (or None where not judged)
        msgs = []       # expected messages
        apierr = 0
        kernels = []
        runs_possible = 'NUM_THREADS' not in bad
        groups = []
        progs = False
        died = None
        plugmsgs = 0
        if bad & {'GLOBAL_MEM_SIZE', 'CONSTANT_MEM_SIZE', 'LOCAL_MEM_SIZE', 'MAX_WGSIZE', 'MAX_ERRORS'}:
            died = True
        contexts = 0 if died else 1
        released = 0
        open_ctx = True
        stdout = []
        ended = None
        uncounted = []
        nplug = self.plugins(exp)
        sections = []       # kernels per context
        cur_k = 0

        def kernel(name, text=None):
            nonlocal died
            if not runs_possible:
                died = True
                return False
            kernels.append(name)
            return True

        cver = 120

        def build_model(host):
            bo, ho, ver = -1, -1, 120
            fail = False
            t = (host + ' ' + std).split()
            i = 0
            while i < len(t):
                x = t[i]
                if x == '-D':
                    i += 1
                    x = '-D' + t[i]
                m = re.match(r'^-DBO=(\d+)$', x)
                if m:
                    bo = int(m.group(1))
                elif x == '-UBO':
                    bo = -1
                m = re.match(r'^-DHO=(\d+)$', x)
                if m:
                    ho = int(m.group(1))
                if x == '-DFAIL':
                    fail = True
                m = re.match(r'^-cl-std=CL(\d)\.(\d)$', x)
                if m:
                    ver = int(m.group(1)) * 100 + int(m.group(2)) * 10
                i += 1
            return fail, bo, ho, ver

        def need():
            nonlocal progs, expline, cver
            if progs:
                return True
            fail, _, _, cver = build_model('')
            expline = ['autobuild %d' % (-11 if fail else 0)]
            progs = not fail
            return not fail

        n_done = 0
        skip = False
        for o in ops:
            if died or ended:
                break
            n_done += 1
            op = o[0]
            expline = []
            if op == 'info':
                if 'COMPUTE_UNITS' in bad:
                    died = True
                    break
                expline = ['info %d %d %d %d %d %d %d 3' % (cu, g, g, c, l, w, w)]
            elif op == 'alloc':
                e = 0 if 1 <= o[1] <= g else -61
                expline = ['alloc %d' % e]
                apierr += e != 0
            elif op == 'build':
                fail, bo, ho, ver = build_model(o[1])
                cver = ver
                expline = [None]
                if fail:
                    apierr += 1
                    expline.append('build -11 -7 -7 -7')
                    progs = False
                else:
                    progs = True
                    if not kernel('probe'):
                        break
                    expline.append('build 0 %d %d %d' % (bo, ho, ver))
                # the precompiled header
                pd = exp.get(PRE + 'PCH_DIR')
                warn = ver in (120, 200) and not on['DISABLE_PCH'] and not (pd or '').startswith(self.b)
                expline[0] = ('log', warn, pd, fail)
            elif op == 'context':
                contexts += 1
                released += o[1]
                progs = False
                open_ctx = True
            elif op == 'text':
                stdout.append('application says %d' % o[1])
            elif op == 'exit':
                ended = ('exit', o[1])
            elif op == 'kill':
                ended = ('kill', o[1])
            else:
                if not need():
                    # kernels that do not exist: stop modelling the rest
                    skip = True
                    expect.append(expline[:1] + ['*'])
                    break
                if op == 'api':
                    expline.append('api -49')
                    apierr += 1
                elif op == 'say':
                    if not kernel('say'):
                        break
                    expline.append('say 0')
                    stdout.append('kernel says %d' % o[1])
                elif op == 'errs':
                    if not kernel('errs'):
                        break
                    expline.append('errs 0')
                    msgs += ['Invalid write of size 4 at global memory address 0x#%x' % (64 + 4 * i) for i in range(o[1])]
                elif op == 'groups':
                    gx, lx = o[1], o[2]
                    e = -54 if gx % lx and cver < 200 else -55 if lx > w else 0
                    run = ['0'] * gx
                    if e == 0 and gx * 4 > g:
                        skip = True
                        expect.append(['*'])
                        break
                    if e:
                        apierr += 1
                    else:
                        ng = (gx + lx - 1) // lx
                        for k in range(ng):
                            if not quick or k in (0, ng - 1):
                                for j in range(k * lx, min(gx, (k + 1) * lx)):
                                    run[j] = '1'
                        if not kernel('groups'):
                            break
                        groups.append((len(kernels) - 1, [0, ng - 1] if quick else list(range(ng)), o[-1] == 'meet'))
                    expline.append('groups %d %s' % (e, ''.join(run)))
                elif op == 'local':
                    e = -5 if o[1] > l else 0
                    if e:
                        apierr += 1
                    elif o[1] < 4:
                        # the kernel itself then oversteps its local memory
                        if not kernel('loc'):
                            break
                        uncounted.append('local')
                    elif not kernel('loc'):
                        break
                    expline.append('local %d' % e)
                elif op == 'constant':
                    e = -5 if o[1] > c else 0
                    if e:
                        apierr += 1
                    else:
                        if not kernel('con'):
                            break
                        if o[1] < 4:
                            uncounted.append('constant')
                    expline.append('constant %d' % e)
                elif op in ('uninit', 'race', 'uniform'):
                    if not kernel(op):
                        break
                    expline.append(op + ' 0')
                    if op == 'uninit' and on['UNINITIALIZED'] or op == 'race' and on['DATA_RACES'] and not quick or \
                            op == 'uniform' and on['DATA_RACES'] and on['UNIFORM_WRITES']:
                        if op == 'uninit':
                            msgs += [CF] * o[1]
                        else:
                            uncounted.append(op)
                    elif op == 'race' and on['DATA_RACES']:
                        uncounted.append(op)
            expect.append(expline)
        # ----- exit status
        if died:
            names = {PRE + v for v in bad}
            seen = set(re.findall(r'Invalid value for (\w+)', se))
            if rc != -signal.SIGABRT or not seen or not seen <= names:
                raise Fail('invalid value(s) for %s were not refused' % sorted(bad), 'invalid value')
            s.cls('invalid number')
            return
        if re.search(r'Invalid value for', se):
            raise Fail('a valid value was refused', 'refused value')
        if ended and ended[0] == 'kill':
            wantrc = -ended[1]
        else:
            wantrc = ended[1] if ended else 0
        if not skip and rc != wantrc:
            raise Fail('exit status %d; expected %d' % (rc, wantrc), 'status')
        # ----- results
        real = [r for r in resl if not r[0].startswith('meet')]
        for k, e in enumerate(expect):
            if k >= len(real):
                raise Fail('operation %d was not reached' % k, 'stopped')
            r = real[k][1]
            if e and e[-1] == '*':
                break
            if len(r) != len(e):
                raise Fail('operation %r: %r; expected %r' % (real[k][0], r, e), 'result ' + real[k][0].split()[0])
            for x, y in zip(r, e):
                if isinstance(y, tuple):
                    t = bytes.fromhex(x[4:]).decode('latin1') if x.startswith('log') else '?'
                    if ('Unable to find precompiled header' in t) != y[1] or y[1] and (y[2] or '') not in t:
                        raise Fail('build log %r (precompiled headers %s, directory %s)' % (t[:300], 'missing' if y[1] else 'present or disabled', y[2]), 'pch')
                elif x != y:
                    raise Fail('operation %r: %r; expected %r' % (real[k][0], x, y), 'result ' + real[k][0].split()[0])
        if skip:
            s.cls('stopped modelling')
            return
        # ----- messages
        where = se
        unopened = log is not None and log.endswith('missing/x.log')
        if unopened:
            if se.count("Unable to open log file '%s'" % log) != contexts:
                raise Fail('no message about the log file', 'log file')
        elif 'Unable to open log file' in se:
            raise Fail('the log file was not opened', 'log file')
        if log is not None and not unopened:
            if logtxt is None:
                raise Fail('no log file', 'log file')
            if 'old contents' in logtxt:
                raise Fail('the log file keeps its old contents', 'log file')
            if re.search(r'Invalid (write|read) of|data race|ninitialized|suppressing|Kernel:', se):
                raise Fail('messages on stderr despite the log file', 'redirect')
            where = logtxt
            if '\0' in logtxt:
                raise Fail('holes in the log file', 'log file')
        seen = [re.sub(r'0x[0-9a-f]+$', lambda m: '0x#%x' % (int(m.group(0), 16) & 0xFFFFFFFF), x)
                for x in re.findall(r'^Invalid write of size 4 at global memory address 0x[0-9a-f]+$|^' + CF + '$', where, re.M)]
        early = any(u in ('local', 'constant') for u in uncounted)
        if not early and seen != msgs[:limit]:
            raise Fail('%d of %d messages expected with limit %d; printed %s' % (min(limit, len(msgs)), len(msgs), limit, seen), 'messages')
        notice = re.findall(r'^Oclgrind: (\d+) errors generated - suppressing further errors$', where, re.M)
        if len(notice) > 1 or notice and int(notice[0]) != limit:
            raise Fail('notices %r with limit %d' % (notice, limit), 'notice')
        if len(msgs) > limit and not notice or not uncounted and len(msgs) <= limit and notice:
            raise Fail('notice %r with %d messages and limit %d' % (notice, len(msgs), limit), 'notice')
        total = len(re.findall(r'^\tEntity:|^\tKernel: ', where, re.M))
        if not early and len(msgs) < limit:
            late = where
            if (re.search('ninitialized', late) is not None) != (CF in msgs):
                raise Fail('uninitialized report: %s' % (CF not in msgs), 'uninitialized')
            racing = [u for u in uncounted if u in ('race', 'uniform')]
            anyrace = re.search('data race', late) is not None
            if anyrace != bool(racing):
                raise Fail('data race reported: %s; expected %s' % (anyrace, bool(racing)), 'race')
        if not msgs and not uncounted and (log and not unopened) and not inter and logtxt.strip() and not on['CHECK_API']:
            raise Fail('unexpected log contents', 'log contents')
        # API errors
        n = len(re.findall('Oclgrind - OpenCL runtime error detected', se + (logtxt or '')))
        if n != (apierr if on['CHECK_API'] else 0):
            raise Fail('%d API errors reported; expected %d' % (n, apierr if on['CHECK_API'] else 0), 'api')
        # standard output and error of the application and of kernels
        for ln in stdout:
            if so.split('\n').count(ln) != stdout.count(ln):
                raise Fail('standard output: %r occurs %d times, expected %d' % (ln, so.split('\n').count(ln), stdout.count(ln)), 'stdout')
            if ln.startswith('application'):
                e = ln.replace('says', 'complains')
                if se.split('\n').count(e) != stdout.count(ln):
                    raise Fail('standard error lacks %r' % e, 'stderr')
        rest = [x for x in so.split('\n') if x and x not in stdout]
        if not on['INST_COUNTS'] and not inter and rest:
            raise Fail('unexpected standard output %r' % rest[:5], 'stdout')
        hdr = re.findall(r"^Instructions executed for kernel '(\w+)':", so, re.M)
        if hdr != (kernels if on['INST_COUNTS'] else []):
            raise Fail('instruction counts for %s; kernels run: %s' % (hdr, kernels), 'inst counts')
        if not inter and not on['CHECK_API']:
            junk = [x for x in se.split('\n') if x and not x.startswith('application complains') and not re.match(r'^\d+ (warning|error)', x)
                    and 'Loading Oclgrind plugin failed' not in x and 'Unable to open log' not in x and not x.startswith(('\t', 'Invalid', 'Oclgrind: '))
                    and not re.search('data race|ninitialized', x) and not x.startswith("ERROR: ld.so")]
            if junk:
                raise Fail('unexpected standard error %r' % junk[:5], 'stderr')
        if inter:
            nf = len(re.findall(r'^\d+\t.*kernel void \w+\(', so, re.M))
            if (nf != 0) != bool(kernels):
                raise Fail('%d prompts; kernels %s' % (nf, kernels), 'interactive')
            if not uncounted and stdin.startswith(b'c') and nf != len(kernels) or stdin in (b'', b'q\n') and nf > contexts:
                raise Fail('%d prompts for %d kernels' % (nf, len(kernels)), 'interactive')
        elif re.search(r'^\d+\t.*kernel void', so, re.M):
            raise Fail('interactive output without -i', 'interactive')
        # ----- plugins
        fails = se.count('Loading Oclgrind plugin failed')
        want_fail = sum(1 for p in nplug if p is None) * contexts
        if fails != want_fail:
            raise Fail('%d plugin failures reported; expected %d' % (fails, want_fail), 'plugin failure')
        names = [p for p in nplug if p]
        for nm in ('one.so', 'two.so'):
            mine = [x.split(' ', 1)[1] for x in plug if x.startswith(nm)]
            k = names.count(nm)
            if mine.count('init') != k * contexts:
                raise Fail('plugin %s initialised %d times; expected %d' % (nm, mine.count('init'), k * contexts), 'plugin init')
            if 'stray release' in mine or mine.count('release') != k * released:
                raise Fail('plugin %s released %d times; expected %d' % (nm, mine.count('release'), k * released), 'plugin release')
            if k != 1:
                continue
            if mine.count('begin') != len(kernels) or mine.count('end') != len(kernels):
                raise Fail('plugin %s saw %d kernels begin and %d end; expected %d' % (nm, mine.count('begin'), mine.count('end'), len(kernels)), 'plugin kernels')
            if not uncounted and sum(x.startswith('log') for x in mine) != len(msgs):
                raise Fail('plugin %s saw %d messages; expected %d' % (nm, sum(x.startswith('log') for x in mine), len(msgs)), 'plugin messages')
            per = []
            for x in mine:
                if x == 'begin':
                    per.append([])
                elif x.startswith('group'):
                    per[-1].append([int(v) for v in x.split()[1:]])
            for i, gl, meet in groups:
                if sorted(x[1] for x in per[i]) != sorted(set(gl)):
                    raise Fail('plugin %s saw the groups %s; expected %s' % (nm, sorted(x[1] for x in per[i]), sorted(set(gl))), 'plugin groups')
                nth = len({x[0] for x in per[i]})
                if nth > workers or meet and nth < min(workers, len(gl)):
                    raise Fail('%d threads ran %d groups; expected %s%d' % (nth, len(gl), '' if meet else 'at most ', min(workers, len(gl))), 'threads')
                if meet:
                    s.cls('threads judged')
        for o in ops:
            s.cls('op ' + o[0])
        if len(msgs) > limit:
            s.cls('limit reached')
        if log and contexts > 1 and msgs:
            s.cls('log over several contexts')

    @staticmethod
    def plugins(exp):
        v = exp.get(PRE + 'PLUGINS')
        if not v:
            return []
        return [os.path.basename(x) if x in (OUT + '/one.so', OUT + '/two.so') else None for x in v.split(':')]

    # --------------------------------------------------------- oclgrind-kernel
    def kernel(self, s, d):
        env = self.environ(s, d)
        env['OCLGRIND_PCH_DIR'] = self.b + '/include/oclgrind'
        toks = []
        n, per = s.range(1, 6), s.range(0, 4)
        for _ in range(s.range(1, 5)):
            o = s.choice(['--max-errors', '--log', '--build-options', '--num-threads', '--inst-counts', '-q', '--quick', '-g', '--global-mem', '--max-errors', '--data-races',
                          '--uninitialized', '--disable-pch'])
            toks.append(o)
            if o == '--max-errors':
                toks.append(str(s.range(0, 30)))
            elif o == '--log':
                toks.append(s.choice([d + '/k.log', 'rel.log']))
            elif o == '--build-options':
                toks.append(s.choice(['-DV=%d' % s.range(2, 99), '-DOTHER', '-w']))
            elif o == '--num-threads':
                toks.append('1')
        exp = dict(env)
        i = 0
        gm = False
        while i < len(toks):
            if toks[i] in VALUE:
                exp[PRE + VALUE[toks[i]]] = toks[i + 1]
                i += 1
            elif toks[i] in FLAG:
                exp[PRE + FLAG[toks[i]]] = '1'
            else:
                gm = True
            i += 1
        exp.setdefault(PRE + 'NUM_THREADS', '')
        if exp[PRE + 'NUM_THREADS'] == '':
            toks += ['--num-threads', '1']
        pos = s.choice([0, 1])
        full = toks + ['t.sim'] if pos else ['t.sim'] + toks
        extra = s.bool(1, 8)
        if extra:
            full.append('u.sim')
        with open(d + '/t.cl', 'w') as f:
            f.write('#ifndef V\n#define V 1\n#endif\nkernel void k(global int *p) {\n  int g = get_global_id(0);\n  p[g] = V;\n'
                    '  for (int i = 0; i < %d; i++) p[%d + g * 16 + i] = 5;\n}\n' % (per, n))
        with open(d + '/t.sim', 'w') as f:
            f.write('t.cl\nk\n%d 1 1\n1 1 1\n<size=%d fill=0 dump int>\n' % (n, n * 4))
        s.desc = 'oclgrind-kernel %s (%d work-items, %d invalid writes each)' % (full, n, per)
        s.nontrivial(tuple(full) + (n, per))
        rc, so, se = self.spawn([self.b + '/oclgrind-kernel'] + full, env, d)
        txt = '\nstatus %d\nstdout: %s\nstderr: %s' % (rc, so[:1200], se[:1200])
        if extra:
            if rc != 1 or "Unexpected positional argument 'u.sim'" not in se:
                raise Fail('a second simulation file was accepted' + txt, 'kernel positional')
            return
        if rc != 0:
            raise Fail('failing status' + txt, 'kernel status')
        quick = exp.get(PRE + 'QUICK') == '1'
        ran = sorted({0, n - 1}) if quick else list(range(n))
        log = exp.get(PRE + 'LOG')
        where = se
        if log:
            where = open(os.path.join(d, log), encoding='latin1').read()
            if 'Invalid write' in se or 'suppressing' in se:
                raise Fail('messages on stderr despite the log file' + txt, 'kernel redirect')
        limit = int(exp.get(PRE + 'MAX_ERRORS', 1000))
        msgs = ['%x' % (4 * (n + g * 16 + i)) for g in ran for i in range(per)]
        seen = ['%x' % (int(x, 16) & 0xFFFFFFFF) for x in re.findall(r'^Invalid write of size 4 at global memory address (0x[0-9a-f]+)$', where, re.M)]
        if seen != msgs[:limit]:
            raise Fail('messages for %s; expected %s' % (seen, msgs[:limit]) + txt, 'kernel messages')
        notice = re.findall(r'(\d+) errors generated - suppressing', where)
        if notice != ([str(limit)] if len(msgs) > limit else []):
            raise Fail('notices %r' % notice + txt, 'kernel notice')
        m = re.search(r'-DV=(\d+)', exp.get(PRE + 'BUILD_OPTIONS', ''))
        v = int(m.group(1)) if m else 1
        vals = [int(x) for x in re.findall(r'^\s*\[\d+\] = (-?\d+)', so, re.M)]
        if vals and vals != [v if i in ran else 0 for i in range(n)]:
            raise Fail('results %s' % vals + txt, 'kernel results')
        if not vals:
            s.cls('no results parsed')
        if ('Instructions executed for kernel' in so) != (exp.get(PRE + 'INST_COUNTS') == '1'):
            raise Fail('instruction counts' + txt, 'kernel counts')
        if ('Global Memory:' in so) != gm:
            raise Fail('global memory dump' + txt, 'kernel dump')


CHECK = C26()
