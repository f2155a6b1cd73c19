#!/usr/bin/env python3
"""tools/plant.py SPEC...: turn a planted-bug spec into seeded/<ID>, confirming
that it builds, passes the tests, and that its demonstration tells it apart;
then run the property's quick check against it.

A spec is a Python file: ID, PROP, EDITS=[(file, old, new)...], NEEDS, BREAKS,
DEMO (body of demo.py; `rt` is the loaded clrt module, fail by assertion) or
DEMO_SH (a whole shell script)."""
import json, os, re, shutil, subprocess, sys, time
V = '/verif'
STABLE = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', []) if isinstance(json.load(open('/opt/vp/BASELINE.json')), dict) else [])

def sh(c, **k):
    return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)

def restore():
    subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])

HEAD = '''import os, sys, struct, ctypes as C
os.environ['OCLGRIND_PCH_DIR'] = os.path.join(os.path.dirname(sys.argv[1]), 'include/oclgrind')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import clrt as rt
rt.load(sys.argv[1])

'''
SH = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1
exec timeout 200 python3 "$(dirname "$0")/demo.py" "$PWD/_build/liboclgrind-rt.so"
'''

def demo(d):
    return sh(['bash', d + '/demo.sh'], cwd='/repo', timeout=300)

def plant(spec):
    ns = {}
    exec(open(spec).read(), ns)
    ID = ns['ID']
    d = '%s/seeded/%s' % (V, ID)
    restore()
    if sh(['bash', '/opt/vp/build.sh']).returncode:
        print('clean build failed'); return
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    if 'DEMO' in ns:
        open(d + '/demo.py', 'w').write(HEAD + ns['DEMO'])
        shutil.copy(V + '/lib/clrt.py', d)
        open(d + '/demo.sh', 'w').write(SH)
    else:
        open(d + '/demo.sh', 'w').write(ns['DEMO_SH'])
    for n, t in ns.get('FILES', {}).items():
        open(d + '/' + n, 'w').write(t)
    json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']},
              open(d + '/meta.json', 'w'), indent=1)
    ok = True
    r = demo(d)
    if r.returncode:
        print(ID, 'DEMO FAILS ON CLEAN:\n', r.stdout.decode()[-2500:]); ok = False
    if ok:
        try:
            for e in ns['EDITS']:
                f, a, b = e[0], e[-2], e[-1]
                p = '/repo/' + f
                t = open(p).read()
                at = t.find(e[1]) if len(e) == 4 else 0
                if at < 0 or a not in t[at:] or (len(e) == 3 and t.count(a) != 1):
                    print(ID, 'edit text found %d times in %s: %r' % (t.count(a), f, a)); ok = False; break
                t2 = t[:at] + t[at:].replace(a, b, 1)
                open(p, 'w').write(t2)
            if ok:
                diff = sh(['git', '-C', '/repo', 'diff']).stdout.decode()
                open(d + '/patch.diff', 'w').write(diff)
                cur = None
                n0 = 0
                orig = 0
                for l in diff.split('\n'):
                    m = re.match(r'^--- a/(.*)', l)
                    if m:
                        cur = m.group(1); continue
                    m = re.match(r'^@@ -(\d+)', l)
                    if m:
                        n0 = int(m.group(1)); continue
                    if l.startswith('-') and not l.startswith('---'):
                        bl = sh(['git', '-C', '/repo', 'blame', '-s', '-L', '%d,%d' % (n0, n0), 'HEAD', '--', cur]).stdout.decode()
                        if '1fd1d68' in bl[:12]:
                            orig += 1
                        else:
                            print(ID, 'NOT ORIGINAL:', bl.strip())
                        n0 += 1
                    elif l.startswith(' '):
                        n0 += 1
                if not orig:
                    print(ID, 'WARNING: no original line changed')
                r = sh(['bash', '/opt/vp/test.sh', '/tmp/plant_out.json'])
                res = json.load(open('/tmp/plant_out.json'))
                if res['failed'] or len(res['passed']) < 97:
                    print(ID, 'TESTS: %d passed, failed %s' % (len(res['passed']), res['failed'])); ok = False
            if ok:
                r = demo(d)
                if not r.returncode:
                    print(ID, 'DEMO PASSES WITH PATCH:', r.stdout.decode()[-800:]); ok = False
                else:
                    print(ID, 'demo ->', r.stdout.decode().strip().split('\n')[-1][:200])
            if ok:
                for c in [ns['PROP']] + ns.get('ALSO', []):
                    t = time.time()
                    env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick')
                    r = sh(['python3', 'run.py', c], cwd=V, env=env)
                    o = r.stdout.decode()
                    v = [l for l in o.split('\n') if 'VIOLATION' in l]
                    print(ID, c, 'CAUGHT' if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode, '%.1fs' % (time.time() - t), v[:1])
        finally:
            restore()
    if not ok:
        shutil.move(d, '/tmp/plants/failed_' + ID) if not os.path.exists('/tmp/plants/failed_' + ID) else shutil.rmtree(d)

for s in sys.argv[1:]:
    try:
        plant(s)
    finally:
        restore()
sh(['bash', '/opt/vp/build.sh'])
sh(['python3', V + '/lib/build.py'])
