#!/usr/bin/env python3
"""run.py <property id> [--tier quick|thorough] [--seed N] [--replay FILE] [--case N]"""
import argparse
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VT = '/opt/veriftools/pyvenv/bin/python'
if os.path.exists(VT) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/veriftools/pyvenv'):
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(VT, [VT, os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'checks'))
os.chdir(HERE)
for k in [k for k in os.environ if k.startswith('OCLGRIND')]:
    del os.environ[k]
os.environ['LC_ALL'] = 'C.UTF-8'
os.environ.setdefault('HOME', '/root')

import build  # noqa: E402
import pbt    # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or '1'))
    ap.add_argument('--replay')
    ap.add_argument('--survey', type=int, help='run N cases, do not stop, one example per failure key')
    ap.add_argument('--shrink', type=int, help='shrink case N and print it')
    ap.add_argument('--case', type=int, help='run one generated case in this process, verbosely')
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    try:
        b = build.build()
    except build.BuildFailed as e:
        print('cannot build /repo: %s' % e)
        return 2
    mod = importlib.import_module(a.id.lower())
    check = mod.CHECK
    check.b = b
    check.tier = tier
    check.setup(b)
    if a.replay:
        return pbt.replay_file(check, a.replay)
    if a.survey:
        return pbt.survey(check, a.seed, a.survey)
    if a.shrink is not None:
        r = pbt.Runner(check, tier, a.seed)
        ch = pbt.regen_choices(check, a.seed, a.shrink, r.listed)
        f, used, desc = pbt.replay_choices(check, ch, r.listed, check.case_timeout)
        if f is None:
            print('passes')
            return 0
        print(r.handle((a.shrink, ch, f, desc), 0, a.shrink))
        return 1
    if a.case is not None:
        check.init()
        s = pbt.Src(rng=pbt._rng(a.seed, check.id, a.case),
                    listed=frozenset(k for k, _ in pbt._load_known(check.id)))
        f = pbt.run_case(check, s)
        print(s.desc)
        print('FAIL' if f else 'ok', f[0] if f else '')
        if f:
            print(f[1])
        return 1 if f else 0
    return pbt.Runner(check, tier, a.seed).run()


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
