"""Builds /repo's current working tree out of tree, into /verif/build/o."""
import fcntl
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build', 'o'))
LLVM = '/usr/lib/llvm-20'
CLANG = LLVM + '/bin/clang'


class BuildFailed(Exception):
    pass


def _run(cmd, env):
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
    if p.returncode != 0:
        raise BuildFailed('%s failed (%d):\n%s' % (
            ' '.join(cmd), p.returncode, p.stdout.decode('latin1')[-4000:]))


def build(flavour='o'):
    b = BUILD if flavour == 'o' else os.path.join(os.path.dirname(BUILD), flavour)
    os.makedirs(b, exist_ok=True)
    env = {k: v for k, v in os.environ.items()
           if not k.startswith('OCLGRIND') and k not in ('CFLAGS', 'CXXFLAGS', 'LDFLAGS')}
    env.update(CC='gcc', CXX='g++', LC_ALL='C.UTF-8',
               PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
    flags = '-O1 -DNDEBUG -D_GLIBCXX_ASSERTIONS'
    with open(b + '.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        cfg = ['cmake', '-S', REPO, '-B', b, '-G', 'Ninja',
               '-DCMAKE_BUILD_TYPE=Release',
               '-DCMAKE_CXX_FLAGS_RELEASE=' + flags,
               '-DCMAKE_C_FLAGS_RELEASE=' + flags,
               '-DLLVM_DIR=%s/lib/cmake/llvm' % LLVM, '-DCLANG_ROOT=' + LLVM,
               '-DPYTHON_EXECUTABLE=/usr/bin/python3']
        tg = ['ninja', '-C', b, 'oclgrind', 'oclgrind-rt', 'oclgrind-exe',
              'oclgrind-kernel', 'OPENCL_C_HEADERS']
        try:
            if not os.path.exists(b + '/build.ninja'):
                _run(cfg, env)
            _run(tg, env)
        except BuildFailed:
            # A stale or half-written build tree: start again once.
            if os.path.exists(b + '/CMakeCache.txt'):
                os.unlink(b + '/CMakeCache.txt')
            _run(cfg, env)
            _run(tg, env)
    os.environ['OCLGRIND_PCH_DIR'] = b + '/include/oclgrind'
    return b


if __name__ == '__main__':
    try:
        print(build(*(sys.argv[1:])))
    except BuildFailed as e:
        print(e)
        sys.exit(2)
