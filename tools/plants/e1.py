ID='c27-external-plugin-thread-safety'
PROP='C27'
EDITS=[('src/core/Context.cpp','    if (!p.first->isThreadSafe())\n      return false;','    if (p.second && !p.first->isThreadSafe())\n      return false;')]
NEEDS='an external plugin that declares itself not thread safe, several worker threads and work-groups'
BREAKS='its callbacks are called by several threads at a time'
PLUG=r'''
#include "core/common.h"
#include "core/Context.h"
#include "core/Plugin.h"
#include "core/WorkGroup.h"
#include <cstdio>
#include <cstdlib>
#include <mutex>
#include <set>
#include <unistd.h>
using namespace oclgrind;
static std::mutex m;
static std::set<int> tids;
static int hostLoads;
struct P : Plugin
{
  P(const Context *c) : Plugin(c) {}
  bool isThreadSafe() const override { return false; }
  void workGroupBegin(const WorkGroup *) override
  {
    usleep(2000);
    std::lock_guard<std::mutex> l(m);
    tids.insert(gettid());
  }
  void hostMemoryLoad(const Memory *, size_t, size_t size) override { hostLoads += size; }
};
static P *p;
extern "C" void initializePlugins(Context *c) { p = new P(c); c->registerPlugin(p); }
extern "C" void releasePlugins(Context *c) { c->unregisterPlugin(p); delete p; }
extern "C" int threads() { return tids.size(); }
extern "C" int loaded() { return hostLoads; }
'''
FILES={'plug.cpp': PLUG}
PRE=r'''
import os, subprocess, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
T = tempfile.mkdtemp()
subprocess.check_call(['g++', '-std=c++17', '-O1', '-w', '-fno-rtti', '-fPIC', '-shared', '-o', T + '/plug.so', HERE + '/plug.cpp',
                       '-Isrc', '-I_build', '-I/usr/lib/llvm-20/include',
                       '-L_build', '-loclgrind', '-Wl,-rpath,' + os.getcwd() + '/_build'])
import atexit, shutil
atexit.register(shutil.rmtree, T)
os.environ['OCLGRIND_PLUGINS'] = T + '/plug.so'
os.environ['OCLGRIND_NUM_THREADS'] = '8'
'''
DEMO=PRE+r'''
SRC = "kernel void k(global int *a) { a[get_global_id(0)] = 1; }"
with rt.Ctx() as c:
    lib = C.CDLL(T + '/plug.so')
    a = c.buffer(400, bytes(400))
    k = c.kernel(c.program(SRC), 'k')
    c.setargs(k, [('m', a)])
    c.ndrange(k, [100], [1])
    n = lib.threads()
assert n == 1, n
'''
