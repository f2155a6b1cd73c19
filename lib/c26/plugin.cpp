// Dynamic plugin that records what it is told.
#include "core/common.h"
#include "core/Context.h"
#include "core/KernelInvocation.h"
#include "core/Plugin.h"
#include "core/WorkGroup.h"
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <chrono>
#include <condition_variable>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <unistd.h>

using namespace oclgrind;

static std::mutex m;
static std::mutex meet;
static bool late;
static std::condition_variable cv;
static std::set<int> tids;
static int anchor;

static void rec(const std::string &text)
{
  Dl_info i;
  dladdr((void *)&anchor, &i);
  std::string name = i.dli_fname;
  name = name.substr(name.rfind('/') + 1);
  std::lock_guard<std::mutex> l(m);
  const char *path = getenv("C26_PLUGOUT");
  FILE *f = fopen(path, "a");
  if (!f) return;
  fprintf(f, "%s %s\n", name.c_str(), text.c_str());
  fclose(f);
}

class Rec : public Plugin
{
public:
  Rec(const Context *c) : Plugin(c) {}
  void kernelBegin(const KernelInvocation *) override 
  {
    rec("begin");
    std::unique_lock<std::mutex> l(meet);
    tids.clear();
    late = false;
  }
  void kernelEnd(const KernelInvocation *) override { rec("end"); }
  void log(MessageType type, const char *) override { rec("log " + std::to_string((int)type)); }
  void workGroupBegin(const WorkGroup *wg) override
  {
    rec("group " + std::to_string(gettid()) + " " + std::to_string(wg->getGroupIndex()));
    // Let as many workers as should exist meet here
    const char *w = getenv("C26_MEET");
    if (!w) return;
    std::unique_lock<std::mutex> l(meet);
    tids.insert(gettid());
    cv.notify_all();
    if (!cv.wait_for(l, std::chrono::seconds(late ? 0 : 8), [&] { return tids.size() >= (size_t)atoi(w); }))
      late = true;
  }
};

static std::multimap<Context *, Rec *> recs;

extern "C" void initializePlugins(Context *c)
{
  rec("init");
  Rec *r = new Rec(c);
  recs.insert({c, r});
  c->registerPlugin(r);
}

extern "C" void releasePlugins(Context *c)
{
  rec("release");
  auto i = recs.find(c);
  if (i == recs.end())
  {
    rec("stray release");
    return;
  }
  c->unregisterPlugin(i->second);
  delete i->second;
  recs.erase(i);
}
