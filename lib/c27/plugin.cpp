// Dynamic plugin that writes down every event it is told of.
#include "core/common.h"
#include "core/Context.h"
#include "core/Kernel.h"
#include "core/KernelInvocation.h"
#include "core/Memory.h"
#include "core/Plugin.h"
#include "core/WorkGroup.h"
#include "core/WorkItem.h"
#include "llvm/IR/Instruction.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <mutex>
#include <string>
#include <unistd.h>

using namespace oclgrind;

static std::mutex m;
static FILE *out;
static int tags;

extern "C" void trace_open(const char *path) { out = fopen(path, "w"); tags = 0; }
extern "C" void trace_close() { if (out) fclose(out); out = nullptr; }
extern "C" void trace_mark(const char *text)
{
  std::lock_guard<std::mutex> l(m);
  if (out) fprintf(out, "MARK %s\n", text);
}

static std::string hex(const uint8_t *d, size_t n)
{
  static const char digits[] = "0123456789abcdef";
  std::string s = "x";
  for (size_t i = 0; d && i < n; i++)
  {
    s += digits[d[i] >> 4];
    s += digits[d[i] & 15];
  }
  return s;
}

static const char *opname(AtomicOp op)
{
  switch (op)
  {
  case AtomicAdd: return "add";
  case AtomicAnd: return "and";
  case AtomicCmpXchg: return "cmpxchg";
  case AtomicDec: return "dec";
  case AtomicInc: return "inc";
  case AtomicMax: return "max";
  case AtomicMin: return "min";
  case AtomicOr: return "or";
  case AtomicSub: return "sub";
  case AtomicXchg: return "xchg";
  case AtomicXor: return "xor";
  default: return "?";
  }
}

class Trace : public Plugin
{
public:
  int tag;
  Trace(const Context *c) : Plugin(c) { tag = tags++; }

  void p(const std::string &s)
  {
    std::lock_guard<std::mutex> l(m);
    if (out) fprintf(out, "%d %d %s\n", tag, (int)gettid(), s.c_str());
  }
  static std::string n(size_t v) { return " " + std::to_string(v); }
  static std::string z(Size3 s) { return n(s.x) + n(s.y) + n(s.z); }
  static std::string w(const WorkItem *i) { return z(i->getGlobalID()); }
  static std::string g(const WorkGroup *i) { return z(i->getGroupID()); }
  static std::string a(const Memory *mem, size_t addr, size_t size) { return n(mem->getAddressSpace()) + n(addr) + n(size); }

  bool isThreadSafe() const override { return getenv("C27_SAFE") != nullptr; }

  void hostMemoryLoad(const Memory *mem, size_t addr, size_t size) override { p("HL" + a(mem, addr, size)); }
  void hostMemoryStore(const Memory *mem, size_t addr, size_t size, const uint8_t *d) override
  {
    p("HS" + a(mem, addr, size) + " " + hex(d, size));
  }
  void instructionExecuted(const WorkItem *i, const llvm::Instruction *in, const TypedValue &) override
  {
    p("I" + w(i) + " " + in->getOpcodeName());
  }
  void kernelBegin(const KernelInvocation *k) override
  {
    p("KB" + z(k->getGlobalSize()) + z(k->getLocalSize()) + z(k->getGlobalOffset()) + z(k->getNumGroups()) + n(k->getWorkDim()) + " " +
      k->getKernel()->getName());
  }
  void kernelEnd(const KernelInvocation *k) override { p("KE " + k->getKernel()->getName()); }
  void log(MessageType t, const char *text) override
  {
    std::string s(text);
    while (!s.empty() && s[0] == '\n') s = s.substr(1);
    s = s.substr(0, s.find('\n'));
    p(std::string("LOG ") + (t == ERROR ? "error" : t == WARNING ? "warning" : "info") + " " + s);
  }
  void memoryAllocated(const Memory *mem, size_t addr, size_t size, cl_mem_flags f, const uint8_t *) override { p("A" + a(mem, addr, size) + n(f)); }
  void memoryDeallocated(const Memory *mem, size_t addr) override { p("D" + a(mem, addr, 0)); }
  void memoryAtomicLoad(const Memory *mem, const WorkItem *i, AtomicOp op, size_t addr, size_t size) override
  {
    p("XL" + w(i) + a(mem, addr, size) + " " + opname(op));
  }
  void memoryAtomicStore(const Memory *mem, const WorkItem *i, AtomicOp op, size_t addr, size_t size) override
  {
    p("XS" + w(i) + a(mem, addr, size) + " " + opname(op));
  }
  void memoryLoad(const Memory *mem, const WorkItem *i, size_t addr, size_t size) override { p("L" + w(i) + a(mem, addr, size)); }
  void memoryLoad(const Memory *mem, const WorkGroup *i, size_t addr, size_t size) override { p("GL" + g(i) + a(mem, addr, size)); }
  void memoryMap(const Memory *mem, size_t addr, size_t off, size_t size, cl_map_flags f) override { p("M" + a(mem, addr + off, size) + n(f)); }
  void memoryStore(const Memory *mem, const WorkItem *i, size_t addr, size_t size, const uint8_t *d) override
  {
    p("S" + w(i) + a(mem, addr, size) + " " + hex(d, size));
  }
  void memoryStore(const Memory *mem, const WorkGroup *i, size_t addr, size_t size, const uint8_t *d) override
  {
    p("GS" + g(i) + a(mem, addr, size) + " " + hex(d, size));
  }
  void memoryUnmap(const Memory *mem, size_t addr, const void *ptr) override { p("U" + a(mem, addr, 0) + n((size_t)ptr)); }
  void workGroupBarrier(const WorkGroup *i, uint32_t f) override { p("GR" + g(i) + n(f)); }
  void workGroupBegin(const WorkGroup *i) override { p("GB" + g(i) + n(i->getGroupIndex()) + z(i->getGroupSize())); }
  void workGroupComplete(const WorkGroup *i) override { p("GC" + g(i)); }
  void workItemBegin(const WorkItem *i) override { p("IB" + w(i) + z(i->getLocalID()) + g(i->getWorkGroup())); }
  void workItemComplete(const WorkItem *i) override { p("IC" + w(i)); }
};

static std::multimap<Context *, Trace *> traces;

extern "C" void initializePlugins(Context *c)
{
  Trace *t = new Trace(c);
  traces.insert({c, t});
  c->registerPlugin(t);
}

extern "C" void releasePlugins(Context *c)
{
  auto i = traces.find(c);
  if (i == traces.end()) return;
  c->unregisterPlugin(i->second);
  delete i->second;
  traces.erase(i);
}
