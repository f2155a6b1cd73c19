/* Application run by the launcher.  It is linked against an empty OpenCL
   library (stub.c), whose functions all fail: the calls reach the runtime
   under test only if the launcher preloaded it. */
#define _GNU_SOURCE
#include <signal.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

typedef int32_t i32;
typedef uint32_t u32;
typedef uint64_t u64;
typedef void *P;
extern i32 clGetPlatformIDs(u32, P *, u32 *);
extern i32 clGetDeviceIDs(P, u64, u32, P *, u32 *);
extern i32 clGetDeviceInfo(P, u32, size_t, void *, size_t *);
extern P clCreateContext(const intptr_t *, u32, const P *, void *, void *, i32 *);
extern i32 clReleaseContext(P);
extern P clCreateCommandQueue(P, P, u64, i32 *);
extern i32 clReleaseCommandQueue(P);
extern P clCreateBuffer(P, u64, size_t, void *, i32 *);
extern i32 clReleaseMemObject(P);
extern P clCreateProgramWithSource(P, u32, const char **, const size_t *, i32 *);
extern i32 clReleaseProgram(P);
extern i32 clBuildProgram(P, u32, const P *, const char *, void *, void *);
extern i32 clGetProgramBuildInfo(P, P, u32, size_t, void *, size_t *);
extern P clCreateKernel(P, const char *, i32 *);
extern i32 clReleaseKernel(P);
extern i32 clSetKernelArg(P, u32, size_t, const void *);
extern i32 clEnqueueNDRangeKernel(P, P, u32, const size_t *, const size_t *, const size_t *, u32, const P *, P *);
extern i32 clEnqueueReadBuffer(P, P, u32, size_t, size_t, void *, u32, const P *, P *);
extern i32 clEnqueueWriteBuffer(P, P, u32, size_t, size_t, const void *, u32, const P *, P *);
extern i32 clFinish(P);
extern char **environ;

static const char *SRC =
  "#ifdef FAIL\n#error requested\n#endif\n"
  "#ifndef BO\n#define BO -1\n#endif\n"
  "#ifndef HO\n#define HO -1\n#endif\n"
  "kernel void probe(global int *p) { p[0] = BO; p[1] = HO; p[2] = __OPENCL_C_VERSION__; }\n"
  "kernel void errs(global int *p, int size, int n) { for (int i = 0; i < n; i++) p[size + i] = 1; }\n"
  "kernel void groups(global int *p) { p[get_global_id(0)] = 1; }\n"
  "kernel void loc(global int *p, local int *l) { l[0] = 1; p[0] = l[0]; }\n"
  "kernel void con(global int *p, constant int *c) { p[0] = c[0]; }\n"
  "kernel void uninit(global int *p, int n) { for (int i = 0; i < n; i++) if (p[1] > 3) p[0] = i; }\n"
  "kernel void race(global int *p) { p[0] = get_global_id(0); }\n"
  "kernel void uniform(global int *p) { p[0] = 7; }\n"
  "kernel void say(int n) { printf(\"kernel says %d\\n\", n); }\n";

static P plat, dev, ctx, queue, prog;
static FILE *out;

static u64 info(u32 what)
{
  u64 v[4] = {0};
  size_t sz = 0;
  i32 e = clGetDeviceInfo(dev, what, sizeof v, v, &sz);
  if (e) return (u64)(int64_t)e;
  return sz == 4 ? (u32)v[0] : v[0];
}

static void newctx(void)
{
  i32 e = 0;
  ctx = clCreateContext(NULL, 1, &dev, NULL, NULL, &e);
  queue = clCreateCommandQueue(ctx, dev, 0, &e);
  prog = NULL;
}

static void needprog(void)
{
  i32 e;
  if (prog) return;
  prog = clCreateProgramWithSource(ctx, 1, &SRC, NULL, &e);
  e = clBuildProgram(prog, 0, NULL, "", NULL, NULL);
  fprintf(out, "autobuild %d\n", e);
  if (e)
  {
    clReleaseProgram(prog);
    prog = NULL;
  }
}

static P buf(size_t n, i32 *e)
{
  P b = clCreateBuffer(ctx, 1, n, NULL, e);
  if (b)
  {
    char *z = calloc(1, n);
    clEnqueueWriteBuffer(queue, b, 1, 0, n, z, 0, NULL, NULL);
    free(z);
  }
  return b;
}

static i32 run(P k, size_t gx, size_t lx)
{
  i32 e = clEnqueueNDRangeKernel(queue, k, 1, NULL, &gx, lx ? &lx : NULL, 0, NULL, NULL);
  if (!e) e = clFinish(queue);
  return e;
}

int main(int argc, char **argv)
{
  char line[4096];
  int code = 0;
  FILE *ops = fopen(getenv("C26_OPS"), "r");
  out = fopen(getenv("C26_OUT"), "w");
  setvbuf(out, NULL, _IONBF, 0);
  for (int i = 0; i < argc; i++)
  {
    fprintf(out, "arg ");
    for (const char *c = argv[i]; *c; c++) fprintf(out, "%02x", (unsigned char)*c);
    fprintf(out, "\n");
  }
  for (char **e = environ; *e; e++)
  {
    fprintf(out, "env ");
    for (const char *c = *e; *c; c++) fprintf(out, "%02x", (unsigned char)*c);
    fprintf(out, "\n");
  }
  if (clGetPlatformIDs(1, &plat, NULL) == -1001)
  {
    fprintf(out, "nopreload\n");
    return 99;
  }
  clGetDeviceIDs(plat, 0xFFFFFFFF, 1, &dev, NULL);
  newctx();
  while (fgets(line, sizeof line, ops))
  {
    i32 e = 0;
    long a = 0, b = 0;
    char op[32];
    line[strcspn(line, "\n")] = 0;
    sscanf(line, "%31s %ld %ld", op, &a, &b);
    fprintf(out, "op %s\n", line);
    if (!strcmp(op, "info"))
      fprintf(out, "info %llu %llu %llu %llu %llu %llu %llu %llu\n", (unsigned long long)info(0x1002), (unsigned long long)info(0x101F),
              (unsigned long long)info(0x1010), (unsigned long long)info(0x1020), (unsigned long long)info(0x1023),
              (unsigned long long)info(0x1004), (unsigned long long)info(0x1005), (unsigned long long)info(0x1003));
    else if (!strcmp(op, "alloc"))
    {
      P m = clCreateBuffer(ctx, 1, a, NULL, &e);
      fprintf(out, "alloc %d\n", e);
      if (m) clReleaseMemObject(m);
    }
    else if (!strcmp(op, "build"))
    {
      int v[3] = {-7, -7, -7};
      const char *o = line + 6;
      if (prog) clReleaseProgram(prog);
      prog = clCreateProgramWithSource(ctx, 1, &SRC, NULL, &e);
      e = clBuildProgram(prog, 0, NULL, o, NULL, NULL);
      if (!e)
      {
        P m = buf(12, &e), k = clCreateKernel(prog, "probe", &e);
        clSetKernelArg(k, 0, sizeof m, &m);
        e = run(k, 1, 1);
        clEnqueueReadBuffer(queue, m, 1, 0, 12, v, 0, NULL, NULL);
        clReleaseKernel(k);
        clReleaseMemObject(m);
      }
      char *log = calloc(1, 65536);
      clGetProgramBuildInfo(prog, dev, 0x1183, 65536, log, NULL);
      fprintf(out, "log ");
      for (char *c = log; *c; c++) fprintf(out, "%02x", (unsigned char)*c);
      fprintf(out, "\n");
      free(log);
      if (e)
      {
        clReleaseProgram(prog);
        prog = NULL;
      }
      fprintf(out, "build %d %d %d %d\n", e, v[0], v[1], v[2]);
    }
    else if (!strcmp(op, "errs"))
    {
      needprog();
      int size = 16, n = a;
      P m = buf(64, &e), k = clCreateKernel(prog, "errs", &e);
      clSetKernelArg(k, 0, sizeof m, &m);
      clSetKernelArg(k, 1, 4, &size);
      clSetKernelArg(k, 2, 4, &n);
      fprintf(out, "errs %d\n", run(k, 1, 1));
      clReleaseKernel(k);
      clReleaseMemObject(m);
    }
    else if (!strcmp(op, "groups"))
    {
      needprog();
      int *v = calloc(a, 4);
      P m = buf(a * 4, &e), k = clCreateKernel(prog, "groups", &e);
      clSetKernelArg(k, 0, sizeof m, &m);
      e = run(k, a, b);
      clEnqueueReadBuffer(queue, m, 1, 0, a * 4, v, 0, NULL, NULL);
      fprintf(out, "groups %d ", e);
      for (int i = 0; i < a; i++) fputc(v[i] ? '1' : '0', out);
      fputc('\n', out);
      clReleaseKernel(k);
      clReleaseMemObject(m);
      free(v);
    }
    else if (!strcmp(op, "local") || !strcmp(op, "constant"))
    {
      needprog();
      int c = op[0] == 'c';
      P m = buf(8, &e), cb = NULL, k = clCreateKernel(prog, c ? "con" : "loc", &e);
      clSetKernelArg(k, 0, sizeof m, &m);
      if (c)
      {
        cb = buf(a, &e);
        clSetKernelArg(k, 1, sizeof cb, &cb);
      }
      else
        clSetKernelArg(k, 1, a, NULL);
      fprintf(out, "%s %d\n", op, run(k, 1, 1));
      clReleaseKernel(k);
      clReleaseMemObject(m);
      if (cb) clReleaseMemObject(cb);
    }
    else if (!strcmp(op, "uninit") || !strcmp(op, "race") || !strcmp(op, "uniform"))
    {
      needprog();
      int un = !strcmp(op, "uninit");
      P m = un ? clCreateBuffer(ctx, 1, 8, NULL, &e) : buf(8, &e), k = clCreateKernel(prog, op, &e);
      int n = a;
      clSetKernelArg(k, 0, sizeof m, &m);
      if (un) clSetKernelArg(k, 1, 4, &n);
      fprintf(out, "%s %d\n", op, run(k, un ? 1 : 2, 1));
      clReleaseKernel(k);
      clReleaseMemObject(m);
    }
    else if (!strcmp(op, "say"))
    {
      needprog();
      int n = a;
      P k = clCreateKernel(prog, "say", &e);
      clSetKernelArg(k, 0, 4, &n);
      fprintf(out, "say %d\n", run(k, 1, 1));
      clReleaseKernel(k);
    }
    else if (!strcmp(op, "api"))
    {
      needprog();
      P k = clCreateKernel(prog, "groups", &e);
      fprintf(out, "api %d\n", clSetKernelArg(k, 99, 4, &a));
      clReleaseKernel(k);
    }
    else if (!strcmp(op, "context"))
    {
      if (a)
      {
        if (prog) clReleaseProgram(prog);
        clReleaseCommandQueue(queue);
        clReleaseContext(ctx);
      }
      newctx();
    }
    else if (!strcmp(op, "meet"))
    {
      sprintf(line, "%ld", a);
      if (a) setenv("C26_MEET", line, 1);
      else unsetenv("C26_MEET");
    }
    else if (!strcmp(op, "text"))
    {
      printf("application says %ld\n", a);
      fflush(stdout);
      fprintf(stderr, "application complains %ld\n", a);
    }
    else if (!strcmp(op, "exit"))
    {
      code = a;
      break;
    }
    else if (!strcmp(op, "kill"))
    {
      fflush(stdout);
      kill(getpid(), a);
    }
  }
  fprintf(out, "done\n");
  return code;
}
