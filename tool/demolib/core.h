// Small harness over liboclgrind's own classes (used by a demonstration).
#include "config.h"
#include "core/common.h"
#include "core/Context.h"
#include "core/Kernel.h"
#include "core/KernelInvocation.h"
#include "core/Memory.h"
#include "core/Plugin.h"
#include "core/Program.h"
#include "core/WorkGroup.h"
#include "core/WorkItem.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <string>
#include <vector>
#include "llvm/IR/Instruction.h"
using namespace oclgrind;

static Program* build(Context& c, const char* src, const char* opts = "")
{
  Program* p = new Program(&c, src);
  if (!p->build(Program::BUILD, opts))
  {
    std::cerr << p->getBuildLog() << std::endl;
    exit(77);
  }
  return p;
}
static void setGlobal(Kernel* k, unsigned i, size_t addr)
{
  unsigned char* d = new unsigned char[sizeof(size_t)];
  memcpy(d, &addr, sizeof(size_t));
  TypedValue v = {(unsigned)sizeof(size_t), 1, d};
  k->setArgument(i, v);
}
template <typename T> static void setScalar(Kernel* k, unsigned i, T x)
{
  unsigned char* d = new unsigned char[sizeof(T)];
  memcpy(d, &x, sizeof(T));
  TypedValue v = {(unsigned)sizeof(T), 1, d};
  k->setArgument(i, v);
}
static void setLocal(Kernel* k, unsigned i, unsigned size)
{
  TypedValue v = {size, 1, NULL};
  k->setArgument(i, v);
}
static void launch(Context& c, Kernel* k, size_t gx, size_t lx, size_t gy = 1, size_t ly = 1, size_t gz = 1, size_t lz = 1,
                   Size3 off = Size3(0, 0, 0), unsigned dim = 3)
{
  KernelInvocation::run(&c, k, dim, off, Size3(gx, gy, gz), Size3(lx, ly, lz));
}
#define EXPECT(x)                                                              \
  do                                                                           \
    if (!(x))                                                                  \
    {                                                                          \
      std::cerr << "FAILED line " << __LINE__ << ": " #x << std::endl;         \
      exit(1);                                                                 \
    }                                                                          \
  while (0)
