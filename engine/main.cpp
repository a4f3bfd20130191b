#include "exec.h"
#include <cstdio>
#include <cstdlib>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <pthread.h>
#include <sys/mman.h>

using namespace sx;

struct Args { std::string bc; Options o; int rc; };

static void *go(void *p) {
  Args *a = (Args *)p;
  llvm::LLVMContext C;
  llvm::SMDiagnostic err;
  auto m = llvm::parseIRFile(a->bc, err, C);
  if (!m) { err.print("symx", llvm::errs()); a->rc = 3; return nullptr; }
  auto *e = new Engine(std::move(m), a->o); // not destroyed: process exits
  a->rc = e->run();
  fflush(nullptr);
  _Exit(a->rc);
}

int main(int argc, char **argv) {
  Args a;
  a.rc = 3;
  for (int i = 1; i < argc; i++) {
    std::string x = argv[i];
    auto nx = [&]() -> std::string { if (i + 1 >= argc) { fprintf(stderr, "missing argument\n"); exit(3); } return argv[++i]; };
    if (x == "--entry") a.o.entry = nx();
    else if (x == "--out") a.o.outDir = nx();
    else if (x == "--repo") a.o.repoPrefix = nx();
    else if (x == "--param") { std::string s = nx(); size_t p = s.find('='); a.o.params[s.substr(0, p)] = atol(s.c_str() + p + 1); }
    else if (x == "--max-time") a.o.maxTime = atof(nx().c_str());
    else if (x == "--max-steps") a.o.maxSteps = strtoull(nx().c_str(), nullptr, 10);
    else if (x == "--max-paths") a.o.maxPaths = strtoull(nx().c_str(), nullptr, 10);
    else if (x == "--solver-timeout") a.o.solverTimeout = (unsigned)atoi(nx().c_str());
    else if (x == "--preempt") a.o.preemptBound = atoi(nx().c_str());
    else if (x == "--samples") a.o.samples = atoi(nx().c_str());
    else if (x == "--max-violations") a.o.maxViolations = atoi(nx().c_str());
    else if (x == "--merge") a.o.mergeMode = atoi(nx().c_str());
    else if (x == "--no-uninit") a.o.checkUninit = false;
    else if (x == "--seed") a.o.seed = strtoull(nx().c_str(), nullptr, 10);
    else if (x == "-v") a.o.verbose = true;
    else a.bc = x;
  }
  if (a.o.outDir.empty()) a.o.outDir = ".";
  size_t sz = 8ull << 30;
  void *stk = mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_STACK, -1, 0);
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstack(&at, stk, sz);
  pthread_t t;
  if (pthread_create(&t, &at, go, &a)) { perror("pthread_create"); return 3; }
  pthread_join(t, nullptr);
  return a.rc;
}
