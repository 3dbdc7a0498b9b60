// Native implementation of the harness API: replays one input file against the natively compiled code.
// usage: replay inputs.txt [arg...] ; exit 0 = property held, 10 = rejected input, 1 = property violated (message on stdout)
#include "symx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <string>
#include <vector>
#include <csignal>
#include <unistd.h>
static std::vector<uint64_t> vals;
static std::vector<std::string> names;
static size_t pos = 0;
static std::vector<std::string> args;
static uint64_t obs = 1469598103934665603ull;
static bool verbose = false;
static uint64_t next(const char * what)
{
  if (pos >= vals.size()) { pos++; return 0; }
  return vals[pos++];
}
static void done(int rc)
{
  printf("OBS %016llx\n", (unsigned long long)obs);
  fflush(stdout);
  _exit(rc);
}
extern "C" {
void symx_make(void * p, size_t n, const char * name) { for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = next(name); }
uint64_t symx_var(unsigned bits, const char * name)
{
  uint64_t v = next(name);
  return bits >= 64 ? v : v & ((1ull << bits) - 1);
}
uint64_t symx_choose(uint64_t n, const char * name)
{
  uint64_t v = next(name);
  return n ? v % n : 0;
}
void symx_assume(bool c) { if (!c) { printf("REJECTED\n"); done(10); } }
void symx_assert(bool c, const char * msg) { if (!c) symx_fail(msg); }
void symx_fail(const char * msg) { printf("VIOLATED property: %s\n", msg); fflush(stdout); _exit(1); }
void symx_error(const char * msg) { printf("HARNESS ERROR %s\n", msg); fflush(stdout); _exit(4); }
uint64_t symx_concretize(uint64_t v) { return v; }
int symx_is_symbolic(uint64_t) { return 0; }
void symx_reach(const char *) {}
uint64_t symx_ite(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
void symx_end(void) { done(0); }
void symx_reject(void) { printf("REJECTED\n"); done(10); }
void symx_print(const char * n, uint64_t v) { if (verbose) printf("PRINT %s %llu 0x%llx\n", n, (unsigned long long)v, (unsigned long long)v); }
void symx_observe(uint64_t v) { if (getenv("SYMX_OBS")) fprintf(stderr, "obs %llx\n", (unsigned long long)v); obs = (obs ^ v) * 1099511628211ull; }
int64_t symx_arg(unsigned i) { return i < args.size() ? strtoll(args[i].c_str(), 0, 0) : 0; }
int symx_engine(void) { return 0; }
}
static void onsig(int s)
{
  char b[64];
  int n = snprintf(b, sizeof b, "VIOLATED signal %d\n", s);
  if (write(1, b, n)) {}
  _exit(1);
}
static void onterm()
{
  try { if (std::current_exception()) throw; printf("VIOLATED terminate\n"); }
  catch (std::exception & e) { printf("VIOLATED uncaught exception: %s\n", e.what()); }
  catch (...) { printf("VIOLATED uncaught exception\n"); }
  fflush(stdout);
  _exit(1);
}
int main(int argc, char ** argv)
{
  for (int i = 2; i < argc; i++)
    if (!strcmp(argv[i], "-v")) verbose = true;
    else args.push_back(argv[i]);
  FILE * f = fopen(argv[1], "r");
  if (!f) { perror(argv[1]); return 3; }
  char line[4096], nm[4096]; unsigned w; unsigned long long v;
  while (fgets(line, sizeof line, f))
    if (sscanf(line, "%s %u %llx", nm, &w, &v) == 3) { names.push_back(nm); vals.push_back(v); }
  fclose(f);
  for (int s : { SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL }) signal(s, onsig);
  signal(SIGALRM, onsig);
  alarm(60);
  std::set_terminate(onterm);
  harness_main();
  done(0);
}
