// Native replay runtime: feeds recorded inputs to a harness entry point.
//   prog ENTRY FILE      FILE: one value per line, in call order; '#' starts a comment
// Exit: 0 path finished, 10 check failed, 11 assumption false, 12 inputs exhausted,
// 13 uncaught exception, 14 leak, 15 exit() called, 20 expected abort, anything else: signal or sanitizer.
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <dlfcn.h>
#include <exception>
#include <unistd.h>
#include <vector>
#include <string>
static std::vector<unsigned long long> in; static size_t pos; static int expectAbort;
static FILE* obsF;
static unsigned long long nextIn() { if (pos >= in.size()) { fprintf(stderr, "REPLAY inputs exhausted\n"); _exit(12); } return in[pos++]; }
static void onAbort(int) { if (expectAbort) { if (obsF) fflush(obsF); _exit(20); } signal(SIGABRT, SIG_DFL); raise(SIGABRT); }
extern "C" {
uint64_t sx_u64(const char*) { return nextIn(); }
uint32_t sx_u32(const char*) { return (uint32_t)nextIn(); }
uint16_t sx_u16(const char*) { return (uint16_t)nextIn(); }
uint8_t sx_u8(const char*) { return (uint8_t)nextIn(); }
uint64_t sx_range(const char*, uint64_t, uint64_t) { return nextIn(); }
void sx_assume(bool b) { if (!b) { fprintf(stderr, "REPLAY assumption false\n"); _exit(11); } }
void sx_check(bool b, const char* m) { if (!b) { fprintf(stderr, "REPLAY check failed: %s\n", m); if (obsF) fflush(obsF); _exit(10); } }
void sx_fail(const char* m) { fprintf(stderr, "REPLAY check failed: %s\n", m); _exit(10); }
void sx_reach(const char*) {}
uint64_t sx_conc(uint64_t x) { return x; }
void sx_obs(uint64_t x) { if (obsF) fprintf(obsF, "%llu\n", (unsigned long long)x); }
void sx_expect_abort(int v) { expectAbort = v; }
int sx_symbolic() { return 0; }
int sx_is_symbolic(uint64_t) { return 0; }
void sx_stop() { if (obsF) fflush(obsF); _exit(0); }
void sx_dump(const char* n, uint64_t v) { fprintf(stderr, "%s=%llu\n", n, (unsigned long long)v); }
}
int main(int argc, char** argv) {
  if (argc < 3) { fprintf(stderr, "usage: %s ENTRY INPUTS\n", argv[0]); return 2; }
  FILE* f = fopen(argv[2], "r"); char line[512];
  if (!f) { perror(argv[2]); return 2; }
  while (fgets(line, sizeof line, f)) { if (line[0] == '#' || line[0] == '\n') continue; in.push_back(strtoull(line, 0, 0)); }
  fclose(f);
  if (const char* o = getenv("SX_OBS")) obsF = fopen(o, "w");
  signal(SIGABRT, onAbort);
  std::set_terminate([] { fprintf(stderr, "REPLAY uncaught exception or terminate\n"); _exit(13); });
  static bool done; atexit([] { if (!done) _exit(15); }); at_quick_exit([] { _exit(15); });
  void* s = dlsym(RTLD_DEFAULT, argv[1]);
  if (!s) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
  ((void (*)())s)();
  done = true; if (obsF) fclose(obsF);
  return 0;
}
