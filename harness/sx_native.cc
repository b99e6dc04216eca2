// Native side of sx.h: replays one assignment found by the solver.
// usage: prog ENTRY VALUES...   (hex)
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <string>
#include <vector>
#include <unistd.h>
static std::vector<uint64_t> vals; static size_t pos; static unsigned shard_;
static long g_live;
extern "C" {
uint64_t sx_var(const char*, unsigned bits) { uint64_t v = pos < vals.size() ? vals[pos] : 0; pos++; return bits >= 64 ? v : v & ((1ull << bits) - 1); }
static void done(int c, const char* w, const char* m) { printf("%s %s\n", w, m); fflush(stdout); _exit(c); }
void sx_assume(bool c) { if (!c) done(43, "ASSUME", "false"); }
void sx_assert_at(bool c, const char* m) { if (!c) done(42, "FAIL", m); }
void sx_fail(const char* m) { done(42, "FAIL", m); }
void sx_observe(uint64_t v) { printf("OBS %llx\n", (unsigned long long)v); }
void sx_note(const char*, uint64_t) {}
void sx_reach(const char* l) { printf("REACH %s\n", l); }
uint64_t sx_concretize(uint64_t v) { return v; }
unsigned sx_shard(unsigned) { return shard_; }
void sx_end() { done(0, "END", ""); }
bool sx_is_symbolic(uint64_t) { return false; }
bool sx_engine() { return false; }
uint64_t sx_live_heap() { return 0; }
void sx_print(const char*, uint64_t) {}
void sx_yield() {}
}
int main(int argc, char** argv) {
  if (argc < 3) return 2;
  std::string e = argv[1]; shard_ = atoi(argv[2]);
  for (int i = 3; i < argc; i++) vals.push_back(strtoull(argv[i], 0, 16));
  auto f = (void (*)())dlsym(RTLD_DEFAULT, e.c_str());
  if (!f) { fprintf(stderr, "no entry\n"); return 2; }
  f();
  printf("END\n");
  return 0;
}
extern "C" uint64_t sx_fmt_g(uint64_t bits, unsigned prec, char* out) { double d; memcpy(&d, &bits, 8); return snprintf(out, 64, "%.*g", (int)prec, d); }
extern "C" double sx_strtod(const char* p, uint64_t n, uint64_t* used) { std::string s(p, n); char* e; double d = strtod(s.c_str(), &e); *used = e - s.c_str(); return d; }
