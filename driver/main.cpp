#include "drv.h"
#include <csignal>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unistd.h>
namespace drv {
const L* g_lg = nullptr;
bool g_guard = false;
std::map<std::string, std::vector<Handler>>& registry() { static std::map<std::string, std::vector<Handler>> r; return r; }
static volatile int g_cur = -1;
static void note(const char* what)
{
  char b[64];
  int n = std::snprintf(b, sizeof b, "CRASH %d %s\n", g_cur, what);
  if(write(1, "\n", 1) < 0 || write(1, b, n) < 0) {}
}
static void on_sig(int s) { note(s == SIGSEGV ? "SIGSEGV" : s == SIGFPE ? "SIGFPE" : s == SIGABRT ? "SIGABRT" : "signal"); _exit(70); }
}
#if defined(__SANITIZE_ADDRESS__)
extern "C" void __asan_set_death_callback(void (*)());
static void on_asan() { drv::note("sanitizer"); }
#endif
int main(int argc, char** argv)
{
  using namespace drv;
  if(argc < 2) return 3;
#if defined(__SANITIZE_ADDRESS__)
  __asan_set_death_callback(on_asan);
#else
  std::signal(SIGSEGV, on_sig); std::signal(SIGBUS, on_sig);
#endif
  std::signal(SIGABRT, on_sig); std::signal(SIGFPE, on_sig); std::signal(SIGILL, on_sig);
  std::ifstream in(argv[1]);
  std::string line;
  int idx = 0;
  while(std::getline(in, line)) {
    std::istringstream ss(line);
    Call c;
    c.idx = idx++;
    ss >> c.op;
    std::string k;
    while(ss >> k) {
      int n; ss >> n;
      L v(n);
      for(auto& x : v) ss >> x;
      c.f[k] = v;
    }
    for(auto& x : c.f)
      if(x.first.rfind("sc_", 0) == 0 && c.f.count(x.first.substr(3))) { c.f[x.first.substr(3)].sc = int(x.second.at(0)); c.scaled = true; }
    g_lg = c.has("lg") ? &c.v("lg") : nullptr;
    g_cur = c.idx;
    auto h = registry().find(c.op);
    if(h == registry().end()) { std::fprintf(stderr, "driver: unknown op %s\n", c.op.c_str()); return 3; }
    Obs o;
    for(auto f : h->second) {
      try { f(c, o); }
      catch(const std::exception& e) { o.err("uncaught", ename(e)); }
    }
    if(g_guard) { g_guard = false; o.err("?", "guard_cell_overwritten"); }
    for(auto& r : o.recs) {
      std::printf("%d|%s|%s|%ld|%s|", c.idx, r.k.c_str(), r.cfg.c_str(), r.n, r.e.c_str());
      for(auto& x : r.v) if(x.n) std::printf("%ld,%ld,%ld ", x.hi, x.lo, x.n); else std::printf("%ld,%ld ", x.hi, x.lo);
      std::printf("\n");
    }
    std::printf("%d.\n", c.idx);
    std::fflush(stdout);
  }
  std::printf("DONE %d\n", idx);
  return 0;
}
