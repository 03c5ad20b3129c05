// Native implementation of the contract language: runs the same contract functions on the
// real compiled code, with inputs read from a replay file or drawn from a seeded generator.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <csetjmp>
#include <csignal>
#include <string>
#include <vector>
#include <map>
#include <unistd.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <cstdint>
extern "C" {
struct vs_entry { const char* name; void (*fn)(); vs_entry* next; };
vs_entry* vs_entries;
void __asan_set_death_callback(void (*)(void)) __attribute__((weak));
}
static jmp_buf env_;
static std::vector<std::pair<std::string, double>> inputs;
static std::map<std::string, std::vector<double>> replay;
static std::map<std::string, size_t> used;
static std::vector<double> hints; static std::vector<long> ihints;
static bool replaying, allow_throw_; static long checks_, nassume;
static std::string fail_; static const char* cur_ = "";
static uint64_t rs;
static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ULL; }
static double u01() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }
static int style;
static void dump(const char* verdict) {
  printf("%s entry=%s obligation=%s\n", verdict, cur_, fail_.c_str());
  for (auto& p : inputs) printf("INPUT %s %.17g\n", p.first.c_str(), p.second);
  fflush(stdout);
}
static void on_death() { if (fail_.empty()) fail_ = "sanitizer-report"; dump("FAIL"); }
static void on_alarm(int) { fail_ = "termination (no result within the time limit)"; dump("FAIL"); _exit(1); }
static void on_sig(int s) { fail_ = "signal " + std::to_string(s); dump("FAIL"); _exit(1); }
static bool from_replay(const char* name, double& v) {
  if (!replaying) return false;
  auto it = replay.find(name); if (it == replay.end()) return false;
  size_t& k = used[name]; if (k >= it->second.size()) return false;
  v = it->second[k++]; return true;
}
extern "C" {
double vs_real(const char* name) {
  double v;
  if (!from_replay(name, v)) {
    double r = u01();
    if (!hints.empty() && r < 0.25) v = hints[rnd() % hints.size()];
    else switch (style) {
      case 0: v = (double)(long)(rnd() % 17) - 8; break;                 // small integers, many ties
      case 1: v = ((double)(long)(rnd() % 41) - 20) * 0.25; break;
      case 2: v = (u01() - 0.5) * 20; break;
      case 3: v = (double)(long)(rnd() % 5) - 2; break;
      case 4: v = u01() * 100; break;
      case 5: v = 50 + u01() * 3; break;
      default: v = -(u01() * 40); break;
    }
  }
  inputs.push_back({name, v}); return v;
}
double vs_ghost(const char* name) { return vs_real(name); }
long vs_int(const char* name, long lo, long hi) {
  double d; long v;
  if (from_replay(name, d)) v = (long)d;
  else {
    double r = u01();
    if (!ihints.empty() && r < 0.25) v = ihints[rnd() % ihints.size()];
    else if (hi - lo > 64 && r < 0.8) { long a = lo < -32 ? -32 : lo; v = a + (long)(rnd() % 64); }
    else v = lo + (long)(rnd() % (uint64_t)(hi - lo + 1 > 0 ? hi - lo + 1 : 1000));
  }
  if (v < lo) v = lo; if (v > hi) v = hi;
  inputs.push_back({name, (double)v}); return v;
}
int vs_choose(const char* name, int n) {
  double d; int v;
  if (from_replay(name, d)) v = (int)d; else v = replaying ? n - 1 : (int)(rnd() % n);
  if (v < 0) v = 0; if (v >= n) v = n - 1;
  inputs.push_back({name, (double)v}); return v;
}
long vs_len(const char* name, int lo, int hi, int nathi) {
  double d; long v;
  if (from_replay(name, d)) v = (long)d;
  else {
    double r = u01(); int big = nathi > hi ? nathi : hi;
    if (!ihints.empty() && r < 0.3) { v = ihints[rnd() % ihints.size()] + (long)(rnd() % 5) - 1; if (v > 4 * big + 2000 && v > 5000) v = big; }
    else if (r < 0.6) v = lo + (long)(rnd() % (uint64_t)(hi - lo + 1));
    else v = lo + (long)(rnd() % (uint64_t)(big - lo + 1));
  }
  if (v < lo) v = lo;
  inputs.push_back({name, (double)v}); return v;
}
int vs_native() { return 1; }
void vs_flag(const char*, int) {}
void vs_stop() { longjmp(env_, 1); }
void vs_assume(bool b) { if (!b) longjmp(env_, 1); }
void vs_assume_le(double a, double b) { if (!(a <= b)) longjmp(env_, 1); }
void vs_assume_lt(double a, double b) { if (!(a < b)) longjmp(env_, 1); }
void vs_assume_eq(double a, double b) { if (!(std::fabs(a - b) <= 1e-12 * (1 + std::fabs(a)))) longjmp(env_, 1); }
void vs_assume_ne(double a, double b) { if (!(std::fabs(a - b) > 1e-9)) longjmp(env_, 1); }
static void bad(const char* ob, double a, double b) {
  char t[200]; snprintf(t, 200, "%s (got %.17g, required %.17g)", ob, a, b);
  fail_ = t; longjmp(env_, 2);
}
void vs_check(bool b, const char* ob) { ++checks_; if (!b) bad(ob, 0, 1); }
static double tol(double a, double b) { return 1e-6 * (1 + std::fabs(a) + std::fabs(b)); }
void vs_check_eq(double a, double b, const char* ob) {
  ++checks_;
  if (std::isnan(a) && std::isnan(b)) return;
  if (std::isnan(a) || std::isnan(b)) bad(ob, a, b);
  if (std::isinf(a) || std::isinf(b)) { if (a == b) return; if (std::isinf(a) && std::isinf(b)) bad(ob, a, b); if (std::fabs(a) > 1e12 && std::fabs(b) > 1e12) return; bad(ob, a, b); }
  if (!(std::fabs(a - b) <= tol(a, b))) bad(ob, a, b);
}
void vs_check_bits(double a, double b, const char* ob) {
  ++checks_; if (std::isnan(a) && std::isnan(b)) return; if (!(a == b)) bad(ob, a, b);
}
void vs_check_le(double a, double b, const char* ob) { ++checks_; if (!(a <= b + tol(a, b))) bad(ob, a, b); }
void vs_check_lt(double a, double b, const char* ob) { ++checks_; if (!(a < b + tol(a, b))) bad(ob, a, b); }
void vs_check_ieq(long a, long b, const char* ob) { ++checks_; if (a != b) bad(ob, (double)a, (double)b); }
bool vs_isnan(double a) { return std::isnan(a); }
bool vs_isfinite(double a) { return std::isfinite(a); }
void vs_cover(const char*) {}
void vs_allow_throw() { allow_throw_ = true; }
void vs_throw() { if (allow_throw_) longjmp(env_, 1); fail_ = "no-throw (exception thrown)"; longjmp(env_, 2); }
void vs_assert_fail(const char* e) { fail_ = std::string("assertion ") + e; longjmp(env_, 2); }
}
// returns 0 held, 1 assumed away, 2 failed
static int once(vs_entry* e) {
  inputs.clear(); used.clear(); allow_throw_ = false; fail_.clear(); cur_ = e->name;
  struct itimerval t = {{0, 0}, {5, 0}}; setitimer(ITIMER_REAL, &t, 0);
  int r = setjmp(env_);
  if (r == 0) e->fn();
  t.it_value.tv_sec = 0; setitimer(ITIMER_REAL, &t, 0);
  return r;
}
int main(int argc, char** argv) {
  signal(SIGALRM, on_alarm); signal(SIGSEGV, on_sig); signal(SIGFPE, on_sig); signal(SIGABRT, on_sig);
  if (__asan_set_death_callback) __asan_set_death_callback(on_death);
  struct rlimit rl = {(rlim_t)60, (rlim_t)60}; (void)rl;
  std::string mode = argc > 1 ? argv[1] : "list";
  if (mode == "list") { for (vs_entry* e = vs_entries; e; e = e->next) puts(e->name); return 0; }
  std::string want = argv[2];
  if (mode == "replay") {           // replay ENTRY FILE
    replaying = true; rs = 88172645463325252ULL; style = 0;
    FILE* f = fopen(argv[3], "r"); char k[256]; char v[256];
    while (f && fscanf(f, " INPUT %255s %255s", k, v) == 2) {
      double d; char* sl = strchr(v, '/');
      if (sl) { *sl = 0; d = strtod(v, 0) / strtod(sl + 1, 0); } else d = strtod(v, 0);
      replay[k].push_back(d);
    }
    if (f) fclose(f);
    for (vs_entry* e = vs_entries; e; e = e->next) if (want == e->name) {
      int r = once(e);
      if (r == 2) { dump("FAIL"); return 1; }
      printf("%s entry=%s\n", r == 0 ? "HELD" : "ASSUMED-AWAY", e->name); return 0;
    }
    return 2;
  }
  if (mode == "search") {           // search ENTRY|* SEED SECONDS [HINTFILE]
    rs = 0x9E3779B97F4A7C15ULL ^ (strtoull(argv[3], 0, 10) * 0xD1342543DE82EF95ULL + 1); for (int i = 0; i < 20; ++i) rnd();
    double secs = atof(argv[4]);
    if (argc > 5) { FILE* f = fopen(argv[5], "r"); double d; while (f && fscanf(f, "%lf", &d) == 1) { if (std::fabs(d) < 1e6) hints.push_back(d); if (d == std::floor(d) && d >= 0 && d < 200000) ihints.push_back((long)d); } if (f) fclose(f); }
    std::vector<vs_entry*> es; for (vs_entry* e = vs_entries; e; e = e->next) if (want == "*" || want == e->name) es.push_back(e);
    struct timeval t0, t1; gettimeofday(&t0, 0); long n = 0, held = 0;
    for (;;) {
      for (auto* e : es) {
        style = (int)(rnd() % 7);
        int r = once(e); ++n; if (r == 0) ++held;
        if (r == 2) { dump("FAIL"); printf("RUNS %ld\n", n); return 1; }
      }
      gettimeofday(&t1, 0);
      if ((t1.tv_sec - t0.tv_sec) + 1e-6 * (t1.tv_usec - t0.tv_usec) > secs) break;
    }
    printf("HELD runs=%ld nontrivial=%ld\n", n, held); return 0;
  }
  return 2;
}
