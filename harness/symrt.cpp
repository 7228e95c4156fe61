// Native replay runtime: feeds a trace to a harness linked with the real sources.
#include "symrt.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <sstream>
#include <fstream>
#include <exception>
#include <csignal>
#include <unistd.h>
using std::string;
static std::map<string, string> vals;
static std::map<string, int> params, cnt;
struct NDraw { string kind, a, b; };
static std::vector<NDraw> draws;
static std::set<string> failed;
static std::map<string, int> okc;
static bool abortSet = false, abortOk = false; static string abortId = "no-abort";
static string entry;
int sym_seed = 1;
typedef void (*fn)();
static std::map<string, fn> &regs() { static std::map<string, fn> r; return r; }
SymReg::SymReg(const char *n, fn f) { regs()[n] = f; }
static string uniq(const char *n) { int k = cnt[n]++; return k ? string(n) + "#" + std::to_string(k) : n; }
static void finish(int code) {
  for (auto &f : failed) printf("CHECK-FAIL %s\n", f.c_str());
  printf("REPLAY-END %d checks %zu\n", code, okc.size());
  fflush(stdout); _exit(failed.empty() ? code : 10);
}
static bool find(const string &n, string &v) { auto i = vals.find(n); if (i == vals.end()) return false; v = i->second; return true; }
double sym_grp_real(unsigned id) { return ((id * 40503u + 12345u * sym_seed) % 65521u + 0.5) / 65521.0; }
static double pdbl(const string &v) { if (!v.empty() && v[0] == 'g') return sym_grp_real(atoi(v.c_str() + 1)); return strtod(v.c_str(), nullptr); }
extern "C" {
int sym_int(const char *n, int lo, int hi) { string v; int x = find(uniq(n), v) ? atoi(v.c_str()) : lo; return x; }
int sym_pick(const char *n, int lo, int hi) { return sym_int(n, lo, hi); }
int sym_conc(int v) { return v; }
unsigned long sym_ulong(const char *n) { string v; return find(uniq(n), v) ? strtoul(v.c_str(), nullptr, 10) : 0; }
bool sym_bool(const char *n) { string v; return find(uniq(n), v) ? atoi(v.c_str()) != 0 : false; }
double sym_double(const char *n) { string v; return find(uniq(n), v) ? pdbl(v) : 0.0; }
int sym_param(const char *n, int d) { auto i = params.find(n); return i == params.end() ? d : i->second; }
void sym_assume(bool c) { if (!c) { printf("ASSUME-FAIL\n"); finish(0); } }
void sym_check(bool c, const char *id) { okc[id]++; if (!c) failed.insert(id); }
void sym_reach(const char *id) { printf("REACH %s\n", id); }
void sym_observe(const char *n, long v) { printf("OBS obs:%s %ld\n", uniq((string("obs:") + n).c_str()).c_str() + 4, v); }
void sym_stop() { finish(0); }
void sym_abort_ok(bool c, const char *id) { abortSet = true; abortOk = c; abortId = id; }
void sym_abort_default() { abortSet = false; abortId = "no-abort"; }
bool sym_is_native() { return true; }
void sym_region(void *p, int es, int n, int zero, int, const char *) { if (zero) memset(p, 0, (size_t)es * n); }
static unsigned long hash(const char *n, int k, const long *a) { unsigned long h = 1469598103934665603ul + sym_seed; for (; *n; n++) h = (h ^ *n) * 1099511628211ul; for (int i = 0; i < k; i++) { h = (h ^ (unsigned long)a[i]) * 1099511628211ul; h ^= h >> 29; } return h; }
unsigned long sym_uf(const char *n, int k, const long *a) { return hash(n, k, a); }
double sym_ufd(const char *n, int k, const long *a) { return 0.25 + (hash(n, k, a) >> 12) / (double)(1ul << 52); }
long sym_dbits(double d) { long r; memcpy(&r, &d, 8); return r; }
double sym_modpart(double d) { return std::fabs(d); }
double sym_phasepart(double d) { return d < 0 ? -1.0 : 1.0; }
bool sym_deq(double a, double b) { return a == b; }
bool sym_lt(double a, double b) { return a < b; }
bool sym_modzero(int s, int m) { return s % m == 0; }
double sym_draw_cmpval(int) { return 0; }
int sym_draw_count() { return draws.size(); }
int sym_draw_kind(int i) { if (i < 0 || i >= (int)draws.size()) return -1; return draws[i].kind == "irn" ? 0 : draws[i].kind == "urn" ? 1 : 2; }
int sym_draw_cmp(int i) { return i >= 0 && i < (int)draws.size() && draws[i].kind == "urn" && draws[i].a != "-1"; }
double sym_draw_urn(int) { return 0; }
int sym_draw_int(int i) { return i >= 0 && i < (int)draws.size() ? atoi(draws[i].b.c_str()) : 0; }
void sym_draw_clear() {}
long sym_size(void *) { return 0; }
}
static unsigned untemper(unsigned y) {
  y ^= y >> 18;
  y ^= (y << 15) & 0xefc60000u;
  unsigned x = y; for (int i = 0; i < 5; i++) x = y ^ ((x << 7) & 0x9d2c5680u); y = x;
  x = y; for (int i = 0; i < 3; i++) x = y ^ (x >> 11);
  return x;
}
void sym_rng_force_raw(std::mt19937 &eng, const unsigned *raws, int n) {
  std::ostringstream os;
  for (int i = 0; i < 624; i++) os << (i < n ? untemper(raws[i]) : untemper(2654435761u * (i + 1 + 977 * sym_seed))) << " ";
  os << 0;
  std::istringstream is(os.str()); is >> eng;
}
static unsigned rawOf(const NDraw &d) {
  if (d.kind == "irn") return strtoul(d.a.c_str(), nullptr, 10);
  if (d.kind == "raw") return (unsigned)strtoll(d.a.c_str(), nullptr, 10);
  if (d.a == "1") return 0x80000000u;
  if (d.a == "0") return 0x7fffffffu;
  double v = pdbl(d.b);
  double r = std::floor((v - 0.5) * 4294967296.0 + 0.5);
  if (r < -2147483648.0) r = -2147483648.0; if (r > 2147483647.0) r = 2147483647.0;
  return (unsigned)(int)r;
}
void sym_rng_force(std::mt19937 &eng) {
  std::vector<unsigned> r; for (auto &d : draws) r.push_back(rawOf(d));
  sym_rng_force_raw(eng, r.data(), r.size());
}
double native_acceptance(std::mt19937 &eng, const std::function<bool()> &run) {
  size_t ci = draws.size(); for (size_t i = 0; i < draws.size(); i++) if (draws[i].kind == "urn" && draws[i].a != "-1") ci = i;
  std::vector<unsigned> r; for (auto &d : draws) r.push_back(rawOf(d));
  if (ci == r.size()) r.push_back(0);
  auto acc = [&](long s) { r[ci] = (unsigned)(int)s; sym_rng_force_raw(eng, r.data(), r.size()); return run(); };
  long lo = -2147483648L, hi = 2147483647L; bool al = acc(lo), ah = acc(hi);
  if (al && ah) return 1; if (!al && !ah) return 0;
  long a = lo, b = hi; while (b - a > 1) { long m = (a + b) / 2; if (acc(m) == al) a = m; else b = m; }
  double u = a / 4294967296.0 + 0.5; acc(al ? lo : hi); // leave the accepted state behind
  return al ? u : 1 - u;
}
static void onsig(int s) { printf("CRASH signal %d\n", s); failed.insert("memory-safety"); finish(11); }
extern "C" const char *__asan_default_options() { return "exitcode=12:detect_leaks=0:handle_segv=1:detect_container_overflow=0"; }
int main(int argc, char **argv) {
  if (argc < 2) return 2;
  std::ifstream f(argv[1]); string line;
  while (std::getline(f, line)) {
    std::istringstream is(line); string k; is >> k;
    if (k == "entry") is >> entry;
    else if (k == "param") { string n; int v; is >> n >> v; params[n] = v; }
    else if (k == "int" || k == "dbl") { string n, v; is >> n >> v; vals[n] = v; }
    else if (k == "draw") { NDraw d; is >> d.kind >> d.a >> d.b; draws.push_back(d); }
  }
  if (getenv("SYMRT_SEED")) sym_seed = atoi(getenv("SYMRT_SEED"));
#ifndef SYM_ASAN
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL}) signal(s, onsig);
#endif
  alarm(60);
  auto it = regs().find(entry);
  if (it == regs().end()) { printf("NO-ENTRY %s\n", entry.c_str()); return 3; }
  try { it->second(); }
  catch (...) {
    printf("THROWN\n");
    if (abortSet) sym_check(abortOk, abortId.c_str()); else sym_check(false, "no-abort");
    finish(0);
  }
  finish(0);
}
// the log is not under test: messages are dropped unless the real logger is linked in
extern "C" {
__attribute__((weak)) void *_ZN6Logger11getInstanceEv() { static double room[128]; return room; }
__attribute__((weak)) void _ZN6Logger5printEjRKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEiS7_(void *, unsigned, const string &, int, const string &) {}
__attribute__((weak)) void _ZN6Logger9configureERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEES7_NS_11loggerConf_Eii(void *, const string &, const string &, int, int, int) {}
}
