#include "unit.h"

#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <sys/time.h>
#include <unistd.h>

#include <exception>

namespace unit {

Dfs dfs;
uint32_t Dfs::Choose(uint32_t n) {
  if (n == 0) n = 1;
  if (pos == path.size()) path.push_back({0, n});
  weight /= n;
  uint32_t c = path[pos].first;
  path[pos].second = n;
  pos++;
  return c < n ? c : 0;
}
bool Dfs::Next() {
  path.resize(pos);
  while (!path.empty()) {
    if (++path.back().first < path.back().second) return true;
    path.pop_back();
  }
  return false;
}

Mode randMode = REAL, uniMode = REAL, bufMode = REAL;
uint32_t randStrata = 2;
std::vector<int> randValues;
std::function<int(const std::string&, uint64_t)> randScript;
std::function<uint32_t(uint32_t)> uniScript;
std::function<void(unsigned char*, size_t)> bufScript;
std::vector<uint32_t> uniBounds;
uint64_t randDraws, otherDraws;
static std::string curStream = "u";
static uint64_t curPos;
static std::map<std::string, std::vector<int>> known;
static std::vector<int>* curKnown;
void Stream(const std::string& n) { curStream = n, curPos = 0, curKnown = &known[n]; }
void ForgetStreams() {
  for (auto& k : known) k.second.clear();
  if (known.size() > 1000) known.clear();
  Stream("u");
  randDraws = otherDraws = 0;
}
// A value of rand() in the i-th of m equal parts of its range whose residue modulo m is i too, so that both
// scaling and reducing it give equidistributed results.
int Stratum(uint32_t i, uint32_t m) {
  uint64_t lo = ((uint64_t)i << 31) / m + 1, hi = ((uint64_t)(i + 1) << 31) / m;
  uint64_t mid = (lo + hi) / 2;
  mid -= mid % m;
  return (int)(mid + i);
}
static int Rand() {
  randDraws++;
  if (randMode == SCRIPT) return randScript(curStream, curPos++);
  if (!curKnown) Stream(curStream);
  if (curPos < curKnown->size()) return (*curKnown)[curPos++];
  int v;
  if (!randValues.empty()) v = randValues[dfs.Choose(randValues.size())];
  else v = Stratum(dfs.Choose(randStrata), randStrata);
  curKnown->push_back(v);
  curPos++;
  return v;
}

static sigjmp_buf jb;
static volatile bool guarded;
static std::string why;
[[noreturn]] static void Leave(const std::string& w) {
  if (!guarded) {
    fprintf(stderr, "unguarded: %s\n", w.c_str());
    _exit(70);
  }
  why = w;
  siglongjmp(jb, 1);
}
static volatile int ticks;
static bool endless;
static void OnSig(int s) {
  if (s == SIGVTALRM && (!guarded || ++ticks < 4)) return;
  if (!guarded) _exit(70);
  char b[64];
  snprintf(b, sizeof b, s == SIGVTALRM ? "does not end" : "signal %d", s);
  why = b;
  if (s == SIGVTALRM) endless = true;
  siglongjmp(jb, 1);
}
static void Timer(int sec) {
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = it.it_interval.tv_sec = sec;
  setitimer(ITIMER_VIRTUAL, &it, nullptr);
}
std::string Guard(const std::function<void()>& f) {
  why.clear();
  ticks = 0;
  guarded = true;
  if (sigsetjmp(jb, 0) == 0) {
    try {
      f();
    } catch (std::exception& e) {
      why = std::string("exception ") + e.what();
    } catch (...) {
      why = "exception";
    }
  }
  guarded = false;
  return why;
}

std::string only, gCase;
int part = 0, parts = 1;
bool thorough;
static uint64_t serial;
static std::map<std::string, uint64_t> counts;
static int samples, bads;
static std::string lastBadCase;
static int out = 1;
bool Mine(const std::string& name) {
  if (only.empty() && (bads > 20 || endless)) return false;  // enough has been found
  if (!only.empty()) {
    if (only != name) return false;
  } else if ((int)(serial++ % parts) != part) {
    return false;
  }
  gCase = name;
  return true;
}
bool CaseBad() { return !gCase.empty() && lastBadCase == gCase; }
static std::string Esc(const std::string& s) {
  std::string o;
  for (char c : s) {
    if (c == '"' || c == '\\') o += '\\', o += c;
    else if ((unsigned char)c < 32 || (unsigned char)c > 126) o += ' ';
    else o += c;
  }
  return o;
}
static void Put(const std::string& s) {
  if (write(out, s.data(), s.size()) < 0) _exit(71);
}
void Bad(const char* fmt, ...) {
  if (lastBadCase == gCase) return;  // one per case
  lastBadCase = gCase;
  if (bads++ > 20) return;
  char b[2000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  Put("{\"bad\":\"" + Esc(b) + "\",\"case\":\"" + Esc(gCase) + "\"}\n");
}
void Count(const char* what, uint64_t n) { counts[what] += n; }
void Sample(const std::string& s) {
  if (samples++ < 3) Put("{\"sample\":\"" + Esc(s) + "\"}\n");
}
int Main(int argc, char** argv, const std::function<void()>& body) {
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i];
    if (k == "--part") sscanf(argv[i + 1], "%d/%d", &part, &parts);
    if (k == "--only") only = argv[i + 1];
    if (k == "--tier") thorough = !strcmp(argv[i + 1], "thorough");
  }
  out = dup(1);
  int nul = open("/dev/null", O_WRONLY);
  dup2(nul, 1);
  static char stack[1 << 16];
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_sp = stack;
  ss.ss_size = sizeof stack;
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = OnSig;
  sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL, SIGVTALRM}) sigaction(s, &sa, nullptr);
  Timer(5);
  body();
  std::string s = "{\"counts\":{";
  bool first = true;
  for (auto& c : counts) {
    s += (first ? "\"" : ",\"") + c.first + "\":" + std::to_string(c.second);
    first = false;
  }
  Put(s + "}}\n");
  fflush(stderr);
  _exit(bads ? 1 : 0);
}

}  // namespace unit

using namespace unit;
extern "C" {
int __real_rand();
void __real_srand(unsigned);
long __real_random();
void __real_srandom(unsigned);
uint32_t __real_randombytes_uniform(uint32_t);
uint32_t __real_randombytes_random();
void __real_randombytes_buf(void*, size_t);
int __wrap_rand() { return randMode == REAL ? __real_rand() : Rand(); }
long __wrap_random() { return randMode == REAL ? __real_random() : Rand(); }
void __wrap_srand(unsigned s) {
  if (randMode == REAL) __real_srand(s);
  else Stream("s" + std::to_string((int)s));
}
void __wrap_srandom(unsigned s) {
  if (randMode == REAL) __real_srandom(s);
  else Stream("s" + std::to_string((int)s));
}
uint32_t __wrap_randombytes_uniform(uint32_t n) {
  if (uniMode == REAL) return __real_randombytes_uniform(n);
  uniBounds.push_back(n);
  if (uniMode == SCRIPT) return uniScript(n);
  return dfs.Choose(n);
}
void __wrap_randombytes_buf(void* p, size_t n) {
  if (bufMode == SCRIPT) bufScript(static_cast<unsigned char*>(p), n);
  else {
    otherDraws++;
    __real_randombytes_buf(p, n);
  }
}
uint32_t __wrap_randombytes_random() {
  uint32_t v;
  __wrap_randombytes_buf(&v, 4);
  return v;
}
void __wrap___assert_fail(const char* e, const char* f, unsigned l, const char*) {
  Leave("assertion " + std::string(e) + " at " + f + ":" + std::to_string(l));
}
void __wrap_abort() { Leave("abort"); }
void __wrap_exit(int c) { Leave("exit " + std::to_string(c)); }
}
