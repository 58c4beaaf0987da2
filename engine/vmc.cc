// Explorer: runs every execution of every scenario within its bound and judges each one.
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sodium.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <fstream>
#include <iostream>
#include <sstream>

#include "arena.h"
#include "scen.h"

namespace vmc {
std::string gWorkdir;

struct Cur {
  volatile int scen;
  volatile int ndev;
  Dev dev[512];
};
struct Shared {
  std::atomic<int> next;
  std::atomic<int> stop;  // enough has been found
  Cur cur[64];
};
static Shared* sh;
static double Now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
static double deadline = 1e300;
static std::string nodeSo;
static std::vector<Scen> scens;

// ---- visited states of the current scenario
static std::vector<uint64_t> tab;
static size_t tabUsed;
static void TabClear() {
  tab.assign(1 << 14, 0);
  tabUsed = 0;
}
static bool Visit(uint64_t h) {
  if (!h) h = 1;
  if (tabUsed * 2 > tab.size()) {
    std::vector<uint64_t> old(tab.size() * 4, 0);
    old.swap(tab);
    size_t m = tab.size() - 1;
    for (uint64_t v : old)
      if (v) {
        size_t i = v & m;
        while (tab[i]) i = (i + 1) & m;
        tab[i] = v;
      }
  }
  size_t m = tab.size() - 1, i = h & m;
  while (tab[i]) {
    if (tab[i] == h) return true;
    i = (i + 1) & m;
  }
  tab[i] = h;
  tabUsed++;
  return false;
}

static void OnProf(int) { _exit(77); }
static void Arm(double cpu) {
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = (long)cpu;
  it.it_value.tv_usec = (long)((cpu - (long)cpu) * 1e6);
  setitimer(ITIMER_PROF, &it, nullptr);
}

// CPU seconds one execution may take before it counts as computing forever.
static double Limit(const Scen& s) {
  double t = 10;
  for (auto q : s.q) t += q / 500.0;
  t += s.db / 5000.0 + (s.P * s.S) * (double)(s.P * s.S) / 10000;
#ifdef VMC_ASAN
  t *= 3;
#endif
  return t;
}

static std::string Esc(const std::string& s) {
  std::string o;
  for (char c : s) {
    if (c == '"' || c == '\\') o += '\\', o += c;
    else if ((unsigned char)c < 32) o += ' ';
    else o += c;
  }
  return o;
}
static std::string DevStr(const std::vector<Dev>& d) {
  std::string o;
  for (auto& x : d) o += (o.empty() ? "" : ",") + std::to_string(x.pos) + ":" + std::to_string(x.alt);
  return o;
}

static std::string TapeStr() {
  std::string o;
  for (auto& p : W.tapes.path) o += (o.empty() ? "" : ".") + std::to_string(p.first) + "/" + std::to_string(p.second);
  return o;
}

struct TaskNode {
  int parent;
  Dev d;
  int level;
};

struct Stats {
  uint64_t runs = 0, judged = 0, pruned = 0, decisions = 0, ops = 0, states = 0, diverged = 0, deadlocks = 0;
  uint32_t maxDec = 0;
  int levelDone = -1;
  bool exhausted = false;
};

// Every tape of the enumerated draws, one execution each; the outcome is the distribution of the observation.
static void Enumerate(int w, int idx, FILE* out) {
  const Scen& s = scens[idx];
  W.full = false;
  W.visit = nullptr;
  W.tapes = s.tapes;
  std::map<std::string, std::map<std::string, double>> dist;
  std::string findings;
  uint64_t runs = 0, ops = 0;
  bool cut = false;
  do {
    W.tapes.Start();
    sh->cur[w].ndev = 0;
    std::vector<Finding> f;
    Arm(Limit(s));
    RunScen(s, {}, &f);
    Arm(0);
    runs++;
    ops += W.res.ops;
    for (auto& x : f)
      findings += (findings.empty() ? "" : ",") + std::string("{\"cat\":\"") + CatName(x.cat & -x.cat) + "\",\"msg\":\"" + Esc(x.msg) + "\",\"devs\":\"\",\"tape\":\"" + TapeStr() + "\"}";
    if (!f.empty()) {
      sh->stop++;
      break;
    }
    for (auto& o : gObs) dist[o.first][o.second] += W.tapes.weight;
    if (runs >= s.maxRuns || Now() > deadline || sh->stop >= 12) {
      cut = true;
      break;
    }
  } while (W.tapes.on && W.tapes.Next());
  W.tapes.on = false;
  fprintf(out, "{\"scen\":%d,\"runs\":%llu,\"judged\":%llu,\"ops\":%llu,\"states\":%llu,\"complete\":%s,\"findings\":[%s],\"dist\":{", idx,
          (unsigned long long)runs, (unsigned long long)runs, (unsigned long long)ops, (unsigned long long)runs, cut ? "false" : "true", findings.c_str());
  bool c1 = false;
  for (auto& d : dist) {
    uint64_t h = 1;
    for (auto& v : d.second) {
      char b[300];
      int k = snprintf(b, sizeof b, "%s=%.9e;", v.first.c_str(), v.second);
      for (int i = 0; i < k && i < 299; i++) h = (h ^ (unsigned char)b[i]) * 0x100000001b3ULL;
    }
    fprintf(out, "%s\"%s\":{\"#outcomes\":%zu,\"#digest\":\"%016llx\"", c1 ? "," : "", d.first.c_str(), d.second.size(), (unsigned long long)h);
    c1 = true;
    if (d.second.size() > 3000) {
      fprintf(out, "}");
      continue;
    }
    for (auto& v : d.second) fprintf(out, ",\"%s\":%.17g", v.first.c_str(), v.second);
    fprintf(out, "}");
  }
  fprintf(out, "}}\n");
  fflush(out);
}

static void Explore(int w, int idx, FILE* out) {
  const Scen& s = scens[idx];
  if (!s.obs.empty()) return Enumerate(w, idx, out);
  Stats st;
  TabClear();
  W.full = s.lev < 0;
  W.visit = Visit;
  std::vector<TaskNode> nodes;
  std::vector<int> queue{-1};  // -1: the root
  size_t qi = 0;
  bool found = false, cut = false;
  int level = 0;
  std::string findings, nops;
  while (!queue.empty() && qi < queue.size()) {
    int t = s.lev < 0 ? queue.back() : queue[qi];
    if (s.lev < 0) queue.pop_back();
    else qi++;
    int lv = t < 0 ? 0 : nodes[t].level;
    if (lv > level) {
      st.levelDone = level;
      level = lv;
    }
    std::vector<Dev> devs;
    for (int k = t; k >= 0; k = nodes[k].parent) devs.insert(devs.begin(), nodes[k].d);
    Cur& c = sh->cur[w];
    c.ndev = std::min<size_t>(devs.size(), 512);
    for (int i = 0; i < c.ndev; i++) c.dev[i] = devs[i];
    c.scen = idx;
    std::vector<Finding> f;
    Arm(Limit(s));
    RunScen(s, devs, &f);
    Arm(0);
    if (t < 0)
      for (Node& n : W.nodes) nops += (nops.empty() ? "" : ",") + std::to_string(n.nops);
    st.runs++;
    if (W.res.pruned) st.pruned++;
    else st.judged++;
    if (W.res.diverged) st.diverged++;
    if (W.res.deadlock) st.deadlocks++;
    st.ops += W.res.ops;
    st.decisions += W.res.alts.size();
    st.maxDec = std::max(st.maxDec, W.res.decisions);
    for (auto& x : f) {
      findings += (findings.empty() ? "" : ",") + std::string("{\"cat\":\"") + CatName(x.cat & -x.cat) + "\",\"msg\":\"" + Esc(x.msg) +
                  "\",\"devs\":\"" + DevStr(devs) + "\"}";
      found = true;
    }
    if (found) {
      sh->stop++;
      break;
    }
    if (s.lev < 0 || lv < s.lev) {
      for (size_t i = 0; i < W.res.alts.size(); i++)
        for (int a = 1; a < W.res.alts[i]; a++) {
          if (t < 0 && s.parts > 1 && (int)((i * 7 + a) % s.parts) != s.part) continue;
          nodes.push_back({t, {(uint32_t)(W.res.altBase + i), (uint32_t)a}, lv + 1});
          queue.push_back(nodes.size() - 1);
        }
    }
    if (st.runs >= s.maxRuns || Now() > deadline || sh->stop >= 12 || nodes.size() > 60000000) {
      cut = s.lev < 0 ? !queue.empty() : qi < queue.size();
      break;
    }
  }
  if (!cut && !found) {
    st.levelDone = s.lev;
    st.exhausted = true;
  }
  st.states = tabUsed;
  fprintf(out,
          "{\"scen\":%d,\"runs\":%llu,\"judged\":%llu,\"pruned\":%llu,\"decisions\":%llu,\"maxdec\":%u,\"ops\":%llu,\"states\":%llu,"
          "\"diverged\":%llu,\"deadlocks\":%llu,\"level\":%d,\"complete\":%s,\"nops\":[%s],\"findings\":[%s]}\n",
          idx, (unsigned long long)st.runs, (unsigned long long)st.judged, (unsigned long long)st.pruned, (unsigned long long)st.decisions,
          st.maxDec, (unsigned long long)st.ops, (unsigned long long)st.states, (unsigned long long)st.diverged,
          (unsigned long long)st.deadlocks, st.levelDone, st.exhausted ? "true" : "false", nops.c_str(), findings.c_str());
  fflush(out);
}

static int MaxNodes() {
  int n = 1;
  for (auto& s : scens) {
    int k = s.S + s.P * s.S;
    if (!s.prog.empty()) {
      size_t c = s.prog.find(':');
      k = atoi(s.prog.c_str() + c + 1);
    }
    n = std::max(n, k);
  }
  return n;
}

static void RbBuf(void* const p, const size_t n) { NodeRandom(p, n); }
static uint32_t RbRandom() {
  uint32_t v;
  NodeRandom(&v, 4);
  return v;
}
static const char* RbName() { return "vmc"; }
static struct randombytes_implementation rb;

static void Setup() {
  rb.implementation_name = RbName;
  rb.random = RbRandom;
  rb.buf = RbBuf;
  randombytes_set_implementation(&rb);
  if (sodium_init() < 0) _exit(72);
  signal(SIGPROF, OnProf);
  LoadNodes(nodeSo.c_str(), gWorkdir.c_str(), MaxNodes(), true);
}
static void WarmUp(const Scen& s) {
  // shared libraries make their lasting allocations now, outside the arena
  vmc_arena_enable(false);
  std::vector<Finding> f;
  W.visit = nullptr;
  W.full = false;
  Arm(Limit(s));
  RunScen(s, {}, &f);
  Arm(0);
  vmc_arena_enable(true);
}

static int Worker(int w, const std::string& outPath) {
  FILE* out = fopen((outPath + "." + std::to_string(w)).c_str(), "a");
  sh->cur[w].scen = -1;
  Setup();
  bool warm = false;
  for (;;) {
    int i = sh->next.fetch_add(1);
    if (i >= (int)scens.size()) break;
    if (Now() > deadline || sh->stop >= 12) {
      fprintf(out, "{\"scen\":%d,\"skipped\":true}\n", i);
      continue;
    }
    sh->cur[w].ndev = 0;
    sh->cur[w].scen = i;
    if (!warm) {
      WarmUp(scens[i]);
      warm = true;
    }
    Explore(w, i, out);
  }
  fclose(out);
  _exit(0);
}

}  // namespace vmc

using namespace vmc;

int main(int argc, char** argv) {
  std::map<std::string, std::string> a;
  for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
  nodeSo = a["--node"];
  gWorkdir = a["--workdir"];
  int jobs = a.count("--jobs") ? atoi(a["--jobs"].c_str()) : 8;
  if (a.count("--deadline")) deadline = Now() + atof(a["--deadline"].c_str());
  std::ifstream in(a["--scen"]);
  std::string line;
  while (std::getline(in, line))
    if (!line.empty() && line[0] != '#') scens.push_back(ParseScen(line));
  sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (a.count("--replay")) {
    // --replay "pos:alt,..." : the first scenario only
    std::vector<Dev> d;
    std::stringstream ss(a["--replay"]);
    std::string t;
    while (std::getline(ss, t, ',')) {
      unsigned p, q;
      if (sscanf(t.c_str(), "%u:%u", &p, &q) == 2) d.push_back({p, q});
    }
    Setup();
    std::vector<Finding> f;
    W.tracing = a.count("--trace");
    if (scens[0].tapes.on) {
      W.tapes = scens[0].tapes;
      std::stringstream ts(a["--tape"]);
      while (std::getline(ts, t, '.')) {
        unsigned p, q;
        if (sscanf(t.c_str(), "%u/%u", &p, &q) == 2) W.tapes.path.push_back({p, q});
      }
      W.tapes.Start();
    }
    vmc_arena_enable(true);
    Arm(2 * Limit(scens[0]));
    RunScen(scens[0], d, &f);
    Arm(0);
    if (W.tracing) fwrite(W.traceText.data(), 1, W.traceText.size(), stdout);
    for (auto& x : f) printf("FINDING %s %s\n", CatName(x.cat & -x.cat), x.msg.c_str());
    printf("decisions=%u ops=%llu diverged=%d deadlock=%d\n", W.res.decisions, (unsigned long long)W.res.ops, W.res.diverged, W.res.deadlock);
    fflush(stdout);
    _exit(f.empty() ? 0 : 1);
  }
  std::string out = a["--out"];
  FILE* mo = fopen((out + ".m").c_str(), "w");
  std::vector<pid_t> pids(jobs, 0);
  for (int w = 0; w < jobs; w++) {
    unlink((out + "." + std::to_string(w)).c_str());
    pid_t p = fork();
    if (!p) return Worker(w, out);
    pids[w] = p;
  }
  int alive = jobs;
  while (alive > 0) {
    int st;
    pid_t p = wait(&st);
    if (p < 0) {
      if (errno == EINTR) continue;
      break;
    }
    int w = 0;
    while (w < jobs && pids[w] != p) w++;
    if (w == jobs) continue;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
      alive--;
      continue;
    }
    // the worker died while executing a task: that is a finding about the task
    Cur& c = sh->cur[w];
    std::vector<Dev> d(c.dev, c.dev + c.ndev);
    if (c.scen < 0 || (WIFEXITED(st) && (WEXITSTATUS(st) == 71 || WEXITSTATUS(st) == 72))) {
      fprintf(stderr, "worker could not start\n");
      return 3;
    }
    bool hang = WIFEXITED(st) && WEXITSTATUS(st) == 77;
    char msg[100];
    if (hang) snprintf(msg, sizeof msg, "a process computes forever");
    else if (WIFSIGNALED(st)) snprintf(msg, sizeof msg, "a process died from signal %d", WTERMSIG(st));
    else snprintf(msg, sizeof msg, "a process died, status %d", WEXITSTATUS(st));
    fprintf(mo, "{\"scen\":%d,\"died\":true,\"complete\":false,\"findings\":[{\"cat\":\"%s\",\"msg\":\"%s\",\"devs\":\"%s\"}]}\n", c.scen,
            hang ? "hang" : "memory", msg, DevStr(d).c_str());
    fflush(mo);
    sh->stop += hang ? 6 : 2;
    pid_t q = fork();
    if (!q) return Worker(w, out);
    pids[w] = q;
  }
  fclose(mo);
  return 0;
}
