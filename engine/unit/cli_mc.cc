// The program's entry point with its real flag parser: all command lines over an alphabet (C18).
#include <arpa/inet.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <cstdlib>

#include "DPPIR/config/config.h"
#include "unit.h"

using namespace DPPIR;
using namespace unit;
using config::Config;
int dppir_node_main(int argc, char** argv);

// ---- network calls of the child are recorded and answered by nobody
struct Event {
  int kind;  // 1 bind, 2 connect, 3 other
  int port;
  uint32_t ip;
};
struct Log {
  int n;
  bool stopped;
  Event e[64];
};
static Log* lg;
static void Rec(int kind, int port, uint32_t ip) {
  if (lg->n < 64) lg->e[lg->n++] = {kind, port, ip};
}
static int reads;
[[noreturn]] static void Stop() {
  lg->stopped = true;
  _exit(0);
}
static int fake = 500;
extern "C" {
ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, const void*, size_t);
int __real_close(int);
int __wrap_socket(int, int, int) {
  Rec(3, 0, 0);
  return fake++;
}
int __wrap_setsockopt(int, int, int, const void*, socklen_t) { return 0; }
int __wrap_getsockopt(int, int, int, void* v, socklen_t* n) {
  if (n && *n == 4) *static_cast<int*>(v) = 1 << 30;
  return 0;
}
int __wrap_bind(int, const sockaddr* a, socklen_t) {
  auto* s = reinterpret_cast<const sockaddr_in*>(a);
  Rec(1, ntohs(s->sin_port), s->sin_addr.s_addr);
  return 0;
}
int __wrap_listen(int, int) { return 0; }
int __wrap_accept(int, sockaddr*, socklen_t*) { return fake++; }
int __wrap_accept4(int, sockaddr*, socklen_t*, int) { return fake++; }
int __wrap_connect(int, const sockaddr* a, socklen_t) {
  auto* s = reinterpret_cast<const sockaddr_in*>(a);
  Rec(2, ntohs(s->sin_port), s->sin_addr.s_addr);
  return 0;
}
static ssize_t In(void* p, size_t n) {
  if (++reads > 3) Stop();
  memset(p, 0, n);
  return n;
}
ssize_t __wrap_read(int fd, void* p, size_t n) { return fd >= 500 ? In(p, n) : __real_read(fd, p, n); }
ssize_t __wrap_recv(int, void* p, size_t n, int) { return In(p, n); }
ssize_t __wrap_recvfrom(int, void* p, size_t n, int, sockaddr*, socklen_t*) { return In(p, n); }
ssize_t __wrap_write(int fd, const void* p, size_t n) { return fd >= 500 ? (ssize_t)n : __real_write(fd, p, n); }
ssize_t __wrap_send(int, const void*, size_t n, int) { return n; }
ssize_t __wrap_sendto(int, const void*, size_t n, int, const sockaddr*, socklen_t) { return n; }
int __wrap_poll(pollfd*, nfds_t, int) { Stop(); }
int __wrap_close(int fd) { return fd >= 500 ? 0 : __real_close(fd); }
int __wrap_shutdown(int, int) { return 0; }
unsigned __wrap_sleep(unsigned) { return 0; }
int __wrap_usleep(unsigned) { return 0; }
}

static std::string dir, cfg;
static const char* kAbsent = "\x01";
struct Line {
  std::string f[6];  // config stage role server_id party_id queries
};
static const char* kFlag[6] = {"config", "stage", "role", "server_id", "party_id", "queries"};
static std::string Say(const Line& l) {
  std::string s;
  for (int i = 0; i < 6; i++)
    if (l.f[i] != kAbsent) s += std::string(s.empty() ? "" : " ") + "--" + kFlag[i] + "=" + (i == 0 && l.f[0] == cfg ? "CONFIG" : i == 0 && l.f[0].compare(0, dir.size(), dir) == 0 ? "DIR" + l.f[0].substr(dir.size()) : l.f[i]);
  return s;
}
static bool Num(const std::string& s, long long* v) {
  if (s == kAbsent) {
    *v = -1;
    return true;
  }
  char* e;
  errno = 0;
  *v = strtoll(s.c_str(), &e, 10);
  return !s.empty() && !*e && !errno;
}
static bool IsAddress(const std::string& s) {
  in_addr a;
  return inet_pton(AF_INET, s.c_str(), &a) == 1;
}
static void Try(const Line& l, int P, int S, const Config& c, int badParty = -1, int badServer = -1) {
  Count("states"), Count("transitions");
  memset(lg, 0, sizeof *lg);
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL, SIGVTALRM}) signal(s, SIG_DFL);
    alarm(20);
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 2);
    std::vector<std::string> a = {"main"};
    for (int i = 0; i < 6; i++)
      if (l.f[i] != kAbsent) a.push_back(std::string("--") + kFlag[i] + "=" + l.f[i]);
    std::vector<char*> v;
    for (auto& s : a) v.push_back(&s[0]);
    v.push_back(nullptr);
    int rc = 70;
    try {
      rc = dppir_node_main(a.size(), v.data());
    } catch (...) {
    }
    _exit(rc);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
  // what should happen
  long long sid, pid_, q;
  bool nums = Num(l.f[3], &sid);
  nums &= Num(l.f[4], &pid_);
  nums &= Num(l.f[5], &q);
  bool client = l.f[2] == "client", party = l.f[2] == "party";
  bool ok = P >= 2 && nums && l.f[0] == cfg && (l.f[1] == "online" || l.f[1] == "offline" || l.f[1] == "all") && (client || party) && sid >= 0 && sid < S &&
            (client ? q >= 0 && q <= 0xffffffffll : pid_ >= 0 && pid_ < P);
  if (client && pid_ >= P) return;  // a party id is meaningless for a client: either answer is fine
  std::string s = Say(l) + " (" + std::to_string(P) + " parties, " + std::to_string(S) + " servers)";
  if (!ok) {
    if (lg->n) return Bad("%s: is not refused before using the network", s.c_str());
    if (rc == 0) return Bad("%s: is not refused", s.c_str());
    Count("refused");
    return;
  }
  int binds = 0, conns = 0;
  for (int i = 0; i < lg->n; i++) {
    Event& e = lg->e[i];
    if (e.kind == 1) {
      binds++;
      if (client) return Bad("%s: a client listens on port %d", s.c_str(), e.port);
      auto& me = c.parties[pid_].servers[sid];
      if (e.port != me.port && !(e.port == me.parallel_port && S > 1)) return Bad("%s: listens on port %d", s.c_str(), e.port);
    } else if (e.kind == 2) {
      conns++;
      bool good = false;
      auto is = [&](const config::ServerConfig& v, int port) {
        uint32_t ip = v.ip == "localhost" ? htonl(0x7f000001) : inet_addr(v.ip.c_str());
        good |= e.port == port && e.ip == ip && (IsAddress(v.ip) || ip != INADDR_NONE);
      };
      if (client) is(c.parties[0].servers[sid], c.parties[0].servers[sid].port);
      else {
        if (pid_ < P - 1) is(c.parties[pid_ + 1].servers[sid], c.parties[pid_ + 1].servers[sid].port);
        for (int j = 0; j < S; j++)
          if (j != sid) is(c.parties[pid_].servers[j], c.parties[pid_].servers[j].parallel_port);
      }
      if (!good && badParty >= 0)
        return Bad("%s: connects to %s:%d, an address the configuration does not contain (party %d server %d has '%s')", s.c_str(), inet_ntoa(in_addr{e.ip}), e.port, badParty, badServer, c.parties[badParty].servers[badServer].ip.c_str());
      if (!good) return Bad("%s: connects to %s:%d", s.c_str(), inet_ntoa(in_addr{e.ip}), e.port);
    }
  }
  if (badParty >= 0) {
    auto& ip = c.parties[badParty].servers[badServer].ip;
    bool needs = client ? badParty == 0 && badServer == sid : (badParty == pid_ + 1 && badServer == sid) || (badParty == pid_ && badServer > sid && pid_ < P);
    if (needs && rc == 0 && ip != "localhost" && inet_addr(ip.c_str()) == INADDR_NONE) return Bad("%s: goes on although the address of party %d server %d is '%s'", s.c_str(), badParty, badServer, ip.c_str());
    Count("addresses");
    return;
  }
  if (client ? conns == 0 : pid_ == P - 1 ? binds == 0 : binds + conns == 0) return Bad("%s: does not start (status %d)", s.c_str(), rc);
  Count("started");
  Sample(s);
}

int main(int argc, char** argv) {
  return Main(argc, argv, [&] {
    Count("states", 0), Count("transitions", 0), Count("refused", 0), Count("started", 0), Count("addresses", 0);
    lg = static_cast<Log*>(mmap(nullptr, sizeof(Log), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    char t[] = "/tmp/vmc-cli-XXXXXX";
    if (!mkdtemp(t)) _exit(70);
    dir = t;
    cfg = dir + "/cfg";
    std::vector<std::pair<int, int>> sizes = {{2, 1}, {3, 2}, {1, 1}};
    if (thorough) sizes.insert(sizes.end(), {{2, 2}, {4, 3}, {1, 2}, {255, 2}, {2, 255}});
    for (auto z : sizes) {
      int P = z.first, S = z.second;
      Config c;
      c.db_size = 300;
      c.epsilon = 0;
      c.delta = 0;
      c.party_count = P;
      c.server_count = S;
      c.parties.resize(P);
      for (int i = 0; i < P; i++) {
        c.parties[i].shared_seed = 1000 + i;
        c.parties[i].onion_pkey.fill(1 + i);
        c.parties[i].onion_skey.fill(2 + i);
        for (int j = 0; j < S; j++) {
          config::ServerConfig s;
          s.local_seed = i * S + j + 1;
          s.port = 3000 + i * S + j;
          s.parallel_port = 14000 + i * S + j;
          s.ip = "10." + std::to_string(i) + "." + std::to_string(j) + ".1";
          c.parties[i].servers.push_back(s);
        }
      }
      config::WriteToFile(c, cfg);
      std::string x = std::to_string(P) + "x" + std::to_string(S) + " ";
      auto n = [](int v) { return std::to_string(v); };
      std::vector<std::string> A[6] = {{kAbsent, dir + "/none", cfg},
                                       {kAbsent, "online", "offline", "all", "ALL"},
                                       {kAbsent, "client", "party", "server"},
                                       {kAbsent, "-1", "0", n(S - 1), n(S), "256", "x"},
                                       {kAbsent, "-1", "0", n(P - 2), n(P - 1), n(P), "256", "x"},
                                       {kAbsent, "-1", "0", "3", "x"}};
      for (auto& a : A) std::sort(a.begin(), a.end()), a.erase(std::unique(a.begin(), a.end()), a.end());
      for (auto& f0 : A[0]) for (auto& f1 : A[1]) for (auto& f2 : A[2]) for (auto& f3 : A[3]) {
        Line l;
        l.f[0] = f0, l.f[1] = f1, l.f[2] = f2, l.f[3] = f3;
        if (!Mine(x + Say(l))) continue;
        for (auto& f4 : A[4]) for (auto& f5 : A[5]) {
          l.f[4] = f4, l.f[5] = f5;
          if (!CaseBad()) Try(l, P, S, c);
        }
      }
      // one unusual value in an otherwise good line
      std::vector<std::string> B[6] = {{"", dir, "/nonexistent/cfg"},
                                       {"", "onlin", "onlineall", "offline,online", "On", " all", "0", "none", "both"},
                                       {"", "backend", "Party", "clients", "parties", "CLIENT", " party", "0"},
                                       {"", "1e0", "0x0", "257", "65536", "2147483647", "2147483648", "4294967296", "-2147483648", "18446744073709551616", "0.0", "--"},
                                       {"", "1e0", "257", "65536", "2147483647", "2147483648", "4294967296", "-2147483648", "18446744073709551616", "0.0", "--"},
                                       {"", "1.5", "-2", "-9223372036854775808", "9223372036854775808", "ten", "--", "4294967296", "4294967297", "4294967300", "8589934592", "1099511627776", "9223372036854775807"}};
      for (int r = 0; r < 2; r++)
        for (int st = 0; st < 3; st++)
          for (int i = 0; i < 6; i++)
            for (auto& v : B[i]) {
              Line l;
              l.f[0] = cfg, l.f[1] = st == 0 ? "all" : st == 1 ? "online" : "offline", l.f[2] = r ? "party" : "client", l.f[3] = "0";
              l.f[4] = r ? "0" : kAbsent, l.f[5] = r ? kAbsent : "2";
              l.f[i] = v;
              if ((i == 3 || i == 4) && v == "0x0") continue;
              if (!Mine(x + "unusual " + Say(l))) continue;
              Try(l, P, S, c);
            }
      // an address that is none: nothing else may be connected to
      for (const char* ip : {"", "localhost", "10.0.0.256", "1.2.3", "10.0.0.1 ", " 10.0.0.1", "10.0.0.1:3000", "::1", "host.example", "10.0.0", "999.1.1.1", "10.0.0.-1", "0x0a.0.0.1", "10.0.0.1.2"})
        for (int bp = 0; bp < std::min(P, 3); bp++)
          for (int bs = 0; bs < std::min(S, 2); bs++) {
            if (P < 2 || !Mine(x + "address '" + ip + "' " + n(bp) + " " + n(bs))) continue;
            Config d = c;
            d.parties[bp].servers[bs].ip = ip;
            config::WriteToFile(d, cfg);
            for (int s = 0; s < std::min(S, 2); s++)
              for (int p = -1; p < std::min(P, 3); p++) {
                Line l;
                l.f[0] = cfg, l.f[1] = "all", l.f[2] = p < 0 ? "client" : "party", l.f[3] = n(s);
                l.f[4] = p < 0 ? kAbsent : n(p), l.f[5] = p < 0 ? "1" : kAbsent;
                if (!CaseBad()) Try(l, P, S, d, bp, bs);
              }
            config::WriteToFile(c, cfg);
          }
      // every participant of the deployment
      for (int st = 0; st < 3; st++)
        for (int s = 0; s < S; s++)
          for (int p = -1; p < P; p++) {
            Line l;
            l.f[0] = cfg, l.f[1] = st == 0 ? "all" : st == 1 ? "online" : "offline", l.f[2] = p < 0 ? "client" : "party", l.f[3] = n(s);
            l.f[4] = p < 0 ? kAbsent : n(p), l.f[5] = p < 0 ? "1" : kAbsent;
            if (Mine(x + "role " + Say(l))) Try(l, P, S, c);
          }
    }
    unlink(cfg.c_str());
    rmdir(dir.c_str());
  });
}
