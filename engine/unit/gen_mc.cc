// The configuration generator: all requests over an alphabet, as arguments and as answers (C17).
#include <fcntl.h>
#include <math.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <cstdlib>
#include <set>

#include "DPPIR/config/config.h"
#include "unit.h"

using namespace DPPIR;
using namespace unit;
using config::Config;
int gen_config_main(int argc, char** argv);

static std::string dir;
// Runs the generator; its exit status, and whether it left a file behind.
static int Generate(const std::vector<std::string>& args, const std::string& input, bool* left) {
  std::string f = dir + "/out";
  unlink(f.c_str());
  int fd = memfd_create("in", 0);
  if (write(fd, input.data(), input.size()) != (ssize_t)input.size()) _exit(71);
  lseek(fd, 0, SEEK_SET);
  Count("transitions");
  pid_t pid = fork();
  if (pid == 0) {
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL, SIGVTALRM}) signal(s, SIG_DFL);
    alarm(20);
    dup2(fd, 0);
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 2);
    std::vector<std::string> a = {"gen_config", f};
    a.insert(a.end(), args.begin(), args.end());
    std::vector<char*> v;
    for (auto& s : a) v.push_back(&s[0]);
    v.push_back(nullptr);
    int rc = 99;
    try {
      rc = gen_config_main(a.size(), v.data());
    } catch (...) {
      _exit(70);
    }
    _exit(rc);
  }
  close(fd);
  int st = 0;
  waitpid(pid, &st, 0);
  *left = access(f.c_str(), F_OK) == 0;
  return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
}

struct Want {
  uint64_t db;
  std::string eps, delta;
  int P, S;
  std::vector<std::string> ips;  // empty: defaults
  std::string Say() const {
    return std::to_string(db) + " rows, epsilon " + eps + ", delta " + delta + ", " + std::to_string(P) + " parties, " + std::to_string(S) + " servers";
  }
};
extern "C" int __real_rand();
extern "C" void __real_srand(unsigned);
static std::vector<int> First(int seed) {
  __real_srand(seed);
  std::vector<int> v;
  for (int i = 0; i < 4; i++) v.push_back(__real_rand());
  return v;
}
static void Judge(const Want& w, int rc, bool left, const char* how, std::set<skey_t>* keys) {
  Count("states");
  std::string s = w.Say() + ", " + how;
  if (rc != 0 || !left) return Bad("%s: the generator fails (status %d)", s.c_str(), rc);
  Config c;
  std::string g = Guard([&] { c = config::ReadFile(dir + "/out"); });
  if (!g.empty()) return Bad("%s: the generated configuration cannot be read: %s", s.c_str(), g.c_str());
  if (c.db_size != w.db) return Bad("%s: database size %u", s.c_str(), c.db_size);
  if (c.epsilon != strtod(w.eps.c_str(), nullptr) || c.delta != strtod(w.delta.c_str(), nullptr)) return Bad("%s: epsilon %g, delta %g", s.c_str(), c.epsilon, c.delta);
  if (c.party_count != w.P || c.server_count != w.S || (int)c.parties.size() != w.P) return Bad("%s: %d parties, %d servers", s.c_str(), c.party_count, c.server_count);
  std::set<int> ports;
  std::set<pkey_t> pks;
  std::set<skey_t> sks;
  std::set<std::vector<int>> shared, local;
  for (int i = 0; i < w.P; i++) {
    auto& p = c.parties[i];
    if ((int)p.servers.size() != w.S) return Bad("%s: party %d has %zu servers", s.c_str(), i, p.servers.size());
    pkey_t q;
    crypto_scalarmult_base(q.data(), p.onion_skey.data());
    if (q != p.onion_pkey) return Bad("%s: public key of party %d does not match its private key", s.c_str(), i);
    if (!pks.insert(p.onion_pkey).second || !sks.insert(p.onion_skey).second) return Bad("%s: party %d has the key of an earlier party", s.c_str(), i);
    if (keys && !keys->insert(p.onion_skey).second) return Bad("%s: party %d has a key of an earlier configuration", s.c_str(), i);
    if (!shared.insert(First(p.shared_seed)).second) return Bad("%s: party %d shares its seed %d's random sequence with an earlier party", s.c_str(), i, p.shared_seed);
    for (int j = 0; j < w.S; j++) {
      auto& v = p.servers[j];
      std::string at = "party " + std::to_string(i) + " server " + std::to_string(j);
      if (v.port <= 0 || v.port > 65535 || v.parallel_port <= 0 || v.parallel_port > 65535) return Bad("%s: %s has ports %d and %d", s.c_str(), at.c_str(), v.port, v.parallel_port);
      if (!ports.insert(v.port).second || !ports.insert(v.parallel_port).second) return Bad("%s: %s has ports %d and %d, one of which is taken", s.c_str(), at.c_str(), v.port, v.parallel_port);
      if (!local.insert(First(v.local_seed)).second) return Bad("%s: seed %d of %s gives the random sequence of an earlier server", s.c_str(), v.local_seed, at.c_str());
      std::string ip = w.ips.empty() || w.ips[i * w.S + j].empty() ? "127.0.0.1" : w.ips[i * w.S + j];
      if (v.ip != ip) return Bad("%s: %s has address '%s' instead of '%s'", s.c_str(), at.c_str(), v.ip.c_str(), ip.c_str());
    }
  }
}
static std::vector<std::string> Args(const Want& w) {
  std::vector<std::string> a = {std::to_string(w.db), w.eps, w.delta, std::to_string(w.P), std::to_string(w.S)};
  a.insert(a.end(), w.ips.begin(), w.ips.end());
  return a;
}
static std::string Answers(const Want& w, int style) {
  const char* sep = style == 1 ? "\n" : " ";
  std::string s = std::to_string(w.db) + "\n" + w.eps + sep + w.delta + "\n" + std::to_string(w.P) + sep + std::to_string(w.S) + "\n";
  for (int i = 0; i < w.P * w.S; i++) s += (w.ips.empty() ? "" : w.ips[i]) + "\n";
  return s;
}
static std::vector<std::string> Ips(int n, int k) {
  std::vector<std::string> v;
  for (int i = 0; i < n; i++)
    v.push_back(k == 1 ? "10.0.0." + std::to_string(i) : k == 2 ? (i % 2 ? "192.168.1.1" : "10.1.1.1") : k == 3 ? "host-" + std::to_string(n - i) : "172.16.0.9");
  return v;
}

int main(int argc, char** argv) {
  return Main(argc, argv, [&] {
    if (sodium_init() < 0) _exit(70);
    Count("states", 0), Count("transitions", 0);
    char t[] = "/tmp/vmc-gen-XXXXXX";
    if (!mkdtemp(t)) _exit(70);
    dir = t;
    bool left;
    // good requests
    std::vector<std::pair<int, int>> sizes;
    for (int P = 1; P <= (thorough ? 8 : 5); P++)
      for (int S = 1; S <= (thorough ? 8 : 5); S++) sizes.push_back({P, S});
    for (int P : {16, 127, 128, 254, 255})
      for (int S : {1, 2, 3})
        if (P * S <= 1000) sizes.push_back({P, S});
    for (auto x : {std::pair<int, int>{2, 255}, {3, 128}, {2, 128}, {3, 255}, {31, 32}, {7, 142}, {1, 255}}) sizes.push_back(x);
    for (auto& z : sizes)
      for (int k = 0; k < 5; k++) {
        Want w{100, "0.1", "1e-6", z.first, z.second, k ? Ips(z.first * z.second, k) : std::vector<std::string>()};
        std::string n = std::to_string(w.P) + "x" + std::to_string(w.S) + "#" + std::to_string(k);
        if (Mine("arguments " + n)) {
          std::set<skey_t> keys;
          for (int twice = 0; twice < 2 && !CaseBad(); twice++) {
            int rc = Generate(Args(w), "", &left);
            Judge(w, rc, left, "as arguments", &keys);
          }
          Sample(w.Say() + ", addresses " + std::to_string(k));
        }
        if (Mine("answers " + n)) {
          std::set<skey_t> keys;
          for (int style = 0; style < 2 && !CaseBad(); style++) {
            int rc = Generate({}, Answers(w, style), &left);
            Judge(w, rc, left, "as answers", &keys);
          }
        }
      }
    for (uint64_t db : {1ull, 2ull, 1000ull, 65536ull, 2147483647ull, 2147483648ull, 4294967295ull})
      for (const char* e : {"0", "0.01", "1", "3.75"})
        for (const char* d : {"0", "1e-10", "0.5", "1"}) {
          Want w{db, e, d, 2, 2, {}};
          if (!Mine("parameters " + std::to_string(db) + " " + e + " " + d)) continue;
          int rc = Generate(Args(w), "", &left);
          Judge(w, rc, left, "as arguments", nullptr);
          rc = Generate({}, Answers(w, 0), &left);
          Judge(w, rc, left, "as answers", nullptr);
        }
    // an empty answer for some of the servers only
    for (int mask = 0; mask < 16; mask++)
      if (Mine("some addresses " + std::to_string(mask))) {
        Want w{10, "1", "0.1", 2, 2, Ips(4, 1)};
        for (int i = 0; i < 4; i++)
          if (mask >> i & 1) w.ips[i] = "";
        int rc = Generate({}, Answers(w, 0), &left);
        Judge(w, rc, left, "as answers", nullptr);
      }
    // bad requests: nothing may be left behind
    auto refuse = [&](const std::vector<std::string>& a, const std::string& in, const std::string& what) {
      Generate(a, in, &left);
      Count("states");
      if (left) Bad("%s: a configuration is left behind", what.c_str());
    };
    for (int P = 1; P <= 3; P++)
      for (int S = 1; S <= 3; S++)
        for (int n = 1; n <= P * S + 3; n++) {
          if (n == P * S || !Mine("addresses " + std::to_string(P) + "x" + std::to_string(S) + " " + std::to_string(n))) continue;
          Want w{10, "0.1", "0.1", P, S, Ips(n, 1)};
          refuse(Args(w), "", std::to_string(n) + " addresses for " + w.Say());
        }
    for (int n = 1; n <= 4; n++)
      if (Mine("values " + std::to_string(n))) {
        auto a = Args(Want{10, "0.1", "0.1", 2, 1, {}});
        a.resize(n);
        refuse(a, "", "only " + std::to_string(n) + " values");
      }
    // sizes that a configuration cannot hold
    for (const char* big : {"0", "-1", "-2", "256", "257", "258", "259", "511", "512", "514", "65538", "2147483647", "4294967298"})
      for (int pos : {3, 4}) {
        if (!Mine(std::string("size ") + big + " at " + std::to_string(pos))) continue;
        for (int n : {0, 1, 2, 3, 4}) {
          auto a = Args(Want{10, "0.1", "0.1", 2, 2, n ? Ips(n, 1) : std::vector<std::string>()});
          a[pos] = big;
          refuse(a, "", std::string(pos == 3 ? "number of parties " : "number of servers ") + big);
        }
        std::string in = std::string("10\n0.1 0.1\n") + (pos == 3 ? std::string(big) + " 2" : std::string("2 ") + big) + "\n";
        for (int i = 0; i < 600; i++) in += "\n";
        refuse({}, in, std::string(pos == 3 ? "number of parties " : "number of servers ") + big + " as an answer");
      }
    for (const char* big : {"-1", "-5", "-2147483648", "4294967296", "4294967297", "99999999999", "99999999999999999999"})
      if (Mine(std::string("rows ") + big)) {
        auto a = Args(Want{10, "0.1", "0.1", 2, 2, {}});
        a[0] = big;
        refuse(a, "", std::string(big) + " rows");
        refuse({}, std::string(big) + "\n0.1 0.1\n2 2\n\n\n\n\n", std::string(big) + " rows as an answer");
      }
    for (const char* junk : {"x", "", "-", "abc", "?", " "})
      for (int pos = 0; pos < 5; pos++) {
        if (Mine("argument " + std::to_string(pos) + " is '" + junk + "'"))
          for (int k = 0; k < 2; k++) {
            auto a = Args(Want{10, "0.1", "0.1", 2, 2, k ? Ips(4, 1) : std::vector<std::string>()});
            a[pos] = junk;
            refuse(a, "", "argument " + std::to_string(pos) + " is '" + junk + "'");
          }
        std::string tok = junk;
        bool blank = tok.find_first_not_of(' ') == std::string::npos;
        if (Mine("answer " + std::to_string(pos) + " is '" + junk + "'")) {
          std::vector<std::string> v = {"10", "0.1", "0.1", "2", "1"};
          std::string in;
          for (int i = 0; i < 5; i++) {
            if (blank && i == pos) break;  // the input ends here
            in += (i == pos ? tok : v[i]) + "\n";
          }
          if (!blank) in += "10.0.0.1\n10.0.0.2\n";
          refuse({}, in, "answer " + std::to_string(pos) + " is '" + (blank ? "missing" : junk) + "'");
        }
      }
    if (part == 0) Sample("every non-number in every position; every wrong number of addresses up to 3x3; every missing value");
    unlink((dir + "/out").c_str());
    rmdir(dir.c_str());
  });
}
