// Configurations: round trips and truncated files (C16).
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <cstdlib>
#include <fstream>
#include <limits>

#include "DPPIR/config/config.h"
#include "unit.h"

using namespace DPPIR;
using namespace unit;
using config::Config;

static bool SameD(double a, double b) { return !memcmp(&a, &b, sizeof a); }
static std::string Diff(const Config& a, const Config& b) {
  if (a.db_size != b.db_size) return "database size";
  if (!SameD(a.epsilon, b.epsilon)) return "epsilon";
  if (!SameD(a.delta, b.delta)) return "delta";
  if (a.party_count != b.party_count) return "number of parties";
  if (a.server_count != b.server_count) return "number of servers";
  if (a.parties.size() != b.parties.size()) return "list of parties";
  for (size_t i = 0; i < a.parties.size(); i++) {
    auto &p = a.parties[i], &q = b.parties[i];
    if (p.shared_seed != q.shared_seed) return "shared seed of party " + std::to_string(i);
    if (p.onion_pkey != q.onion_pkey) return "public key of party " + std::to_string(i);
    if (p.onion_skey != q.onion_skey) return "private key of party " + std::to_string(i);
    if (p.servers.size() != q.servers.size()) return "servers of party " + std::to_string(i);
    for (size_t j = 0; j < p.servers.size(); j++) {
      auto &s = p.servers[j], &t = q.servers[j];
      std::string at = " of server " + std::to_string(j) + " of party " + std::to_string(i);
      if (s.local_seed != t.local_seed) return "local seed" + at;
      if (s.port != t.port) return "port" + at;
      if (s.parallel_port != t.parallel_port) return "parallel port" + at;
      if (s.ip != t.ip) return "address" + at;
    }
  }
  return "";
}
static const std::vector<index_t> kDb = {0, 1, 10, 13, 26, 255, 256, 65536, 0x0a0d1a00, 2147483647u, 2147483648u, 4294967295u};
static const std::vector<int> kInt = {0, 1, -1, 10, 13, 26, 255, 256, 3000, 65535, 0x0d0a1a00, 2147483647, -2147483647 - 1};
static const std::vector<double> kDbl = {0.0, -0.0, 0.1, 1e-10, 1e-300, 5e-324, 1.7976931348623157e308, 3.0, -2.5,
                                         std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()};
static const std::vector<std::string> kIp = {"127.0.0.1", "", "1", "255.255.255.255", "host name", "a\nb", "\x1a\xff\x01", std::string(300, 'x'), "10.0.0.1 "};

static Config Base(int P, int S) {
  Config c;
  c.db_size = 100;
  c.epsilon = 0.1;
  c.delta = 1e-6;
  c.party_count = P;
  c.server_count = S;
  c.parties.resize(P);
  for (int i = 0; i < P; i++) {
    auto& p = c.parties[i];
    p.shared_seed = 1000 + i;
    for (size_t k = 0; k < p.onion_pkey.size(); k++) p.onion_pkey[k] = (unsigned char)(i * 50 + k * 3);
    for (size_t k = 0; k < p.onion_skey.size(); k++) p.onion_skey[k] = (unsigned char)(255 - i * 40 - k * 5);
    p.servers.resize(S);
    for (int j = 0; j < S; j++) {
      p.servers[j].local_seed = i * S + j;
      p.servers[j].port = 3000 + i * S + j;
      p.servers[j].parallel_port = 4000 + i * S + j;
      p.servers[j].ip = "10.0." + std::to_string(i) + "." + std::to_string(j);
    }
  }
  return c;
}
static std::string dir;
static std::string Bytes(const std::string& f) {
  std::ifstream i(f, std::ios::binary);
  return std::string(std::istreambuf_iterator<char>(i), std::istreambuf_iterator<char>());
}
static void Put(const std::string& f, const std::string& d) {
  std::ofstream o(f, std::ios::binary);
  o.write(d.data(), d.size());
}
static std::string Parse(const std::string& d, size_t n, Config* out) {
  char* p = static_cast<char*>(malloc(n ? n : 1));
  memcpy(p, d.data(), n);
  Count("transitions");
  std::string w = Guard([&] { *out = config::Deserialize(n ? p : p + 1, n); });
  free(p);
  return w;
}
static void Round(const Config& c, bool cuts, bool files) {
  fprintf(stderr, "CASE %s\n", gCase.c_str());
  Count("states");
  std::string d, e;
  std::string w = Guard([&] { d = config::Serialize(c); });
  if (!w.empty()) return Bad("cannot be written: %s", w.c_str());
  Config r;
  w = Parse(d, d.size(), &r);
  if (!w.empty()) return Bad("cannot be read back: %s", w.c_str());
  w = Diff(c, r);
  if (!w.empty()) return Bad("reading back changes the %s", w.c_str());
  w = Guard([&] { e = config::Serialize(r); });
  if (e != d) return Bad("writing what was read gives another file");
  std::string f = dir + "/c";
  if (files) {
    Config g;
    Put(f, std::string(100000, 'z'));  // something longer was there before
    w = Guard([&] {
      config::WriteToFile(c, f);
      g = config::ReadFile(f);
    });
    if (!w.empty()) return Bad("file cannot be read back: %s", w.c_str());
    w = Diff(c, g);
    if (!w.empty()) return Bad("reading the file back changes the %s", w.c_str());
    if (Bytes(f) != d) return Bad("the file differs from the serialised configuration");
    unlink(f.c_str());
    Count("transitions", 2);
  }
  if (!cuts) return;
  for (size_t n = 0; n < d.size(); n++) {
    Config t;
    Count("states");
    if (Parse(d, n, &t).empty()) return Bad("accepted although only %zu of %zu bytes are there", n, d.size());
    if (files) {
      Put(f, d.substr(0, n));
      if (Guard([&] { t = config::ReadFile(f); }).empty()) return Bad("file accepted although cut to %zu of %zu bytes", n, d.size());
      Count("transitions");
    }
  }
  for (size_t k = 1; k <= 9; k++)
    for (char x : {'\0', '\n', 'a', (char)0xff, '\x01'}) {
      Config t;
      Count("states");
      std::string more = d + std::string(k, x);
      if (Parse(more, more.size(), &t).empty()) return Bad("accepted although %zu bytes follow the configuration", k);
      if (files) {
        Put(f, more);
        if (Guard([&] { t = config::ReadFile(f); }).empty()) return Bad("file accepted although %zu bytes follow the configuration", k);
      }
    }
  std::string twice = d + d;
  Config t;
  if (Parse(twice, twice.size(), &t).empty()) return Bad("accepted although a second configuration follows");
  unlink(f.c_str());
}

int main(int argc, char** argv) {
  return Main(argc, argv, [&] {
    Count("states", 0), Count("transitions", 0);
    char t[] = "/tmp/vmc-config-XXXXXX";
    if (!mkdtemp(t)) _exit(70);
    dir = t;
    for (int P = 1; P <= (thorough ? 6 : 4); P++)
      for (int S = 1; S <= (thorough ? 6 : 4); S++)
        if (Mine("size " + std::to_string(P) + "x" + std::to_string(S))) Round(Base(P, S), true, P * S <= 9);
    for (int P : {1, 2, 16, 127, 128, 129, 254, 255})
      for (int S : {1, 2, 127, 128, 255})
        if (Mine("large " + std::to_string(P) + "x" + std::to_string(S))) Round(Base(P, S), false, true);
    // every extreme value in every field, and all pairs of fields
    typedef std::vector<std::pair<std::string, std::function<void(Config&)>>> Muts;
    std::vector<Muts> fields;
    auto ints = [&](const char* n, std::function<void(Config&, int)> set) {
      Muts m;
      for (int v : kInt) m.push_back({std::string(n) + "=" + std::to_string(v), [set, v](Config& c) { set(c, v); }});
      fields.push_back(m);
    };
    {
      Muts m;
      for (auto v : kDb) m.push_back({"db=" + std::to_string(v), [v](Config& c) { c.db_size = v; }});
      fields.push_back(m);
    }
    for (int which = 0; which < 2; which++) {
      Muts m;
      for (auto v : kDbl) m.push_back({(which ? "delta=" : "epsilon=") + std::to_string(v) + "#" + std::to_string(m.size()), [v, which](Config& c) { (which ? c.delta : c.epsilon) = v; }});
      fields.push_back(m);
    }
    for (int p = 0; p < 2; p++) {
      ints(p ? "shared1" : "shared0", [p](Config& c, int v) { c.parties[p].shared_seed = v; });
      Muts m;
      for (int v : {0, 10, 13, 26, 127, 128, 255})
        m.push_back({"keys" + std::to_string(p) + "=" + std::to_string(v), [v, p](Config& c) {
                       c.parties[p].onion_pkey.fill(v);
                       c.parties[p].onion_skey.fill(255 - v);
                     }});
      fields.push_back(m);
      for (int s = 0; s < 2; s++) {
        std::string at = std::to_string(p) + "." + std::to_string(s);
        ints(("local" + at).c_str(), [p, s](Config& c, int v) { c.parties[p].servers[s].local_seed = v; });
        ints(("port" + at).c_str(), [p, s](Config& c, int v) { c.parties[p].servers[s].port = v; });
        ints(("parallel" + at).c_str(), [p, s](Config& c, int v) { c.parties[p].servers[s].parallel_port = v; });
        Muts ip;
        for (size_t k = 0; k < kIp.size(); k++) ip.push_back({"ip" + at + "#" + std::to_string(k), [p, s, k](Config& c) { c.parties[p].servers[s].ip = kIp[k]; }});
        fields.push_back(ip);
      }
    }
    for (size_t a = 0; a < fields.size(); a++)
      for (auto& x : fields[a])
        if (Mine(x.first)) {
          Config c = Base(2, 2);
          x.second(c);
          Round(c, true, true);
          for (size_t b = a + 1; b < fields.size(); b++)
            for (auto& y : fields[b]) {
              Config d = c;
              y.second(d);
              Round(d, false, false);
            }
        }
    if (Mine("no file")) {
      Config c;
      if (Guard([&] { c = config::ReadFile(dir + "/none"); }).empty()) Bad("a configuration file that does not exist is accepted");
    }
    if (part == 0) Sample("every pair of extreme field values in a 2x2 deployment; every truncation point; 1 to 9 extra bytes; up to 255 parties and servers");
    rmdir(dir.c_str());
  });
}
