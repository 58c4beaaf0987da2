// Tags of every participant over the whole range of parties, servers and query numbers (C15).
// The participants are constructed for real (the network answers at once), then asked for tags.
#include <netinet/in.h>
#include <poll.h>
#include <sys/socket.h>
#include <unistd.h>

#include <algorithm>
#include <iostream>
#include <memory>
#include <unordered_map>

#include "DPPIR/config/config.h"
#include "DPPIR/protocol/client/client.h"
#include "DPPIR/protocol/parallel_party/parallel_party.h"
#include "DPPIR/protocol/party/party.h"
#include "unit.h"

using namespace DPPIR;
using namespace unit;

static int fake = 500, siblings = 0;
extern "C" {
ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, const void*, size_t);
int __real_close(int);
int __wrap_socket(int, int, int) { return fake++; }
int __wrap_setsockopt(int, int, int, const void*, socklen_t) { return 0; }
int __wrap_getsockopt(int, int, int, void* v, socklen_t* n) {
  if (n && *n == 4) *static_cast<int*>(v) = 1 << 30;
  return 0;
}
int __wrap_bind(int, const sockaddr*, socklen_t) { return 0; }
int __wrap_listen(int, int) { return 0; }
int __wrap_accept(int, sockaddr*, socklen_t*) { return fake++; }
int __wrap_accept4(int, sockaddr*, socklen_t*, int) { return fake++; }
int __wrap_connect(int, const sockaddr*, socklen_t) { return 0; }
static ssize_t In(void* p, size_t n) {  // siblings introduce themselves, lowest first
  memset(p, 0, n);
  *static_cast<unsigned char*>(p) = siblings++;
  return n;
}
ssize_t __wrap_read(int fd, void* p, size_t n) { return fd >= 500 ? In(p, n) : __real_read(fd, p, n); }
ssize_t __wrap_recv(int, void* p, size_t n, int) { return In(p, n); }
ssize_t __wrap_recvfrom(int, void* p, size_t n, int, sockaddr*, socklen_t*) { return In(p, n); }
ssize_t __wrap_write(int fd, const void* p, size_t n) { return fd >= 500 ? (ssize_t)n : __real_write(fd, p, n); }
ssize_t __wrap_send(int, const void*, size_t n, int) { return n; }
ssize_t __wrap_sendto(int, const void*, size_t n, int, const sockaddr*, socklen_t) { return n; }
int __wrap_poll(pollfd*, nfds_t, int) { return 0; }
int __wrap_close(int fd) { return fd >= 500 ? 0 : __real_close(fd); }
int __wrap_shutdown(int, int) { return 0; }
unsigned __wrap_sleep(unsigned) { return 0; }
int __wrap_usleep(unsigned) { return 0; }
}

// The members below are private (-fno-access-control); where one does not exist the question is not asked.
template <class T>
static auto Tag(T& t, index_t id, tag_t* out, int) -> decltype(t.SampleTag(id), bool()) {
  *out = t.SampleTag(id);
  return true;
}
template <class T>
static bool Tag(T&, index_t, tag_t*, long) {
  return false;
}
template <class T>
static auto Counts(T& t, index_t input, index_t noise, int) -> decltype(t.input_count_ = input, t.noise_count_ = noise, bool()) {
  t.input_count_ = input;
  t.noise_count_ = noise;
  t.shuffled_count_ = input + noise;
  return true;
}
template <class T>
static bool Counts(T&, index_t, index_t, long) {
  return false;
}

static config::Config Deployment(int P, int S, int p) {  // only what participants of party p look at
  config::Config c;
  c.db_size = 300;
  c.epsilon = c.delta = 0;
  c.party_count = P;
  c.server_count = S;
  c.parties.resize(P);
  for (int i : {p, p + 1}) {
    if (i >= P) continue;
    c.parties[i].shared_seed = 1;
    config::ServerConfig s;
    s.local_seed = 1, s.port = 3000, s.parallel_port = 4000, s.ip = "127.0.0.1";
    c.parties[i].servers.assign(S, s);
  }
  return c;
}
struct Owner {
  int party, server;  // party -1: client
  uint64_t id;
};
static std::unordered_map<tag_t, Owner> seen;
static std::string Who(const Owner& o) {
  return o.party < 0 ? "client of server " + std::to_string(o.server) : "party " + std::to_string(o.party) + " server " + std::to_string(o.server);
}
static void Check(tag_t t, const Owner& o) {
  Count("transitions");
  auto r = seen.emplace(t, o);
  const Owner& w = r.first->second;
  if (!r.second && (w.party != o.party || w.server != o.server || w.id != o.id) && !CaseBad())
    Bad("query %llu of %s and query %llu of %s both get tag %llu", (unsigned long long)w.id, Who(w).c_str(), (unsigned long long)o.id, Who(o).c_str(), (unsigned long long)t);
}
template <class T>
static void Ask(T& t, int p, int s, const std::vector<uint64_t>& ids) {
  for (uint64_t id : ids) {
    tag_t x;
    if (!Tag(t, id, &x, 0)) {
      Count("unavailable");
      return;
    }
    Count("tags");
    Check(x, {p, s, id});
  }
  Count("states");
}

static const uint64_t kMax = ~uint32_t(0);
static void Parallel(int P, int S, const std::vector<int>& parties, const std::vector<int>& servers, const std::vector<uint64_t>& ids) {
  std::string name = "P=" + std::to_string(P) + " S=" + std::to_string(S) + " parties=" + std::to_string(parties.size()) + " servers=" + std::to_string(servers.size()) + " ids=" +
                     std::to_string(ids.size());
  if (!Mine(name)) return;
  seen.clear();
  std::string r = Guard([&] {
    for (int s : servers) {
      siblings = 0, fake = 500;
      protocol::Client c(s, Deployment(P, S, 0), Database(300));
      Ask(c, -1, s, ids);
      for (int p : parties) {
        siblings = 0, fake = 500;
        auto q = std::make_unique<protocol::ParallelParty>(p, s, Deployment(P, S, p), Database(300));
        Ask(*q, p, s, ids);
      }
    }
  });
  if (!r.empty()) Bad("a participant does not start: %s", r.c_str());
  Sample(name);
}
// A chain of single servers: the client's count and each party's noise, over their corners.
static void Chain(int P, const std::vector<uint64_t>& n) {
  std::string name = "chain";
  for (uint64_t v : n) name += "," + std::to_string(v);
  if (!Mine(name)) return;
  seen.clear();
  auto Ids = [](uint64_t k) {
    std::vector<uint64_t> v;
    for (uint64_t i : {0ull, 1ull, 2ull, 255ull, 256ull, 65535ull, 65536ull, (1ull << 24) - 1, 1ull << 24, (1ull << 31) - 1, 1ull << 31})
      if (i < k) v.push_back(i);
    for (uint64_t i = k > 3 ? k - 3 : 0; i < k; i++) v.push_back(i);
    return v;
  };
  std::string r = Guard([&] {
    siblings = 0, fake = 500;
    protocol::Client c(0, Deployment(P, 1, 0), Database(300));
    Ask(c, -1, 0, Ids(n[0]));
    uint64_t in = n[0];
    for (int p = 0; p < P - 1; p++) {
      fake = 500;
      auto q = std::make_unique<protocol::Party>(p, 0, Deployment(P, 1, p), Database(300));
      if (!Counts(*q, in, n[p + 1], 0)) {
        Count("unavailable");
        return;
      }
      Ask(*q, p, 0, Ids(n[p + 1]));
      in += n[p + 1];
    }
  });
  if (!r.empty()) Bad("a participant does not start: %s", r.c_str());
}

int main(int argc, char** argv) {
  std::cout.setstate(std::ios::badbit);
  return Main(argc, argv, [] {
    std::vector<int> all, some = {0, 1, 2, 63, 64, 127, 128, 129, 253, 254}, parties = {0, 1, 2, 63, 64, 127, 128, 251, 252, 253}, every;
    for (int i = 0; i < 255; i++) all.push_back(i);
    for (int i = 0; i < 254; i++) every.push_back(i);
    std::vector<uint64_t> bits = {0}, few = {0, 1, 255, 256, 65535, 65536, (1u << 24) - 1, 1u << 24, kMax};
    for (int b = 0; b < 32; b++)
      for (int64_t d : {-1, 0, 1}) bits.push_back((1ll << b) + d);
    bits.push_back(kMax - 1), bits.push_back(kMax);
    std::sort(bits.begin(), bits.end());
    bits.erase(std::unique(bits.begin(), bits.end()), bits.end());
    Parallel(255, 255, parties, all, few);
    Parallel(255, 255, every, some, few);
    for (int P : {2, 3, 4, 16, 255})
      for (int S : {2, 3, 4, 16, 255}) {
        std::vector<int> p, s;
        for (int x : every)
          if (x < P - 1 && (x < 4 || x >= P - 4 || (x & (x - 1)) == 0)) p.push_back(x);
        for (int x : all)
          if (x < S && (x < 4 || x >= S - 4 || (x & (x - 1)) == 0)) s.push_back(x);
        Parallel(P, S, p, s, bits);
      }
    if (thorough) Parallel(255, 255, every, all, few);
    std::vector<uint64_t> v = {0, 1, 2, 3, 255, 256, 65535, 65536, 1u << 24, 1u << 31, kMax};
    for (uint64_t a : v)
      for (uint64_t b : v) {
        if (a + b > kMax) continue;
        Chain(2, {a, b});
        for (uint64_t c : v) {
          if (a + b + c > kMax) continue;
          Chain(3, {a, b, c});
          for (uint64_t d : v)
            if (a + b + c + d <= kMax) Chain(4, {a, b, c, d});
        }
      }
  });
}
