// Transport driver: endpoints that exchange scripted messages over the real
// socket classes and compare what arrives with what was sent.
//   prog=<pair|par>:<nodes>:<cipher size>:<phase>:<phase>...
// pair: node 0 is the ClientSocket, node 1 the ServerSocket.
//   cN count N, y ready, kN N ciphers, qN N queries, rN N responses
//   KN, QN, RN: the same, with a flush after every second message as well
// par: ParallelSocket between all nodes; the counts come from a digit string
// per phase with one digit per ordered pair (i,j), i != j, row by row
//   c, y, k<digits>, q<digits>, r<digits>, s<digits, one per sender>
//   a trailing =T: the reader asks for T messages each time, more than are sent
//   an upper case letter polls (timeout 0) and reads after every message sent
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include <functional>
#include <string>
#include <vector>

#include "DPPIR/config/config.h"
#include "DPPIR/sockets/client_socket.h"
#include "DPPIR/sockets/parallel_socket.h"
#include "DPPIR/sockets/server_socket.h"
#include "DPPIR/types/containers.h"
#include "DPPIR/types/types.h"

using namespace DPPIR;

namespace {

template <typename M>
void Fill(void* p, size_t n, M phase, unsigned src, unsigned dst, unsigned seq) {
  unsigned char* c = static_cast<unsigned char*>(p);
  uint64_t x = (uint64_t)phase * 1000003 + src * 10007 + dst * 101 + seq * 7919 + 12345;
  for (size_t i = 0; i < n; i++) {
    x = x * 6364136223846793005ull + 1442695040888963407ull;
    c[i] = x >> 56;
  }
  if (n >= 4) c[0] = seq, c[1] = seq >> 8, c[2] = phase, c[3] = src * 16 + dst;
}
bool Check(const void* p, size_t n, unsigned phase, unsigned src, unsigned dst, unsigned seq) {
  std::vector<char> want(n);
  Fill(want.data(), n, phase, src, dst, seq);
  return memcmp(p, want.data(), n) == 0;
}

// Reads `count` messages and checks them; get(remaining) returns a buffer.
template <typename G>
bool Drain(unsigned count, size_t size, unsigned phase, unsigned src, unsigned dst, G get) {
  unsigned seen = 0;
  while (seen < count) {
    auto& b = get(count - seen);
    unsigned here = 0;
    for (auto&& m : b) {
      const void* p;
      if constexpr (std::is_pointer<std::decay_t<decltype(m)>>::value) p = m;
      else p = &m;
      if (!Check(p, size, phase, src, dst, seen)) return false;
      seen++;
      here++;
    }
    if (here != b.Size() || seen > count) return false;
    b.Clear();
  }
  return true;
}

// CipherIterator's operator* is not a reference to an element.
template <typename G>
bool DrainCiphers(unsigned count, size_t size, unsigned phase, unsigned src, unsigned dst, G get) {
  unsigned seen = 0;
  while (seen < count) {
    CipherLogicalBuffer& b = get(count - seen);
    unsigned here = 0;
    for (auto it = b.begin(); it != b.end(); ++it, here++)
      if (!Check(*it, size, phase, src, dst, seen++)) return false;
    if (here != b.Size() || seen > count) return false;
    b.Clear();
  }
  return true;
}

// What a reader asks for when `left` messages are still to come.
unsigned Ask(const std::string& phase, unsigned left) {
  size_t eq = phase.find('=');
  return eq == std::string::npos ? left : strtoul(phase.c_str() + eq + 1, nullptr, 10);
}

int Pair(int me, size_t cs, const std::vector<std::string>& script) {
  auto flushed = [](char kind, unsigned i) { return kind < 'a' && i % 2; };
  if (me == 0) {
    auto sp = std::make_unique<sockets::ClientSocket>(cs);
    auto& s = *sp;
    s.Initialize("127.0.0.1", 3000);
    for (unsigned ph = 0; ph < script.size(); ph++) {
      char k = script[ph][0];
      unsigned n = strtoul(script[ph].c_str() + 1, nullptr, 10);
      if (k == 'c') s.SendCount(n * 16777259u + n);
      else if (k == 'y') s.WaitForReady();
      else if (k == 'k' || k == 'K') {
        std::vector<char> c(cs);
        for (unsigned i = 0; i < n; i++) {
          Fill(c.data(), cs, ph, 0, 1, i);
          s.SendCipher(c.data());
          if (flushed(k, i)) s.FlushCiphers();
        }
        s.FlushCiphers();
      } else if (k == 'q' || k == 'Q') {
        for (unsigned i = 0; i < n; i++) {
          Query q;
          Fill(&q, sizeof q, ph, 0, 1, i);
          s.SendQuery(q);
          if (flushed(k, i)) s.FlushQueries();
        }
        s.FlushQueries();
      } else if (k == 'r' || k == 'R') {
        if (!Drain(n, sizeof(Response), ph, 1, 0, [&](unsigned left) -> auto& { return s.ReadResponses(Ask(script[ph], left)); })) return 5;
      }
    }
  } else {
    auto sp = std::make_unique<sockets::ServerSocket>(cs);
    auto& s = *sp;
    s.Initialize(3000);
    for (unsigned ph = 0; ph < script.size(); ph++) {
      char k = script[ph][0];
      unsigned n = strtoul(script[ph].c_str() + 1, nullptr, 10);
      if (k == 'c') {
        if (s.ReadCount() != n * 16777259u + n) return 6;
      } else if (k == 'y') s.SendReady();
      else if (k == 'k' || k == 'K') {
        if (!DrainCiphers(n, cs, ph, 0, 1, [&](unsigned left) -> auto& { return s.ReadCiphers(Ask(script[ph], left)); })) return 7;
      } else if (k == 'q' || k == 'Q') {
        if (!Drain(n, sizeof(Query), ph, 0, 1, [&](unsigned left) -> auto& { return s.ReadQueries(Ask(script[ph], left)); })) return 8;
      } else if (k == 'r' || k == 'R') {
        for (unsigned i = 0; i < n; i++) {
          Response r;
          Fill(&r, sizeof r, ph, 1, 0, i);
          s.SendResponse(r);
          if (flushed(k, i)) s.FlushResponses();
        }
        s.FlushResponses();
      }
    }
  }
  return 0;
}

int Par(int me, int n, size_t cs, const std::vector<std::string>& script) {
  config::PartyConfig pc;
  for (int i = 0; i < n; i++) {
    config::ServerConfig sc;
    sc.ip = "127.0.0.1";
    sc.port = 3000 + i;
    sc.parallel_port = 4000 + i;
    pc.servers.push_back(sc);
  }
  auto sp = std::make_unique<sockets::ParallelSocket>(me, n, cs);
  auto& s = *sp;
  s.Initialize(pc);
  for (unsigned ph = 0; ph < script.size(); ph++) {
    char k = script[ph][0], kind = k | 32;
    bool eager = k < 'a';
    const char* d = script[ph].c_str() + 1;
    auto count = [&](int from, int to) -> unsigned {
      if (kind == 's') return d[from] - '0';
      return d[from * (n - 1) + (to > from ? to - 1 : to)] - '0';
    };
    if (kind == 'c') {
      s.BroadcastCount(me * 16777259u + 77 + ph);
      for (int j = 0; j < n; j++)
        if (j != me && s.ReadCount(j) != j * 16777259u + 77 + ph) return 6;
      continue;
    }
    if (kind == 'y') {
      s.BroadcastReady();
      s.WaitForReady();
      continue;
    }
    ServersMap<bool> polled(me, n, false);
    std::vector<unsigned> got(n, 0);
    unsigned todo = 0;
    bool bad = false;
    s.ResetServers();
    for (int j = 0; j < n; j++) {
      if (j == me) continue;
      todo += count(j, me);
      if (!count(j, me)) s.IgnoreServer(j);
    }
    auto readFrom = [&](int j) {
      unsigned left = Ask(script[ph], count(j, me) - got[j]), k0 = got[j];
      auto take = [&](auto& b, size_t size) {
        unsigned here = 0;
        for (auto it = b.begin(); it != b.end(); ++it, here++) {
          const void* p;
          if constexpr (std::is_same<std::decay_t<decltype(b)>, CipherLogicalBuffer>::value) p = *it;
          else p = &*it;
          if (!Check(p, size, ph, j, kind == 's' ? 9 : me, got[j]++)) bad = true;
        }
        if (here != b.Size()) bad = true;
        b.Clear();
      };
      if (kind == 'k') take(s.ReadCiphers(j, left), cs);
      else if (kind == 'q') take(s.ReadQueries(j, left), sizeof(Query));
      else if (kind == 'r') take(s.ReadResponses(j, left), sizeof(Response));
      else take(s.ReadSecrets(j, left), sizeof(OfflineSecret));
      if (got[j] > count(j, me)) bad = true;
      todo -= got[j] - k0;
      if (got[j] == count(j, me)) s.IgnoreServer(j);
    };
    auto pump = [&](int timeout) {
      unsigned c = s.Poll(&polled, timeout);
      if (timeout < 0 && c == 0) bad = true;
      unsigned hits = 0;
      for (int j = 0; j < n; j++)
        if (j != me && polled[j]) {
          polled[j] = false;
          hits++;
          if (got[j] == count(j, me)) bad = true;  // reported although ignored
          else readFrom(j);
          if (bad) return;
        }
      if (hits != c) bad = true;
    };
    unsigned most = 0;
    for (int j = 0; j < n; j++)
      if (j != me && count(me, j) > most) most = count(me, j);
    for (unsigned i = 0; i < most && !bad; i++) {
      if (kind == 's') {
        OfflineSecret o;
        Fill(&o, sizeof o, ph, me, 9, i);
        s.BroadcastSecret(o);
      } else {
        for (int j = 0; j < n; j++) {
          if (j == me || i >= count(me, j)) continue;
          if (kind == 'k') {
            std::vector<char> c(cs);
            Fill(c.data(), cs, ph, me, j, i);
            s.SendCipher(j, c.data());
          } else if (kind == 'q') {
            Query q;
            Fill(&q, sizeof q, ph, me, j, i);
            s.SendQuery(j, q);
          } else {
            Response r;
            Fill(&r, sizeof r, ph, me, j, i);
            s.SendResponse(j, r);
          }
        }
      }
      if (eager && todo) pump(0);
    }
    if (kind == 'k') s.FlushCiphers();
    else if (kind == 'q') s.FlushQueries();
    else if (kind == 'r') s.FlushResponses();
    else s.FlushSecrets();
    while (todo && !bad) pump(-1);
    s.ResetServers();
    if (bad) return 9;
  }
  return 0;
}

}  // namespace

int vmc_prog_main(int argc, char** argv) {
  if (argc < 5) return 99;
  int me = atoi(argv[1]), n = atoi(argv[3]);
  size_t cs = atoi(argv[4]);
  std::vector<std::string> script(argv + 5, argv + argc);
  if (!strcmp(argv[2], "pair")) return Pair(me, cs, script);
  return Par(me, n, cs, script);
}
