// Shuffles: validity, inversion, agreement between servers (C07) and
// uniformity (C08), over all random tapes within bounds.
#include <algorithm>
#include <cmath>
#include <memory>
#include <numeric>
#include <set>

#include "DPPIR/shuffle/local_shuffle.h"
#include "DPPIR/shuffle/parallel_shuffle.h"
#include "unit.h"

using namespace DPPIR;
using namespace unit;
using shuffle::LocalShuffler;
using shuffle::ParallelShuffler;

static const std::vector<int> kEdges = {0, 1, 1073741823, 1073741824, 2147483646, 2147483647};

static std::string Str(const std::vector<index_t>& v) {
  std::string s;
  for (auto x : v) s += (s.empty() ? "" : ",") + std::to_string(x);
  return s;
}

// One server's view of a local shuffle; false if it was bad.
static bool CheckLocal(LocalShuffler& l, uint32_t n, std::vector<index_t>* perm) {
  perm->assign(n, 0);
  std::vector<bool> hit(n, false);
  for (uint32_t i = 0; i < n; i++) {
    index_t t = l.Shuffle(i);
    if (t >= n || hit[t]) {
      Bad("size %u: message %u goes to place %u, which is %s", n, i, t, t >= n ? "outside" : "taken");
      return false;
    }
    hit[t] = true;
    (*perm)[i] = t;
    if (l.Deshuffle(t) != i) {
      Bad("size %u: message %u goes to %u but comes back to %u", n, i, t, l.Deshuffle(t));
      return false;
    }
  }
  return true;
}
static bool OneLocal(int seed, uint32_t n, std::vector<index_t>* perm, const std::string& junk) {
  bool ok = true;
  std::string w = Guard([&] {
    Stream(junk);
    LocalShuffler l(seed);
    l.Initialize(n);
    ok = CheckLocal(l, n, perm);
    // the forward map may be dropped before the backward direction is used
    l.FinishForward();
    for (uint32_t i = 0; ok && i < n; i++)
      if (l.Deshuffle((*perm)[i]) != i) {
        Bad("size %u: after the forward phase message %u no longer comes back", n, i);
        ok = false;
      }
    l.FinishBackward();
  });
  if (!w.empty()) {
    Bad("local shuffle of %u with seed %d: %s", n, seed, w.c_str());
    return false;
  }
  return ok;
}

struct View {
  std::vector<server_id_t> fwd;
  std::vector<std::vector<index_t>> back;
  std::vector<index_t> to, noise, from, prefix;
  index_t slice;
};
static bool Views(int S, const std::vector<index_t>& counts, const std::vector<index_t>& noise, int seed, std::vector<View>* out,
                  bool reuse) {
  out->assign(S, View());
  index_t total = 0;
  for (auto c : counts) total += c;
  for (int me = 0; me < S; me++) {
    View& v = (*out)[me];
    bool ok = true;
    std::string w = Guard([&] {
      Stream("junk" + std::to_string(me));
      ParallelShuffler p(me, S, seed);
      if (reuse) {
        // an object that served another batch before
        std::vector<index_t> other(S, 2);
        p.Initialize(other.data(), 1);
        for (int k = 0; k < 2; k++) p.DeshuffleOne(p.ShuffleOne());
        Stream("junk'" + std::to_string(me));
      }
      p.Initialize(counts.data(), noise[me]);
      for (int j = 0; j < S; j++) {
        v.to.push_back(p.CountToServer(j));
        v.noise.push_back(p.CountNoiseToServer(j));
        v.from.push_back(p.CountFromServer(j));
        v.prefix.push_back(p.PrefixSumCountFromServer(j));
      }
      v.slice = p.GetServerSliceSize();
      for (index_t i = 0; i < counts[me]; i++) {
        server_id_t t = p.ShuffleOne();
        if (t >= S) {
          Bad("servers %d counts %s: server %d sends message %u to server %d", S, Str(counts).c_str(), me, i, (int)t);
          ok = false;
          return;
        }
        v.fwd.push_back(t);
      }
      // FindSourceOf for every slot of the slice
      index_t sum = 0;
      for (int j = 0; j < S; j++) {
        if (v.prefix[j] != sum) {
          Bad("servers %d counts %s: server %d expects messages of server %d from position %u instead of %u", S, Str(counts).c_str(), me, j,
              v.prefix[j], sum);
          ok = false;
          return;
        }
        for (index_t k = 0; k < v.from[j]; k++)
          if (p.FindSourceOf(sum + k) != j) {
            Bad("servers %d counts %s: server %d takes slot %u to come from server %d instead of %d", S, Str(counts).c_str(), me, sum + k,
                (int)p.FindSourceOf(sum + k), j);
            ok = false;
            return;
          }
        sum += v.from[j];
      }
      p.FinishForward();
      v.back.resize(S);
      // answers of one server come in the order the messages were sent to it; the servers interleave arbitrarily: forwards
      for (int j = 0; j < S; j++)
        for (index_t k = 0; k < v.to[j]; k++) v.back[j].push_back(p.DeshuffleOne(j));
      p.FinishBackward();
    });
    if (!w.empty()) {
      Bad("servers %d counts %s server %d seed %d: %s", S, Str(counts).c_str(), me, seed, w.c_str());
      return false;
    }
    if (!ok) return false;
  }
  // agreement
  index_t per = total / S;
  for (int i = 0; i < S; i++) {
    View& v = (*out)[i];
    index_t want = i == S - 1 ? total - per * (S - 1) : per, got = 0;
    if (v.slice != want) {
      Bad("servers %d counts %s: server %d gets a slice of %u instead of %u", S, Str(counts).c_str(), i, v.slice, want);
      return false;
    }
    std::vector<index_t> hist(S, 0), nh(S, 0);
    std::vector<std::vector<index_t>> order(S);
    for (index_t k = 0; k < v.fwd.size(); k++) {
      hist[v.fwd[k]]++;
      if (k < noise[i]) nh[v.fwd[k]]++;
      order[v.fwd[k]].push_back(k);
    }
    for (int j = 0; j < S; j++) {
      got += v.from[j];
      if (hist[j] != v.to[j] || nh[j] != v.noise[j] || (*out)[j].from[i] != v.to[j] || order[j] != v.back[j]) {
        Bad("servers %d counts %s: server %d to %d: sends %u (of them noise %u), announces %u (%u), the other expects %u, way back %s", S,
            Str(counts).c_str(), i, j, hist[j], nh[j], v.to[j], v.noise[j], (*out)[j].from[i],
            order[j] == v.back[j] ? "right" : "different");
        return false;
      }
    }
    if (got != want) {
      Bad("servers %d counts %s: server %d receives %u messages instead of %u", S, Str(counts).c_str(), i, got, want);
      return false;
    }
  }
  return true;
}

static void EachCounts(int S, index_t total, const std::function<void(const std::vector<index_t>&)>& f) {
  std::vector<index_t> c(S, 0);
  std::function<void(int, index_t)> rec = [&](int k, index_t left) {
    if (k == S - 1) {
      c[k] = left;
      f(c);
      return;
    }
    for (index_t v = 0; v <= left; v++) {
      c[k] = v;
      rec(k + 1, left - v);
    }
  };
  rec(0, total);
}

static void C07() {
  // (a) all tapes over extreme values of rand()
  for (uint32_t n = 0; n <= (thorough ? 9u : 7u); n++) {
    if (!Mine("edge local " + std::to_string(n))) continue;
    randMode = ENUM;
    randValues = kEdges;
    dfs = Dfs();
    uint64_t runs = 0;
    do {
      dfs.Start();
      ForgetStreams();
      std::vector<index_t> a, b;
      if (!OneLocal(7, n, &a, "j1")) break;
      if (!OneLocal(7, n, &b, "j2")) break;
      if (a != b) {
        Bad("size %u: equal seeds gave different orders %s and %s", n, Str(a).c_str(), Str(b).c_str());
        break;
      }
      runs++;
    } while (dfs.Next());
    Count("transitions", runs * n * 2);
    Count("tapes", runs);
    randValues.clear();
  }
  // (b) parallel: all count vectors, all tapes
  for (int S = 1; S <= 5; S++)
    for (index_t total = 0; total <= (S <= 3 ? 5u : 4u); total++)
      EachCounts(S, total, [&](const std::vector<index_t>& c) {
        for (int nv = 0; nv < 3; nv++) {
          for (int reuse = 0; reuse < (S <= 3 ? 2 : 1); reuse++) {
            if (!Mine("parallel S=" + std::to_string(S) + " counts=" + Str(c) + " noise=" + std::to_string(nv) + " reuse=" + std::to_string(reuse)))
              continue;
            std::vector<index_t> noise(S);
            for (int i = 0; i < S; i++) noise[i] = nv == 0 ? 0 : nv == 1 ? c[i] : (c[i] + i) / 2;
            randMode = ENUM;
            randValues.clear();
            randStrata = total <= 2 ? 2 : total == 3 ? 6 : 12;
            if (total == 5 || (reuse && total >= 4)) randStrata = thorough ? 12 : 5;
            dfs = Dfs();
            uint64_t runs = 0;
            if (reuse) {
              // the earlier batch uses the same seed, hence the same tape prefix: draws are shared
              randStrata = std::min<uint32_t>(randStrata, 3);
            }
            std::vector<View> v;
            do {
              dfs.Start();
              ForgetStreams();
              if (!Views(S, c, noise, 5, &v, reuse)) break;
              runs++;
            } while (dfs.Next());
            Count("tapes", runs);
            Count("transitions", runs * total * S);
          }
        }
      });
  // (c) the real generator: many sizes, seeds and server counts
  randMode = REAL;
  std::vector<int> seeds = {0, 1, 2, 3, 7, 1000, 1001, 65537, -1, 2147483647, (int)0x80000000};
  for (uint32_t n : {0u, 1u, 2u, 3u, 4u, 5u, 6u, 7u, 8u, 31u, 64u, 255u, 256u, 257u, 1000u, 4096u, 65535u, 65536u, 65537u, 200003u})
    for (int sd : seeds) {
      if (!Mine("local n=" + std::to_string(n) + " seed=" + std::to_string(sd))) continue;
      std::vector<index_t> a, b;
      if (OneLocal(sd, n, &a, "u") && OneLocal(sd, n, &b, "u") && a != b) Bad("size %u seed %d: equal seeds gave different orders", n, sd);
      Count("real_shuffles", 2);
      Count("transitions", n);
    }
  for (int S : {1, 2, 3, 4, 5, 6, 7, 8, 16, 100, 127, 128, 129, 200, 254, 255})
    for (uint32_t n : {0u, 1u, 2u, 3u, 7u, 50u, 127u, 254u, 255u, 256u, 257u, 300u, 1000u, 4099u, 70001u})
      for (int sd : {1, 1003, -5}) {
        if (S > 16 && n > 5000 && !thorough) continue;
        for (int shape = 0; shape < 4; shape++) {
          if (!Mine("big S=" + std::to_string(S) + " n=" + std::to_string(n) + " seed=" + std::to_string(sd) + " shape=" + std::to_string(shape))) continue;
          std::vector<index_t> c(S, 0), noise(S);
          if (shape == 0) for (int i = 0; i < S; i++) c[i] = n / S + (i < (int)(n % S));
          if (shape == 1) c[0] = n;
          if (shape == 2) c[S - 1] = n;
          if (shape == 3) { index_t left = n; for (int i = 0; i < S; i++) { c[i] = i == S - 1 ? left : std::min(left, (index_t)(i * 3 % 7) * (n / (3 * S) + 1)); left -= c[i]; } }
          for (int i = 0; i < S; i++) noise[i] = (sd & 1) ? c[i] / 3 : c[i];
          std::vector<View> v;
          Views(S, c, noise, sd, &v, false);
          Count("real_shuffles");
          Count("transitions", (uint64_t)n * S);
        }
      }
}

// ---- uniformity
static void Uniform(const std::map<std::vector<index_t>, double>& hist, double expected, const std::string& what) {
  double cells = 1 / expected;
  if (hist.size() != (size_t)(cells + 0.5)) {
    Bad("%s: %zu of %.0f outcomes are possible", what.c_str(), hist.size(), cells);
    return;
  }
  for (auto& h : hist)
    if (h.second < expected * (1 - 1e-6) || h.second > expected * (1 + 1e-6)) {
      Bad("%s: outcome %s has probability %.9f instead of %.9f", what.c_str(), Str(h.first).c_str(), h.second, expected);
      return;
    }
}
static double Fact(int n) { return n <= 1 ? 1 : n * Fact(n - 1); }

static void C08() {
  randMode = ENUM;
  // the permutations of one server
  for (uint32_t n = 1; n <= 5; n++) {
    if (!Mine("uniform local " + std::to_string(n))) continue;
    randStrata = n <= 2 ? 2 : n == 3 ? 6 : n == 4 ? 12 : 60;
    dfs = Dfs();
    std::map<std::vector<index_t>, double> hist;
    uint64_t runs = 0;
    bool ok = true;
    do {
      dfs.Start();
      ForgetStreams();
      std::vector<index_t> a;
      ok = OneLocal(3, n, &a, "j");
      if (!ok) break;
      hist[a] += dfs.weight;
      runs++;
    } while (dfs.Next());
    if (ok) Uniform(hist, 1 / Fact(n), "local shuffle of " + std::to_string(n));
    Count("tapes", runs);
    Count("transitions", runs * n);
    Count("outcomes", hist.size());
    Sample("local shuffle of " + std::to_string(n) + ": " + std::to_string(runs) + " tapes, " + std::to_string(hist.size()) + " orders");
  }
  // larger sizes: where can the first and the last message go (one draw fixed at a time is not enough: edges of every draw)
  for (uint32_t n : {6u, 7u, 8u, 9u, 10u, 12u, 16u, 33u, 100u}) {
    if (!Mine("reach local " + std::to_string(n))) continue;
    // every message must be able to reach every place: vary two draws over n strata, others fixed at several backgrounds
    std::set<std::pair<index_t, index_t>> seen;
    bool ok = true;
    for (uint32_t d1 = 0; d1 < n && ok; d1++)
      for (uint32_t v1 = 0; v1 < n && ok; v1++)
        for (int bg = 0; bg < 3 && ok; bg++) {
          randMode = SCRIPT;
          randScript = [&](const std::string&, uint64_t pos) {
            if (pos == d1) return Stratum(v1, n);
            return bg == 0 ? 2147483647 : bg == 1 ? 0 : Stratum(pos * 7 % n, n);
          };
          ForgetStreams();
          std::vector<index_t> a;
          ok = OneLocal(3, n, &a, "j");
          Count("tapes");
          for (uint32_t i = 0; ok && i < n; i++) seen.insert({i, a[i]});
        }
    if (ok && seen.size() != (size_t)n * n) Bad("size %u: only %zu of %u (message, place) pairs can occur", n, seen.size(), n * n);
    randMode = ENUM;
  }
  // every draw must matter to its full extent: the number of different orders one draw can cause, the others fixed
  // (the draw takes evenly spaced values, which suits scaling, or consecutive ones, which suits a remainder)
  auto vary1 = [&](uint32_t n, const std::function<uint32_t(uint64_t pos)>& base, int64_t d, uint32_t from, uint32_t to, bool even, uint64_t* draws) {
    std::set<uint64_t> orders;
    for (uint32_t v = from; v < to; v++) {
      randMode = SCRIPT;
      randScript = [&](const std::string&, uint64_t pos) { return (int64_t)pos != d ? (int)base(pos) : even ? (int)(((2ull * v + 1) << 30) / n) : (int)v; };
      ForgetStreams();
      std::vector<index_t> a;
      if (!OneLocal(3, n, &a, "j")) return (size_t)0;
      if (draws) *draws = randDraws;
      uint64_t h = 1;
      for (auto x : a) h = (h ^ x) * 0x9e3779b97f4a7c15ull, h ^= h >> 29;
      orders.insert(h);
      Count("tapes"), Count("transitions", n);
    }
    randMode = ENUM;
    return orders.size();
  };
  auto vary = [&](uint32_t n, const std::function<uint32_t(uint64_t pos)>& base, int64_t d, uint32_t from, uint32_t to, size_t enough, uint64_t* draws) {
    size_t k = vary1(n, base, d, from, to, true, draws);
    if (k && k < enough) k = std::max(k, vary1(n, base, d, from, to, false, draws));
    return k;
  };
  auto noisy = [](uint64_t pos) { return (uint32_t)((pos + 1) * 0x9e3779b97f4a7c15ull >> 33); };
  for (uint32_t n : {2u, 3u, 5u, 20u, 101u, 150u, 257u}) {
    if (n > 200 && !thorough) continue;
    if (!Mine("extent " + std::to_string(n))) continue;
    uint64_t draws = 1;
    double have = 0, want = 0;
    for (uint32_t i = 2; i <= n; i++) want += std::log((double)i);
    for (uint64_t d = 0; d < draws && !CaseBad(); d++) {
      size_t k = vary(n, noisy, d, 0, n, 0, &draws);
      if (k) have += std::log((double)k);
    }
    if (!CaseBad() && have < want - 1e-6) {
      have = 0;
      for (uint64_t d = 0; d < draws && !CaseBad(); d++) have += std::log((double)std::max<size_t>(1, vary1(n, noisy, d, 0, n, false, &draws)));
    }
    if (!CaseBad() && have < want - 1e-6) Bad("size %u: at most e^%.3f of e^%.3f orders are possible", n, have, want);
  }
  for (uint32_t n : {1100u, 3000u}) {
    // draws that decide about the whole range in descending or ascending order
    if (!Mine("extent of some " + std::to_string(n))) continue;
    bool down = true, up = true;
    for (uint32_t d : {0u, 1u, 2u, 7u, n / 20, n / 2, n - 300, n - 50, n - 4, n - 3, n - 2}) {
      size_t k = vary(n, noisy, d, 0, n, down ? n - d : up ? d + 1 : 0, nullptr);
      if (CaseBad()) break;
      if (k < n - d) down = false;
      if (k < d + 1) up = false;
    }
    if (!CaseBad() && !down && !up) Bad("size %u: there are draws that cannot choose among all places", n);
  }
  for (uint32_t n : {70000u, 300000u, 1000000u}) {
    if (n > 300000 && !thorough) continue;
    if (!Mine("resolution " + std::to_string(n))) continue;
    uint64_t draws = 0;
    size_t best = vary(n, noisy, 0, n / 3, n / 3 + 48, 47, &draws);
    if (best < 47 && draws && !CaseBad()) best = std::max(best, vary(n, noisy, draws - 1, n / 3, n / 3 + 48, 47, nullptr));
    if (!CaseBad() && best < 47) Bad("size %u: 48 neighbouring places can be told apart only into %zu groups", n, best);
  }
  // two shuffles with different seeds are independent
  const int pairs[][2] = {{1, 2}, {1, 257}, {5, 65541}, {1, -1}, {3, -3}, {0, 1000}, {1000, 1001}, {2, 16777218}, {0, 2147483647}, {7, (int)0x80000007}};
  for (auto& pr : pairs) {
    if (!Mine("independent local " + std::to_string(pr[0]) + " " + std::to_string(pr[1]))) continue;
    randStrata = 6;
    dfs = Dfs();
    std::map<std::vector<index_t>, double> hist;
    bool ok = true;
    uint64_t runs = 0;
    do {
      dfs.Start();
      ForgetStreams();
      std::vector<index_t> a, b;
      ok = OneLocal(pr[0], 3, &a, "j") && OneLocal(pr[1], 3, &b, "j");
      if (!ok) break;
      a.insert(a.end(), b.begin(), b.end());
      hist[a] += dfs.weight;
      runs++;
    } while (dfs.Next());
    if (ok) Uniform(hist, 1.0 / 36, "orders of two servers with seeds " + std::to_string(pr[0]) + ", " + std::to_string(pr[1]));
    Count("tapes", runs);
    Count("transitions", runs * 6);
    Count("outcomes", hist.size());
  }
  // assignments of messages to servers
  for (int S = 2; S <= 4; S++)
    for (index_t total = 1; total <= (S == 2 || thorough ? 5u : 4u); total++)
      EachCounts(S, total, [&](const std::vector<index_t>& c) {
        if (total == 5 && (c[0] != 3 || c[1] != 2) && !thorough) return;
        if (!Mine("uniform parallel S=" + std::to_string(S) + " counts=" + Str(c))) return;
        randStrata = total <= 2 ? 2 : total == 3 ? 6 : total == 4 ? 12 : 60;
        dfs = Dfs();
        std::map<std::vector<index_t>, double> hist;
        std::vector<index_t> noise(S, 0);
        bool ok = true;
        uint64_t runs = 0;
        do {
          dfs.Start();
          ForgetStreams();
          // what each server does with its own messages
          std::vector<index_t> a;
          for (int me = 0; me < S && ok; me++) {
            std::string w = Guard([&] {
              Stream("j" + std::to_string(me));
              ParallelShuffler p(me, S, 11);
              p.Initialize(c.data(), 0);
              for (index_t i = 0; i < c[me]; i++) a.push_back(p.ShuffleOne());
            });
            if (!w.empty()) Bad("servers %d counts %s: %s", S, Str(c).c_str(), w.c_str()), ok = false;
          }
          if (!ok) break;
          hist[a] += dfs.weight;
          runs++;
        } while (dfs.Next());
        index_t per = total / S;
        double ways = Fact(total) / Fact(total - per * (S - 1));
        for (int i = 0; i < S - 1; i++) ways /= Fact(per);
        if (ok) Uniform(hist, 1 / ways, "assignment to " + std::to_string(S) + " servers, counts " + Str(c));
        Count("tapes", runs);
        Count("transitions", runs * total * S);
        Count("outcomes", hist.size());
      });
  for (auto& pr : pairs) {
    if (!Mine("independent parallel " + std::to_string(pr[0]) + " " + std::to_string(pr[1]))) continue;
    randStrata = 6;
    dfs = Dfs();
    std::map<std::vector<index_t>, double> hist;
    bool ok = true;
    uint64_t runs = 0;
    std::vector<index_t> c = {2, 1};
    do {
      dfs.Start();
      ForgetStreams();
      std::vector<index_t> a;
      for (int k = 0; k < 2 && ok; k++) {
        std::string w = Guard([&] {
          Stream("j");
          ParallelShuffler p(0, 2, pr[k]);
          p.Initialize(c.data(), 0);
          for (int i = 0; i < 2; i++) a.push_back(p.ShuffleOne());
        });
        if (!w.empty()) Bad("two servers: %s", w.c_str()), ok = false;
      }
      if (!ok) break;
      hist[a] += dfs.weight;
      runs++;
    } while (dfs.Next());
    if (ok) Uniform(hist, 1.0 / 9, "assignments of two parties with seeds " + std::to_string(pr[0]) + ", " + std::to_string(pr[1]));
    Count("tapes", runs);
    Count("outcomes", hist.size());
  }
}

int main(int argc, char** argv) {
  bool uni = argc > 1 && !strcmp(argv[1], "C08");
  return Main(argc - 1, argv + 1, [&] { uni ? C08() : C07(); });
}
