// Noise amounts (C06) and the row ranges of parallel servers (C22).
#include <algorithm>
#include <cmath>
#include <map>

#include "DPPIR/noise/noise.h"
#include "unit.h"

using namespace DPPIR;
using namespace unit;

// ---- C06
struct Par { double eps, delta; };
static std::vector<Par> Params() {
  std::vector<Par> v;
  for (double e : {0.01, 0.05, 0.1, 0.5, 1.0, 2.0, 5.0, 17.5, 100.0})
    for (double d : {1e-10, 1e-7, 1e-6, 1e-5, 1e-3, 0.01, 0.1, 0.25, 0.5, 0.9, 1.0}) v.push_back({e, d});
  if (thorough)
    for (int i = 1; i <= 12; i++)
      for (int j = 1; j <= 12; j++) v.push_back({i * 0.37, std::pow(0.31, j)});
  return v;
}
static double Cutoff(const Par& p) { return 2 / p.eps * std::log(1 / p.delta); }
static double Tol(const Par& p) { return 1e-9 + 2 / p.eps * 1e-15 / p.delta * 4 + Cutoff(p) * 1e-12; }
static std::string Name(const Par& p) {
  char b[80];
  snprintf(b, sizeof b, "epsilon %g delta %g", p.eps, p.delta);
  return b;
}
// Probability that the mechanism yields at most k (-1: floor rounds down at exact bounds).
static double Below(const Par& p, double x) {  // P[ value < x ] for the clamped real value
  double c = Cutoff(p), b = 2 / p.eps;
  if (x <= 0) return 0;
  if (x > 2 * c) return 1;
  double z = x - c;
  return z < 0 ? 0.5 * std::exp(z / b) : 1 - 0.5 * std::exp(-z / b);
}

static void Zero() {
  for (Par p : {Par{0, 0}, Par{0, 1e-5}, Par{0.1, 0}, Par{-0.0, 0.5}, Par{3, -0.0}}) {
    if (!Mine("none " + Name(p))) continue;
    for (int r : {0, 1, 1073741823, 1073741824, 2147483646, 2147483647}) {
      randMode = SCRIPT;
      randScript = [r](const std::string&, uint64_t) { return r; };
      sample_t s = 1;
      std::string w = Guard([&] {
        noise::NoiseDistribution d(p.eps, p.delta);
        s = d.Sample();
      });
      if (!w.empty() || s != 0) Bad("%s: %u noise queries per row instead of none %s", Name(p).c_str(), s, w.c_str());
      Count("states"), Count("transitions");
      randMode = REAL;
    }
  }
}

// parameters for which the range of the noise is empty, undefined or does not fit a count are refused
static void Unfit(bool sampled) {
  for (Par p : {Par{1e-9, 1e-9}, Par{1e-8, 1e-10}, Par{1e-300, 0.5}, Par{-1, 0.1}, Par{-0.001, 1e-6}, Par{1, 1.5}, Par{0.1, 1.999}, Par{1, 2.5}, Par{1, -0.5}, Par{1, 1e300}, Par{NAN, 0.1}, Par{1, NAN},
                Par{2e-9, 0.1}, Par{1e-9, 0.115}, Par{1.8e-9, 0.1}}) {
    if (!Mine("unfit " + Name(p))) continue;
    for (int r : {0, 1, 1073741823, 1073741824, 1610612736, 2147483647}) {
      randMode = SCRIPT;
      randScript = [r](const std::string&, uint64_t) { return r; };
      sample_t s = 0;
      std::string w = Guard([&] {
        noise::NoiseDistribution d(p.eps, p.delta);
        s = d.Sample();
      });
      randMode = REAL;
      Count("states"), Count("transitions");
      double c = Cutoff(p);
      bool fits = c >= 0 && std::floor(2 * c) <= 4294967295.0;
      if (fits) Bad("harness: these parameters fit");
      // the centre itself may still fit when twice the centre does not
      if (w.empty() && !(!sampled && c >= 0 && std::floor(c) == s)) Bad("%s: %u noise queries per row, the range is 0 to %g", Name(p).c_str(), s, 2 * c);
    }
  }
  // the largest ranges that fit are not
  for (Par p : {Par{3e-9, 0.1}, Par{2.2e-9, 0.1}, Par{4e-7, 1e-300}}) {
    double c = Cutoff(p);
    if (2 * c > 4294967295.0 || !Mine("large " + Name(p))) continue;
    for (int r : {0, 1073741823, 1073741824, 2147483647}) {
      randMode = SCRIPT;
      randScript = [r](const std::string&, uint64_t) { return r; };
      sample_t s = 0;
      std::string w = Guard([&] {
        noise::NoiseDistribution d(p.eps, p.delta);
        s = d.Sample();
      });
      randMode = REAL;
      Count("states"), Count("transitions");
      if (!w.empty()) Bad("%s: %s", Name(p).c_str(), w.c_str());
      if (s > 2 * c + 1 || (!sampled && std::abs(s - c) > 2 + c * 1e-9)) Bad("%s: %u noise queries per row, the centre is %f", Name(p).c_str(), s, c);
    }
  }
}

static void Fixed() {
  auto v = Params();
  for (auto& p : v) {
    if (!Mine(Name(p))) continue;
    double c = Cutoff(p), t = Tol(p);
    for (int r : {0, 1, 1073741823, 1073741824, 2147483647}) {
      randMode = SCRIPT;
      randScript = [r](const std::string&, uint64_t) { return r; };
      std::vector<sample_t> s;
      std::string w = Guard([&] {
        noise::NoiseDistribution d(p.eps, p.delta);
        for (int i = 0; i < 3; i++) s.push_back(d.Sample());
      });
      randMode = REAL;
      Count("states"), Count("transitions", 3);
      if (!w.empty()) Bad("%s: %s", Name(p).c_str(), w.c_str());
      for (auto x : s)
        if (x != std::floor(c - t) && x != std::floor(c + t) && x != std::floor(c))
          Bad("%s: %u noise queries per row, the centre is %f", Name(p).c_str(), x, c);
    }
    Sample(Name(p) + ": " + std::to_string((uint64_t)std::floor(c)) + " noise queries per row");
  }
}

static void Sampled() {
  auto v = Params();
  for (auto& p : v) {
    if (!Mine(Name(p))) continue;
    double c = Cutoff(p), t = Tol(p);
    std::string w;
    // all combinations of extreme answers of the random source
    randMode = ENUM;
    randValues = {0, 1, 2, 536870911, 1073741822, 1073741823, 1073741824, 1073741825, 1610612736, 2147483645, 2147483646, 2147483647};
    dfs = Dfs();
    noise::NoiseDistribution* d = nullptr;
    w = Guard([&] { d = new noise::NoiseDistribution(p.eps, p.delta); });
    if (!w.empty()) {
      Bad("%s: %s", Name(p).c_str(), w.c_str());
      continue;
    }
    do {
      dfs.Start();
      ForgetStreams();
      sample_t s = 0;
      w = Guard([&] { s = d->Sample(); });
      Count("states"), Count("transitions");
      if (!w.empty()) Bad("%s: %s", Name(p).c_str(), w.c_str());
      if (s > std::floor(2 * c + t)) Bad("%s: %u noise queries on a row, more than 2*cutoff = %f", Name(p).c_str(), s, 2 * c);
      if (otherDraws) break;
    } while (!CaseBad() && dfs.Next());
    randValues.clear();
    // the distribution over a lattice of all answers
    uint32_t M = thorough ? 2048 : 512;
    randStrata = M;
    std::map<sample_t, double> prob;
    dfs = Dfs();
    uint64_t n = 0;
    bool can = true;
    do {
      dfs.Start();
      ForgetStreams();
      sample_t s = d->Sample();
      prob[s] += dfs.weight;
      n++;
      if (randDraws > 2 || otherDraws || randDraws == 0) {
        can = false;
        break;
      }
    } while (dfs.Next());
    Count("states", n), Count("transitions", n), Count("tapes", n);
    randMode = REAL;
    if (!can) {
      Count("not_enumerable");
      delete d;
      continue;
    }
    // compare the distribution functions at every value
    double F = 0, worst = 0;
    uint64_t top = (uint64_t)std::floor(2 * c + t);
    for (uint64_t k = 0; k <= top && k < 20000; k++) {
      auto it = prob.find(k);
      if (it != prob.end()) F += it->second;
      double lo = Below(p, k + 1 - t), hi = Below(p, k + 1 + t);
      double tol = 2.5 / M;
      if (F < lo - tol || F > hi + tol) {
        Bad("%s: a row gets at most %llu noise queries with probability %f instead of %f", Name(p).c_str(), (unsigned long long)k, F, (lo + hi) / 2);
        break;
      }
      worst = std::max(worst, std::min(std::abs(F - lo), std::abs(F - hi)));
    }
    // the tails: parts of the range of the random source that get ever smaller towards both of its ends
    {
      const double ratio = thorough ? 1.07 : 1.15;
      std::vector<std::pair<int, double>> parts;  // (value, share of the range)
      std::vector<uint64_t> cuts = {0};
      for (double x = 1; x < (1u << 30); x *= ratio)
        if ((uint64_t)x > cuts.back()) cuts.push_back((uint64_t)x);
      cuts.push_back(1u << 30);
      for (size_t i = 0; i + 1 < cuts.size(); i++) {
        uint64_t lo = cuts[i], n = cuts[i + 1] - lo;
        uint64_t rep = lo + (n / 2 + (n > 64 ? (i * 2654435761u) % (n / 8) : 0)) % n;
        parts.push_back({(int)rep, n / 2147483648.0});
        parts.push_back({(int)(2147483647 - rep), n / 2147483648.0});
      }
      randMode = SCRIPT;
      std::map<sample_t, double> tail;
      double below = 0, above = 1;
      for (auto& a : parts)
        for (auto& b : parts) {
          randScript = [&](const std::string&, uint64_t pos) { return pos ? b.first : a.first; };
          ForgetStreams();
          tail[d->Sample()] += a.second * b.second;
        }
      Count("states", parts.size() * parts.size()), Count("transitions", parts.size() * parts.size()), Count("tapes", parts.size() * parts.size());
      for (uint64_t k = 0; k < top && k < 100000; k++) {
        auto it = tail.find(k);
        if (it != tail.end()) below += it->second, above -= it->second;
        double lo = Below(p, k + 1 - t), hi = Below(p, k + 1 + t);
        // a part that straddles the bound, and the resolution of the source
        double rel = 0.08 + 1.5 * (ratio - 1), abs = 3e-9;
        if (below < lo * (1 - rel) - abs || below > hi * (1 + rel) + abs || above < (1 - hi) * (1 - rel) - abs || above > (1 - lo) * (1 + rel) + abs) {
          Bad("%s: a row gets at most %llu noise queries with probability %.3g (more: %.3g) instead of %.3g (more: %.3g)", Name(p).c_str(),
              (unsigned long long)k, below, above, (lo + hi) / 2, 1 - (lo + hi) / 2);
          break;
        }
      }
      randMode = REAL;
    }
    // two rows in a row: independent
    if (c < 300) {
      randMode = ENUM;
      randStrata = 12;
      std::map<std::pair<sample_t, sample_t>, double> joint;
      std::map<sample_t, double> m1, m2;
      dfs = Dfs();
      do {
        dfs.Start();
        ForgetStreams();
        sample_t a = d->Sample(), b = d->Sample();
        joint[{a, b}] += dfs.weight, m1[a] += dfs.weight, m2[b] += dfs.weight;
        Count("states"), Count("transitions", 2), Count("tapes");
      } while (dfs.Next());
      for (auto& x : m1)
        for (auto& y : m2) {
          auto it = joint.find({x.first, y.first});
          double q = it == joint.end() ? 0 : it->second;
          if (std::abs(q - x.second * y.second) > 1e-9)
            Bad("%s: the noise on two rows is not independent: (%u,%u) has probability %g instead of %g", Name(p).c_str(), x.first, y.first, q,
                x.second * y.second);
        }
      randMode = REAL;
    }
    delete d;
    char b[200];
    snprintf(b, sizeof b, "%s: distribution function matches within %.5f over %llu outcomes of the random source", Name(p).c_str(), worst,
             (unsigned long long)n);
    Sample(b);
  }
}

// ---- C22
static void Ranges(uint64_t db, int S) {
  uint64_t next = 0, most = (db + S - 1) / S;
  for (int s = 0; s < S; s++) {
    std::pair<DPPIR::key_t, DPPIR::key_t> r;
    std::string w = Guard([&] { r = noise::FindRange(s, S, db); });
    Count("transitions");
    if (!w.empty()) return Bad("%llu rows, %d servers: range of server %d: %s", (unsigned long long)db, S, s, w.c_str());
    if (r.second < r.first || r.second > db || (r.second > r.first && r.first != next))
      return Bad("%llu rows, %d servers: server %d covers rows %u to %u although the previous servers cover up to row %llu", (unsigned long long)db, S, s,
                 r.first, r.second, (unsigned long long)next);
    if (r.second - r.first > most)
      return Bad("%llu rows, %d servers: server %d has %u rows", (unsigned long long)db, S, s, r.second - r.first);
    if (r.second > r.first) next = r.second;
  }
  if (next != db)
    return Bad("%llu rows, %d servers: only rows up to %llu are covered", (unsigned long long)db, S, (unsigned long long)next);
  Count("states");
}
static void Range() {
  uint32_t top = thorough ? 20000 : 1200;
  for (int S = 1; S <= 255; S++) {
    if (Mine("small " + std::to_string(S)))
      for (uint64_t db = S; db <= top && !CaseBad(); db++) Ranges(db, S);
    if (Mine("large " + std::to_string(S))) {
      for (int e = 8; e <= 32 && !CaseBad(); e++)
        for (int64_t o = -260; o <= 260; o++) {
          int64_t db = (1ll << e) + o;
          if (db >= S && db <= 0xffffffffll) Ranges(db, S);
        }
      // around multiples of the number of servers, where rounding changes
      for (uint64_t q : {1ull, 2ull, 100ull, 65535ull, 65536ull, 65537ull, 1000003ull, 8421504ull, 16843009ull})
        for (int64_t o = -3; o <= 3; o++) {
          int64_t db = (int64_t)q * S + o;
          if (db >= S && db <= 0xffffffffll) Ranges(db, S);
        }
      for (uint64_t q = 0xffffffffull / S * S; q + 40ull * S > 0xffffffffull && q > (uint64_t)S; q -= S)
        for (int64_t o = -1; o <= 1; o++)
          if (q + o >= (uint64_t)S && q + o <= 0xffffffffull) Ranges(q + o, S);
    }
  }
  if (part == 0) Sample("all databases from S to " + std::to_string(top) + " rows for S = 1..255 servers, and boundary sizes up to 4294967295 rows");
}

int main(int argc, char** argv) {
  std::string what = argc > 1 ? argv[1] : "";
  return Main(argc - 1, argv + 1, [&] {
    Count("tapes", 0), Count("states", 0), Count("transitions", 0), Count("not_enumerable", 0);
    if (what == "fixed") Zero(), Unfit(false), Fixed();
    if (what == "sampled") Zero(), Unfit(true), Sampled();
    if (what == "C22") Range();
  });
}
