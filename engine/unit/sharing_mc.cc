// Incremental sharing (C09, and the sharing part of C10) and additive masks (C11).
#include <algorithm>
#include <bitset>
#include <map>

#include "DPPIR/sharing/additive.h"
#include "DPPIR/sharing/incremental.h"
#include "unit.h"

using namespace DPPIR;
using namespace unit;
using Shares = std::vector<incremental_share_t>;

static const uint32_t P = INCREMENTAL_PRIME;
static std::string Str(const Shares& s) {
  std::string o;
  for (auto& x : s) o += "(" + std::to_string(x.x) + "," + std::to_string(x.y) + ")";
  return o;
}

// Tallies from the client's to the last one; false if it was bad.
static bool Chain(uint32_t key, const Shares& s, std::vector<uint32_t>* out) {
  bool ok = true;
  std::string w = Guard([&] {
    incremental_tally_t t = sharing::GenerateIncrementalTally(key, s);
    if (out) out->assign(1, t);
    for (size_t i = 0; i < s.size(); i++) {
      if (t >= P) {
        Bad("query %u, shares %s: tally %u on the way to party %zu is not below the field size %u", key, Str(s).c_str(), t, i, P);
        ok = false;
        return;
      }
      t = sharing::IncrementalReconstruct(t, s[i]);
      if (out) out->push_back(t);
    }
    if (t != key) {
      Bad("query %u, shares %s: reconstructs to %u (field size %u)", key, Str(s).c_str(), t, P);
      ok = false;
    }
    Count("transitions", 1 + s.size());
  });
  if (!w.empty()) {
    Bad("query %u, shares %s: %s", key, Str(s).c_str(), w.c_str());
    return false;
  }
  return ok;
}

// Enumerates everything the generator can produce; false if it is out of reach of the enumeration.
static bool Generated(size_t n, const std::function<void(const Shares&, double)>& f) {
  uniMode = ENUM;
  dfs = Dfs();
  bool first = true;
  do {
    dfs.Start();
    uniBounds.clear();
    ForgetStreams();
    Shares s;
    bool small = true;
    std::string w = Guard([&] { s = sharing::PreIncrementalSecretShares(n); });
    if (!w.empty()) {
      Bad("generating %zu shares: %s", n, w.c_str());
      break;
    }
    for (auto b : uniBounds) small &= b <= 64;
    if (first && (!small || otherDraws || (n && uniBounds.empty()))) {
      Count("not_enumerable");
      uniMode = REAL;
      return false;
    }
    first = false;
    f(s, dfs.weight);
    if (CaseBad()) break;
  } while (dfs.Next());
  uniMode = REAL;
  return true;
}

static void Small() {
  size_t top = P <= 3 ? 5 : P <= 5 ? 4 : P <= 7 ? 3 : P <= 13 ? 2 : 1;
  if (thorough && P <= 7) top++;
  for (size_t n = 0; n <= top; n++) {
    if (Mine("all " + std::to_string(n))) {
      // every share vector of the field, generated or not
      Shares s(n, {0, 1});
      for (;;) {
        for (uint32_t k = 0; k < P && !CaseBad(); k++) {
          Chain(k, s, nullptr);
          Count("states");
        }
        size_t i = 0;
        for (; i < n; i++) {
          if (++s[i].y < P) break;
          s[i].y = 1;
          if (++s[i].x < P) break;
          s[i].x = 0;
        }
        if (i == n || CaseBad()) break;
      }
      Sample("field " + std::to_string(P) + ": all share vectors of length " + std::to_string(n) + " x all queries");
    }
    if (n <= 3 && Mine("generated " + std::to_string(n))) {
      Generated(n, [&](const Shares& s, double) {
        Count("tapes");
        if (s.size() != n) return Bad("%zu shares instead of %zu", s.size(), n);
        for (auto& x : s)
          if (x.x >= P || x.y == 0 || x.y >= P) Bad("generated share (%u,%u) is outside the field of size %u", x.x, x.y, P);
      });
    }
  }
}

static std::vector<uint32_t> Edges(bool y) {
  std::vector<uint32_t> v = {1, 2, 3, P - 1, P - 2, P - 3, P / 2, P / 2 + 1, 65535, 65536, 65537, 46340, 46341, 1u << 30, (1u << 30) - 1};
  if (!y) v.push_back(0);
  return v;
}
static void Real() {
  auto X = Edges(false), Y = Edges(true);
  // one share: all pairs of edge values and queries; two: all; three: the sharpest ones
  if (Mine("one"))
    for (auto x : X) for (auto y : Y) for (auto k : X) {
      Chain(k, {{x, y}}, nullptr);
      Count("states");
    }
  for (auto k : X)
    if (Mine("two " + std::to_string(k)))
      for (auto a : X) for (auto b : Y) for (auto c : X) for (auto d : Y) {
        if (CaseBad()) return;
        Chain(k, {{a, b}, {c, d}}, nullptr);
        Count("states");
      }
  std::vector<uint32_t> x3 = {0, 1, P - 1}, y3 = {1, 2, P - 1}, k3 = {0, 1, P - 1, P / 2};
  for (size_t n = 3; n <= (thorough ? 6u : 4u); n++)
    for (auto k : k3)
      if (Mine("some " + std::to_string(n) + " " + std::to_string(k))) {
        Shares s(n);
        std::vector<int> d(n, 0);
        for (;;) {
          for (size_t i = 0; i < n; i++) s[i] = {x3[d[i] / 3], y3[d[i] % 3]};
          Chain(k, s, nullptr);
          Count("states");
          size_t i = 0;
          while (i < n && ++d[i] == 9) d[i++] = 0;
          if (i == n || CaseBad()) break;
        }
      }
  for (size_t n = 1; n <= 255; n++)
    if (Mine("long " + std::to_string(n)))
      for (auto x : x3) for (auto y : y3) for (auto k : k3) {
        Chain(k, Shares(n, {x, y}), nullptr);
        Count("states");
      }
  // generator: all extreme answers of the random source
  for (size_t n = 1; n <= 3; n++)
    if (Mine("extremes " + std::to_string(n))) {
      uniMode = SCRIPT;
      dfs = Dfs();
      uniScript = [](uint32_t b) { return std::vector<uint32_t>{0, b - 1, b / 2, b > 1 ? 1u : 0u}[dfs.Choose(4)]; };
      do {
        dfs.Start();
        ForgetStreams();
        Shares s;
        std::string w = Guard([&] { s = sharing::PreIncrementalSecretShares(n); });
        if (!w.empty()) Bad("generating %zu shares: %s", n, w.c_str());
        if (s.size() != n) Bad("%zu shares instead of %zu", s.size(), n);
        for (auto& x : s)
          if (x.x >= P || x.y == 0 || x.y >= P) Bad("generated share (%u,%u) is outside the field", x.x, x.y);
        if (!CaseBad())
          for (auto k : k3) Chain(k, s, nullptr);
        Count("tapes");
        if (otherDraws) break;
      } while (!CaseBad() && dfs.Next());
      uniMode = REAL;
    }
  // the inverse of every y in a range, seen through sharing and reconstructing
  uint64_t block = 1 << 18, lo = thorough ? P - 1ull : 1ull << 21, hi = thorough ? 0 : 1ull << 21;
  auto range = [&](uint64_t a, uint64_t b) {
    if (!Mine("y " + std::to_string(a) + "-" + std::to_string(b))) return;
    Shares s(1);
    std::string w = Guard([&] {
      for (uint64_t y = a; y <= b; y++) {
        s[0].x = (uint32_t)((y * 2654435761u) % P);
        s[0].y = (uint32_t)y;
        uint32_t k = (uint32_t)((y * 40503 + 7) % P);
        uint32_t t = sharing::GenerateIncrementalTally(k, s);
        if (t >= P || sharing::IncrementalReconstruct(t, s[0]) != k) {
          Bad("query %u, shares %s: reconstructs to %u", k, Str(s).c_str(), sharing::IncrementalReconstruct(t, s[0]));
          return;
        }
      }
      Count("states", b - a + 1);
      Count("transitions", 2 * (b - a + 1));
    });
    if (!w.empty()) Bad("share (%u,%u): %s", s[0].x, s[0].y, w.c_str());
  };
  for (uint64_t a = 1; a <= lo; a += block) range(a, std::min(lo, a + block - 1));
  for (uint64_t a = P - hi; hi && a < P; a += block) range(a, std::min<uint64_t>(P - 1, a + block - 1));
  for (int e = 21; !thorough && e < 31; e++) range((1ull << e) - 2000, (1ull << e) + 2000 < P ? (1ull << e) + 2000 : P - 1);
  if (part == 0) Sample("real field: every multiplier in the stated ranges; all pairs of extreme shares; chains of 1 to 255 parties");
}

// C10, the sharing scheme alone: for every party m left out, what arrives up to m and the shares of the others
// have the same joint distribution for every query.
static void Secrecy() {
  size_t top = P <= 3 ? 4 : P <= 5 ? 3 : 2;
  for (size_t n = 1; n <= top; n++)
    for (size_t m = 0; m < n; m++) {
      if (!Mine("n " + std::to_string(n) + " without " + std::to_string(m))) continue;
      std::vector<std::map<std::vector<uint32_t>, double>> view(P);
      bool can = Generated(n, [&](const Shares& s, double w) {
        Count("tapes");
        for (uint32_t k = 0; k < P && !CaseBad(); k++) {
          std::vector<uint32_t> t, v;
          if (!Chain(k, s, &t)) return;
          v.assign(t.begin(), t.begin() + m + 1);
          for (size_t i = 0; i < n; i++)
            if (i != m) v.push_back(s[i].x), v.push_back(s[i].y);
          view[k][v] += w;
        }
      });
      if (!can || CaseBad()) continue;
      double total = 0;
      for (auto& x : view[0]) total += x.second;
      if (total < 0.999999 || total > 1.000001) Bad("probabilities sum to %f", total);
      for (uint32_t k = 1; k < P; k++)
        for (int dir = 0; dir < 2; dir++)
          for (auto& x : dir ? view[k] : view[0]) {
            auto& o = dir ? view[0] : view[k];
            auto it = o.find(x.first);
            double q = it == o.end() ? 0 : it->second;
            if (q < x.second - 1e-9 || q > x.second + 1e-9) {
              std::string vs;
              for (auto y : x.first) vs += " " + std::to_string(y);
              Bad("%zu parties, field %u: everything but party %zu sees [%s ] with probability %g for row %u but %g for row %u", n, P, m, vs.c_str(),
                  x.second, dir ? k : 0, q, dir ? 0 : k);
            }
          }
      Count("states", view[0].size() * P);
      // the shares themselves: all equally likely
      std::map<std::vector<uint32_t>, double> all;
      Generated(n, [&](const Shares& s, double w) {
        std::vector<uint32_t> v;
        for (auto& x : s) v.push_back(x.x), v.push_back(x.y);
        all[v] += w;
      });
      double e = 1;
      for (size_t i = 0; i < n; i++) e /= P * (P - 1.0);
      for (auto& x : all)
        if (x.second < e * 0.999999 || x.second > e * 1.000001)
          Bad("%zu parties, field %u: a share vector has probability %g instead of %g", n, P, x.second, e);
      Sample("field " + std::to_string(P) + ", " + std::to_string(n) + " parties, all but party " + std::to_string(m) + ": " +
             std::to_string(view[0].size()) + " views, same distribution for all rows");
    }
}

// ---- additive masks
static std::vector<uint8_t> tape;
static size_t tapePos;
static bool grown;
static void Feed(unsigned char* p, size_t n) {
  if (tape.size() < tapePos + n) tape.resize(tapePos + n, 0), grown = true;
  memcpy(p, tape.data() + tapePos, n);
  tapePos += n;
}
using Bits = std::bitset<10 * 416>;
static bool Masks(size_t n, std::vector<preshare_t>* m) {
  tapePos = 0;
  std::string w = Guard([&] { *m = sharing::GenerateAdditiveSecretShares(n); });
  if (!w.empty() || m->size() != n) {
    Bad("%zu masks: %s (%zu made)", n, w.c_str(), m->size());
    return false;
  }
  for (size_t i = 0; i < sizeof(preshare_t); i++) {
    char x = 0;
    for (auto& s : *m) x ^= s[i];
    if (x) {
      Bad("%zu masks do not combine to zero in byte %zu", n, i);
      return false;
    }
  }
  Count("transitions");
  return true;
}
static Bits AsBits(const std::vector<preshare_t>& m, const std::vector<preshare_t>& z, size_t skip) {
  Bits b;
  size_t o = 0;
  for (size_t j = 0; j < m.size(); j++) {
    if (j == skip) continue;
    for (size_t i = 0; i < sizeof(preshare_t); i++)
      for (int k = 0; k < 8; k++, o++)
        if (((m[j][i] ^ z[j][i]) >> k) & 1) b.set(o);
  }
  return b;
}
static void Additive() {
  const size_t B = sizeof(preshare_t) * 8;
  for (size_t n = 1; n <= (thorough ? 9u : 6u); n++) {
    if (!Mine("masks " + std::to_string(n))) continue;
    bufMode = SCRIPT;
    bufScript = Feed;
    uniMode = SCRIPT;
    bool odd = false;
    uniScript = [&](uint32_t b) {
      if (b == 0 || (b & (b - 1))) odd = true;
      uint32_t v;
      Feed(reinterpret_cast<unsigned char*>(&v), 4);
      return b ? v % b : 0;
    };
    tape.clear();
    std::vector<preshare_t> zero, m, m2;
    ForgetStreams();
    if (!Masks(n, &zero)) continue;
    size_t L = tape.size() * 8;
    if (odd || L > 200000) {
      Count("not_enumerable");
      continue;
    }
    std::vector<std::vector<preshare_t>> col(L);
    bool ok = true;
    grown = false;
    for (size_t b = 0; b < L && ok; b++) {
      tape[b / 8] ^= 1 << (b % 8);
      ok = Masks(n, &col[b]);
      tape[b / 8] ^= 1 << (b % 8);
    }
    Count("states", L);
    if (!ok) continue;
    if (grown) {  // number of draws depends on their values: outside of the linear argument
      Count("not_enumerable");
      continue;
    }
    // linear: all pairs of bits (all of them for few masks, neighbours otherwise)
    for (size_t a = 0; a < L && ok; a++)
      for (size_t b = a + 1; b < L && ok; b++) {
        if (n > 2 && b - a > 64 && (b - a) % 32) continue;
        if (n > 3 && b - a > 8 && (b - a) % B) continue;
        tape[a / 8] ^= 1 << (a % 8), tape[b / 8] ^= 1 << (b % 8);
        ok = Masks(n, &m);
        tape[a / 8] ^= 1 << (a % 8), tape[b / 8] ^= 1 << (b % 8);
        Count("states");
        for (size_t j = 0; ok && j < n; j++)
          for (size_t i = 0; i < sizeof(preshare_t); i++)
            if ((m[j][i] ^ zero[j][i]) != (col[a][j][i] ^ col[b][j][i])) {
              Count("not_linear");
              ok = false;
              break;
            }
      }
    if (!ok) continue;
    // any n-1 masks are jointly uniform: the linear map onto them has full rank
    for (size_t skip = 0; skip < n; skip++) {
      std::vector<Bits> piv((n - 1) * B);
      std::vector<bool> has((n - 1) * B, false);
      size_t rank = 0;
      for (size_t b = 0; b < L && rank < (n - 1) * B; b++) {
        Bits v = AsBits(col[b], zero, skip);
        for (size_t i = v._Find_first(); i < v.size(); i = v._Find_next(i)) {
          if (!has[i]) {
            has[i] = true, piv[i] = v, rank++;
            break;
          }
          v ^= piv[i];
        }
      }
      Count("ranks");
      if (rank != (n - 1) * B)
        Bad("%zu masks: those without mask %zu take only 2^%zu of 2^%zu values", n, skip, rank, (n - 1) * B);
    }
    bufMode = REAL;
    uniMode = REAL;
    // two batches made one after another do not share randomness
    Sample(std::to_string(n) + " masks: linear in " + std::to_string(L) + " random bits, every choice of all but one has full rank");
  }
  // real randomness, larger numbers of masks
  for (size_t n = 1; n <= 255; n += (n < 16 ? 1 : 13)) {
    if (!Mine("cancel " + std::to_string(n))) continue;
    std::vector<preshare_t> m;
    if (!Masks(n, &m)) continue;
    // every order gives the response back: forwards, backwards, rotated; in place and not
    for (int how = 0; how < 4; how++) {
      Response r, o;
      for (size_t i = 0; i < sizeof r; i++) reinterpret_cast<unsigned char*>(&r)[i] = 37 * i + n;
      o = r;
      for (size_t i = 0; i < n; i++) {
        size_t j = how == 0 ? i : how == 1 ? n - 1 - i : (i + n / 2) % n;
        if (how == 3) {
          Response t;
          memset(&t, 0xa5, sizeof t);
          sharing::AdditiveReconstruct(o, m[j], &t);
          o = t;
        } else {
          sharing::AdditiveReconstruct(o, m[j], &o);
        }
      }
      if (memcmp(&o, &r, sizeof r)) Bad("%zu masks applied in order %d do not give the response back", n, how);
      Count("transitions", n);
    }
    for (size_t a = 0; a < n; a++)
      for (size_t b = a + 1; b < n && n > 2; b++)
        if (m[a] == m[b]) Bad("masks %zu and %zu of %zu are equal", a, b, n);
    Count("states");
  }
  // applying a mask: exactly the XOR, for all single bits of response and mask, all-ones and zero
  for (size_t a = 0; a <= B + 1; a++) {
    if (!Mine("apply " + std::to_string(a))) continue;
    struct { unsigned char before[8]; Response r; unsigned char after[8]; } t, u;
    preshare_t s;
    for (size_t b = 0; b <= B + 1; b++) {
      memset(&t, 0x5a, sizeof t);
      memset(&t.r, a == B + 1 ? 0xff : 0, sizeof t.r);
      if (a < B) reinterpret_cast<unsigned char*>(&t.r)[a / 8] |= 1 << (a % 8);
      s.fill(b == B + 1 ? (char)0xff : 0);
      if (b < B) s[b / 8] |= 1 << (b % 8);
      Response want = t.r, before = t.r;
      for (size_t i = 0; i < sizeof s; i++) reinterpret_cast<char*>(&want)[i] ^= s[i];
      memset(&u, 0xc3, sizeof u);
      sharing::AdditiveReconstruct(t.r, s, &u.r);
      if (memcmp(&u.r, &want, sizeof want) || memcmp(&t.r, &before, sizeof want)) Bad("masking bit %zu with bit %zu is not the exclusive or", a, b);
      sharing::AdditiveReconstruct(t.r, s, &t.r);
      if (memcmp(&t.r, &want, sizeof want)) Bad("masking bit %zu with bit %zu in place is not the exclusive or", a, b);
      for (int i = 0; i < 8; i++)
        if (t.before[i] != 0x5a || t.after[i] != 0x5a || u.before[i] != 0xc3 || u.after[i] != 0xc3) Bad("masking writes outside of the response");
      Count("states"), Count("transitions", 2);
    }
  }
}

int main(int argc, char** argv) {
  std::string what = argc > 1 ? argv[1] : "";
  return Main(argc - 1, argv + 1, [&] {
    Count("tapes", 0), Count("states", 0), Count("transitions", 0), Count("not_enumerable", 0), Count("not_linear", 0), Count("ranks", 0);
    if (what == "C09") P < 1000 ? Small() : Real();
    if (what == "C10") Secrecy();
    if (what == "C11") Additive();
  });
}
