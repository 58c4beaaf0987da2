// Stores of offline secrets: all sequences of operations (C23).
#include <algorithm>
#include <map>
#include <memory>

#include "DPPIR/types/state.h"
#include "unit.h"

using namespace DPPIR;
using namespace unit;
using Shares = std::vector<incremental_share_t>;

static Shares Sh(int id, int P) {
  Shares s;
  for (int i = 0; i < P; i++) s.push_back({(uint32_t)(1000 * id + i), (uint32_t)(7 * id + i + 1)});
  return s;
}
static bool Eq(const Shares& a, const Shares& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++)
    if (a[i].x != b[i].x || a[i].y != b[i].y) return false;
  return true;
}
static preshare_t Pre(int id) {
  preshare_t p;
  for (size_t i = 0; i < p.size(); i++) p[i] = (char)(id * 11 + i);
  return p;
}
static const std::vector<tag_t> kTags = {0, 5, 0xffffffffull, 1ull << 32, (1ull << 48) + (2ull << 32) + 5, ~0ull, 1, (1ull << 63)};

// ---- client: a batch of up to n secrets, stored, used for sending, then used for reading answers
struct Ref {
  int stored = 0, sent = 0, read = 0;
  bool sharing = true;
};
static void Client(int P, int n, bool noise, int cap) {
  dfs = Dfs();
  int depth = n * 3 + 3;
  do {
    dfs.Start();
    std::string ops;
    Count("states");
    std::string w = Guard([&] {
      ClientState st;
      int round = 0;
      st.Initialize(P, cap, noise, false);
      Ref r;
      for (int d = 0; d < depth; d++) {
        std::vector<char> can;
        if (r.sharing && r.stored < n) can.push_back('A');
        if (r.sharing && r.sent < r.stored) can.push_back('L');
        if (r.sharing) can.push_back('F');
        if (!r.sharing && !noise && r.read < r.stored) can.push_back('R');
        if (!r.sharing && round < 1) can.push_back('I');
        if (can.empty()) break;
        char op = can[dfs.Choose(can.size())];
        ops += op;
        Count("transitions");
        int id = round * 50 + r.stored + 1;
        if (op == 'A') {
          if (noise) st.AddNoiseSecret(kTags[(r.stored + round) % kTags.size()], Sh(id, P));
          else st.AddSecret(kTags[(r.stored + round) % kTags.size()], Sh(id, P), Pre(id));
          r.stored++;
        } else if (op == 'L') {
          st.LoadNext();
          int want = round * 50 + r.sent + 1;
          tag_t t = kTags[(r.sent + round) % kTags.size()];
          for (int twice = 0; twice < 2; twice++) {
            if (st.GetTag() != t) return Bad("%s: tag %llu instead of %llu", ops.c_str(), (unsigned long long)st.GetTag(), (unsigned long long)t);
            if (!Eq(st.GetIncrementalShares(), Sh(want, P))) return Bad("%s: shares of another secret", ops.c_str());
            if (!noise && st.GetPreshare() != Pre(want)) return Bad("%s: mask of another secret", ops.c_str());
          }
          r.sent++;
        } else if (op == 'F') {
          st.FinishSharing();
          r.sharing = false;
        } else if (op == 'R') {
          st.LoadNext();
          if (st.GetPreshare() != Pre(round * 50 + r.read + 1)) return Bad("%s: answer %d is unmasked with another mask", ops.c_str(), r.read);
          r.read++;
        } else if (op == 'I') {
          st.Free();
          round++;
          st.Initialize(P, cap, noise, false);
          r = Ref();
        }
      }
    });
    if (!w.empty()) Bad("%s: %s", ops.c_str(), w.c_str());
    if (ops.size() > 6) Sample("client store, " + std::to_string(P) + " parties: " + ops);
  } while (!CaseBad() && dfs.Next());
}
static void ClientSim(int P, int n, bool noise) {
  std::string w = Guard([&] {
    ClientState st;
    st.Initialize(P, n, noise, true);
    for (int i = 0; i < n + 3; i++) {
      st.LoadNext();
      if (st.GetTag() != 0) return Bad("simulated tag %llu", (unsigned long long)st.GetTag());
      auto& s = st.GetIncrementalShares();
      if ((int)s.size() != P) return Bad("%zu simulated shares for %d parties", s.size(), P);
      for (auto& x : s)
        if (x.x != 0 || x.y != 1) return Bad("simulated share (%u,%u)", x.x, x.y);
      Count("transitions");
    }
    st.FinishSharing();
    for (int i = 0; !noise && i < n + 3; i++) {
      st.LoadNext();
      for (char c : st.GetPreshare())
        if (c) return Bad("simulated mask is not neutral");
      Count("transitions");
    }
    st.Free();
  });
  if (!w.empty()) Bad("%d parties %d queries: %s", P, n, w.c_str());
  Count("states");
}

// ---- parties and backend
static OfflineSecret Off(int id) {
  OfflineSecret s;
  s.tag = kTags[id];
  s.next_tag = kTags[(id * 3 + 2) % kTags.size()] ^ (tag_t)id << 40;
  s.share = {(uint32_t)(id * 77 + 1), (uint32_t)(id * 13 + 5)};
  s.preshare = Pre(id + 1);
  return s;
}
template <class S>
static tag_t Next(S&, const OfflineSecret& s) { return s.next_tag; }
template <>
tag_t Next(PartyState& st, const OfflineSecret&) { return st.GetNextTag(); }
static const preshare_t& Mask(PartyState& st, tag_t t) { return st.GetPreshare(t); }
static const preshare_t& Mask(BackendState& st, tag_t) { return st.GetPreshare(); }
// parties look masks up by tag (responses come back in another order than queries went out): any
// stored mask is readable at any time, and reading it does not disturb the loaded secret
static std::string AnyMask(PartyState& st, const std::vector<int>& in, const OfflineSecret* loaded) {
  for (int k : in)
    if (st.GetPreshare(kTags[k]) != Pre(k + 1)) return "another mask for stored tag " + std::to_string(k);
  if (loaded) {
    auto s = st.GetIncremental();
    if (s.x != loaded->share.x || s.y != loaded->share.y || st.GetNextTag() != loaded->next_tag) return "reading masks changes the loaded secret";
  }
  return "";
}
static std::string AnyMask(BackendState&, const std::vector<int>&, const OfflineSecret*) { return ""; }
template <class S>
static void Store(const char* what, int tags, int depth) {
  dfs = Dfs();
  do {
    dfs.Start();
    std::string ops;
    bool dup = false, must = false;
    Count("states");
    std::string w = Guard([&] {
      S st;
      st.Initialize(false);
      std::vector<int> in;
      for (int d = 0; d < depth; d++) {
        OfflineSecret loaded;
        bool isLoaded = false;
        // store any tag (again: must be refused), or look up any stored one
        size_t c = dfs.Choose(tags + in.size());
        Count("transitions");
        if (c < (size_t)tags) {
          ops += " S" + std::to_string(c);
          must = std::find(in.begin(), in.end(), (int)c) != in.end();
          OfflineSecret o = Off(c);
          if (must) {  // the second one may differ in anything or nothing
            unsigned v = dfs.Choose(6);
            if (v == 0 || v == 5) o.share.x++;
            if (v == 1 || v == 5) o.share.y++;
            if (v == 2 || v == 5) o.preshare[51]++;
            if (v == 3 || v == 5) o.next_tag++;
            ops += "abcdef"[v];
          }
          st.Store(o);
          if (must) {
            dup = true;
            return;
          }
          in.push_back(c);
        } else {
          OfflineSecret o = Off(in[c - tags]);
          ops += " L" + std::to_string(in[c - tags]);
          st.LoadSecret(o.tag);
          if (Next(st, o) != o.next_tag) return Bad("%s%s: another follow-up tag", what, ops.c_str());
          auto s = st.GetIncremental();
          if (s.x != o.share.x || s.y != o.share.y) return Bad("%s%s: another share", what, ops.c_str());
          if (Mask(st, o.tag) != o.preshare) return Bad("%s%s: another mask", what, ops.c_str());
          loaded = o, isLoaded = true;
        }
        std::string m = AnyMask(st, in, isLoaded ? &loaded : nullptr);
        if (!m.empty()) return Bad("%s%s: %s", what, ops.c_str(), m.c_str());
        if (st.size() != in.size()) return Bad("%s%s: %u secrets instead of %zu", what, ops.c_str(), st.size(), in.size());
        size_t n = 0;
        for (auto it = st.begin(); it != st.end(); ++it) {
          n++;
          bool known = false;
          for (int k : in)
            if (kTags[k] == it->first) {
              OfflineSecret o = Off(k);
              known = it->second.incremental.x == o.share.x && it->second.incremental.y == o.share.y && it->second.preshare == o.preshare;
            }
          if (!known) return Bad("%s%s: an unknown secret is listed", what, ops.c_str());
        }
        if (n != in.size()) return Bad("%s%s: %zu secrets listed", what, ops.c_str(), n);
      }
    });
    if (dup) Bad("%s%s: a second secret for the same tag is accepted", what, ops.c_str());
    else if (!w.empty() && !must) Bad("%s%s: %s", what, ops.c_str(), w.c_str());
    if (ops.size() > 14) Sample(what + ops + (must ? " (refused)" : ""));
  } while (!CaseBad() && dfs.Next());
}
// many secrets: layouts of tags as the protocol makes them
template <class S>
static void Bulk(const char* what, int layout) {
  std::string w = Guard([&] {
    S st;
    st.Initialize(false);
    const int N = thorough ? 20000 : 3000;
    std::vector<OfflineSecret> all;
    for (int i = 0; i < N; i++) {
      OfflineSecret o = Off(i % 8);
      o.tag = layout == 0 ? i : layout == 1 ? ((tag_t)(i % 7) << 32) + i / 7 : layout == 2 ? ((tag_t)(i % 3 + 1) << 48) + ((tag_t)(i % 5) << 32) + i : ~(tag_t)i * 2654435761u;
      o.next_tag = o.tag + 1;
      o.share.x = i;
      all.push_back(o);
      st.Store(o);
    }
    for (int i = 0; i < 2 * N; i++) {
      auto& o = all[(i * 7) % N];
      st.LoadSecret(o.tag);
      if (st.GetIncremental().x != o.share.x || Next(st, o) != o.next_tag || Mask(st, o.tag) != o.preshare) return Bad("%s with %d secrets: wrong secret for tag %llu", what, N, (unsigned long long)o.tag);
      auto& q = all[(i * 11 + 3) % N];
      if (std::is_same<S, PartyState>::value && Mask(st, q.tag) != q.preshare) return Bad("%s with %d secrets: wrong mask for tag %llu", what, N, (unsigned long long)q.tag);
      Count("transitions");
    }
    if (st.size() != (index_t)N) return Bad("%s: %u secrets instead of %d", what, st.size(), N);
  });
  if (!w.empty()) Bad("%s: %s", what, w.c_str());
  Count("states");
}
template <class S>
static void Sim(const char* what) {
  std::string w = Guard([&] {
    S st;
    st.Initialize(true);
    for (int n = 0; n < 3; n++)
      for (auto t : kTags) {
        st.LoadSecret(t);
        OfflineSecret o;
        o.next_tag = 0;
        if (Next(st, o) != 0) return Bad("%s: simulated follow-up tag is not zero", what);
        if (st.GetIncremental().x != 0 || st.GetIncremental().y != 1) return Bad("%s: simulated share is not neutral", what);
        for (char c : Mask(st, t))
          if (c) return Bad("%s: simulated mask is not neutral", what);
        Count("transitions");
      }
    if (st.size() != 1) return Bad("%s: %u simulated secrets", what, st.size());
  });
  if (!w.empty()) Bad("%s: %s", what, w.c_str());
  Count("states");
}

int main(int argc, char** argv) {
  return Main(argc, argv, [&] {
    Count("states", 0), Count("transitions", 0);
    int D = thorough ? 8 : 6;
    for (int P : {1, 2, 3, 7, 255})
      for (bool noise : {false, true}) {
        std::string s = std::to_string(P) + (noise ? " noise " : " client ");
        for (int n = 0; n <= (P == 2 ? D - 2 : 3); n++)
          for (int cap : {n, n + 2})
            if (Mine(s + std::to_string(n) + "/" + std::to_string(cap))) {
              fprintf(stderr, "CASE %s\n", gCase.c_str());
              Client(P, n, noise, cap);
            }
        for (int n : {0, 1, 5})
          if (Mine(s + "simulated " + std::to_string(n))) {
            fprintf(stderr, "CASE %s\n", gCase.c_str());
            ClientSim(P, n, noise);
          }
      }
    for (int t = 1; t <= 6; t++) {
      int d = t <= 3 ? D : D - 1;
      if (Mine("party " + std::to_string(t))) {
        fprintf(stderr, "CASE %s\n", gCase.c_str());
        Store<PartyState>("party", t, d);
      }
      if (Mine("backend " + std::to_string(t))) {
        fprintf(stderr, "CASE %s\n", gCase.c_str());
        Store<BackendState>("backend", t, d);
      }
    }
    for (int l = 0; l < 4; l++) {
      if (Mine("bulk party " + std::to_string(l))) Bulk<PartyState>("party", l);
      if (Mine("bulk backend " + std::to_string(l))) Bulk<BackendState>("backend", l);
    }
    if (Mine("simulated party")) Sim<PartyState>("party");
    if (Mine("simulated backend")) Sim<BackendState>("backend");
  });
}
