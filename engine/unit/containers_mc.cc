// Buffers, batches, maps of servers, and the database: all sequences of operations against plain reference models (C25).
#include <algorithm>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "DPPIR/types/containers.h"
#include "DPPIR/types/database.h"
#include "DPPIR/types/types.h"
#include "unit.h"

using namespace DPPIR;
using namespace unit;
using std::to_string;

static char Byte(uint64_t i) { return (char)((i * 2654435761u >> 7) ^ i ^ (i >> 13)); }
static std::vector<char> Item(uint64_t id, size_t n) {
  std::vector<char> v(n);
  for (size_t i = 0; i < n; i++) v[i] = Byte(id * 1000003 + i);
  return v;
}

// ---- one entry per other server
template <typename T>
static void Servers(const char* type) {
  for (int count = 1; count <= 256; count++) {
    if (!Mine(std::string("servers ") + type + " " + to_string(count))) continue;
    for (int self = 0; self < count; self++) {
      Count("states");
      std::string w = Guard([&] {
        ServersMap<T> plain(self, count), filled(self, count, (T)1);
        for (int i = 0; i < count; i++)
          if (i != self && (filled[i] != (T)1 || plain[i] != T())) return Bad("%d servers, at %d: entry %d does not begin with what was asked for", count, self, i);
        // each entry is written twice and must be the only one to change
        for (int round = 0; round < 2; round++)
          for (int k = 0; k < count; k++) {
            int i = round ? count - 1 - k : k;
            if (i == self) continue;
            plain[i] = (T)(i + 3 + round);
            Count("transitions");
          }
        const ServersMap<T>& c = plain;
        for (int i = 0; i < count; i++)
          if (i != self && (plain[i] != (T)(i + 4) || c[i] != (T)(i + 4))) return Bad("%d servers, at %d: entry %d is shared with another server", count, self, i);
        // as one array, it lists the other servers in their order
        for (int i = 0, j = 0; i < count; i++)
          if (i != self && plain.Ptr()[j++] != (T)(i + 4)) return Bad("%d servers, at %d: entry %d is not in its place", count, self, i);
        // writing one leaves the others
        int i = (self + count / 2) % count;
        if (i == self) i = (i + 1) % count;
        if (i != self) {
          plain[i] = (T)0;
          for (int j = 0; j < count; j++)
            if (j != self && plain[j] != (j == i ? (T)0 : (T)(j + 4))) return Bad("%d servers, at %d: writing entry %d changes entry %d", count, self, i, j);
        }
      });
      if (!w.empty()) Bad("%d servers, at %d: %s", count, self, w.c_str());
    }
  }
}

// ---- messages arriving in pieces: every reachable (complete messages, incomplete bytes), every size of the next piece
template <typename Make, typename Get>
static void Arrivals(const std::string& name, size_t unit, size_t sz, Make make, Get get) {
  std::map<std::pair<size_t, size_t>, std::vector<size_t>> seen;
  std::deque<std::pair<size_t, size_t>> todo;
  seen[{0, 0}] = {};
  todo.push_back({0, 0});
  while (!todo.empty() && !CaseBad()) {
    auto at = todo.front();
    todo.pop_front();
    std::vector<size_t> path = seen[at];
    Count("states");
    size_t most = sz / unit * unit - at.second;
    for (size_t piece = 1; piece <= most && !CaseBad(); piece++) {
      std::pair<size_t, size_t> to;
      std::string w = Guard([&] {
        auto held = make();
        auto& b = *held;
        uint64_t sent = 0, items = 0;  // bytes that arrived, messages handed out
        auto arrive = [&](size_t n) {
          b.Clear();
          if (b.Size() != 0 || b.begin() != b.end()) return Bad("%s: messages are left after clearing", name.c_str());
          if (b.BufferCapacity() != sz / unit * unit - sent % unit) return Bad("%s: room for %zu bytes with %zu incomplete", name.c_str(), b.BufferCapacity(), (size_t)(sent % unit));
          char* p = b.ToBuffer();
          for (size_t i = 0; i < n; i++) p[i] = Byte(sent + i);
          b.Update(n);
          sent += n;
          if (b.Size() != sent / unit - items) return Bad("%s: %zu messages of %zu are complete", name.c_str(), (size_t)b.Size(), (size_t)(sent / unit - items));
          if (b.Leftover() != sent % unit) return Bad("%s: %zu bytes incomplete instead of %zu", name.c_str(), b.Leftover(), (size_t)(sent % unit));
          if (b.BufferSize() != b.Size() * unit) return Bad("%s: %zu bytes for %zu messages", name.c_str(), b.BufferSize(), (size_t)b.Size());
          if (b.Full() != ((size_t)b.Size() == sz / unit)) return Bad("%s: fullness is wrong", name.c_str());
          size_t k = 0;
          for (auto it = b.begin(); it != b.end(); ++it, ++k) {
            const char *m = get(*it), *x = get(b[k]);
            if (m != x) return Bad("%s: message %zu is at two places", name.c_str(), k);
            for (size_t i = 0; i < unit; i++)
              if (m[i] != Byte((items + k) * unit + i)) return Bad("%s: byte %zu of message %zu is wrong", name.c_str(), i, (size_t)(items + k));
          }
          if (k != (size_t)b.Size()) return Bad("%s: %zu messages listed instead of %zu", name.c_str(), k, (size_t)b.Size());
          items += k;
        };
        for (size_t n : path) arrive(n);
        arrive(piece);
        to = {(size_t)b.Size(), sent % unit};
      });
      if (!w.empty()) Bad("%s: %s", name.c_str(), w.c_str());
      Count("transitions");
      if (!seen.count(to)) {
        seen[to] = path;
        seen[to].push_back(piece);
        todo.push_back(to);
      }
    }
  }
}
// messages pushed and flushed: all sequences
template <typename Make, typename Push>
static void Outgoing(const std::string& name, size_t unit, size_t sz, int depth, Make make, Push push) {
  dfs = Dfs();
  do {
    dfs.Start();
    std::string ops;
    Count("states");
    std::string w = Guard([&] {
      auto held = make();
      auto& b = *held;
      uint64_t next = 0, flushed = 0;
      for (int d = 0; d < depth; d++) {
        bool canPush = next - flushed < sz / unit;
        bool flush = !canPush || dfs.Choose(2);
        Count("transitions");
        ops += flush ? 'F' : 'P';
        if (!flush) {
          push(b, Item(next, unit));
          next++;
        } else {
          const char* p = b.ToBuffer();
          for (uint64_t k = flushed; k < next; k++) {
            auto m = Item(k, unit);
            if (memcmp(p + (k - flushed) * unit, m.data(), unit)) return Bad("%s %s: message %d is not what was pushed", name.c_str(), ops.c_str(), (int)k);
          }
          b.Clear();
          flushed = next;
        }
        if (b.Size() != next - flushed || b.BufferSize() != (next - flushed) * unit) return Bad("%s %s: size is %zu", name.c_str(), ops.c_str(), (size_t)b.Size());
        if (b.Full() != (next - flushed == sz / unit)) return Bad("%s %s: fullness is wrong", name.c_str(), ops.c_str());
      }
    });
    if (!w.empty()) Bad("%s %s: %s", name.c_str(), ops.c_str(), w.c_str());
  } while (!CaseBad() && dfs.Next());
}
template <typename T, size_t SZ>
struct Typed {
  std::unique_ptr<PhysicalBuffer<SZ>> phys = std::make_unique<PhysicalBuffer<SZ>>();
  LogicalBuffer<T> buf = LogicalBuffer<T>(phys.get());
  LogicalBuffer<T>& operator*() { return buf; }
};
template <size_t SZ>
struct Ciphers {
  std::unique_ptr<PhysicalBuffer<SZ>> phys = std::make_unique<PhysicalBuffer<SZ>>();
  CipherLogicalBuffer buf;
  explicit Ciphers(size_t unit) : buf(phys.get(), unit) {}
  CipherLogicalBuffer& operator*() { return buf; }
};
template <typename T, size_t N, size_t R>
static void TypedBuffer(const char* type) {
  constexpr size_t SZ = N * sizeof(T) + R;
  std::string s = std::string(type) + " buffer of " + to_string(N) + "+" + to_string(R);
  if (Mine("arriving " + s)) Arrivals(s, sizeof(T), SZ, [] { return Typed<T, SZ>(); }, [](const T& t) { return reinterpret_cast<const char*>(&t); });
  if (Mine("leaving " + s))
    Outgoing(s, sizeof(T), SZ, thorough ? 14 : 10, [] { return Typed<T, SZ>(); }, [](LogicalBuffer<T>& b, const std::vector<char>& m) {
      T t;
      memcpy(&t, m.data(), sizeof t);
      b.PushBack(t);
    });
}
template <typename T>
static void TypedBuffers(const char* type) {
  TypedBuffer<T, 1, 0>(type);
  TypedBuffer<T, 1, 5>(type);
  TypedBuffer<T, 2, 0>(type);
  TypedBuffer<T, 2, 11>(type);
  TypedBuffer<T, 3, 1>(type);
  TypedBuffer<T, 5, 7>(type);
}
template <size_t SZ>
static void CipherBuffers() {
  for (size_t unit = 1; unit <= SZ; unit += unit < 8 ? 1 : unit < 40 ? 5 : 13) {
    std::string s = "cipher buffer of " + to_string(SZ) + " bytes, ciphers of " + to_string(unit);
    if (Mine("arriving " + s)) Arrivals(s, unit, SZ, [&] { return Ciphers<SZ>(unit); }, [](char* p) { return (const char*)p; });
    if (Mine("leaving " + s)) Outgoing(s, unit, SZ, thorough ? 14 : 10, [&] { return Ciphers<SZ>(unit); }, [](CipherLogicalBuffer& b, const std::vector<char>& m) { b.PushBack(m.data()); });
  }
}

// ---- batches
template <typename T>
static T Make(uint64_t id) {
  auto m = Item(id, sizeof(T));
  T t;
  memcpy(&t, m.data(), sizeof t);
  return t;
}
template <typename T>
static bool Same(const T& t, uint64_t id) { return !memcmp(&t, Item(id, sizeof(T)).data(), sizeof(T)); }
template <typename T>
static void BatchOps(const char* type, int most) {
  if (!Mine(std::string("batch of ") + type)) return;
  dfs = Dfs();
  do {
    dfs.Start();
    std::string ops;
    Count("states");
    std::string w = Guard([&] {
      Batch<T> b;
      uint64_t serial = 1;
      for (int round = 0; round < 2; round++) {
        int cap = round ? dfs.Choose(2) * most : dfs.Choose(most + 1), pushed = 0;
        ops += " I" + to_string(cap);
        b.Initialize(cap);
        std::vector<uint64_t> ref(cap, 0);
        for (int d = 0; d < (round ? 2 : most + 2); d++) {
          if (b.Capacity() != (index_t)cap || b.end() - b.begin() != cap) return Bad("batch%s: capacity is wrong", ops.c_str());
          if (b.Full() != (pushed == cap)) return Bad("batch%s: fullness is wrong", ops.c_str());
          for (int i = 0; i < cap; i++)
            if (ref[i] && (!Same(b[i], ref[i]) || !Same(b.begin()[i], ref[i]))) return Bad("batch%s: element %d is not what was stored", ops.c_str(), i);
          unsigned n = (pushed < cap ? 1 : 0) + cap + 1;
          unsigned c = dfs.Choose(n);
          Count("transitions");
          if (c == 0) break;
          c--;
          if (c < (unsigned)cap) {  // by index
            ops += " [" + to_string(c) + "]";
            b[c] = Make<T>(ref[c] = serial++);
          } else {
            ops += " P";
            b.PushBack(Make<T>(ref[pushed++] = serial++));
          }
        }
        if (dfs.Choose(2)) b.Free(), ops += " F";
      }
    });
    if (!w.empty()) Bad("batch%s: %s", ops.c_str(), w.c_str());
    if (ops.size() > 18 && ops.find("P [") != std::string::npos) Sample(std::string("batch of ") + type + ":" + ops);
  } while (!CaseBad() && dfs.Next());
}
template <typename T>
static void BigBatch(const char* type, index_t n) {
  if (!Mine(std::string("batch of ") + to_string(n) + " " + type)) return;
  std::string w = Guard([&] {
    Batch<T> b;
    b.Initialize(n);
    for (index_t i = 0; i < n; i++) {
      if (b.Full()) return Bad("batch of %u is full after %u", n, i);
      T t = T();
      memcpy(&t, &i, 4);
      b.PushBack(t);
      Count("transitions");
    }
    if (!b.Full() || b.Capacity() != n || (index_t)(b.end() - b.begin()) != n) return Bad("batch of %u: not full at the end", n);
    index_t i = 0;
    for (auto& t : b) {
      index_t v;
      memcpy(&v, &t, 4);
      if (v != i || memcmp(&b[i], &v, 4)) return Bad("batch of %u: element %u is %u", n, i, v);
      i++;
    }
  });
  if (!w.empty()) Bad("batch of %u: %s", n, w.c_str());
  Count("states");
}

// ---- batches of ciphers: own ones and received ones, in every order of creating, receiving, and processing
static void CipherOps(size_t s, size_t l, int noise, int input) {
  dfs = Dfs();
  do {
    dfs.Start();
    std::string ops;
    Count("states");
    std::string w = Guard([&] {
      CipherBatch b(s, l);
      uint64_t serial = 1;
      for (int round = 0; round < 2; round++) {
        b.Initialize(noise, input);
        std::vector<uint64_t> shorts, longs;  // what must be in the batch
        int made = 0, received = 0;
        size_t popped = 0;
        while (made < noise || received < input || popped < longs.size()) {
          std::string can;
          if (made < noise) can += 'n';
          if (received < input) can += 'r';
          if (popped < longs.size()) can += 'p';
          char op = can[round ? 0 : dfs.Choose(can.size())];
          ops += op;
          Count("transitions");
          if (op == 'n') {
            shorts.push_back(serial);
            b.PushShort(Item(serial++, s).data());
            made++;
          } else if (op == 'r') {
            longs.push_back(serial);
            b.PushLong(Item(serial++, l).data());
            received++;
          } else {
            char* c = b.PopLong();
            if (memcmp(c, Item(longs[popped], l).data(), l)) return Bad("ciphers %s: cipher %zu is not what was received", ops.c_str(), popped);
            popped++;
            shorts.push_back(serial);
            b.PushShort(Item(serial++, s).data());
          }
          if (b.HasLong() != (popped < longs.size())) return Bad("ciphers %s: %zu received, %zu processed", ops.c_str(), longs.size(), popped);
          if (b.FullLong() != (received == input)) return Bad("ciphers %s: %d of %d received", ops.c_str(), received, input);
          for (size_t i = 0; i < shorts.size(); i++)
            if (memcmp(b.GetShort(i), Item(shorts[i], s).data(), s)) return Bad("ciphers %s: processed cipher %zu is damaged", ops.c_str(), i);
        }
        size_t k = 0;
        for (char* c : b) {
          if (k >= shorts.size()) return Bad("ciphers %s: too many listed", ops.c_str());
          if (memcmp(c, Item(shorts[k++], s).data(), s)) return Bad("ciphers %s: cipher %zu listed wrongly", ops.c_str(), k - 1);
        }
        if (k != shorts.size()) return Bad("ciphers %s: %zu listed instead of %zu", ops.c_str(), k, shorts.size());
        b.Free();
        ops += '.';
      }
    });
    if (!w.empty()) Bad("ciphers %s: %s", ops.c_str(), w.c_str());
    if (ops.size() > 9) Sample("ciphers (own n, received r, processed p): " + ops);
  } while (!CaseBad() && dfs.Next());
}
// placed by index, in every order
static void CipherPlaces(size_t s, size_t l, int n) {
  std::vector<int> order(n);
  for (int i = 0; i < n; i++) order[i] = i;
  do {
    std::string w = Guard([&] {
      CipherBatch b(s, l);
      b.Initialize(n, 0);
      for (int i : order) {
        b.SetShort(i, Item(i + 7, s).data());
        Count("transitions");
      }
      int k = 0;
      for (char* c : b) {
        if (k >= n) return Bad("%d ciphers placed: too many listed", n);
        if (memcmp(c, Item(k + 7, s).data(), s) || memcmp(b.GetShort(k), c, s)) return Bad("%d ciphers placed: cipher %d is wrong", n, k);
        k++;
      }
      if (k != n) return Bad("%d ciphers placed, %d listed", n, k);
    });
    if (!w.empty()) Bad("%d ciphers placed: %s", n, w.c_str());
    Count("states");
  } while (!CaseBad() && std::next_permutation(order.begin(), order.end()));
}
// more than 4 GB
static void CipherBig(size_t s, size_t l, index_t noise, index_t input, bool placed) {
  std::string w = Guard([&] {
    CipherBatch b(s, l);
    std::vector<char> c(l);
    auto put = [&](uint32_t id, size_t n) {
      memcpy(c.data(), &id, 4), memcpy(c.data() + n - 4, &id, 4);
      return c.data();
    };
    auto is = [&](const char* p, uint32_t id, size_t n) { return !memcmp(p, &id, 4) && !memcmp(p + n - 4, &id, 4); };
    if (placed) {
      b.Initialize(noise, 0);
      for (index_t i = 0; i < noise; i++) b.SetShort(noise - 1 - i, put(noise - 1 - i, s)), Count("transitions");
    } else {
      b.Initialize(noise, input);
      for (index_t i = 0; i < input; i++) {
        if (b.FullLong()) return Bad("full after %u of %u", i, input);
        b.PushLong(put(i + 1000000, l)), Count("transitions");
      }
      if (!b.FullLong()) return Bad("not full after %u", input);
      for (index_t i = 0; i < noise; i++) b.PushShort(put(i, s)), Count("transitions");
      for (index_t i = 0; i < input; i++) {
        if (!b.HasLong()) return Bad("%u received, %u left", input, input - i);
        if (!is(b.PopLong(), i + 1000000, l)) return Bad("cipher %u of %u is damaged", i, input);
        b.PushShort(put(noise + i, s)), Count("transitions");
      }
    }
    index_t n = placed ? noise : noise + input, k = 0;
    for (char* p : b) {
      if (k >= n || !is(p, k, s) || p != b.GetShort(k)) return Bad("processed cipher %u of %u is wrong", k, n);
      k++;
    }
    if (k != n) return Bad("%u listed instead of %u", k, n);
  });
  if (!w.empty()) Bad("%u and %u ciphers of %zu and %zu bytes: %s", noise, input, s, l, w.c_str());
  Count("states");
}

// ---- the database: every process builds the same one, and its rows can be told apart
static void Rows(index_t n) {
  std::string w = Guard([&] {
    Database a(n), b(n);
    if (a.Size() != n) return Bad("database of %u rows has %u", n, a.Size());
    std::set<std::string> all;
    for (index_t i = 0; i < n; i++) {
      const Response &x = a.Lookup(i), &y = b.Lookup(i);
      Count("transitions");
      if (memcmp(&x, &y, sizeof x) || !(x == y) || x != y) return Bad("database of %u rows: row %u differs between two processes", n, i);
      if (!all.insert(std::string((const char*)&x, sizeof x)).second) return Bad("database of %u rows: row %u is like another", n, i);
    }
    // a random row: any row, evenly
    if (n > 5000) return;
    std::vector<int> hits(n, 0);
    uint32_t max = 1;
    bool other = false;
    uniMode = SCRIPT;
    for (uint32_t k = 0; k < max; k++) {
      uniScript = [&](uint32_t bound) {
        max = std::max(max, std::min(bound, 100000u));
        return k % bound;
      };
      uint64_t o = otherDraws + randDraws;
      DPPIR::key_t r = a.RandomRow();
      other |= otherDraws + randDraws != o;
      Count("transitions");
      if (r >= n) {
        uniMode = REAL;
        return Bad("database of %u rows: random row %u", n, r);
      }
      hits[r]++;
    }
    uniMode = REAL;
    if (max < 2 || other) {  // another source of randomness: only the range can be judged
      for (int k = 0; k < 1000; k++)
        if (a.RandomRow() >= n) return Bad("database of %u rows: random row beyond the end", n);
      return;
    }
    for (index_t i = 0; i < n; i++)
      if (hits[i] != hits[0]) return Bad("database of %u rows: row %u is drawn %d times of %u, row 0 %d times", n, i, hits[i], max, hits[0]);
  });
  uniMode = REAL;
  if (!w.empty()) Bad("database of %u rows: %s", n, w.c_str());
  Count("states");
}
// responses are equal exactly if all of their bytes are
static void Equality() {
  for (int base : {0, 1, 0x55, 0x80, 0xff})
    for (size_t i = 0; i < sizeof(Response); i++)
      for (int d = 0; d < 256; d++) {
        Response a, b;
        memset((void*)&a, base, sizeof a);
        b = a;
        ((char*)&b)[i] ^= d;
        Count("states");
        Count("transitions");
        if ((a == b) != (d == 0) || (a != b) != (d != 0)) return Bad("responses that differ in byte %zu by %d compare wrongly", i, d);
      }
}

int main(int argc, char** argv) {
  std::string what = argc > 1 ? argv[1] : "";
  return Main(argc - 1, argv + 1, [&] {
    Count("states", 0), Count("transitions", 0);
    if (what == "big") {
      const index_t big = 1u << 16;
      BigBatch<tag_t>("tags", (1u << 22) + 3);
      BigBatch<Query>("queries", (1u << 22) + 1);
      BigBatch<Response>("responses", (1u << 18) + 1);
      for (index_t n : {0u, 1u, 2u, 3u, 64u, 127u, 128u, 129u, 255u, 256u, 257u, 1000u, 4097u, 65537u, 300000u})
        if (n && Mine("database " + to_string(n))) Rows(n);
      if (Mine("4 GB received")) CipherBig(34000, 34124, 5000, 125000, false);
      if (Mine("4 GB of own ones")) CipherBig(34000, 34124, 130000, 3, false);
      if (Mine("4 GB placed")) CipherBig(34000, 34124, 130000, 0, true);
      if (Mine("more than 65536 ciphers")) CipherBig(60, 184, 70000, 140000, false);
      if (Mine("more than 65536 placed")) CipherBig(60, 184, 200000, 0, true);
      if (thorough && Mine("8 GB received")) CipherBig(60000, 60124, big, 140000, false);
      return;
    }
    Servers<index_t>("counts");
    Servers<uint64_t>("words");
    TypedBuffers<Query>("query");
    TypedBuffers<Response>("response");
    TypedBuffers<OfflineSecret>("secret");
    CipherBuffers<64>();
    CipherBuffers<97>();
    CipherBuffers<250>();
    BatchOps<tag_t>("tags", 3);
    BatchOps<Query>("queries", 2);
    BatchOps<Response>("responses", thorough ? 3 : 2);
    for (int noise = 0; noise <= 4; noise++)
      for (int input = 0; input <= (thorough ? 5 : 4); input++)
        for (auto sl : {std::pair<size_t, size_t>{1, 2}, {4, 7}, {60, 184}, {124, 248}})
          if (Mine("ciphers " + to_string(noise) + " " + to_string(input) + " of " + to_string(sl.first))) {
            fprintf(stderr, "CASE %s\n", gCase.c_str());
            CipherOps(sl.first, sl.second, noise, input);
          }
    for (int n = 0; n <= (thorough ? 7 : 6); n++)
      for (auto sl : {std::pair<size_t, size_t>{1, 2}, {60, 184}})
        if (Mine("places " + to_string(n) + " of " + to_string(sl.first))) {
          fprintf(stderr, "CASE %s\n", gCase.c_str());
          CipherPlaces(sl.first, sl.second, n);
        }
    if (Mine("equality")) Equality();
  });
}
