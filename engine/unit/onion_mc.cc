// Onions with the real sealed boxes (C12).
#include <unistd.h>

#include <algorithm>
#include <cstdlib>
#include <set>

#include "DPPIR/onion/onion.h"
#include "unit.h"

using namespace DPPIR;
using namespace unit;

static std::vector<pkey_t> pk;
static std::vector<skey_t> sk;

static OfflineSecret Secret(unsigned i, unsigned salt) {
  OfflineSecret s;
  for (size_t j = 0; j < sizeof s; j++) reinterpret_cast<unsigned char*>(&s)[j] = (unsigned char)(i * 101 + j * 7 + salt * 31 + (i * j) % 13);
  return s;
}
// buffers of exactly the announced size, so that any access beyond is seen
struct Exact {
  char* p;
  size_t n;
  Exact(const char* from, size_t n) : p(static_cast<char*>(malloc(n ? n : 1))), n(n) { memcpy(p, from, n); }
  ~Exact() { free(p); }
};
// Decrypts one layer: "" and the plaintext, or why it was refused.
static std::string Open(const char* c, unsigned count, const pkey_t& p, const skey_t& s, OfflineSecret* m, std::string* next) {
  Count("transitions");
  return Guard([&] {
    onion::OnionLayer l = onion::OnionDecrypt(c, count, p, s);
    *m = l.Msg();
    next->assign(l.NextLayer(), onion::CipherSize(count - 1));
  });
}

static void Nest(unsigned P, unsigned first, bool flips) {
  fprintf(stderr, "CASE %s\n", gCase.c_str());
  unsigned n = P - first;
  std::vector<OfflineSecret> sec;
  for (unsigned i = 0; i < n; i++) sec.push_back(Secret(i, P + 17 * first));
  std::vector<pkey_t> keys(pk.begin(), pk.begin() + P);
  std::string cipher;
  std::string w = Guard([&] {
    auto c = onion::OnionEncrypt(sec.data(), first, P, keys);
    cipher.assign(c.get(), onion::CipherSize(n));
  });
  if (!w.empty()) return Bad("%u parties from %u: encryption failed: %s", P, first, w.c_str());
  std::string again;
  Guard([&] {
    auto c = onion::OnionEncrypt(sec.data(), first, P, keys);
    again.assign(c.get(), onion::CipherSize(n));
  });
  if (again == cipher) return Bad("%u parties from %u: encrypting twice gives the same onion", P, first);
  Count("states");
  for (unsigned i = 0; i < n; i++) {
    Exact e(cipher.data(), cipher.size());
    OfflineSecret m;
    std::string next;
    unsigned left = n - i, party = first + i;
    // wrong keys and orders
    unsigned lo = P > 20 && party > 2 ? party - 2 : 0, hi = P > 20 ? std::min(P, party + 3) : P;
    for (unsigned q = lo; q < hi; q++) {
      if (q == party) continue;
      Count("states");
      if (Open(e.p, left, pk[q], sk[q], &m, &next).empty()) return Bad("%u parties from %u: the layer of party %u opens with the key of party %u", P, first, party, q);
      if (flips && Open(e.p, left, pk[party], sk[q], &m, &next).empty()) return Bad("%u parties: the layer of party %u opens with a mixed key pair", P, party);
    }
    // cut short by whole layers
    for (unsigned c = 1; c < left && c <= 4; c++) {
      Count("states");
      if (Open(e.p, left - c, pk[party], sk[party], &m, &next).empty()) return Bad("%u parties from %u: the layer of party %u opens although %u layers are missing", P, first, party, c);
    }
    if (flips)
      for (size_t b = 0; b < e.n * 8; b++) {
        e.p[b / 8] ^= 1 << (b % 8);
        Count("states");
        if (Open(e.p, left, pk[party], sk[party], &m, &next).empty())
          return Bad("%u parties from %u: the layer of party %u is accepted with bit %zu changed", P, first, party, b);
        e.p[b / 8] ^= 1 << (b % 8);
      }
    w = Open(e.p, left, pk[party], sk[party], &m, &next);
    if (!w.empty()) return Bad("%u parties from %u: party %u cannot open its layer: %s", P, first, party, w.c_str());
    if (memcmp(&m, &sec[i], sizeof m)) return Bad("%u parties from %u: party %u gets another secret", P, first, party);
    cipher = next;
  }
  // an onion that starts later is what the earlier one contains: same keys open it from there on
  if (n > 1) Count("nested");
}

int main(int argc, char** argv) {
  return Main(argc, argv, [&] {
    if (sodium_init() < 0) _exit(70);
    Count("states", 0), Count("transitions", 0);
    std::set<pkey_t> seen;
    std::set<skey_t> seens;
    for (int i = 0; i < 256; i++) {
      pkey_t p;
      skey_t s;
      onion::GenerateKeyPair(&p, &s);
      pk.push_back(p), sk.push_back(s);
      seen.insert(p), seens.insert(s);
      pkey_t q;
      crypto_scalarmult_base(q.data(), s.data());
      if (i < 4 && Mine("keys " + std::to_string(i)) && q != p) Bad("public key %d does not match its private key", i);
    }
    if (Mine("distinct keys") && (seen.size() != 256 || seens.size() != 256)) Bad("key pairs repeat");
    if (Mine("sizes")) {
      size_t layer = sizeof(OfflineSecret) + crypto_box_SEALBYTES;
      for (unsigned n = 1; n <= 255; n++)
        if (onion::CipherSize(n) != n * layer) Bad("an onion for %u parties has size %zu instead of %zu", n, onion::CipherSize(n), n * layer);
    }
    for (unsigned P = 1; P <= (thorough ? 10u : 6u); P++)
      for (unsigned f = 0; f < P; f++)
        if (Mine("flips " + std::to_string(P) + " " + std::to_string(f))) Nest(P, f, true);
    for (unsigned P = 7; P <= 255; P += (thorough ? 1 : P < 20 ? 1 : P >= 248 ? 1 : 12)) {
      std::set<unsigned> fs = {0, 1, P / 2, P - 3, P - 2, P - 1};
      for (unsigned f : fs)
        if (Mine("many " + std::to_string(P) + " " + std::to_string(f))) Nest(P, f, false);
    }
    if (part == 0) Sample("onions for 1 to 255 parties; every bit of every layer changed for up to 6 parties; every wrong key");
  });
}
