#include "scen.h"

#include "arena.h"

#include <arpa/inet.h>
#include <math.h>
#include <sodium.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>

#include <algorithm>
#include <set>
#include <sstream>

namespace vmc {

uint64_t gJudged = 0;
std::map<std::string, std::string> gObs;
extern std::string gWorkdir;

const char* CatName(uint32_t c) {
  switch (c) {
    case F_COMPLETE: return "complete";
    case F_DEADLOCK: return "deadlock";
    case F_FRAMING: return "framing";
    case F_RESIDUAL: return "residual";
    case F_WRONG: return "wrong-response";
    case F_NOISE: return "noise";
    case F_CONSERVE: return "conservation";
    case F_TAG: return "tag";
    case F_BARRIER: return "barrier";
    case F_PHASE: return "phase";
    case F_CRASH: return "memory";
    case F_HANG: return "hang";
    case F_SLICE: return "slice";
    case F_CHOP: return "payload";
    case F_CHANCE: return "uninitialised";
    case F_MASK: return "secrecy";
    case F_TIME: return "time";
  }
  return "?";
}

template <typename T>
static std::vector<T> List(const std::string& v, char sep = ',') {
  std::vector<T> out;
  std::stringstream ss(v);
  std::string t;
  while (std::getline(ss, t, sep))
    if (!t.empty()) out.push_back((T)strtoll(t.c_str(), nullptr, 0));
  return out;
}

Scen ParseScen(const std::string& line) {
  Scen s;
  s.line = line;
  std::stringstream ss(line);
  std::string tok;
  while (ss >> tok) {
    size_t e = tok.find('=');
    if (e == std::string::npos) continue;
    std::string k = tok.substr(0, e), v = tok.substr(e + 1);
    auto I = [&] { return strtoll(v.c_str(), nullptr, 0); };
    if (k == "name") s.name = v;
    else if (k == "P") s.P = I();
    else if (k == "S") s.S = I();
    else if (k == "db") s.db = I();
    else if (k == "eps") s.eps = atof(v.c_str());
    else if (k == "delta") s.delta = atof(v.c_str());
    else if (k == "q") s.q = List<uint32_t>(v);
    else if (k == "stage") s.stage = v;
    else if (k == "keys") {
      std::stringstream st(v);
      std::string t;
      while (std::getline(st, t, '/')) s.keys.push_back(List<uint32_t>(t));
    } else if (k == "ips") s.distinctIps = v == "distinct";
    else if (k == "real") s.real = I();
    else if (k == "seed") s.seed = I();
    else if (k == "shared") s.sharedSeeds = List<int>(v);
    else if (k == "local") s.localSeeds = List<int>(v);
    else if (k == "lev") s.lev = I();
    else if (k == "max") s.maxRuns = I();
    else if (k == "part") { s.part = I(); size_t c = v.find('/'); if (c != std::string::npos) s.parts = atoi(v.c_str() + c + 1); }
    else if (k == "cap") s.set.cap = I();
    else if (k == "sched") {
      std::string n = v.substr(0, v.find(':'));
      s.set.sched = n == "fifo" ? SP_FIFO : n == "low" ? SP_LOW : n == "high" ? SP_HIGH : n == "lifo" ? SP_LIFO : n == "slow" ? SP_SLOW : SP_FAST;
      if (v.find(':') != std::string::npos) s.set.schedArg = atoi(v.c_str() + v.find(':') + 1);
    } else if (k == "seg") s.set.seg = I();
    else if (k == "snd") s.set.snd = I();
    else if (k == "hide") s.set.hide = I();
    else if (k == "dev") {
      s.set.devSched = v.find('s') != std::string::npos;
      s.set.devRead = v.find('r') != std::string::npos;
      s.set.devPoll = v.find('p') != std::string::npos;
      s.set.devSend = v.find('w') != std::string::npos;
      s.set.allLens = v.find('A') != std::string::npos;
    } else if (k == "crash") {
      std::vector<int> c = List<int>(v, ':');
      s.set.crashNode = c[0];
      s.set.crashOp = c[1];
      s.set.crashDrop = c.size() > 2 && c[2];
      s.expectCrash = true;
    } else if (k == "late") {
      std::vector<int> c = List<int>(v, ':');
      s.set.lateNode = c[0];
      s.set.lateOp = c[1];
      s.set.lateFor = c[2];
    } else if (k == "tick") s.set.tick = I();
    else if (k == "horizon") s.set.horizon = I();
    else if (k == "eof") s.set.eofLimit = I();
    else if (k == "rand") s.randTape = List<int>(v);
    else if (k == "uni") s.uniTape = List<uint32_t>(v);
    else if (k == "oracle") s.oracle = strtoul(v.c_str(), nullptr, 0);
    else if (k == "sample") s.sample = I();
    else if (k == "prog") s.prog = v;
    else if (k == "fill") s.fill = I();
    else if (k == "obs") s.obs = v;
    else if (k == "enum") {
      // enum=uni or enum=<stream>:<strata>,...
      s.tapes.on = true;
      if (v == "uni") s.tapes.uni = true;
      else {
        std::stringstream st(v);
        std::string t;
        while (std::getline(st, t, ',')) s.tapes.strata[t.substr(0, t.find(':'))] = atoi(t.c_str() + t.find(':') + 1);
      }
    } else if (k == "flip") {
      std::vector<int> c = List<int>(v, ':');
      s.set.flipNode = c[0];
      s.set.flipAt = c[1];
      s.set.flipBits = c[2];
    }
  }
  while ((int)s.q.size() < s.S) s.q.push_back(s.q.empty() ? 1 : s.q.back());
  return s;
}

// ------------------------------------------------------------------ deployment
struct Keys {
  unsigned char pk[32], sk[32];
};
static std::vector<Keys> keys;
static void MakeKeys(int n) {
  while ((int)keys.size() < n) {
    unsigned char seed[32];
    memset(seed, 0, 32);
    seed[0] = keys.size() + 1;
    Keys k;
    crypto_box_seed_keypair(k.pk, k.sk, seed);
    RegisterKey(k.pk, k.sk);
    keys.push_back(k);
  }
}
static std::map<std::string, std::string> configs;

static int NodeId(const Scen& s, int p, int srv) { return s.S + p * s.S + srv; }

static std::string Ip(const Scen& s, int k) {
  if (!s.distinctIps) return "127.0.0.1";
  char b[32];
  snprintf(b, sizeof b, "10.%d.%d.7", k / s.S + 1, k % s.S + 1);
  return b;
}

static std::string ConfigFor(const Scen& s) {
  std::stringstream id;
  id << s.P << " " << s.S << " " << s.db << " " << s.eps << " " << s.delta << " " << s.distinctIps;
  for (int v : s.sharedSeeds) id << " s" << v;
  for (int v : s.localSeeds) id << " l" << v;
  auto it = configs.find(id.str());
  if (it != configs.end()) return it->second;
  if (configs.size() > 64) {
    for (auto& c : configs) unlink(c.second.c_str());
    configs.clear();
  }
  int n = s.P * s.S;
  std::vector<int> ss(s.P), ls(n), po(n), pp(n);
  std::vector<std::string> ipv(n);
  std::vector<const char*> ips(n);
  std::vector<unsigned char> pk(32 * s.P), sk(32 * s.P);
  MakeKeys(s.P);
  for (int p = 0; p < s.P; p++) {
    ss[p] = p < (int)s.sharedSeeds.size() ? s.sharedSeeds[p] : 1000 + p;
    memcpy(&pk[32 * p], keys[p].pk, 32);
    memcpy(&sk[32 * p], keys[p].sk, 32);
  }
  for (int k = 0; k < n; k++) {
    ls[k] = k < (int)s.localSeeds.size() ? s.localSeeds[k] : k;
    po[k] = 3000 + k;
    pp[k] = 4000 + k;
    ipv[k] = Ip(s, k);
    ips[k] = ipv[k].c_str();
  }
  VmcDeploy d;
  d.db_size = s.db;
  d.epsilon = s.eps;
  d.delta = s.delta;
  d.parties = s.P;
  d.servers = s.S;
  d.shared_seeds = ss.data();
  d.local_seeds = ls.data();
  d.ports = po.data();
  d.pports = pp.data();
  d.ips = ips.data();
  d.pkeys = pk.data();
  d.skeys = sk.data();
  static int serial = 0;
  std::string path = gWorkdir + "/cfg" + std::to_string(getpid()) + "_" + std::to_string(serial++);
  Api()->write_config_(&d, path.c_str());
  configs[id.str()] = path;
  return path;
}

// ------------------------------------------------------------------ oracle
typedef std::vector<uint8_t> Bytes;
static uint64_t Fnv(const Bytes& b, uint64_t h = 0xcbf29ce484222325ULL) {
  for (uint8_t c : b) h = (h ^ c) * 0x100000001b3ULL;
  return h;
}
struct Sec {
  uint64_t tag, next;
  uint32_t x, y;
  Bytes pre;
  int from;  // server on whose link it arrived
};
struct LinkData {
  Conn* c = nullptr;
  uint32_t n = 0;
  size_t cs = 0;                       // cipher size
  size_t cEnd = 0, qStart = 0;         // offsets in the down stream
  size_t rStart = 0;                   // offset of responses in the up stream
  std::vector<Bytes> ciphers;          // as sent
  std::vector<std::pair<uint64_t, uint32_t>> queries;
  std::vector<Bytes> responses;
};

struct Judge {
  const Scen& s;
  std::vector<Finding>* out;
  std::vector<std::vector<LinkData>> L;
  bool off, on;
  Judge(const Scen& sc, std::vector<Finding>* o) : s(sc), out(o) {
    off = s.stage != "online";
    on = s.stage != "offline";
  }
  void Report(uint32_t cat, const std::string& m) {
    if ((s.oracle & cat) && out->size() < 8) out->push_back({cat, m});
  }
  static std::string Str(const char* f, ...) __attribute__((format(printf, 1, 2))) {
    char b[400];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
  }

  bool FindLinks() {
    L.assign(s.P, std::vector<LinkData>(s.S));
    bool ok = true;
    for (Conn& c : W.conns) {
      int b = c.b - s.S;
      if (b < 0) continue;
      if (c.port != 3000 + b) continue;
      int p = b / s.S, v = b % s.S;
      int wantA = p == 0 ? v : NodeId(s, p - 1, v);
      if (c.a != wantA || L[p][v].c) {
        Report(F_FRAMING, Str("unexpected connection from node %d to party %d server %d", c.a, p, v));
        ok = false;
        continue;
      }
      L[p][v].c = &c;
    }
    for (int p = 0; p < s.P; p++)
      for (int v = 0; v < s.S; v++)
        if (!L[p][v].c) {
          Report(F_FRAMING, Str("no connection into party %d server %d", p, v));
          ok = false;
        }
    return ok;
  }

  bool Parse() {
    bool ok = true;
    const VmcNodeApi* api = Api();
    for (int p = 0; p < s.P; p++)
      for (int v = 0; v < s.S; v++) {
        LinkData& l = L[p][v];
        const Bytes& d = l.c->ab.data;
        const Bytes& u = l.c->ba.data;
        l.cs = api->cipher_size_(s.P - p);
        if (d.size() < 4) {
          Report(F_FRAMING, Str("link into party %d server %d: no count", p, v));
          ok = false;
          continue;
        }
        memcpy(&l.n, d.data(), 4);
        size_t want = 4 + (off ? (size_t)l.n * l.cs : 0) + (on ? (size_t)l.n * api->query_size : 0);
        l.cEnd = 4 + (off ? (size_t)l.n * l.cs : 0);
        l.qStart = l.cEnd;
        if (d.size() != want) {
          Report(F_FRAMING, Str("link into party %d server %d: %zu bytes sent, %zu announced (count %u)", p, v, d.size(), want, l.n));
          ok = false;
          continue;
        }
        if (p == 0 && l.n != s.q[v]) {
          Report(F_FRAMING, Str("client %d announced %u queries, was asked for %u", v, l.n, s.q[v]));
          ok = false;
        }
        size_t ready = off ? 2 : 1;
        l.rStart = ready;
        size_t uwant = ready + (on ? (size_t)l.n * api->response_size : 0);
        if (u.size() != uwant) {
          Report(F_FRAMING, Str("link out of party %d server %d: %zu bytes returned, %zu expected", p, v, u.size(), uwant));
          ok = false;
          continue;
        }
        for (size_t i = 0; i < ready; i++)
          if (u[i] != 1) {
            Report(F_FRAMING, Str("party %d server %d: ready byte %zu is %u", p, v, i, u[i]));
            ok = false;
          }
        if (off)
          for (uint32_t i = 0; i < l.n; i++) l.ciphers.emplace_back(d.begin() + 4 + i * l.cs, d.begin() + 4 + (i + 1) * l.cs);
        if (on)
          for (uint32_t i = 0; i < l.n; i++) {
            uint64_t t;
            uint32_t y;
            api->decode_query_(d.data() + l.qStart + i * api->query_size, &t, &y);
            l.queries.push_back({t, y});
            l.responses.emplace_back(u.begin() + ready + i * api->response_size, u.begin() + ready + (i + 1) * api->response_size);
          }
      }
    return ok;
  }

  // secrets per party
  std::vector<std::map<uint64_t, Sec>> sec;
  bool Secrets() {
    bool ok = true;
    const VmcNodeApi* api = Api();
    sec.assign(s.P, {});
    std::vector<std::multiset<Bytes>> inner(s.P), outer(s.P);
    std::vector<std::map<Bytes, uint64_t>> expectTag(s.P);
    for (int p = 0; p < s.P; p++)
      for (int v = 0; v < s.S; v++)
        for (Bytes& c : L[p][v].ciphers) {
          Bytes m(c.size() - 48);
          if (HostOpen(m.data(), c.data(), c.size(), keys[p].pk, keys[p].sk) != 0) {
            Report(F_CONSERVE, Str("party %d server %d received a cipher it cannot open", p, v));
            return false;
          }
          Sec x;
          x.pre.resize(api->preshare_size);
          api->decode_secret_(m.data(), &x.tag, &x.next, &x.x, &x.y, x.pre.data());
          x.from = v;
          if (!sec[p].emplace(x.tag, x).second) {
            Report(F_TAG, Str("tag %llu occurs twice at party %d", (unsigned long long)x.tag, p));
            ok = false;
          }
          outer[p].insert(c);
          if (p + 1 < s.P) {
            Bytes in(m.begin() + api->secret_size, m.end());
            expectTag[p + 1][in] = x.next;
            inner[p + 1].insert(std::move(in));
          } else if (m.size() != api->secret_size) {
            Report(F_CONSERVE, "the innermost onion layer carries extra data");
            ok = false;
          }
          if (p > 0) {
            auto it = expectTag[p].find(c);
            if (it != expectTag[p].end() && it->second != x.tag) {
              Report(F_TAG, Str("next_tag %llu given to party %d does not name the secret of party %d (%llu)",
                                (unsigned long long)it->second, p - 1, p, (unsigned long long)x.tag));
              ok = false;
            }
          }
        }
    for (int p = 1; p < s.P; p++) {
      // every decrypted cipher of party p-1 reaches party p exactly once
      std::multiset<Bytes> rest = outer[p];
      for (const Bytes& b : inner[p]) {
        auto it = rest.find(b);
        if (it == rest.end()) {
          Report(F_CONSERVE, Str("an offline cipher decrypted by party %d never reached party %d", p - 1, p));
          ok = false;
          break;
        }
        rest.erase(it);
      }
    }
    return ok;
  }

  uint32_t prime;
  // Follows a query from party p to the backend.
  bool Follow(int p, uint64_t tag, uint32_t tally, uint64_t* key, Bytes* mask) {
    const VmcNodeApi* api = Api();
    mask->assign(api->response_size, 0);
    uint64_t t = tally;
    for (int k = p; k < s.P; k++) {
      if (off) {
        auto it = sec[k].find(tag);
        if (it == sec[k].end()) return false;
        t = (t * it->second.y + it->second.x) % prime;
        for (size_t i = 0; i < mask->size(); i++) (*mask)[i] ^= it->second.pre[i];
        tag = it->second.next;
      } else {
        t = t % prime;
      }
    }
    *key = t;
    return true;
  }
  static Bytes Row(uint64_t key) {
    Bytes r(Api()->response_size);
    uint32_t v = 2 * (uint32_t)key;
    memcpy(r.data(), &v, 4);
    memset(r.data() + 4, (char)(key % 128), r.size() - 4);
    return r;
  }

  void Queries() {
    prime = Api()->prime;
    std::vector<std::map<uint64_t, int64_t>> hist(s.P);
    bool decoded = true;
    std::vector<uint32_t> asked;
    for (int p = 0; p < s.P; p++) {
      std::set<uint64_t> used;
      std::map<std::pair<uint64_t, uint32_t>, int> seen;
      for (int v = 0; v < s.S; v++) {
        LinkData& l = L[p][v];
        asked.clear();
        if (p == 0)
          for (auto& u : W.nodes[v].uniforms)
            if (u.first == s.db) asked.push_back(u.second);
        for (size_t i = 0; i < l.queries.size(); i++) {
          uint64_t tag = l.queries[i].first, key;
          Bytes mask;
          if (off && !used.insert(tag).second) Report(F_TAG, Str("party %d: tag %llu is used by two queries", p, (unsigned long long)tag));
          if (!Follow(p, tag, l.queries[i].second, &key, &mask)) {
            Report(F_TAG, Str("party %d server %d query %zu: no secret for tag %llu", p, v, i, (unsigned long long)tag));
            decoded = false;
            continue;
          }
          if (key >= s.db) {
            Report(F_WRONG, Str("party %d server %d query %zu resolves to row %llu of %u", p, v, i, (unsigned long long)key, s.db));
            decoded = false;
            continue;
          }
          hist[p][key]++;
          Bytes want = Row(key);
          for (size_t b = 0; b < want.size(); b++) want[b] ^= mask[b];
          if (want != l.responses[i])
            Report(F_WRONG, Str("hop %d server %d: response %zu is not row %llu masked for this hop", p, v, i, (unsigned long long)key));
          if (p == 0) {
            // what the client asked for
            if (asked.size() == s.q[v] && s.db != prime && s.db != prime - 1 && asked[i] != key)
              Report(F_WRONG, Str("client %d asked for row %u but its query %zu retrieves row %llu", v, asked[i], i, (unsigned long long)key));
          }
        }
      }
      if (off && used.size() != sec[p].size())
        Report(F_TAG, Str("party %d: %zu secrets installed, %zu used", p, sec[p].size(), used.size()));
    }
    // noise
    double cut = (s.eps == 0 || s.delta == 0) ? 0 : (2 / s.eps) * log(1 / s.delta);
    int64_t c = (int64_t)floor(cut);
    for (int p = 0; decoded && p + 1 < s.P; p++) {
      for (uint32_t k = 0; k < s.db; k++) {
        int64_t add = hist[p + 1][k] - hist[p][k];
        if (s.sample ? (add < 0 || add > (int64_t)floor(2 * cut)) : add != c)
          Report(F_NOISE, Str("party %d added %lld noise queries on row %u, the mechanism calls for %s%lld", p, (long long)add, k,
                              s.sample ? "0.." : "", (long long)(s.sample ? floor(2 * cut) : c)));
      }
    }
  }

  void Counts() {
    double cut = (s.eps == 0 || s.delta == 0) ? 0 : (2 / s.eps) * log(1 / s.delta);
    int64_t c = (int64_t)floor(cut);
    for (int p = 0; p + 1 < s.P; p++) {
      int64_t a = 0, b = 0;
      for (int v = 0; v < s.S; v++) {
        a += L[p][v].n;
        b += L[p + 1][v].n;
      }
      if (s.sample ? (b < a || b - a > (int64_t)(floor(2 * cut) * s.db)) : b - a != c * (int64_t)s.db)
        Report(F_NOISE | F_CONSERVE, Str("party %d turned %lld queries into %lld (noise per row %lld, %u rows)", p, (long long)a, (long long)b, (long long)c, s.db));
      for (int v = 0; v < s.S; v++) {
        int64_t want = v == s.S - 1 ? b - (s.S - 1) * (b / s.S) : b / s.S;
        if (L[p + 1][v].n != want)
          Report(F_SLICE, Str("party %d server %d forwards %u of %lld messages, a balanced slice is %lld", p, v, L[p + 1][v].n, (long long)b, (long long)want));
      }
    }
  }

  // --- causality
  static const VC* SegAt(const Chan& c, size_t off) {
    for (const Seg& g : c.segs)
      if (g.end > off) return &g.vc;
    return nullptr;
  }
  static uint32_t ReadClock(const Chan& c, size_t upto) {  // when the reader had read `upto` bytes
    for (const RdEv& r : c.reads)
      if (r.end >= upto) return r.clock;
    return ~0u;
  }
  void Causality() {
    for (int p = 0; p + 1 < s.P; p++)
      for (int v = 0; v < s.S; v++) {
        LinkData& nx = L[p + 1][v];
        const VC* firstC = off && nx.n ? SegAt(nx.c->ab, 4) : nullptr;
        const VC* firstQ = on && nx.n ? SegAt(nx.c->ab, nx.qStart) : nullptr;
        const VC* firstR = on && L[p][v].n ? SegAt(L[p][v].c->ba, L[p][v].rStart) : nullptr;
        for (int w = 0; w < s.S; w++) {
          int node = NodeId(s, p, w);
          LinkData& in = L[p][w];
          if (firstC && in.n && (*firstC)[node] < ReadClock(in.c->ab, in.cEnd))
            Report(F_BARRIER, Str("party %d server %d forwarded ciphers before server %d had its whole offline batch", p, v, w));
          if (firstQ && in.n && (*firstQ)[node] < ReadClock(in.c->ab, in.c->ab.data.size()))
            Report(F_BARRIER, Str("party %d server %d forwarded queries before server %d had its whole batch", p, v, w));
          LinkData& rs = L[p + 1][w];
          if (firstR && rs.n && (*firstR)[node] < ReadClock(rs.c->ba, rs.c->ba.data.size()))
            Report(F_BARRIER, Str("party %d server %d released responses before server %d had all of its own", p, v, w));
        }
      }
    // backend: answers only once its whole batch is there
    for (int v = 0; on && v < s.S; v++) {
      LinkData& in = L[s.P - 1][v];
      if (!in.n) continue;
      const VC* f = SegAt(in.c->ba, in.rStart);
      if (f && (*f)[NodeId(s, s.P - 1, v)] < ReadClock(in.c->ab, in.c->ab.data.size()))
        Report(F_BARRIER, Str("backend %d answered before its batch was complete", v));
    }
    // phases
    for (int p = 0; p < s.P; p++)
      for (int v = 0; v < s.S; v++) {
        const VC* r1 = SegAt(L[p][v].c->ba, 0);
        const VC* r2 = off ? SegAt(L[p][v].c->ba, 1) : nullptr;
        for (int k = p; k < s.P; k++)
          for (int w = 0; w < s.S; w++) {
            LinkData& d = L[k][w];
            int node = NodeId(s, k, w);
            if (r1 && (p < s.P - 1 || w == v) && (*r1)[node] < ReadClock(d.c->ab, 4))
              Report(F_PHASE, Str("party %d server %d reported ready before party %d server %d knew its batch size", p, v, k, w));
            if (r2 && d.n && (*r2)[node] < ReadClock(d.c->ab, d.cEnd))
              Report(F_PHASE, Str("party %d server %d declared the offline stage over before party %d server %d had its secrets", p, v, k, w));
          }
      }
    for (int v = 0; on && v < s.S; v++) {
      if (!L[0][v].n) continue;
      const VC* f = SegAt(L[0][v].c->ab, L[0][v].qStart);
      for (int k = 0; k < s.P; k++)
        for (int w = 0; w < s.S; w++) {
          LinkData& d = L[k][w];
          size_t need = off ? d.cEnd : 4;
          if (f && (*f)[NodeId(s, k, w)] < ReadClock(d.c->ab, need))
            Report(F_PHASE, Str("client %d started querying before party %d server %d was ready", v, k, w));
        }
    }
    // initialisation before data: the first offline cipher on the wire follows the whole chain's ready
    for (int v = 0; off && v < s.S; v++) {
      if (!L[0][v].n) continue;
      const VC* f = SegAt(L[0][v].c->ab, 4);
      for (int k = 0; k < s.P; k++)
        for (int w = 0; w < s.S; w++)
          if (f && (*f)[NodeId(s, k, w)] < ReadClock(L[k][w].c->ab, 4))
            Report(F_PHASE, Str("client %d sent ciphers before party %d server %d was initialised", v, k, w));
    }
  }

  // After a crash: a client must not report success unless it received every answer and each one was
  // right, and no process may have forwarded or answered part of a batch.
  void Safety() {
    const VmcNodeApi* api = Api();
    prime = api->prime;
    L.assign(s.P, std::vector<LinkData>(s.S));
    for (Conn& c : W.conns) {
      int b = c.b - s.S;
      if (b < 0 || c.port != 3000 + b) continue;
      int p = b / s.S, v = b % s.S;
      if (c.a == (p == 0 ? v : NodeId(s, p - 1, v)) && !L[p][v].c) L[p][v].c = &c;
    }
    size_t ready = off ? 2 : 1;
    // per link: announced count, whether batches were completely read
    auto known = [&](LinkData& l) { return l.c && l.c->ab.data.size() >= 4; };
    for (auto& row : L)
      for (LinkData& l : row)
        if (known(l)) memcpy(&l.n, l.c->ab.data.data(), 4);
    auto cEnd = [&](int p, LinkData& l) { return 4 + (off ? (size_t)l.n * api->cipher_size_(s.P - p) : 0); };
    auto qEnd = [&](int p, LinkData& l) { return cEnd(p, l) + (on ? (size_t)l.n * api->query_size : 0); };
    auto rEnd = [&](LinkData& l) { return ready + (on ? (size_t)l.n * api->response_size : 0); };
    auto readDown = [&](int p, LinkData& l, bool queries) {
      return known(l) && l.c->ab.consumed >= (queries ? qEnd(p, l) : cEnd(p, l));
    };
    for (int p = 0; p < s.P; p++)
      for (int v = 0; v < s.S; v++) {
        LinkData& in = L[p][v];
        for (int w = 0; w < s.S; w++) {
          bool sized = L[p][w].c && L[p][w].c->ab.consumed >= 4;  // server w knows its batch size
          if (p + 1 < s.P) {
            LinkData& nx = L[p + 1][v];
            if (nx.c && !nx.c->ab.data.empty() && !sized)
              Report(F_WRONG, Str("party %d server %d announced a batch although server %d never received its own batch size", p, v, w));
            if (off && known(nx) && nx.n && nx.c->ab.data.size() > 4 && !readDown(p, L[p][w], false))
              Report(F_WRONG, Str("party %d server %d forwarded ciphers of a batch that server %d never received completely", p, v, w));
            if (on && known(nx) && nx.n && nx.c->ab.data.size() > cEnd(p + 1, nx) && !readDown(p, L[p][w], true))
              Report(F_WRONG, Str("party %d server %d forwarded queries of a batch that server %d never received completely", p, v, w));
            LinkData& rs = L[p + 1][w];
            if (on && known(in) && in.n && in.c->ba.data.size() > ready && !(known(rs) && rs.c->ba.consumed >= rEnd(rs)))
              Report(F_WRONG, Str("party %d server %d answered although server %d never received all responses", p, v, w));
          } else if (w == v && on && known(in) && in.n && in.c->ba.data.size() > ready && !readDown(p, in, true)) {
            Report(F_WRONG, Str("backend %d answered part of a batch", v));
          }
        }
        if (in.c && !in.c->ba.data.empty() && in.c->ab.consumed < 4)
          Report(F_WRONG, Str("party %d server %d reported ready without having received its batch size", p, v));
        Node& me = W.nodes[NodeId(s, p, v)];
        if (me.st == NS_EXITED && me.exitCode == 0) {
          if (!known(in) || in.c->ab.consumed < qEnd(p, in) || in.c->ba.data.size() < rEnd(in))
            Report(F_WRONG, Str("party %d server %d reported success without completing its batch", p, v));
        }
      }
    for (int v = 0; v < s.S; v++) {
      Node& cl = W.nodes[v];
      if (cl.st != NS_EXITED || cl.exitCode != 0) continue;
      LinkData& l = L[0][v];
      size_t need = ready + (on ? (size_t)s.q[v] * api->response_size : 0);
      if (!known(l) || l.n != s.q[v] || l.c->ba.consumed < need || l.c->ab.data.size() != qEnd(0, l)) {
        Report(F_WRONG, Str("client %d reported success after receiving %zu of %zu bytes", v, l.c ? l.c->ba.consumed : 0, need));
        continue;
      }
      if (!on) continue;
      // the client's own onions tell what it should have received
      std::vector<std::map<uint64_t, Sec>> mine(s.P);
      size_t cs = api->cipher_size_(s.P);
      bool opened = true;
      for (uint32_t i = 0; off && i < l.n && opened; i++) {
        Bytes c(l.c->ab.data.begin() + 4 + i * cs, l.c->ab.data.begin() + 4 + (i + 1) * cs);
        for (int p = 0; p < s.P && opened; p++) {
          Bytes m(c.size() - 48);
          if (HostOpen(m.data(), c.data(), c.size(), keys[p].pk, keys[p].sk) != 0) {
            opened = false;
            break;
          }
          Sec x;
          x.pre.resize(api->preshare_size);
          api->decode_secret_(m.data(), &x.tag, &x.next, &x.x, &x.y, x.pre.data());
          mine[p].emplace(x.tag, x);
          c.assign(m.begin() + api->secret_size, m.end());
        }
      }
      sec.swap(mine);
      for (uint32_t i = 0; i < l.n; i++) {
        uint64_t t, key;
        uint32_t y;
        Bytes mask;
        api->decode_query_(l.c->ab.data.data() + cEnd(0, l) + i * api->query_size, &t, &y);
        if (!opened || !Follow(0, t, y, &key, &mask) || key >= s.db) {
          Report(F_WRONG, Str("client %d: query %u does not resolve", v, i));
          break;
        }
        Bytes want = Row(key);
        const uint8_t* got = l.c->ba.data.data() + ready + i * api->response_size;
        for (size_t b = 0; b < want.size(); b++)
          if ((want[b] ^ mask[b]) != got[b]) {
            Report(F_WRONG, Str("client %d ended successfully with a wrong answer to query %u", v, i));
            break;
          }
      }
    }
  }

  // What an observer of this execution sees, as named components.
  void Observe() {
    gObs.clear();
    prime = Api()->prime;
    if (s.obs == "perm") {
      // order in which the messages of a party leave it, relative to the order in which they came in
      for (int p = 0; p + 1 < s.P; p++) {
        std::map<Bytes, int> in;
        std::map<uint64_t, int> tags;
        int k = 0;
        for (int v = 0; v < s.S; v++) {
          for (Bytes& c : L[p][v].ciphers) {
            Bytes m(c.size() - 48);
            if (HostOpen(m.data(), c.data(), c.size(), keys[p].pk, keys[p].sk) != 0) continue;
            in[Bytes(m.begin() + Api()->secret_size, m.end())] = k++;
          }
        }
        k = 0;
        for (int v = 0; on && v < s.S; v++)
          for (auto& q : L[p][v].queries) {
            auto it = sec[p].find(q.first);
            if (it != sec[p].end()) tags[it->second.next] = k;
            k++;
          }
        std::string a, b;
        for (int v = 0; v < s.S; v++) {
          for (Bytes& c : L[p + 1][v].ciphers) a += in.count(c) ? Str("%d,", in[c]) : "x,";
          for (auto& q : L[p + 1][v].queries) b += tags.count(q.first) ? Str("%d,", tags[q.first]) : "x,";
        }
        gObs[Str("offline%d", p)] = a;
        if (on) gObs[Str("online%d", p)] = b;
        if (s.P > 2) gObs["all"] += (on ? b : a) + ";";
      }
    } else if (s.obs == "view") {
      // for every m: all links of queries up to party m, and the offline secrets of everybody else
      for (int m = 0; m < s.P; m++) {
        std::string a;
        for (int p = 0; p < s.P; p++)
          for (int v = 0; v < s.S; v++) {
            if (p <= m)
              for (auto& q : L[p][v].queries) a += Str("%llx:%u ", (unsigned long long)q.first, q.second);
            a += "/";
          }
        for (int p = 0; p < s.P; p++)
          for (auto& x : sec[p]) {
            if (p == m) a += Str("%llx>%llx ", (unsigned long long)x.first, (unsigned long long)x.second.next);
            else a += Str("%llx>%llx(%u,%u)%llx ", (unsigned long long)x.first, (unsigned long long)x.second.next, x.second.x, x.second.y, (unsigned long long)Fnv(x.second.pre));
          }
        gObs[Str("without%d", m)] = Str("%016llx", (unsigned long long)Fnv(Bytes(a.begin(), a.end())));
      }
      uint64_t h = 1;
      for (int v = 0; v < s.S; v++) h = Fnv(Bytes(L[0][v].c->ab.data.begin(), L[0][v].c->ab.data.begin() + L[0][v].cEnd), h);
      gObs["offline"] = Str("%016llx", (unsigned long long)h);
    } else if (s.obs == "noise") {
      for (int p = 0; p + 1 < s.P; p++) {
        std::map<uint64_t, int64_t> h;
        uint64_t key;
        Bytes mask;
        for (int e = 0; e < 2; e++)
          for (int v = 0; v < s.S; v++)
            for (auto& q : L[p + e][v].queries)
              if (Follow(p + e, q.first, q.second, &key, &mask)) h[key] += e ? 1 : -1;
        std::string a;
        for (uint32_t r = 0; r < s.db; r++) a += Str("%lld,", (long long)h[r]);
        gObs[Str("rows%d", p)] = a;
        if (s.P > 2) gObs["all"] += a;
      }
    } else if (s.obs == "fresh") {
      // what processes draw: noise per party and row, and the secrets in every onion
      for (int p = 0; p + 1 < s.P && on; p++) {
        std::map<uint64_t, int64_t> h;
        uint64_t key;
        Bytes mask;
        for (int e = 0; e < 2; e++)
          for (int v = 0; v < s.S; v++)
            for (auto& q : L[p + e][v].queries)
              if (Follow(p + e, q.first, q.second, &key, &mask)) h[key] += e ? 1 : -1;
        std::string a;
        for (uint32_t r = 0; r < s.db; r++) a += Str("%lld,", (long long)h[r]);
        gObs[Str("noise%d", p)] = a;
      }
      std::string a;
      for (int p = 0; p < s.P && off; p++)
        for (auto& x : sec[p]) a += Str("%x.%x.%llx,", x.second.x, x.second.y, (unsigned long long)Fnv(x.second.pre));
      if (off) gObs["secrets"] = a;
    } else if (s.obs == "wire") {
      uint64_t h = 1;
      for (Conn& c : W.conns) h = Fnv(c.ba.data, Fnv(c.ab.data, h) + c.a * 64 + c.b);
      gObs["wire"] = Str("%016llx", (unsigned long long)h);
    }
  }

  // The pads on the responses of every link: what is sent XOR the row.
  void Pads() {
    prime = Api()->prime;
    std::map<std::pair<size_t, uint64_t>, std::string> seen;  // (word, pad) -> where
    // wide enough that two independent pads do not agree by chance
    size_t total = 0;
    for (int p = 0; p < s.P; p++)
      for (int v = 0; v < s.S; v++) total += L[p][v].queries.size();
    size_t width = total > 300 ? 8 : 4;
    for (int p = 0; p < s.P; p++)
      for (int v = 0; v < s.S; v++) {
        LinkData& l = L[p][v];
        for (size_t i = 0; i < l.queries.size(); i++) {
          uint64_t key;
          Bytes mask;
          if (!Follow(p, l.queries[i].first, l.queries[i].second, &key, &mask)) continue;
          Bytes row = Row(key);
          std::string me = Str("response %zu on the link out of party %d server %d", i, p, v);
          for (size_t w = 0; w + width <= row.size(); w += width) {
            uint64_t a = 0, b = 0;
            memcpy(&a, &row[w], width);
            memcpy(&b, &l.responses[i][w], width);
            if ((a ^ b) == 0) {
              Report(F_MASK, me + Str(": bytes %zu to %zu are not hidden", w, w + width - 1));
              return;
            }
            auto r = seen.emplace(std::make_pair(w, a ^ b), me);
            if (!r.second) {
              Report(F_MASK, me + " is hidden with the same pad as " + r.first->second + Str(" in bytes %zu to %zu", w, w + width - 1));
              return;
            }
          }
        }
      }
  }

  // --- the times that parties report
  static std::vector<uint64_t> Reported(const std::string& text, const std::string& label) {
    std::vector<uint64_t> out;
    for (size_t at = text.find(label); at != std::string::npos; at = text.find(label, at + 1)) {
      size_t d = at + label.size(), e = d;
      while (e < text.size() && isdigit((unsigned char)text[e])) e++;
      if (e > d && text.compare(e, 2, "ms") == 0) out.push_back(strtoull(text.c_str() + d, nullptr, 10));
    }
    return out;
  }
  static uint64_t ReadTime(const Chan& c, size_t upto) {
    for (const RdEv& r : c.reads)
      if (r.end >= upto) return r.time;
    return 0;
  }
  static uint64_t WriteTime(const Chan& c, size_t off, uint64_t never) {
    for (const Seg& g : c.segs)
      if (g.end > off) return g.time;
    return never;
  }
  void Times() {
    const uint64_t kNever = ~0ull >> 1;
    for (int p = 0; p + 1 < s.P; p++)
      for (int v = 0; v < s.S; v++) {
        int me = NodeId(s, p, v);
        LinkData &in = L[p][v], &nx = L[p + 1][v];
        std::vector<Chan*> from, siblings, to;  // read by this server; of these from siblings; written onwards
        for (Conn& c : W.conns)
          for (Chan* ch : {&c.ab, &c.ba}) {
            bool sib = ch->src >= NodeId(s, p, 0) && ch->src <= NodeId(s, p, s.S - 1) && ch->dst >= NodeId(s, p, 0) && ch->dst <= NodeId(s, p, s.S - 1);
            if (ch->dst == me) {
              from.push_back(ch);
              if (sib) siblings.push_back(ch);
            }
            if (ch->src == me && (sib || ch == &nx.c->ab)) to.push_back(ch);
          }
        // the first thing this server sends on once it and its siblings have what they need: it has what it needs
        // itself at `t` and heard from each of them after that
        auto goesOn = [&](uint64_t t) {
          uint64_t all = t;
          for (Chan* c : siblings) {
            uint64_t first = kNever;
            for (RdEv& r : c->reads)
              if (r.time > t) { first = r.time; break; }
            all = std::max(all, first);
          }
          uint64_t w = kNever;
          for (Chan* c : to)
            for (Seg& g : c->segs)
              if (g.time > all) { w = std::min(w, g.time); break; }
          return w;
        };
        auto lastRead = [&](uint64_t before) {
          uint64_t t = 0;
          for (Chan* c : from)
            for (RdEv& r : c->reads)
              if (r.time < before) t = std::max(t, r.time);
          return t;
        };
        auto who = Str("party %d server %d", p, v);
        auto judge = [&](const char* label, bool ran, int64_t lo, int64_t hi) {
          std::vector<uint64_t> r = Reported(W.nodes[me].out, std::string(label) + " time: ");
          if (r.size() != (ran ? 1 : 0)) {
            Report(F_TIME, who + Str(" reports an %s time %zu times instead of %d", label, r.size(), (int)ran));
            return;
          }
          if (!ran) return;
          lo = std::max<int64_t>(lo, 0);
          int64_t tick = s.set.tick;
          if ((int64_t)r[0] < lo * tick || (int64_t)r[0] > hi * tick + 50)
            Report(F_TIME, who + Str(" reports an %s time of %llu ms; between %lld and %lld ms passed", label, (unsigned long long)r[0], (long long)(lo * tick), (long long)(hi * tick)));
        };
        uint64_t ready1 = WriteTime(in.c->ba, 0, kNever), readyEnd = WriteTime(in.c->ba, in.rStart - 1, kNever);
        {
          uint64_t have = in.n ? ReadTime(in.c->ab, in.c->ab.data.size()) : readyEnd;
          uint64_t starts = goesOn(have);
          for (LinkData& l : L[p])
            if (l.n) have = std::max(have, ReadTime(l.c->ab, l.c->ab.data.size()));
          uint64_t release = in.n ? WriteTime(in.c->ba, in.rStart, kNever) : W.time + 1;
          judge("Online", on, starts == kNever ? 0 : (int64_t)lastRead(release) - (int64_t)(starts - 1), (int64_t)(release - 1) - (int64_t)have);
        }
        {
          // before the ciphers arrive: from creating its own, if any, until the others are ready
          const std::vector<uint64_t>& work = W.nodes[me].crypto;
          auto firstWork = [&](uint64_t after) {
            auto it = std::upper_bound(work.begin(), work.end(), after);
            return it == work.end() ? kNever : *it;
          };
          uint64_t have = off && in.n ? ReadTime(in.c->ab, in.cEnd) : ready1, before = lastRead(ready1);
          int64_t lo = 0;
          if (off && firstWork(0) < before) lo += before - (firstWork(0) - 1);
          // and from their arrival until the others are done
          uint64_t starts = std::min(goesOn(have), firstWork(have));
          if (off && starts != kNever) lo += std::max<int64_t>(0, (int64_t)lastRead(readyEnd) - (int64_t)(starts - 1));
          for (LinkData& l : L[p])
            if (off && l.n) have = std::max(have, ReadTime(l.c->ab, l.cEnd));
          judge("Offline", off, std::max<int64_t>(lo, work.size()), (int64_t)(ready1 - ReadTime(in.c->ab, 4)) + (int64_t)(readyEnd - have));
        }
      }
  }

  // An altered onion must stop the party that opens it.
  void Flipped() {
    Node& n = W.nodes[s.set.flipNode];
    int p = (s.set.flipNode - s.S) / s.S;
    if (n.st != NS_CRASHED) Report(F_MASK, Str("party %d went on after an onion sent to it was altered at byte %zu", p, s.set.flipAt));
    for (int v = 0; v < s.S; v++)
      if (W.nodes[v].st == NS_EXITED && W.nodes[v].exitCode == 0) Report(F_MASK, Str("client %d ended successfully although an onion was altered", v));
    for (Conn& c : W.conns)
      if (c.a == s.set.flipNode && c.port >= 3000 && c.port < 4000 && c.ab.data.size() > 4)
        Report(F_MASK, Str("party %d forwarded ciphers after an onion sent to it was altered", p));
  }

  void All() {
    int N = W.nodes.size();
    if (s.set.flipNode >= 0) {
      Flipped();
      return;
    }
    bool complete = true;
    for (int i = 0; i < N; i++) {
      Node& n = W.nodes[i];
      std::string who = i < s.S ? Str("client %d", i) : Str("party %d server %d", (i - s.S) / s.S, (i - s.S) % s.S);
      if (n.st == NS_EXITED && n.exitCode == 0) continue;
      if (n.st == NS_KILLED && s.expectCrash) continue;
      if (s.expectCrash) {
        // others may fail or wait, but a wrong answer accepted by the client shows as its check failing on data
        if (i < s.S && n.st == NS_CRASHED && n.why.find("response == expected") != std::string::npos)
          Report(F_WRONG, who + " received a wrong response: " + n.why);
        continue;
      }
      complete = false;
      if (n.st == NS_CRASHED) Report(F_COMPLETE, who + ": " + n.why);
      else if (n.st == NS_EXITED) Report(F_COMPLETE, who + Str(": exit status %d", n.exitCode));
      else {
        static const char* ops[] = {"start", "accept", "connect", "read", "poll", "sleep", "send (peer does not read)", "spin"};
        Report(F_DEADLOCK, who + " waits forever in " + ops[n.op] + (n.why.empty() ? "" : " (" + n.why + ")"));
      }
    }
    if (W.res.horizon) Report(F_DEADLOCK, "no end after the horizon");
    if (s.expectCrash) {
      Safety();
      return;
    }
    if (!complete) return;
    for (Conn& c : W.conns)
      for (Chan* ch : {&c.ab, &c.ba})
        if (ch->consumed != ch->data.size())
          Report(F_RESIDUAL, Str("%zu bytes from node %d to node %d were never read", ch->data.size() - ch->consumed, ch->src, ch->dst));
    if (s.oracle & ~(uint32_t)(F_COMPLETE | F_DEADLOCK | F_RESIDUAL)) {
      if (!FindLinks() || !Parse()) return;
      Counts();
      if (!off || Secrets()) {
        if (on) Queries();
        else prime = Api()->prime;
      }
      if (s.oracle & (F_BARRIER | F_PHASE)) Causality();
      if (off && on && (s.oracle & F_MASK)) Pads();
      if (W.timed) Times();
      if (!s.obs.empty()) Observe();
    }
  }
};

static std::vector<Bytes> Wire() {
  std::vector<Bytes> out;
  for (Conn& c : W.conns) {
    out.push_back({(uint8_t)c.a, (uint8_t)c.b});
    out.push_back(c.ab.data);
    out.push_back(c.ba.data);
  }
  for (Node& n : W.nodes) out.push_back({(uint8_t)n.st, (uint8_t)n.exitCode});
  return out;
}

void RunScen(const Scen& s, const std::vector<Dev>& devs, std::vector<Finding>* out) {
  W.set = s.set;
  W.timed = s.oracle != ~0u && (s.oracle & F_TIME);
  if (!s.tapes.on) W.tapes.on = false;
  gObs.clear();
  W.devs = devs;
  if (!s.prog.empty()) {
    // transport driver: nodes 0.. run the driver, which checks its own payload
    std::vector<std::string> parts;
    std::stringstream st(s.prog);
    std::string t;
    while (std::getline(st, t, ':')) parts.push_back(t);
    int n = atoi(parts[1].c_str());
    std::vector<uint32_t> ips(n, 0x7f000001);
    Reset(n, ips, s.seed);
    std::vector<std::vector<std::string>> args(n);
    for (int i = 0; i < n; i++) {
      args[i] = {"prog", std::to_string(i)};
      args[i].insert(args[i].end(), parts.begin(), parts.end());
    }
    Run(args, true);
    if (W.res.pruned || W.res.diverged) return;
    gJudged++;
    for (int i = 0; i < n; i++) {
      Node& x = W.nodes[i];
      char b[300];
      if (x.st == NS_EXITED && x.exitCode == 0) continue;
      snprintf(b, sizeof b, "endpoint %d: %s (status %d)", i,
               x.st == NS_PARKED ? "waits forever" : x.why.empty() ? "payload differs" : x.why.c_str(), x.exitCode);
      if (s.oracle & F_CHOP) out->push_back({F_CHOP, b});
    }
    if (out->empty())
      for (Conn& c : W.conns)
        for (Chan* ch : {&c.ab, &c.ba})
          if (ch->consumed != ch->data.size() && (s.oracle & F_RESIDUAL)) out->push_back({F_RESIDUAL, "bytes left unread"});
    return;
  }
  SetFakeCrypto(!s.real);
  MakeKeys(s.P);
  std::string cfg = ConfigFor(s);
  int N = s.S + s.P * s.S;
  std::vector<uint32_t> ips(N, 0x7f000001);
  if (s.distinctIps)
    for (int i = 0; i < N; i++)
      ips[i] = i < s.S ? 0x0b000001u + i : ntohl(inet_addr(Ip(s, i - s.S).c_str()));
  auto start = [&] {
  Reset(N, ips, s.seed);
  W.seeds.clear();
  for (int p = 0; p < s.P; p++) W.seeds.insert(p < (int)s.sharedSeeds.size() ? s.sharedSeeds[p] : 1000 + p);
  for (int k = 0; k < s.P * s.S; k++) W.seeds.insert(k < (int)s.localSeeds.size() ? s.localSeeds[k] : k);
  std::vector<std::vector<std::string>> args(N);
  for (int v = 0; v < s.S; v++) {
    args[v] = {"dppir", "--role=client", "--stage=" + s.stage, "--config=" + cfg, "--server_id=" + std::to_string(v),
               "--queries=" + std::to_string(s.q[v])};
    Node& n = W.nodes[v];
    n.keyBound = s.db;
    if (v < (int)s.keys.size()) n.keyTape = s.keys[v];
    else
      for (uint32_t i = 0; i < s.q[v]; i++) n.keyTape.push_back((i * 3 + v + s.seed) % s.db);
    if (v == 0) n.uniTape = s.uniTape, n.bufTape = s.bufTape;
  }
  for (int p = 0; p < s.P; p++)
    for (int v = 0; v < s.S; v++) {
      args[NodeId(s, p, v)] = {"dppir", "--role=party", "--stage=" + s.stage, "--config=" + cfg,
                               "--server_id=" + std::to_string(v), "--party_id=" + std::to_string(p)};
      Node& n = W.nodes[NodeId(s, p, v)];
      n.randTape = s.randTape;
      if (!n.randTape.empty()) std::rotate(n.randTape.begin(), n.randTape.begin() + (p * s.S + v) % n.randTape.size(), n.randTape.end());
    }
  Run(args, false);
  };
  start();
  if (W.res.pruned || W.res.diverged) return;
  gJudged++;
  Judge j(s, out);
  j.All();
  if (s.fill && out->empty()) {
    // the same execution again, with other initial contents of heap and stacks
    RunResult keep = W.res;
    std::vector<Bytes> first = Wire();
    int was = vmc_fill;
    bool (*visit)(uint64_t) = W.visit;
    W.visit = nullptr;
    W.fillStacks = true;
    for (int fill : {0x00, 0x5a, 0xff}) {
      vmc_fill = fill;
      start();
      if (Wire() != first) {
        if (s.oracle & F_CHANCE) out->push_back({F_CHANCE, "messages depend on the previous contents of memory"});
        break;
      }
    }
    W.visit = visit;
    vmc_fill = was;
    W.fillStacks = false;
    W.res = keep;
  }
}

}  // namespace vmc
