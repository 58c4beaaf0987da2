# Planted bugs; read by mkseeds.py.
P = 'DPPIR/protocol/'
PP = P + 'parallel_party/parallel_party_'
HEAD = '''from deploy import *
'''

seed('s01-repeat-cache', 'C01',
     'two consecutive queries for the same row in a run with offline secrets',
     'the backend reuses the masked response of the previous query for the '
     'same row, so the client cannot unmask it',
     [(P + 'backend/backend_handlers.cc',
       '''  Response response;
''', '''  // Consecutive queries for the same row need not be answered twice.
  static key_t last_key = 0;
  static Response last_response;
  static bool cached = false;
  if (cached && key == last_key) {
    return last_response;
  }
  cached = true;
  last_key = key;

  Response& response = last_response;
''')],
     py=HEAD + '''
with Deploy(1, 0, 0, 2, 1) as d:
    d.everything('all', [5])
    rc = d.wait(60)
    if any(v != 0 for v in rc.values()):
        fail(rc)
with Deploy(1, 0, 0, 3, 1) as d:
    d.everything('online', [5])
    rc = d.wait(60)
    if any(v != 0 for v in rc.values()):
        fail(rc)
print('ok')
''')

seed('s02-deshuffle-empty-server', 'C02',
     'three or more parallel servers, one of which contributes no message to '
     'the batch of a sibling',
     'responses are sent back to the wrong sibling once a server that sent '
     'nothing has to be skipped',
     [(PP + 'shuffle.cc',
       '        while (index >= target_end && target < this->server_count_ - 1) {',
       '        if (index >= target_end && target < this->server_count_ - 1) {')],
     py=HEAD + '''
for queries in ([4, 0, 4], [3, 0, 0], [0, 0, 5]):
    with Deploy(7, 0, 0, 2, 3) as d:
        d.everything('online', queries)
        rc = d.wait(40)
        if any(v != 0 for v in rc.values()):
            fail((queries, rc))
print('ok')
''')

seed('s03-send-all-first', 'C03',
     'parallel servers whose exchange exceeds what the connections between '
     'them can hold',
     'servers of a party send everything before they read anything from their '
     'siblings: with large batches all of them block in send() for ever',
     [(PP + 'shuffle.cc', 'size_t poll_rate = POLL_RATE / sizeof(Query);',
       'size_t poll_rate = POLL_RATE * sizeof(Query);')],
     cc='''
#include <sys/socket.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <arpa/inet.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <unistd.h>
#include <signal.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
// Limits what a connection can hold: the kernel may be configured to do so too.
extern "C" int setsockopt(int fd, int level, int name, const void* v,
                          socklen_t n) noexcept {
  static auto real = [](int fd, int level, int name, const void* v,
                        socklen_t n) {
    return syscall(54 /* setsockopt on x86-64 */, fd, level, name, v, n);
  };
  int small = 65536;
  if (level == SOL_SOCKET && (name == SO_RCVBUF || name == SO_SNDBUF)) {
    return real(fd, level, name, &small, sizeof(small));
  }
  return real(fd, level, name, v, n);
}
#include "DPPIR/config/config.h"
#include "DPPIR/onion/onion.h"
#include "DPPIR/protocol/backend/backend.h"
#include "DPPIR/protocol/client/client.h"
#include "DPPIR/protocol/parallel_party/parallel_party.h"
using namespace DPPIR;
config::Config Conf() {
  config::Config c;
  c.db_size = 10; c.epsilon = 0; c.delta = 0;
  c.party_count = 2; c.server_count = 2;
  for (int p = 0; p < 2; p++) {
    config::PartyConfig party;
    party.shared_seed = 5 + p;
    party.onion_pkey.fill(0); party.onion_skey.fill(0);
    for (int s = 0; s < 2; s++) {
      party.servers.push_back(
          {10 + p * 2 + s, 3000 + p * 2 + s, 4000 + p * 2 + s, "127.0.0.1"});
    }
    c.parties.push_back(party);
  }
  return c;
}
int main() {
  if (sodium_init() < 0) return 2;
  std::vector<pid_t> pids;
  for (int r = 0; r < 6; r++) {
    pid_t pid = fork();
    if (pid == 0) {
      signal(SIGPIPE, SIG_DFL);
      alarm(60);
      freopen("/dev/null", "w", stdout);
      config::Config c = Conf();
      Database db(10);
      int s = r % 2;
      if (r < 2) {
        protocol::ParallelParty p(0, s, std::move(c), std::move(db));
        p.Start(false, true);
      } else if (r < 4) {
        protocol::BackendParty b(s, std::move(c), std::move(db));
        b.Start(false, true);
      } else {
        protocol::Client cl(s, std::move(c), std::move(db));
        cl.Start(300000, false, true);
      }
      _exit(0);
    }
    pids.push_back(pid);
  }
  int bad = 0;
  for (pid_t pid : pids) {
    int st = 0;
    waitpid(pid, &st, 0);
    if (st != 0) bad++;
  }
  if (bad) printf("FAIL: %d of 6 processes did not finish\\n", bad);
  return bad ? 1 : 0;
}
''', src='DPPIR/config/config.cc DPPIR/noise/noise.cc DPPIR/onion/onion.cc '
     'DPPIR/sharing/additive.cc DPPIR/sharing/incremental.cc '
     'DPPIR/shuffle/local_shuffle.cc DPPIR/shuffle/parallel_shuffle.cc '
     'DPPIR/shuffle/util.cc DPPIR/sockets/client_socket.cc '
     'DPPIR/sockets/common.cc DPPIR/sockets/parallel_socket.cc '
     'DPPIR/sockets/server_socket.cc DPPIR/types/*.cc '
     'DPPIR/protocol/backend/*.cc DPPIR/protocol/client/*.cc '
     'DPPIR/protocol/parallel_party/*.cc', flags='-O1')

seed('s04-overread', 'C04',
     'a message cut in two by the network, with the next phase already on '
     'the wire',
     'a read after a partial message takes bytes that belong to the next '
     'phase of the protocol',
     [('DPPIR/sockets/common.h',
       'read_count * buf->UnitSize() - buf->Leftover()',
       'read_count * buf->UnitSize()')],
     cc='''
#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstdio>
#include <cstring>
#include <string>
#include "DPPIR/sockets/server_socket.h"
using namespace DPPIR;
int main() {
  pid_t pid = fork();
  if (pid == 0) {
    int fd;
    sockaddr_in a{};
    a.sin_family = AF_INET; a.sin_port = htons(3977);
    inet_pton(AF_INET, "127.0.0.1", &a.sin_addr);
    while (true) {
      fd = socket(AF_INET, SOCK_STREAM, 0);
      if (connect(fd, (sockaddr*)&a, sizeof(a)) == 0) break;
      close(fd);
      usleep(20000);
    }
    int y = 1;
    setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &y, sizeof(y));
    // Two ciphers of 100 bytes in pieces, then three queries.
    std::string all(200, 'c');
    for (uint64_t i = 1; i <= 3; i++) {
      Query q; q.tag = i; q.tally = 10 * i;
      all += std::string((const char*)&q, sizeof(q));
    }
    write(fd, all.data(), 130);
    usleep(300000);
    write(fd, all.data() + 130, all.size() - 130);
    sleep(3);
    _exit(0);
  }
  alarm(20);
  auto* s = new sockets::ServerSocket(100);
  s->Initialize(3977);
  usleep(100000);
  index_t left = 2;
  while (left > 0) {
    auto& b = s->ReadCiphers(left);
    for (char* c : b) for (int i = 0; i < 100; i++) if (c[i] != 'c') return 1;
    left -= b.Size();
    if (left > 0) usleep(600000);
    b.Clear();
  }
  left = 3;
  uint64_t next = 1;
  while (left > 0) {
    auto& b = s->ReadQueries(left);
    for (Query& q : b) {
      if (q.tag != next || q.tally != 10 * next) {
        printf("FAIL: query %d has tag %ld\\n", (int)next, (long)q.tag);
        return 1;
      }
      next++;
    }
    left -= b.Size();
    b.Clear();
  }
  return 0;
}
''', src='DPPIR/sockets/server_socket.cc DPPIR/sockets/common.cc DPPIR/types/types.cc')

seed('s05-noise-row-relative', 'C05',
     'a party with parallel servers and noise',
     'the noise of every parallel server falls on the first rows of the '
     'database; the rows of the other servers get none',
     [(PP + 'initialization.cc',
       'this->MakeNoiseQuery(key, &this->in_queries_[idx]);',
       'this->MakeNoiseQuery(key - this->noise_start_, &this->in_queries_[idx]);')],
     py=HEAD + '''
import threading
ROWS = 10
with Deploy(ROWS, 2, 0.1, 2, 2) as d:     # cutoff ln(10) = 2.3: 2 on each row
    rows = []
    ends = [listen(d.port(1, s)) for s in range(2)]

    def backend(s):
        c, _ = ends[s].accept()
        n, = struct.unpack('<I', read(c, 4))
        c.sendall(b'\\x01')
        data = read(c, n * QUERY)
        rows.extend(struct.unpack_from('<QI', data, i * QUERY)[1]
                    for i in range(n))
        c.sendall(bytes(RESPONSE * n))
    threads = [threading.Thread(target=backend, args=(s,), daemon=True)
               for s in range(2)]
    for t in threads:
        t.start()
    for s in range(2):
        d.party(0, s, 'online')
    clients = [connect(d.port(0, s)) for s in range(2)]
    for c in clients:
        c.sendall(count(0))
    for t in threads:
        t.join(60)
    seen = [rows.count(r) for r in range(ROWS)]
    if seen != [2] * ROWS or len(rows) != 2 * ROWS:
        fail(seen)
print('ok')
''')

seed('s06-no-upper-clamp', 'C06',
     'the sampled build variant (DPPIR_SAMPLE) and a large positive Laplace '
     'draw (probability delta / 2)',
     'noise is not limited to twice the cutoff any more',
     [('DPPIR/noise/noise.cc',
       'std::fmax(0, this->cutoff_ + std::fmin(this->cutoff_, u))',
       'std::fmax(0, this->cutoff_ + u)')],
     cc='''
#include <cstdio>
#include <iostream>
#include <utility>
#include "DPPIR/noise/noise.h"
int main() {
  DPPIR::noise::NoiseDistribution d(0.2, 0.1);  // cutoff 23.03
  unsigned lo = ~0u, hi = 0;
  for (int i = 0; i < 20000; i++) {
    unsigned s = d.Sample();
    if (s < lo) lo = s;
    if (s > hi) hi = s;
  }
  printf("%u..%u\\n", lo, hi);
  return lo == 0 && hi == 46 ? 0 : 1;
}
''', src='DPPIR/noise/noise.cc', flags='-DDPPIR_SAMPLE')

seed('s07-source-lookup', 'C07',
     'three or more servers, one of which sends nothing to another',
     'the lookup of the server a message came from skips servers wrongly when '
     'an empty one is in between',
     [('DPPIR/shuffle/parallel_shuffle.cc',
       '    if (this->prefixsum_from_count_[id] > idx) {',
       '    if (this->prefixsum_from_count_[id] > idx || this->from_count_[id] == 0) {')],
     cc='''
#include <cstdio>
#include "DPPIR/shuffle/parallel_shuffle.h"
using namespace DPPIR;
int main() {
  for (int seed = 0; seed < 40; seed++) {
    for (index_t a = 0; a < 4; a++) for (index_t b = 0; b < 4; b++)
    for (index_t c = 0; c < 4; c++) {
      index_t counts[3] = {a, b, c};
      for (server_id_t me = 0; me < 3; me++) {
        shuffle::ParallelShuffler s(me, 3, seed);
        s.Initialize(counts, 0);
        index_t idx = 0;
        for (server_id_t from = 0; from < 3; from++) {
          for (index_t k = 0; k < s.CountFromServer(from); k++, idx++) {
            if (s.FindSourceOf(idx) != from) {
              printf("FAIL: message %u of server %d comes from %d not %d\\n", idx,
                     me, from, s.FindSourceOf(idx));
              return 1;
            }
          }
        }
        if (idx != s.GetServerSliceSize()) return 1;
      }
    }
  }
  return 0;
}
''', src='DPPIR/shuffle/parallel_shuffle.cc DPPIR/shuffle/util.cc')

seed('s08-shuffle-never-stays', 'C08',
     'enough seeds to see that an order never occurs',
     'a message never keeps its position, so some orders are impossible',
     [('DPPIR/shuffle/util.h', 'random_bounded(i);',
       'random_bounded(i > 2 ? i - 1 : i);')],
     cc='''
#include <cstdio>
#include <map>
#include <vector>
#include "DPPIR/shuffle/local_shuffle.h"
using namespace DPPIR;
int main() {
  std::map<std::vector<index_t>, int> seen;
  for (int seed = 0; seed < 3000; seed++) {
    shuffle::LocalShuffler s(seed);
    s.Initialize(3);
    seen[{s.Shuffle(0), s.Shuffle(1), s.Shuffle(2)}]++;
  }
  printf("%zu of 6 orders occur\\n", seen.size());
  return seen.size() == 6 ? 0 : 1;
}
''', src='DPPIR/shuffle/local_shuffle.cc DPPIR/shuffle/util.cc')

seed('s09-zero-multiplier', 'C09',
     'a random draw of 0 (1 in 2^31)',
     'a share may have multiplicative part 0, which has no inverse: every '
     'query with it reconstructs to the wrong row',
     [('DPPIR/sharing/incremental.cc',
       'randombytes_uniform(INCREMENTAL_PRIME - 1) + 1',
       'randombytes_uniform(INCREMENTAL_PRIME)')],
     cc='''
#include <cstdio>
#include <cstring>
#include "DPPIR/sharing/incremental.h"
#include "sodium.h"
using namespace DPPIR;
static uint32_t next = 0;
static uint32_t Uniform(const uint32_t bound) { return next++ % 2 ? 0 : bound - 1; }
static uint32_t Random() { return 0; }
static void Buf(void* p, const size_t n) { memset(p, 0, n); }
static const char* Name() { return "demo"; }
int main() {
  static randombytes_implementation impl;
  impl.implementation_name = Name;
  impl.random = Random;
  impl.uniform = Uniform;
  impl.buf = Buf;
  randombytes_set_implementation(&impl);
  if (sodium_init() < 0) return 2;
  for (int start = 0; start < 2; start++) {
    for (size_t n = 1; n < 5; n++) {
      next = start;
      auto shares = sharing::PreIncrementalSecretShares(n);
      for (uint32_t q : {0u, 1u, 77u, 2147483646u}) {
        auto t = sharing::GenerateIncrementalTally(q, shares);
        for (auto& s : shares) t = sharing::IncrementalReconstruct(t, s);
        if (t != q) {
          printf("FAIL: query %u becomes %u\\n", q, t);
          return 1;
        }
      }
    }
  }
  return 0;
}
''', src='DPPIR/sharing/incremental.cc')

seed('s10-no-last-offset', 'C10',
     'comparing the tallies of several queries for row 0 on the link to the '
     'last party',
     'the last share has no additive part: the tally for row 0 is always 0 '
     'on the last link',
     [('DPPIR/sharing/incremental.cc',
       'uint32_t x = randombytes_uniform(INCREMENTAL_PRIME);',
       'uint32_t x = i + 1 < n ? randombytes_uniform(INCREMENTAL_PRIME) : 0;')],
     cc='''
#include <cstdio>
#include "DPPIR/sharing/incremental.h"
#include "sodium.h"
using namespace DPPIR;
int main() {
  if (sodium_init() < 0) return 2;
  for (size_t parties = 2; parties < 5; parties++) {
    for (size_t at = 0; at < parties; at++) {
      int zero = 0;
      for (int i = 0; i < 200; i++) {
        auto shares = sharing::PreIncrementalSecretShares(parties);
        auto t = sharing::GenerateIncrementalTally(0, shares);
        for (size_t p = 0; p < at; p++) {
          t = sharing::IncrementalReconstruct(t, shares[p]);
        }
        zero += t == 0;
      }
      if (zero > 3) {
        printf("FAIL: row 0 shows as tally 0 at party %zu of %zu\\n", at, parties);
        return 1;
      }
    }
  }
  return 0;
}
''', src='DPPIR/sharing/incremental.cc')

seed('s11-short-mask', 'C11',
     'looking at the last bytes of the masks',
     'the last four bytes of every mask but one are zero: the end of the '
     'signature travels in the clear',
     [('DPPIR/sharing/additive.cc',
       'randombytes_buf(share.data(), share.size());',
       'randombytes_buf(share.data(), share.size() - sizeof(value_t));')],
     cc='''
#include <cstdio>
#include "DPPIR/sharing/additive.h"
#include "sodium.h"
using namespace DPPIR;
int main() {
  if (sodium_init() < 0) return 2;
  for (size_t n = 2; n < 5; n++) {
    for (size_t k = 0; k < n; k++) {
      for (size_t byte = 0; byte < sizeof(preshare_t); byte++) {
        unsigned char all = 0;
        for (int i = 0; i < 40; i++) {
          all |= sharing::GenerateAdditiveSecretShares(n)[k][byte];
        }
        if (all == 0) {
          printf("FAIL: byte %zu of mask %zu of %zu is always 0\\n", byte, k, n);
          return 1;
        }
      }
    }
  }
  return 0;
}
''', src='DPPIR/sharing/additive.cc DPPIR/types/types.cc')

seed('s12-inner-unchecked', 'C12',
     'an altered or misdirected onion arriving at a party other than the last',
     'onions with more than one layer are used even if they do not decrypt',
     [('DPPIR/onion/onion.cc', '  assert(status == 0);',
       '  assert(status == 0 || party_count > 1);')],
     cc='''
#include <sys/wait.h>
#include <unistd.h>
#include <cstdio>
#include "DPPIR/onion/onion.h"
#include "sodium.h"
using namespace DPPIR;
int main() {
  if (sodium_init() < 0) return 2;
  for (party_id_t n = 1; n <= 3; n++) {
    std::vector<pkey_t> pk(n);
    std::vector<skey_t> sk(n);
    for (int i = 0; i < n; i++) onion::GenerateKeyPair(&pk[i], &sk[i]);
    std::vector<OfflineSecret> secrets(n);
    for (int i = 0; i < n; i++) secrets[i].tag = 7 + i;
    auto cipher = onion::OnionEncrypt(secrets.data(), 0, n, pk);
    for (size_t off : {size_t(0), size_t(40), onion::CipherSize(n) - 1}) {
      pid_t pid = fork();
      if (pid == 0) {
        freopen("/dev/null", "w", stderr);
        cipher[off] ^= 4;
        onion::OnionDecrypt(cipher.get(), n, pk[0], sk[0]);
        _exit(0);
      }
      int st;
      waitpid(pid, &st, 0);
      if (st == 0) {
        printf("FAIL: altered onion of %d layers accepted\\n", n);
        return 1;
      }
    }
  }
  return 0;
}
''', src='DPPIR/onion/onion.cc DPPIR/types/types.cc')

seed('s13-backend-streams', 'C13',
     'a batch that fills the output buffer of the backend while the end of '
     'the batch is late',
     'the backend answers queries as they come in instead of waiting for the '
     'whole batch',
     [(P + 'backend/backend_online.cc', '''      this->queries_.PushBack(query);
''', '''      this->queries_.PushBack(query);
      this->back_.SendResponse(this->HandleQuery(query));
'''), (P + 'backend/backend_online.cc', '''  for (Query& query : this->queries_) {
    Response response = this->HandleQuery(query);
    this->back_.SendResponse(response);
  }
''', '')],
     py=HEAD + '''
N = 6000
with Deploy(50, 0, 0, 2, 1) as d:
    d.party(1, 0, 'online')
    s = connect(d.port(1, 0))
    s.sendall(count(N))
    read(s, 1)
    s.sendall(b''.join(query(0, i % 50) for i in range(N - 1)))
    if not quiet(s, 2):
        fail('answers before the batch was complete')
    s.sendall(query(0, (N - 1) % 50))
    data = read(s, N * RESPONSE)
    for i in range(N):
        v, = struct.unpack_from('<I', data, i * RESPONSE)
        if v != 2 * (i % 50):
            fail('wrong answer')
print('ok')
''')

seed('s14-early-ready', 'C14',
     'a later party that is slower than this one at the end of the offline '
     'stage',
     'a party declares the offline stage finished before the later parties '
     'have everything',
     [(P + 'party/party_offline.cc', '''  // Wait until the next server has initialized.
  this->next_.WaitForReady();

  // Offline stage is done!''', '''  // Let previous party/client know that we are done.
  this->back_.SendReady();

  // Wait until the next server has initialized.
  this->next_.WaitForReady();

  // Offline stage is done!'''),
      (P + 'party/party_offline.cc', '''

  // Let previous party/client know that we are done.
  this->back_.SendReady();
}''', '''
}''')],
     py=HEAD + '''
with Deploy(5, 0, 0, 2, 1) as d:
    end = listen(d.port(1, 0))
    d.party(0, 0, 'all')
    client = connect(d.port(0, 0))
    back, _ = end.accept()
    client.sendall(count(0))
    if read(back, 4) != count(0):
        fail('count')
    if not quiet(client, 1):
        fail('ready before the next party was')
    back.sendall(b'\\x01')
    read(client, 1)
    if not quiet(client, 2):
        fail('finished before the next party was')
    back.sendall(b'\\x01')
    read(client, 1)
    if d.wait(20) != {'party-0-0': 0}:
        fail('party')
print('ok')
''')

seed('s15-noise-tags', 'C15',
     'more than 1000 real queries and noise',
     'the tags of noise secrets start at a constant and collide with those '
     'of the clients in large batches',
     [(P + 'party/party_handlers.cc', 'return this->input_count_ + id;',
       'return (this->party_id_ + 1) * 1000 + id;')],
     py=HEAD + '''
for q in (10, 1010):
    with Deploy(10, 2, 0.1, 2, 1) as d:
        d.everything('all', [q])
        rc = d.wait(60)
        if any(v != 0 for v in rc.values()):
            fail((q, rc))
print('ok')
''')

seed('s16-trailing-bytes', 'C16',
     'a configuration file followed by one to three extra bytes',
     'trailing bytes shorter than a number are ignored',
     [('DPPIR/config/config.cc', '  assert(n == 0);',
       '  assert(n < sizeof(int));')],
     py=HEAD + '''
for extra in (b'\\0', b'xyz', b'12345'):
    with Deploy(5, 0, 0, 2, 1) as d:
        open(d.config, 'ab').write(extra)
        d.client(0, 'online', 1)
        rc = d.wait(5)['client-0']
        if rc in (0, None):
            fail('damaged configuration accepted (%r)' % extra)
print('ok')
''')

seed('s17-port-clash', 'C17',
     'three parties with parallel servers on one machine',
     'the ports for sibling connections are the same for every second party',
     [('DPPIR/config/gen_config.cc',
       '''      server.parallel_port = 4000 + (i * config.server_count + j);
      // IP.
      if''', '''      server.parallel_port = 4000 + ((i & 1) * config.server_count + j);
      // IP.
      if''')],
     cc='''
#include <cstdio>
#include <cstdlib>
#include <set>
#include "DPPIR/config/config.h"
using namespace DPPIR;
int main() {
  const char* repo = getenv("REPO_DIR");
  for (int p = 2; p < 5; p++) {
    for (int s = 1; s < 4; s++) {
      char cmd[500];
      snprintf(cmd, sizeof(cmd), "%s/_build/out/DPPIR.config.gen_config c.bin 9 0.5 0.1 %d %d "
               ">/dev/null 2>&1 </dev/null", repo, p, s);
      if (system(cmd)) return 2;
      config::Config c = config::ReadFile("c.bin");
      std::set<int> ports;
      for (auto& party : c.parties) {
        for (auto& server : party.servers) {
          if (!ports.insert(server.port).second ||
              !ports.insert(server.parallel_port).second) {
            printf("FAIL: port used twice, %d parties %d servers\\n", p, s);
            return 1;
          }
        }
      }
    }
  }
  return 0;
}
''', src='DPPIR/config/config.cc')

seed('s18-missing-count', 'C18',
     'a client command line without --queries',
     'a client without a query count starts and asks for 2^32-1 queries',
     [('DPPIR/main.cc', 'if (role == "client" && queries < 0) {',
       'if (role == "client" && queries < -1) {')],
     py=HEAD + '''
for args in (['--server_id=0'], ['--server_id=0', '--queries=-5'],
             ['--server_id=1', '--queries=1'], ['--queries=1']):
    with Deploy(5, 0, 0, 2, 1) as d:
        d.run('client', '--role=client', '--stage=online', *args)
        rc = d.wait(5)['client']
        if rc in (0, None):
            fail('accepted %r' % args)
print('ok')
''')

seed('s19-read-eof', 'C19',
     'a client that stops while sending its query count',
     'a count of which only a part arrived before the connection was lost is '
     'used and announced to the next party',
     [('DPPIR/sockets/common.cc', '''    auto status = read(fd, buf + bytes, buf_size - bytes);
    MY_ASSERT(status);
''', '''    auto status = read(fd, buf + bytes, buf_size - bytes);
    MY_ASSERT(status);
    if (status == 0) {
      break;  // The other side is done.
    }
''')],
     py=HEAD + '''
with Deploy(5, 0, 0, 2, 1) as d:
    end = listen(d.port(1, 0))
    d.party(0, 0, 'online')
    client = connect(d.port(0, 0))
    back, _ = end.accept()
    client.sendall(count(3)[:2])
    client.close()
    if not quiet(back, 3):
        try:
            if back.recv(4):
                fail('a batch was announced from part of a count')
        except OSError:
            pass
print('ok')
''')

seed('s20-read-past-buffer', 'C20',
     'a partial message followed by more data than the buffer has room for',
     'a read after a partial message may write past the end of the buffer',
     [('DPPIR/types/containers.h',
       'return this->capacity_ * sizeof(T) - this->leftover_;',
       'return this->capacity_ * sizeof(T);')],
     cc='''
#include <sys/socket.h>
#include <unistd.h>
#include <cstdio>
#include <cstring>
#include <type_traits>
#include <functional>
#include "DPPIR/sockets/common.h"
#include "DPPIR/types/containers.h"
using namespace DPPIR;
struct Guarded {
  PhysicalBuffer<2 * sizeof(Response)> buf;
  char guard[4096];
};
int main() {
  int fd[2];
  if (socketpair(AF_UNIX, SOCK_STREAM, 0, fd)) return 2;
  static Guarded g;
  memset(g.guard, 'G', sizeof(g.guard));
  LogicalBuffer<Response> b(&g.buf);
  char data[2000];
  memset(data, 'x', sizeof(data));
  index_t left = 10, bytes = 0;
  size_t chunks[] = {30, 300, 190};
  for (int i = 0; left > 0; i++) {
    if (i < 3 && write(fd[1], data, chunks[i]) < 0) return 2;
    sockets::common::Read(fd[0], left, &b);
    for (Response& r : b) if (r.sig[0] != 'x') return 1;
    left -= b.Size();
    b.Clear();
  }
  for (char c : g.guard) {
    if (c != 'G') {
      printf("FAIL: wrote past the buffer\\n");
      return 1;
    }
  }
  return 0;
}
''', src='DPPIR/sockets/common.cc DPPIR/types/types.cc')

seed('s21-done-too-early', 'C21',
     'clients of an experiment reporting after all but one of its servers',
     'an experiment counts as done while a server has not reported yet',
     [('experiments/orchestrator/experiment.js',
       'if (this.serversNum == 0 || this.finishedServers == this.serversNum) {',
       'if (this.serversNum == 0 || this.finishedServers >= this.serversNum - 1) {')],
     js='''
const fs = require('fs'), path = require('path'), os = require('os');
// Works on a copy: experiments create folders beside their source.
const dir = fs.mkdtempSync(path.join(os.tmpdir(), 'orch-'));
process.on('exit', () => fs.rmSync(dir, { recursive: true, force: true }));
for (const f of ['experiment.js', 'constants.js']) {
  fs.copyFileSync(path.join(process.argv[2], 'experiments/orchestrator', f), path.join(dir, f));
}
const { Status, WorkerType } = require(path.join(dir, 'constants.js'));
const { DPPIRExperiment } = require(path.join(dir, 'experiment.js'));
console.log = () => {};
const permute = (a) => a.length < 2 ? [a] :
  a.flatMap((x, i) => permute(a.filter((_, j) => j != i)).map(r => [x, ...r]));
let bad = 0;
for (const order of permute([0, 1, 2, 3])) {
  const e = new DPPIRExperiment('x', 'all', 2, 2);
  e.setServerParams(2, 1, 0, 0);
  const workers = [0, 1, 2, 3].map(id => ({
    id, workerType: id < 2 ? WorkerType.CLIENT : WorkerType.SERVER,
    assignExperiment(x) { this.experiment = x; }, kill() {}
  }));
  for (const w of workers) e.assignWorker(w);
  order.forEach((w, i) => {
    e.finished(workers[w]);
    if ((e.status == Status.EXPERIMENT_DONE) != (i == 3)) bad++;
  });
}
if (bad) { process.stdout.write('FAIL: done at the wrong time\\n'); process.exitCode = 1; }
''')

seed('s22-float-range', 'C22',
     'a database of more than 2^24 rows',
     'the range size is computed in single precision, so that for large '
     'databases the last rows get no noise or ranges are not balanced',
     [('DPPIR/noise/noise.cc', 'std::ceil(1.0 * db_size / servers_count)',
       'std::ceil(1.0f * db_size / servers_count)')],
     cc='''
#include <cstdio>
#include <iostream>
#include "DPPIR/noise/noise.h"
int main() {
  using DPPIR::noise::FindRange;
  for (unsigned db : {10u, 1000u, 16777217u, 33554435u, 100000003u, 1000000007u}) {
    for (int n = 1; n < 9; n++) {
      unsigned at = 0, most = (db + n - 1) / n;
      for (int s = 0; s < n; s++) {
        auto r = FindRange(s, n, db);
        if (r.first != at || r.second < r.first || r.second - r.first > most) {
          printf("FAIL: %u rows %d servers: range %d is %u-%u\\n", db, n, s,
                 r.first, r.second);
          return 1;
        }
        at = r.second;
      }
      if (at != db) {
        printf("FAIL: %u rows %d servers: covered %u\\n", db, n, at);
        return 1;
      }
    }
  }
  return 0;
}
''', src='DPPIR/noise/noise.cc')

seed('s23-store-overwrite', 'C23',
     'a second secret for a tag that is stored already',
     'the backend silently replaces a secret instead of refusing it',
     [('DPPIR/types/state.cc', '''  auto [_, b] = this->secrets_.emplace(
      std::piecewise_construct, std::forward_as_tuple(secret.tag),
      std::forward_as_tuple(secret.share, secret.preshare));
''', '''  auto [it, b] = this->secrets_.emplace(
      std::piecewise_construct, std::forward_as_tuple(secret.tag),
      std::forward_as_tuple(secret.share, secret.preshare));
  if (!b) {
    it->second.incremental = secret.share;
    b = it->second.preshare != secret.preshare;
    it->second.preshare = secret.preshare;
  }
''')],
     cc='''
#include <sys/wait.h>
#include <unistd.h>
#include <cstdio>
#include "DPPIR/types/state.h"
using namespace DPPIR;
int main() {
  for (int v = 0; v < 2; v++) {
    pid_t pid = fork();
    if (pid == 0) {
      freopen("/dev/null", "w", stderr);
      BackendState s;
      s.Initialize(false);
      OfflineSecret a{};
      a.tag = 5; a.share = {1, 2};
      s.Store(a);
      a.preshare.fill(v);
      s.Store(a);
      _exit(0);
    }
    int st;
    waitpid(pid, &st, 0);
    if (st == 0) {
      printf("FAIL: second secret for a tag accepted\\n");
      return 1;
    }
  }
  return 0;
}
''', src='DPPIR/types/state.cc DPPIR/types/types.cc')

seed('s24-appended-log', 'C24',
     'a client daemon that gets two jobs for the same client one after the '
     'other',
     'the second upload contains the output of the first job as well',
     [('experiments/daemon_client.sh',
       '--server_id=$server_id --queries=$queries > $outfile 2>&1 &',
       '--server_id=$server_id --queries=$queries >> $outfile 2>&1 &')],
     py='''
import os, signal, stat, subprocess, sys, tempfile, time
repo = os.getcwd()
with tempfile.TemporaryDirectory() as d:
    b = os.path.join(d, 'bin')
    os.mkdir(b)
    os.mkdir(os.path.join(d, 'config'))
    os.mkdir(os.path.join(d, 'experiments'))
    def tool(name, text):
        p = os.path.join(b, name)
        with open(p, 'w') as f:
            f.write('#!/bin/bash\\n' + text)
        os.chmod(p, 0o755)
    tool('sleep', 'exec /bin/sleep 0.05\\n')
    tool('ps', 'exit 0\\n')
    tool('bazel', 'n=$(cat "$D/runs" 2>/dev/null || echo 0); n=$((n+1)); echo $n > "$D/runs"; echo "output of job $n"\\n')
    tool('curl', \'\'\'
for a in "$@"; do case "$a" in http*) url="$a";; @*) file="${a#@}";; esac; done
case "$url" in
  */giveip/*) echo 7;;
  */ping/*) n=$(cat "$D/pings" 2>/dev/null || echo 0); n=$((n+1)); echo $n > "$D/pings"
            if [ $n -le 2 ]; then echo "dppir 0 5 online"; else touch "$D/finished"; exec /bin/sleep 60; fi;;
  */config/*) echo config;;
  */shouldkill/*) echo 0;;
  */done/*) n=$(ls "$D" | grep -c upload); cp "$file" "$D/upload$n";;
esac
\'\'\')
    env = dict(os.environ, D=d, PATH=b + ':' + os.environ['PATH'])
    p = subprocess.Popen(['bash', os.path.join(repo, 'experiments/daemon_client.sh'), 'http://x'],
                         cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                         start_new_session=True)
    t = time.time()
    while time.time() < t + 60 and not os.path.exists(os.path.join(d, 'finished')):
        time.sleep(0.05)
    os.killpg(p.pid, signal.SIGKILL)
    p.wait()
    for i in range(2):
        s = open(os.path.join(d, 'upload%d' % i)).read()
        if s != 'output of job %d\\n' % (i + 1):
            print('upload', i, 'is', repr(s))
            sys.exit(1)
print('ok')
''')

seed('s25-lost-rest', 'C25',
     'a read that ends inside the second message',
     'a buffer forgets the beginning of the second message if exactly one '
     'complete message precedes it',
     [('DPPIR/types/containers.h', '''    if (this->end_ > 0) {
      T* incomplete_ptr''', '''    if (this->end_ > 1) {  // room for the rest in front
      T* incomplete_ptr''')],
     cc='''
#include <array>
#include <cstdio>
#include <cstring>
#include "DPPIR/types/containers.h"
#include "DPPIR/types/types.h"
using namespace DPPIR;
int main() {
  // Every way to cut three responses into two reads.
  Response m[3];
  for (int i = 0; i < 3; i++) {
    m[i].value = 100 + i;
    m[i].sig.fill(i + 1);
  }
  const char* bytes = reinterpret_cast<const char*>(m);
  for (size_t cut = 1; cut < sizeof(m); cut++) {
    static PhysicalBuffer<4096> space;
    space.fill(0);
    LogicalBuffer<Response> b(&space);
    int got = 0;
    for (int part = 0; part < 2; part++) {
      size_t from = part ? cut : 0, to = part ? sizeof(m) : cut;
      memcpy(b.ToBuffer(), bytes + from, to - from);
      b.Update(to - from);
      for (Response& r : b) {
        if (!(r == m[got++])) {
          printf("FAIL: cut at %zu, message %d\\n", cut, got - 1);
          return 1;
        }
      }
      b.Clear();
    }
    if (got != 3) return 1;
  }
  return 0;
}
''', src='DPPIR/types/types.cc')

seed('s26-seeding-shuffler', 'C26',
     'a build that samples noise; several runs of the same configuration',
     'constructing the shuffler already seeds the generator that noise is '
     'sampled with, so the noise is determined by the configuration',
     [('DPPIR/shuffle/local_shuffle.cc',
       '    : local_seed_(local_seed), forward_map_(nullptr), '
       'backward_map_(nullptr) {}',
       '    : local_seed_(local_seed), forward_map_(nullptr), '
       'backward_map_(nullptr) {\n  util::seed(this->local_seed_);\n}')],
     cc='''
#define DPPIR_SAMPLE
#include <cstdio>
#include <cstdlib>
#include <vector>
#include "DPPIR/noise/noise.h"
#include "DPPIR/shuffle/local_shuffle.h"
#include "DPPIR/shuffle/parallel_shuffle.h"
using namespace DPPIR;
static std::vector<int> Run(unsigned s) {
  // as in a party: the shufflers and the distribution are constructed, then
  // noise is sampled
  srand(s);
  shuffle::ParallelShuffler p(0, 2, 11);
  shuffle::LocalShuffler l(5);
  noise::NoiseDistribution d(0.1, 0.1);
  std::vector<int> v;
  for (int i = 0; i < 50; i++) v.push_back(d.Sample());
  return v;
}
int main() {
  if (Run(12345) == Run(54321)) {
    printf("FAIL: the noise does not depend on the randomness of the run\\n");
    return 1;
  }
  return 0;
}
''', src='DPPIR/noise/noise.cc DPPIR/shuffle/local_shuffle.cc DPPIR/shuffle/parallel_shuffle.cc DPPIR/shuffle/util.cc')

ORCH_CMD = '''
const fs = require('fs'), path = require('path'), os = require('os');
const { PassThrough } = require('stream');
const { spawnSync } = require('child_process');
const readline = require('readline');
// Works on a copy: experiments create folders beside their source.
const dir = fs.mkdtempSync(path.join(os.tmpdir(), 'orch-'));
process.on('exit', () => fs.rmSync(dir, { recursive: true, force: true }));
for (const f of ['experiment.js', 'constants.js', 'cmd.js']) {
  fs.copyFileSync(path.join(process.argv[2], 'experiments/orchestrator', f), path.join(dir, f));
}
fs.mkdirSync(path.join(dir, 'stored'));
const Cmd = require(path.join(dir, 'cmd.js'));
const input = new PassThrough();
const create = readline.createInterface;
readline.createInterface = (o) => create({ input, terminal: false });
console.log = console.clear = () => {};
const say = process.stdout.write.bind(process.stdout);
process.stdout.write = () => true;
function orchestrator() {
  return {
    serversCount: 4, clientsCount: 2, list: [],
    addExperiment(e) { this.list.push(e); },
    experimentsToJSON() { return this.list.map(e => e.toJSON()); },
  };
}
const tick = () => new Promise(r => setTimeout(r, 20));
async function lines(...ls) {
  for (const l of ls) { input.write(l + '\\n'); await tick(); }
}
'''

seed('s27-loaded-pirtype', 'C27',
     'an experiment that is not of the default kind, stored and loaded again',
     'a stored checklist experiment is loaded again with the default kind of '
     'PIR instead of its own',
     [('experiments/orchestrator/experiment.js', '''  this.queries = queries;
  this.pirtype = pirtype;
''', '''  this.queries = queries;
  this.pirtype = pirtype || 'Punc';
'''), ('experiments/orchestrator/experiment.js',
     'return new ChecklistExperiment(obj.name_, obj.tableSize, obj.queries, obj.pirtype);',
     'return new ChecklistExperiment(obj.name_, obj.tableSize, obj.queries, obj.type);')],
     js=ORCH_CMD + '''
(async () => {
  const o = orchestrator();
  const cmd = new Cmd(o);
  cmd.Listen();
  await lines('new checklist', 'c', '12,13', '4', 'DPF', 'new checklist', 'd', '9', '4,5', '', 'store x');
  const before = o.list.map(e => e.info().replace(/Experiment .*? /, ''));
  o.list = [];
  await lines('load x');
  const after = o.list.map(e => e.info().replace(/Experiment .*? /, ''));
  if (before.length != 4 || JSON.stringify(before) != JSON.stringify(after)) {
    say('FAIL: ' + JSON.stringify(after) + '\\n');
    process.exit(1);
  }
  process.exit(0);
})();
''')

seed('s28-declined-ends-load', 'C27',
     'declining one of the experiments offered by loadi, not the last',
     'declining an experiment leaves out all that follow it in the file',
     [('experiments/orchestrator/cmd.js', '''                continue;
''', '''                break;
''')],
     js=ORCH_CMD + '''
(async () => {
  const o = orchestrator();
  const cmd = new Cmd(o);
  cmd.Listen();
  await lines('new sealpir', 's', '5,6', '1,2', 'store x');
  const names = o.list.map(e => e.name_);
  for (let m = 0; m < 16; m++) {
    o.list = [];
    await lines('loadi x', ...names.map((_, i) => (m >> i & 1 ? 'Y' : 'n')));
    const want = names.filter((_, i) => m >> i & 1);
    const got = o.list.map(e => e.name_);
    if (names.length != 4 || JSON.stringify(want) != JSON.stringify(got)) {
      say('FAIL: loaded ' + got + ' and not ' + want + '\\n');
      process.exit(1);
    }
  }
  process.exit(0);
})();
''')

TIMES = HEAD + '''
import re
import os


def reported(d, party, server, label):
    text = open(os.path.join(d.dir, 'party-%d-%d.log' % (party, server))).read()
    return [int(t) for t in re.findall(label + r' time: ([0-9]+)ms', text)]
'''

seed('s29-slow-sibling-client', 'C28',
     'parallel servers, of which one gets its queries much later than another',
     'the online time of a server includes the waiting for the queries of its '
     'siblings',
     [(PP + 'online.cc', '''  // Wait until siblings collected their batches as well!
''', '''  // This batch has been received completely; start timing.
  auto start_time = std::chrono::steady_clock::now();

  // Wait until siblings collected their batches as well!
'''), (PP + 'online.cc', '''  // Batch has been received completely.
  // Start timing.
  auto start_time = std::chrono::steady_clock::now();

''', '')],
     py=TIMES + '''
with Deploy(6, 0, 0, 2, 2) as d:
    for p in range(2):
        for s in range(2):
            d.party(p, s, 'online')
    clients = [connect(d.port(0, s)) for s in range(2)]
    for c in clients:
        c.sendall(count(1))
    for c in clients:
        if read(c, 1) != b'\\x01':
            fail('ready')
    clients[0].sendall(struct.pack('<QI', 0, 3))
    time.sleep(4)
    clients[1].sendall(struct.pack('<QI', 1 << 32, 4))
    for c in clients:
        read(c, RESPONSE)
    for c in clients:
        c.close()
    d.wait(20)
    for s in range(2):
        t = reported(d, 0, s, 'Online')
        if len(t) != 1 or t[0] > 2500:
            fail('server %d: %s' % (s, t))
print('ok')
''')

seed('s30-first-part-lost', 'C28',
     'a party that is ready later than the one before it',
     'the offline time leaves out the time until the ciphers are collected',
     [(P + 'party/party_offline.cc',
       '  d += std::chrono::duration_cast<millis>(end_time - start_time).count();',
       '  d = std::chrono::duration_cast<millis>(end_time - start_time).count();')],
     py=TIMES + '''
with Deploy(5, 0, 0, 2, 1) as d:
    end = listen(d.port(1, 0))
    d.party(0, 0, 'offline')
    client = connect(d.port(0, 0))
    back, _ = end.accept()
    client.sendall(count(0))
    if read(back, 4) != count(0):
        fail('count')
    time.sleep(4)
    back.sendall(b'\\x01')
    read(client, 1)
    back.sendall(b'\\x01')
    read(client, 1)
    if d.wait(20) != {'party-0-0': 0}:
        fail('party')
    t = reported(d, 0, 0, 'Offline')
    if len(t) != 1 or t[0] < 3500:
        fail(t)
print('ok')
''')

seed('s31-tag-field-overlap', 'C15',
     'a party of more than 128 servers, or rather two parties and servers far apart',
     'the tags of a later party run into those of servers with high numbers',
     [(PP + 'handlers.cc', '(party << 48) +', '(party << 39) +')],
     cc='''
#include <sstream>
#include <iostream>
#include <fstream>
#include <functional>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#include <cstdio>
#include <set>
#define private public
#include "DPPIR/protocol/client/client.h"
#include "DPPIR/protocol/parallel_party/parallel_party.h"
#undef private
using namespace DPPIR;
// Participants that have only their numbers: all that a tag may depend on when there are parallel servers.
alignas(64) static char room[sizeof(protocol::ParallelParty) + sizeof(protocol::Client)];
int main() {
  std::set<tag_t> tags;
  for (int s = 0; s < 255; s++)
    for (index_t id : {0u, 1u, 4000000000u}) {
      auto* c = reinterpret_cast<protocol::Client*>(room);
      c->server_id_ = s;
      c->party_count_ = 4;
      if (!tags.insert(c->SampleTag(id)).second) return printf("FAIL: client %d %u\\n", s, id), 1;
      auto* q = reinterpret_cast<protocol::ParallelParty*>(room);
      for (int p = 0; p < 3; p++) {
        q->party_id_ = p;
        q->server_id_ = s;
        q->party_count_ = 4;
        q->server_count_ = 255;
        if (!tags.insert(q->SampleTag(id)).second) return printf("FAIL: party %d server %d %u\\n", p, s, id), 1;
      }
    }
  return 0;
}
''', src=' '.join('DPPIR/' + f for f in '''config/config.cc noise/noise.cc onion/onion.cc sharing/additive.cc sharing/incremental.cc
 shuffle/local_shuffle.cc shuffle/parallel_shuffle.cc shuffle/util.cc sockets/client_socket.cc sockets/common.cc sockets/parallel_socket.cc
 sockets/server_socket.cc types/*.cc protocol/client/*.cc protocol/parallel_party/*.cc'''.split()))

seed('s32-masks-from-the-end', 'C23',
     'a store that stops sending before all of its secrets were used',
     'reading answers does not start with the first mask',
     [('DPPIR/types/state.cc', 'void ClientState::FinishSharing() {\n  this->read_idx_ = 0;', 'void ClientState::FinishSharing() {\n  this->read_idx_ -= this->write_idx_;')],
     cc='''
#include <cstdio>
#include "DPPIR/types/state.h"
using namespace DPPIR;
int main() {
  for (int used = 0; used <= 3; used++) {
    ClientState s;
    s.Initialize(2, 3, false, false);
    for (int i = 0; i < 3; i++) {
      preshare_t m;
      m.fill(i + 1);
      s.AddSecret(i, {{1, 2}, {3, 4}}, m);
    }
    for (int i = 0; i < used; i++) s.LoadNext();
    s.FinishSharing();
    for (int i = 0; i < used; i++) {
      s.LoadNext();
      if (s.GetPreshare()[0] != i + 1) return printf("FAIL: answer %d of %d\\n", i, used), 1;
    }
  }
  return 0;
}
''', src='DPPIR/types/state.cc DPPIR/types/types.cc')

PLOT = '''
import contextlib, io, json, os, runpy, shutil, sys, tempfile, types
from unittest import mock
script = os.path.join(os.getcwd(), 'experiments', 'plots', 'plot.py')
lines, tables = [], []
plt = mock.MagicMock()
ax = mock.MagicMock()
ax.plot.side_effect = lambda x, y, *a, **k: lines.append((k.get('label'), list(x), list(y))) or [mock.MagicMock()]
plt.subplots.return_value = (mock.MagicMock(), ax)
lib = mock.MagicMock(pyplot=plt)
num = types.ModuleType('numpy')
num.array = num.asarray = list
tab = types.ModuleType('tabulate')
tab.tabulate = lambda rows, *a, **k: tables.append([list(r) for r in rows]) or ''
sys.modules.update({'matplotlib': lib, 'matplotlib.pyplot': plt, 'numpy': num, 'tabulate': tab})

def plot(description, runs):
    """runs: directory -> (offline, online) in ms"""
    root = tempfile.mkdtemp(prefix='plot-demo-')
    try:
        os.makedirs(root + '/plots/descriptions')
        name = description['experiment-name']
        json.dump(description, open(root + '/plots/descriptions/%s.json' % name, 'w'))
        for d, (off, on) in runs.items():
            os.makedirs(root + '/orchestrator/outputs/' + d)
            open(root + '/orchestrator/outputs/' + d + '/party-0-0.log', 'w').write('Offline time: %dms\\nOnline time: %dms\\n' % (off, on))
        os.chdir(root + '/plots')
        sys.argv = [script, 'ui', name]
        with contextlib.redirect_stdout(io.StringIO()):
            runpy.run_path(script, run_name='__main__')
    finally:
        os.chdir('/')
        shutil.rmtree(root)
'''

seed('s33-line-through-first', 'C29',
     'an extrapolated point of a DP-PIR series with three or more measured points',
     'the extrapolation over queries starts from the smallest measured point',
     [('experiments/plots/plot.py', "        x1, y1 = pairs[-2]\n        x2, y2 = pairs[-1]\n        # 2 equations", "        x1, y1 = pairs[0]\n        x2, y2 = pairs[-1]\n        # 2 equations")],
     py=PLOT + '''
plot({'experiment-name': 'f', 'type': 'simple-plot', 'axis': {'x': 'queries', 'y': [['DP-PIR', 'Online']]}, 'tableSize': 100, 'queries': 'x',
      'x': [10, 100, 1000, 10000], 'interpolate': {'DP-PIR-Online': [10000]}, 'labels': {'x': '', 'y': '', 'graphs': 0, 'title': ''},
      'ranges': {'x': [1, 2], 'y': [1, 2]}, 'yscale': 'log', 'legend': 'upper left', 'margins': [0.1, 0.9, 0.1, 0.9], 'figsize': [7.0, 3.2]},
     {'f-100-2-1-%d-0.1-0.000001' % q: (5, t) for q, t in ((10, 900), (100, 1000), (1000, 19000))})
got = dict(zip(lines[0][1], lines[0][2]))
print(got)
sys.exit(0 if abs(got[10000] - 199.0) < 1e-6 and got[10] == 0.9 and got[1000] == 19.0 else 1)
''')

seed('s34-table-of-namesake', 'C29',
     'a table, and stored results of another experiment whose name starts with that of the table and that are listed later',
     'the other experiment\'s times are shown in the table',
     [('experiments/plots/plot.py', "    if not dirname.startswith('{}-'.format(self.experiment_name)):\n      return False\n    # tables", "    if not dirname.startswith(self.experiment_name):\n      return False\n    # tables")],
     py=PLOT + '''
real = os.listdir
for order in (False, True):
    os.listdir = lambda *a: sorted(real(*a), reverse=order)
    del tables[:]
    plot({'experiment-name': 't2', 'type': 'table', 'table': {'rows-attr': 'parallelism', 'rows': [1, 2], 'cols-attr': 'mode', 'cols': ['Offline', 'Online']},
          'tableSize': 100, 'queries': 10, 'labels': {'title': '', 'headers': ['a', 'b']}},
         {'t2-100-2-1-10-0.1-0.000001': (5000, 1000), 't2-100-2-2-10-0.1-0.000001': (4000, 2000), 't20-100-2-1-10-0.1-0.000001': (77000, 99000)})
    print(tables)
    if tables != [[[1, 5.0, 1.0], [2, 4.0, 2.0]]]:
        sys.exit(1)
''')
