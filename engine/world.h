// The virtual world: nodes (fibers running copies of the program under test),
// a reliable byte-stream network between them, and every source of
// nondeterminism turned into an explicit, replayable decision.
#ifndef VMC_WORLD_H_
#define VMC_WORLD_H_
#include <stdint.h>
#include <stdlib.h>

#include <deque>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "ops.h"

namespace vmc {

constexpr int kMaxNodes = 1024;

struct Dev {
  uint32_t pos;
  uint32_t alt;
};

enum NodeStatus { NS_RUNNABLE, NS_PARKED, NS_EXITED, NS_CRASHED, NS_KILLED };
enum OpKind { OP_START, OP_ACCEPT, OP_CONNECT, OP_READ, OP_POLL, OP_SLEEP, OP_SENDFULL, OP_STUCK };
enum SchedPolicy { SP_FIFO, SP_LOW, SP_HIGH, SP_LIFO, SP_SLOW, SP_FAST };

typedef std::vector<uint32_t> VC;

struct Seg {        // one successful send
  size_t end;       // stream offset after it
  VC vc;            // sender's clock (including this event)
  uint64_t time;
};
struct RdEv {       // one successful read
  size_t end;       // stream offset after it
  uint32_t clock;   // reader's own component at the event
  uint64_t time;
};
struct Chan {
  int src = -1, dst = -1;
  std::vector<uint8_t> data;  // everything ever sent
  size_t consumed = 0, seen = 0;
  bool wclosed = false, rclosed = false;
  bool full = false;  // the last send was cut short: one that must not wait fails next
  std::vector<Seg> segs;
  std::vector<RdEv> reads;
  size_t seg_read = 0;  // first segment not fully consumed
};
struct Conn {
  int a, b;  // a connected to b's listener
  int port;
  Chan ab, ba;
};
struct Fd {
  enum T { FREE, NEW, LISTEN, SOCK } type = FREE;
  int port = 0;
  int conn = -1;
  bool isA = false;
  bool timed = false;  // reads and accepts give up after a while
};
struct Listener {
  int node, fd, port, backlog;
  std::deque<int> pending;  // conn ids
};

struct Settings {          // environment of one execution
  size_t cap = 0;          // per-direction socket capacity in bytes (0: unbounded)
  int sched = SP_FIFO;     // base scheduling policy
  int schedArg = 0;
  int seg = 0;             // base read policy: 0 as much as possible, k>0 at most k bytes
  int snd = 0;             // base send policy: 0 everything, k>0 at most k bytes
  int hide = 0;            // base poll policy: 0 report all, 1 hide whatever may still be in flight,
                           // 2 report one (lowest) at a time, 3 report one (highest) at a time
  bool devSched = true, devRead = true, devSend = false, devPoll = true;
  bool allLens = false;
  int crashNode = -1;      // crash this node ...
  uint64_t crashOp = 0;    // ... just before its crashOp-th operation
  bool crashDrop = false;  // in-flight data from the crashed node is lost
  int lateNode = -1;       // this node stands still ...
  uint64_t lateOp = 0;     // ... after this many operations (0: has not been started) ...
  int lateFor = 0;         // ... until time has passed this many times
  uint64_t horizon = 4000000;
  uint32_t eofLimit = 2000;  // a node that sees this many ends of stream is stuck
  int flipNode = -1;       // alter the data on the connection into this node ...
  size_t flipAt = 0;       // ... at this position of the stream
  uint8_t flipBits = 0;
  uint64_t tick = 1000;    // timed worlds: milliseconds that each step takes
};

// Enumeration of random draws: every tape of the chosen generators is executed.
struct Tapes {
  bool on = false;
  bool uni = false;                   // randombytes_uniform() of client 0, except for the keys
  std::map<std::string, int> strata;  // rand(): stream (seed, or "u": not seeded, or with a seed that is not configured) -> number of strata per draw
  std::vector<std::pair<uint32_t, uint32_t>> path;
  size_t pos = 0;
  double weight = 1;
  std::map<std::string, std::vector<int>> known;
  uint32_t Choose(uint32_t n);
  void Start() { pos = 0, weight = 1, known.clear(); }
  bool Next();
};

struct Node {
  int id;
  NodeStatus st;
  OpKind op;
  int opFd;
  struct pollfd* opPoll;
  size_t opN;
  int opTimeout;
  int exitCode;
  std::string why;
  uint64_t parkSeq;
  uint64_t sleepProg, lastSleepProg;
  bool expired;  // its read or accept took too long
  bool touched;  // something happened to its descriptors since `ready` was computed
  bool ready;
  bool sleptBefore;
  uint64_t hist;
  uint64_t nops;
  uint32_t eofReads;
  VC vc;
  std::vector<Fd> fds;
  // randomness
  uint64_t rng;
  struct random_data rdata;
  char rstate[128];
  std::vector<int> randTape;
  size_t randPos;
  bool seeded;
  unsigned seedValue;
  size_t streamPos;
  std::vector<std::pair<uint32_t, uint32_t>> uniforms;  // (bound, value)
  std::vector<uint32_t> keyTape;                        // values for uniform(keyBound)
  uint32_t keyBound;
  size_t keyPos;
  std::vector<uint32_t> uniTape;  // enumerated values for every other uniform()
  size_t uniPos;
  std::vector<std::vector<uint8_t>> bufTape;
  size_t bufPos;
  uint64_t bufCalls;
  std::string out;   // what it printed (timed worlds only)
  std::vector<uint64_t> crypto;  // when it made or opened sealed boxes (timed worlds only)
};

struct RunResult {
  bool pruned = false;
  bool diverged = false;
  bool deadlock = false;
  bool horizon = false;
  std::string note;
  uint32_t decisions = 0;
  std::vector<uint16_t> alts;  // alternatives per decision, from `altBase` on
  uint32_t altBase = 0;
  uint64_t ops = 0;
};

constexpr int kClockNodes = 64;  // larger worlds do not record causality

struct World {
  std::vector<Node> nodes;
  std::deque<Conn> conns;
  std::deque<Listener> listeners;
  Settings set;
  Tapes tapes;
  std::set<int> seeds;  // of the configuration
  std::vector<Dev> devs;
  RunResult res;
  uint64_t progress = 0;
  uint64_t seq = 0;
  bool timed = false;  // clocks tell virtual time: one tick for every transfer and every sealed box made or opened
  uint64_t time = 0;
  uint64_t clockCalls = 0;
  std::string traceText;
  bool tracing = false;
  bool fillStacks = false;  // give stacks a known content before each execution
  bool full = false;  // exhaustive search without a deviation bound

  // Called at each decision after the last deviation with the global state hash; true = prune.
  bool (*visit)(uint64_t) = nullptr;
};

extern World W;

// Loading of node copies.
void LoadNodes(const char* so, const char* workdir, int count, bool fakeCrypto);
const VmcNodeApi* Api();
// Deterministic randomness of the running node (for libsodium itself).
void NodeRandom(void* p, size_t n);
void SetFakeCrypto(bool on);
void RegisterKey(const unsigned char* pk, const unsigned char* sk);
// Opens a sealed box with whatever scheme is in force.
int HostOpen(unsigned char* m, const unsigned char* c, size_t n, const unsigned char* pk, const unsigned char* sk);

// Runs one execution; args[i] is node i's command line (ips[i] its address).
void Reset(int n, const std::vector<uint32_t>& ips, uint64_t seed);
void Run(const std::vector<std::vector<std::string>>& args, bool useProg);

}  // namespace vmc
#endif
