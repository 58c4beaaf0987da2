// Scenarios: a deployment, its input, and the environment policy.
#ifndef VMC_SCEN_H_
#define VMC_SCEN_H_
#include <stdint.h>

#include <map>
#include <string>
#include <vector>

#include "world.h"

namespace vmc {

struct Scen {
  std::string line, name;
  int P = 2, S = 1;
  uint32_t db = 2;
  double eps = 0, delta = 0;
  std::vector<uint32_t> q;             // queries per client
  std::string stage = "all";           // all | online | offline
  std::vector<std::vector<uint32_t>> keys;
  bool distinctIps = false;
  bool real = false;                   // real sealed boxes
  uint64_t seed = 1;
  std::vector<int> sharedSeeds, localSeeds;
  int lev = 1;                         // deviation bound; -1: no bound (full state space)
  uint64_t maxRuns = 1u << 30;
  int part = 0, parts = 1;
  Settings set;
  std::vector<int> randTape;           // for every party's unseeded rand()
  std::vector<uint32_t> uniTape;       // client 0's uniform() values other than keys
  std::vector<std::vector<uint8_t>> bufTape;
  uint32_t oracle = ~0u;
  bool sample = false;                 // DPPIR_SAMPLE build: noise is random, bounded
  std::string prog;                    // arguments for the alternative entry point
  bool fill = false;                   // repeat with different initial memory contents and compare
  std::string obs;                     // observation to record (see Observe)
  Tapes tapes;                         // random draws to enumerate
  bool expectCrash = false;            // a node is killed: only safety is judged
};

enum {
  F_COMPLETE = 1,    // every process terminates successfully
  F_DEADLOCK = 2,    // nobody waits forever
  F_FRAMING = 4,     // streams contain exactly the announced messages
  F_RESIDUAL = 8,    // nothing is left unread
  F_WRONG = 16,      // every response is the right row, masked for the right hop
  F_NOISE = 32,      // every party adds the specified noise on every row
  F_CONSERVE = 64,   // nothing is lost, duplicated or invented
  F_TAG = 128,       // tags are unique and used once
  F_BARRIER = 256,   // batch barriers
  F_PHASE = 512,     // offline before online, initialisation before data
  F_CRASH = 1024,    // the checker process itself died (memory error)
  F_HANG = 2048,     // a process loops without doing anything
  F_SLICE = 4096,    // load is balanced between sibling servers
  F_CHOP = 8192,     // (driver) payload differs
  F_CHANCE = 16384,  // behaviour depends on memory that was never written
  F_MASK = 32768,    // responses are hidden, altered onions are refused
  F_TIME = 65536,    // stages are reported once, with their time
};
const char* CatName(uint32_t c);

Scen ParseScen(const std::string& line);
struct Finding {
  uint32_t cat;
  std::string msg;
};
// Runs one execution of a scenario and judges it.
void RunScen(const Scen& s, const std::vector<Dev>& devs, std::vector<Finding>* out);
extern uint64_t gJudged;
// Component -> value, of the last execution of a scenario with an observation.
extern std::map<std::string, std::string> gObs;

}  // namespace vmc
#endif
