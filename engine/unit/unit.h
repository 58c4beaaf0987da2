// Harness support for exhaustive exploration of single components: every call
// of a random source is a choice point of a depth-first enumeration, and a
// failed assertion, exception or signal ends the explored execution only.
#ifndef VMC_UNIT_H_
#define VMC_UNIT_H_
#include <stdint.h>
#include <stdio.h>
#include <string.h>

#include <functional>
#include <map>
#include <string>
#include <vector>

namespace unit {

// ---- depth-first enumeration of choices
struct Dfs {
  std::vector<std::pair<uint32_t, uint32_t>> path;  // (choice, alternatives)
  size_t pos = 0;
  double weight = 1;  // probability of the current path
  void Start() { pos = 0, weight = 1; }
  uint32_t Choose(uint32_t n);
  bool Next();  // moves to the next path; false when all were explored
};
extern Dfs dfs;

// ---- random sources
enum Mode { REAL, ENUM, SCRIPT };
extern Mode randMode;          // rand(): libc, enumerated, or from randScript
extern uint32_t randStrata;    // ENUM: rand() takes this many equidistributed values
extern std::vector<int> randValues;  // ENUM: if not empty, rand() takes exactly these values
extern std::function<int(const std::string& stream, uint64_t pos)> randScript;
void Stream(const std::string& name);  // current stream of rand() (srand(s) switches to "s<s>")
void ForgetStreams();                  // a new execution begins: all streams are unknown again
extern uint64_t randDraws;
int Stratum(uint32_t i, uint32_t m);

extern Mode uniMode;           // randombytes_uniform
extern std::function<uint32_t(uint32_t bound)> uniScript;
extern std::vector<uint32_t> uniBounds;
extern Mode bufMode;           // randombytes_buf, randombytes_random
extern std::function<void(unsigned char*, size_t)> bufScript;
extern uint64_t otherDraws;    // draws from a source the harness did not script

// ---- guarded execution: "" if it ended normally, else what happened
std::string Guard(const std::function<void()>& f);

// ---- reporting
extern std::string only;       // replay just this case
extern int part, parts;
bool Mine(const std::string& name);   // is this case for this process?
void Bad(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // violation in the current case
void Count(const char* what, uint64_t n = 1);
void Sample(const std::string& s);
extern bool thorough;
int Main(int argc, char** argv, const std::function<void()>& body);
extern std::string gCase;
bool CaseBad();                       // has the current case been found violated already?

}  // namespace unit
#endif
