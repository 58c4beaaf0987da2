#ifndef VMC_STUB_ABSL_PARSE_H_
#define VMC_STUB_ABSL_PARSE_H_
#include "absl/flags/flag.h"
namespace absl {
inline std::vector<char*> ParseCommandLine(int argc, char** argv) {
  std::vector<char*> rest;
  rest.push_back(argv[0]);
  for (int i = 1; i < argc; i++) {
    const char* a = argv[i];
    if (a[0] != '-') { rest.push_back(argv[i]); continue; }
    a += (a[1] == '-') ? 2 : 1;
    const char* eq = strchr(a, '=');
    std::string name = eq ? std::string(a, eq - a) : std::string(a);
    bool done = false;
    for (vmcstub::FlagBase* f = vmcstub::FlagBase::head(); f; f = f->next) {
      if (name == f->name) {
        const char* v = eq ? eq + 1 : (f->is_bool() ? "true" : (i + 1 < argc ? argv[++i] : ""));
        if (!f->set(v)) exit(1);
        done = true;
        break;
      }
    }
    if (!done) exit(1);
  }
  return rest;
}
}  // namespace absl
#endif
