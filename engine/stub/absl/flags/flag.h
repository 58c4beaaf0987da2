// Minimal stand-in for absl flags, used only by the virtual deployment: each
// virtual node needs flag storage that can be rewound between executions.
// (The command-line property is checked against the real abseil library.)
#ifndef VMC_STUB_ABSL_FLAG_H_
#define VMC_STUB_ABSL_FLAG_H_
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <string>
#include <type_traits>
#include <vector>

namespace vmcstub {
struct FlagBase {
  const char* name;
  FlagBase* next;
  static FlagBase*& head() {
    static FlagBase* h = nullptr;
    return h;
  }
  explicit FlagBase(const char* n) : name(n), next(head()) { head() = this; }
  virtual bool set(const char* v) = 0;
  virtual bool is_bool() const { return false; }
};
template <typename T>
struct Flag : FlagBase {
  // Strings are kept in a fixed buffer so that rewinding .data/.bss rewinds it.
  T (*def)();
  char text[256];
  bool given;
  Flag(const char* n, T (*d)()) : FlagBase(n), def(d), given(false) { text[0] = 0; }
  bool set(const char* v) override {
    if (strlen(v) >= sizeof(text)) return false;
    if constexpr (std::is_same<T, bool>::value) {
      if (strcmp(v, "true") && strcmp(v, "false") && strcmp(v, "1") && strcmp(v, "0")) return false;
    } else if constexpr (std::is_floating_point<T>::value) {
      char* e; strtod(v, &e); if (*e || !*v) return false;
    } else if constexpr (std::is_integral<T>::value) {
      char* e; strtoll(v, &e, 0); if (*e || !*v) return false;
    }
    strcpy(text, v);
    given = true;
    return true;
  }
  bool is_bool() const override { return std::is_same<T, bool>::value; }
  T get() const {
    if (!given) return def();
    if constexpr (std::is_same<T, bool>::value) {
      return !strcmp(text, "true") || !strcmp(text, "1");
    } else if constexpr (std::is_floating_point<T>::value) {
      return static_cast<T>(strtod(text, nullptr));
    } else if constexpr (std::is_integral<T>::value) {
      return static_cast<T>(strtoll(text, nullptr, 0));
    } else {
      return T(text);
    }
  }
};
}  // namespace vmcstub

#define ABSL_FLAG(T, n, d, help) \
  vmcstub::Flag<T> FLAGS_##n(#n, +[]() -> T { return T(d); })
#define ABSL_DECLARE_FLAG(T, n) extern vmcstub::Flag<T> FLAGS_##n

namespace absl {
template <typename T>
using Flag = vmcstub::Flag<T>;
template <typename T>
T GetFlag(const vmcstub::Flag<T>& f) {
  return f.get();
}
}  // namespace absl
#endif
