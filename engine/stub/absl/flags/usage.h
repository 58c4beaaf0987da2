#ifndef VMC_STUB_ABSL_USAGE_H_
#define VMC_STUB_ABSL_USAGE_H_
namespace absl {
template <typename T>
inline void SetProgramUsageMessage(const T&) {}
}  // namespace absl
#endif
