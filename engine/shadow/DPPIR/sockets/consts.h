// Shadows the repository's header: same content, with the buffering constants
// scaled down so that small runs cross every buffer boundary.
#include_next "DPPIR/sockets/consts.h"
#ifdef VMC_BUFFER_SIZE
#undef BUFFER_SIZE
#define BUFFER_SIZE VMC_BUFFER_SIZE
#endif
#ifdef VMC_POLL_RATE
#undef POLL_RATE
#define POLL_RATE VMC_POLL_RATE
#endif
#ifdef VMC_PROGRESS_RATE
#undef PROGRESS_RATE
#define PROGRESS_RATE VMC_PROGRESS_RATE
#endif

#if defined(__SANITIZE_ADDRESS__) && !defined(VMC_BOUNDED_ARRAY_)
#define VMC_BOUNDED_ARRAY_
// The transport's buffers are members of larger objects, where an overrun stays inside the object and the
// sanitizer sees nothing. Here each of them gets a heap block of its own, with exact bounds; size and interface
// of the type are unchanged.
#include <array>
#include <cstddef>
#include <cstdlib>
#include <cstring>
namespace std {
template <>
struct array<char, BUFFER_SIZE> {
  typedef char value_type;
  typedef char* iterator;
  typedef const char* const_iterator;
  typedef char& reference;
  typedef const char& const_reference;
  typedef size_t size_type;
  char room_[BUFFER_SIZE];
  array() { alloc(); }
  array(const array& o) {
    alloc();
    memcpy(data(), o.data(), BUFFER_SIZE);
  }
  array& operator=(const array& o) {
    if (this != &o) memcpy(data(), o.data(), BUFFER_SIZE);
    return *this;
  }
  ~array() { ::free(data()); }
  char* data() {
    char* p;
    memcpy(&p, room_, sizeof p);
    return p;
  }
  const char* data() const { return const_cast<array*>(this)->data(); }
  iterator begin() { return data(); }
  iterator end() { return data() + BUFFER_SIZE; }
  const_iterator begin() const { return data(); }
  const_iterator end() const { return data() + BUFFER_SIZE; }
  const_iterator cbegin() const { return data(); }
  const_iterator cend() const { return data() + BUFFER_SIZE; }
  reference operator[](size_t i) { return data()[i]; }
  const_reference operator[](size_t i) const { return data()[i]; }
  reference at(size_t i) { return data()[i]; }
  const_reference at(size_t i) const { return data()[i]; }
  reference front() { return data()[0]; }
  reference back() { return data()[BUFFER_SIZE - 1]; }
  constexpr size_t size() const { return BUFFER_SIZE; }
  constexpr size_t max_size() const { return BUFFER_SIZE; }
  constexpr bool empty() const { return false; }
  void fill(const char& c) { memset(data(), c, BUFFER_SIZE); }
  void swap(array& o) {
    char t[sizeof(char*)];
    memcpy(t, room_, sizeof t);
    memcpy(room_, o.room_, sizeof t);
    memcpy(o.room_, t, sizeof t);
  }

 private:
  void alloc() {
    char* p = (char*)::malloc(BUFFER_SIZE);
    memcpy(room_, &p, sizeof p);
  }
};
}  // namespace std
#endif
