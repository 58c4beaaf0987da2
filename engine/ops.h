// Interface between a virtual node (a copy of the program under test, loaded
// as a shared object) and the host that plays operating system and network.
#ifndef VMC_OPS_H_
#define VMC_OPS_H_
#include <poll.h>
#include <stddef.h>
#include <stdint.h>
#include <sys/types.h>

struct VmcOps {
  int (*is_fd)(int fd);
  int (*socket_)();
  int (*bind_)(int fd, uint32_t ip, int port);
  int (*listen_)(int fd, int backlog);
  void (*timed_)(int fd, int on);
  int (*accept_)(int fd);
  int (*connect_)(int fd, uint32_t ip, int port);
  ssize_t (*read_)(int fd, void* buf, size_t n, int flags);
  ssize_t (*write_)(int fd, const void* buf, size_t n, int flags);
  int (*poll_)(struct pollfd* fds, size_t n, int timeout);
  int (*close_)(int fd);
  int (*shutdown_)(int fd, int how);
  void (*sleep_)(double seconds);
  int (*rand_)();
  void (*srand_)(unsigned s);
  uint32_t (*uniform_)(uint32_t bound);
  uint32_t (*random32_)();
  void (*rbuf_)(void* p, size_t n);
  int (*seal_)(unsigned char* c, const unsigned char* m, unsigned long long n, const unsigned char* pk);
  int (*open_)(unsigned char* m, const unsigned char* c, unsigned long long n, const unsigned char* pk,
               const unsigned char* sk);
  void (*assert_fail_)(const char* expr, const char* file, unsigned line, const char* func);
  void (*exit_)(int code);   // does not return
  void (*abort_)();          // does not return
};

// Description of a deployment, turned into a configuration file by the code
// under test itself.
struct VmcDeploy {
  uint32_t db_size;
  double epsilon, delta;
  int parties, servers;
  const int* shared_seeds;           // [parties]
  const int* local_seeds;            // [parties*servers]
  const int* ports;                  // [parties*servers]
  const int* pports;                 // [parties*servers]
  const char* const* ips;            // [parties*servers]
  const unsigned char* pkeys;        // [parties*32]
  const unsigned char* skeys;        // [parties*32]
};

// Helpers exported by a virtual node, all backed by the repository's own code.
struct VmcNodeApi {
  int (*main_)(int argc, char** argv);
  void (*write_config_)(const VmcDeploy* d, const char* path);
  size_t (*cipher_size_)(int layers);
  size_t query_size, response_size, secret_size, index_size;
  uint32_t prime;
  size_t buffer_size;
  void (*decode_query_)(const void* p, uint64_t* tag, uint32_t* tally);
  void (*decode_secret_)(const void* p, uint64_t* tag, uint64_t* next_tag, uint32_t* x, uint32_t* y, void* preshare);
  size_t preshare_size;
  int (*prog_)(int argc, char** argv);  // alternative entry point (transport driver); may be null
};

extern "C" {
typedef void (*vmc_bind_t)(VmcOps* ops);
typedef const VmcNodeApi* (*vmc_api_t)();
}
#endif
