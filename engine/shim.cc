// Linked into every virtual node. All operating-system, randomness and sealed
// box calls made by the repository's objects are redirected here by the linker
// (--wrap) and forwarded to the host.
#include "ops.h"

#include <arpa/inet.h>
#include <errno.h>
#include <netinet/in.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#include "DPPIR/config/config.h"
#include "DPPIR/onion/onion.h"
#include "DPPIR/sockets/consts.h"
#include "DPPIR/types/types.h"

#ifdef VMC_HAVE_MAIN
int dppir_node_main(int argc, char** argv);  // the repository's main(), renamed
#endif
#ifdef VMC_HAVE_PROG
int vmc_prog_main(int argc, char** argv);
#endif

static VmcOps* ops = nullptr;

#define REAL(ret, name, ...) extern "C" ret __real_##name(__VA_ARGS__)
REAL(ssize_t, read, int, void*, size_t);
REAL(ssize_t, write, int, const void*, size_t);
REAL(int, close, int);
REAL(int, poll, struct pollfd*, nfds_t, int);
REAL(int, rand, void);
REAL(void, srand, unsigned);
REAL(long, random, void);
REAL(void, exit, int);
REAL(void, abort, void);
REAL(void, randombytes_buf, void* const, const size_t);
REAL(uint32_t, randombytes_uniform, const uint32_t);
REAL(uint32_t, randombytes_random, void);
REAL(int, crypto_box_seal, unsigned char*, const unsigned char*, unsigned long long, const unsigned char*);
REAL(int, crypto_box_seal_open, unsigned char*, const unsigned char*, unsigned long long, const unsigned char*,
     const unsigned char*);

extern "C" {
static bool vfd(int fd) { return ops && ops->is_fd(fd); }

int __wrap_socket(int, int, int) { return ops->socket_(); }
int __wrap_setsockopt(int fd, int level, int opt, const void* v, socklen_t len) {
  if (!vfd(fd)) { errno = EBADF; return -1; }
  if (level == SOL_SOCKET && opt == SO_RCVTIMEO && len >= sizeof(struct timeval)) {
    const struct timeval* t = (const struct timeval*)v;
    ops->timed_(fd, t->tv_sec || t->tv_usec);
  }
  return 0;
}
int __wrap_getsockopt(int fd, int level, int opt, void* v, socklen_t* len) {
  if (!vfd(fd)) { errno = EBADF; return -1; }
  memset(v, 0, *len);
  if (level == SOL_SOCKET && (opt == SO_RCVBUF || opt == SO_SNDBUF) && *len >= sizeof(int)) *(int*)v = 1 << 30;
  return 0;
}
int __wrap_bind(int fd, const struct sockaddr* a, socklen_t) {
  if (!vfd(fd)) { errno = EBADF; return -1; }
  const struct sockaddr_in* s = (const struct sockaddr_in*)a;
  return ops->bind_(fd, ntohl(s->sin_addr.s_addr), ntohs(s->sin_port));
}
int __wrap_listen(int fd, int b) {
  if (!vfd(fd)) { errno = EBADF; return -1; }
  return ops->listen_(fd, b);
}
static int do_accept(int fd, struct sockaddr* a, socklen_t* l) {
  if (!vfd(fd)) { errno = EBADF; return -1; }
  int r = ops->accept_(fd);
  if (r >= 0 && a && l) { memset(a, 0, *l); a->sa_family = AF_INET; }
  return r;
}
int __wrap_accept(int fd, struct sockaddr* a, socklen_t* l) { return do_accept(fd, a, l); }
int __wrap_accept4(int fd, struct sockaddr* a, socklen_t* l, int) { return do_accept(fd, a, l); }
int __wrap_connect(int fd, const struct sockaddr* a, socklen_t) {
  if (!vfd(fd)) { errno = EBADF; return -1; }
  const struct sockaddr_in* s = (const struct sockaddr_in*)a;
  return ops->connect_(fd, ntohl(s->sin_addr.s_addr), ntohs(s->sin_port));
}
ssize_t __wrap_read(int fd, void* p, size_t n) { return vfd(fd) ? ops->read_(fd, p, n, 0) : __real_read(fd, p, n); }
ssize_t __wrap_recv(int fd, void* p, size_t n, int fl) {
  if (!vfd(fd)) { errno = EBADF; return -1; }
  ssize_t got = 0;
  for (;;) {
    ssize_t r = ops->read_(fd, (char*)p + got, n - got, fl);
    if (r <= 0) return got ? got : r;
    got += r;
    if (!(fl & MSG_WAITALL) || (fl & (MSG_DONTWAIT | MSG_PEEK)) || (size_t)got == n) return got;
  }
}
ssize_t __wrap_recvfrom(int fd, void* p, size_t n, int fl, struct sockaddr*, socklen_t*) {
  return __wrap_recv(fd, p, n, fl);
}
ssize_t __wrap_readv(int fd, const struct iovec* v, int c) {
  ssize_t tot = 0;
  for (int i = 0; i < c; i++) {
    if (v[i].iov_len == 0) continue;
    ssize_t r = __wrap_read(fd, v[i].iov_base, v[i].iov_len);
    if (r < 0) return tot ? tot : r;
    tot += r;
    if ((size_t)r < v[i].iov_len) break;
    break;  // a short scatter read is always legal
  }
  return tot;
}
ssize_t __wrap_write(int fd, const void* p, size_t n) {
  return vfd(fd) ? ops->write_(fd, p, n, 0) : __real_write(fd, p, n);
}
ssize_t __wrap_send(int fd, const void* p, size_t n, int fl) {
  if (!vfd(fd)) { errno = EBADF; return -1; }
  return ops->write_(fd, p, n, fl);
}
ssize_t __wrap_recvmsg(int fd, struct msghdr* m, int fl) {
  if (m->msg_iovlen == 0) return 0;
  return __wrap_recv(fd, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, fl);
}
ssize_t __wrap_sendmsg(int fd, const struct msghdr* m, int fl) {
  ssize_t tot = 0;
  for (size_t i = 0; i < m->msg_iovlen; i++) {
    if (m->msg_iov[i].iov_len == 0) continue;
    ssize_t r = __wrap_send(fd, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len, fl);
    if (r < 0) return tot ? tot : r;
    tot += r;
    if ((size_t)r < m->msg_iov[i].iov_len) break;
  }
  return tot;
}
ssize_t __wrap_sendto(int fd, const void* p, size_t n, int fl, const struct sockaddr*, socklen_t) {
  return __wrap_send(fd, p, n, fl);
}
ssize_t __wrap_writev(int fd, const struct iovec* v, int c) {
  ssize_t tot = 0;
  for (int i = 0; i < c; i++) {
    if (v[i].iov_len == 0) continue;
    ssize_t r = __wrap_write(fd, v[i].iov_base, v[i].iov_len);
    if (r < 0) return tot ? tot : r;
    tot += r;
    if ((size_t)r < v[i].iov_len) break;
  }
  return tot;
}
int __wrap_poll(struct pollfd* f, nfds_t n, int t) { return ops ? ops->poll_(f, n, t) : __real_poll(f, n, t); }
int __wrap_ppoll(struct pollfd* f, nfds_t n, const struct timespec* ts, const sigset_t*) {
  return ops->poll_(f, n, ts ? (int)(ts->tv_sec * 1000 + ts->tv_nsec / 1000000) : -1);
}
int __wrap_select(int nfds, fd_set* r, fd_set* w, fd_set* e, struct timeval* tv) {
  struct pollfd p[FD_SETSIZE];
  int k = 0;
  for (int i = 0; i < nfds && k < FD_SETSIZE; i++) {
    short ev = 0;
    if (r && FD_ISSET(i, r)) ev |= POLLIN;
    if (w && FD_ISSET(i, w)) ev |= POLLOUT;
    if (ev) { p[k].fd = i; p[k].events = ev; p[k].revents = 0; k++; }
  }
  int n = ops->poll_(p, k, tv ? (int)(tv->tv_sec * 1000 + tv->tv_usec / 1000) : -1);
  if (n < 0) return n;
  if (r) FD_ZERO(r);
  if (w) FD_ZERO(w);
  if (e) FD_ZERO(e);
  int tot = 0;
  for (int i = 0; i < k; i++) {
    if (r && (p[i].revents & (POLLIN | POLLHUP))) { FD_SET(p[i].fd, r); tot++; }
    if (w && (p[i].revents & POLLOUT)) { FD_SET(p[i].fd, w); tot++; }
  }
  return tot;
}
int __wrap_close(int fd) { return vfd(fd) ? ops->close_(fd) : __real_close(fd); }
int __wrap_shutdown(int fd, int how) {
  if (!vfd(fd)) { errno = EBADF; return -1; }
  return ops->shutdown_(fd, how);
}
unsigned __wrap_sleep(unsigned s) { ops->sleep_(s); return 0; }
int __wrap_usleep(useconds_t u) { ops->sleep_(u / 1e6); return 0; }
int __wrap_nanosleep(const struct timespec* ts, struct timespec*) {
  ops->sleep_(ts->tv_sec + ts->tv_nsec / 1e9);
  return 0;
}
int __wrap_rand(void) { return ops ? ops->rand_() : __real_rand(); }
void __wrap_srand(unsigned s) { if (ops) ops->srand_(s); else __real_srand(s); }
long __wrap_random(void) { return ops ? (long)ops->rand_() : __real_random(); }
void __wrap_srandom(unsigned s) { if (ops) ops->srand_(s); }
void __wrap_randombytes_buf(void* const p, const size_t n) { if (ops) ops->rbuf_(p, n); else __real_randombytes_buf(p, n); }
uint32_t __wrap_randombytes_uniform(const uint32_t b) { return ops ? ops->uniform_(b) : __real_randombytes_uniform(b); }
uint32_t __wrap_randombytes_random(void) { return ops ? ops->random32_() : __real_randombytes_random(); }
int __wrap_crypto_box_seal(unsigned char* c, const unsigned char* m, unsigned long long n, const unsigned char* pk) {
  if (ops && ops->seal_) return ops->seal_(c, m, n, pk);
  return __real_crypto_box_seal(c, m, n, pk);
}
int __wrap_crypto_box_seal_open(unsigned char* m, const unsigned char* c, unsigned long long n,
                                const unsigned char* pk, const unsigned char* sk) {
  if (ops && ops->open_) return ops->open_(m, c, n, pk, sk);
  return __real_crypto_box_seal_open(m, c, n, pk, sk);
}
void __wrap___assert_fail(const char* e, const char* f, unsigned l, const char* fn) {
  if (ops) ops->assert_fail_(e, f, l, fn);
  fprintf(stderr, "assertion outside a node: %s %s:%u\n", e, f, l);
  __real_abort();
}
void __wrap_exit(int c) { if (ops) ops->exit_(c); __real_exit(c); }
void __wrap__exit(int c) { if (ops) ops->exit_(c); __real_exit(c); }
// Objects with static storage live as long as the execution; the memory behind them is dropped with it.
int __wrap___cxa_atexit(void (*)(void*), void*, void*) { return 0; }
int __wrap___cxa_thread_atexit(void (*)(void*), void*, void*) { return 0; }
void __wrap_abort(void) { if (ops) ops->abort_(); __real_abort(); }

static size_t cipher_size(int layers) { return DPPIR::onion::CipherSize(layers); }
static void write_config(const VmcDeploy* d, const char* path) {
  DPPIR::config::Config c;
  c.db_size = d->db_size;
  c.epsilon = d->epsilon;
  c.delta = d->delta;
  c.party_count = d->parties;
  c.server_count = d->servers;
  for (int p = 0; p < d->parties; p++) {
    DPPIR::config::PartyConfig pc;
    pc.shared_seed = d->shared_seeds[p];
    for (size_t i = 0; i < pc.onion_pkey.size(); i++) pc.onion_pkey[i] = d->pkeys[p * 32 + i];
    for (size_t i = 0; i < pc.onion_skey.size(); i++) pc.onion_skey[i] = d->skeys[p * 32 + i];
    for (int s = 0; s < d->servers; s++) {
      DPPIR::config::ServerConfig sc;
      int k = p * d->servers + s;
      sc.local_seed = d->local_seeds[k];
      sc.port = d->ports[k];
      sc.parallel_port = d->pports[k];
      sc.ip = d->ips[k];
      pc.servers.push_back(sc);
    }
    c.parties.push_back(pc);
  }
  DPPIR::config::WriteToFile(c, path);
}
static void decode_query(const void* p, uint64_t* tag, uint32_t* tally) {
  DPPIR::Query q;
  memcpy(&q, p, sizeof(q));
  *tag = q.tag;
  *tally = q.tally;
}
static void decode_secret(const void* p, uint64_t* tag, uint64_t* next_tag, uint32_t* x, uint32_t* y, void* pre) {
  DPPIR::OfflineSecret s;
  memcpy(&s, p, sizeof(s));
  *tag = s.tag;
  *next_tag = s.next_tag;
  *x = s.share.x;
  *y = s.share.y;
  memcpy(pre, &s.preshare, sizeof(s.preshare));
}

__attribute__((visibility("default"))) void vmc_bind(VmcOps* o) { ops = o; }
__attribute__((visibility("default"))) const VmcNodeApi* vmc_api() {
  static VmcNodeApi api;
#ifdef VMC_HAVE_MAIN
  api.main_ = dppir_node_main;
#endif
#ifdef VMC_HAVE_PROG
  api.prog_ = vmc_prog_main;
#endif
  api.write_config_ = write_config;
  api.cipher_size_ = cipher_size;
  api.query_size = sizeof(DPPIR::Query);
  api.response_size = sizeof(DPPIR::Response);
  api.secret_size = sizeof(DPPIR::OfflineSecret);
  api.index_size = sizeof(DPPIR::index_t);
  api.prime = INCREMENTAL_PRIME;
  api.buffer_size = BUFFER_SIZE;
  api.decode_query_ = decode_query;
  api.decode_secret_ = decode_secret;
  api.preshare_size = sizeof(DPPIR::preshare_t);
  return &api;
}
}
