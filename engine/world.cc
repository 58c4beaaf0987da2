#include "world.h"

#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <sodium.h>
#include <stdio.h>
#include <stdarg.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <iostream>

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#define VMC_ASAN 1
#endif

#include "arena.h"

namespace vmc {

World W;

// ---------------------------------------------------------------- fibers
extern "C" void vmc_switch(void** save, void* load);
__asm__(
    ".text\n.globl vmc_switch\n.type vmc_switch,@function\nvmc_switch:\n"
    "pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
    "movq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
    "popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n");

static const size_t kStack = 8u << 20;
struct FiberSlot {
  char* stack = nullptr;
  void* sp = nullptr;
  void* fake = nullptr;
};
static FiberSlot slots[kMaxNodes];
static void* hostSp;
static void* hostFake;
static const void* hostStackBottom;
static size_t hostStackSize;
static int cur = -1;  // running node

// Everything the node allocates lives in an arena that is dropped between executions.
struct HostSection {
  bool was;
  HostSection() : was(vmc_in_node) { vmc_in_node = false; }
  ~HostSection() { vmc_in_node = was; }
};
static std::vector<std::vector<std::string>> gArgs;
static bool gProg;

struct Lib {
  void* h = nullptr;
  const VmcNodeApi* api = nullptr;
  std::vector<std::pair<char*, std::vector<char>>> image;  // writable segments
  char* tls = nullptr;
  std::vector<char> tlsImage;
};
static std::vector<Lib> libs;

static void ToHost() {
  int me = cur;
#ifdef VMC_ASAN
  __sanitizer_start_switch_fiber(&slots[me].fake, hostStackBottom, hostStackSize);
#endif
  vmc_switch(&slots[me].sp, hostSp);
#ifdef VMC_ASAN
  __sanitizer_finish_switch_fiber(slots[me].fake, &hostStackBottom, &hostStackSize);
#endif
}
static void ToNode(int n) {
  cur = n;
#ifdef VMC_ASAN
  __sanitizer_start_switch_fiber(&hostFake, slots[n].stack, kStack);
#endif
  vmc_switch(&hostSp, slots[n].sp);
#ifdef VMC_ASAN
  __sanitizer_finish_switch_fiber(hostFake, nullptr, nullptr);
#endif
  cur = -1;
}

[[noreturn]] static void NodeGone() {
  for (;;) ToHost();
}
static void Touch(int n) { W.nodes[n].touched = true; }
static void CloseAll(int n, bool drop) {
  for (auto& f : W.nodes[n].fds) {
    if (f.type == Fd::SOCK) {
      Conn& c = W.conns[f.conn];
      Chan& out = f.isA ? c.ab : c.ba;
      Chan& in = f.isA ? c.ba : c.ab;
      out.wclosed = true;
      in.rclosed = true;
      Touch(out.dst);
      if (drop && out.data.size() > out.consumed) {
        // data the network had not delivered yet disappears
        size_t keep = std::max(out.consumed, out.seen);
        out.data.resize(keep);
        while (!out.segs.empty() && out.segs.back().end > keep) {
          if (out.segs.size() >= 2 && out.segs[out.segs.size() - 2].end >= keep) out.segs.pop_back();
          else { out.segs.back().end = keep; break; }
        }
      }
    } else if (f.type == Fd::LISTEN) {
      for (size_t i = 0; i < W.listeners.size(); i++)
        if (W.listeners[i].node == n) W.listeners[i].fd = -1;
    }
    f.type = Fd::FREE;
  }
  W.progress++;
}
static void Finish(NodeStatus st, int code, const std::string& why) {
  Node& n = W.nodes[cur];
  n.st = st;
  n.exitCode = code;
  n.why = why;
  CloseAll(cur, false);
  NodeGone();
}

extern "C" void vmc_fiber_main() {
#ifdef VMC_ASAN
  __sanitizer_finish_switch_fiber(nullptr, &hostStackBottom, &hostStackSize);
#endif
  int me = cur;
  std::vector<char*> argv;
  for (auto& s : gArgs[me]) argv.push_back(const_cast<char*>(s.c_str()));
  argv.push_back(nullptr);
  int rc = -1;
  std::string ex;
  try {
    vmc_in_node = true;
    rc = gProg ? libs[me].api->prog_(argv.size() - 1, argv.data()) : libs[me].api->main_(argv.size() - 1, argv.data());
    vmc_in_node = false;
  } catch (const std::exception& e) {
    vmc_in_node = false;
    ex = std::string("uncaught exception: ") + e.what();
  } catch (...) {
    vmc_in_node = false;
    ex = "uncaught exception";
  }
  if (!ex.empty()) Finish(NS_CRASHED, 134, ex);
  Finish(NS_EXITED, rc, "");
  for (;;) {
  }
}
static void InitFiber(int n) {
  FiberSlot& s = slots[n];
  if (!s.stack) {
    s.stack = (char*)mmap(nullptr, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mprotect(s.stack, 4096, PROT_NONE);
  }
#ifdef VMC_ASAN
  // frames of an abandoned execution left poisoned shadow behind
  __asan_unpoison_memory_region(s.stack + 4096, kStack - 4096);
#endif
#ifndef VMC_ASAN
  if (W.fillStacks) memset(s.stack + kStack - (96 << 10), vmc_fill, 96 << 10);
#endif
  void** top = (void**)(s.stack + kStack - 64);
  *--top = nullptr;                     // fake return address of the entry (alignment)
  *--top = (void*)vmc_fiber_main;       // ret
  for (int i = 0; i < 6; i++) *--top = nullptr;
  s.sp = top;
  s.fake = nullptr;
}

// ---------------------------------------------------------------- decisions
static inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 12) + (h >> 4);
  h *= 0xff51afd7ed558ccdULL;
  h ^= h >> 33;
  return h;
}
static uint64_t HashBytes(const void* p, size_t n) {
  const unsigned char* b = (const unsigned char*)p;
  uint64_t h = 0xcbf29ce484222325ULL ^ n;
  size_t i = 0;
  for (; i + 8 <= n; i += 8) {
    uint64_t v;
    memcpy(&v, b + i, 8);
    h = (h ^ v) * 0x9ddfea08eb382d69ULL;
    h ^= h >> 29;
  }
  for (; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ULL;
  return h ^ (h >> 32);
}
static void Hist(uint64_t v) { W.nodes[cur].hist = mix(W.nodes[cur].hist, v); }

static uint64_t StateHash(int kind, int who) {
  uint64_t h = mix(kind, who + 77);
  for (Node& n : W.nodes) {
    h = mix(h, n.hist);
    h = mix(h, n.st * 8 + n.op);
  }
  // visibility lower bounds and in-flight amounts are part of the state
  for (Conn& c : W.conns) {
    h = mix(mix(h, (c.ab.seen << 20) ^ c.ab.consumed), c.ab.data.size());
    h = mix(mix(h, (c.ba.seen << 20) ^ c.ba.consumed), c.ba.data.size());
  }
  for (Listener& l : W.listeners) h = mix(h, l.pending.size());
  if (W.full) return h;  // every alternative of every state is explored: the default continuation is irrelevant
  // scheduling order (it determines the default continuation)
  std::vector<std::pair<uint64_t, int>> q;
  for (Node& n : W.nodes)
    if (n.st == NS_PARKED) q.push_back({n.parkSeq, n.id});
  std::sort(q.begin(), q.end());
  for (auto& p : q) h = mix(h, p.second);
  return h;
}

static std::string gDecLog;
static uint32_t nextDev;
static int Choose(int kind, int who, int n) {
  if (n <= 1) return 0;
  uint32_t pos = W.res.decisions++;
  int pick = 0;
  if (nextDev < W.devs.size()) {
    if (W.devs[nextDev].pos == pos) {
      pick = W.devs[nextDev].alt;
      nextDev++;
      if (pick >= n) {
        W.res.diverged = true;
        pick = 0;
      }
    }
    if (nextDev == W.devs.size()) W.res.altBase = pos + 1;
  } else {
    if (W.visit && W.visit(StateHash(kind, who))) {
      W.res.pruned = true;
      return 0;
    }
    W.res.alts.push_back(n);
  }
  return pick;
}

static void Trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
static void Trace(const char* fmt, ...) {
  if (!W.tracing) return;
  char b[512];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  W.traceText += b;
  W.traceText += '\n';
}

// ---------------------------------------------------------------- node side operations
static void Park(OpKind k) {
  Node& n = W.nodes[cur];
  n.st = NS_PARKED;
  n.op = k;
  n.parkSeq = ++W.seq;
  n.expired = false;
  n.touched = true;
  ToHost();
  // resumed
}
static void Tick() {
  Node& n = W.nodes[cur];
  n.nops++;
  W.res.ops++;
  if (W.res.ops > W.set.horizon) {
    W.res.horizon = true;
    n.op = OP_STUCK;
    n.st = NS_PARKED;
    NodeGone();
  }
  if (W.set.crashNode == cur && n.nops == W.set.crashOp) {
    n.st = NS_KILLED;
    n.why = "killed by fault injection";
    CloseAll(cur, W.set.crashDrop);
    NodeGone();
  }
}
// Virtual time passes.  When it matters, so does the order of what happened.
static void Advance() {
  if (!W.timed) return;
  Hist(mix(9000, ++W.time));
}
static Fd* F(int fd) {
  Node& n = W.nodes[cur];
  int i = fd - 3;
  if (i < 0 || i >= (int)n.fds.size() || n.fds[i].type == Fd::FREE) return nullptr;
  return &n.fds[i];
}
static int NewFd() {
  Node& n = W.nodes[cur];
  for (size_t i = 0; i < n.fds.size(); i++)
    if (n.fds[i].type == Fd::FREE) return i + 3;
  n.fds.emplace_back();
  return n.fds.size() + 2;
}
static Chan& In(const Fd& f) { return f.isA ? W.conns[f.conn].ba : W.conns[f.conn].ab; }
static Chan& Out(const Fd& f) { return f.isA ? W.conns[f.conn].ab : W.conns[f.conn].ba; }

static int o_is_fd(int fd) { HostSection hs; return cur >= 0 && F(fd) != nullptr; }
static int o_socket() {
  HostSection hs;
  Tick();
  int fd = NewFd();
  W.nodes[cur].fds[fd - 3] = Fd();
  W.nodes[cur].fds[fd - 3].type = Fd::NEW;
  return fd;
}
static std::vector<uint32_t> gIps;
static int o_bind(int fd, uint32_t, int port) {
  HostSection hs;
  Tick();
  Fd* f = F(fd);
  for (auto& l : W.listeners)
    if (l.fd >= 0 && gIps[l.node] == gIps[cur] && l.port == port) {
      errno = EADDRINUSE;
      return -1;
    }
  f->port = port;
  return 0;
}
static int o_listen(int fd, int backlog) {
  HostSection hs;
  Tick();
  Fd* f = F(fd);
  f->type = Fd::LISTEN;
  Listener l;
  l.node = cur;
  l.fd = fd;
  l.port = f->port;
  l.backlog = backlog;
  W.listeners.push_back(l);
  W.progress++;
  Trace("n%d listen %d", cur, f->port);
  return 0;
}
static Listener* FindListener(uint32_t ip, int port) {
  for (auto& l : W.listeners)
    if (l.fd >= 0 && l.port == port && gIps[l.node] == ip) return &l;
  return nullptr;
}
static Listener* MyListener(int node, int fd) {
  for (auto& l : W.listeners)
    if (l.node == node && l.fd == fd) return &l;
  return nullptr;
}
static void o_timed(int fd, int on) {
  HostSection hs;
  F(fd)->timed = on;
}
static int o_accept(int fd) {
  HostSection hs;
  Tick();
  Node& n = W.nodes[cur];
  n.opFd = fd;
  Park(OP_ACCEPT);
  Listener* l = MyListener(cur, fd);
  if (!l) { errno = EINVAL; return -1; }
  if (l->pending.empty()) { Hist(1001); Trace("n%d accept expires", cur); errno = EAGAIN; return -1; }
  int c = l->pending.front();
  l->pending.pop_front();
  int nf = NewFd();
  Fd& f = W.nodes[cur].fds[nf - 3];
  f = Fd();
  f.type = Fd::SOCK;
  f.conn = c;
  f.isA = false;
  Hist(mix(1000, c * 64 + W.conns[c].a));
  Trace("n%d accept from n%d", cur, W.conns[c].a);
  W.progress++;
  return nf;
}
static int o_connect(int fd, uint32_t ip, int port) {
  HostSection hs;
  Tick();
  Park(OP_CONNECT);
  Listener* l = FindListener(ip, port);
  if (!l) {
    Hist(2001);
    Trace("n%d connect %d refused", cur, port);
    errno = ECONNREFUSED;
    return -1;
  }
  Conn c;
  c.a = cur;
  c.b = l->node;
  c.port = port;
  c.ab.src = c.ba.dst = cur;
  c.ab.dst = c.ba.src = l->node;
  W.conns.push_back(c);
  l->pending.push_back(W.conns.size() - 1);
  Touch(l->node);
  Fd* f = F(fd);
  f->type = Fd::SOCK;
  f->conn = W.conns.size() - 1;
  f->isA = true;
  Hist(2002);
  Trace("n%d connect -> n%d:%d", cur, l->node, port);
  W.progress++;
  return 0;
}
// What a process does that is told to try again later: others get their turn first.
static void Yield() {
  Node& n = W.nodes[cur];
  n.lastSleepProg = n.sleptBefore ? n.sleepProg : ~0ull;
  n.sleepProg = W.progress;
  n.sleptBefore = true;
  Park(OP_SLEEP);
  Hist(6000);
}
enum { kPeek = 2, kDontWait = 0x40, kWaitAll = 0x100, kNoSignal = 0x4000 };  // MSG_*
static ssize_t o_read(int fd, void* buf, size_t n, int flags) {
  HostSection hs;
  Tick();
  Fd* f = F(fd);
  if (f->type != Fd::SOCK) { errno = ENOTCONN; return -1; }
  if (n == 0) return 0;
  Node& me = W.nodes[cur];
  me.opFd = fd;
  if ((flags & kDontWait) && In(*f).data.size() == In(*f).consumed && !In(*f).wclosed) {
    Yield();
    f = F(fd);
    if (In(*f).data.size() == In(*f).consumed && !In(*f).wclosed) {
      Trace("n%d read would block", cur);
      errno = EAGAIN;
      return -1;
    }
  }
  Park(OP_READ);
  Chan& c = In(*F(fd));
  size_t avail = c.data.size() - c.consumed;
  if (avail == 0 && me.expired) {
    Hist(3002);
    Trace("n%d read expires", cur);
    errno = EAGAIN;
    return -1;
  }
  if (avail == 0) {
    // end of stream
    Hist(3001);
    if (++me.eofReads > W.set.eofLimit) {
      me.why = "spins on end of stream";
      for (;;) Park(OP_STUCK);
    }
    Trace("n%d read eof", cur);
    return 0;
  }
  size_t hi = std::min(avail, n);
  size_t lo = c.seen > c.consumed ? c.seen - c.consumed : 1;
  if (lo > hi) lo = hi;
  size_t len = hi;
  if (W.set.seg > 0) len = std::max(lo, std::min(hi, (size_t)W.set.seg));
  if (W.set.devRead && hi > lo) {
    std::vector<size_t> alt;
    auto add = [&](size_t v) {
      if (v >= lo && v <= hi && std::find(alt.begin(), alt.end(), v) == alt.end()) alt.push_back(v);
    };
    add(len);
    if (W.set.allLens) {
      for (size_t v = lo; v <= hi; v++) add(v);
    } else {
      add(hi);
      add(lo);
      add(hi - 1);
      add(lo + 1);
      add((lo + hi) / 2);
    }
    len = alt[Choose(1, cur, alt.size())];
  }
  memcpy(buf, c.data.data() + c.consumed, len);
  if (!(flags & kPeek)) c.consumed += len, Touch(c.src);
  if (c.seen < c.consumed) c.seen = c.consumed;
  // causality
  while (!me.vc.empty() && c.seg_read < c.segs.size()) {
    Seg& s = c.segs[c.seg_read];
    for (size_t i = 0; i < s.vc.size(); i++) me.vc[i] = std::max(me.vc[i], s.vc[i]);
    if (s.end <= c.consumed) c.seg_read++;
    else break;
  }
  if (!me.vc.empty()) {
    me.vc[cur]++;
    c.reads.push_back({c.consumed, me.vc[cur], W.time + 1});
  }
  Advance();
  Hist(mix(3000 + fd, mix(len, HashBytes(buf, len))));
  Trace("n%d read %zu/%zu from n%d", cur, len, n, c.src);
  W.progress++;
  return len;
}
static ssize_t o_write(int fd, const void* buf, size_t n, int flags) {
  HostSection hs;
  Tick();
  Fd* f = F(fd);
  if (f->type != Fd::SOCK) { errno = ENOTCONN; return -1; }
  if (n == 0) return 0;
  Node& me = W.nodes[cur];
  {
    Chan& c = Out(*f);
    if (c.rclosed) {
      // the peer is gone: the process gets SIGPIPE
      Trace("n%d write to dead n%d", cur, c.dst);
      if (flags & kNoSignal) {
        errno = EPIPE;
        return -1;
      }
      Finish(NS_CRASHED, 141, "SIGPIPE: wrote to a closed connection");
    }
  }
  size_t room = n;
  if ((flags & kDontWait) && Out(*f).full) {
    Yield();
    f = F(fd);
    Out(*f).full = false;
    Trace("n%d send would block", cur);
    errno = EAGAIN;
    return -1;
  }
  if (W.set.cap) {
    if ((flags & kDontWait) && Out(*f).data.size() - Out(*f).consumed >= W.set.cap) {
      Yield();
      f = F(fd);
      if (!Out(*f).rclosed && Out(*f).data.size() - Out(*f).consumed >= W.set.cap) {
        Trace("n%d send would block", cur);
        errno = EAGAIN;
        return -1;
      }
    }
    if (Out(*f).data.size() - Out(*f).consumed >= W.set.cap) {
      me.opFd = fd;
      Trace("n%d send blocks (full) to n%d", cur, Out(*f).dst);
      Park(OP_SENDFULL);
      f = F(fd);
      if (Out(*f).rclosed) Finish(NS_CRASHED, 141, "SIGPIPE: wrote to a closed connection");
    }
    room = W.set.cap - (Out(*f).data.size() - Out(*f).consumed);
  }
  Chan& c = Out(*f);
  size_t hi = std::min(n, room);
  size_t len = hi;
  if (W.set.snd > 0) len = std::min(hi, (size_t)W.set.snd);
  if (W.set.devSend && hi > 1) {
    std::vector<size_t> alt = {len};
    for (size_t v : {hi, (size_t)1, hi - 1})
      if (std::find(alt.begin(), alt.end(), v) == alt.end()) alt.push_back(v);
    len = alt[Choose(2, cur, alt.size())];
  }
  c.full = len < n;
  c.data.insert(c.data.end(), (const uint8_t*)buf, (const uint8_t*)buf + len);
  if (W.set.flipNode == c.dst && f->isA && c.data.size() > W.set.flipAt && c.data.size() - len <= W.set.flipAt) {
    const Conn& k = W.conns[f->conn];
    if (k.port >= 3000 && k.port < 4000) c.data[W.set.flipAt] ^= W.set.flipBits;
  }
  Touch(c.dst);
  if (!me.vc.empty()) {
    me.vc[cur]++;
    c.segs.push_back({c.data.size(), me.vc, W.time + 1});
  }
  Advance();
  if (len != hi || W.set.cap) Hist(mix(4000, len));
  Trace("n%d send %zu/%zu to n%d", cur, len, n, c.dst);
  W.progress++;
  return len;
}
static bool FdReadable(int node, int fd, bool* must) {
  *must = false;
  int i = fd - 3;
  Node& n = W.nodes[node];
  if (i < 0 || i >= (int)n.fds.size()) return false;
  Fd& f = n.fds[i];
  if (f.type == Fd::LISTEN) {
    for (auto& l : W.listeners)
      if (l.node == node && l.fd == fd) return !l.pending.empty();
    return false;
  }
  if (f.type != Fd::SOCK) return false;
  Chan& c = In(f);
  if (c.data.size() > c.consumed) {
    *must = c.seen > c.consumed;
    return true;
  }
  return c.wclosed;
}
static bool FdWritable(int node, int fd) {
  int i = fd - 3;
  Node& n = W.nodes[node];
  if (i < 0 || i >= (int)n.fds.size() || n.fds[i].type != Fd::SOCK) return false;
  Chan& c = Out(n.fds[i]);
  return !W.set.cap || c.data.size() - c.consumed < W.set.cap;
}
static int o_poll(struct pollfd* fds, size_t n, int timeout) {
  HostSection hs;
  Tick();
  Node& me = W.nodes[cur];
  me.opPoll = fds;
  me.opN = n;
  me.opTimeout = timeout;
  Park(OP_POLL);
  std::vector<int> opt;
  std::vector<char> rep(n, 0);
  int mustCount = 0, outCount = 0;
  for (size_t i = 0; i < n; i++) {
    fds[i].revents = 0;
    if (fds[i].fd < 0) continue;
    if ((fds[i].events & POLLOUT) && FdWritable(cur, fds[i].fd)) {
      fds[i].revents |= POLLOUT;
      outCount++;
    }
    bool must;
    if (!(fds[i].events & POLLIN) || !FdReadable(cur, fds[i].fd, &must)) continue;
    if (must) {
      rep[i] = 1;
      mustCount++;
    } else {
      opt.push_back(i);
    }
  }
  int total = 1 << std::min<size_t>(opt.size(), 10);
  int full = total - 1;
  int minSub = (timeout != 0 && mustCount == 0 && outCount == 0 && !opt.empty()) ? 1 : 0;
  int def = full;
  if (W.set.hide == 1) def = minSub ? 1 : 0;
  if (W.set.hide == 2) def = opt.empty() ? 0 : 1;
  if (W.set.hide == 3) def = opt.empty() ? 0 : (total >> 1);
  int sub = def;
  if (W.set.devPoll && total - minSub > 1) {
    std::vector<int> alt = {def};
    if (def != full) alt.push_back(full);
    if (total <= 16) {
      for (int m = full; m >= minSub; m--)
        if (m != def && m != full) alt.push_back(m);
    } else {
      if (!minSub && def != 0) alt.push_back(0);
      for (size_t i = 0; i < opt.size() && i < 10; i++)
        if (def != (1 << i)) alt.push_back(1 << i);
    }
    sub = alt[Choose(3, cur, alt.size())];
  }
  for (size_t i = 0; i < opt.size(); i++)
    if (i >= 10 || (sub >> i & 1)) rep[opt[i]] = 1;
  int cnt = 0;
  uint64_t hh = 5000;
  for (size_t i = 0; i < n; i++) {
    if (rep[i]) {
      fds[i].revents |= POLLIN;
      int k = fds[i].fd - 3;
      Fd& f = me.fds[k];
      if (f.type == Fd::SOCK) {
        Chan& c = In(f);
        if (c.data.size() > c.consumed) c.seen = std::max(c.seen, c.consumed + 1);
        if (c.wclosed && c.data.size() == c.consumed) {
          fds[i].revents |= POLLHUP;
          if (++me.eofReads > W.set.eofLimit) {
            me.why = "spins on end of stream";
            for (;;) Park(OP_STUCK);
          }
        }
      }
    }
    if (fds[i].revents) {
      cnt++;
      hh = mix(hh, i * 16 + fds[i].revents);
    }
  }
  Hist(hh);
  Trace("n%d poll(%d) -> %d of %zu", cur, timeout, cnt, opt.size() + mustCount);
  return cnt;
}
static int o_close(int fd) {
  HostSection hs;
  Tick();
  Fd* f = F(fd);
  if (f->type == Fd::SOCK) {
    Out(*f).wclosed = true;
    In(*f).rclosed = true;
    Touch(Out(*f).dst);
  } else if (f->type == Fd::LISTEN) {
    for (auto& l : W.listeners)
      if (l.node == cur && l.fd == fd) l.fd = -1;
  }
  f->type = Fd::FREE;
  W.progress++;
  return 0;
}
static int o_shutdown(int fd, int how) {
  HostSection hs;
  Tick();
  Fd* f = F(fd);
  if (f->type == Fd::SOCK) {
    if (how == 1 || how == 2) Out(*f).wclosed = true;
    if (how == 0 || how == 2) In(*f).rclosed = true;
    Touch(Out(*f).dst);
    W.progress++;
  }
  return 0;
}
static void o_sleep(double) {
  HostSection hs;
  Tick();
  Yield();
}
static uint64_t Next(uint64_t& s) {
  uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
uint32_t Tapes::Choose(uint32_t n) {
  if (pos == path.size()) path.push_back({0, n});
  weight /= n;
  uint32_t c = path[pos].first;
  path[pos++].second = n;
  return c < n ? c : 0;
}
bool Tapes::Next() {
  path.resize(pos);
  while (!path.empty()) {
    if (++path.back().first < path.back().second) return true;
    path.pop_back();
  }
  return false;
}
// A value of rand() in the i-th of m equal parts of its range whose residue modulo m is i too, so that both
// scaling and reducing it give equidistributed results.
static int Stratum(uint32_t i, uint32_t m) {
  uint64_t lo = ((uint64_t)i << 31) / m + 1, hi = ((uint64_t)(i + 1) << 31) / m;
  uint64_t mid = (lo + hi) / 2;
  mid -= mid % m;
  return (int)(mid + i);
}
static bool Configured(const Node& n) { return n.seeded && W.seeds.count((int)n.seedValue); }
static int o_rand() {
  HostSection hs;
  Node& n = W.nodes[cur];
  if (W.tapes.on) {
    auto it = W.tapes.strata.find(Configured(n) ? std::to_string((int)n.seedValue) : "u");
    if (it != W.tapes.strata.end()) {
      // processes that use the same seed, or none, see the same values
      auto& k = W.tapes.known[Configured(n) ? it->first : "u" + std::to_string(n.seeded ? n.seedValue : 1)];
      if (n.streamPos == k.size()) k.push_back(Stratum(W.tapes.Choose(it->second), it->second));
      return k[n.streamPos++];
    }
  }
  if (!Configured(n) && n.randPos < n.randTape.size()) return n.randTape[n.randPos++];
  int32_t r;
  random_r(&n.rdata, &r);
  return r;
}
static void SeedRand(Node& n, unsigned s) {
  memset(&n.rdata, 0, sizeof n.rdata);
  memset(n.rstate, 0, sizeof n.rstate);
  initstate_r(s, n.rstate, sizeof n.rstate, &n.rdata);
}
static void o_srand(unsigned s) {
  HostSection hs;
  SeedRand(W.nodes[cur], s);
  W.nodes[cur].seeded = true;
  W.nodes[cur].seedValue = s;
  W.nodes[cur].streamPos = 0;
}
static uint32_t o_uniform(uint32_t b) {
  HostSection hs;
  Node& n = W.nodes[cur];
  uint32_t v;
  if (b < 2) {
    v = 0;
    if (b == n.keyBound && n.keyBound && n.keyPos < n.keyTape.size()) n.keyPos++;
  } else if (b == n.keyBound && n.keyBound && n.keyPos < n.keyTape.size()) {
    v = n.keyTape[n.keyPos++] % b;
  } else if (W.tapes.on && W.tapes.uni && cur == 0 && b <= 64) {
    v = W.tapes.Choose(b);
  } else if (n.uniPos < n.uniTape.size()) {
    v = n.uniTape[n.uniPos++] % b;
  } else {
    v = Next(n.rng) % b;
  }
  n.uniforms.push_back({b, v});
  return v;
}
static uint32_t o_random32() { HostSection hs; return Next(W.nodes[cur].rng); }
static void o_rbuf(void* p, size_t sz) {
  HostSection hs;
  Node& n = W.nodes[cur];
  n.bufCalls++;
  unsigned char* b = (unsigned char*)p;
  if (n.bufPos < n.bufTape.size()) {
    auto& t = n.bufTape[n.bufPos++];
    for (size_t i = 0; i < sz; i++) b[i] = t.empty() ? 0 : t[i % t.size()];
    return;
  }
  for (size_t i = 0; i < sz; i += 8) {
    uint64_t v = Next(n.rng);
    memcpy(b + i, &v, std::min<size_t>(8, sz - i));
  }
}
void NodeRandom(void* p, size_t n) {
  static uint64_t hostRng = 4711;
  uint64_t& s = cur >= 0 ? W.nodes[cur].rng : hostRng;
  unsigned char* b = (unsigned char*)p;
  for (size_t i = 0; i < n; i += 8) {
    uint64_t v = Next(s);
    memcpy(b + i, &v, std::min<size_t>(8, n - i));
  }
}
// Idealised sealed box: header = public key (32) + tag (16), body under a key-derived pad.
static std::vector<std::pair<std::string, std::string>> gKeys;  // sk, pk
static bool gFake = true;
static void Pad(const unsigned char* pk, const unsigned char* in, unsigned char* out, size_t n) {
  uint64_t s;
  memcpy(&s, pk, 8);
  for (size_t i = 0; i < n; i += 8) {
    uint64_t v = Next(s), t = 0;
    size_t k = std::min<size_t>(8, n - i);
    memcpy(&t, in + i, k);
    t ^= v;
    memcpy(out + i, &t, k);
  }
}
static void Mac(const unsigned char* pk, const unsigned char* m, size_t n, unsigned char* out) {
  uint64_t a = mix(HashBytes(pk, 32), HashBytes(m, n)), b = mix(a, n);
  memcpy(out, &a, 8);
  memcpy(out + 8, &b, 8);
}
static void Crypto() {
  if (cur < 0 || !W.timed) return;
  Advance();
  W.nodes[cur].crypto.push_back(W.time);
}
static int fake_seal(unsigned char* c, const unsigned char* m, unsigned long long n, const unsigned char* pk) {
  HostSection hs;
  Crypto();
  std::vector<unsigned char> tmp(m, m + n);  // tolerate overlap
  memcpy(c, pk, 32);
  Mac(pk, tmp.data(), n, c + 32);
  Pad(pk, tmp.data(), c + 48, n);
  return 0;
}
static int fake_open(unsigned char* m, const unsigned char* c, unsigned long long n, const unsigned char* pk,
                     const unsigned char* sk) {
  HostSection hs;
  Crypto();
  if (n < 48 || memcmp(c, pk, 32)) return -1;
  std::string s((const char*)sk, 32), p((const char*)pk, 32);
  bool ok = false;
  for (auto& k : gKeys)
    if (k.first == s && k.second == p) ok = true;
  if (!ok) return -1;
  std::vector<unsigned char> tmp(n - 48);
  Pad(pk, c + 48, tmp.data(), n - 48);
  unsigned char mac[16];
  Mac(pk, tmp.data(), n - 48, mac);
  if (memcmp(mac, c + 32, 16)) return -1;
  memcpy(m, tmp.data(), n - 48);
  return 0;
}
int HostOpen(unsigned char* m, const unsigned char* c, size_t n, const unsigned char* pk, const unsigned char* sk) {
  return gFake ? fake_open(m, c, n, pk, sk) : crypto_box_seal_open(m, c, n, pk, sk);
}
void RegisterKey(const unsigned char* pk, const unsigned char* sk) {
  gKeys.push_back({std::string((const char*)sk, 32), std::string((const char*)pk, 32)});
}
static void o_assert(const char* e, const char* f, unsigned l, const char*) {
  HostSection hs;
  const char* b = strrchr(f, '/');
  char t[400];
  snprintf(t, sizeof t, "assertion failed: %s (%s:%u)", e, b ? b + 1 : f, l);
  if (cur < 0) {
    fprintf(stderr, "host-side %s\n", t);
    _exit(70);
  }
  Finish(NS_CRASHED, 134, t);
}
static void o_exit(int c) {
  HostSection hs;
  if (cur < 0) _exit(c);
  Finish(NS_EXITED, c, "");
}
static void o_abort() {
  HostSection hs;
  if (cur < 0) _exit(70);
  Finish(NS_CRASHED, 134, "abort()");
}

static VmcOps gOps;

void SetFakeCrypto(bool on) {
  gFake = on;
  gOps.seal_ = on ? fake_seal : nullptr;
  gOps.open_ = on ? fake_open : nullptr;
}

struct NullBuf : std::streambuf {
  int overflow(int c) override {
    char b = c;
    if (c != EOF) Keep(&b, 1);
    return c == EOF ? 0 : c;
  }
  std::streamsize xsputn(const char* p, std::streamsize n) override {
    Keep(p, n);
    return n;
  }
  static void Keep(const char* p, size_t n) {
    if (cur < 0 || !W.timed || W.nodes[cur].out.size() > 100000) return;
    HostSection hs;
    W.nodes[cur].out.append(p, n);
  }
};
static NullBuf nullbuf;

const VmcNodeApi* Api() { return libs[0].api; }

void LoadNodes(const char* so, const char* workdir, int count, bool fakeCrypto) {
  gOps.is_fd = o_is_fd;
  gOps.socket_ = o_socket;
  gOps.bind_ = o_bind;
  gOps.listen_ = o_listen;
  gOps.timed_ = o_timed;
  gOps.accept_ = o_accept;
  gOps.connect_ = o_connect;
  gOps.read_ = o_read;
  gOps.write_ = o_write;
  gOps.poll_ = o_poll;
  gOps.close_ = o_close;
  gOps.shutdown_ = o_shutdown;
  gOps.sleep_ = o_sleep;
  gOps.rand_ = o_rand;
  gOps.srand_ = o_srand;
  gOps.uniform_ = o_uniform;
  gOps.random32_ = o_random32;
  gOps.rbuf_ = o_rbuf;
  gOps.assert_fail_ = o_assert;
  gOps.exit_ = o_exit;
  gOps.abort_ = o_abort;
  SetFakeCrypto(fakeCrypto);
  std::cout.rdbuf(&nullbuf);
  std::ifstream in(so, std::ios::binary);
  std::string bytes((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
  for (int i = libs.size(); i < count; i++) {
    std::string p = std::string(workdir) + "/node" + std::to_string(getpid()) + "_" + std::to_string(i) + ".so";
    {
      std::ofstream o(p, std::ios::binary);
      o.write(bytes.data(), bytes.size());
    }
    Lib l;
    l.h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!l.h) {
      fprintf(stderr, "dlopen: %s\n", dlerror());
      _exit(71);
    }
    unlink(p.c_str());
    ((vmc_bind_t)dlsym(l.h, "vmc_bind"))(&gOps);
    l.api = ((vmc_api_t)dlsym(l.h, "vmc_api"))();
    struct link_map* lm;
    dlinfo(l.h, RTLD_DI_LINKMAP, &lm);
    struct Ctx { ElfW(Addr) base; Lib* l; } ctx{lm->l_addr, &l};
    dl_iterate_phdr(
        [](struct dl_phdr_info* info, size_t, void* v) -> int {
          Ctx* c = (Ctx*)v;
          if (info->dlpi_addr != c->base) return 0;
          for (int k = 0; k < info->dlpi_phnum; k++) {
            auto& ph = info->dlpi_phdr[k];
            if (ph.p_type == PT_LOAD && (ph.p_flags & PF_W)) {
              char* b = (char*)(info->dlpi_addr + ph.p_vaddr);
              c->l->image.push_back({b, std::vector<char>(b, b + ph.p_memsz)});
            }
            if (ph.p_type == PT_TLS && info->dlpi_tls_data) {
              c->l->tls = (char*)info->dlpi_tls_data;
              c->l->tlsImage.assign(c->l->tls, c->l->tls + ph.p_memsz);
            }
          }
          return 1;
        },
        &ctx);
    libs.push_back(std::move(l));
  }
}

void Reset(int n, const std::vector<uint32_t>& ips, uint64_t seed) {
  gIps = ips;
  W.conns.clear();
  W.listeners.clear();
  W.nodes.clear();
  W.nodes.resize(n);
  W.res = RunResult();
  W.progress = 0;
  W.seq = 0;
  W.time = W.clockCalls = 0;
  W.traceText.clear();
  for (int i = 0; i < n; i++) {
    Node& x = W.nodes[i];
    x.id = i;
    x.st = NS_PARKED;
    x.op = OP_START;
    x.parkSeq = ++W.seq;
    x.exitCode = -1;
    x.sleptBefore = false;
    x.expired = false;
    x.touched = true;
    x.ready = false;
    x.sleepProg = x.lastSleepProg = 0;
    x.hist = i + 1;
    x.nops = 0;
    x.eofReads = 0;
    x.vc.assign(n <= kClockNodes ? n : 0, 0);
    x.rng = seed * 1000003 + i * 7919 + 12345;
    x.randPos = x.keyPos = x.uniPos = x.bufPos = 0;
    x.bufCalls = 0;
    x.out.clear();
    x.crypto.clear();
    x.keyBound = 0;
    x.seeded = false;
    x.streamPos = 0;
    SeedRand(x, 1);
  }
}

static bool EnabledNow(Node& n) {
  switch (n.op) {
    case OP_START:
    case OP_CONNECT:
      return true;
    case OP_ACCEPT: {
      Listener* l = MyListener(n.id, n.opFd);
      return l && !l->pending.empty();
    }
    case OP_READ: {
      bool must;
      return FdReadable(n.id, n.opFd, &must);
    }
    case OP_POLL: {
      if (n.opTimeout >= 0) return true;  // a timed poll may always expire
      for (size_t i = 0; i < n.opN; i++) {
        bool must;
        if (n.opPoll[i].fd >= 0 && (n.opPoll[i].events & POLLIN) && FdReadable(n.id, n.opPoll[i].fd, &must)) return true;
        if (n.opPoll[i].fd >= 0 && (n.opPoll[i].events & POLLOUT) && FdWritable(n.id, n.opPoll[i].fd)) return true;
      }
      return false;
    }
    case OP_SENDFULL: {
      Fd& f = n.fds[n.opFd - 3];
      Chan& c = Out(f);
      return c.rclosed || c.data.size() - c.consumed < W.set.cap;
    }
    default:
      return false;
  }
}

static bool Enabled(Node& n) {
  if (n.touched) {
    n.ready = EnabledNow(n);
    n.touched = false;
  }
  return n.ready;
}

void Run(const std::vector<std::vector<std::string>>& args, bool useProg) {
  gArgs = args;
  gProg = useProg;
  nextDev = 0;
  W.res.altBase = 0;
  int N = W.nodes.size();
  int lateFor = W.set.lateFor;
  uint64_t idle = 0;  // progress of the others while they wait by polling is bounded as well
  vmc_arena_reset();
  for (int i = 0; i < N; i++) {
    for (auto& im : libs[i].image) memcpy(im.first, im.second.data(), im.second.size());
    if (libs[i].tls) memcpy(libs[i].tls, libs[i].tlsImage.data(), libs[i].tlsImage.size());
    InitFiber(i);
  }
  std::vector<int> run;  // ids of the runnable nodes
  for (;;) {
    // run every node that is not at an observation point
    for (int i : run) {
      ToNode(i);
      if (W.res.pruned || W.res.horizon) return;
    }
    run.clear();
    if (lateFor > 0 && ++idle > 100000) lateFor = 0;
    std::vector<Node*> en, sl;
    for (Node& n : W.nodes) {
      if (n.st != NS_PARKED) continue;
      if (lateFor > 0 && n.id == W.set.lateNode && n.nops >= W.set.lateOp) continue;  // stands still
      if (n.op == OP_SLEEP || ((n.op == OP_READ || n.op == OP_ACCEPT) && n.fds[n.opFd - 3].timed && !Enabled(n))) sl.push_back(&n);
      else if (Enabled(n)) en.push_back(&n);
    }
    if (en.empty()) {
      // time passes: wake sleepers, unless the world has not moved since each of them last woke up
      for (Node* n : sl)
        if (lateFor > 0 || n->lastSleepProg != W.progress) en.push_back(n);
      if (lateFor > 0) {
        if (!sl.empty() && --lateFor) {
          // all of them wake up, then time passes again
          for (Node* n : sl) n->expired = n->op != OP_SLEEP, n->st = NS_RUNNABLE, run.push_back(n->id);
        } else {
          lateFor = 0;
        }
        continue;
      }
      if (en.empty()) {
        bool alive = false;
        for (Node& n : W.nodes)
          if (n.st == NS_PARKED) alive = true;
        W.res.deadlock = alive;
        return;
      }
    }
    int pol = W.set.sched, arg = W.set.schedArg;
    auto before = [&](Node* a, Node* b) {
      if (pol == SP_SLOW && (a->id == arg) != (b->id == arg)) return b->id == arg;
      if (pol == SP_FAST && (a->id == arg) != (b->id == arg)) return a->id == arg;
      if (pol == SP_LOW) return a->id < b->id;
      if (pol == SP_HIGH) return a->id > b->id;
      if (pol == SP_LIFO) return a->parkSeq > b->parkSeq;
      return a->parkSeq < b->parkSeq;
    };
    int k = 0;
    if (W.set.devSched) {
      std::sort(en.begin(), en.end(), before);
      k = Choose(0, 0, en.size());
    } else {
      std::iter_swap(en.begin(), std::min_element(en.begin(), en.end(), before));
    }
    if (W.res.pruned) return;
    Node* n = en[k];
    // LIFO/LOW/FAST could starve others behind a polling loop; polls with timeout 0 are bounded by the code's
    // own sends, and timed polls re-park with a fresh sequence number, so FIFO stays fair.
    n->st = NS_RUNNABLE;
    run.push_back(n->id);
    if (n->op != OP_SLEEP && !Enabled(*n)) {
      n->expired = true;
      n->lastSleepProg = W.progress;
    }
    if (n->op == OP_START) Trace("n%d starts", n->id);
  }
}

}  // namespace vmc

// The clock of every process: real, unless its world is a timed one.
extern "C" int clock_gettime(clockid_t id, struct timespec* t) noexcept {
  using vmc::W;
  if (vmc::cur < 0 || !W.timed) return syscall(SYS_clock_gettime, id, t);
  uint64_t us = W.time * W.set.tick * 1000 + ++W.clockCalls;
  t->tv_sec = 1000 + us / 1000000;
  t->tv_nsec = us % 1000000 * 1000;
  return 0;
}
