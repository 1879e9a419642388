// Worker process driven by the Python property checks (one line per request on
// fd 0, one line per answer on fd 1).  It calls only functions that the public
// headers of the library declare.  Every operation on library code runs in a
// forked child, so that a crash, a hang or leftover state stays confined; the
// two parties of a protocol run in two children joined by a relay in this
// process, which records, fragments, delays or cuts the byte streams.
#include <errno.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <openssl/rsa.h>
#include <malloc.h>
#include <poll.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <linux/sockios.h>
#include <time.h>
#include <unistd.h>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <openssl/bn.h>
#include <openssl/rand.h>
#include "crypto/BN.h"
#include "crypto/OT.h"
#include "crypto/OT_extension.h"
#include "crypto/aes.h"
#include "crypto/block.h"
#include "garbled_circuit/garbled_circuit.h"
#include "scd/scd.h"
#include "scd/scd_evaluator.h"
#include "scd/v_2_scd.h"
#include "tcpip/tcpip.h"
#include "util/common.h"
#include "util/log.h"
#include "util/util.h"

#if defined(__SANITIZE_ADDRESS__)
#define VP_ASAN 1
#else
#define VP_ASAN 0
#endif

typedef std::map<std::string, std::string> Msg;

static std::string Enc(const std::string& s) {
  std::string r;
  r.reserve(s.size());
  for (unsigned char c : s) {
    if (c == '%' || c == '\t' || c == '\n' || c == '\r' || c == '=' || c == '|') {
      char b[4];
      snprintf(b, sizeof b, "%%%02X", c);
      r += b;
    } else {
      r += (char) c;
    }
  }
  return r;
}
static std::string Dec(const std::string& s) {
  std::string r;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == '%' && i + 2 < s.size() + 0 + 1 && i + 2 <= s.size() - 1) {
      r += (char) strtol(s.substr(i + 1, 2).c_str(), nullptr, 16);
      i += 2;
    } else {
      r += s[i];
    }
  }
  return r;
}
static std::vector<std::string> Split(const std::string& s, char c) {
  std::vector<std::string> r;
  std::string cur;
  for (char ch : s) {
    if (ch == c) { r.push_back(cur); cur.clear(); } else cur += ch;
  }
  r.push_back(cur);
  return r;
}
static Msg ParseMsg(const std::string& line) {
  Msg m;
  for (const std::string& f : Split(line, '\t')) {
    size_t e = f.find('=');
    if (e != std::string::npos) m[f.substr(0, e)] = Dec(f.substr(e + 1));
  }
  return m;
}
static std::string FmtMsg(const Msg& m) {
  std::string r;
  for (const auto& kv : m) {
    if (!r.empty()) r += '\t';
    r += kv.first + "=" + Enc(kv.second);
  }
  return r;
}
static std::string Get(const Msg& m, const std::string& k, const std::string& d = "") {
  auto it = m.find(k);
  return it == m.end() ? d : it->second;
}
static long long GetI(const Msg& m, const std::string& k, long long d = 0) {
  auto it = m.find(k);
  return it == m.end() || it->second.empty() ? d : strtoll(it->second.c_str(), nullptr, 10);
}
static std::string Hex(const std::string& s) {
  static const char* d = "0123456789abcdef";
  std::string r;
  r.reserve(s.size() * 2);
  for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
  return r;
}
static std::string UnHex(const std::string& s) {
  std::string r;
  for (size_t i = 0; i + 1 < s.size(); i += 2)
    r += (char) strtol(s.substr(i, 2).c_str(), nullptr, 16);
  return r;
}
static std::string I2S(long long v) { return std::to_string(v); }

// ---------------------------------------------------------------- random source
static uint64_t det_state[2];
static uint64_t SplitMix(uint64_t* s) {
  uint64_t z = (*s += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}
static int DetBytes(unsigned char* buf, int num) {
  for (int i = 0; i < num;) {
    uint64_t v = SplitMix(&det_state[0]);
    for (int j = 0; j < 8 && i < num; j++, i++) buf[i] = (unsigned char) (v >> (8 * j));
  }
  return 1;
}
static int DetSeed(const void*, int) { return 1; }
static int DetAdd(const void*, int, double) { return 1; }
static int DetStatus() { return 1; }
static RAND_METHOD det_method = { DetSeed, DetBytes, nullptr, DetAdd, DetBytes, DetStatus };

struct PartyCfg {
  uint64_t rng_seed = 1;   // 0: operating system randomness
  unsigned srand_seed = 1;
  int perturb = 0;
  long itimer_us = 0;
  uint64_t short_writes = 0;
};

static void __attribute__((noinline)) FillStack(int v) {
  volatile char buf[96 * 1024];
  for (size_t i = 0; i < sizeof buf; i++) buf[i] = (char) v;
}
static void OnAlarm(int) {}

#ifdef VP_HEAP
// every allocation of the process is counted
#include <malloc.h>
extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
static long heap_now, heap_peak;
static int heap_fd = -1;         // the peak counts from the first byte on this stream
static void* HeapAdd(void* p) {
  if (p) heap_now += (long) malloc_usable_size(p) + 8;
  if (heap_now > heap_peak) heap_peak = heap_now;
  return p;
}
static void HeapSub(void* p) {
  if (p) heap_now -= (long) malloc_usable_size(p) + 8;
}
void* malloc(size_t n) { return HeapAdd(__libc_malloc(n)); }
void* calloc(size_t a, size_t b) { return HeapAdd(__libc_calloc(a, b)); }
void* realloc(void* p, size_t n) {
  HeapSub(p);
  void* q = __libc_realloc(p, n);
  if (!q && n) HeapAdd(p);
  return HeapAdd(q);
}
void* memalign(size_t a, size_t n) { return HeapAdd(__libc_memalign(a, n)); }
void* aligned_alloc(size_t a, size_t n) { return HeapAdd(__libc_memalign(a, n)); }
int posix_memalign(void** p, size_t a, size_t n) {
  *p = HeapAdd(__libc_memalign(a, n));
  return *p ? 0 : 12;
}
void free(void* p) {
  HeapSub(p);
  __libc_free(p);
}
}
static void Begins(int fd) {
  if (fd != heap_fd) return;
  heap_fd = -1;
  heap_peak = heap_now;
}
extern "C" ssize_t read(int fd, void* b, size_t n) {
  typedef ssize_t (*F)(int, void*, size_t);
  static F real = (F) dlsym(RTLD_NEXT, "read");
  Begins(fd);
  return real(fd, b, n);
}
#else
static void Begins(int) {}
#endif

// Within a party, a write to the stream may take fewer bytes than it was given, as the kernel may.
static uint64_t short_writes = 0;
static uint64_t SplitMix(uint64_t* s);
static size_t ShortLen(int fd, size_t n) {
  if (short_writes == 0 || n < 2) return n;
  int ty;
  socklen_t l = sizeof ty;
  if (getsockopt(fd, SOL_SOCKET, SO_TYPE, &ty, &l) != 0) return n;
  uint64_t v = SplitMix(&short_writes);
  if (v & 1) return n;
  v >>= 1;
  return n > 4096 && (v & 1) ? n - 1 - (v >> 1) % (n / 4) : 1 + (v >> 1) % (n - 1);
}
extern "C" ssize_t write(int fd, const void* b, size_t n) {
  typedef ssize_t (*F)(int, const void*, size_t);
  static F real = (F) dlsym(RTLD_NEXT, "write");
  Begins(fd);
  return real(fd, b, ShortLen(fd, n));
}
extern "C" ssize_t send(int fd, const void* b, size_t n, int fl) {
  typedef ssize_t (*F)(int, const void*, size_t, int);
  static F real = (F) dlsym(RTLD_NEXT, "send");
  Begins(fd);
  return real(fd, b, ShortLen(fd, n), fl);
}

static void SetupChild(const PartyCfg& c) {
  short_writes = c.short_writes;
  signal(SIGPIPE, SIG_IGN);
  struct rlimit rl = { 30, 35 };
  setrlimit(RLIMIT_CPU, &rl);
  rl.rlim_cur = rl.rlim_max = 0;
  setrlimit(RLIMIT_CORE, &rl);
  if (!VP_ASAN) {
    rl.rlim_cur = rl.rlim_max = (rlim_t) 4 << 30;
    setrlimit(RLIMIT_AS, &rl);
  }
  if (c.rng_seed) {
    det_state[0] = c.rng_seed * 0x2545F4914F6CDD1DULL + 12345;
    RAND_set_rand_method(&det_method);
  }
  srand(c.srand_seed);
  SrandSSE(c.srand_seed);
  HashInit();
  if (c.itimer_us) {
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = OnAlarm;
    sa.sa_flags = SA_RESTART;
    sigaction(SIGALRM, &sa, nullptr);
    struct itimerval it;
    it.it_interval.tv_sec = it.it_value.tv_sec = 0;
    it.it_interval.tv_usec = it.it_value.tv_usec = c.itimer_us;
    setitimer(ITIMER_REAL, &it, nullptr);
  }
  if (c.perturb) {
    if (!VP_ASAN) mallopt(M_PERTURB, c.perturb);
    FillStack(c.perturb);
  }
}

static void WriteAll(int fd, const std::string& s) {
  size_t o = 0;
  while (o < s.size()) {
    ssize_t n = write(fd, s.data() + o, s.size() - o);
    if (n <= 0) { if (errno == EINTR) continue; break; }
    o += n;
  }
}

typedef std::function<Msg(int fd)> PartyFn;

struct Child {
  pid_t pid = -1;
  int res_fd = -1;
  std::string res;
  bool alive = false;
  std::string st;
};

static double Now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}


// what a library call takes: heap still in use after it, highest use during it, descriptors still open
struct Meter {
  long h0 = 0, kept = 0, peak = 0;
  int f0 = 0, fds = 0;
  static int Fds() {
    int n = 0;
    for (int i = 0; i < 512; i++) n += fcntl(i, F_GETFD) != -1;
    return n;
  }
  static long Of(const std::string& s) {
#ifdef VP_HEAP
    const char* p = s.data();
    if (p >= (const char*) &s && p < (const char*) (&s + 1)) return 0;
    return (long) malloc_usable_size((void*) p) + 8;
#else
    return 0;
#endif
  }
  void Start(int fd = -1) {
#ifdef VP_HEAP
    heap_fd = fd;
    f0 = Fds();
    h0 = heap_peak = heap_now;
#endif
  }
  void Stop() {
#ifdef VP_HEAP
    peak = heap_peak - h0;
    kept = heap_now - h0;
    fds = Fds() - f0;
#endif
  }
};

static Child Spawn(const PartyFn& fn, int fd, const std::vector<int>& close_fds, const PartyCfg& cfg) {
  Child c;
  int p[2];
  if (pipe2(p, O_CLOEXEC) != 0) abort();
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    for (int x : close_fds) close(x);
    SetupChild(cfg);
    Msg m = fn(fd);
    struct itimerval it;
    memset(&it, 0, sizeof it);
    setitimer(ITIMER_REAL, &it, nullptr);
    short_writes = 0;
    if (fd >= 0) close(fd);
    WriteAll(p[1], FmtMsg(m) + "\n");
    _exit(0);
  }
  close(p[1]);
  c.pid = pid;
  c.res_fd = p[0];
  c.alive = true;
  fcntl(c.res_fd, F_SETFL, O_NONBLOCK);
  return c;
}

static void DrainRes(Child* c) {
  char buf[65536];
  while (c->res_fd >= 0) {
    ssize_t n = read(c->res_fd, buf, sizeof buf);
    if (n > 0) { c->res.append(buf, n); continue; }
    if (n == 0) { close(c->res_fd); c->res_fd = -1; }
    break;
  }
}

static void Reap(Child* c, bool block) {
  if (!c->alive) return;
  int status;
  pid_t r = waitpid(c->pid, &status, block ? 0 : WNOHANG);
  if (r != c->pid) return;
  c->alive = false;
  DrainRes(c);
  if (c->res_fd >= 0) { close(c->res_fd); c->res_fd = -1; }
  if (!c->st.empty()) return;
  if (WIFSIGNALED(status)) {
    int s = WTERMSIG(status);
    c->st = s == SIGXCPU ? "cpu" : "crash:" + std::to_string(s);
  } else if (c->res.empty() || c->res.back() != '\n') {
    c->st = "exit:" + std::to_string(WEXITSTATUS(status));
  } else {
    c->st = "ok";
  }
}

static void KillChild(Child* c, const std::string& st) {
  if (!c->alive) return;
  c->st = st;
  kill(c->pid, SIGKILL);
  Reap(c, true);
}

// state letter and consumed cpu ticks
static bool ProcStat(pid_t pid, char* state, long* ticks) {
  char path[64], buf[1024];
  snprintf(path, sizeof path, "/proc/%d/stat", (int) pid);
  int fd = open(path, O_RDONLY);
  if (fd < 0) return false;
  ssize_t n = read(fd, buf, sizeof buf - 1);
  close(fd);
  if (n <= 0) return false;
  buf[n] = 0;
  char* q = strrchr(buf, ')');
  if (!q) return false;
  unsigned long ut, st;
  if (sscanf(q + 2, "%c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", state, &ut, &st) != 3) return false;
  *ticks = (long) (ut + st);
  return true;
}

struct Link {       // one direction
  int from = -1, to = -1;
  std::string rec;  // everything read from the sender
  size_t sent = 0;  // how much of it was passed on
  long cut = -1;    // cut when this many bytes were passed on
  bool eof = false;
};

static void AddParty(Msg* out, const std::string& p, const Child& c) {
  (*out)[p + ".st"] = c.st;
  if (c.st == "ok") {
    std::string s = c.res.substr(0, c.res.size() - 1);
    Msg m = ParseMsg(s);
    for (const auto& kv : m) (*out)[p + "." + kv.first] = kv.second;
  }
}

static const double kWallCap = 150.0;

static Msg RunTwo(const PartyFn& fa, const PartyFn& fb, const PartyCfg& ca, const PartyCfg& cb, const Msg& req) {
  int sa[2], sb[2];
  if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sa) || socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sb)) abort();
  long sndbuf = GetI(req, "sndbuf");
  if (sndbuf) {
    int v = (int) sndbuf;
    setsockopt(sa[1], SOL_SOCKET, SO_SNDBUF, &v, sizeof v);
    setsockopt(sb[1], SOL_SOCKET, SO_SNDBUF, &v, sizeof v);
  }
  Child A = Spawn(fa, sa[1], { sa[0], sb[0], sb[1] }, ca);
  Child B = Spawn(fb, sb[1], { sa[0], sa[1], sb[0], A.res_fd }, cb);
  close(sa[1]);
  close(sb[1]);
  int fdA = sa[0], fdB = sb[0];
  fcntl(fdA, F_SETFL, O_NONBLOCK);
  fcntl(fdB, F_SETFL, O_NONBLOCK);
  Link ab, ba;
  ab.cut = GetI(req, "cutAB", -1);
  ba.cut = GetI(req, "cutBA", -1);
  uint64_t frag = (uint64_t) GetI(req, "frag", 0);
  long maxfrag = GetI(req, "maxfrag", 64);
  uint64_t fs = frag;
  bool cut_done = false;
  bool half = GetI(req, "half", 0) != 0;  // only the one direction ends, the other one stays open
  bool half_done = false;
  double t0 = Now();
  int idle = 0;
  long ticks_prev = -1;
  char buf[65536];
  double idle_since = 0;
  auto closeAll = [&]() {
    if (fdA >= 0) { close(fdA); fdA = -1; }
    if (fdB >= 0) { close(fdB); fdB = -1; }
  };
  while (A.alive || B.alive) {
    struct pollfd pf[4];
    int n = 0;
    int ia = -1, ib = -1, ra = -1, rb = -1;
    if (fdA >= 0 && !ab.eof) { pf[n].fd = fdA; pf[n].events = POLLIN; pf[n].revents = 0; ia = n++; }
    if (fdB >= 0 && !ba.eof) { pf[n].fd = fdB; pf[n].events = POLLIN; pf[n].revents = 0; ib = n++; }
    if (A.res_fd >= 0) { pf[n].fd = A.res_fd; pf[n].events = POLLIN; pf[n].revents = 0; ra = n++; }
    if (B.res_fd >= 0) { pf[n].fd = B.res_fd; pf[n].events = POLLIN; pf[n].revents = 0; rb = n++; }
    bool pending = ab.sent < ab.rec.size() || ba.sent < ba.rec.size();
    int pr = poll(pf, n, pending ? 0 : 10);
    bool moved = false;
    if (pr > 0) {
      if (ia >= 0 && pf[ia].revents) {
        ssize_t k = read(fdA, buf, sizeof buf);
        if (k > 0) { ab.rec.append(buf, k); moved = true; }
        else if (k == 0 || (errno != EAGAIN && errno != EINTR)) { ab.eof = true; moved = true; }
      }
      if (ib >= 0 && pf[ib].revents) {
        ssize_t k = read(fdB, buf, sizeof buf);
        if (k > 0) { ba.rec.append(buf, k); moved = true; }
        else if (k == 0 || (errno != EAGAIN && errno != EINTR)) { ba.eof = true; moved = true; }
      }
      if (ra >= 0 && pf[ra].revents) { DrainRes(&A); moved = true; }
      if (rb >= 0 && pf[rb].revents) { DrainRes(&B); moved = true; }
    }
    if (A.alive && A.res_fd < 0) Reap(&A, true);
    if (B.alive && B.res_fd < 0) Reap(&B, true);
    bool stalled = false;
    auto pass = [&](Link& l, int to, bool alive_to) {
      if (half_done && l.cut >= 0) l.sent = l.rec.size();  // lost
      while (to >= 0 && l.sent < l.rec.size() && !cut_done) {
        size_t k = l.rec.size() - l.sent;
        if (frag) {
          int q = 0;
          if (alive_to && ioctl(to, SIOCOUTQ, &q) == 0 && q > 0) { stalled = true; break; }
          size_t mx = 1 + SplitMix(&fs) % (uint64_t) maxfrag;
          if (k > mx) k = mx;
        }
        if (l.cut >= 0 && (long) (l.sent + k) > l.cut) k = l.cut - l.sent;
        if (k == 0) break;
        ssize_t w = send(to, l.rec.data() + l.sent, k, MSG_NOSIGNAL);
        if (w > 0) { l.sent += w; moved = true; if (frag) break; }
        else if (w < 0 && (errno == EAGAIN || errno == EINTR)) { stalled = true; break; }
        else { l.sent = l.rec.size(); break; }  // receiver is gone
      }
    };
    pass(ab, fdB, B.alive);
    pass(ba, fdA, A.alive);
    if (half) {
      if (!half_done && ((ab.cut >= 0 && (long) ab.sent >= ab.cut) || (ba.cut >= 0 && (long) ba.sent >= ba.cut))) {
        half_done = moved = true;
        int to = ab.cut >= 0 ? fdB : fdA;
        if (to >= 0) shutdown(to, SHUT_WR);
      }
    } else if (!cut_done && ((ab.cut >= 0 && (long) ab.sent >= ab.cut) || (ba.cut >= 0 && (long) ba.sent >= ba.cut))) {
      cut_done = true;
      closeAll();
      moved = true;
    }
    // end of stream is passed on once everything before it was delivered
    if (fdB >= 0 && ab.eof && ab.sent >= ab.rec.size()) { shutdown(fdB, SHUT_WR); }
    if (fdA >= 0 && ba.eof && ba.sent >= ba.rec.size()) { shutdown(fdA, SHUT_WR); }
    if (ab.eof && fdA >= 0 && !A.alive) { /* keep fdA for buffered writes to fail quietly */ }
    // a party that is gone breaks the pipe of the other one as TCP would
    if (!A.alive && ab.eof && fdA >= 0 && ab.sent >= ab.rec.size() && fdB >= 0) shutdown(fdB, SHUT_RDWR);
    if (!B.alive && ba.eof && fdB >= 0 && ba.sent >= ba.rec.size() && fdA >= 0) shutdown(fdA, SHUT_RDWR);
    if (stalled && !moved) usleep(15);
    if (!moved && pr == 0 && !stalled) {
      bool sleeping = true;
      long ticks = 0;
      for (Child* c : { &A, &B }) {
        if (!c->alive) continue;
        char s;
        long t;
        if (!ProcStat(c->pid, &s, &t) || s != 'S') { sleeping = false; break; }
        ticks += t;
      }
      int q1 = 0, q2 = 0;
      if (fdA >= 0) ioctl(fdA, SIOCOUTQ, &q1);
      if (fdB >= 0) ioctl(fdB, SIOCOUTQ, &q2);
      if (sleeping && q1 == 0 && q2 == 0 && ticks == ticks_prev) {
        if (idle++ == 0) idle_since = Now();
      } else {
        idle = 0;
      }
      ticks_prev = ticks;
      if (idle > 60 && Now() - idle_since > 1.5) {
        KillChild(&A, "hang");
        KillChild(&B, "hang");
      }
    } else if (moved) {
      idle = 0;
    }
    if (Now() - t0 > kWallCap) {
      KillChild(&A, "timeout");
      KillChild(&B, "timeout");
    }
  }
  // collect what is still in the sockets
  for (int d = 0; d < 2; d++) {
    int f = d ? fdB : fdA;
    Link& l = d ? ba : ab;
    while (f >= 0) {
      ssize_t k = read(f, buf, sizeof buf);
      if (k <= 0) break;
      l.rec.append(buf, k);
    }
  }
  closeAll();
  Msg out;
  AddParty(&out, "A", A);
  AddParty(&out, "B", B);
  out["lenAB"] = I2S(ab.rec.size());
  out["lenBA"] = I2S(ba.rec.size());
  if (GetI(req, "rec")) {
    out["AB"] = Hex(ab.rec);
    out["BA"] = Hex(ba.rec);
  }
  return out;
}

static Msg RunOne(const PartyFn& f, const PartyCfg& cfg) {
  Child c = Spawn(f, -1, {}, cfg);
  double t0 = Now();
  int idle = 0;
  double idle_since = 0;
  while (c.alive) {
    struct pollfd pf = { c.res_fd, POLLIN, 0 };
    int pr = poll(&pf, 1, 10);
    if (pr > 0) DrainRes(&c);
    if (c.res_fd < 0) Reap(&c, true);
    if (c.alive && pr == 0) {
      char s;
      long t;
      if (ProcStat(c.pid, &s, &t) && s == 'S') { if (idle++ == 0) idle_since = Now(); } else idle = 0;
      if (idle > 60 && Now() - idle_since > 3) KillChild(&c, "hang");
    }
    if (Now() - t0 > kWallCap) KillChild(&c, "timeout");
  }
  Msg out;
  AddParty(&out, "r", c);
  return out;
}

static PartyCfg Cfg(const Msg& r, const std::string& p) {
  PartyCfg c;
  c.rng_seed = (uint64_t) GetI(r, "rng" + p, 1);
  c.srand_seed = (unsigned) GetI(r, "srand" + p, 1);
  c.perturb = (int) GetI(r, "perturb" + p, GetI(r, "perturb", 0));
  c.itimer_us = GetI(r, "itimer", 0);
  c.short_writes = (uint64_t) GetI(r, "shortw", 0);
  return c;
}

// ---------------------------------------------------------------------- gc runs
static Msg OpGC(const Msg& r) {
  auto mk = [&](bool alice) -> PartyFn {
    return [&r, alice](int fd) {
      std::string p = alice ? "A" : "B";
      std::string out = "<unset>";
      auto f = alice ? GarbleStr : EvaluateStr;
      int rc = f(Get(r, "scd" + p, Get(r, "scd")), Get(r, "pinit" + p, Get(r, "pinit")), Get(r, "pinput" + p, Get(r, "pinput")),
                 Get(r, "init" + p), Get(r, "input" + p), (uint64_t) strtoull(Get(r, "cycles" + p, Get(r, "cycles")).c_str(), nullptr, 10),
                 Get(r, "mask" + p, Get(r, "mask")), GetI(r, "term" + p, GetI(r, "term")),
                 (OutputMode) GetI(r, "mode" + p, GetI(r, "mode")), GetI(r, "noot") != 0, GetI(r, "low") != 0, &out, fd);
      Msg m;
      m["rc"] = I2S(rc);
      m["out"] = out;
      return m;
    };
  };
  return RunTwo(mk(true), mk(false), Cfg(r, "A"), Cfg(r, "B"), r);
}

// one party alone against a closed / recorded peer: used for refusal checks
static Msg OpSolo(const Msg& r) {
  bool alice = Get(r, "party") == "A";
  PartyFn idle = [](int fd) {
    // swallow everything until the other side closes
    char b[4096];
    long n = 0;
    ssize_t k;
    while ((k = read(fd, b, sizeof b)) > 0) n += k;
    Msg m;
    m["n"] = I2S(n);
    return m;
  };
  PartyFn f = [&r, alice](int fd) {
    std::string out = "<unset>";
    auto g = alice ? GarbleStr : EvaluateStr;
    int rc = g(Get(r, "scd"), Get(r, "pinit"), Get(r, "pinput"), Get(r, "init"), Get(r, "input"),
               (uint64_t) strtoull(Get(r, "cycles").c_str(), nullptr, 10), Get(r, "mask"), GetI(r, "term"),
               (OutputMode) GetI(r, "mode"), GetI(r, "noot") != 0, GetI(r, "low") != 0, &out, fd);
    Msg m;
    m["rc"] = I2S(rc);
    m["out"] = out;
    return m;
  };
  return alice ? RunTwo(f, idle, Cfg(r, "A"), Cfg(r, "B"), r) : RunTwo(idle, f, Cfg(r, "A"), Cfg(r, "B"), r);
}

static Msg OpPlain(const Msg& r) {
  return RunOne([&r](int) {
    std::string out = "<unset>";
    int rc = EvalauatePlaintextStr(Get(r, "scd"), Get(r, "pinit"), Get(r, "ginit"), Get(r, "einit"), Get(r, "pinput"),
                                   Get(r, "ginput"), Get(r, "einput"),
                                   (uint64_t) strtoull(Get(r, "cycles").c_str(), nullptr, 10), GetI(r, "term"),
                                   (OutputMode) GetI(r, "mode"), &out);
    Msg m;
    m["rc"] = I2S(rc);
    m["out"] = out;
    return m;
  }, Cfg(r, "A"));
}

// ------------------------------------------------------------------------- scd
static Msg OpTrans(const Msg& r) {
  return RunOne([&r](int) {
    Msg m;
    auto f = Get(r, "kind") == "bris" ? Bris2SCD : Verilog2SCD;
    m["rc"] = I2S(f(Get(r, "in"), Get(r, "map"), Get(r, "out")));
    return m;
  }, Cfg(r, "A"));
}
static Msg OpReadSCD(const Msg& r) {
  return RunOne([&r](int) {
    Msg m;
    GarbledCircuit g;
    memset(&g, 0x5a, sizeof g);
    int rc = ReadSCD(Get(r, "scd"), &g);
    m["rc"] = I2S(rc);
    if (rc == SUCCESS) {
      std::ostringstream o;
      o << g.p_init_size << " " << g.g_init_size << " " << g.e_init_size << " " << g.p_input_size << " "
        << g.g_input_size << " " << g.e_input_size << " " << g.dff_size << " " << g.output_size << " "
        << g.terminate_id << " " << g.gate_size;
      m["head"] = o.str();
      o.str("");
      for (uint64_t i = 0; i < g.gate_size; i++)
        o << g.garbledGates[i].input0 << "," << g.garbledGates[i].input1 << "," << g.garbledGates[i].type << ","
          << g.garbledGates[i].output << " ";
      m["gates"] = o.str();
      o.str("");
      for (uint64_t i = 0; i < g.output_size; i++) o << g.outputs[i] << " ";
      m["outputs"] = o.str();
      o.str("");
      for (uint64_t i = 0; i < g.dff_size; i++) o << g.D[i] << "," << g.I[i] << " ";
      m["dffs"] = o.str();
    }
    return m;
  }, Cfg(r, "A"));
}
static std::vector<long long> Ints(const std::string& s) {
  std::vector<long long> v;
  std::istringstream in(s);
  long long x;
  while (in >> x) v.push_back(x);
  return v;
}
static Msg OpWriteSCD(const Msg& r) {
  return RunOne([&r](int) {
    Msg m;
    ReadCircuit c;
    auto h = Ints(Get(r, "head"));
    c.p_init_size = h[0]; c.g_init_size = h[1]; c.e_init_size = h[2];
    c.p_input_size = h[3]; c.g_input_size = h[4]; c.e_input_size = h[5];
    c.dff_size = h[6]; c.output_size = h[7]; c.terminate_id = h[8]; c.gate_size = h[9];
    auto i0 = Ints(Get(r, "in0")), i1 = Ints(Get(r, "in1")), ty = Ints(Get(r, "type")), od = Ints(Get(r, "order")),
        ou = Ints(Get(r, "outputs")), d = Ints(Get(r, "D")), i = Ints(Get(r, "I"));
    for (size_t k = 0; k < i0.size(); k++) {
      ReadGate g;
      g.input[0] = i0[k]; g.input[1] = i1[k]; g.type = (short) ty[k]; g.output = 0;
      c.gate_list.push_back(g);
    }
    for (long long x : od) c.task_schedule.push_back(x);
    for (long long x : ou) c.output_list.push_back((uint64_t) x);
    for (size_t k = 0; k < d.size(); k++) {
      ReadGate g;
      g.input[0] = d[k]; g.input[1] = i[k]; g.type = DFFGATE; g.output = 0;
      c.dff_list.push_back(g);
    }
    m["rc"] = I2S(WriteSCD(c, Get(r, "scd")));
    return m;
  }, Cfg(r, "A"));
}

// -------------------------------------------------------------------------- OT
static block Blk(const std::string& hex_le_bytes) {
  std::string b = UnHex(hex_le_bytes);
  b.resize(16, 0);
  block v;
  memcpy(&v, b.data(), 16);
  return v;
}
static std::string BlkHex(const block& b) { return Hex(std::string((const char*) &b, 16)); }
static std::string BNHex(const BIGNUM* b) {
  char* c = BN_bn2hex(b);
  std::string s = c;
  OPENSSL_free(c);
  if (BN_is_negative(b) && s[0] != '-') s = "-" + s;
  return s;
}

// The private exponents of the keys a party makes are noted, to look at a transcript as the owner of the key does.
static std::string rsa_log;
extern "C" int RSA_generate_key_ex(RSA* rsa, int bits, BIGNUM* e, BN_GENCB* cb) {
  typedef int (*F)(RSA*, int, BIGNUM*, BN_GENCB*);
  static F real = (F) dlsym(RTLD_NEXT, "RSA_generate_key_ex");
  int r = real(rsa, bits, e, cb);
#ifndef VP_HEAP
  if (r == 1) {
    const BIGNUM *n, *ee, *d;
    RSA_get0_key(rsa, &n, &ee, &d);
    rsa_log += (rsa_log.empty() ? "" : ",") + BNHex(n) + ":" + BNHex(d);
  }
#endif
  return r;
}

// kind: base | ext ; repr: block | bn ; m0/m1: comma lists of hex ; sel: 01 string
// one transfer; results of earlier transfers of the same kind and size are overwritten
struct OtStore {
  std::map<uint32_t, BIGNUM**> bn;
  BIGNUM** Get(uint32_t n) {
    BIGNUM**& v = bn[n];
    if (!v) {
      v = new BIGNUM*[n + 1];
      for (uint32_t i = 0; i < n; i++) {
        v[i] = BN_new();
        BN_hex2bn(&v[i], "0DEADBEEF00112233445566778899AABBCCDDEEFF");
        BN_add_word(v[i], i);
      }
    }
    return v;
  }
};
static int OtSendOne(int fd, const Msg& r, const std::string& k, Msg* m) {
  bool ext = Get(r, "kind" + k) == "ext", bn = Get(r, "repr" + k) == "bn";
  uint32_t bits = (uint32_t) GetI(r, "bits" + k, 128);
  auto m0 = Split(Get(r, "m0" + k), ','), m1 = Split(Get(r, "m1" + k), ',');
  if (Get(r, "m0" + k).empty()) { m0.clear(); m1.clear(); }
  uint32_t n = m0.size();
  int rc;
  if (!bn) {
    block* store = nullptr;
    if (posix_memalign((void**) &store, 16, sizeof(block) * (2 * n + 1))) abort();
    block** pp = new block*[n + 1];
    for (uint32_t i = 0; i < n; i++) {
      store[2 * i] = Blk(m0[i]);
      store[2 * i + 1] = Blk(m1[i]);
      pp[i] = store + 2 * i;
    }
    rc = ext ? OTExtSend(pp, n, fd) : OTSend(pp, n, fd);
    for (uint32_t i = 0; i < n; i++)
      if (BlkHex(store[2 * i]) != BlkHex(Blk(m0[i])) || BlkHex(store[2 * i + 1]) != BlkHex(Blk(m1[i]))) (*m)["clobber"] = "1";
    free(store);
    delete[] pp;
  } else {
    BIGNUM*** pp = new BIGNUM**[n + 1];
    for (uint32_t i = 0; i < n; i++) {
      pp[i] = new BIGNUM*[2];
      pp[i][0] = BN_new();
      pp[i][1] = BN_new();
      BN_hex2bn(&pp[i][0], m0[i].c_str());
      BN_hex2bn(&pp[i][1], m1[i].c_str());
    }
    rc = ext ? OTExtSendBN(pp, bits, n, fd) : OTSendBN(pp, n, fd);
    for (uint32_t i = 0; i < n; i++) {
      BIGNUM *a = nullptr, *b = nullptr;
      BN_hex2bn(&a, m0[i].c_str());
      BN_hex2bn(&b, m1[i].c_str());
      if (BN_cmp(a, pp[i][0]) || BN_cmp(b, pp[i][1])) (*m)["clobber"] = "1";
      BN_free(a);
      BN_free(b);
      BN_free(pp[i][0]);
      BN_free(pp[i][1]);
      delete[] pp[i];
    }
    delete[] pp;
  }
  return rc;
}
static int OtRecvOne(int fd, const Msg& r, const std::string& k, OtStore* st, std::string* out) {
  bool ext = Get(r, "kind" + k) == "ext", bn = Get(r, "repr" + k) == "bn";
  uint32_t bits = (uint32_t) GetI(r, "bits" + k, 128);
  std::string sel = Get(r, "sel" + k);
  uint32_t n = sel.size();
  int rc;
  if (!bn) {
    bool* s = new bool[n + 1];
    for (uint32_t i = 0; i < n; i++) s[i] = sel[i] == '1';
    block* v = nullptr;
    if (posix_memalign((void**) &v, 16, sizeof(block) * (n + 1))) abort();
    memset(v, 0xEE, sizeof(block) * (n + 1));
    rc = ext ? OTExtRecv(s, n, fd, v) : OTRecv(s, n, fd, v);
    for (uint32_t i = 0; i < n; i++) *out += (i ? "," : "") + BlkHex(v[i]);
    free(v);
    delete[] s;
  } else {
    BIGNUM* s = BN_new();
    for (uint32_t i = 0; i < n; i++) if (sel[i] == '1') BN_set_bit(s, i);
    BIGNUM** v = st->Get(n);
    std::vector<BIGNUM*> old(v, v + n);
    rc = ext ? OTExtRecvBN(s, bits, n, fd, v) : OTRecvBN(s, n, fd, v);
    for (uint32_t i = 0; i < n; i++) *out += (i ? "," : "") + BNHex(v[i]);
    for (uint32_t i = 0; i < n; i++)
      if (v[i] != old[i]) BN_free(old[i]);      // the library made its own
    BN_free(s);
#ifdef VP_HEAP
    for (uint32_t i = 0; i < n; i++) BN_free(v[i]);
    delete[] v;
    st->bn.clear();
#endif
  }
  return rc;
}
static Msg OpOT(const Msg& r) {
  PartyFn fs = [&](int fd) {
    Msg m;
    m["rc"] = I2S(OtSendOne(fd, r, "", &m));
    m["rsa"] = rsa_log;
    return m;
  };
  PartyFn fr = [&](int fd) {
    Msg m;
    OtStore st;
    std::string out;
    m["rc"] = I2S(OtRecvOne(fd, r, "", &st, &out));
    m["out"] = out;
    m["rsa"] = rsa_log;
    return m;
  };
  return RunTwo(fs, fr, Cfg(r, "A"), Cfg(r, "B"), r);
}
// several transfers over one connection; dirs: A or B (the sender) per transfer
static Msg OpOTSeq(const Msg& r) {
  std::string dirs = Get(r, "dirs");
  auto party = [&](char me) -> PartyFn {
    return [&r, dirs, me](int fd) {
      Msg m;
      OtStore st;
      std::string rcs;
      for (size_t i = 0; i < dirs.size(); i++) {
        std::string k = I2S(i), out;
        int rc = dirs[i] == me ? OtSendOne(fd, r, k, &m) : OtRecvOne(fd, r, k, &st, &out);
        rcs += (i ? "," : "") + I2S(rc);
        m["out" + k] = out;
        if (rc != SUCCESS) break;
      }
      m["rcs"] = rcs;
      m["rsa"] = rsa_log;
      return m;
    };
  };
  return RunTwo(party('A'), party('B'), Cfg(r, "A"), Cfg(r, "B"), r);
}

// party A takes the sender's part of the base transfers of several extended transfers and reports the rows it gets;
// party B is the library's receiver.  steps: number of transfers; selN: choices; SN: the sender's 128 secret bits
static Msg OpOTSpy(const Msg& r) {
  int steps = (int) GetI(r, "steps");
  PartyFn spy = [&](int fd) {
    Msg m;
    for (int k = 0; k < steps; k++) {
      uint32_t n = Get(r, "sel" + I2S(k)).size();
      BIGNUM *S = BN_new(), *y = BN_new(), *q[128];
      BN_hex2bn(&S, Get(r, "S" + I2S(k)).c_str());
      BN_set_word(y, 0x5A5A5A5A5A5A5A5AULL);
      for (int i = 0; i < 128; i++) q[i] = BN_new();
      int rc = OTRecvBN(S, 128, fd, q);
      m["rc" + I2S(k)] = I2S(rc);
      if (rc != SUCCESS) break;
      std::string o;
      for (int i = 0; i < 128; i++) o += (i ? "," : "") + BNHex(q[i]);
      m["q" + I2S(k)] = o;
      for (uint32_t i = 0; i < 2 * n; i++)
        if (SendBN(fd, y) != SUCCESS) break;
    }
    return m;
  };
  PartyFn lib = [&](int fd) {
    Msg m;
    for (int k = 0; k < steps; k++) {
      OtStore st;
      std::string out;
      int rc = OtRecvOne(fd, r, I2S(k), &st, &out);
      m["rc" + I2S(k)] = I2S(rc);
      if (rc != SUCCESS) break;
    }
    return m;
  };
  return RunTwo(spy, lib, Cfg(r, "A"), Cfg(r, "B"), r);
}

// a history of library calls in one process per party, over one connection.
// steps: one character each: g two-party run, o oblivious transfer, p plaintext run, v/b translation;
// dirs: the party that garbles / sends
static Msg OpSession(const Msg& r) {
  std::string steps = Get(r, "steps"), dirs = Get(r, "dirs");
  auto party = [&](char me) -> PartyFn {
    return [&r, steps, dirs, me](int fd) {
      Msg m;
      OtStore st;
      std::string rcs, kepts, peaks, fds, out = "<unset>";
      for (size_t i = 0; i < steps.size(); i++) {
        std::string k = I2S(i);
        auto G = [&](const std::string& n) {
          std::string v = Get(r, n + k);
          for (auto& c : v) if (c == '@') c = me;        // files of one party
          return v;
        };
        int rc = -1;
        Meter mt;
        long own = 0;
        std::string rs = std::string("reseed") + me + k;
        if (r.count(rs)) {
          uint64_t z = (uint64_t) GetI(r, rs);
          det_state[0] = z * 0x2545F4914F6CDD1DULL + 12345;
          srand((unsigned) z);
          SrandSSE((unsigned) z);
        }
        bool first = dirs[i] == me;
        uint64_t cyc = strtoull(G("cycles").c_str(), nullptr, 10);
        switch (steps[i]) {
          case 'g': {
            auto f = first ? GarbleStr : EvaluateStr;
            std::string w = first ? "g" : "e";
            std::string scd = G("scd"), pinit = G("pinit"), pinput = G("pinput"), init = G(w + "init"), input = G(w + "input"),
                        mask = G("mask");
            long term = GetI(r, "term" + k), mode = GetI(r, "mode" + k), noot = GetI(r, "noot" + k), low = GetI(r, "low" + k);
            own = Meter::Of(out);
            mt.Start(fd);
            rc = f(scd, pinit, pinput, init, input, cyc, mask, term, (OutputMode) mode, noot != 0, low != 0, &out, fd);
            mt.Stop();
            own = Meter::Of(out) - own;
            m["out" + k] = out;
            break;
          }
          case 'o': {
            std::string o;
            mt.Start();
            rc = first ? OtSendOne(fd, r, k, &m) : OtRecvOne(fd, r, k, &st, &o);
            mt.Stop();
            own = Meter::Of(o);
            m["out" + k] = o;
            break;
          }
          case 'p': {
            std::string a[] = {G("scd"), G("pinit"), G("ginit"), G("einit"), G("pinput"), G("ginput"), G("einput")};
            long term = GetI(r, "term" + k), mode = GetI(r, "mode" + k);
            own = Meter::Of(out);
            mt.Start();
            rc = EvalauatePlaintextStr(a[0], a[1], a[2], a[3], a[4], a[5], a[6], cyc, term, (OutputMode) mode, &out);
            mt.Stop();
            own = Meter::Of(out) - own;
            m["out" + k] = out;
            break;
          }
          case 'v':
          case 'b': {
            auto f = steps[i] == 'b' ? Bris2SCD : Verilog2SCD;
            std::string a[] = {G("in"), G("map"), G("to")};
            mt.Start();
            rc = f(a[0], a[1], a[2]);
            mt.Stop();
            break;
          }
        }
        rcs += (i ? "," : "") + I2S(rc);
        kepts += (i ? "," : "") + I2S(mt.kept - own);
        peaks += (i ? "," : "") + I2S(mt.peak);
        fds += (i ? "," : "") + I2S(mt.fds);
      }
      m["rcs"] = rcs;
      m["kepts"] = kepts;
      m["peaks"] = peaks;
      m["fds"] = fds;
      return m;
    };
  };
  return RunTwo(party('A'), party('B'), Cfg(r, "A"), Cfg(r, "B"), r);
}

// ------------------------------------------------------------------- transport
// script per party: space separated  s<len> (send) r<len> (receive) S<hex BN> R (BN)
static void Pattern(std::string* s, size_t len, uint64_t* st) {
  s->resize(len);
  for (size_t i = 0; i < len; i++) (*s)[i] = (char) SplitMix(st);
}
static Msg RunScript(int fd, const std::string& script, uint64_t seed) {
  std::ostringstream o;
  uint64_t st = seed;
  std::istringstream in(script);
  std::string tok;
  while (in >> tok) {
    char c = tok[0];
    std::string a = tok.substr(1);
    if (c == 's') {
      std::string d;
      size_t len = strtoul(a.c_str(), nullptr, 10);
      Pattern(&d, len, &st);
      o << "s" << SendData(fd, d.data(), (int) d.size()) << " ";
    } else if (c == 'r') {
      size_t len = strtoul(a.c_str(), nullptr, 10);
      std::string d(len + 32, (char) 0xA5);
      int rc = RecvData(fd, &d[16], (int) len);
      bool guard = true;
      for (int i = 0; i < 16; i++) guard = guard && (unsigned char) d[i] == 0xA5 && (unsigned char) d[16 + len + i] == 0xA5;
      o << "r" << rc << ":" << (rc == SUCCESS ? Hex(d.substr(16, len)) : "") << (guard ? "" : ":GUARD") << " ";
    } else if (c == 'S') {
      BIGNUM* b = BN_new();
      BN_hex2bn(&b, a.c_str());
      o << "S" << SendBN(fd, b) << " ";
      BN_free(b);
    } else if (c == 'R') {
      BIGNUM* b = BN_new();
      BN_hex2bn(&b, "DEADBEEF00112233445566778899AABBCCDDEEFF");
      int rc = RecvBN(fd, b);
      o << "R" << rc << ":" << (rc == SUCCESS ? BNHex(b) : "") << " ";
      BN_free(b);
    }
  }
  Msg m;
  m["log"] = o.str();
  return m;
}
static Msg OpXfer(const Msg& r) {
  return RunTwo([&r](int fd) { return RunScript(fd, Get(r, "scriptA"), (uint64_t) GetI(r, "patA", 7)); },
                [&r](int fd) { return RunScript(fd, Get(r, "scriptB"), (uint64_t) GetI(r, "patB", 9)); },
                Cfg(r, "A"), Cfg(r, "B"), r);
}

// server and client over loopback TCP
static bool Listening(int port) {
  FILE* f = fopen("/proc/net/tcp", "r");
  if (!f) return false;
  char line[512];
  bool ok = false;
  while (fgets(line, sizeof line, f)) {
    unsigned lp, st;
    if (sscanf(line, " %*d: %*8X:%X %*8X:%*X %X", &lp, &st) == 2 && (int) lp == port && st == 0x0A) ok = true;
  }
  fclose(f);
  return ok;
}
static Msg OpTcp(const Msg& r) {
  int port = (int) GetI(r, "port");
  PartyFn srv = [&r, port](int) {
    Msg m;
    int c;
    if (GetI(r, "split")) {
      m["open"] = I2S(ServerOpenSocket(port));
      c = ServerWaitForClient();
    } else {
      c = ServerInit(port);
    }
    if (c < 0) { m["log"] = "INITFAIL"; return m; }
    m = RunScript(c, Get(r, "scriptA"), (uint64_t) GetI(r, "patA", 7));
    m["close"] = I2S(ServerClose(c));
    m["still"] = I2S(Listening(port));
    return m;
  };
  PartyFn cli = [&r, port](int) {
    Msg m;
    for (int i = 0; i < 4000 && !Listening(port); i++) usleep(1000);
    int c = ClientInit(Get(r, "ip", "127.0.0.1").c_str(), port);
    if (c < 0) { m["log"] = "INITFAIL"; return m; }
    m = RunScript(c, Get(r, "scriptB"), (uint64_t) GetI(r, "patB", 9));
    m["close"] = I2S(ClientClose(c));
    return m;
  };
  // run both without the relay
  Child A = Spawn(srv, -1, {}, Cfg(r, "A"));
  Child B = Spawn(cli, -1, { A.res_fd }, Cfg(r, "B"));
  double t0 = Now();
  int idle = 0;
  double since = 0;
  long prev = -1;
  while (A.alive || B.alive) {
    struct pollfd pf[2];
    int n = 0;
    if (A.res_fd >= 0) { pf[n].fd = A.res_fd; pf[n].events = POLLIN; n++; }
    if (B.res_fd >= 0) { pf[n].fd = B.res_fd; pf[n].events = POLLIN; n++; }
    int pr = poll(pf, n, 10);
    if (pr > 0) { if (A.res_fd >= 0) DrainRes(&A); if (B.res_fd >= 0) DrainRes(&B); }
    if (A.alive && A.res_fd < 0) Reap(&A, true);
    if (B.alive && B.res_fd < 0) Reap(&B, true);
    if (pr == 0) {
      bool sl = true;
      long ticks = 0;
      for (Child* c : { &A, &B }) {
        char s;
        long t;
        if (!c->alive) continue;
        if (!ProcStat(c->pid, &s, &t) || s != 'S') sl = false; else ticks += t;
      }
      if (sl && ticks == prev) { if (idle++ == 0) since = Now(); } else idle = 0;
      prev = ticks;
      if (idle > 60 && Now() - since > 6) { KillChild(&A, "hang"); KillChild(&B, "hang"); }
    } else idle = 0;
    if (Now() - t0 > kWallCap) { KillChild(&A, "timeout"); KillChild(&B, "timeout"); }
  }
  Msg out;
  AddParty(&out, "A", A);
  AddParty(&out, "B", B);
  return out;
}

// the same two processes connect, exchange data and close, several times
static Msg OpReconnect(const Msg& r) {
  int n = (int) GetI(r, "rounds");
  auto party = [&](bool srv) -> PartyFn {
    return [&r, n, srv](int fd) {
      Msg m;
      std::string kepts, fds;
      for (int i = 0; i < n; i++) {
        int port = (int) GetI(r, "port") + (int) GetI(r, "step") * i;
        bool host = srv == !(GetI(r, "swap") && (i & 1));
        char go = 'g';
        if (!host) {            // the peer has nothing open
          if (read(fd, &go, 1) != 1) break;
          for (int k = 0; k < 4000 && !Listening(port); k++) usleep(1000);
        }
        Meter a, b;
        int c;
        std::string ip = Get(r, "ip", "127.0.0.1");
        if (host) {
          if (write(fd, &go, 1) != 1) break;
          a.Start();
          c = ServerInit(port);
        } else {
          a.Start();
          c = ClientInit(ip.c_str(), port);
        }
        a.Stop();
        if (c < 0) { m["log" + I2S(i)] = "INITFAIL"; break; }
        m["log" + I2S(i)] = RunScript(c, Get(r, host ? "scriptA" : "scriptB"), (uint64_t) GetI(r, host ? "patA" : "patB", host ? 7 : 9))["log"];
        b.Start();
        if (host) ServerClose(c);
        else ClientClose(c);
        b.Stop();
        kepts += (i ? "," : "") + I2S(a.kept + b.kept);
        fds += (i ? "," : "") + I2S(a.fds + b.fds);
        // both are done
        if (write(fd, &go, 1) != 1 || read(fd, &go, 1) != 1) break;
      }
      m["kepts"] = kepts;
      m["fds"] = fds;
      return m;
    };
  };
  return RunTwo(party(true), party(false), Cfg(r, "A"), Cfg(r, "B"), r);
}

// -------------------------------------------------------------- value functions
static BIGNUM* BNof(const std::string& hex) {
  BIGNUM* b = BN_new();
  if (!hex.empty()) BN_hex2bn(&b, hex.c_str());
  return b;
}
static std::string VecI(const std::vector<int64_t>& v) {
  std::string s;
  for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i]);
  return s;
}

static std::string Call(const std::vector<std::string>& a) {
  const std::string& f = a[0];
  auto I = [&](int k) { return strtoll(a[k].c_str(), nullptr, 10); };
  auto U = [&](int k) { return strtoull(a[k].c_str(), nullptr, 10); };
  if (f == "bn_invert") {
    BIGNUM* b = BNof(a[1]);
    int rc = BN_invert(b, (uint32_t) U(2));
    return I2S(rc) + ":" + BNHex(b);
  }
  if (f == "bn_full_one") {
    BIGNUM* b = BNof(a[1]);
    int rc = BN_full_one(b, (uint32_t) U(2));
    return I2S(rc != 0) + ":" + BNHex(b);
  }
  if (f == "bn_xor") {  // dest init, bits, v, w, alias(0 none,1 r=v,2 r=w,3 all)
    BIGNUM *d = BNof(a[1]), *v = BNof(a[3]), *w = BNof(a[4]);
    int al = (int) I(5);
    BIGNUM* r = al == 1 ? v : al == 2 ? w : al == 3 ? v : d;
    if (al == 3) w = v;
    int rc = BN_xor(r, (uint32_t) U(2), v, w);
    std::string s = I2S(rc) + ":" + BNHex(r);
    if (al != 1 && al != 3) s += ":" + BNHex(v);
    if (al != 2 && al != 3) s += ":" + BNHex(w);
    return s;
  }
  if (f == "block2bn") {
    BIGNUM* b = BNof(a[2]);
    BlockToBN(b, Blk(a[1]));
    return BNHex(b);
  }
  if (f == "bn2block") {
    BIGNUM* b = BNof(a[1]);
    block v = Blk("a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5");
    BNToBlock(b, &v);
    return BlkHex(v) + ":" + BNHex(b);
  }
  if (f == "aesenc" || f == "aesdec" || f == "aes1") {  // bits, keyhex, comma list of blocks
    std::string k = UnHex(a[2]);
    auto l = Split(a[3], ',');
    static AES_KEY ek;  // one key object for all calls, as a user may have it
    if (f == "aesdec") AESSetDecryptKey((const unsigned char*) k.data(), (int) I(1), &ek);
    else AESSetEncryptKey((const unsigned char*) k.data(), (int) I(1), &ek);
    block* b = nullptr;
    if (posix_memalign((void**) &b, 16, sizeof(block) * l.size())) abort();
    for (size_t i = 0; i < l.size(); i++) b[i] = Blk(l[i]);
    if (f == "aesenc") AESEcbEncryptBlks(b, l.size(), &ek);
    else if (f == "aesdec") AESEcbDecryptBlks(b, l.size(), &ek);
    else if (l.size() % 2) for (size_t i = 0; i < l.size(); i++) AESEncrypt((unsigned char*) &b[i], (unsigned char*) &b[i], &ek);
    else {
      block* c = nullptr;
      if (posix_memalign((void**) &c, 16, sizeof(block) * l.size())) abort();
      for (size_t i = 0; i < l.size(); i++) AESEncrypt((unsigned char*) &b[i], (unsigned char*) &c[i], &ek);
      b = c;
    }
    std::string s;
    for (size_t i = 0; i < l.size(); i++) s += (i ? "," : "") + BlkHex(b[i]);
    return s;
  }
  if (f == "mkblock") return BlkHex(MakeBlock(U(1), U(2)));
  if (f == "xorblock") return BlkHex(XorBlock(Blk(a[1]), Blk(a[2])));
  if (f == "cmpblock") { block x = Blk(a[1]), y = Blk(a[2]); return I2S(CmpBlock(x, y) ? 1 : 0); }
  if (f == "lsb") { block x = Blk(a[1]); return I2S(get_LSB(x)); }
  if (f == "zero") return BlkHex(ZeroBlock());
  if (f == "switch") return BlkHex(_m128_switch_endian(Blk(a[1])));
  if (f == "str2block") {
    block v = Blk("a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5");
    int rc = Str2Block(a[1], &v);
    return I2S(rc) + ":" + (rc == SUCCESS ? BlkHex(v) : "");
  }
  if (f == "printblock") {
    std::ostringstream o;
    if (a.size() > 2 && a[2] == "d") o << std::dec;
    o << Blk(a[1]) << "/" << 255;
    return o.str();
  }
  if (f == "hexstr") return to_string_hex(U(1), (int) I(2));
  if (f == "gate") return I2S(GateOperator((int) I(1), I(2) != 0, I(3) != 0));
  if (f == "gate1") return I2S(GateOperator((int) I(1), I(2) != 0));
  if (f == "type2v") return I2S(Type2V((int) I(1)));
  if (f == "fmtin") {
    std::vector<uint64_t> v;
    std::vector<uint16_t> l;
    if (!a[1].empty()) for (auto& x : Split(a[1], ',')) v.push_back(strtoull(x.c_str(), nullptr, 10));
    if (!a[2].empty()) for (auto& x : Split(a[2], ',')) l.push_back((uint16_t) strtoul(x.c_str(), nullptr, 10));
    return formatGCInputString(v, l);
  }
  if (f == "parseout") {
    std::vector<uint16_t> l;
    if (!a[2].empty()) for (auto& x : Split(a[2], ',')) l.push_back((uint16_t) strtoul(x.c_str(), nullptr, 10));
    std::vector<int64_t> o(l.size(), -77);
    parseGCOutputString(o, a[1], l, (uint16_t) U(3));
    return VecI(o);
  }
  if (f == "twos") return towsComplement(a[1]);
  if (f == "dec2bin") return dec2bin(I(1), (uint16_t) U(2));
  if (f == "bin2dec") return I2S(bin2dec(a[1], I(2) != 0));
  if (f == "hex2bin") return hex2bin(a[1]);
  if (f == "bin2hex") return bin2hex(a[1]);
  if (f == "mask") return formatGCOutputMask((uint16_t) U(1), (uint16_t) U(2), I(3) != 0);
  if (f == "readhex") return ReadFileOrPassHex(a[1]);
  if (f == "icompare") return I2S(icompare(a[1], a[2]));
  if (f == "randblocks") {
    std::string s;
    for (long long i = 0; i < I(1); i++) s += (i ? "," : "") + BlkHex(RandomBlock());
    return s;
  }
  if (f == "switchrow") {  // comma list of hex, bit_len
    auto l = Split(a[1], ',');
    std::vector<BIGNUM*> v;
    for (auto& x : l) v.push_back(BNof(x));
    BIGNUM** w = nullptr;
    uint32_t bl = (uint32_t) U(2);
    int rc = SwitchRowColumnBN(v.data(), v.size(), bl, &w);
    std::string s = I2S(rc) + ":";
    for (uint32_t i = 0; rc == SUCCESS && i < bl; i++) s += (i ? "," : "") + BNHex(w[i]);
    return s;
  }
  return "?unknown " + f;
}
static Msg OpCalls(const Msg& r) {
  return RunOne([&r](int) {
    Msg m;
    long n = GetI(r, "n");
    for (long i = 0; i < n; i++) {
      auto parts = Split(Get(r, "c" + std::to_string(i)), '|');
      for (auto& p : parts) p = Dec(p);
      m["r" + std::to_string(i)] = Call(parts);
    }
    return m;
  }, Cfg(r, "A"));
}

int main(int argc, char** argv) {
  // keep the protocol descriptors out of the library's way
  int in = fcntl(0, F_DUPFD_CLOEXEC, 200), out = fcntl(1, F_DUPFD_CLOEXEC, 200);
  int nul = open("/dev/null", O_RDWR);
  dup2(nul, 0);
  dup2(nul, 1);
  if (nul > 2) close(nul);
  char a0[] = "worker", a1[] = "--log2std";
  char* av[] = { a0, a1, nullptr };
  LogInitial(2, av);
  signal(SIGPIPE, SIG_IGN);
  std::string line;
  char buf[65536];
  while (true) {
    size_t nl = line.find('\n');
    if (nl == std::string::npos) {
      ssize_t n = read(in, buf, sizeof buf);
      if (n <= 0) return 0;
      line.append(buf, n);
      continue;
    }
    std::string one = line.substr(0, nl);
    line.erase(0, nl + 1);
    Msg r = ParseMsg(one), res;
    std::string op = Get(r, "op");
    if (op == "gc") res = OpGC(r);
    else if (op == "solo") res = OpSolo(r);
    else if (op == "plain") res = OpPlain(r);
    else if (op == "trans") res = OpTrans(r);
    else if (op == "readscd") res = OpReadSCD(r);
    else if (op == "writescd") res = OpWriteSCD(r);
    else if (op == "ot") res = OpOT(r);
    else if (op == "session") res = OpSession(r);
    else if (op == "otseq") res = OpOTSeq(r);
    else if (op == "otspy") res = OpOTSpy(r);
    else if (op == "xfer") res = OpXfer(r);
    else if (op == "reconnect") res = OpReconnect(r);
    else if (op == "tcp") res = OpTcp(r);
    else if (op == "calls") res = OpCalls(r);
    else res["err"] = "unknown op " + op;
    WriteAll(out, FmtMsg(res) + "\n");
  }
}
