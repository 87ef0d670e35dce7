// Runs small multi-threaded programs on the tracker's runtime under a scheduler.
//
// usage: concdrv SCRIPT EVENTS
//
// The runtime's sources are compiled with -fsanitize=thread, but instead of the
// race detector the calls that inserts (one per memory access) are defined here:
// every access that is not to the thread's own stack, every lock operation and
// every library call is a point at which the scheduler may switch.  Exactly one
// thread runs at a time, so a schedule is determined by the script.
//
// Script:
//   block NAME at LO HI     thread 0 is stopped at its K-th point, the others run to
//                           their end; repeated for K = LO, LO+1, ... < HI
//   block NAME pair STRIDE FROM MAX
//                           thread 0 is stopped at its K-th point, thread 1 at its J-th;
//                           all (K, J) in turn, only every STRIDE-th starting at FROM
//   block NAME rand SEED N P  N repetitions, a switch at every P-th point on average
//   block NAME free N       N repetitions without the scheduler
//   M OP ...                operations of the main thread, before the others start
//   T OP ...                operations of thread T (0..2)
//   end
#include <atomic>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sanitizer/dfsan_interface.h>
#include <semaphore.h>
#include <sstream>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <sys/stat.h>
#include <unistd.h>
#include <vector>

typedef dfsan_label L;
extern "C" {
void __taint_start();
uint16_t __polytracker_log_func_entry(char *, uint16_t);
void __polytracker_log_func_exit(uint16_t);
L __polytracker_union_table(const L &, const L &);
void __polytracker_log_conditional_branch(L);
uint64_t __dfsw___polytracker_log_tainted_control_flow(uint64_t, uint32_t, L, L, L *);
void __polytracker_enter_function(uint32_t);
void __polytracker_leave_function(uint32_t);
int __dfsw_open(const char *, int, L, L, L *, L *, ...);
ssize_t __dfsw_pread(int, void *, size_t, off_t, L, L, L, L, L *);
ssize_t __dfsw_read(int, void *, size_t, L, L, L, L *);
ssize_t __dfsw_write(int, void *, size_t, L, L, L, L *);
}

// ---- scheduler ----------------------------------------------------------------
static const int MAXT = 3;
static thread_local int me = -1;
static thread_local uintptr_t slo, shi;
static bool sched_on = false;
static int nthreads;
static sem_t sem[MAXT], main_sem;
static bool finished[MAXT];
static void *blocked_on[MAXT];
static long points[MAXT], total_points;
static bool reached;           // the K-th point was passed
enum Mode { AT, RAND, FREE } mode;
static long at_k, at_j;
static uint64_t rng_state;
static long rand_p;

static uint64_t rnd() {
  rng_state ^= rng_state << 13;
  rng_state ^= rng_state >> 7;
  rng_state ^= rng_state << 17;
  return rng_state;
}
static bool runnable(int t) { return t < nthreads && !finished[t] && !blocked_on[t]; }
static void wait_sem(sem_t *s) {
  while (sem_wait(s) != 0) {
  }
}
static void go(int t) { // continue as thread t
  int i = me;
  if (t == i)
    return;
  sem_post(&sem[t]);
  wait_sem(&sem[i]);
}
static int other(int i) { // the next runnable thread after i, or -1
  int start = mode == RAND ? rnd() % MAXT : 0;
  for (int d = 0; d < MAXT; d++) {
    int t = (i + 1 + start + d) % MAXT;
    if (t != i && runnable(t))
      return t;
  }
  return -1;
}
static void point(const void *a) {
  if (me < 0 || !sched_on)
    return;
  if (a && (uintptr_t)a >= slo && (uintptr_t)a < shi)
    return;
  if (++total_points > 3000000)
    _exit(89); // no progress
  long k = points[me]++;
  if (mode == AT) {
    // after very many steps of one thread let the others run: it may be spinning
    if ((me == 0 && k == at_k) || (me == 1 && k == at_j) || (k && k % 20000 == 0)) {
      if (me == 0 && k == at_k)
        reached = true;
      int t = other(me);
      if (t >= 0)
        go(t);
    }
  } else if (rnd() % rand_p == 0) {
    int t = other(me);
    if (t >= 0)
      go(t);
  }
}
static void block(void *m) { // cannot go on before m changes hands
  blocked_on[me] = m;
  int t = other(me);
  if (t < 0)
    _exit(88); // every thread waits
  go(t);
}
static void released(void *m) {
  int w = -1;
  for (int t = 0; t < nthreads; t++)
    if (blocked_on[t] == m) {
      blocked_on[t] = nullptr;
      w = t;
    }
  if (w >= 0 && mode == AT)
    go(w);
  point(nullptr);
}
extern "C" {
#define LOCK(name, try)                                                                  \
  int __real_##name(void *);                                                             \
  int __wrap_##name(void *m) {                                                           \
    if (me < 0 || !sched_on)                                                             \
      return __real_##name(m);                                                           \
    point(nullptr);                                                                      \
    for (;;) {                                                                           \
      int r = try(m);                                                                    \
      if (r != EBUSY)                                                                    \
        return r;                                                                        \
      block(m);                                                                          \
    }                                                                                    \
  }
#define TRY(name)                                                                        \
  int __real_##name(void *);                                                             \
  int __wrap_##name(void *m) {                                                           \
    point(nullptr);                                                                      \
    return __real_##name(m);                                                             \
  }
#define UNLOCK(name)                                                                     \
  int __real_##name(void *);                                                             \
  int __wrap_##name(void *m) {                                                           \
    int r = __real_##name(m);                                                            \
    if (me >= 0 && sched_on)                                                             \
      released(m);                                                                       \
    return r;                                                                            \
  }
TRY(pthread_mutex_trylock)
TRY(pthread_rwlock_tryrdlock)
TRY(pthread_rwlock_trywrlock)
LOCK(pthread_mutex_lock, __real_pthread_mutex_trylock)
LOCK(pthread_rwlock_rdlock, __real_pthread_rwlock_tryrdlock)
LOCK(pthread_rwlock_wrlock, __real_pthread_rwlock_trywrlock)
UNLOCK(pthread_mutex_unlock)
UNLOCK(pthread_rwlock_unlock)

#ifdef CONC_SCHED
// ---- what -fsanitize=thread inserts ------------------------------------------------
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_acquire(void *) {}
void __tsan_release(void *) {}
void __tsan_mutex_create(void *, unsigned) {}
void __tsan_mutex_destroy(void *, unsigned) {}
void __tsan_mutex_pre_lock(void *, unsigned) {}
void __tsan_mutex_post_lock(void *, unsigned, int) {}
int __tsan_mutex_pre_unlock(void *, unsigned) { return 0; }
void __tsan_mutex_post_unlock(void *, unsigned) {}
void __tsan_mutex_pre_signal(void *, unsigned) {}
void __tsan_mutex_post_signal(void *, unsigned) {}
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
void __tsan_read_range(void *a, unsigned long) { point(a); }
void __tsan_write_range(void *a, unsigned long) { point(a); }
#define ACC(n)                                                                           \
  void __tsan_read##n(void *a) { point(a); }                                             \
  void __tsan_write##n(void *a) { point(a); }                                            \
  void __tsan_read_write##n(void *a) { point(a); }                                       \
  void __tsan_unaligned_read##n(void *a) { point(a); }                                   \
  void __tsan_unaligned_write##n(void *a) { point(a); }                                  \
  void __tsan_unaligned_read_write##n(void *a) { point(a); }                             \
  void __tsan_volatile_read##n(void *a) { point(a); }                                    \
  void __tsan_volatile_write##n(void *a) { point(a); }                                   \
  void __tsan_unaligned_volatile_read##n(void *a) { point(a); }                          \
  void __tsan_unaligned_volatile_write##n(void *a) { point(a); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void *__tsan_memcpy(void *d, const void *s, size_t n) {
  point(d);
  if (n < 2)
    return memcpy(d, s, n);
  memcpy(d, s, n / 2);
  point(d);
  memcpy((char *)d + n / 2, (const char *)s + n / 2, n - n / 2);
  return d;
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
  point(d);
  memmove(d, s, n);
  point(d);
  return d;
}
void *__tsan_memset(void *d, int c, size_t n) {
  point(d);
  return memset(d, c, n);
}
#define SC __ATOMIC_SEQ_CST
#define ATOM(b, T)                                                                       \
  T __tsan_atomic##b##_load(const volatile T *a, int) {                                  \
    point((void *)a);                                                                    \
    return __atomic_load_n(a, SC);                                                       \
  }                                                                                      \
  void __tsan_atomic##b##_store(volatile T *a, T v, int) {                               \
    point((void *)a);                                                                    \
    __atomic_store_n(a, v, SC);                                                          \
  }                                                                                      \
  T __tsan_atomic##b##_exchange(volatile T *a, T v, int) {                               \
    point((void *)a);                                                                    \
    return __atomic_exchange_n(a, v, SC);                                                \
  }                                                                                      \
  T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int) {                              \
    point((void *)a);                                                                    \
    return __atomic_fetch_add(a, v, SC);                                                 \
  }                                                                                      \
  T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int) {                              \
    point((void *)a);                                                                    \
    return __atomic_fetch_sub(a, v, SC);                                                 \
  }                                                                                      \
  T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int) {                              \
    point((void *)a);                                                                    \
    return __atomic_fetch_and(a, v, SC);                                                 \
  }                                                                                      \
  T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int) {                               \
    point((void *)a);                                                                    \
    return __atomic_fetch_or(a, v, SC);                                                  \
  }                                                                                      \
  T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int) {                              \
    point((void *)a);                                                                    \
    return __atomic_fetch_xor(a, v, SC);                                                 \
  }                                                                                      \
  T __tsan_atomic##b##_fetch_nand(volatile T *a, T v, int) {                             \
    point((void *)a);                                                                    \
    return __atomic_fetch_nand(a, v, SC);                                                \
  }                                                                                      \
  T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T c, T v, int, int) {         \
    point((void *)a);                                                                    \
    __atomic_compare_exchange_n(a, &c, v, false, SC, SC);                                \
    return c;                                                                            \
  }                                                                                      \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) {   \
    point((void *)a);                                                                    \
    return __atomic_compare_exchange_n(a, c, v, false, SC, SC);                          \
  }                                                                                      \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) {     \
    point((void *)a);                                                                    \
    return __atomic_compare_exchange_n(a, c, v, false, SC, SC);                          \
  }
ATOM(8, unsigned char)
ATOM(16, unsigned short)
ATOM(32, unsigned int)
ATOM(64, unsigned long)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(SC); }
void __tsan_atomic_signal_fence(int) {}
#endif
}

// ---- programs -------------------------------------------------------------------
static int evfd = -1;
static void put(const std::string &s) {
  const char *p = s.data();
  size_t n = s.size();
  while (n) {
    ssize_t k = write(evfd, p, n);
    if (k <= 0)
      _exit(97);
    p += k;
    n -= k;
  }
}
static int fd_in, fd_p, fd_q, fd_o[MAXT];
static long rep; // numbers all repetitions of the process
static L mreg[32];
static long seqno[MAXT + 1];
struct Th {
  std::vector<std::vector<std::string>> ops;
  std::string out;
  L reg[32];
  std::vector<uint16_t> stack;
  unsigned char buf[64], buf2[64];
};
static Th th[MAXT + 1]; // the last one is the main thread

static L getreg(Th &t, int i) { return i < 16 ? mreg[i] : t.reg[i]; }
static void ev(Th &t, int id, const char *op, const std::vector<long> &v) {
  std::ostringstream o;
  o << "{\"op\":\"" << op << "\",\"t\":" << id << ",\"rep\":" << rep << ",\"v\":[";
  for (size_t i = 0; i < v.size(); i++)
    o << (i ? "," : "") << v[i];
  o << "]}\n";
  t.out += o.str();
}
static void label(Th &t, L a, L b, int n) {
  memset(t.buf, 'x', n);
  for (int i = 0; i < n; i++)
    dfsan_set_label(i % 2 ? b : a, t.buf + i, 1);
}
static void exec(int id, const std::vector<std::string> &w) {
  Th &t = th[id];
  const std::string &c = w[0];
  auto num = [&](size_t i) { return i < w.size() ? atol(w[i].c_str()) : 0L; };
  L rl = 0;
  if (c == "pr") { // pr N R: pread N bytes, labels to registers R...
    long n = num(1), off = (rep * 37 + seqno[id]++ * 11 + id * 5) % 4000;
    ssize_t r = __dfsw_pread(fd_in, t.buf2, n, off, 0, 0, 0, 0, &rl);
    std::vector<long> v{0, off, (long)r, (long)rl};
    for (int i = 0; i < r; i++) {
      L l = dfsan_read_label(t.buf2 + i, 1);
      v.push_back(l);
      if (w.size() > 2)
        (id == MAXT ? mreg : t.reg)[num(2) + i] = l;
    }
    ev(t, id, "rd", v);
  } else if (c == "sr") { // sr N R: read from the shared pipe
    long n = num(1);
    ssize_t r = __dfsw_read(fd_p, t.buf2, n, 0, 0, 0, &rl);
    std::vector<long> v{1, -1, (long)r, (long)rl};
    for (int i = 0; i < r; i++)
      v.push_back(dfsan_read_label(t.buf2 + i, 1));
    ev(t, id, "rd", v);
  } else if (c == "z0") { // from descriptor 0, which is not tracked
    L junk = getreg(t, 0);
    dfsan_set_label(junk, t.buf2, 2);
    ssize_t r = __dfsw_pread(0, t.buf2, 2, 1, 0, 0, 0, 0, &rl);
    ev(t, id, "zr", {(long)r, (long)rl, (long)dfsan_read_label(t.buf2, 1), (long)dfsan_read_label(t.buf2 + 1, 1)});
  } else if (c == "op") { // open a file of one's own and read two bytes
    char name[64];
    long s = seqno[id]++;
    snprintf(name, sizeof name, "w%ld_%d_%ld", rep, id, s);
    L va = 0;
    int fd = __dfsw_open(name, O_RDONLY, 0, 0, &va, &rl, 0);
    ssize_t r = __dfsw_read(fd, t.buf2, 2, 0, 0, 0, &rl);
    std::vector<long> v{2, fd, s, (long)r};
    for (int i = 0; i < r; i++)
      v.push_back(dfsan_read_label(t.buf2 + i, 1));
    ev(t, id, "op", v);
    close(fd);
  } else if (c == "un") { // un A B R
    L a = getreg(t, num(1)), b = getreg(t, num(2));
    L r = __polytracker_union_table(a, b);
    (id == MAXT ? mreg : t.reg)[num(3)] = r;
    ev(t, id, "un", {(long)a, (long)b, (long)r});
  } else if (c == "br") {
    L a = getreg(t, num(1));
    __polytracker_log_conditional_branch(a);
    ev(t, id, "br", {(long)a});
  } else if (c == "tcf" || c == "ent" || c == "lev") {
    L a = getreg(t, num(1));
    long f = id * 400000 + seqno[id]++;
    if (c == "tcf")
      __dfsw___polytracker_log_tainted_control_flow(7, f, a, 0, &rl);
    else if (c == "ent")
      __polytracker_enter_function(f);
    else
      __polytracker_leave_function(f);
    ev(t, id, "cf", {c == "ent" ? 0L : c == "lev" ? 1L : 2L, f, c == "tcf" ? (long)a : 0L});
  } else if (c == "fs" || c == "fo") { // a name shared by all threads / one's own
    char name[64];
    if (c == "fs")
      snprintf(name, sizeof name, "f%ld", rep);
    else
      snprintf(name, sizeof name, "g%ld_%d_%ld", rep, id, seqno[id]++);
    uint16_t r = __polytracker_log_func_entry(name, strlen(name));
    t.stack.push_back(r);
    t.out += "{\"op\":\"fn\",\"t\":" + std::to_string(id) + ",\"rep\":" + std::to_string(rep) +
             ",\"v\":[" + std::to_string(r) + "],\"name\":\"" + name + "\"}\n";
    memset(name, '#', sizeof name); // the name belongs to the caller
  } else if (c == "fx") {
    if (!t.stack.empty()) {
      uint16_t f = t.stack.back();
      t.stack.pop_back();
      __polytracker_log_func_exit(f);
      ev(t, id, "fx", {(long)f});
    }
  } else if (c == "wr" || c == "sw") { // two bytes to a file of one's own / the shared pipe
    L a = getreg(t, num(1)), b = getreg(t, num(2));
    label(t, a, b, 2);
    ssize_t r = __dfsw_write(c == "wr" ? fd_o[id] : fd_q, t.buf, 2, 0, 0, 0, &rl);
    ev(t, id, c.c_str(), {(long)r, (long)a, (long)b});
  } else
    _exit(96);
}

static sem_t start_sem[MAXT];
static std::atomic<int> gate;
static void *worker(void *arg) {
  int id = (int)(intptr_t)arg;
  pthread_attr_t at;
  void *base;
  size_t size;
  pthread_getattr_np(pthread_self(), &at);
  pthread_attr_getstack(&at, &base, &size);
  pthread_attr_destroy(&at);
  slo = (uintptr_t)base;
  shi = slo + size;
  for (;;) {
    wait_sem(&start_sem[id]);
    if (mode == FREE) {
      gate.fetch_sub(1);
      while (gate.load() > 0) {
      }
      for (auto &o : th[id].ops)
        exec(id, o);
      sem_post(&main_sem);
    } else {
      wait_sem(&sem[id]);
      me = id;
      for (auto &o : th[id].ops)
        exec(id, o);
      finished[id] = true;
      int t = other(id);
      me = -1;
      if (t >= 0)
        sem_post(&sem[t]);
      else {
        for (int i = 0; i < nthreads; i++)
          if (!finished[i])
            _exit(88); // the others wait for ever
        sem_post(&main_sem);
      }
    }
  }
  return nullptr;
}
static void raw_file(const char *name, size_t n) {
  int fd = open(name, O_CREAT | O_WRONLY | O_TRUNC, 0644);
  std::string s(n, 'd');
  if (write(fd, s.data(), n) != (ssize_t)n)
    _exit(95);
  close(fd);
}
static long opened; // the table of sources holds 255
static bool room() {
  long n = 0;
  for (int i = 0; i <= MAXT; i++)
    for (auto &o : th[i].ops)
      n += o[0] == "op";
  return n == 0 || opened + n <= 240;
}
static void one() {
  for (int i = 0; i <= MAXT; i++) {
    th[i].out.clear();
    seqno[i] = i < MAXT ? rep * 8 % 390000 : rep * 40 % 390000;
    th[i].stack.clear();
  }
  for (int i = 0; i <= MAXT; i++) {
    long s = seqno[i];
    int need = 0;
    for (auto &o : th[i].ops)
      if (o[0] == "op") {
        opened++;
        for (int j = 0; j < 8; j++) {
          char name[64];
          snprintf(name, sizeof name, "w%ld_%d_%ld", rep, i, s + j);
          raw_file(name, 2 + i);
        }
      }
      else if (o[0] == "sr")
        need += atol(o[1].c_str());
    std::string f(need, 'p');
    if (need && write(fd_p, f.data(), need) != need)
      _exit(95);
  }
  for (auto &o : th[MAXT].ops)
    exec(MAXT, o);
  for (int i = 0; i < MAXT; i++) {
    finished[i] = i >= nthreads;
    blocked_on[i] = nullptr;
    points[i] = 0;
  }
  total_points = 0;
  reached = false;
  gate = nthreads;
  sched_on = mode != FREE;
  for (int i = 0; i < nthreads; i++)
    sem_post(&start_sem[i]);
  if (mode != FREE) {
    sem_post(&sem[mode == RAND ? rnd() % nthreads : 0]);
    wait_sem(&main_sem);
  } else
    for (int i = 0; i < nthreads; i++)
      wait_sem(&main_sem);
  sched_on = false;
  std::string all;
  for (int i = MAXT; i >= 0; i--)
    if (i == MAXT || i < nthreads)
      all += th[i].out;
  put(all);
  char sink[256];
  while (read(fd_q, sink, sizeof sink) > 0) {
  }
  for (int i = 0; i < MAXT; i++) {
    for (auto &o : th[i].ops)
      if (o[0] == "op")
        for (int j = 0; j < 8; j++) {
          char name[64];
          snprintf(name, sizeof name, "w%ld_%d_%ld", rep, i, (rep * 8 % 390000) + j);
          unlink(name);
        }
  }
  rep++;
}

int main(int argc, char **argv) {
  FILE *f = fopen(argv[1], "r");
  evfd = open(argv[2], O_CREAT | O_WRONLY | O_TRUNC, 0644);
  if (!f || evfd < 0)
    return 98;
  raw_file("in", 4096);
  raw_file("z", 16);
  int z = open("z", O_RDONLY);
  dup2(z, 0);
  close(z);
  mkfifo("p", 0644);
  mkfifo("q", 0644);
  for (int i = 0; i < MAXT; i++) {
    sem_init(&sem[i], 0, 0);
    sem_init(&start_sem[i], 0, 0);
  }
  sem_init(&main_sem, 0, 0);
  __taint_start();
  L rl, va = 0;
  fd_in = __dfsw_open("in", O_RDONLY, 0, 0, &va, &rl, 0);
  fd_p = __dfsw_open("p", O_RDWR, 0, 0, &va, &rl, 0);
  fd_q = __dfsw_open("q", O_RDWR | O_NONBLOCK, 0, 0, &va, &rl, 0);
  for (int i = 0; i < MAXT; i++)
    fd_o[i] = __dfsw_open(("o" + std::to_string(i)).c_str(), O_CREAT | O_RDWR, 0, 0, &va, &rl, 0644);
  put("{\"op\":\"start\",\"t\":3,\"rep\":0,\"v\":[" + std::to_string(fd_in) + "," + std::to_string(fd_p) + "," +
      std::to_string(fd_q) + "," + std::to_string(fd_o[0]) + "," + std::to_string(fd_o[1]) + "," +
      std::to_string(fd_o[2]) + "]}\n");
  pthread_t tid[MAXT];
  for (long i = 0; i < MAXT; i++)
    pthread_create(&tid[i], nullptr, worker, (void *)i);
  char line[512];
  long lo = 0, hi = 0;
  std::string m;
  while (fgets(line, sizeof line, f)) {
    std::istringstream is(line);
    std::vector<std::string> w;
    std::string x;
    while (is >> x)
      w.push_back(x);
    if (w.empty())
      continue;
    if (w[0] == "block") {
      for (int i = 0; i <= MAXT; i++)
        th[i].ops.clear();
      m = w[2];
      lo = atol(w[3].c_str());
      hi = w.size() > 4 ? atol(w[4].c_str()) : 0;
      rand_p = w.size() > 5 ? atol(w[5].c_str()) : 8;
    } else if (w[0] == "end") {
      nthreads = 0;
      for (int i = 0; i < MAXT; i++)
        if (!th[i].ops.empty())
          nthreads = i + 1;
      long maxp = 0;
      if (m == "at") {
        mode = AT;
        at_j = -1;
        long k;
        for (k = lo; k < hi && room(); k++) {
          at_k = k;
          one();
          maxp = points[0];
          if (!reached) {
            maxp = 0; // all points were tried
            break;
          }
        }
        put("{\"op\":\"note\",\"t\":3,\"rep\":" + std::to_string(rep) + ",\"v\":[" + std::to_string(k) + "," +
            std::to_string(maxp) + "]}\n");
      } else if (m == "pair") {
        mode = AT;
        at_k = at_j = -1;
        if (room())
          one();
        long p0 = points[0], p1 = points[1], done = 0;
        for (long x = hi; x < p0 * p1 && done < rand_p && room(); x += lo, done++) {
          at_k = x / p1;
          at_j = x % p1;
          one();
        }
        put("{\"op\":\"note\",\"t\":3,\"rep\":" + std::to_string(rep) + ",\"v\":[" + std::to_string(done) + "," +
            std::to_string(p0 * p1) + "]}\n");
      } else if (m == "rand") {
        mode = RAND;
        rng_state = 88172645463325252ull ^ ((uint64_t)lo * 0x9e3779b97f4a7c15ull);
        for (long k = 0; k < hi && room(); k++)
          one();
      } else {
        mode = FREE;
        for (long k = 0; k < lo && room(); k++)
          one();
      }
    } else {
      int i = w[0] == "M" ? MAXT : atoi(w[0].c_str());
      w.erase(w.begin());
      th[i].ops.push_back(w);
    }
  }
  fclose(f);
  // the threads are idle for good: none of them records anything any more
  return 0;
}
