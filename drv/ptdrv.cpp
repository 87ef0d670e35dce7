// Script-driven harness around the tracker's runtime.
//
// usage: ptdrv SCRIPT EVENTS
//
// Executes one operation per line through the interfaces instrumented programs
// use (the __dfsw_* wrappers, the __polytracker_* callbacks and dfsan_*), and
// appends one JSON event per operation to EVENTS (through a private file
// descriptor, unbuffered, so that what happened before an abnormal end is kept).
#include <arpa/inet.h>
#include <atomic>
#include <errno.h>
#include <fcntl.h>
#include <map>
#include <mutex>
#include <netinet/in.h>
#include <pthread.h>
#include <sanitizer/dfsan_interface.h>
#include <signal.h>
#include <sstream>
#include <stdint.h>
#include <stdio.h>
#include <string>
#include <string.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <thread>
#include <unistd.h>
#include <vector>

typedef dfsan_label L;
extern "C" {
void __taint_start();
void __polytracker_taint_argv(int, char **);
uint16_t __polytracker_log_func_entry(char *, uint16_t);
void __polytracker_log_func_exit(uint16_t);
L __polytracker_union_table(const L &, const L &);
void __polytracker_log_conditional_branch(L);
void __dfsw___polytracker_log_conditional_branch(uint64_t, L);
uint64_t __dfsw___polytracker_log_tainted_control_flow(uint64_t, uint32_t, L, L, L *);
void __polytracker_enter_function(uint32_t);
void __polytracker_leave_function(uint32_t);

int __dfsw_open(const char *, int, L, L, L *, L *, ...);
int __dfsw_open64(const char *, int, L, L, L *, L *, ...);
int __dfsw_openat(int, const char *, int, L, L, L *, L *, ...);
FILE *__dfsw_fopen(const char *, const char *, L, L, L *);
FILE *__dfsw_fopen64(const char *, const char *, L, L, L *);
int __dfsw_close(int, L, L *);
int __dfsw_fclose(FILE *, L, L *);
ssize_t __dfsw_read(int, void *, size_t, L, L, L, L *);
ssize_t __dfsw_pread(int, void *, size_t, off_t, L, L, L, L, L *);
ssize_t __dfsw_pread64(int, void *, size_t, off_t, L, L, L, L, L *);
size_t __dfsw_fread(void *, size_t, size_t, FILE *, L, L, L, L, L *);
size_t __dfsw_fread_unlocked(void *, size_t, size_t, FILE *, L, L, L, L, L *);
int __dfsw_fgetc(FILE *, L, L *);
int __dfsw_fgetc_unlocked(FILE *, L, L *);
int __dfsw__IO_getc(FILE *, L, L *);
int __dfsw_getc(FILE *, L, L *);
int __dfsw_getc_unlocked(FILE *, L, L *);
int __dfsw_getchar(L *);
int __dfsw_getchar_unlocked(L *);
char *__dfsw_fgets(char *, int, FILE *, L, L, L, L *);
ssize_t __dfsw_getdelim(char **, size_t *, int, FILE *, L, L, L, L, L *);
ssize_t __dfsw___getdelim(char **, size_t *, int, FILE *, L, L, L, L, L *);
void *__dfsw_mmap(void *, size_t, int, int, int, off_t, L, L, L, L, L, L, L *);
int __dfsw_munmap(void *, size_t, L, L, L *);
int __dfsw__putc(int, FILE *, L, L, L *);
void __dfsw_exit(int, L);
void __dfsw___assert_fail(const char *, const char *, unsigned, const char *, L, L, L, L);
int __dfsw_accept(int, struct sockaddr *, socklen_t *, L, L, L, L *);
int __dfsw_accept4(int, struct sockaddr *, socklen_t *, int, L, L, L, L, L *);
int __dfsw_connect(int, const struct sockaddr *, socklen_t, L, L, L, L *);
ssize_t __dfsw_recv(int, void *, size_t, int, L, L, L, L, L *);
ssize_t __dfsw_recvfrom(int, void *, size_t, int, struct sockaddr *, socklen_t *, L, L, L, L, L, L, L *);
ssize_t __dfsw_write(int, void *, size_t, L, L, L, L *);
size_t __dfsw_fwrite(void *, size_t, size_t, FILE *, L, L, L, L, L *);
int __dfsw_putc(int, FILE *, L, L, L *);
int __dfsw_fputc(int, FILE *, L, L, L *);
ssize_t __dfsw_send(int, void *, size_t, int, L, L, L, L, L *);
void *__dfsw_malloc(size_t, L, L *);
void *__dfsw_realloc(void *, size_t, L, L, L *);
void *__dfsw_calloc(size_t, size_t, L, L, L *);
void __dfsw_free(void *, L);
char *__dfsw_strcat(char *, char *, L, L, L *);
void *__dfsw_memcpy(void *, const void *, size_t, L, L, L, L *);
void *__dfsw_memmove(void *, const void *, size_t, L, L, L, L *);
void *__dfsw_memset(void *, int, size_t, L, L, L, L *);
char *__dfsw_strcpy(char *, const char *, L, L, L *);
char *__dfsw_strncpy(char *, const char *, size_t, L, L, L, L *);
char *__dfsw_strdup(const char *, L, L *);
}

static int evfd = -1;
static thread_local std::string *tl_buf = nullptr; // per-thread event sink
static bool limited = false; // events are held back while files cannot grow
static std::string held;
static void emit(const std::string &s) {
  std::string t = s + "\n";
  if (tl_buf) {
    *tl_buf += t;
    return;
  }
  held += t;
  if (limited)
    return;
  t.swap(held);
  held.clear();
  const char *p = t.data();
  size_t n = t.size();
  while (n) {
    ssize_t k = write(evfd, p, n);
    if (k <= 0)
      _exit(97);
    p += k;
    n -= k;
  }
}

struct Ev { // tiny JSON object writer
  std::ostringstream o;
  Ev(const std::string &op) { o << "{\"op\":\"" << op << "\""; }
  Ev &n(const char *k, long long v) {
    o << ",\"" << k << "\":" << v;
    return *this;
  }
  Ev &s(const char *k, const std::string &v) {
    o << ",\"" << k << "\":\"" << v << "\"";
    return *this;
  }
  Ev &w(const char *k, uint64_t v) { // wide word as four 16-bit limbs, low first
    o << ",\"" << k << "\":[" << (v & 0xffff) << "," << ((v >> 16) & 0xffff) << ","
      << ((v >> 32) & 0xffff) << "," << (v >> 48) << "]";
    return *this;
  }
  // offset as <<hi, lo>> in base 2^27; -1 stays {-1,0}
  Ev &off(const char *k, long long v) {
    if (v < 0)
      o << ",\"" << k << "\":[-1,0]";
    else
      o << ",\"" << k << "\":[" << (v >> 27) << "," << (v & ((1 << 27) - 1)) << "]";
    return *this;
  }
  template <typename T> Ev &a(const char *k, const std::vector<T> &v) {
    o << ",\"" << k << "\":[";
    for (size_t i = 0; i < v.size(); i++)
      o << (i ? "," : "") << (long long)v[i];
    o << "]";
    return *this;
  }
  void done() {
    o << "}";
    emit(o.str());
  }
};

static const size_t HALO = 8;
struct Buf {
  unsigned char *p = nullptr; // start of the usable part
  size_t n = 0;
  bool big = false;
};
static std::map<int, Buf> bufs;
static std::map<int, int> fds;
static std::map<int, FILE *> files;
static L regs[1024];
static int vals[1024];

static std::vector<L> labels_of(const unsigned char *p, size_t n) {
  std::vector<L> r(n);
  for (size_t i = 0; i < n; i++)
    r[i] = dfsan_read_label(p + i, 1);
  return r;
}
static std::vector<L> lab(const Buf &b) { return labels_of(b.p - HALO, b.n + 2 * HALO); }
static std::vector<int> dat(const Buf &b) {
  std::vector<int> r;
  for (size_t i = 0; i < b.n + 2 * HALO; i++)
    r.push_back(b.p[(long)i - (long)HALO]);
  return r;
}
// are these n bytes those of the file behind fd, from position at on?
static int same_as_file(int fd, const unsigned char *p, size_t n, long long at) {
  char link[64];
  snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
  int q = open(link, O_RDONLY | O_CLOEXEC);
  if (q < 0)
    return 0;
  std::vector<unsigned char> v(n);
  size_t got = 0;
  while (got < n) {
    ssize_t r = pread(q, v.data() + got, n - got, at + got);
    if (r <= 0)
      break;
    got += r;
  }
  close(q);
  return got == n && !memcmp(v.data(), p, n);
}

// labels as maximal runs: {index, first label, count}; stride 1 or zeros
static std::vector<long long> runs(const unsigned char *p, size_t n) {
  std::vector<long long> r;
  size_t i = 0;
  while (i < n) {
    L f = dfsan_read_label(p + i, 1);
    size_t j = i + 1;
    while (j < n) {
      L x = dfsan_read_label(p + j, 1);
      if (f == 0 ? x != 0 : x != f + (j - i))
        break;
      j++;
    }
    r.push_back(i);
    r.push_back(f);
    r.push_back(j - i);
    i = j;
  }
  return r;
}
static Buf &buf(int id) {
  Buf &b = bufs[id];
  if (!b.p) {
    fprintf(stderr, "no buffer %d\n", id);
    _exit(96);
  }
  return b;
}
static std::string unhex(const std::string &h) {
  std::string r;
  if (h == "-")
    return r;
  for (size_t i = 0; i + 1 < h.size(); i += 2)
    r.push_back((char)strtol(h.substr(i, 2).c_str(), nullptr, 16));
  return r;
}
static std::vector<int> bytes(const std::string &s) {
  std::vector<int> v;
  for (unsigned char c : s)
    v.push_back(c);
  return v;
}
static int flagsof(const std::string &s) {
  int f = 0;
  bool r = s.find('r') != std::string::npos, w = s.find('w') != std::string::npos;
  f = r && w ? O_RDWR : w ? O_WRONLY : O_RDONLY;
  for (char c : s) {
    if (c == 'c')
      f |= O_CREAT;
    if (c == 't')
      f |= O_TRUNC;
    if (c == 'a')
      f |= O_APPEND;
    if (c == 'x')
      f |= O_EXCL;
    if (c == 'n')
      f |= O_NONBLOCK;
  }
  return f;
}
static std::vector<std::string> split(const std::string &l) {
  std::istringstream is(l);
  std::vector<std::string> t;
  std::string x;
  while (is >> x)
    t.push_back(x);
  return t;
}
static long long N(const std::string &s) { return strtoll(s.c_str(), nullptr, 0); }
static uint64_t U(const std::string &s) { return strtoull(s.c_str(), nullptr, 0); }

static std::atomic<int> bar_count{0};
static std::atomic<int> bar_phase{0};
static int nthreads = 0;
static std::atomic<long long> clk{0};

static const L POISON = 0x5a5a5a5a; // what ret_label holds before the call

#define FN(x) fn == #x
static void one(const std::vector<std::string> &t);

static void run_threads(std::vector<std::vector<std::vector<std::string>>> &bodies) {
  nthreads = bodies.size();
  std::vector<std::string> out(nthreads);
  std::vector<std::thread> th;
  bar_count = 0;
  for (int i = 0; i < nthreads; i++)
    th.emplace_back([&, i] {
      tl_buf = &out[i];
      bar_count++;
      while (bar_count.load() < nthreads)
        ;
      for (auto &t : bodies[i])
        one(t);
      tl_buf = nullptr;
    });
  for (auto &x : th)
    x.join();
  for (int i = 0; i < nthreads; i++) {
    Ev("thread").n("t", i).done();
    if (!out[i].empty()) {
      out[i].pop_back();
      emit(out[i]);
    }
  }
  Ev("join").n("n", nthreads).done();
}

#include "strops.h"

static void one(const std::vector<std::string> &t) {
  const std::string &op = t[0];
  if (strop(t))
    return;
  if (op == "init") {
    __taint_start();
    Ev("init").done();
  } else if (op == "buf") { // buf id size
    Buf b;
    b.n = N(t[2]);
    size_t tot = ((b.n + 2 * HALO + 4095) & ~4095ul);
    b.p = (unsigned char *)mmap(nullptr, tot, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    b.p += HALO;
    b.big = b.n > 4096;
    bufs[N(t[1])] = b;
  } else if (op == "fill") { // fill B off hex : native store, clears labels there
    Buf &b = buf(N(t[1]));
    std::string d = unhex(t[3]);
    memcpy(b.p + N(t[2]), d.data(), d.size());
    dfsan_set_label(0, b.p + N(t[2]), d.size());
  } else if (op == "put") { // put B off hex : native store, labels kept
    Buf &b = buf(N(t[1]));
    std::string d = unhex(t[3]);
    memcpy(b.p + N(t[2]), d.data(), d.size());
  } else if (op == "mkfile") { // mkfile path hex | mkfile path @size seed
    std::string d;
    if (t[2][0] == '@') {
      long long n = N(t[2].substr(1));
      for (long long i = 0; i < n; i++)
        d.push_back((char)((i * 7 + N(t[3])) & 0xff));
    } else
      d = unhex(t[2]);
    int fd = open(t[1].c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    for (size_t k = 0; k < d.size();)
      k += write(fd, d.data() + k, d.size() - k);
    close(fd);
    if (t[2][0] == '@')
      Ev("mkbig").s("path", t[1]).n("size", d.size()).n("seed", N(t[3])).done();
    else
      Ev("mkfile").s("path", t[1]).a("data", bytes(d)).done();
  } else if (op == "mksparse") { // mksparse path offset hex
    std::string d = unhex(t[3]);
    int fd = open(t[1].c_str(), O_CREAT | O_WRONLY, 0600);
    pwrite(fd, d.data(), d.size(), N(t[2]));
    close(fd);
    Ev("mksparse").s("path", t[1]).off("at", N(t[2])).a("data", bytes(d)).done();
  } else if (op == "mkfifo") {
    mkfifo(t[1].c_str(), 0600);
    Ev("mkfifo").s("path", t[1]).done();
  } else if (op == "unlink") {
    unlink(t[1].c_str());
    Ev("unlink").s("path", t[1]).done();
  } else if (op == "umask") {
    umask(N(t[1]));
    Ev("umask").n("m", N(t[1])).done();
  } else if (op == "open") { // open fn h path flags mode
    const std::string &fn = t[1];
    int h = N(t[2]), fl = flagsof(t[4]), mode = N(t[5]);
    L rl = POISON;
    bool existed = access(t[3].c_str(), F_OK) == 0;
    int fd = -1;
    errno = 0;
    if (FN(open))
      fd = __dfsw_open(t[3].c_str(), fl, 0, 0, nullptr, &rl, mode);
    else if (FN(open64))
      fd = __dfsw_open64(t[3].c_str(), fl, 0, 0, nullptr, &rl, mode);
    else if (FN(openat))
      fd = __dfsw_openat(AT_FDCWD, t[3].c_str(), fl, 0, 0, nullptr, &rl, mode);
    else if (FN(raw)) {
      fd = open(t[3].c_str(), fl, mode);
      rl = 0;
    }
    int e = errno;
    struct stat st;
    int perm = -1;
    if (fd >= 0 && fstat(fd, &st) == 0)
      perm = st.st_mode & 0777;
    if (fd >= 0)
      fds[h] = fd;
    int acc = fd >= 0 ? fcntl(fd, F_GETFL) : 0;
    Ev("open").s("fn", fn).n("h", h).s("path", t[3]).s("flags", t[4]).n("mode", mode)
        .n("fd", fd).n("existed", existed).n("perm", perm)
        .n("err", fd < 0 ? e : 0).n("acc", acc & O_ACCMODE).n("app", !!(acc & O_APPEND)).n("rl", rl).done();
  } else if (op == "fopen") { // fopen fn h path mode
    const std::string &fn = t[1];
    int h = N(t[2]);
    L rl = POISON;
    FILE *f = nullptr;
    if (FN(fopen))
      f = __dfsw_fopen(t[3].c_str(), t[4].c_str(), 0, 0, &rl);
    else if (FN(fopen64))
      f = __dfsw_fopen64(t[3].c_str(), t[4].c_str(), 0, 0, &rl);
    else if (FN(raw)) {
      f = fopen(t[3].c_str(), t[4].c_str());
      rl = 0;
    } else if (FN(fdopen)) { // stream over an already open handle (t[3])
      f = fdopen(fds[N(t[3])], t[4].c_str());
      rl = 0;
    }
    if (f)
      files[h] = f;
    Ev("fopen").s("fn", fn).n("h", h).s("path", t[3]).n("hh", FN(fdopen) ? N(t[3]) : -1).s("mode", t[4])
        .n("fd", f ? fileno(f) : -1).n("rl", rl).done();
  } else if (op == "std") { // std h stdin|stdout|stderr : name a standard stream
    int h = N(t[1]);
    files[h] = t[2] == "stdin" ? stdin : t[2] == "stdout" ? stdout : stderr;
    fds[h] = fileno(files[h]);
    Ev("std").n("h", h).s("name", t[2]).n("fd", fds[h])
        .off("pos", ftello(files[h])).done();
  } else if (op == "close" || op == "rawclose") {
    int h = N(t[1]);
    L rl = POISON;
    int fd = fds.count(h) ? fds[h] : (int)N(t[2]);
    int r = op == "close" ? __dfsw_close(fd, 0, &rl) : (rl = 0, close(fd));
    Ev("close").s("fn", op).n("h", h).n("fd", fd).n("ret", r).n("rl", rl).done();
  } else if (op == "fclose" || op == "rawfclose") {
    int h = N(t[1]);
    L rl = POISON;
    int fd = fileno(files[h]);
    int r = op == "fclose" ? __dfsw_fclose(files[h], 0, &rl) : (rl = 0, fclose(files[h]));
    Ev("fclose").s("fn", op).n("h", h).n("fd", fd).n("ret", r).n("rl", rl).done();
  } else if (op == "pipe") { // pipe hr hw : native
    int p[2];
    pipe(p);
    fds[N(t[1])] = p[0];
    fds[N(t[2])] = p[1];
    Ev("pipe").n("hr", N(t[1])).n("hw", N(t[2])).n("fr", p[0]).n("fw", p[1]).done();
  } else if (op == "sockpair") { // native unix stream/dgram pair
    int p[2];
    socketpair(AF_UNIX, t.size() > 3 && t[3] == "dgram" ? SOCK_DGRAM : SOCK_STREAM, 0, p);
    fds[N(t[1])] = p[0];
    fds[N(t[2])] = p[1];
    Ev("sockpair").n("h1", N(t[1])).n("h2", N(t[2])).n("f1", p[0]).n("f2", p[1])
        .n("dgram", t.size() > 3 && t[3] == "dgram").done();
  } else if (op == "tcp") { // tcp hc hs accept|accept4 : a loopback connection, both ends tracked
    int ls = socket(AF_INET, SOCK_STREAM, 0);
    struct sockaddr_in a;
    memset(&a, 0, sizeof a);
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    bind(ls, (sockaddr *)&a, sizeof a);
    listen(ls, 4);
    socklen_t sl = sizeof a;
    getsockname(ls, (sockaddr *)&a, &sl);
    int c = socket(AF_INET, SOCK_STREAM, 0);
    L r1 = POISON, r2 = POISON;
    int st = __dfsw_connect(c, (sockaddr *)&a, sizeof a, 0, 0, 0, &r1);
    struct sockaddr_in cl;
    memset(&cl, 0, sizeof cl);
    socklen_t cll = sizeof cl;
    getsockname(c, (sockaddr *)&cl, &cll);
    struct sockaddr_in got;
    memset(&got, 0, sizeof got);
    socklen_t gl = sizeof got;
    int s = t[3] == "accept4" ? __dfsw_accept4(ls, (sockaddr *)&got, &gl, SOCK_CLOEXEC, 0, 0, 0, 0, &r2)
                              : __dfsw_accept(ls, (sockaddr *)&got, &gl, 0, 0, 0, &r2);
    int cloexec = s >= 0 ? fcntl(s, F_GETFD) & FD_CLOEXEC : 0;
    close(ls);
    fds[N(t[1])] = c;
    fds[N(t[2])] = s;
    Ev("tcp").n("hc", N(t[1])).n("hs", N(t[2])).s("fn", t[3]).n("fc", c).n("fs", s).n("st", st)
        .n("cport", ntohs(cl.sin_port)).n("sport", ntohs(a.sin_port))
        .n("gotport", ntohs(got.sin_port)).n("cloexec", !!cloexec).n("rl", r1 | r2).done();
  } else if (op == "udp") { // udp h1 h2 : connected datagram sockets, both tracked
    int f[2];
    struct sockaddr_in a[2];
    for (int i = 0; i < 2; i++) {
      f[i] = socket(AF_INET, SOCK_DGRAM, 0);
      memset(&a[i], 0, sizeof a[i]);
      a[i].sin_family = AF_INET;
      a[i].sin_addr.s_addr = htonl(INADDR_LOOPBACK);
      bind(f[i], (sockaddr *)&a[i], sizeof a[i]);
      socklen_t sl = sizeof a[i];
      getsockname(f[i], (sockaddr *)&a[i], &sl);
    }
    L r1 = POISON, r2 = POISON;
    int st = __dfsw_connect(f[0], (sockaddr *)&a[1], sizeof a[1], 0, 0, 0, &r1);
    st |= __dfsw_connect(f[1], (sockaddr *)&a[0], sizeof a[0], 0, 0, 0, &r2);
    fds[N(t[1])] = f[0];
    fds[N(t[2])] = f[1];
    Ev("udp").n("hc", N(t[1])).n("hs", N(t[2])).n("fc", f[0]).n("fs", f[1]).n("st", st)
        .n("cport", ntohs(a[0].sin_port)).n("sport", ntohs(a[1].sin_port)).n("rl", r1 | r2).done();
  } else if (op == "fsize") { // limit on the size of files
    struct rlimit rl;
    getrlimit(RLIMIT_FSIZE, &rl);
    rl.rlim_cur = N(t[1]) < 0 ? rl.rlim_max : (rlim_t)N(t[1]);
    setrlimit(RLIMIT_FSIZE, &rl);
    limited = N(t[1]) >= 0;
    Ev("fsize").n("n", N(t[1])).done();
  } else if (op == "connfail") { // connect to a closed port
    int c = socket(AF_INET, SOCK_STREAM, 0);
    struct sockaddr_in a;
    memset(&a, 0, sizeof a);
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    a.sin_port = htons(1);
    L r1 = POISON;
    errno = 0;
    int st = __dfsw_connect(c, (sockaddr *)&a, sizeof a, 0, 0, 0, &r1);
    int e = errno;
    fds[N(t[1])] = c;
    Ev("connfail").n("h", N(t[1])).n("fd", c).n("ret", st).n("err", e).n("rl", r1).done();
  } else if (op == "accreset") { // accreset accept|accept4 : the peer has reset the connection already
    int ls = socket(AF_INET, SOCK_STREAM, 0);
    struct sockaddr_in a;
    memset(&a, 0, sizeof a);
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    bind(ls, (sockaddr *)&a, sizeof a);
    listen(ls, 4);
    socklen_t sl = sizeof a;
    getsockname(ls, (sockaddr *)&a, &sl);
    int c = socket(AF_INET, SOCK_STREAM, 0);
    int st = connect(c, (sockaddr *)&a, sizeof a);
    struct linger lg = {1, 0};
    setsockopt(c, SOL_SOCKET, SO_LINGER, &lg, sizeof lg);
    close(c);
    L r2 = POISON, r3 = POISON;
    int s = t[1] == "accept4" ? __dfsw_accept4(ls, nullptr, nullptr, 0, 0, 0, 0, 0, &r2) : __dfsw_accept(ls, nullptr, nullptr, 0, 0, 0, &r2);
    fcntl(ls, F_SETFL, O_NONBLOCK);
    errno = 0;
    int s2 = t[1] == "accept4" ? __dfsw_accept4(ls, nullptr, nullptr, 0, 0, 0, 0, 0, &r3) : __dfsw_accept(ls, nullptr, nullptr, 0, 0, 0, &r3);
    int e = errno;
    if (s >= 0)
      close(s);
    close(ls);
    Ev("accreset").n("st", st).n("ok", s >= 0).n("again", s2).n("err", e).n("rl", r2 | r3).done();
  } else if (op == "udpoff") { // udpoff h : dissolves the association of a datagram socket
    struct sockaddr a;
    memset(&a, 0, sizeof a);
    a.sa_family = AF_UNSPEC;
    L rl = POISON;
    int st = __dfsw_connect(fds[N(t[1])], &a, sizeof a, 0, 0, 0, &rl);
    Ev("udpoff").n("h", N(t[1])).n("st", st).n("rl", rl).done();
  } else if (op == "dup") { // native
    int f = dup(fds[N(t[2])]);
    fds[N(t[1])] = f;
    Ev("dup").n("h", N(t[1])).n("from", N(t[2])).n("fd", f).done();
  } else if (op == "feed") { // feed h hex : native write into pipe/fifo/socket
    std::string d = unhex(t[2]);
    ssize_t r = write(fds[N(t[1])], d.data(), d.size());
    Ev("feed").n("h", N(t[1])).a("data", bytes(d)).n("ret", r).done();
  } else if (op == "drain") { // drain h n : native read from pipe/socket
    std::vector<unsigned char> d(N(t[2]) + 1);
    ssize_t r = recv(fds[N(t[1])], d.data(), N(t[2]), MSG_DONTWAIT);
    if (r < 0)
      r = read(fds[N(t[1])], d.data(), N(t[2]));
    d.resize(r < 0 ? 0 : r);
    Ev("drain").n("h", N(t[1])).n("req", N(t[2])).n("ret", r).a("data", d).done();
  } else if (op == "lseek") { // native
    off_t r = lseek(fds[N(t[1])], N(t[2]), N(t[3]));
    Ev("lseek").n("h", N(t[1])).off("at", N(t[2])).n("wh", N(t[3])).off("ret", r).done();
  } else if (op == "fseek") { // native
    int r = fseeko(files[N(t[1])], N(t[2]), N(t[3]));
    Ev("fseek").n("h", N(t[1])).off("at", N(t[2])).n("wh", N(t[3])).n("ret", r)
        .off("tell", ftello(files[N(t[1])])).done();
  } else if (op == "tell") {
    Ev("tell").n("h", N(t[1])).off("ret", lseek(fds[N(t[1])], 0, SEEK_CUR)).done();
  } else if (op == "ftell") {
    Ev("ftell").n("h", N(t[1])).off("ret", ftello(files[N(t[1])])).done();
  } else if (op == "fflush") {
    fflush(files[N(t[1])]);
    Ev("fflush").n("h", N(t[1])).done();
  } else if (op == "ungetc") {
    int r = ungetc(N(t[2]), files[N(t[1])]);
    Ev("ungetc").n("h", N(t[1])).n("c", N(t[2])).n("ret", r).done();
  } else if (op == "extwrite") { // somebody else appends/patches the file: extwrite path off hex
    std::string d = unhex(t[3]);
    int fd = open(t[1].c_str(), O_WRONLY);
    pwrite(fd, d.data(), d.size(), N(t[2]));
    close(fd);
    Ev("extwrite").s("path", t[1]).n("at", N(t[2])).a("data", bytes(d)).done();
  } else if (op == "read" || op == "pread") { // read fn h B off n [at|flags]
    const std::string &fn = t[1];
    int h = N(t[2]);
    Buf &b = buf(N(t[3]));
    size_t o = N(t[4]), n = N(t[5]);
    long long x = t.size() > 6 ? N(t[6]) : 0;
    auto pd = b.big ? std::vector<int>() : dat(b);
    auto pl = b.big ? std::vector<L>() : lab(b);
    L rl = POISON;
    ssize_t r = -2;
    int fd = fds[h];
    long long was = b.big ? (FN(pread) || FN(pread64) ? x : (long long)lseek(fd, 0, SEEK_CUR)) : 0;
    errno = 0;
    if (FN(read))
      r = __dfsw_read(fd, b.p + o, n, 0, 0, 0, &rl);
    else if (FN(pread))
      r = __dfsw_pread(fd, b.p + o, n, x, 0, 0, 0, 0, &rl);
    else if (FN(pread64))
      r = __dfsw_pread64(fd, b.p + o, n, x, 0, 0, 0, 0, &rl);
    else if (FN(recv))
      r = __dfsw_recv(fd, b.p + o, n, x, 0, 0, 0, 0, &rl);
    else if (FN(recvfrom)) {
      struct sockaddr_storage ss;
      socklen_t sl = sizeof ss;
      r = __dfsw_recvfrom(fd, b.p + o, n, x, (sockaddr *)&ss, &sl, 0, 0, 0, 0, 0, 0, &rl);
    }
    int e = errno;
    Ev v(b.big ? "bigread" : "read");
    v.s("fn", fn).n("h", h).n("fd", fd).n("b", N(t[3])).n("off", o).n("req", n)
        .off("at", (FN(pread) || FN(pread64)) ? x : 0).n("fl", (FN(recv) || FN(recvfrom)) ? x : 0)
        .n("ret", r).n("err", r < 0 ? e : 0).n("rl", rl);
    if (b.big)
      v.a("runs", runs(b.p - HALO, b.n + 2 * HALO)).n("eq", r <= 0 || same_as_file(fd, b.p + o, r, was));
    else
      v.a("pd", pd).a("pl", pl).a("qd", dat(b)).a("ql", lab(b));
    v.done();
  } else if (op == "fread") { // fread fn h B off size count
    const std::string &fn = t[1];
    int h = N(t[2]);
    Buf &b = buf(N(t[3]));
    size_t o = N(t[4]), sz = N(t[5]), c = N(t[6]);
    auto pd = b.big ? std::vector<int>() : dat(b);
    auto pl = b.big ? std::vector<L>() : lab(b);
    L rl = POISON;
    size_t r = 0;
    long long was = b.big ? (long long)ftello(files[h]) : 0;
    if (FN(fread))
      r = __dfsw_fread(b.p + o, sz, c, files[h], 0, 0, 0, 0, &rl);
    else if (FN(fread_unlocked))
      r = __dfsw_fread_unlocked(b.p + o, sz, c, files[h], 0, 0, 0, 0, &rl);
    Ev v(b.big ? "bigfread" : "fread");
    v.s("fn", fn).n("h", h).n("fd", fileno(files[h])).n("b", N(t[3])).n("off", o).n("sz", sz)
        .n("cnt", c).n("ret", r).n("rl", rl);
    if (b.big)
      v.a("runs", runs(b.p - HALO, b.n + 2 * HALO)).n("eq", !r || same_as_file(fileno(files[h]), b.p + o, r * sz, was));
    else
      v.a("pd", pd).a("pl", pl).a("qd", dat(b)).a("ql", lab(b));
    v.done();
  } else if (op == "getc") { // getc fn h reg
    const std::string &fn = t[1];
    int h = N(t[2]), g = N(t[3]);
    L rl = POISON;
    int c = -2;
    FILE *f = files[h];
    if (FN(fgetc))
      c = __dfsw_fgetc(f, 0, &rl);
    else if (FN(fgetc_unlocked))
      c = __dfsw_fgetc_unlocked(f, 0, &rl);
    else if (FN(_IO_getc))
      c = __dfsw__IO_getc(f, 0, &rl);
    else if (FN(getc))
      c = __dfsw_getc(f, 0, &rl);
    else if (FN(getc_unlocked))
      c = __dfsw_getc_unlocked(f, 0, &rl);
    else if (FN(getchar))
      c = __dfsw_getchar(&rl);
    else if (FN(getchar_unlocked))
      c = __dfsw_getchar_unlocked(&rl);
    regs[g] = c == EOF ? 0 : rl;
    vals[g] = c;
    Ev("getc").s("fn", fn).n("h", h).n("fd", fileno(f)).n("ret", c).n("rl", rl).done();
  } else if (op == "fgets") { // fgets h B off n
    int h = N(t[1]);
    Buf &b = buf(N(t[2]));
    size_t o = N(t[3]);
    int n = N(t[4]);
    auto pd = dat(b);
    auto pl = lab(b);
    L rl = POISON;
    L ptrl = t.size() > 5 ? regs[N(t[5])] : 0;
    char *r = __dfsw_fgets((char *)b.p + o, n, files[h], ptrl, 0, 0, &rl);
    Ev("fgets").n("h", h).n("fd", fileno(files[h])).n("b", N(t[2])).n("off", o).n("req", n)
        .n("ret", r ? (r == (char *)b.p + o ? 1 : 2) : 0).n("ptrl", ptrl).n("rl", rl)
        .a("pd", pd).a("pl", pl).a("qd", dat(b)).a("ql", lab(b)).done();
  } else if (op == "getdelim") { // getdelim fn h delim regbase : into a fresh heap line
    const std::string &fn = t[1];
    int h = N(t[2]);
    char *line = nullptr;
    size_t cap = 0;
    L rl = POISON;
    ssize_t r = FN(getdelim) ? __dfsw_getdelim(&line, &cap, N(t[3]), files[h], 0, 0, 0, 0, &rl)
                             : __dfsw___getdelim(&line, &cap, N(t[3]), files[h], 0, 0, 0, 0, &rl);
    std::vector<int> d;
    std::vector<L> l;
    for (ssize_t i = 0; line && i < (r < 0 ? 0 : r + 1); i++) {
      d.push_back((unsigned char)line[i]);
      l.push_back(dfsan_read_label(line + i, 1));
    }
    if (r > 0)
      regs[N(t[4])] = l[0];
    Ev("getdelim").s("fn", fn).n("h", h).n("fd", fileno(files[h])).n("delim", N(t[3])).n("ret", r)
        .n("rl", rl).a("d", d).a("l", l).done();
    if (line) {
      dfsan_set_label(0, line, cap);
      free(line);
    }
  } else if (op == "mmap") { // mmap h len off flags(p|s|a) : fresh mapping, then released natively
    int h = N(t[1]);
    size_t len = N(t[2]);
    long long at = N(t[3]);
    bool anon = t[4].find('a') != std::string::npos;
    bool stale = t[4].find('d') != std::string::npos; // place it over labelled memory
    int fd = anon && t[4].find('f') == std::string::npos ? -1 : fds[h]; // f: a descriptor all the same
    void *want = nullptr;
    int fl = anon ? MAP_PRIVATE | MAP_ANONYMOUS : MAP_PRIVATE;
    if (stale) {
      want = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      dfsan_set_label(regs[N(t[5])], want, 4096);
      fl |= MAP_FIXED;
    }
    L rl = POISON;
    unsigned char *p = (unsigned char *)__dfsw_mmap(want, len, PROT_READ | PROT_WRITE, fl, fd, at, 0, 0, 0, 0, 0, 0, &rl);
    std::vector<int> d;
    std::vector<L> l;
    if (p != MAP_FAILED)
      for (size_t i = 0; i < len + HALO && i < 4096; i++) {
        l.push_back(dfsan_read_label(p + i, 1));
        if (i < len)
          d.push_back(p[i]);
      }
    std::vector<L> l2;
    L rl2 = POISON;
    int mr = -9;
    if (p != MAP_FAILED) {
      mr = __dfsw_munmap(p, 4096, 0, 0, &rl2);
      for (size_t i = 0; i < 4096; i += 1)
        if (dfsan_read_label(p + i, 1))
          l2.push_back(i);
    }
    Ev("mmap").n("h", h).n("fd", fd).n("anon", anon).n("len", len).off("at", at)
        .n("ret", p == MAP_FAILED ? -1 : 0).n("rl", rl).a("d", d).a("l", l)
        .n("stale", stale ? regs[N(t[5])] : 0).n("mret", mr).n("rl2", rl2).a("left", l2).done();
  } else if (op == "unmap") { // unmap h : three pages of a file; failing, partial and full unmapping
    L rl = POISON;
    size_t pg = 4096;
    unsigned char *p = (unsigned char *)__dfsw_mmap(nullptr, 3 * pg, PROT_READ, MAP_PRIVATE, fds[N(t[1])], 0, 0, 0, 0, 0, 0, 0, &rl);
    L last = dfsan_read_label(p + 3 * pg - 1, 1);
    std::vector<int> rets, cnt;
    std::vector<L> rls;
    auto count = [&] {
      for (int k = 0; k < 3; k++) {
        int c = 0;
        for (size_t i = 0; i < pg; i++)
          c += dfsan_read_label(p + k * pg + i, 1) != 0;
        cnt.push_back(c);
      }
    };
    for (auto [o, n] : std::vector<std::pair<size_t, size_t>>{{1, pg}, {0, 0}, {pg, pg}, {0, pg}, {2 * pg, pg}}) {
      L r = POISON;
      rets.push_back(__dfsw_munmap(p + o, n, 0, 0, &r));
      rls.push_back(r);
      count();
    }
    Ev("unmap").n("h", N(t[1])).n("fd", fds[N(t[1])]).n("last", last).a("rets", rets).a("rls", rls).a("cnt", cnt).done();
  } else if (op == "write") { // write fn h B off n [flags]
    const std::string &fn = t[1];
    int h = N(t[2]);
    Buf &b = buf(N(t[3]));
    size_t o = N(t[4]), n = N(t[5]);
    L rl = POISON;
    auto d = b.big ? std::vector<int>() : dat(b);
    auto pl = b.big ? std::vector<L>() : lab(b);
    ssize_t r = -2;
    int fd = fds[h];
    errno = 0;
    if (FN(write))
      r = __dfsw_write(fd, b.p + o, n, 0, 0, 0, &rl);
    else if (FN(send))
      r = __dfsw_send(fd, b.p + o, n, t.size() > 6 ? N(t[6]) : MSG_NOSIGNAL, 0, 0, 0, 0, &rl);
    else if (FN(raw)) {
      r = write(fd, b.p + o, n);
      rl = 0;
    }
    int e = errno;
    Ev v(b.big ? "bigwrite" : "write");
    v.s("fn", fn).n("h", h).n("fd", fd).n("b", N(t[3])).n("off", o).n("req", n).n("ret", r).n("err", e).n("rl", rl);
    if (!b.big)
      v.a("pd", d).a("pl", pl).a("qd", dat(b)).a("ql", lab(b));
    v.done();
  } else if (op == "fwrite") { // fwrite h B off size count
    int h = N(t[1]);
    Buf &b = buf(N(t[2]));
    size_t o = N(t[3]), sz = N(t[4]), c = N(t[5]);
    L rl = POISON;
    auto d = dat(b);
    auto pl = lab(b);
    size_t r = __dfsw_fwrite(b.p + o, sz, c, files[h], 0, 0, 0, 0, &rl);
    Ev("fwrite").n("h", h).n("fd", fileno(files[h])).n("b", N(t[2])).n("off", o).n("sz", sz).n("cnt", c)
        .n("ret", r).n("rl", rl).a("pd", d).a("pl", pl).a("qd", dat(b)).a("ql", lab(b)).done();
  } else if (op == "putc") { // putc fn h reg char
    const std::string &fn = t[1];
    int h = N(t[2]);
    L lb = regs[N(t[3])];
    int c = N(t[4]);
    L rl = POISON;
    int r = FN(putc) ? __dfsw_putc(c, files[h], lb, 0, &rl)
                     : FN(fputc) ? __dfsw_fputc(c, files[h], lb, 0, &rl) : (rl = 0, fputc(c, files[h]));
    Ev("putc").s("fn", fn).n("h", h).n("fd", fileno(files[h])).n("c", c).n("l", lb).n("ret", r).n("rl", rl).done();
  } else if (op == "argv") { // argv hex... : argument vector tainting
    std::vector<char *> av;
    std::vector<std::string> ss;
    for (size_t i = 1; i < t.size(); i++)
      ss.push_back(unhex(t[i]));
    for (auto &s : ss) {
      char *m = (char *)mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0) ;
      m += HALO;
      memcpy(m, s.c_str(), s.size() + 1);
      av.push_back(m);
    }
    av.push_back(nullptr);
    __polytracker_taint_argv((int)ss.size(), av.data());
    std::ostringstream o;
    o << "{\"op\":\"argv\",\"args\":[";
    for (size_t i = 0; i < ss.size(); i++) {
      o << (i ? "," : "") << "{\"d\":[";
      for (size_t k = 0; k < ss[i].size(); k++)
        o << (k ? "," : "") << (int)(unsigned char)ss[i][k];
      o << "],\"keep\":" << (memcmp(av[i], ss[i].c_str(), ss[i].size() + 1) == 0) << ",\"l\":[";
      auto l = labels_of((unsigned char *)av[i] - HALO, ss[i].size() + 2 * HALO);
      for (size_t k = 0; k < l.size(); k++)
        o << (k ? "," : "") << l[k];
      o << "]}";
    }
    o << "]}";
    emit(o.str());
    for (size_t i = 0; i < ss.size(); i++)
      if (!ss[i].empty())
        regs[900 + i] = dfsan_read_label(av[i], 1);
  } else if (op == "lb") { // lb B off reg
    regs[N(t[3])] = dfsan_read_label(buf(N(t[1])).p + N(t[2]), 1);
  } else if (op == "li") { // li reg label : native constant
    regs[N(t[1])] = U(t[2]);
  } else if (op == "un" || op == "unt") { // un ra rb rd
    L a = regs[N(t[1])], b = regs[N(t[2])];
    L r = op == "un" ? dfsan_union(a, b) : __polytracker_union_table(a, b);
    regs[N(t[3])] = r;
    Ev("un").n("a", a).n("b", b).n("r", r).done();
  } else if (op == "ldn") { // ldn B off n reg
    Buf &b = buf(N(t[1]));
    auto l = labels_of(b.p + N(t[2]), N(t[3]));
    L r = dfsan_read_label(b.p + N(t[2]), N(t[3]));
    regs[N(t[4])] = r;
    if (b.big)
      Ev("bigldn").a("runs", runs(b.p + N(t[2]), N(t[3]))).n("r", r).done();
    else
      Ev("ldn").a("ls", l).n("r", r).done();
  } else if (op == "setl" || op == "addl") { // setl B off n reg
    Buf &b = buf(N(t[1]));
    auto pl = lab(b);
    L l = regs[N(t[4])];
    if (op == "setl")
      dfsan_set_label(l, b.p + N(t[2]), N(t[3]));
    else
      dfsan_add_label(l, b.p + N(t[2]), N(t[3]));
    Ev(op).n("b", N(t[1])).n("off", N(t[2])).n("n", N(t[3])).n("l", l).a("pl", pl).a("ql", lab(b)).done();
  } else if (op == "br") { // br reg value
    uint64_t v = t.size() > 2 ? U(t[2]) : 1;
    __dfsw___polytracker_log_conditional_branch(v, regs[N(t[1])]);
    Ev("br").n("l", regs[N(t[1])]).done();
  } else if (op == "brr") {
    __polytracker_log_conditional_branch(regs[N(t[1])]);
    Ev("br").n("l", regs[N(t[1])]).done();
  } else if (op == "tcf") { // tcf reg|#label fid cond
    L l = t[1][0] == '#' ? U(t[1].substr(1)) : regs[N(t[1])];
    uint32_t fid = U(t[2]);
    uint64_t c = U(t[3]);
    L rl = POISON;
    uint64_t r = __dfsw___polytracker_log_tainted_control_flow(c, fid, l, 0, &rl);
    Ev("tcf").w("l", l).w("fid", fid).w("c", c).w("ret", r).w("rl", rl).done();
  } else if (op == "ent") {
    __polytracker_enter_function(U(t[1]));
    Ev("ent").w("fid", U(t[1])).done();
  } else if (op == "lev") {
    __polytracker_leave_function(U(t[1]));
    Ev("lev").w("fid", U(t[1])).done();
  } else if (op == "fent") { // fent hexname keep|scratch
    std::string nm = unhex(t[1]);
    static thread_local char scratch[70000];
    char *p = scratch;
    if (t.size() > 2 && t[2] == "keep")
      p = (char *)malloc(nm.size() + 1);
    memcpy(p, nm.data(), nm.size());
    p[nm.size()] = 'Z';
    uint16_t r = __polytracker_log_func_entry(p, nm.size());
    Ev("fent").s("name", t[1]).n("r", r).done();
  } else if (op == "fex") {
    __polytracker_log_func_exit(N(t[1]));
    Ev("fex").n("i", N(t[1])).done();
  } else if (op == "mfent") { // mfent n width base : many functions, names are numbers
    long n = N(t[1]), w = N(t[2]), base = N(t[3]), ok = 0;
    Ev("mfent").n("n", n).n("w", w).n("base", base).done();
    for (long i = 0; i < n; i++) {
      char nm[300];
      snprintf(nm, sizeof nm, "%0*lx", (int)w, base + i);
      ok += __polytracker_log_func_entry(nm, w) == (uint16_t)(base + i);
    }
    Ev("mdone").n("ok", ok == n).done();
  } else if (op == "mwr") { // mwr handle buf n count : many writes
    Buf &b = bufs[N(t[2])];
    Ev("mwr").n("n", N(t[3])).n("count", N(t[4])).done();
    bool ok = true;
    for (long i = 0; i < N(t[4]); i++) {
      L rl;
      ok &= __dfsw_write(fds[N(t[1])], b.p, N(t[3]), 0, 0, 0, &rl) == N(t[3]);
    }
    Ev("mdone").n("ok", ok).done();
  } else if (op == "mcf") { // mcf n fid label : many tainted branches
    Ev("mcf").n("n", N(t[1])).done();
    L rl, l = U(t[3]);
    bool ok = true;
    for (long i = 0; i < N(t[1]); i++)
      ok &= __dfsw___polytracker_log_tainted_control_flow(1, U(t[2]), l, 0, &rl) == 1;
    Ev("mdone").n("ok", ok).done();
  } else if (op == "malloc" || op == "calloc") { // malloc B n
    Buf b;
    b.n = N(t[2]);
    L rl = POISON;
    void *p = op == "malloc" ? __dfsw_malloc(b.n, 0, &rl) : __dfsw_calloc(b.n, 1, 0, 0, &rl);
    b.p = (unsigned char *)p;
    bufs[N(t[1])] = b;
    std::vector<int> d;
    if (op == "calloc")
      for (size_t i = 0; i < b.n; i++)
        d.push_back(b.p[i]);
    Ev(op).n("b", N(t[1])).n("n", b.n).n("null", p == nullptr).n("rl", rl).a("d", d)
        .a("l", p ? labels_of(b.p, b.n) : std::vector<L>()).done();
  } else if (op == "realloc") { // realloc B n [fail]
    Buf &b = bufs[N(t[1])];
    size_t n = N(t[2]), on = b.n;
    auto pd = std::vector<int>(b.p, b.p + (b.p ? on : 0));
    auto pl = b.p ? labels_of(b.p, on) : std::vector<L>();
    L rl = POISON;
    struct rlimit old;
    bool fail = t.size() > 3;
    if (fail)
      n = (size_t)1 << 60;
    unsigned char *q = (unsigned char *)__dfsw_realloc(b.p, n, 0, 0, &rl);
    bool ok = q != nullptr;
    if (ok) {
      b.p = q;
      b.n = n;
    } else if (!fail && n == 0) {
      b.p = nullptr;
      b.n = 0;
    }
    size_t m = b.p ? b.n : 0;
    auto qd = std::vector<int>(b.p, b.p + m);
    Ev("realloc").n("b", N(t[1])).n("old", on).n("n", fail ? -1 : (long long)n).n("null", !ok).n("rl", rl)
        .a("pd", pd).a("pl", pl).a("qd", qd).a("ql", b.p ? labels_of(b.p, m) : std::vector<L>()).done();
  } else if (op == "free") {
    Buf &b = bufs[N(t[1])];
    __dfsw_free(b.p, 0);
    b.p = nullptr;
    b.n = 0;
    Ev("free").n("b", N(t[1])).done();
  } else if (op == "hset") { // hset B i reg val : store a labelled byte in a heap buffer
    Buf &b = bufs[N(t[1])];
    b.p[N(t[2])] = N(t[4]);
    dfsan_set_label(regs[N(t[3])], b.p + N(t[2]), 1);
  } else if (op == "mem") { // mem fn B1 o1 B2 o2 n|c : memory and string wrappers
    const std::string &fn = t[1];
    Buf &b = buf(N(t[2])), &s = buf(N(t[4]));
    size_t o = N(t[3]), so = N(t[5]);
    long long n = N(t[6]);
    L dl = t.size() > 7 ? regs[N(t[7])] : 0, sl = t.size() > 8 ? regs[N(t[8])] : 0;
    auto pd = dat(b);
    auto pl = lab(b);
    auto sd = dat(s);
    auto sla = lab(s);
    L rl = POISON;
    char *d = (char *)b.p + o, *sp = (char *)s.p + so;
    char *r = nullptr;
    if (FN(memcpy))
      r = (char *)__dfsw_memcpy(d, sp, n, dl, sl, 0, &rl);
    else if (FN(memmove))
      r = (char *)__dfsw_memmove(d, sp, n, dl, sl, 0, &rl);
    else if (FN(memset))
      r = (char *)__dfsw_memset(d, so, n, dl, sl, 0, &rl);
    else if (FN(strcpy))
      r = __dfsw_strcpy(d, sp, dl, sl, &rl);
    else if (FN(strncpy))
      r = __dfsw_strncpy(d, sp, n, dl, sl, 0, &rl);
    else if (FN(strcat))
      r = __dfsw_strcat(d, sp, dl, sl, &rl);
    else if (FN(strdup)) {
      char *q = __dfsw_strdup(sp, sl, &rl);
      size_t k = strlen(sp) + 1;
      Ev("strdup").n("so", so).a("sd", sd).a("sl", sla).n("rl", rl).n("ptrl", sl)
          .a("qd", std::vector<int>((unsigned char *)q, (unsigned char *)q + k))
          .a("ql", labels_of((unsigned char *)q, k)).done();
      dfsan_set_label(0, q, k);
      free(q);
      return;
    }
    Ev("mem").s("fn", fn).n("b", N(t[2])).n("o", o).n("s", N(t[4])).n("so", so).n("n", n)
        .n("dl", dl).n("sl", sl).n("same", r == d).n("rl", rl)
        .a("pd", pd).a("pl", pl).a("sd", sd).a("sla", sla).a("qd", dat(b)).a("ql", lab(b)).done();
  } else if (op == "mark") {
    Ev("mark").s("m", t[1]).done();
  } else if (op == "spin") {
    for (volatile int i = 0; i < N(t[1]); i = i + 1)
      ;
  } else if (op == "exit") {
    Ev("exit").n("code", N(t[1])).done();
    if (t.size() > 2)
      exit(N(t[1]));
    __dfsw_exit(N(t[1]), 0);
  } else if (op == "assert") {
    Ev("assert").done();
    __dfsw___assert_fail("driver", "driver", 1, "driver", 0, 0, 0, 0);
  } else if (op == "_exit") {
    Ev("_exit").done();
    _exit(N(t[1]));
  } else {
    fprintf(stderr, "unknown op %s\n", op.c_str());
    _exit(95);
  }
}

int main(int argc, char **argv) {
  if (argc < 3)
    return 94;
  signal(SIGPIPE, SIG_IGN);
  signal(SIGXFSZ, SIG_IGN);
  umask(022);
  int e = open(argv[2], O_CREAT | O_TRUNC | O_WRONLY, 0600);
  evfd = fcntl(e, F_DUPFD, 900);
  close(e);
  std::string text;
  {
    int s = open(argv[1], O_RDONLY);
    char tmp[65536];
    ssize_t k;
    while ((k = read(s, tmp, sizeof tmp)) > 0)
      text.append(tmp, k);
    close(s);
  }
  std::istringstream is(text);
  std::string line;
  bool in_par = false;
  std::vector<std::vector<std::vector<std::string>>> bodies;
  while (std::getline(is, line)) {
    auto t = split(line);
    if (t.empty() || t[0][0] == '%')
      continue;
    if (t[0] == "par") {
      in_par = true;
      bodies.clear();
      bodies.resize(N(t[1]));
      continue;
    }
    if (t[0] == "endpar") {
      in_par = false;
      run_threads(bodies);
      continue;
    }
    if (in_par) { // first token: thread number
      int k = N(t[0]);
      bodies[k].push_back(std::vector<std::string>(t.begin() + 1, t.end()));
      continue;
    }
    one(t);
  }
  Ev("return").done();
  return 0;
}
