// String, conversion, formatting and system-information calls of the driver.
// Each event holds the arguments, the outcome of the tracked call and, where the
// C library alone can tell (number conversion, text of one directive), the
// outcome of the untracked call on the same arguments.
#include <poll.h>
#include <sched.h>
#include <sys/epoll.h>
#include <sys/select.h>
#include <sys/time.h>
#include <time.h>
extern "C" {
int __dfsw_memcmp(const void *, const void *, size_t, L, L, L, L *);
int __dfsw_bcmp(const void *, const void *, size_t, L, L, L, L *);
int __dfsw_strcmp(const char *, const char *, L, L, L *);
int __dfsw_strcasecmp(const char *, const char *, L, L, L *);
int __dfsw_strncmp(const char *, const char *, size_t, L, L, L, L *);
int __dfsw_strncasecmp(const char *, const char *, size_t, L, L, L, L *);
size_t __dfsw_strlen(const char *, L, L *);
char *__dfsw_strchr(const char *, int, L, L, L *);
char *__dfsw_strrchr(char *, int, L, L, L *);
void *__dfsw_memchr(void *, int, size_t, L, L, L, L *);
char *__dfsw_strstr(char *, char *, L, L, L *);
char *__dfsw_strpbrk(const char *, const char *, L, L, L *);
long __dfsw_strtol(const char *, char **, int, L, L, L, L *);
long long __dfsw_strtoll(const char *, char **, int, L, L, L, L *);
unsigned long __dfsw_strtoul(const char *, char **, int, L, L, L, L *);
unsigned long long __dfsw_strtoull(const char *, char **, int, L, L, L, L *);
double __dfsw_strtod(const char *, char **, L, L, L *);
int __dfsw_sprintf(char *, const char *, L, L, L *, L *, ...);
int __dfsw_snprintf(char *, size_t, const char *, L, L, L, L *, L *, ...);
int __dfsw_stat(const char *, struct stat *, L, L, L *);
int __dfsw_fstat(int, struct stat *, L, L, L *);
char *__dfsw_getcwd(char *, size_t, L, L, L *);
int __dfsw_gethostname(char *, size_t, L, L, L *);
int __dfsw_getrlimit(int, struct rlimit *, L, L, L *);
int __dfsw_getrusage(int, struct rusage *, L, L, L *);
time_t __dfsw_time(time_t *, L, L *);
int __dfsw_gettimeofday(struct timeval *, struct timezone *, L, L, L *);
int __dfsw_clock_gettime(clockid_t, struct timespec *, L, L, L *);
struct tm *__dfsw_localtime_r(const time_t *, struct tm *, L, L, L *);
char *__dfsw_ctime_r(const time_t *, char *, L, L, L *);
int __dfsw_inet_pton(int, const char *, void *, L, L, L, L *);
int __dfsw_getsockname(int, struct sockaddr *, socklen_t *, L, L, L, L *);
int __dfsw_getpeername(int, struct sockaddr *, socklen_t *, L, L, L, L *);
int __dfsw_getsockopt(int, int, int, void *, socklen_t *, L, L, L, L, L, L *);
int __dfsw_socketpair(int, int, int, int *, L, L, L, L, L *);
int __dfsw_poll(struct pollfd *, nfds_t, int, L, L, L, L *);
int __dfsw_select(int, fd_set *, fd_set *, fd_set *, struct timeval *, L, L, L, L, L, L *);
int __dfsw_epoll_wait(int, struct epoll_event *, int, int, L, L, L, L, L *);
int __dfsw_sched_getaffinity(pid_t, size_t, cpu_set_t *, L, L, L, L *);
int __dfsw_sigemptyset(sigset_t *, L, L *);
int __dfsw_sigaltstack(const stack_t *, stack_t *, L, L, L *);
}
static int sgn(long long x) { return x < 0 ? -1 : x > 0; }
static std::vector<std::string> colons(const std::string &s) {
  std::vector<std::string> r(1);
  for (char c : s)
    if (c == ':')
      r.emplace_back();
    else
      r.back() += c;
  return r;
}
static std::string jarr(const std::vector<long long> &v) {
  std::ostringstream o;
  o << "[";
  for (size_t i = 0; i < v.size(); i++)
    o << (i ? "," : "") << v[i];
  o << "]";
  return o.str();
}
template <typename T> static std::vector<long long> wide(const std::vector<T> &v) {
  return std::vector<long long>(v.begin(), v.end());
}
static uint64_t bitsof(double d) {
  uint64_t u;
  memcpy(&u, &d, 8);
  return u;
}

static bool strop(const std::vector<std::string> &t) {
  const std::string &op = t[0];
  if (op == "cmp") { // cmp fn A ao B bo n [regA regB]
    const std::string &fn = t[1];
    Buf &a = buf(N(t[2])), &b = buf(N(t[4]));
    size_t ao = N(t[3]), bo = N(t[5]), n = N(t[6]);
    L la = t.size() > 7 ? regs[N(t[7])] : 0, lb = t.size() > 8 ? regs[N(t[8])] : 0, rl = POISON;
    auto ad = dat(a), bd = dat(b);
    auto al = lab(a), bl = lab(b);
    char *x = (char *)a.p + ao, *y = (char *)b.p + bo;
    int r = -9;
    if (FN(strcmp)) r = __dfsw_strcmp(x, y, la, lb, &rl);
    else if (FN(strncmp)) r = __dfsw_strncmp(x, y, n, la, lb, 0, &rl);
    else if (FN(strcasecmp)) r = __dfsw_strcasecmp(x, y, la, lb, &rl);
    else if (FN(strncasecmp)) r = __dfsw_strncasecmp(x, y, n, la, lb, 0, &rl);
    else if (FN(memcmp)) r = __dfsw_memcmp(x, y, n, la, lb, 0, &rl);
    else if (FN(bcmp)) r = __dfsw_bcmp(x, y, n, la, lb, 0, &rl);
    Ev("cmp").s("fn", fn).n("ao", ao).n("bo", bo).n("n", n).n("r", sgn(r)).n("rl", rl)
        .a("ad", ad).a("bd", bd).n("keep", ad == dat(a) && bd == dat(b) && al == lab(a) && bl == lab(b)).done();
  } else if (op == "find") { // find fn A ao c B bo n reg
    const std::string &fn = t[1];
    Buf &a = buf(N(t[2])), &b = buf(N(t[5]));
    size_t ao = N(t[3]), bo = N(t[6]), n = N(t[7]);
    int c = N(t[4]);
    L la = regs[N(t[8])], rl = POISON;
    auto ad = dat(a), bd = dat(b);
    auto al = lab(a), bl = lab(b);
    char *x = (char *)a.p + ao, *y = (char *)b.p + bo, *r = nullptr;
    if (FN(strlen)) r = x + __dfsw_strlen(x, la, &rl);
    else if (FN(strchr)) r = __dfsw_strchr(x, c, la, 0, &rl);
    else if (FN(strrchr)) r = __dfsw_strrchr(x, c, la, 0, &rl);
    else if (FN(memchr)) r = (char *)__dfsw_memchr(x, c, n, la, 0, 0, &rl);
    else if (FN(strstr)) r = __dfsw_strstr(x, y, la, 0, &rl);
    else if (FN(strpbrk)) r = __dfsw_strpbrk(x, y, la, 0, &rl);
    Ev("find").s("fn", fn).n("ao", ao).n("bo", bo).n("n", n).n("c", (unsigned char)c).n("r", r ? r - x : -1).n("la", la).n("rl", rl)
        .a("ad", ad).a("bd", bd).n("keep", ad == dat(a) && bd == dat(b) && al == lab(a) && bl == lab(b)).done();
  } else if (op == "conv") { // conv fn A ao base reg destreg [null]
    const std::string &fn = t[1];
    Buf &a = buf(N(t[2]));
    size_t ao = N(t[3]);
    int base = N(t[4]);
    L lb = regs[N(t[5])], rl = POISON;
    bool null = t.size() > 7;
    auto ad = dat(a);
    auto al = lab(a);
    char *x = (char *)a.p + ao, *e1 = nullptr, *e2 = nullptr, **pe = null ? nullptr : &e1;
    uint64_t v = 0, w = 0;
    errno = 0;
    if (FN(strtol)) v = __dfsw_strtol(x, pe, base, 0, 0, lb, &rl);
    else if (FN(strtoll)) v = __dfsw_strtoll(x, pe, base, 0, 0, lb, &rl);
    else if (FN(strtoul)) v = __dfsw_strtoul(x, pe, base, 0, 0, lb, &rl);
    else if (FN(strtoull)) v = __dfsw_strtoull(x, pe, base, 0, 0, lb, &rl);
    else if (FN(strtod)) v = bitsof(__dfsw_strtod(x, pe, 0, 0, &rl)), lb = 0;
    int er1 = errno;
    errno = 0;
    if (FN(strtol)) w = strtol(x, &e2, base);
    else if (FN(strtoll)) w = strtoll(x, &e2, base);
    else if (FN(strtoul)) w = strtoul(x, &e2, base);
    else if (FN(strtoull)) w = strtoull(x, &e2, base);
    else if (FN(strtod)) w = bitsof(strtod(x, &e2));
    int er2 = errno;
    regs[N(t[6])] = rl;
    Ev("conv").s("fn", fn).n("ao", ao).w("v", v).w("ref", w).n("end", null ? e2 - x : e1 ? e1 - x : -1).n("refend", e2 - x).n("err", er1).n("referr", er2)
        .n("lb", lb).n("rl", rl).a("ad", ad).a("al", al).n("keep", ad == dat(a) && al == lab(a)).done();
  } else if (op == "fmt") { // fmt size B off PIECE... (size -1: sprintf)
    long long size = N(t[1]);
    Buf &b = buf(N(t[2]));
    size_t o = N(t[3]);
    auto pd = dat(b);
    auto pl = lab(b);
    std::string f, pieces;
    long g[10] = {0};
    double d[8] = {0};
    L vl[16] = {0};
    int ng = 0, nd = 0, nl = 0;
    int *np = nullptr;
    std::vector<L> np0;
    for (size_t i = 4; i < t.size(); i++) {
      auto q = colons(t[i]);
      std::ostringstream p;
      char txt[256];
      if (q[0] == "t") { // t:HEX
        std::string s = unhex(q[1]);
        f += s;
        p << "{\"k\":\"lit\",\"t\":" << jarr(wide(bytes(s))) << "}";
      } else if (q[0] == "%") {
        f += "%%";
        p << "{\"k\":\"lit\",\"t\":[37]}";
      } else if (q[0] == "m") {
        f += "%m";
        std::string s = strerror(ENOENT);
        p << "{\"k\":\"lit\",\"t\":" << jarr(wide(bytes(s))) << "}";
      } else if (q[0] == "n") { // n:BUF:OFF
        Buf &z = buf(N(q[1]));
        np = (int *)(z.p + N(q[2]));
        np0 = labels_of((unsigned char *)np - 8, 24);
        f += "%n";
        g[ng++] = (long)np;
        vl[nl++] = 0;
        p << "{\"k\":\"n\"}";
      } else { // d:FLAGS:WIDTH:PREC:CONV:VAL:REG  s:FLAGS:WIDTH:PREC:BUF:OFF
        std::string fl = q[1] == "-" ? "" : q[1] == "_" ? "-" : q[1], one = "%" + fl;
        int st[2], ns = 0;
        bool left = fl.find('-') != std::string::npos;
        long prec = -1;
        auto star = [&](const std::string &x, bool dot) {
          if (x == "-")
            return;
          if (dot)
            one += ".";
          if (x[0] == '*') {
            st[ns++] = N(x.substr(1));
            g[ng++] = st[ns - 1];
            vl[nl++] = 0;
            one += "*";
            if (!dot && st[ns - 1] < 0)
              left = true;
            if (dot && st[ns - 1] >= 0)
              prec = st[ns - 1];
          } else {
            one += x;
            if (dot)
              prec = N(x);
          }
        };
        star(q[2], false);
        star(q[3], true);
        int r = 0;
        if (q[0] == "s") {
          one += "s";
          Buf &z = buf(N(q[4]));
          char *arg = (char *)z.p + N(q[5]);
          size_t m = prec >= 0 ? strnlen(arg, prec) : strlen(arg);
          r = ns == 0 ? snprintf(txt, 250, one.c_str(), arg) : ns == 1 ? snprintf(txt, 250, one.c_str(), st[0], arg) : snprintf(txt, 250, one.c_str(), st[0], st[1], arg);
          g[ng++] = (long)arg;
          vl[nl++] = 0;
          p << "{\"k\":\"str\",\"left\":" << left << ",\"al\":" << jarr(wide(labels_of((unsigned char *)arg, m)));
        } else if (q[0] == "f") {
          one += q[4];
          double v = strtod(q[5].c_str(), nullptr);
          r = ns == 0 ? snprintf(txt, 250, one.c_str(), v) : ns == 1 ? snprintf(txt, 250, one.c_str(), st[0], v) : snprintf(txt, 250, one.c_str(), st[0], st[1], v);
          d[nd++] = v;
          vl[nl++] = regs[N(q[6])];
          p << "{\"k\":\"num\",\"l\":" << regs[N(q[6])];
        } else {
          one += q[4];
          long v = N(q[5]);
          r = ns == 0 ? snprintf(txt, 250, one.c_str(), v) : ns == 1 ? snprintf(txt, 250, one.c_str(), st[0], v) : snprintf(txt, 250, one.c_str(), st[0], st[1], v);
          g[ng++] = v;
          vl[nl++] = regs[N(q[6])];
          p << "{\"k\":\"num\",\"l\":" << regs[N(q[6])];
        }
        f += one;
        std::vector<long long> tx;
        for (int k = 0; k < r && k < 249; k++)
          tx.push_back((unsigned char)txt[k]);
        p << ",\"t\":" << jarr(tx) << "}";
      }
      pieces += (pieces.empty() ? "" : ",") + p.str();
    }
    L rl = POISON;
    char *out = (char *)b.p + o;
    int r;
    errno = ENOENT;
    if (size < 0)
      r = __dfsw_sprintf(out, f.c_str(), 0, 0, vl, &rl, g[0], g[1], g[2], g[3], g[4], g[5], g[6], g[7], g[8], g[9], d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]);
    else
      r = __dfsw_snprintf(out, size, f.c_str(), 0, 0, 0, vl, &rl, g[0], g[1], g[2], g[3], g[4], g[5], g[6], g[7], g[8], g[9], d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]);
    Ev v("fmt");
    v.n("size", size).n("off", o).n("ret", r).n("rl", rl).a("pd", pd).a("pl", pl).a("qd", dat(b)).a("ql", lab(b));
    v.a("n0", np0).a("n1", np ? labels_of((unsigned char *)np - 8, 24) : std::vector<L>()).n("nv", np ? *np : -1);
    v.o << ",\"pieces\":[" << pieces << "]";
    v.done();
  } else if (op == "sys") { // sys fn variant h reg : calls that fill a structure
    const std::string &fn = t[1];
    int var = N(t[2]), h = N(t[3]);
    L g = regs[N(t[4])], g2 = regs[N(t[5])], rl = POISON;
    static const size_t M = 320;
    alignas(16) unsigned char w[M], ref[M], mask[M];
    memset(w, 0xa5, M);
    memset(ref, 0xa5, M);
    memset(mask, 0, M);
    dfsan_set_label(g, w, M);
    size_t at = 32;
    unsigned char *p = w + at, *q = ref + at;
    long r = -9, rr = -9;
    bool det = true; // the outcome of the untracked call is the same each time
    size_t n = 0;    // bytes the call is defined to store on success
    L ptr = 0, want = 0;
    bool isptr = false;
    int fd = fds.count(h) ? fds[h] : -1;
    errno = 0;
    if (FN(stat)) {
      const char *pa = var ? "/nonexistent/x" : "/";
      r = __dfsw_stat(pa, (struct stat *)p, 0, 0, &rl);
      rr = stat(pa, (struct stat *)q);
      n = sizeof(struct stat);
    } else if (FN(fstat)) {
      r = __dfsw_fstat(var ? -1 : fd, (struct stat *)p, 0, 0, &rl);
      rr = fstat(var ? -1 : fd, (struct stat *)q);
      n = sizeof(struct stat);
    } else if (FN(getcwd)) {
      size_t k = var ? 1 : 200;
      ptr = g2;
      isptr = true;
      r = __dfsw_getcwd((char *)p, k, g2, 0, &rl) == (char *)p;
      rr = getcwd((char *)q, k) == (char *)q;
      n = rr ? strlen((char *)q) + 1 : 0;
      det = !var;
    } else if (FN(gethostname)) {
      size_t k = var ? 0 : 128;
      r = __dfsw_gethostname((char *)p, k, 0, 0, &rl);
      rr = gethostname((char *)q, k);
      n = rr == 0 ? strlen((char *)q) + 1 : 0;
      det = !var;
    } else if (FN(getrlimit)) {
      r = __dfsw_getrlimit(var ? -1 : RLIMIT_NOFILE, (struct rlimit *)p, 0, 0, &rl);
      rr = getrlimit((__rlimit_resource)(var ? -1 : RLIMIT_NOFILE), (struct rlimit *)q);
      n = sizeof(struct rlimit);
    } else if (FN(getrusage)) {
      r = __dfsw_getrusage(var ? 77 : RUSAGE_SELF, (struct rusage *)p, 0, 0, &rl);
      rr = getrusage((__rusage_who)(var ? 77 : RUSAGE_SELF), (struct rusage *)q);
      n = sizeof(struct rusage);
      det = false;
    } else if (FN(time)) {
      r = __dfsw_time(var ? nullptr : (time_t *)p, 0, &rl) > 0;
      rr = 1;
      n = var ? 0 : sizeof(time_t);
      det = false;
    } else if (FN(gettimeofday)) {
      r = __dfsw_gettimeofday((struct timeval *)p, nullptr, 0, 0, &rl);
      rr = 0;
      n = sizeof(struct timeval);
      det = false;
    } else if (FN(clock_gettime)) {
      r = __dfsw_clock_gettime(var ? 999 : CLOCK_MONOTONIC, (struct timespec *)p, 0, 0, &rl);
      rr = var ? -1 : 0;
      n = sizeof(struct timespec);
      det = false;
    } else if (FN(localtime_r) || FN(ctime_r)) {
      time_t z = var ? (time_t)1 << 60 : 1234567890 + h * 1000;
      dfsan_set_label(g2, &z, sizeof z);
      ptr = g;
      isptr = true;
      want = g2;
      if (FN(ctime_r)) {
        r = __dfsw_ctime_r(&z, (char *)p, 0, g, &rl) == (char *)p;
        rr = ctime_r(&z, (char *)q) == (char *)q;
        n = rr ? strlen((char *)q) + 1 : 0;
      } else {
        r = __dfsw_localtime_r(&z, (struct tm *)p, 0, g, &rl) == (struct tm *)p;
        rr = localtime_r(&z, (struct tm *)q) == (struct tm *)q;
        n = rr ? sizeof(struct tm) : 0;
      }
      det = !var;
      dfsan_set_label(0, &z, sizeof z);
    } else if (FN(inet_pton)) {
      char a[64];
      strcpy(a, var == 0 ? "10.1.2.3" : var == 1 ? "fe80::1:2" : "10.1.2.x");
      dfsan_set_label(g2, a + 1, 2);
      int af = var == 1 ? AF_INET6 : AF_INET;
      r = __dfsw_inet_pton(af, a, p, 0, 0, 0, &rl);
      rr = inet_pton(af, a, q);
      n = rr == 1 ? (af == AF_INET ? 4 : 16) : 0;
      want = g2;
      dfsan_set_label(0, a, 64);
    } else if (FN(getsockname) || FN(getpeername)) {
      socklen_t k = var == 1 ? 5 : 64, k2 = k;
      int s = var == 2 ? -1 : fd;
      r = FN(getsockname) ? __dfsw_getsockname(s, (sockaddr *)p, &k, 0, 0, 0, &rl) : __dfsw_getpeername(s, (sockaddr *)p, &k, 0, 0, 0, &rl);
      rr = FN(getsockname) ? getsockname(s, (sockaddr *)q, &k2) : getpeername(s, (sockaddr *)q, &k2);
      n = rr == 0 ? std::min<size_t>(k2, var == 1 ? 5 : 64) : 0;
      if (k != k2)
        r = -7;
    } else if (FN(getsockopt)) {
      socklen_t k = 32, k2 = 32;
      int s = var ? -1 : fd;
      r = __dfsw_getsockopt(s, SOL_SOCKET, SO_TYPE, p, &k, 0, 0, 0, 0, 0, &rl);
      rr = getsockopt(s, SOL_SOCKET, SO_TYPE, q, &k2);
      n = rr == 0 ? k2 : 0;
    } else if (FN(socketpair)) {
      r = __dfsw_socketpair(var ? AF_INET : AF_UNIX, SOCK_STREAM, 0, (int *)p, 0, 0, 0, 0, &rl);
      rr = var ? -1 : 0;
      n = 2 * sizeof(int);
      det = false;
      if (r == 0)
        close(((int *)p)[0]), close(((int *)p)[1]);
    } else if (FN(poll)) {
      struct pollfd z[3] = {{fd, POLLOUT, 0x55}, {-1, POLLIN, 0x55}, {var ? 899 : fd, POLLOUT, 0x55}};
      memcpy(p, z, sizeof z);
      memcpy(q, z, sizeof z);
      r = __dfsw_poll((pollfd *)p, 3, 0, 0, 0, 0, &rl);
      rr = poll((pollfd *)q, 3, 0);
      for (int i = 0; i < 3; i++)
        mask[at + i * 8 + 6] = mask[at + i * 8 + 7] = 1;
    } else if (FN(select)) {
      fd_set *a = (fd_set *)p, *b = (fd_set *)q;
      FD_ZERO(a);
      FD_ZERO(b);
      if (fd >= 0 && fd < 1000)
        FD_SET(fd, a), FD_SET(fd, b);
      struct timeval tv = {0, 0}, tv2 = {0, 0};
      r = __dfsw_select(fd + 1, var == 1 ? a : nullptr, var != 1 ? a : nullptr, nullptr, var == 2 ? nullptr : &tv, 0, 0, 0, 0, 0, &rl);
      rr = select(fd + 1, var == 1 ? b : nullptr, var != 1 ? b : nullptr, nullptr, var == 2 ? nullptr : &tv2);
      n = sizeof(fd_set);
    } else if (FN(epoll_wait)) {
      int ep = epoll_create1(0);
      struct epoll_event e;
      memset(&e, 0, sizeof e);
      e.events = EPOLLOUT;
      epoll_ctl(ep, EPOLL_CTL_ADD, fd, &e);
      r = __dfsw_epoll_wait(var ? -1 : ep, (epoll_event *)p, 3, 0, 0, 0, 0, 0, &rl);
      rr = epoll_wait(var ? -1 : ep, (epoll_event *)q, 3, 0);
      n = rr > 0 ? rr * sizeof(struct epoll_event) : 0;
      close(ep);
    } else if (FN(sched_getaffinity)) {
      size_t k = var ? 0 : sizeof(cpu_set_t);
      r = __dfsw_sched_getaffinity(0, k, (cpu_set_t *)p, 0, 0, 0, &rl);
      rr = sched_getaffinity(0, k, (cpu_set_t *)q);
      n = k;
    } else if (FN(sigemptyset)) {
      r = __dfsw_sigemptyset((sigset_t *)p, 0, &rl);
      rr = sigemptyset((sigset_t *)q);
      n = sizeof(sigset_t);
    } else if (FN(sigaltstack)) {
      r = __dfsw_sigaltstack(nullptr, (stack_t *)p, 0, 0, &rl);
      rr = sigaltstack(nullptr, (stack_t *)q);
      n = sizeof(stack_t);
    }
    bool ok = isptr ? rr == 1 : rr >= 0;
    if (ok)
      for (size_t i = 0; i < n; i++)
        mask[at + i] = 1;
    bool same = true, outside = true;
    for (size_t i = 0; i < M; i++) {
      if (det && w[i] != ref[i])
        same = false;
      if (ok && !mask[i] && FN(poll) == false && w[i] != 0xa5)
        outside = false;
    }
    auto ql = labels_of(w, M);
    std::vector<int> mk(mask, mask + M);
    dfsan_set_label(0, w, M);
    Ev("sys").s("fn", fn).n("var", var).n("ret", r).n("ref", rr).n("same", same).n("outside", outside).n("g", g).n("want", want)
        .n("rl", rl).n("ptr", isptr && ok ? ptr : 0).a("mask", mk).a("ql", ql).done();
  } else if (op == "edge") { // edge fn n : operands that end right before unmapped memory
    const std::string &fn = t[1];
    size_t n = N(t[2]);
    unsigned char *m = (unsigned char *)mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(m + 4096, 4096, PROT_NONE);
    unsigned char *s = m + 4096 - n;
    std::vector<int> sd, d;
    std::vector<L> sl, dl;
    for (size_t i = 0; i < n; i++) {
      s[i] = 'a' + i % 26;
      dfsan_set_label(regs[i % 4], s + i, 1);
    }
    sl = labels_of(s, n);
    for (size_t i = 0; i < n; i++)
      sd.push_back(s[i]);
    std::vector<unsigned char> o(n + 16, 0xa5);
    dfsan_set_label(0, o.data(), o.size());
    L rl = POISON;
    long r = 0;
    if (FN(strncpy)) r = __dfsw_strncpy((char *)o.data(), (char *)s, n, 0, 0, 0, &rl) == (char *)o.data();
    else if (FN(memcpy)) r = __dfsw_memcpy(o.data(), s, n, 0, 0, 0, &rl) == o.data();
    else if (FN(strncmp)) { memcpy(o.data(), s, n); r = __dfsw_strncmp((char *)o.data(), (char *)s, n, 0, 0, 0, &rl) == 0; for (size_t i = 0; i < n; i++) dfsan_set_label(sl[i], o.data() + i, 1); }
    else if (FN(memcmp)) { memcpy(o.data(), s, n); r = __dfsw_memcmp(o.data(), s, n, 0, 0, 0, &rl) == 0; for (size_t i = 0; i < n; i++) dfsan_set_label(sl[i], o.data() + i, 1); }
    else if (FN(snprintf)) {
      char f[32];
      sprintf(f, "%%.%zus", n);
      L vl[2] = {0, 0};
      r = __dfsw_snprintf((char *)o.data(), n + 1, f, 0, 0, 0, vl, &rl, s) == (int)n;
      for (size_t i = n; i < n + 1; i++) o[i] = 0xa5;
    }
    for (size_t i = 0; i < o.size(); i++)
      d.push_back(o[i]);
    dl = labels_of(o.data(), o.size());
    dfsan_set_label(0, o.data(), o.size());
    dfsan_set_label(0, s, n);
    munmap(m, 8192);
    Ev("edge").s("fn", fn).n("n", n).n("ok", r).n("rl", rl).a("sd", sd).a("sl", sl).a("d", d).a("l", dl).done();
  } else if (op == "callocfail") { // a zero-initialised block that cannot be had
    L rl = POISON;
    size_t a = U(t[1]), b = U(t[2]);
    errno = 0;
    void *p = __dfsw_calloc(a, b, 0, 0, &rl);
    Ev("callocfail").n("null", p == nullptr).n("err", errno).n("rl", rl).done();
  } else
    return false;
  return true;
}
