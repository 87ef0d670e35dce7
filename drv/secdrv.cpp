// Script-driven harness around the trace file container and its sections, with small
// capacities and several layouts.
//
// usage: secdrv SCRIPT EVENTS FILE
//   first line: layout A|B|C|D
//
// One JSON event per operation; "res" is ok, drop or stop (the error function was called;
// the process then finishes the file like exit() does and ends).
#include <fcntl.h>
#include <map>
#include <sstream>
#include <stdint.h>
#include <stdio.h>
#include <string>
#include <string.h>
#include <unistd.h>
#include <vector>

#include "taintdag/bitmap_section.h"
#include "taintdag/control_flow_log.h"
#include "taintdag/encoding.h"
#include "taintdag/error.h"
#include "taintdag/fnmapping.h"
#include "taintdag/fntrace.h"
#include "taintdag/labels.h"
#include "taintdag/outputfile.h"
#include "taintdag/sink.h"
#include "taintdag/stream_offset.h"
#include "taintdag/string_table.h"
#include "taintdag/taint_source.h"

using namespace taintdag;

template <typename B, size_t Bytes> struct Small : B {
  static constexpr size_t allocation_size{Bytes};
  using B::B;
};

static int evfd = -1;
static std::string pending; // the operation being executed
static void out(const std::string &s) {
  std::string t = s + "\n";
  for (size_t k = 0; k < t.size();)
    k += write(evfd, t.data() + k, t.size() - k);
}
static void pair(std::ostream &o, const char *k, uint64_t v) {
  o << ",\"" << k << "\":[" << (v >> 27) << "," << (v & ((1 << 27) - 1)) << "]";
}
static long long N(const std::string &s) { return strtoll(s.c_str(), nullptr, 0); }
static uint64_t U(const std::string &s) { return strtoull(s.c_str(), nullptr, 0); }

struct Base {
  virtual ~Base() {}
  virtual void op(const std::vector<std::string> &t) = 0;
};
static Base *the = nullptr;

static void done(const char *res, long long val) {
  std::ostringstream o;
  o << pending << ",\"res\":\"" << res << "\",\"val\":" << val << "}";
  pending.clear();
  out(o.str());
}
static void limbs(std::ostream &o, const char *k, uint64_t v) {
  o << ",\"" << k << "\":[" << (v & 0xffff) << "," << ((v >> 16) & 0xffff) << "," << ((v >> 32) & 0xffff)
    << "," << (v >> 48) << "]";
}

template <typename SRC, typename LAB, typename SINK, typename BITS, typename FN, typename EV, typename CF, typename OF>
struct Impl : Base {
  OF of;
  Impl(const char *path) : of(path) {}
  void op(const std::vector<std::string> &t) override {
    std::ostringstream o;
    const std::string &c = t[0];
    o << "{\"op\":\"" << c << "\"";
    auto nm = [&](int i) {
      long n = N(t[i]), v = N(t[i + 1]);
      o << ",\"nm\":[" << n << "," << v << "]";
      return std::string(n, (char)v);
    };
    if (c == "str") {
      auto s = nm(1);
      pending = o.str();
      auto r = of.template section<StringTable>().add_string(s);
      done(r ? "ok" : "drop", r ? *r : -1);
    } else if (c == "src") {
      auto s = nm(1);
      int fd = N(t[3]);
      uint64_t sz = U(t[4]);
      o << ",\"fd\":" << fd;
      limbs(o, "size", sz);
      pending = o.str();
      auto r = of.template section<SRC>().add_source(s, fd, sz);
      done(r ? "ok" : "drop", r ? *r : -1);
    } else if (c == "find") {
      int fd = N(t[1]);
      o << ",\"fd\":" << fd;
      pending = o.str();
      auto r = of.template section<SRC>().mapping_idx(fd);
      done("ok", r ? *r : -1);
    } else if (c == "sink") {
      uint64_t off = U(t[1]);
      uint32_t l = U(t[2]), i = U(t[3]);
      pair(o, "off", off);
      limbs(o, "l", l);
      o << ",\"i\":" << i;
      pending = o.str();
      of.template section<SINK>().log_single(off, l, i);
      done("any", 0);
    } else if (c == "fn") {
      auto s = nm(1);
      pending = o.str();
      auto r = of.template section<FN>().add_mapping(s);
      done(r ? "ok" : "drop", r ? *r : -1);
    } else if (c == "ev") {
      o << ",\"k\":" << t[1] << ",\"i\":" << t[2];
      pending = o.str();
      of.template section<EV>().log_fn_event(N(t[1]) ? Event::kind_t::exit : Event::kind_t::entry, N(t[2]));
      done("ok", 0);
    } else if (c == "cf") { // cf kind fid [label]
      uint32_t f = U(t[2]), l = t.size() > 3 ? U(t[3]) : 0;
      o << ",\"k\":" << t[1];
      limbs(o, "fid", f);
      limbs(o, "l", l);
      pending = o.str();
      auto &s = of.template section<CF>();
      if (t[1] == "0")
        s.enter_function(f);
      else if (t[1] == "1")
        s.leave_function(f);
      else
        s.tainted_control_flow(l, f);
      done("ok", 0);
    } else if (c == "lab") { // lab src off n
      uint64_t off = U(t[2]);
      o << ",\"s\":" << t[1];
      pair(o, "off", off);
      o << ",\"n\":" << t[3];
      pending = o.str();
      auto r = of.template section<LAB>().create_source_labels(U(t[1]), off, U(t[3]));
      done(r.second - r.first + 1 == U(t[3]) ? "ok" : "bad", r.first);
    } else if (c == "un") {
      size_t n = of.template section<LAB>().count(); // operands: existing labels
      if (n < 2)
        return;
      label_t a = 1 + (U(t[1]) - 1) % (n - 1), b = 1 + (U(t[2]) - 1) % (n - 1);
      o << ",\"a\":" << a << ",\"b\":" << b;
      pending = o.str();
      auto r = of.template section<LAB>().union_taint(a, b);
      done("ok", r);
    } else if (c == "mark") {
      size_t n = of.template section<LAB>().count();
      if (n < 2)
        return;
      label_t a = 1 + (U(t[1]) - 1) % (n - 1);
      o << ",\"a\":" << a;
      pending = o.str();
      of.template section<LAB>().affects_control_flow(a);
      done("ok", 0);
    } else if (c == "bit") {
      o << ",\"b\":" << t[1];
      pending = o.str();
      bool r = of.template section<BITS>().set(U(t[1]));
      done("ok", r);
    } else if (c == "bits") {
      o << ",\"b\":" << t[1] << ",\"n\":" << t[2];
      pending = o.str();
      of.template section<BITS>().set_range(U(t[1]), U(t[2]));
      done("ok", 0);
    } else if (c == "isset") {
      o << ",\"b\":" << t[1];
      pending = o.str();
      bool r = of.template section<BITS>().is_set(U(t[1]));
      done("ok", r);
    } else {
      fprintf(stderr, "unknown op %s\n", c.c_str());
      _exit(95);
    }
  }
};

static void stop(int) {
  if (!pending.empty())
    done("stop", 0);
  else
    out("{\"op\":\"stop\",\"res\":\"stop\",\"val\":0}");
  taintdag::error_function = [](int) { _exit(92); };
  if (the)
    delete the;
  _exit(0);
}

// capacities: 3 sources, 12 labels, 1 MiB strings, 5 sinks, 70 bits, 4 functions, 4 events, 23 bytes of log
using S_ = Small<Sources, 3 * sizeof(SourceEntry)>;
using L_ = Small<Labels, 12 * 8>;
using K_ = TaintSinkBase<4, 5>;
using B_ = BitmapSectionBase<5, 70>;
using B8 = BitmapSectionBase<5, 70, uint8_t>;
using B32 = BitmapSectionBase<5, 70, uint32_t>;
using F_ = Small<Functions, 4 * sizeof(Function)>;
using E_ = Small<Events, 4 * sizeof(Event)>;
using C_ = Small<ControlFlowLog, 23>;
template <typename B, typename... T> using I = Impl<S_, L_, K_, B, F_, E_, C_, OutputFile<T...>>;

// encode/decode of single words, no file
static void enc(const std::vector<std::string> &t) {
  std::ostringstream o;
  bool cf = N(t[4]);
  auto words = [&](storage_t w) {
    Taint d = decode(w);
    limbs(o, "w", w);
    limbs(o, "plus", add_affects_control_flow(w));
    o << ",\"has\":" << check_affects_control_flow(w) << ",\"issrc\":" << is_source_taint(w)
      << ",\"eq\":" << equal_ignore_cf(w, add_affects_control_flow(w))
      << ",\"eqo\":" << [&] {
           int bad = 0; // words that differ elsewhere compare as different
           for (int i = 0; i < 64; i++)
             if (i != 62)
               bad += equal_ignore_cf(w, w ^ (1ull << i)) + equal_ignore_cf(w, add_affects_control_flow(w) ^ (1ull << i));
           return bad;
         }();
    if (auto s = std::get_if<SourceTaint>(&d)) {
      o << ",\"k\":1,\"cf2\":" << s->affects_control_flow;
      limbs(o, "a2", s->index);
      limbs(o, "b2", s->offset);
    } else if (auto u = std::get_if<UnionTaint>(&d)) {
      o << ",\"k\":2,\"cf2\":" << u->affects_control_flow;
      limbs(o, "a2", u->higher);
      limbs(o, "b2", u->lower);
    } else if (auto r = std::get_if<RangeTaint>(&d)) {
      o << ",\"k\":3,\"cf2\":" << r->affects_control_flow;
      limbs(o, "a2", r->first);
      limbs(o, "b2", r->last);
    }
  };
  uint64_t a = U(t[2]), b = U(t[3]);
  o << "{\"op\":\"enc\",\"kind\":" << (t[1] == "s" ? 1 : t[1] == "u" ? 2 : 3) << ",\"cf\":" << cf;
  limbs(o, "a", a);
  limbs(o, "b", b);
  if (t[1] == "s")
    words(encode(SourceTaint((source_index_t)a, (source_offset_t)b, cf)));
  else if (t[1] == "u")
    words(encode(UnionTaint((label_t)a, (label_t)b, cf)));
  else
    words(encode(RangeTaint((label_t)a, (label_t)b, cf)));
  o << "}";
  out(o.str());
}

int main(int argc, char **argv) {
  if (argc < 4)
    return 94;
  evfd = open(argv[2], O_CREAT | O_TRUNC | O_WRONLY, 0600);
  std::string text;
  int s = open(argv[1], O_RDONLY);
  char tmp[65536];
  ssize_t k;
  while ((k = read(s, tmp, sizeof tmp)) > 0)
    text.append(tmp, k);
  close(s);
  taintdag::error_function = stop;
  std::istringstream is(text);
  std::string line;
  while (std::getline(is, line)) {
    std::istringstream ls(line);
    std::vector<std::string> t;
    std::string x;
    while (ls >> x)
      t.push_back(x);
    if (t.empty())
      continue;
    if (t[0] == "layout") {
      // destruction order of the real tracker: finish the previous one
      const char *f = argv[3];
      if (t[1] == "A")
        the = new I<B_, S_, L_, StringTable, K_, B_, F_, E_, C_>(f);
      else if (t[1] == "B") // odd sizes in front of aligned sections
        the = new I<B_, C_, S_, StringTable, F_, L_, E_, K_, B_>(f);
      else if (t[1] == "C")
        the = new I<B8, StringTable, B8, E_, F_, C_, K_, L_, S_>(f);
      else
        the = new I<B32, E_, C_, B32, StringTable, S_, F_, L_, K_>(f);
      continue;
    }
    if (t[0] == "enc") {
      enc(t);
      continue;
    }
    the->op(t);
  }
  if (the)
    delete the;
  return 0;
}
