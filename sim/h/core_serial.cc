// C11: the text serializer on any stream.
#include "expo.h"
#include <ios>
#include <limits>
#include <locale>
#include <streambuf>
#include <prometheus/text_serializer.h>
using namespace h;
using namespace prometheus;

namespace {
struct Comma : std::numpunct<char> {
  int mode;
  explicit Comma(int m) : mode(m) {}
  char do_decimal_point() const override { return mode == 2 ? '.' : ','; }
  char do_thousands_sep() const override { return mode == 1 ? '.' : ' '; }
  std::string do_grouping() const override { return "\3"; }
  std::string do_truename() const override { return "ja"; }
};
struct Boom : std::runtime_error { Boom() : std::runtime_error("the device failed") {} };

// accepts up to limit bytes; how: 0 short write, 1 throws, 2 accepts everything
struct Buf : std::streambuf {
  std::string got;
  size_t limit;
  int how;
  bool slow, fired = false;
  Buf(size_t l, int h, bool s) : limit(l), how(h), slow(s) { got.reserve(8192); }
  bool room() {
    if (slow) dsim::yield_point();
    if (how == 2 || got.size() < limit) return true;
    fired = true;
    if (how == 1) throw Boom();
    return false;
  }
  int_type overflow(int_type c) override {
    if (c == traits_type::eof()) return 0;
    if (!room()) return traits_type::eof();
    got += (char)c;
    return c;
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    std::streamsize i = 0;
    if (slow) dsim::yield_point();
    for (; i < n; i++) {
      if (how != 2 && got.size() >= limit) { fired = true; if (how == 1) throw Boom(); break; }
      got += s[i];
    }
    return i;
  }
};

const char* const pieces[] = {"", "a", "\n", "\\", "\"", "\\n", "x\ny", "\\\"", " ", "{a=\"b\"}", ",", "=", "#", "\t", "\r", "\xc3\xa4", "# TYPE", "}", "\\\\n", "very long value very long value very long value very long value", "\n# HELP x", "'", "\x01", "0", "é\"\n"};
std::string text_of(Rng& r) {
  std::string s;
  for (i64 n = (i64)r.n(5); n > 0; n--) s += pieces[r.n(sizeof pieces / sizeof *pieces)];
  if (r.pct(3)) s += std::string(1, '\0') + "z";
  return s;
}
double value_of(Rng& r) {
  switch (r.n(14)) {
    case 0: return 0;
    case 1: return -0.0;
    case 2: return 1;
    case 3: return std::nan("");
    case 4: return HUGE_VAL;
    case 5: return -HUGE_VAL;
    case 6: return 1.79769313486231e308;   // larger ones leave the range of double when written with 16 digits
    case 7: return std::numeric_limits<double>::denorm_min() * (double)r.in(1, 1000);
    case 8: return (double)r.in(-1000000, 1000000);
    case 9: return (double)r.next();
    case 10: return 0.1 * (double)r.in(-100, 100);
    case 11: return (double)(1ll << r.in(0, 62)) + (double)r.n(5);
    case 12: return -std::ldexp(1 + (double)r.n(1u << 30) / (1u << 30), (int)r.in(-1000, 1000));
    default: return std::ldexp(1 + (double)r.n(1ull << 52) / (double)(1ull << 52), (int)r.in(-60, 60));
  }
}
u64 count_of(Rng& r) { return r.pct(30) ? r.n(10) : r.pct(50) ? r.n(100000000) : r.pct(50) ? r.next() : (1ull << 53) + r.n(8); }

std::vector<MetricFamily> make(u64 seed, i64 size) {
  Rng r(seed);
  std::vector<MetricFamily> v;
  i64 nf = (i64)r.n((u64)size + 1);
  for (i64 i = 0; i < nf; i++) {
    MetricFamily f;
    f.name = r.of<std::string>({"m", "some_metric", "a:b:c", "_x", "Z9"}) + std::to_string(i);
    f.help = r.pct(70) ? text_of(r) : "";
    f.type = r.of<MetricType>({MetricType::Counter, MetricType::Gauge, MetricType::Summary, MetricType::Untyped, MetricType::Histogram, MetricType::Info});
    for (i64 k = (i64)r.n(4); k > 0; k--) {
      ClientMetric m;
      for (i64 l = (i64)r.n(4); l > 0; l--) {
        ClientMetric::Label lb;
        lb.name = r.of<std::string>({"l", "label", "_a", "A0"}) + std::to_string(l);
        lb.value = text_of(r);
        m.label.push_back(lb);
      }
      if (r.pct(30)) m.timestamp_ms = r.pct(50) ? (i64)r.n(2000000000000ull) : -(i64)r.n(100000);
      switch (f.type) {
        case MetricType::Counter: m.counter.value = value_of(r); break;
        case MetricType::Gauge: m.gauge.value = value_of(r); break;
        case MetricType::Untyped: m.untyped.value = value_of(r); break;
        case MetricType::Info: m.info.value = r.pct(50) ? 1 : value_of(r); break;
        case MetricType::Summary:
          m.summary.sample_count = count_of(r);
          m.summary.sample_sum = value_of(r);
          for (i64 q = (i64)r.n(4); q > 0; q--) { ClientMetric::Quantile x; x.quantile = r.of<double>({0, 0.5, 0.9, 0.99, 0.999, 1, 0.1, 1.0 / 3}) ; x.value = value_of(r); bool dup = false; for (auto& y : m.summary.quantile) dup |= y.quantile == x.quantile; if (!dup) m.summary.quantile.push_back(x); }
          break;
        case MetricType::Histogram: {
          m.histogram.sample_count = count_of(r);
          m.histogram.sample_sum = value_of(r);
          double b = r.pct(20) ? -HUGE_VAL : r.of<double>({-1000, 0, 0.001, 1e-300});
          u64 c = 0;
          for (i64 q = (i64)r.n(4); q > 0; q--) { ClientMetric::Bucket x; x.upper_bound = b; x.cumulative_count = c += r.n(1ull << 60) / 8; m.histogram.bucket.push_back(x); b = std::isinf(b) ? -1e9 : b + (double)r.in(1, 1000) / 8; }
          if (r.pct(50)) { ClientMetric::Bucket x; x.upper_bound = HUGE_VAL; x.cumulative_count = m.histogram.sample_count; m.histogram.bucket.push_back(x); }
          break;
        }
      }
      f.metric.push_back(m);
    }
    v.push_back(f);
  }
  return v;
}
std::ios_base::fmtflags flags_of(i64 c) {
  std::ios_base::fmtflags f{};
  const std::ios_base::fmtflags all[] = {std::ios_base::hex, std::ios_base::oct, std::ios_base::dec, std::ios_base::showpos, std::ios_base::showbase, std::ios_base::uppercase, std::ios_base::fixed, std::ios_base::scientific,
                                         std::ios_base::left, std::ios_base::internal, std::ios_base::right, std::ios_base::showpoint, std::ios_base::boolalpha, std::ios_base::unitbuf, std::ios_base::skipws};
  for (size_t i = 0; i < sizeof all / sizeof *all; i++) if (c >> i & 1) f |= all[i];
  return f;
}
enum { TOSTRING, TOSTREAM };
void run(const Plan& p) {
  const int nt = p.threads();
  if (p.get("global")) std::locale::global(std::locale(std::locale::classic(), new Comma((int)p.get("global"))));
  auto shared = make((u64)p.get("data"), p.get("size"));
  TextSerializer common;
  Team t;
  for (int i = 0; i < nt; i++)
    t.go([&, i]() {
      for (auto& o : p.ops) {
        if (o.th != i) continue;
        auto own = o.b ? make((u64)p.get("data") + (u64)o.b, p.get("size")) : std::vector<MetricFamily>();
        const auto& v = o.b ? own : shared;
        const TextSerializer mine;
        const TextSerializer& ts = o.b % 2 ? mine : common;
        const u64 bits = (u64)o.c;
        if (o.k == TOSTRING) {
          std::string s;
          { API; s = ts.Serialize(v); }
          std::string d = expo::differs(v, s);
          if (!d.empty()) fail("Serialize: " + d);
          continue;
        }
        // what a stream that never fails receives
        int how = (int)(bits & 3), prec = (int)(bits >> 2 & 31), width = (int)(bits >> 7 & 15), loc = (int)(bits >> 11 & 3), mask = (int)(bits >> 13 & 3);
        if (how == 3) how = 2;
        char fill = (bits >> 15 & 1) ? '0' : (bits >> 16 & 1) ? '*' : ' ';
        bool slow = bits >> 17 & 1, prefailed = (bits >> 18 & 7) == 7;
        std::string whole;
        if (how != 2) { whole = ts.Serialize(v); std::string d = expo::differs(v, whole); if (!d.empty()) fail("Serialize: " + d); }
        Buf buf((size_t)(o.x * (double)(whole.size() + 1)), how, slow);
        std::ostream os(&buf);
        os.flags(flags_of(o.a));
        os.precision(prec);
        os.width(width);
        os.fill(fill);
        if (loc) os.imbue(std::locale(std::locale::classic(), new Comma(loc)));
        if (prefailed) os.setstate(std::ios_base::failbit);
        if (mask) { try { os.exceptions(mask == 1 ? std::ios_base::badbit : std::ios_base::badbit | std::ios_base::failbit); } catch (const std::ios_base::failure&) {} }
        const std::locale before = os.getloc();
        const std::ios_base::fmtflags fl = os.flags();
        bool thrown = false;
        {
          API;
          try { ts.Serialize(os, v); } catch (const std::exception&) { thrown = true; }
        }
        auto st = fmt(" (flags %x, precision %d, width %d, locale %d, exception mask %d, failure mode %d%s)", (unsigned)fl, prec, width, loc, mask, how, thrown ? ", exception thrown" : "");
        dsim::log_event(buf.got.size(), (u64)thrown);
        if (buf.fired) { dsim::note_fault(dsim::F_STREAM); dsim::probe(0); if (thrown) dsim::probe(1); }
        if (os.flags() != fl) fail("the formatting flags of the stream are " + fmt("%x", (unsigned)os.flags()) + " afterwards" + st);
        if (os.precision() != prec) fail(fmt("the precision of the stream is %d afterwards", (int)os.precision()) + st);
        if (os.fill() != fill) fail("the fill character of the stream has changed" + st);
        if (os.width() != 0 && os.width() != width) fail("the field width of the stream has changed" + st);
        if (!(os.getloc() == before)) fail("the locale of the stream has changed" + st);
        if (prefailed) { if (!buf.got.empty()) fail("a stream in failed state received text" + st); continue; }
        if (thrown && !(buf.fired && mask)) fail("an exception came out of Serialize although the stream did not fail" + st);
        if (buf.fired) {
          if (!thrown && os.good()) fail("the stream failed but does not report it" + st);
          if (whole.compare(0, buf.got.size(), buf.got)) fail("a stream that failed received something else than a prefix of the text" + st);
        } else {
          std::string d = expo::differs(v, buf.got);
          if (!d.empty()) fail("Serialize to a stream" + st + ": " + d);
          if (!os.good()) fail("the stream is not good although nothing failed" + st);
        }
      }
    });
  t.join();
}
void gen(Plan& p, Rng& r) {
  p.cfg["data"] = (i64)(r.next() >> 2);
  p.cfg["size"] = r.of<i64>({1, 2, 5});
  p.cfg["global"] = r.pct(30) ? r.in(1, 3) : 0;
  int th = 1 + (int)r.n(3), total = th + (int)r.n(4);
  bool plainflags = r.pct(30);
  for (int i = 0; i < total; i++) {
    int t = i < th ? i : (int)r.n(th);
    i64 flags = plainflags ? (1 << 2 | 1 << 14) : (i64)r.n(1u << 15);
    p.add(t, r.pct(25) ? TOSTRING : TOSTREAM, flags, r.pct(30) ? 0 : r.in(1, 1000), (i64)r.n(1u << 21), (double)r.n(1000) / 1000);
  }
}
const char* const probes[] = {"stream_failed_in_the_middle", "failure_thrown_through_serialize", nullptr};
Reg r_({"serial", gen, run, probes, "TextSerializer, Serializer (instrumented C++)", "output stream buffer (fails at a chosen byte), locales, scheduler"});
}  // namespace
