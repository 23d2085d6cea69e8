// An independent reader of the Prometheus text exposition format 0.0.4 and the
// comparison of what it read with collected families.
#pragma once
#include "h.h"
#include <algorithm>
#include <cstdlib>
#include <prometheus/client_metric.h>
#include <prometheus/metric_family.h>
#include <prometheus/metric_type.h>

namespace expo {
using h::fmt;
struct Sample {
  std::string name;
  std::vector<std::pair<std::string, std::string>> labels;   // sorted by name
  std::string raw;                                           // value as written
  bool has_ts = false;
  long long ts = 0;
};
struct Fam { std::string name, help, type; bool has_help = false; std::vector<Sample> s; };

inline bool name_ok(const std::string& s, bool colon) {
  if (s.empty()) return false;
  for (size_t i = 0; i < s.size(); i++) {
    char c = s[i];
    bool ok = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || (colon && c == ':') || (i && c >= '0' && c <= '9');
    if (!ok) return false;
  }
  return true;
}
// the syntax Go's strconv.ParseFloat accepts, without hexadecimal floats and underscores
inline bool number(const std::string& s, double& v) {
  if (s.empty()) return false;
  std::string t = s;
  for (auto& c : t) if (c >= 'A' && c <= 'Z') c = (char)(c - 'A' + 'a');
  if (t == "nan") { v = std::nan(""); return true; }
  if (t == "inf" || t == "+inf" || t == "infinity" || t == "+infinity") { v = HUGE_VAL; return true; }
  if (t == "-inf" || t == "-infinity") { v = -HUGE_VAL; return true; }
  size_t i = 0;
  if (t[i] == '+' || t[i] == '-') i++;
  size_t d = 0;
  while (i < t.size() && t[i] >= '0' && t[i] <= '9') i++, d++;
  if (i < t.size() && t[i] == '.') { i++; while (i < t.size() && t[i] >= '0' && t[i] <= '9') i++, d++; }
  if (!d) return false;
  if (i < t.size() && t[i] == 'e') {
    i++;
    if (i < t.size() && (t[i] == '+' || t[i] == '-')) i++;
    size_t e = 0;
    while (i < t.size() && t[i] >= '0' && t[i] <= '9') i++, e++;
    if (!e) return false;
  }
  if (i != t.size()) return false;
  v = strtod(t.c_str(), nullptr);    // the C locale is in force
  return true;
}
inline std::string unescape(const std::string& s, bool quote, bool& ok) {
  std::string r;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] != '\\') { r += s[i]; continue; }
    if (++i == s.size()) { ok = false; return r; }
    if (s[i] == '\\') r += '\\';
    else if (s[i] == 'n') r += '\n';
    else if (quote && s[i] == '"') r += '"';
    else { ok = false; return r; }
  }
  return r;
}
inline std::string excerpt(const std::string& s) { std::string r; for (char c : s.substr(0, 200)) { if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += fmt("\\x%02x", (unsigned char)c); else r += c; } return r; }

inline bool parse(const std::string& text, std::vector<Fam>& out, std::string& err) {
  out.clear();
  size_t pos = 0;
  std::set<std::string> done;
  bool typed = true;
  while (pos < text.size()) {
    size_t e = text.find('\n', pos);
    if (e == std::string::npos) { err = "the last line is not terminated: " + excerpt(text.substr(pos)); return false; }
    std::string l = text.substr(pos, e - pos);
    pos = e + 1;
    if (l.empty()) continue;
    auto bad = [&](const char* why) { err = std::string(why) + " in line: " + excerpt(l); return false; };
    if (l[0] == '#') {
      if (l.compare(0, 7, "# HELP ") && l.compare(0, 7, "# TYPE ")) return bad("unexpected comment");
      size_t sp = l.find(' ', 7);
      std::string nm = l.substr(7, sp == std::string::npos ? sp : sp - 7), rest = sp == std::string::npos ? "" : l.substr(sp + 1);
      if (!name_ok(nm, true)) return bad("invalid metric name");
      bool help = l[2] == 'H';
      if (out.empty() || out.back().name != nm || (help && out.back().has_help)) {
        if (out.size() && !typed) return bad("a family without a type precedes");
        if (!done.insert(nm).second) return bad("a family occurs twice");
        out.push_back(Fam());
        out.back().name = nm;
        typed = false;
      }
      if (help) {
        if (typed) return bad("HELP after TYPE");
        bool ok = true;
        out.back().help = unescape(rest, false, ok);
        out.back().has_help = true;
        if (!ok) return bad("invalid escape sequence");
      } else {
        if (typed) return bad("second TYPE");
        typed = true;
        out.back().type = rest;
        if (rest != "counter" && rest != "gauge" && rest != "summary" && rest != "histogram" && rest != "untyped") return bad("invalid type");
      }
      continue;
    }
    if (out.empty() || !typed) return bad("a sample without TYPE");
    Sample s;
    size_t i = 0;
    while (i < l.size() && l[i] != '{' && l[i] != ' ') i++;
    s.name = l.substr(0, i);
    if (!name_ok(s.name, true)) return bad("invalid metric name");
    if (s.name.compare(0, out.back().name.size(), out.back().name)) return bad("a sample of another family");
    if (i < l.size() && l[i] == '{') {
      i++;
      while (true) {
        if (i < l.size() && l[i] == '}') { i++; break; }
        size_t a = i;
        while (i < l.size() && l[i] != '=') i++;
        std::string ln = l.substr(a, i - a);
        if (!name_ok(ln, false)) return bad("invalid label name");
        if (i + 1 >= l.size() || l[i + 1] != '"') return bad("missing label value");
        i += 2;
        a = i;
        while (i < l.size() && l[i] != '"') i += l[i] == '\\' ? 2 : 1;
        if (i >= l.size()) return bad("unterminated label value");
        bool ok = true;
        std::string lv = unescape(l.substr(a, i - a), true, ok);
        if (!ok) return bad("invalid escape sequence");
        s.labels.push_back({ln, lv});
        i++;
        if (i < l.size() && l[i] == ',') { i++; continue; }
        if (i < l.size() && l[i] == '}') { i++; break; }
        return bad("malformed labels");
      }
    }
    if (i >= l.size() || l[i] != ' ') return bad("missing value");
    while (i < l.size() && l[i] == ' ') i++;
    size_t a = i;
    while (i < l.size() && l[i] != ' ') i++;
    s.raw = l.substr(a, i - a);
    double v;
    if (!number(s.raw, v)) return bad("invalid value");
    while (i < l.size() && l[i] == ' ') i++;
    if (i < l.size()) {
      std::string t = l.substr(i);
      char* end;
      errno = 0;
      s.has_ts = true;
      s.ts = strtoll(t.c_str(), &end, 10);
      if (*end || end == t.c_str() || end != t.c_str() + t.size() || errno || t[0] == ' ') return bad("invalid timestamp");
    }
    std::sort(s.labels.begin(), s.labels.end());
    out.back().s.push_back(s);
  }
  if (!typed) { err = "the last family has no type"; return false; }
  return true;
}

// to 16 significant digits
inline bool near16(double want, double got) {
  if (std::isnan(want)) return std::isnan(got);
  if (std::isinf(want) || want == 0) return want == got;
  return std::fabs(got - want) <= std::fabs(want) * 1.0000001e-15 || got == want || std::fabs(got - want) <= 5e-324;
}

struct Want { Sample s; double v; bool exact; unsigned long long n; std::string dl; double dv; };
// all samples a family has to be written as; dl names a label whose value is the number dv
inline std::vector<Want> samples_of(const prometheus::MetricFamily& f) {
  using prometheus::MetricType;
  std::vector<Want> r;
  for (auto& m : f.metric) {
    auto put = [&](const char* suffix, bool exact, double v, unsigned long long n, const char* dl, double dv) {
      Want w;
      w.s.name = f.name + suffix;
      for (auto& l : m.label) w.s.labels.push_back({l.name, l.value});
      std::sort(w.s.labels.begin(), w.s.labels.end());
      w.s.has_ts = m.timestamp_ms != 0;
      w.s.ts = m.timestamp_ms;
      w.v = v; w.exact = exact; w.n = n; w.dl = dl; w.dv = dv;
      r.push_back(w);
    };
    switch (f.type) {
      case MetricType::Counter: put("", false, m.counter.value, 0, "", 0); break;
      case MetricType::Gauge: put("", false, m.gauge.value, 0, "", 0); break;
      case MetricType::Untyped: put("", false, m.untyped.value, 0, "", 0); break;
      case MetricType::Info: put("_info", false, m.info.value, 0, "", 0); break;
      case MetricType::Summary:
        put("_count", true, 0, m.summary.sample_count, "", 0);
        put("_sum", false, m.summary.sample_sum, 0, "", 0);
        for (auto& q : m.summary.quantile) put("", false, q.value, 0, "quantile", q.quantile);
        break;
      case MetricType::Histogram: {
        put("_count", true, 0, m.histogram.sample_count, "", 0);
        put("_sum", false, m.histogram.sample_sum, 0, "", 0);
        bool inf = false;
        for (auto& b : m.histogram.bucket) { put("_bucket", true, 0, b.cumulative_count, "le", b.upper_bound); inf = std::isinf(b.upper_bound) && b.upper_bound > 0; }
        if (!inf) put("_bucket", true, 0, m.histogram.sample_count, "le", HUGE_VAL);
        break;
      }
    }
  }
  return r;
}
inline bool matches(const Want& w, const Sample& s) {
  if (w.s.name != s.name || w.s.has_ts != s.has_ts || w.s.ts != s.ts) return false;
  auto l = s.labels;
  if (!w.dl.empty()) {
    bool found = false;
    for (auto it = l.begin(); it != l.end(); ++it)
      if (it->first == w.dl) { double d; if (!number(it->second, d) || !near16(w.dv, d)) return false; l.erase(it); found = true; break; }
    if (!found) return false;
  }
  if (l != w.s.labels) return false;
  if (w.exact) return s.raw == std::to_string(w.n) || s.raw == "+" + std::to_string(w.n);
  double v;
  return number(s.raw, v) && near16(w.v, v);
}
inline std::string show(const Sample& s) {
  std::string r = s.name + "{";
  for (auto& l : s.labels) r += l.first + "=" + excerpt(l.second) + ",";
  return r + "} " + s.raw + (s.has_ts ? fmt(" %lld", s.ts) : "");
}
inline std::string show(const Want& w) {
  Sample s = w.s;
  if (!w.dl.empty()) s.labels.push_back({w.dl, h::dstr(w.dv)});
  s.raw = w.exact ? std::to_string(w.n) : h::dstr(w.v);
  return show(s);
}
inline const char* type_name(prometheus::MetricType t) {
  using prometheus::MetricType;
  switch (t) {
    case MetricType::Counter: return "counter";
    case MetricType::Gauge: return "gauge";
    case MetricType::Summary: return "summary";
    case MetricType::Untyped: return "untyped";
    case MetricType::Histogram: return "histogram";
    default: return "gauge";                    // info, see the comment in text_serializer.cc
  }
}
// empty: the text says exactly what was collected
inline std::string differs(const std::vector<prometheus::MetricFamily>& want, const std::string& text) {
  std::vector<Fam> got;
  std::string err;
  if (!parse(text, got, err)) return "the text is not valid: " + err;
  if (got.size() != want.size()) return fmt("the text has %zu families instead of %zu", got.size(), want.size());
  for (size_t i = 0; i < got.size(); i++) {
    if (got[i].name != want[i].name) return "family " + got[i].name + " instead of " + want[i].name;
    if (got[i].help != want[i].help) return "help of " + want[i].name + " is '" + excerpt(got[i].help) + "' instead of '" + excerpt(want[i].help) + "'";
    if (got[i].type != type_name(want[i].type)) return "type of " + want[i].name + " is " + got[i].type + " instead of " + type_name(want[i].type);
    auto w = samples_of(want[i]);
    auto g = got[i].s;
    for (auto& x : w) {
      bool found = false;
      for (auto it = g.begin(); it != g.end(); ++it) if (matches(x, *it)) { g.erase(it); found = true; break; }
      if (!found) return "the text lacks the sample " + show(x) + (g.empty() ? "" : "; the first one it has instead is " + show(g[0]));
    }
    if (g.size()) return "the text has a sample that was not collected: " + show(g[0]);
  }
  return "";
}
}  // namespace expo
