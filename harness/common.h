// Script reader and ndjson trace writer shared by the harnesses.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace vf
{
struct Json {
  std::ostringstream os;
  bool first = true;
  Json() { os << "{"; }
  void key(const std::string &k)
  {
    if (!first) os << ",";
    first = false;
    os << "\"" << k << "\":";
  }
  Json &i(const std::string &k, long long v) { key(k); os << v; return *this; }
  Json &b(const std::string &k, bool v) { key(k); os << (v ? "true" : "false"); return *this; }
  Json &s(const std::string &k, const std::string &v) { key(k); os << str(v); return *this; }
  Json &raw(const std::string &k, const std::string &v) { key(k); os << v; return *this; }
  template <class C> Json &arr(const std::string &k, const C &c)
  {
    key(k);
    os << list(c);
    return *this;
  }
  template <class C> static std::string list(const C &c)
  {
    std::ostringstream o;
    o << "[";
    bool f = true;
    for (const auto &v : c) {
      if (!f) o << ",";
      f = false;
      o << v;
    }
    o << "]";
    return o.str();
  }
  static std::string str(const std::string &v)
  {
    std::string r = "\"";
    for (unsigned char c : v) {
      if (c == '"' || c == '\\') { r += '\\'; r += c; }
      else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
      else r += c;
    }
    return r + "\"";
  }
  std::string done() { os << "}"; return os.str(); }
};

// Integer image of a real number: value*scale rounded. Values that are not finite, or too big for
// TLC's 32 bit integers, are mapped to sentinels no specification ever expects.
inline long long scaled(double v, double scale)
{
  if (std::isnan(v)) return 2000000001LL;
  double r = std::round(v * scale);
  if (!(std::fabs(r) < 2.0e9)) return v > 0 ? 2000000002LL : 2000000003LL;
  return static_cast<long long>(r);
}
// v*scale when that is an integer up to tol, sentinel otherwise
inline long long exact(double v, double scale, double tol = 1e-6)
{
  long long r = scaled(v, scale);
  if (r >= 2000000001LL) return r;
  if (std::fabs(v * scale - static_cast<double>(r)) > tol) return 2000000004LL;
  return r;
}

typedef std::vector<std::string> Op;
inline long long I(const Op &op, size_t i)
{
  if (i >= op.size()) { std::fprintf(stderr, "missing argument %zu of %s\n", i, op[0].c_str()); std::exit(3); }
  return std::atoll(op[i].c_str());
}
inline double D(const Op &op, size_t i)
{
  if (i >= op.size()) { std::fprintf(stderr, "missing argument %zu of %s\n", i, op[0].c_str()); std::exit(3); }
  return std::atof(op[i].c_str());
}

// handler writes all fields of the event after "op"; "reset" is delivered too
inline int run(int argc, char **argv, const std::function<void(const Op &, Json &)> &handler)
{
  if (argc < 3) return 3;
  std::ifstream in(argv[1]);
  FILE *out = std::fopen(argv[2], "w");
  if (!in || !out) return 3;
  // library chatter must not disturb us
  std::cout.setstate(std::ios_base::failbit);
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    Op op;
    std::string t;
    while (is >> t) op.push_back(t);
    if (op.empty()) continue;
    Json j;
    j.s("op", op[0]);
    handler(op, j);
    std::string s = j.done();
    std::fprintf(out, "%s\n", s.c_str());
    std::fflush(out);
  }
  std::fclose(out);
  return 0;
}
}  // namespace vf
