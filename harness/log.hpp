// One JSON object per line; doubles as strings (TLC has no reals).
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <fstream>
#include <iostream>
#include <sstream>

inline std::string num(double x)
{
  if (std::isnan(x)) {return "\"nan\"";}
  if (std::isinf(x)) {return x > 0 ? "\"inf\"" : "\"-inf\"";}
  char b[64];
  snprintf(b, sizeof b, "\"%.17g\"", x);
  return b;
}
struct Ev
{
  std::string s;
  explicit Ev(const char * e) {s = std::string("{\"e\":\"") + e + "\"";}
  Ev & raw(const char * k, const std::string & v) {s += std::string(",\"") + k + "\":" + v; return *this;}
  Ev & r(const char * k, double v) {return raw(k, num(v));}
  Ev & i(const char * k, long long v)
  {
    if (v > 2000000000LL) {v = 2000000000LL;}
    if (v < -2000000000LL) {v = -2000000000LL;}
    return raw(k, std::to_string(v));
  }
  Ev & b(const char * k, bool v) {return raw(k, v ? "true" : "false");}
  Ev & t(const char * k, const std::string & v) {return raw(k, "\"" + v + "\"");}
};
struct Log
{
  FILE * f;
  long n = 0;
  explicit Log(const char * path) {f = fopen(path, "w"); if (!f) {perror(path); exit(3);}}
  ~Log() {fclose(f);}
  void operator()(const Ev & e) {fputs(e.s.c_str(), f); fputs("}\n", f); ++n;}
  void flush() {fflush(f);}
};
template<class C, class F> std::string jarr(const C & c, F f)
{
  std::string s = "[";
  bool first = true;
  for (auto & x : c) {if (!first) {s += ",";} first = false; s += f(x);}
  return s + "]";
}
inline std::string jxy(double x, double y) {return "{\"x\":" + num(x) + ",\"y\":" + num(y) + "}";}
inline std::string jxyt(double x, double y, double t)
{
  return "{\"x\":" + num(x) + ",\"y\":" + num(y) + ",\"t\":" + num(t) + "}";
}
template<class M> std::string jmat(const M & m)
{
  std::string s = "[";
  for (int i = 0; i < m.rows(); ++i) {
    for (int j = 0; j < m.cols(); ++j) {if (i + j) {s += ",";} s += num(m(i, j));}
  }
  return s + "]";
}
// deterministic random numbers, independent of the standard library
struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {for (int i = 0; i < 8; ++i) {next();}}
  uint64_t next()
  {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int below(int n) {return static_cast<int>(next() % n);}
  double u() {return (next() >> 11) * (1.0 / 9007199254740992.0);}
  double u(double a, double b) {return a + (b - a) * u();}
  bool coin(double p = 0.5) {return u() < p;}
  double normal()
  {
    double s = 0; for (int i = 0; i < 12; ++i) {s += u();} return s - 6.0;
  }
};
// histories written by TLC: one per line, words separated by blanks
inline std::vector<std::vector<std::string>> histories(const char * path)
{
  std::vector<std::vector<std::string>> r;
  std::ifstream f(path);
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream is(line);
    std::vector<std::string> v;
    std::string w;
    while (is >> w) {v.push_back(w);}
    r.push_back(v);
  }
  return r;
}
// named command line arguments: key=value
struct Args
{
  std::vector<std::pair<std::string, std::string>> kv;
  Args(int argc, char ** argv)
  {
    for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      auto p = a.find('=');
      if (p != std::string::npos) {kv.emplace_back(a.substr(0, p), a.substr(p + 1));}
    }
  }
  std::string s(const char * k, const char * d = "") const
  {
    for (auto & p : kv) {if (p.first == k) {return p.second;}}
    return d;
  }
  long i(const char * k, long d) const {auto v = s(k); return v.empty() ? d : atol(v.c_str());}
};
