// Concrete driver scaffold: every case is determined by (seed, case number).
#pragma once
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>
#include "pugixml.hpp"

struct Fail {
  std::string what;
};

[[noreturn]] inline void fail(const char* f, ...) {
  char b[2000];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  for (char* p = b; *p; ++p)
    if (*p == '\n') *p = ' ';
  throw Fail{b};
}

struct Rnd {
  std::mt19937_64 g;
  Rnd(unsigned long long s, unsigned long long c) : g{s * 0x9E3779B97F4A7C15ull + c * 0xD1B54A32D192ED03ull + 77} { g(); }
  double u() { return std::uniform_real_distribution<double>{}(g); }
  double uni(double a, double b) { return a + (b - a) * u(); }
  int in(int a, int b) { return a + int(g() % (unsigned long long)(b - a + 1)); }  // inclusive
  bool coin(double p = 0.5) { return u() < p; }
  double logu(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
};

inline int report_fd = -1;
inline void report(const std::string& l) {
  auto s = l + "\n";
  lseek(report_fd, 0, SEEK_END);
  if (write(report_fd, s.data(), s.size())) {}
}
inline std::set<std::string> known_seen;
inline void known(const std::string& k) {
  if (known_seen.insert(k).second) report("known " + k);
}
inline std::string note;  // description of the present case

struct Doc {
  pugi::xml_document d;
  Doc(const std::string& s) {
    if (!d.load_string(s.c_str())) { std::cerr << "bad document " << s << "\n"; std::abort(); }
  }
  pugi::xml_node root() const { return d.first_child(); }
};

inline std::string S(double x) {
  char b[64];
  snprintf(b, sizeof b, "%.17g", x);
  return b;
}
inline std::string S(int x) { return std::to_string(x); }
inline std::string S(size_t x) { return std::to_string(x); }

inline bool near(double a, double b, double rel = 1e-9, double abs = 1e-12) {
  if (std::isinf(a) || std::isinf(b)) return a == b;
  return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}

void one_case(Rnd& r);   // throws Fail
int special_cases();     // number of cases handled first with case numbers 0..n-1 (may be 0)

inline int run_case(unsigned long long seed, unsigned long long c) {
  char line[40];
  int n = snprintf(line, sizeof line, "case %020llu\n", c);
  if (pwrite(report_fd, line, n, 0)) {}
  Rnd r{seed, c};
  note.clear();
  try {
    one_case(r);
  } catch (const Fail& f) {
    report("fail " + f.what + (note.empty() ? "" : " | " + note));
    return 1;
  } catch (const std::exception& e) {
    report(std::string("fail unexpected exception: ") + e.what() + (note.empty() ? "" : " | " + note));
    return 1;
  }
  return 0;
}
inline unsigned long long case_no = 0;

int main(int argc, char** argv) {
  std::string mode = argv[1];
  unsigned long long seed = strtoull(argv[2], 0, 10);
  report_fd = open(argv[4], O_RDWR | O_CREAT | O_TRUNC, 0644);
  if (mode == "replay") {
    case_no = strtoull(argv[3], 0, 10);
    return run_case(seed, case_no);
  }
  double secs = atof(argv[3]);
  auto t0 = std::chrono::steady_clock::now();
  unsigned long long c = 0;
  for (;; ++c) {
    case_no = c;
    if (c >= 40 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
    if (run_case(seed, c)) return 1;
    if (c < 3 && !note.empty()) report("sample " + note);
  }
  report("cases " + std::to_string(c));
  return 0;
}
