#include "common.hpp"
#include "ContinuousMap.hpp"
using M1 = NestedContinuousMap<1>::MappedType;
using M2 = NestedContinuousMap<2>::MappedType;
using M3 = NestedContinuousMap<3>::MappedType;
static double ref(const std::map<double, double>& e, double k) {
  auto hi = e.lower_bound(k);
  if (hi == e.end()) return std::prev(hi)->second;
  if (hi->first == k || hi == e.begin()) return hi->second;
  auto lo = std::prev(hi);
  return lo->second + (hi->second - lo->second) * (k - lo->first) / (hi->first - lo->first);
}
static double key(Rnd& r, const std::vector<double>& ks) {
  int n = ks.size();
  switch (r.in(0, 4)) {
  case 0: return ks[r.in(0, n - 1)];
  case 1: return ks.front() - r.logu(1e-3, 10);
  case 2: return ks.back() + r.logu(1e-3, 10);
  case 3: { int i = r.in(0, std::max(0, n - 2)); return n == 1 ? ks[0] : ks[i] + r.u() * (ks[i + 1] - ks[i]); }
  default: return r.uni(-12, 12);
  }
}
static std::vector<double> keys(Rnd& r) {
  std::set<double> s;
  int n = r.in(1, 6);
  while (int(s.size()) < n) s.insert(r.coin() ? r.uni(-10, 10) : r.in(-10, 10));
  return {s.begin(), s.end()};
}
static void eq(double a, double b, const char* what) {
  if (!near(a, b, 1e-9, 1e-9)) fail("%s: %.17g, expected %.17g", what, a, b);
}
void one_case(Rnd& r) {
  auto a = keys(r), b = keys(r), c = keys(r);
  M1 m1; M2 m2; M3 m3;
  std::map<double, double> e;
  for (double x : a) {
    double v = r.uni(-5, 5);
    if (r.coin(0.2)) m1[x] = r.uni(-5, 5);   // overwritten below
    m1[x] = v; e[x] = v;
  }
  double q = key(r, a), q2 = key(r, b), q3 = key(r, c);
  note = "n=" + S(a.size()) + " key=" + S(q);
  eq(m1.at(q), ref(e, q), "one dimension");
  for (double x : a) eq(m1.at(x), e[x], "at a tabulated key");
  std::map<double, double> col;
  for (double x : a) {
    std::map<double, double> in;
    for (double y : b) { double v = r.uni(-5, 5); m2[x][y] = v; in[y] = v; }
    col[x] = ref(in, q2);
  }
  eq(m2.at(q, q2), ref(col, q), "two dimensions");
  std::map<double, double> o;
  for (double x : a) {
    std::map<double, double> mid;
    for (double y : b) {
      std::map<double, double> in;
      for (double z : c) { double v = r.uni(-5, 5); m3[x][y][z] = v; in[z] = v; }
      mid[y] = ref(in, q3);
    }
    o[x] = ref(mid, q2);
  }
  eq(m3.at(q, q2, q3), ref(o, q), "three dimensions");
}
