#include "common.hpp"
#include "BasicTypes.hpp"
#include "Point.hpp"
typedef long double LD;
static void get(const Point& p, LD* v) { v[0] = p.Dot(Point{1, 0, 0}); v[1] = p.Dot(Point{0, 1, 0}); v[2] = p.Dot(Point{0, 0, 1}); }
static LD dot(const LD* a, const LD* b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static void unit(const char* n, const LD* v) {
  LD s = dot(v, v);
  if (!(std::fabs(s - 1) < 1e-9L)) fail("%s: squared length %.17Lg", n, s);
}
void one_case(Rnd& r) {
  LD a[3], v[3];
  double x[3];
  for (auto& c : x) c = r.coin(0.25) ? 0 : r.uni(-5, 5);
  if (x[0] == 0 && x[1] == 0 && x[2] == 0) x[r.in(0, 2)] = r.coin() ? 1 : -2;
  if (r.coin(0.05)) { x[1] *= 1e-7; x[2] *= 1e-7; if (x[0] == 0) x[0] = 1; }
  note = "components (" + S(x[0]) + "," + S(x[1]) + "," + S(x[2]) + ")";
  Direction d{x[0], x[1], x[2]};
  get(d, a);
  unit("Direction(x,y,z)", a);
  LD n = std::sqrt(LD(x[0]) * x[0] + LD(x[1]) * x[1] + LD(x[2]) * x[2]);
  for (int i = 0; i < 3; ++i) if (std::fabs(a[i] - x[i] / n) > 1e-12L) fail("Direction(x,y,z) component %d is %.17Lg, expected %.17Lg", i, a[i], x[i] / n);
  Point p{x[0], x[1], x[2]};
  get(Direction{p}, v);
  for (int i = 0; i < 3; ++i) if (std::fabs(a[i] - v[i]) > 1e-12L) fail("Direction(Point) component %d", i);
  Doc doc("<d x='" + S(x[0]) + "' y='" + S(x[1]) + "' z='" + S(x[2]) + "'/>");
  get(Direction{doc.root()}, v);
  for (int i = 0; i < 3; ++i) if (std::fabs(a[i] - v[i]) > 1e-12L) fail("Direction(node) component %d", i);
  p.Normalize();
  get(p, v);
  for (int i = 0; i < 3; ++i) if (std::fabs(a[i] - v[i]) > 1e-12L) fail("Normalize component %d", i);
  // deflection
  double mu = r.coin(0.1) ? (r.coin() ? 1 : -1) : r.coin(0.05) ? 0 : r.uni(-1, 1), phi = r.uni(0, 2 * M_PI);
  note += " mu=" + S(mu) + " phi=" + S(phi);
  LD b[3], e1[3], e2[3];
  get(Direction{d, mu, phi}, b);
  unit("deflected direction", b);
  // a direction with tiny transverse components loses digits in the rotated frame
  LD tol = std::min(LD(1), 1e-9L / std::max(1e-8L, std::sqrt(a[1] * a[1] + a[2] * a[2])) + 1e-9L);
  if (a[1] == 0 && a[2] == 0) tol = 1e-9L;
  if (std::fabs(dot(a, b) - mu) > tol) fail("cosine with the original is %.17Lg, expected %.17g", dot(a, b), mu);
  get(Direction{d, 0, 0}, e1);
  get(Direction{d, 0, M_PI / 2}, e2);
  if (std::fabs(dot(e1, e2)) > tol) fail("a quarter turn of azimuth is not orthogonal: %Lg", dot(e1, e2));
  for (int i = 0; i < 3; ++i) {
    LD w = mu * a[i] + std::sqrt(1 - LD(mu) * mu) * (std::cos(LD(phi)) * e1[i] + std::sin(LD(phi)) * e2[i]);
    if (std::fabs(w - b[i]) > 10 * tol) fail("azimuth does not rotate about the direction: component %d is %.17Lg, expected %.17Lg", i, b[i], w);
  }
  if (case_no % 5000 == 7) {   // distribution of isotropic directions
    RNG g(1 + case_no);
    const int N = 40000, K = 20;
    std::vector<int> hx(K), hp(K), q(4);
    for (int i = 0; i < N; ++i) {
      LD c[3];
      get(Direction{g}, c);
      unit("isotropic direction", c);
      hx[std::min(K - 1, int((c[0] + 1) / 2 * K))]++;
      hp[std::min(K - 1, int((std::atan2(c[2], c[1]) / (2 * M_PI) + 0.5) * K))]++;
      q[(c[0] > 0) * 2 + (c[1] > 0)]++;
    }
    for (auto* h : {&hx, &hp, &q}) {
      double k = h->size(), chi = 0, e = N / k;
      for (int c : *h) chi += (c - e) * (c - e) / e;
      if (chi > k + 9 * std::sqrt(2 * k) + 20) fail("isotropic directions are not uniform: chi2 %.3g over %g classes", chi, k);
    }
  }
}
