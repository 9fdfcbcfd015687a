// distance to a surface is the first forward crossing
#include "common.hpp"
#include "CSGSurface.hpp"
#include "Point.hpp"
typedef long double LD;
static double cget(const Point& p, int i) { return p.Dot(i == 0 ? Point{1, 0, 0} : i == 1 ? Point{0, 1, 0} : Point{0, 0, 1}); }

void one_case(Rnd& r) {
  int kind = r.in(0, 2);
  double cx = r.coin() ? 0 : r.uni(-5, 5), cy = r.coin() ? 0 : r.uni(-5, 5), cz = r.coin() ? 0 : r.uni(-5, 5), R = r.coin(0.2) ? 1 : r.uni(0.1, 6);
  std::string x = kind == 0 ? "<surfaces><sphere name='s'><center x='" + S(cx) + "' y='" + S(cy) + "' z='" + S(cz) + "'/><radius r='" + S(R) + "'/></sphere></surfaces>"
                : kind == 1 ? "<surfaces><planex name='s' x='" + S(cx) + "'/></surfaces>"
                            : "<surfaces><cylinderx name='s' r='" + S(R) + "'/></surfaces>";
  if (kind == 2) cx = cy = cz = 0;
  Doc doc("<root>" + x + "</root>");
  auto s = CSGSurface::Create(doc.root(), "s");
  Point o{r.uni(-8, 8), r.uni(-8, 8), r.uni(-8, 8)};
  Direction d{r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)};
  int mode = r.in(0, 5);
  if (mode == 0) {   // axis aligned direction
    double v[3] = {0, 0, 0};
    v[r.in(0, 2)] = r.coin() ? 1 : -1;
    d = Direction{v[0], v[1], v[2]};
  }
  bool onsurf = false;
  if (mode == 1) {   // start exactly on the surface
    onsurf = true;
    double e = r.coin() ? R : -R;
    o = kind == 0 ? Point{cx + e, cy, cz} : kind == 1 ? Point{cx, r.uni(-3, 3), r.uni(-3, 3)} : Point{0, 0, e};
    if (kind == 0 && cx + e - cx != e) return;
    if (kind == 0) d = r.coin() ? Direction{r.coin() ? 1. : -1., 0, 0} : Direction{0, 1, 0};
    if (kind == 2) d = r.coin() ? Direction{0, 0, r.coin() ? 1. : -1.} : Direction{0, 1, 0};
  }
  LD O[3], D[3];
  for (int i = 0; i < 3; ++i) { O[i] = cget(o, i); D[i] = cget(d, i); }
  note = x + " o=(" + S(double(O[0])) + "," + S(double(O[1])) + "," + S(double(O[2])) + ") d=(" + S(double(D[0])) + "," + S(double(D[1])) + "," + S(double(D[2])) + ")";
  double got = s->Distance(o, d);
  if (!(got > 0)) fail("distance %g is not positive", got);
  LD C[3] = {cx, cy, cz};
  if (kind == 1) {
    LD v = C[0] - O[0];
    if (D[0] == 0 || v / D[0] <= 0) { if (!std::isinf(got)) fail("plane: expected infinity, got %.17g", got); }
    else if (!near(got, double(v / D[0]), 1e-9)) fail("plane: expected %.17g got %.17g", double(v / D[0]), got);
    return;
  }
  LD a = 0, b = 0, c = -LD(R) * R;
  for (int i = kind == 0 ? 0 : 1; i < 3; ++i) { LD q = O[i] - C[i]; a += D[i] * D[i]; b += q * D[i]; c += q * q; }
  if (a < 1e-12L) { if (!std::isinf(got)) fail("parallel path: expected infinity, got %.17g", got); return; }
  LD disc = b * b - a * c, scale = b * b + std::fabs(a * c) + 1e-300L;
  if (!onsurf && std::fabs(disc) < 1e-9L * scale) return;
  if (onsurf) c = 0, disc = b * b;
  if (onsurf && std::fabs(b) > 1e-12L) {
    LD other = -2 * b / a;
    if (other <= 0) { if (!std::isinf(got)) fail("leaving from the surface: expected infinity, got %.17g", got); }
    else if (!near(got, double(other), 1e-7)) fail("from the surface: expected %.17g got %.17g", double(other), got);
    return;
  }
  if (onsurf) { if (!std::isinf(got)) fail("grazing: expected infinity, got %.17g", got); return; }
  if (disc < 0) { if (!std::isinf(got)) fail("miss: expected infinity, got %.17g", got); return; }
  LD q = -(b + (b > 0 ? 1 : -1) * std::sqrt(disc));
  LD t1 = q / a, t2 = q == 0 ? 0 : c / q;
  if (t1 > t2) std::swap(t1, t2);
  LD sc = std::sqrt(scale) / a;
  if (std::fabs(t1) < 1e-7L * sc || std::fabs(t2) < 1e-7L * sc) return;
  LD want = t1 > 0 ? t1 : t2 > 0 ? t2 : std::numeric_limits<LD>::infinity();
  if (!near(got, double(want), 1e-6)) fail("expected %.17g got %.17g", double(want), got);
}
