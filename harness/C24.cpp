#include "common.hpp"
#include "Point.hpp"
static void get(const Point& p, double* v) { v[0] = p.Dot(Point{1, 0, 0}); v[1] = p.Dot(Point{0, 1, 0}); v[2] = p.Dot(Point{0, 0, 1}); }
static void chk(const char* n, const Point& p, double x, double y, double z, double sc = 1) {
  double v[3], w[3] = {x, y, z};
  get(p, v);
  for (int i = 0; i < 3; ++i)
    if (!near(v[i], w[i], 1e-12, 1e-12 * sc)) fail("%s component %d: expected %.17g got %.17g", n, i, w[i], v[i]);
}
void one_case(Rnd& r) {
  double a[3], b[3], s = r.coin(0.1) ? 1 : r.uni(-4, 4);
  for (int i = 0; i < 3; ++i) { a[i] = r.uni(-9, 9); b[i] = r.coin(0.2) ? a[i] : r.uni(-9, 9); }
  note = "a=(" + S(a[0]) + "," + S(a[1]) + "," + S(a[2]) + ") b=(" + S(b[0]) + "," + S(b[1]) + "," + S(b[2]) + ") s=" + S(s);
  Point A{a[0], a[1], a[2]}, B{b[0], b[1], b[2]};
  chk("Point(x,y,z)", A, a[0], a[1], a[2]);
  chk("a+b", A + B, a[0] + b[0], a[1] + b[1], a[2] + b[2]);
  chk("a-b", A - B, a[0] - b[0], a[1] - b[1], a[2] - b[2]);
  chk("a*s", A * s, a[0] * s, a[1] * s, a[2] * s);
  chk("s*a", s * A, a[0] * s, a[1] * s, a[2] * s);
  if (std::fabs(s) > 1e-3) {
    chk("a/s", A / s, a[0] / s, a[1] / s, a[2] / s, 1e4);
    Point C = A;
    C /= s;
    chk("a/=s", C, a[0] / s, a[1] / s, a[2] / s, 1e4);
  }
  Point C = A;
  C += B;
  chk("a+=b", C, a[0] + b[0], a[1] + b[1], a[2] + b[2]);
  Point E = A;
  E += E;
  chk("a+=a", E, 2 * a[0], 2 * a[1], 2 * a[2]);
  double d = a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
  if (!near(A.Dot(B), d, 1e-11, 1e-11)) fail("dot: expected %.17g got %.17g", d, A.Dot(B));
  chk("cross", A.Cross(B), a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0], 100);
  bool eq = a[0] == b[0] && a[1] == b[1] && a[2] == b[2];
  if ((A == B) != eq) fail("equality gives %d, components agree: %d", int(A == B), int(eq));
  double q[3];
  for (int k = 0; k < 8; ++k) {
    for (int i = 0; i < 3; ++i) q[i] = a[i] + (k >> i & 1);
    if ((A == Point{q[0], q[1], q[2]}) != (k == 0)) fail("equality of points differing in mask %d", k);
  }
  Doc doc("<p x='" + S(a[0]) + "' y='" + S(a[1]) + "' z='" + S(a[2]) + "'/>");
  chk("Point(node)", Point{doc.root()}, a[0], a[1], a[2]);
  chk("Point()", Point{}, 0, 0, 0);
}
