#include "common.hpp"
#include "CSGSurface.hpp"
#include "Cell.hpp"
#include "Material.hpp"
#include "Point.hpp"
#include "ScalarField.hpp"
#include "World.hpp"
#include <numeric>
struct Sf { int kind; double c[3], R; std::string xml; };
static double side(const Sf& s, const double* p) {   // signed margin, negative inside
  if (s.kind == 1) return p[0] - s.c[0];
  double q = 0;
  for (int i = s.kind == 0 ? 0 : 1; i < 3; ++i) q += (p[i] - (s.kind == 0 ? s.c[i] : 0)) * (p[i] - (s.kind == 0 ? s.c[i] : 0));
  return std::sqrt(q) - s.R;
}
static Sf mk(Rnd& r, std::string n) {
  Sf s;
  s.kind = r.in(0, 2);
  for (auto& x : s.c) x = r.coin() ? 0 : r.uni(-3, 3);
  s.R = r.coin(0.3) ? r.uni(0.05, 1) : r.uni(0.5, 5);
  s.xml = s.kind == 0 ? "<sphere name='" + n + "'><center x='" + S(s.c[0]) + "' y='" + S(s.c[1]) + "' z='" + S(s.c[2]) + "'/><radius r='" + S(s.R) + "'/></sphere>"
        : s.kind == 1 ? "<planex name='" + n + "' x='" + S(s.c[0]) + "'/>" : "<cylinderx name='" + n + "' r='" + S(s.R) + "'/>";
  return s;
}
static std::string word(Rnd& r) {
  std::string s;
  for (int i = r.in(1, 4); i > 0; --i) s += char('a' + r.in(0, 2));
  return s;
}
// a world of several cells sharing surfaces with similar names: every cell has exactly its own surfaces and senses
static void whole_world(Rnd& r) {
  int n = r.coin(0.3) ? r.in(5, 14) : r.in(1, 5), nc = r.in(1, 4);
  std::vector<Sf> sf;
  std::vector<std::string> N;
  while (int(N.size()) < n) {
    auto s = word(r);
    if (std::find(N.begin(), N.end(), s) == N.end()) N.push_back(s);
  }
  double p[3];
  for (auto& x : p) x = r.uni(-6, 6);
  std::string x = "<minimc><surfaces>";
  for (auto& s : N) { sf.push_back(mk(r, s)); x += sf.back().xml; }
  x += "</surfaces><cells>";
  std::vector<std::map<std::string, bool>> want(nc);
  for (int c = 0; c < nc; ++c) {
    std::vector<int> o(n);
    std::iota(o.begin(), o.end(), 0);
    std::shuffle(o.begin(), o.end(), r.g);
    int k = r.in(1, n), odd = r.coin() ? r.in(0, k - 1) : -1;
    bool around = r.coin(0.7);
    x += "<void>";
    for (int i = 0; i < k; ++i) {
      bool neg = around ? (side(sf[o[i]], p) < 0) != (i == odd) : r.coin();
      want[c][N[o[i]]] = neg;
      x += "<surface name='" + N[o[i]] + "' sense='" + (neg ? "-1" : "+1") + "'/>";
    }
    x += "</void>";
  }
  x += "</cells></minimc>";
  note = x + " p=(" + S(p[0]) + "," + S(p[1]) + "," + S(p[2]) + ")";
  for (auto& s : sf) if (std::fabs(side(s, p)) < 1e-9) return;
  Doc doc(x);
  World w{doc.root()};
  Point P{p[0], p[1], p[2]};
  if (int(w.cells.size()) != nc) fail("%zu cells, input has %d", w.cells.size(), nc);
  for (int c = 0; c < nc; ++c) {
    bool in = true;
    for (auto& [name, neg] : want[c]) {
      int at = std::find(N.begin(), N.end(), name) - N.begin();
      in = in && (side(sf[at], p) < 0) == neg;
      int hits = 0;
      for (auto& [s, q] : w.cells[c].surface_senses) if (s->name == name) {
        ++hits;
        if (q != neg) fail("cell %d lists surface %s with the other sense", c, name.c_str());
        if (s->Contains(P) != (side(sf[at], p) < 0)) fail("surface %s of cell %d is not that of the input", name.c_str(), c);
      }
      if (hits != 1) fail("cell %d has %d surfaces %s", c, hits, name.c_str());
    }
    if (w.cells[c].surface_senses.size() != want[c].size()) fail("cell %d has %zu surfaces, input lists %zu", c, w.cells[c].surface_senses.size(), want[c].size());
    if (w.cells[c].Contains(P) != in) fail("containment in cell %d is %d, expected %d", c, int(w.cells[c].Contains(P)), int(in));
  }
}
void one_case(Rnd& r) {
  if (r.coin(0.3)) { try { whole_world(r); } catch (const std::runtime_error& e) { fail("rejected: %s", e.what()); } return; }
  int n = r.in(1, 4);
  std::vector<Sf> sf;
  std::string x = "<root><surfaces>", cell = "<cells><void>";
  std::vector<bool> neg;
  for (int i = 0; i < n; ++i) {
    sf.push_back(mk(r, "s" + S(i)));
    x += sf.back().xml;
    neg.push_back(r.coin());
    cell += "<surface name='s" + S(i) + "' sense='" + (neg.back() ? "-1" : "+1") + "'/>";
  }
  x += "</surfaces>" + cell + "</void></cells></root>";
  Doc doc(x);
  std::vector<std::shared_ptr<const CSGSurface>> all;
  for (int i = 0; i < n; ++i) all.push_back(CSGSurface::Create(doc.root(), "s" + S(i)));
  double p[3];
  for (int i = 0; i < 3; ++i) p[i] = r.uni(-6, 6);
  int k = r.in(0, n - 1);
  if (r.coin(0.6)) {   // close to one surface
    double f = r.coin() ? 0.98 : 1.02, R = sf[k].R * f;
    if (sf[k].kind == 1) p[0] = sf[k].c[0] + (f - 1);
    else {
      double v[3] = {r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)};
      if (sf[k].kind == 2) v[0] = 0;
      double l = std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]);
      for (int i = 0; i < 3; ++i) p[i] = (sf[k].kind == 0 ? sf[k].c[i] : i ? 0 : p[0]) + (l > 0 ? R * v[i] / l : 0);
    }
  }
  note = x + " p=(" + S(p[0]) + "," + S(p[1]) + "," + S(p[2]) + ")";
  Point P{p[0], p[1], p[2]};
  bool in = true;
  for (int i = 0; i < n; ++i) {
    double m = side(sf[i], p);
    if (std::fabs(m) < 1e-9) return;
    if (all[i]->Contains(P) != (m < 0)) fail("surface s%d: margin %.6g but Contains says %d", i, m, int(all[i]->Contains(P)));
    in = in && ((m < 0) == neg[i]);
  }
  // exactly on the surface is not inside
  if (sf[k].kind == 1 && all[k]->Contains(Point{sf[k].c[0], p[1], p[2]})) fail("a point on plane s%d counts as inside", k);
  if (sf[k].kind == 2 && all[k]->Contains(Point{0, sf[k].R, 0})) fail("a point on cylinder s%d counts as inside", k);
  std::vector<std::shared_ptr<const Material>> mats;
  std::shared_ptr<const ScalarField> T = std::make_shared<const ConstantField>(300.);
  Cell c{doc.root().child("cells").first_child(), all, mats, T};
  if (c.Contains(P) != in) fail("cell containment is %d, expected %d", int(c.Contains(P)), int(in));
  // crossing changes the side
  Direction d{r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)};
  for (int i = 0; i < n; ++i) {
    double t = all[i]->Distance(P, d);
    if (std::isinf(t)) continue;
    double e = 1e-6 * (1 + t), q[3];
    Point before = P + d * (t - e), after = P + d * (t + e);
    auto at = [&](const Point& z) { q[0] = z.Dot(Point{1, 0, 0}); q[1] = z.Dot(Point{0, 1, 0}); q[2] = z.Dot(Point{0, 0, 1}); return side(sf[i], q); };
    if (t < 3 * e || std::fabs(at(before)) < 1e-9 || std::fabs(at(after)) < 1e-9 || (at(before) < 0) == (at(after) < 0)) continue;
    if (all[i]->Contains(before) != all[i]->Contains(P)) fail("surface s%d: side changes before the reported distance %g", i, t);
    if (all[i]->Contains(after) == all[i]->Contains(P)) fail("surface s%d: side unchanged after the reported distance %g", i, t);
  }
}
