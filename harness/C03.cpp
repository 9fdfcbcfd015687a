#include "common.hpp"
#include "CSGSurface.hpp"
#include "Cell.hpp"
#include "Material.hpp"
#include "Point.hpp"
#include "ScalarField.hpp"
#include "World.hpp"
void one_case(Rnd& r) {
  int ns = r.in(1, 5), nc = r.in(1, 4);
  std::string x = "<root><surfaces>";
  for (int i = 0; i < ns; ++i)
    x += r.coin() ? "<sphere name='s" + S(i) + "'><center x='" + S(r.uni(-2, 2)) + "' y='0' z='0'/><radius r='" + S(r.uni(0.5, 4)) + "'/></sphere>"
                  : "<planex name='s" + S(i) + "' x='" + S(r.uni(-3, 3)) + "'/>";
  x += "</surfaces><cells>";
  for (int c = 0; c < nc; ++c) {
    x += "<void>";
    int k = r.coin(0.1) ? 0 : r.in(1, ns);
    std::vector<int> id(ns);
    std::iota(id.begin(), id.end(), 0);
    std::shuffle(id.begin(), id.end(), r.g);
    for (int i = 0; i < k; ++i) x += "<surface name='s" + S(id[i]) + "' sense='" + (r.coin() ? "-1" : "+1") + "'/>";
    x += "</void>";
  }
  x += "</cells></root>";
  Doc doc(x);
  World w{doc.root()};
  Point p{r.uni(-5, 5), r.uni(-3, 3), r.uni(-3, 3)};
  Direction d{r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)};
  if (r.coin(0.2)) d = Direction{0, 1, 0};
  note = x + " p.x=" + S(p.Dot(Point{1, 0, 0})) + " p.y=" + S(p.Dot(Point{0, 1, 0})) + " p.z=" + S(p.Dot(Point{0, 0, 1}));
  const Cell* want = nullptr;
  if (w.cells.size() != size_t(nc)) fail("%zu cells for %d nodes", w.cells.size(), nc);
  for (auto& c : w.cells) {
    bool in = true;
    for (auto& [s, neg] : c.surface_senses) in = in && s->Contains(p) == neg;
    if (in) { want = &c; break; }
  }
  const Cell* got = nullptr;
  try { got = &w.FindCellContaining(p); } catch (const std::runtime_error&) {}
  if (got != want) fail("lookup returned cell %ld, the first containing cell is %ld", got ? long(got - w.cells.data()) : -1L, want ? long(want - w.cells.data()) : -1L);
  for (auto& c : w.cells) {
    bool thrown = false;
    std::shared_ptr<const CSGSurface> s;
    double t = 0;
    try { auto [a, b] = c.NearestSurface(p, d); s = a; t = b; } catch (const std::runtime_error&) { thrown = true; }
    if (thrown != c.surface_senses.empty()) fail("nearest surface: error %d with %zu surfaces", int(thrown), c.surface_senses.size());
    if (thrown) continue;
    if (!s || !c.surface_senses.count(s)) fail("nearest surface is not a surface of the cell");
    if (t != s->Distance(p, d)) fail("distance %g is not that of the surface returned (%g)", t, s->Distance(p, d));
    for (auto& [q, n] : c.surface_senses)
      if (q->Distance(p, d) < t) fail("surface %s is closer (%g) than the one returned (%g)", q->name.c_str(), q->Distance(p, d), t);
  }
}
