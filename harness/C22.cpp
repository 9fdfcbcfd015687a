#include "common.hpp"
#include "Cell.hpp"
#include "CSGSurface.hpp"
#include "Constants.hpp"
#include "Material.hpp"
#include "Point.hpp"
#include "ScalarField.hpp"
#include "TransportMethod.hpp"
#include "World.hpp"
struct G { bool lin = false; double c = 0, g[3] = {0, 0, 0}, b = 0, lo = 0, hi = 0; };
static void check(const ScalarField& f, const G& g, Rnd& r, const char* what) {
  for (int i = 0; i < 4; ++i) {
    double p[3] = {r.uni(-20, 20), r.uni(-20, 20), r.uni(-20, 20)};
    double want = g.lin ? g.g[0] * p[0] + g.g[1] * p[1] + g.g[2] * p[2] + g.b : g.c;
    double got = f.at(Point{p[0], p[1], p[2]});
    if (!near(got, want, 1e-9, 1e-9)) fail("%s: %.17g at (%g,%g,%g), expected %.17g", what, got, p[0], p[1], p[2], want);
  }
  bool k = !g.lin || (g.g[0] == 0 && g.g[1] == 0 && g.g[2] == 0);
  if (f.IsConstant() != k) fail("%s: IsConstant is %d", what, int(f.IsConstant()));
  double u = g.lin ? g.hi : g.c, l = g.lin ? g.lo : g.c;
  if (f.upper_bound != u || f.lower_bound != l) fail("%s: bounds %g..%g, declared %g..%g", what, f.lower_bound, f.upper_bound, l, u);
}
void one_case(Rnd& r) {
  G g;
  std::string t;
  int kind = r.in(0, 2);
  if (kind == 0) g.c = 293.6;
  else if (kind == 1) { g.c = r.coin(0.2) ? 0 : r.uni(1, 3000); t = "<temperature><constant c='" + S(g.c) + "'/></temperature>"; }
  else {
    g.lin = true;
    if (!r.coin(0.25)) for (double& x : g.g) x = r.coin(0.4) ? 0 : r.coin(0.3) ? r.uni(-1e-4, 1e-4) : r.uni(-5, 5);
    g.b = r.uni(0, 600); g.lo = r.uni(0, 100); g.hi = r.uni(200, 3000);
    t = "<temperature><linear><gradient x='" + S(g.g[0]) + "' y='" + S(g.g[1]) + "' z='" + S(g.g[2]) + "'/><intercept b='" + S(g.b) +
        "'/><bounds lower='" + S(g.lo) + "' upper='" + S(g.hi) + "'/></linear></temperature>";
  }
  int tr = r.in(0, 2);
  std::string x = "<root><general>" + std::string(tr == 0 ? "" : tr == 1 ? "<tracking>surface</tracking>" : "<tracking>cell delta</tracking>") +
      "</general><surfaces><planex name='s' x='0'/></surfaces><nuclides><multigroup/></nuclides><materials><material name='m' aden='1'/></materials>" + t + "<cells>";
  int n = r.in(1, 4);
  std::vector<double> own(n, -1);
  for (int i = 0; i < n; ++i) {
    if (r.coin()) own[i] = r.coin(0.2) ? 0 : r.uni(1, 3000);
    std::string a = own[i] >= 0 ? " temperature='" + S(own[i]) + "'" : "";
    x += r.coin() ? "<cell name='c" + S(i) + "' material='m'" + a + "><surface name='s' sense='-1'/></cell>"
                  : "<void" + a + "><surface name='s' sense='+1'/></void>";
  }
  x += "</cells></root>";
  note = x;
  Doc d(x);
  World w{d.root()};
  check(*w.temperature, g, r, "global field");
  if (w.cells.size() != size_t(n)) fail("%zu cells", w.cells.size());
  for (int i = 0; i < n; ++i) {
    G c;
    c.c = own[i];
    check(*w.cells[i].temperature, own[i] >= 0 ? c : g, r, "cell field");
  }
  bool k = !g.lin || (g.g[0] == 0 && g.g[1] == 0 && g.g[2] == 0), thrown = false;
  std::unique_ptr<const TransportMethod> m;
  try { m = TransportMethod::Create(d.root(), w); } catch (const std::runtime_error&) { thrown = true; }
  if (thrown != (tr != 2 && !k)) fail("tracking choice %d, constant field %d: %s", tr, int(k), thrown ? "refused" : "accepted");
  if (!thrown && !m) fail("no tracking method is created");
  if (!thrown && (tr == 2) != (dynamic_cast<const CellDeltaTracking*>(m.get()) != nullptr)) fail("tracking choice %d gives the wrong method", tr);
}
