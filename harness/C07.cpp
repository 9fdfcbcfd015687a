#include "xs.hpp"
#include "tally.hpp"
static void above(double m, double t, const char* w) {
  if (!(m >= t * (1 - 1e-9))) fail("%s: majorant %.17g below total %.17g", w, m, t);
}
static void multi(Rnd& r) {
  Setup s = setup(r, false, true);
  std::vector<int> o;
  Doc d(s.doc("", o));
  note = s.head;
  World w{d.root()};
  for (size_t i = 0; i < s.slab.size(); ++i) {
    int m = s.slab[i];
    if (m < 0) continue;
    const Cell* c = &w.cells[i];
    for (int g = 1; g <= s.G; ++g) {
      Particle p{Point{0, 0, 0}, Direction{1, 0, 0}, Energy{Group(g)}, Particle::Type::neutron, 1, c};
      double want = 0;
      for (auto& nu : w.nuclides) {
        int n = nucindex(nu->name);
        double t = s.cap[n][g - 1] + s.sca[n][g - 1] + s.fis[n][g - 1];
        want += s.frac[m][n] * t;
        if (!near(nu->GetTotal(p), t)) fail("total of %s", nu->name.c_str());
        if (nu->GetMajorant(p) != nu->GetTotal(p)) fail("multigroup majorant %g and total %g differ", nu->GetMajorant(p), nu->GetTotal(p));
      }
      if (!near(c->material->GetMicroscopicTotal(p), want)) fail("total of material %.17g, expected %.17g", c->material->GetMicroscopicTotal(p), want);
      if (!near(c->material->GetMicroscopicMajorant(p), want)) fail("majorant of material %.17g, expected %.17g", c->material->GetMicroscopicMajorant(p), want);
    }
  }
}
static void continuous(Rnd& r) {
  double T = r.uni(20, 2000);
  Cont c = cont(r, T, true, 0);
  Field f = field(r, T);
  Doc d(cont_doc(c, f.xml, f.own));
  note = cont_doc(c, f.xml, f.own);
  World w{d.root()};
  const Cell* ce = &w.cells[0];
  auto head = note;
  for (int i = 0; i < 60; ++i) {
    Point x{r.uni(0.1, 5), r.uni(-5, 5), r.uni(-5, 5)};
    double t = f.at(x.x, x.y, x.z), A = c.nuc[r.in(0, c.nuc.size() - 1)].awr;
    double Tq = r.coin() ? t : f.top();
    double E = r.coin(0.2) ? c.grid[r.in(0, c.grid.size() - 1)] : r.coin(0.4) && Tq > 0 ? 500 * kB * Tq / A * r.uni(0.9, 1.1) : r.logu(c.grid.front() / 3, c.grid.back() * 3);
    note = head + " at (" + S(x.x) + "," + S(x.y) + "," + S(x.z) + ") T " + S(t) + " E " + S(E);
    if (t < 0 || t > f.top()) continue;
    Particle p{x, Direction{r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)}, Energy{ContinuousEnergy(E)}, Particle::Type::neutron, 1, ce};
    double st = 0, sm = 0;
    for (auto& nu : w.nuclides) {
      double a = c.afrac[std::atoi(nu->name.c_str() + 1)];
      above(nu->GetMajorant(p), nu->GetTotal(p), "nuclide");
      st += a * nu->GetTotal(p);
      sm += a * nu->GetMajorant(p);
      for (auto& q : static_cast<const Continuous&>(*nu->xs.at(Particle::Type::neutron)).reactions) above(q->GetMajorant(p), q->GetCrossSection(p), "reaction");
    }
    double mt = ce->material->GetMicroscopicTotal(p), mm = ce->material->GetMicroscopicMajorant(p);
    if (!near(mt, st)) fail("total of material %.17g, expected %.17g", mt, st);
    if (!near(mm, sm)) fail("majorant of material %.17g, expected %.17g", mm, sm);
    above(mm, mt, "material");
    // a flight by delta tracking uses the majorant of where it began everywhere in the cell
    for (int k = 0; k < 3; ++k) {
      Point y{r.uni(0.1, 5), r.uni(-5, 5), r.uni(-5, 5)};
      double ty = f.at(y.x, y.y, y.z);
      if (ty < 0 || ty > f.top()) continue;
      Particle q{y, p.GetDirection(), Energy{ContinuousEnergy(E)}, Particle::Type::neutron, 1, ce};
      note = head + " majorant at (" + S(x.x) + "," + S(x.y) + "," + S(x.z) + ") T " + S(t) + " total at (" + S(y.x) + "," + S(y.y) + "," + S(y.z) + ") T " + S(ty) + " E " + S(E);
      for (auto& nu : w.nuclides) above(nu->GetMajorant(p), nu->GetTotal(q), "nuclide elsewhere in the cell");
      above(mm, ce->material->GetMicroscopicTotal(q), "material elsewhere in the cell");
    }
  }
}
void one_case(Rnd& r) {
  if (case_no % 4 == 0) multi(r); else continuous(r);
}
