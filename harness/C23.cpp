#include "xs.hpp"
void one_case(Rnd& r) {
  double T = r.uni(20, 2000);
  Cont c = cont(r, T, r.coin(0.3), r.coin() ? 0 : r.uni(0, 1));
  Field f = field(r, T);
  Doc d(cont_doc(c, f.xml, f.own));
  auto head = note = cont_doc(c, f.xml, f.own);
  World w{d.root()};
  const Cell* ce = &w.cells[0];
  for (int i = 0; i < 60; ++i) {
    Point x{r.uni(0.1, 5), r.uni(-5, 5), r.uni(-5, 5)};
    double t = f.at(x.x, x.y, x.z), A = c.nuc[r.in(0, c.nuc.size() - 1)].awr;
    double E = r.coin(0.2) ? c.grid[r.in(0, c.grid.size() - 1)] : r.coin(0.4) && t > 0 ? 500 * kB * t / A * r.uni(0.9, 1.1) : r.logu(c.grid.front() / 3, c.grid.back() * 3);
    if (t < 0) continue;
    note = head + " at (" + S(x.x) + "," + S(x.y) + "," + S(x.z) + ") T " + S(t) + " E " + S(E);
    Particle p{x, Direction{r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)}, Energy{ContinuousEnergy(E)}, Particle::Type::neutron, 1, ce};
    for (auto& nu : w.nuclides) {
      auto& u = c.nuc[std::atoi(nu->name.c_str() + 1)];
      auto& rs = static_cast<const Continuous&>(*nu->xs.at(Particle::Type::neutron)).reactions;
      if (rs.size() != u.reacs.size()) fail("%zu reactions instead of %zu", rs.size(), u.reacs.size());
      double sum = 0;
      bool edge = sharp(u.T, t);
      for (size_t k = 0; k < rs.size(); ++k) {
        auto& q = u.reacs[k];
        double got = rs[k]->GetCrossSection(p), want = reaction_ref(q, u.awr, E, t);
        sum += want;
        if (q.kind == 1 && (sharp(q.T, t) || sharp_cut(u.awr, E, t))) { edge = true; continue; }
        if (q.kind == 1 && t < 0.99 * q.T && below_cutoff(u.awr, E, t)) {
          // IsValid lacks the absolute value: an evaluation much hotter than the target counts as matching
          double fix = q.t.at(E) * freegas(u.awr, E, t) / freegas(u.awr, E, q.T);
          if (near(got, fix)) { edge = true; continue; }
          if (near(got, want)) { known("evaluation-hotter-than-target"); continue; }
        }
        if (!near(got, want)) fail("reaction %zu of %s: cross section %.17g, expected %.17g", k, u.name.c_str(), got, want);
      }
      if (edge) continue;
      double got = nu->GetTotal(p), tab = u.total.at(E);
      if (t < 0.99 * u.T) {
        if (near(got, sum)) continue;
        if (near(got, tab)) { known("evaluation-hotter-than-target"); continue; }
        fail("total of %s: %.17g, expected %.17g", u.name.c_str(), got, sum);
      }
      double want = (t - u.T) / u.T < 0.01 ? tab : sum;
      if (!near(got, want)) fail("total of %s: %.17g, expected %.17g (table %.17g, sum %.17g)", u.name.c_str(), got, want, tab, sum);
    }
  }
}
