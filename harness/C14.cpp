#include "tally.hpp"
#include "xs.hpp"
#include "Sensitivity.hpp"
// Particles stream and scatter through slabs; the effect of every perturbation and all sensitivity scores are predicted.
void groups(Rnd& r) {
  auto s = setup(r);
  std::vector<int> o(s.est.size());
  std::iota(o.begin(), o.end(), 0);
  auto t = s.doc(r.coin() ? "<tracking>cell delta</tracking>" : "", o);
  note = t;
  Doc d(t);
  World w{d.root()};
  Particle::transport_method = TransportMethod::Create(d.root(), w);
  PerturbationSet ps{d.root().child("perturbations"), w};
  EstimatorSet all{d.root().child("estimators"), w, ps, 1};
  EstimatorSet copy = all;
  std::map<std::pair<int, int>, std::map<int, double>> want;   // [estimator, sensitivity][element]
  std::vector<int> solid;
  for (int i = 0; i <= s.ns; ++i) if (s.slab[i] >= 0) solid.push_back(i);
  std::vector<const Perturbation*> P;
  for (int k = 0; k < s.np; ++k) {
    P.push_back(&ps.FindPerturbationByName(s.pname[k]));
    if (P.back()->name != s.pname[k]) fail("perturbation %s found for %s", P.back()->name.c_str(), s.pname[k].c_str());
  }
  bool th = false;
  try { ps.FindPerturbationByName("nix"); } catch (const std::runtime_error&) { th = true; }
  if (!th) fail("unknown perturbation name is accepted");
  for (int h = r.in(1, 4); h > 0; --h) {
    auto proxy = copy.GetProxy();
    Particle p{Point{0, r.uni(-1, 1), 0}, Direction{r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)}, Energy{Group(r.in(1, s.G))}, Particle::Type::neutron, 1};
    if (r.coin()) {   // effects of an earlier flight are dropped
      p.SetPerturbations(ps);
      if (!solid.empty()) { p.SetCell(w.cells[solid[0]]); p.Stream(1); }
    }
    p.SetPerturbations(ps);
    std::vector<double> eff(s.np, 0);
    if (p.indirect_effects.size() != size_t(s.np)) fail("%zu indirect effects", p.indirect_effects.size());
    std::map<std::pair<int, int>, std::map<int, double>> tot;
    for (int c = r.in(1, 10); c > 0; --c) {
      int what = r.in(0, 3);
      int g = std::get<Group>(p.GetEnergy());
      if (what <= 1 && !solid.empty()) {
        int i = solid[r.in(0, solid.size() - 1)], m = s.slab[i];
        double L = r.logu(0.01, 5);
        p.SetCell(w.cells[i]);
        auto a = p.GetPosition();
        p.Stream(L);
        for (int k = 0; k < s.np; ++k) if (s.frac[m][s.pert[k]] > 0) eff[k] += 1 / s.total(m, g - 1) - L;
        auto b = p.GetPosition();
        auto& v = p.GetDirection();
        if (!near(b.x, a.x + L * v.x) || !near(b.y, a.y + L * v.y) || !near(b.z, a.z + L * v.z)) fail("streaming by %g moved (%g %g %g)", L, b.x - a.x, b.y - a.y, b.z - a.z);
      } else if (what == 2) {
        Group ng = r.in(1, s.G);
        p.Scatter(r.uni(-1, 1), ng);
        if (std::get<Group>(p.GetEnergy()) != ng) fail("energy after scattering");
      } else {
        int sf = r.in(0, s.ns - 1);
        p.current_surface = w.FindSurfaceByName("s" + S(sf));
        p.event = r.coin(0.8) ? Particle::Event::surface_cross : r.coin() ? Particle::Event::leak : Particle::Event::scatter;
        double v[3] = {p.GetDirection().x, p.GetDirection().y, p.GetDirection().z};
        bool unclear = false;
        for (auto& e : s.est) unclear |= e.index(v, g) < 0;
        if (unclear) continue;
        proxy.Score(p);
        if (p.event != Particle::Event::scatter)
          for (size_t e = 0; e < s.est.size(); ++e) if (s.est[e].surface == sf)
            for (size_t k = 0; k < s.est[e].sens.size(); ++k) tot[{int(e), int(k)}][s.est[e].index(v, g)] += eff[s.est[e].sens[k]];
      }
      for (int k = 0; k < s.np; ++k)
        if (!near(p.GetIndirectEffect(P[k]), eff[k], 1e-9, 1e-9)) fail("indirect effect of %s is %.17g, expected %.17g", s.pname[k].c_str(), p.GetIndirectEffect(P[k]), eff[k]);
    }
    proxy.CommitHistory();
    for (auto& [e, m] : tot) for (auto& [i, v] : m) want[e][i] += v;
  }
  for (size_t e = 0; e < s.est.size(); ++e) {
    auto& E = copy.FindEstimatorByName(s.est[e].name);
    auto& E0 = all.FindEstimatorByName(s.est[e].name);
    for (size_t k = 0; k < s.est[e].sens.size(); ++k) {
      auto& T = *E.sensitivities.at(k);
      if (T.name != s.est[e].name + "::" + s.pname[s.est[e].sens[k]]) fail("sensitivity is called %s", T.name.c_str());
      if (T.scores.size() != size_t(s.est[e].size())) fail("%zu elements in a sensitivity of %s", T.scores.size(), s.est[e].name.c_str());
      for (int i = 0; i < s.est[e].size(); ++i) {
        if (!near(T.scores[i], want[{int(e), int(k)}][i], 1e-9, 1e-8)) fail("%s element %d is %.17g, expected %.17g", T.name.c_str(), i, T.scores[i], want[{int(e), int(k)}][i]);
        if (E0.sensitivities[k]->scores[i] != 0) fail("the original of a copied set was scored");
      }
    }
  }
}

// continuous energy, also where majorant and total differ: a flight sampled with density rate f changes the effect by 1/f - length
void continuous(Rnd& r) {
  double T = r.uni(20, 2000);
  Cont c = cont(r, T, true, 0);
  Field f = field(r, T);
  bool delta = f.lin || r.coin();
  std::string x = cont_doc(c, f.xml, f.own), ps = "<perturbations>";
  for (auto& n : c.nuc) ps += "<total name='p" + n.name + "' nuclide='" + n.name + "' diff='0.1'/>";
  x.insert(x.find("</minimc>"), ps + "</perturbations>");
  if (!delta) x.replace(x.find("cell delta"), 10, "surface");
  note = x;
  Doc d(x);
  World w{d.root()};
  Particle::transport_method = TransportMethod::Create(d.root(), w);
  PerturbationSet set{d.root().child("perturbations"), w};
  const Cell* ce = &w.cells[0];
  auto head = note;
  for (int i = 0; i < 40; ++i) {
    Point a{r.uni(0.1, 5), r.uni(-5, 5), r.uni(-5, 5)};
    double t = f.at(a.x, a.y, a.z), A = c.nuc[r.in(0, c.nuc.size() - 1)].awr, L = r.logu(0.01, 5);
    double E = r.coin(0.4) && f.top() > 0 ? 500 * kB * f.top() / A * r.uni(0.5, 1.5) : r.logu(c.grid.front() / 3, c.grid.back() * 3);
    if (t < 0 || t > f.top()) continue;
    note = head + " at (" + S(a.x) + "," + S(a.y) + "," + S(a.z) + ") T " + S(t) + " E " + S(E) + " length " + S(L);
    Particle p{a, Direction{r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)}, Energy{ContinuousEnergy(E)}, Particle::Type::neutron, 1, ce};
    p.SetPerturbations(set);
    double rate = delta ? ce->material->GetMicroscopicMajorant(p) : ce->material->GetMicroscopicTotal(p);
    if (!(rate > 0)) continue;
    p.Stream(L);
    for (auto& n : c.nuc) {
      double v = p.GetIndirectEffect(&set.FindPerturbationByName("p" + n.name)), want = 1 / rate - L;
      if (!near(v, want, 1e-9, 1e-9)) fail("a flight of length %g with collision probability density %g changes the effect of a nuclide's total by %.17g, expected %.17g", L, rate, v, want);
    }
  }
}
void one_case(Rnd& r) {
  if (case_no % 5 == 0) continuous(r); else groups(r);
}
