#include "tally.hpp"
// Every estimator of a set is given every event; it counts exactly the crossings of its own surface.
void one_case(Rnd& r) {
  auto s = setup(r, r.coin());
  std::vector<int> o(s.est.size());
  std::iota(o.begin(), o.end(), 0);
  auto t = s.doc("", o);
  note = t;
  Doc d(t);
  World w{d.root()};
  PerturbationSet ps{d.root().child("perturbations"), w};
  EstimatorSet all{d.root().child("estimators"), w, ps, 1};
  if (all.estimators.size() != s.est.size()) fail("%zu estimators, %zu declared", all.estimators.size(), s.est.size());
  std::vector<std::vector<double>> want(s.est.size());
  for (size_t k = 0; k < s.est.size(); ++k) want[k].assign(s.est[k].size(), 0);
  const Particle::Event ev[] = {Particle::Event::birth, Particle::Event::scatter, Particle::Event::capture, Particle::Event::fission,
                                Particle::Event::surface_cross, Particle::Event::leak, Particle::Event::virtual_collision};
  for (int h = r.in(1, 4); h > 0; --h) {
    auto proxy = all.GetProxy();
    for (int c = r.in(0, 12); c > 0; --c) {
      Particle p{Point{r.uni(-3, 3), 0, 0}, Direction{r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)}, Energy{Group(r.in(1, s.G))},
                 r.coin() ? Particle::Type::neutron : Particle::Type::photon, 1};
      p.SetPerturbations(ps);
      int sf = r.in(-1, s.ns - 1), e = r.in(0, 9);
      p.event = e < 7 ? ev[e] : e < 9 ? Particle::Event::surface_cross : Particle::Event::leak;
      if (sf >= 0) p.current_surface = w.FindSurfaceByName("s" + S(sf));
      bool cross = p.event == Particle::Event::surface_cross || p.event == Particle::Event::leak;
      double v[3] = {p.GetDirection().x, p.GetDirection().y, p.GetDirection().z};
      bool unclear = false;
      for (auto& q : s.est) unclear |= q.index(v, std::get<Group>(p.GetEnergy())) < 0;
      if (unclear) continue;
      for (size_t k = 0; k < s.est.size(); ++k) {
        auto& E = all.FindEstimatorByName(s.est[k].name);
        double one = cross && sf == s.est[k].surface;
        double got = static_cast<const Scorable&>(E).GetScore(p);
        if (got != one) fail("estimator %s (surface s%d) scores %g for event %d at surface s%d", s.est[k].name.c_str(), s.est[k].surface, got, int(p.event), sf);
        want[k][s.est[k].index(v, std::get<Group>(p.GetEnergy()))] += one;
      }
      proxy.Score(p);
    }
    proxy.CommitHistory();
  }
  for (size_t k = 0; k < s.est.size(); ++k) {
    auto& E = all.FindEstimatorByName(s.est[k].name);
    if (E.scores.size() != want[k].size()) fail("%zu elements in %s, expected %zu", E.scores.size(), s.est[k].name.c_str(), want[k].size());
    for (size_t i = 0; i < want[k].size(); ++i)
      if (E.scores[i] != want[k][i]) fail("element %zu of %s counted %g crossings, expected %g", i, s.est[k].name.c_str(), E.scores[i], want[k][i]);
    if (E.sensitivities.size() != s.est[k].sens.size()) fail("%zu sensitivities in %s", E.sensitivities.size(), s.est[k].name.c_str());
  }
}
