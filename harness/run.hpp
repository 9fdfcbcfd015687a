// A complete fixed source problem on slabs
#pragma once
#include "tally.hpp"
#include "FixedSource.hpp"
#include "Sensitivity.hpp"
#include "Source.hpp"
struct Problem {
  Setup s;
  int N, seed, threads;
  bool given;
  std::string text;
};
inline Problem problem(Rnd& r, bool sensitivities, bool fission, int most) {
  Problem p{setup(r, sensitivities, fission)};
  auto& s = p.s;
  p.N = r.in(1, most);
  p.given = r.coin(0.8);
  p.seed = p.given ? r.in(1, 1000000) : 1;
  p.threads = r.coin(0.3) ? 1 : r.in(2, 6);
  std::vector<int> o(s.est.size());
  std::iota(o.begin(), o.end(), 0);
  double x = r.uni(s.plane.front(), s.plane.back());
  std::string dir = r.coin() ? "<isotropic/>" : "<constant x='" + S(r.uni(-1, 1)) + "' y='" + S(r.uni(-1, 1)) + "' z='" + S(r.uni(-1, 1)) + "'/>";
  std::string g = "<histories>" + S(p.N) + "</histories><threads>" + S(p.threads) + "</threads>";
  if (p.given) g += "<seed>" + S(p.seed) + "</seed>";
  if (r.coin()) g += "<tracking>cell delta</tracking>";
  auto t = s.doc(g, o);
  std::string pt = "<problemtype><fixedsource><position><constant x='" + S(x) + "' y='0' z='0'/></position><direction>" + dir +
                   "</direction><energy><constant energy='" + S(r.in(1, s.G)) + "'/></energy><particletype><constant type='neutron'/></particletype></fixedsource></problemtype>";
  t.insert(t.rfind("</minimc>"), pt);
  p.text = t;
  return p;
}
// is the source in a cell with material
inline bool solid(const Problem& p, double x) {
  int i = 0;
  for (double a : p.s.plane) i += x > a;
  return p.s.slab[i] >= 0;
}
inline double source_x(const Doc& d) {
  return d.root().child("problemtype").child("fixedsource").child("position").child("constant").attribute("x").as_double();
}
// all numbers of a set of estimators
inline std::vector<double> scores(const EstimatorSet& e) {
  std::vector<double> v;
  for (auto& x : e.estimators) {
    for (double a : x->scores) v.push_back(a);
    for (double a : x->square_scores) v.push_back(a);
    for (auto& q : x->sensitivities) {
      for (double a : q->scores) v.push_back(a);
      for (double a : q->square_scores) v.push_back(a);
    }
  }
  return v;
}
struct Quiet {   // the code under test reports progress on standard output
  std::stringstream b;
  std::streambuf* o;
  Quiet() : o{std::cout.rdbuf(b.rdbuf())} {}
  ~Quiet() { std::cout.rdbuf(o); }
};
