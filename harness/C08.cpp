#include "cont.hpp"
#include "tally.hpp"
#include "Multigroup.hpp"
static void chi2(const std::vector<double>& h, std::vector<double> want, const char* w) {
  double z = 0, n = 0, c = 0, k = 0;
  for (double x : want) z += x;
  for (double x : h) n += x;
  for (size_t i = 0; i < h.size(); ++i) {
    double e = want[i] / z * n;
    if (e == 0 && h[i] > 0) fail("%s: number %zu has no share but was chosen", w, i);
    if (e > 5) { c += (h[i] - e) * (h[i] - e) / e; k++; }
    else if (h[i] > e + 30) fail("%s: number %zu was chosen %g times, expected %g", w, i, h[i], e);
  }
  if (c > k + 9 * std::sqrt(2 * k) + 20) fail("%s: chi2 %g over %g alternatives", w, c, k);
}
static Particle part(Rnd& r, Energy e, const Cell* c) {
  return Particle{Point{r.uni(0.1, 5), r.uni(-5, 5), r.uni(-5, 5)}, Direction{r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)}, e, Particle::Type::neutron, RNG::result_type(r.in(1, 2000000000)), c};
}
static int kind(const Particle& p) {
  switch (p.event) {
  case Particle::Event::capture: return 0;
  case Particle::Event::scatter: return 1;
  case Particle::Event::fission: return 2;
  default: fail("the collision ends in event %d", int(p.event));
  }
  return 0;
}
static void multi(Rnd& r) {
  Setup s = setup(r, false, true);
  std::vector<int> o;
  Doc d(s.doc("", o));
  note = s.head;
  World w{d.root()};
  int N = case_no % 6 == 0 ? 6000 : 60;
  int g = r.in(1, s.G);
  const Cell* c = nullptr;
  int m = -1;
  for (size_t i = 0; i < s.slab.size(); ++i) if (s.slab[i] >= 0) { c = &w.cells[i]; m = s.slab[i]; }
  if (!c) return;
  std::vector<double> h(s.nn), want(s.nn);
  for (int n = 0; n < s.nn; ++n) want[n] = s.frac[m][n] * (s.cap[n][g - 1] + s.sca[n][g - 1] + s.fis[n][g - 1]);
  auto p = part(r, Energy{Group(g)}, c);
  for (int i = 0; i < N; ++i) {
    auto pos = p.position;
    auto& x = p.SampleNuclide();
    if (!(p.position == pos) || std::get<Group>(p.energy) != Group(g)) fail("choosing a nuclide changes the particle");
    h[nucindex(x.name)]++;
  }
  chi2(h, want, "nuclides");
  int n = r.in(0, s.nn - 1);
  while (want[n] == 0) n = (n + 1) % s.nn;
  const Nuclide* nu = nullptr;
  for (auto& x : w.nuclides) if (x->name == nucname(n)) nu = x.get();
  if (!nu) fail("nuclide missing");
  std::vector<double> hr(3), wr{s.cap[n][g - 1], s.sca[n][g - 1], s.fis[n][g - 1]}, hg(s.G), wg;
  for (int a = 0; a < s.G; ++a) wg.push_back(s.mat[n][a][g - 1]);
  double mean[3] = {0, 0, 0};
  int ns = 0;
  for (int i = 0; i < N; ++i) {
    auto q = part(r, Energy{Group(g)}, c);
    auto pos = q.position;
    nu->Interact(q);
    int k = kind(q);
    hr[k]++;
    if (!(q.position == pos) || q.cell != c) fail("a collision moves the particle");
    if (k == 1) {
      if (!std::holds_alternative<Group>(q.energy)) fail("scatter to no group");
      Group a = std::get<Group>(q.energy);
      if (a < 1 || a > Group(s.G)) fail("scatter to group %zu", size_t(a));
      hg[a - 1]++;
      Point u = q.direction;
      double L = u.x * u.x + u.y * u.y + u.z * u.z;
      if (std::fabs(L - 1) > 1e-9) fail("direction has length %g", std::sqrt(L));
      mean[0] += u.x; mean[1] += u.y; mean[2] += u.z;
      ns++;
    } else if (std::get<Group>(q.energy) != Group(g)) fail("only scatters change the group");
  }
  chi2(hr, wr, "multigroup reactions");
  chi2(hg, wg, "groups after scatter");
  for (double x : mean) if (ns > 50 && std::fabs(x / ns) > 7 * std::sqrt(1. / 3 / ns)) fail("scatters are not isotropic");
}
static void continuous(Rnd& r) {
  double T = r.uni(50, 2000);
  Cont c = cont(r, T, true, r.coin() ? 0 : r.uni(0, 2));
  Doc d(cont_doc(c, "", T));
  note = cont_doc(c, "", T);
  World w{d.root()};
  int N = case_no % 6 == 1 ? 6000 : 60;
  const Cell* ce = &w.cells[0];
  double E = r.coin() ? c.grid[r.in(0, c.grid.size() - 1)] : r.logu(c.grid.front() / 3, c.grid.back() * 3);
  note += " E " + S(E);
  for (auto& u : c.nuc) note += " total " + S(u.total.at(E));
  std::vector<double> h(c.nuc.size()), want;
  for (size_t n = 0; n < c.nuc.size(); ++n) want.push_back(c.afrac[n] * c.nuc[n].total.at(E));
  auto p = part(r, Energy{ContinuousEnergy(E)}, ce);
  for (int i = 0; i < N; ++i) h[std::atoi(p.SampleNuclide().name.c_str() + 1)]++;
  chi2(h, want, "nuclides");
  int n = r.in(0, c.nuc.size() - 1);
  const Nuclide* nu = nullptr;
  for (auto& x : w.nuclides) if (x->name == c.nuc[n].name) nu = x.get();
  if (!nu) fail("nuclide missing");
  std::vector<double> hr(3), wr(3);
  for (auto& q : c.nuc[n].reacs) wr[q.kind] += q.t.at(E);
  for (int i = 0; i < N; ++i) {
    auto q = part(r, Energy{ContinuousEnergy(E)}, ce);
    nu->Interact(q);
    hr[kind(q)]++;
  }
  chi2(hr, wr, "continuous energy reactions");
}
void one_case(Rnd& r) {
  if (case_no % 2 == 0) multi(r); else continuous(r);
}
