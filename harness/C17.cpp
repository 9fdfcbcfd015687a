#include "common.hpp"
#include "Cell.hpp"
#include "CSGSurface.hpp"
#include "Material.hpp"
#include "Nuclide.hpp"
#include "Particle.hpp"
#include "ScalarField.hpp"
#include "World.hpp"
#include <numeric>
static std::string word(Rnd& r) {
  std::string s;
  for (int i = r.in(1, 4); i > 0; --i) s += char('a' + r.in(0, 3));
  return s;
}
static std::vector<std::string> names(Rnd& r, int n) {
  std::vector<std::string> v;
  while (int(v.size()) < n) {
    auto s = word(r);
    if (std::find(v.begin(), v.end(), s) == v.end()) v.push_back(s);
  }
  return v;
}
void one_case(Rnd& r) {
  int nn = r.in(1, 6), nm = r.in(1, 5), nc = r.in(1, 6);
  auto N = names(r, nn), M = names(r, nm);
  std::vector<double> xs(nn), aden(nm);
  std::vector<std::vector<std::pair<int, double>>> comp(nm);
  std::string t = "<minimc><general><particles>neutron</particles></general><surfaces><planex name='s' x='0'/><planex name='s2' x='1'/></surfaces><nuclides><multigroup groups='1'>";
  for (int i = 0; i < nn; ++i) {
    xs[i] = 1 + i;
    t += "<nuclide name='" + N[i] + "'><neutron><capture>" + S(xs[i]) + "</capture></neutron></nuclide>";
  }
  t += "</multigroup></nuclides><materials>";
  int missing_n = r.coin(0.15) ? r.in(0, nm - 1) : -1, missing_m = r.coin(0.15) ? r.in(0, nc - 1) : -1;
  for (int i = 0; i < nm; ++i) {
    aden[i] = r.logu(1e-4, 10);
    t += "<material name='" + M[i] + "' aden='" + S(aden[i]) + "'>";
    std::vector<int> all(nn);
    std::iota(all.begin(), all.end(), 0);
    std::shuffle(all.begin(), all.end(), r.g);
    int k = r.in(1, nn), bad = missing_n == i ? r.in(0, k - 1) : -1;
    for (int j = 0; j < k; ++j) {
      double f = r.coin(0.3) ? r.in(1, 3) : r.logu(1e-6, 1e3);
      comp[i].push_back({all[j], f});
      if (j == bad) t += "<nuclide name='zz' afrac='1'/>";
      t += "<nuclide name='" + N[all[j]] + "' afrac='" + S(f) + "'/>";
    }
    t += "</material>";
  }
  t += "</materials><cells>";
  std::vector<int> use(nc, -1);
  bool err = false;
  for (int i = 0; i < nc; ++i) {
    std::string sf = "<surface name='" + std::string(r.coin() ? "s" : "s2") + "' sense='" + (r.coin() ? "-1" : "+1") + "'/>";
    if (i != missing_m && r.coin(0.2)) { t += "<void>" + sf + "</void>"; continue; }
    use[i] = r.in(0, nm - 1);
    if (i == missing_m || use[i] == missing_n) err = true;
    t += "<cell name='c" + S(i) + "' material='" + (i == missing_m ? "zz" : M[use[i]]) + "'>" + sf + "</cell>";
  }
  t += "</cells></minimc>";
  note = t;
  Doc d(t);
  std::unique_ptr<World> w;
  try { w = std::make_unique<World>(d.root()); } catch (const std::runtime_error& e) {
    if (!err) fail("rejected: %s", e.what());
    return;
  }
  if (err) fail("a name without definition is accepted");
  if (w->cells.size() != size_t(nc)) fail("%zu cells", w->cells.size());
  std::map<int, const Material*> seen;
  std::map<int, const Nuclide*> nuc;
  for (int i = 0; i < nc; ++i) {
    auto m = w->cells[i].material;
    if ((use[i] < 0) != !m) fail("cell %d: material presence", i);
    if (!m) continue;
    int k = use[i];
    if (m->name != M[k]) fail("cell %d has material %s, input says %s", i, m->name.c_str(), M[k].c_str());
    if (seen.count(k) && seen[k] != m.get()) fail("two objects for material %s", M[k].c_str());
    seen[k] = m.get();
    if (m->number_density != aden[k]) fail("density %.17g of %s, input %.17g", m->number_density, M[k].c_str(), aden[k]);
    if (m->afracs.size() != comp[k].size()) fail("%zu nuclides in %s", m->afracs.size(), M[k].c_str());
    double in = 0, sum = 0;
    for (auto& c : comp[k]) in += c.second;
    for (auto& [n, f] : m->afracs) {
      sum += f;
      int at = -1;
      double part = 0;
      for (auto& c : comp[k]) if (N[c.first] == n->name) { at = c.first; part = c.second; }
      if (at < 0) fail("nuclide %s is not in material %s", n->name.c_str(), M[k].c_str());
      if (nuc.count(at) && nuc[at] != n.get()) fail("two objects for nuclide %s", N[at].c_str());
      nuc[at] = n.get();
      if (!near(f, part / in, 1e-12, 0)) fail("fraction %.17g of %s in %s, expected %.17g", f, n->name.c_str(), M[k].c_str(), part / in);
      Particle p{Point{0, 0, 0}, Direction{1, 0, 0}, Energy{Group{1}}, Particle::Type::neutron, 1};
      if (n->GetTotal(p) != xs[at]) fail("nuclide %s carries data of another node", n->name.c_str());
      if (w->FindNuclideByName(N[at]) != n) fail("FindNuclideByName %s", N[at].c_str());
    }
    if (!near(sum, 1, 1e-12)) fail("fractions of %s sum to %.17g", M[k].c_str(), sum);
  }
  for (auto& n : w->nuclides) {
    int c = 0;
    for (auto& q : w->nuclides) c += q->name == n->name;
    if (c != 1) fail("two objects for nuclide %s", n->name.c_str());
  }
  for (auto& m : w->materials) {
    int c = 0;
    for (auto& q : w->materials) c += q->name == m->name;
    if (c != 1) fail("two objects for material %s", m->name.c_str());
  }
  for (auto& s : w->surfaces) {
    int c = 0;
    for (auto& q : w->surfaces) c += q->name == s->name;
    if (c != 1) fail("two objects for surface %s", s->name.c_str());
    if (w->FindSurfaceByName(s->name) != s) fail("FindSurfaceByName %s", s->name.c_str());
  }
  bool th = false;
  try { w->FindSurfaceByName("zz"); } catch (const std::runtime_error&) { th = true; }
  if (!th) fail("unknown surface name is accepted");
  th = false;
  try { w->FindNuclideByName("zz"); } catch (const std::runtime_error&) { th = true; }
  if (!th) fail("unknown nuclide name is accepted");
}
