#include "common.hpp"
#include "Bank.hpp"
#include "Cell.hpp"
#include "CSGSurface.hpp"
#include "Material.hpp"
#include "Multigroup.hpp"
#include "Nuclide.hpp"
#include "Particle.hpp"
#include "World.hpp"
using V = std::vector<double>;
static V values(Rnd& r, int n, double zero) {
  V v;
  for (int i = 0; i < n; ++i) v.push_back(r.coin(zero) ? 0 : r.logu(1e-3, 50));
  return v;
}
static std::string list(const V& v, Rnd& r) {
  std::string t;
  for (double x : v) t += S(x) + (r.coin(0.1) ? "\n  " : " ");
  return t;
}
struct Data {
  int G;
  bool cap, sca, fis, nub, chi;
  V c, s, x, n, q;
  std::string doc(Rnd& r) const {
    std::string t = "<minimc><nuclides><multigroup groups='" + S(G) + "'><nuclide name='u'><neutron>";
    std::vector<std::string> parts;
    if (cap) parts.push_back("<capture>" + list(c, r) + "</capture>");
    if (sca) parts.push_back("<scatter>" + list(s, r) + "</scatter>");
    if (fis) parts.push_back("<fission>" + std::string(nub ? "<nubar>" + list(n, r) + "</nubar>" : "") + (chi ? "<chi>" + list(q, r) + "</chi>" : "") + "<xs>" + list(x, r) + "</xs></fission>");
    while (parts.size()) {
      int i = r.in(0, parts.size() - 1);
      t += parts[i];
      parts.erase(parts.begin() + i);
    }
    return t + "</neutron></nuclide></multigroup></nuclides></minimc>";
  }
};
static pugi::xml_node at(const Doc& d) {
  return d.root().child("nuclides").child("multigroup").child("nuclide").child("neutron");
}
static void normalised(const Multigroup::NormalizedTwoDimensional& m, const V& raw, int G, const char* what) {
  for (int i = 1; i <= G; ++i) {
    double z = 0, got = 0;
    for (int o = 1; o <= G; ++o) z += raw[(o - 1) * G + i - 1];
    for (int o = 1; o <= G; ++o) {
      double v = m.at(i).at(o), w = raw[(o - 1) * G + i - 1];
      got += v;
      if (!near(v * z, w) || (z == 0 && v != w)) fail("%s from group %d to %d is %.17g; listed %.17g, column sum %.17g", what, i, o, v, w, z);
    }
    if (z != 0 && !near(got, 1)) fail("%s from group %d sum to %.17g", what, i, got);
  }
}
void one_case(Rnd& r) {
  Data d;
  d.G = r.coin(0.3) ? r.in(4, 12) : r.in(1, 3);
  int G = d.G;
  d.cap = r.coin(0.8); d.sca = r.coin(0.8); d.fis = r.coin(0.6); d.nub = r.coin(0.7); d.chi = r.coin(0.7);
  double zero = r.coin() ? 0 : 0.3;
  d.c = values(r, G, zero); d.s = values(r, G * G, zero); d.x = values(r, G, zero); d.n = values(r, G, zero); d.q = values(r, G * G, zero);
  if (r.coin(0.3)) {      // a column without entries
    int i = r.in(0, G - 1);
    for (int o = 0; o < G; ++o) (r.coin() ? d.s : d.q)[o * G + i] = 0;
  }
  {
    Doc doc(d.doc(r));
    note = "groups " + S(G);
    Multigroup m{at(doc)};
    for (int g = 1; g <= G; ++g) {
      double w = 0, sc = 0;
      for (int o = 0; o < G; ++o) sc += d.s[o * G + g - 1];
      if (d.cap) w += d.c[g - 1];
      if (d.sca) w += sc;
      if (d.fis) w += d.x[g - 1];
      Particle p{Point{0, 0, 0}, Direction{1, 0, 0}, Energy{Group(g)}, Particle::Type::neutron, 1, nullptr};
      if (!near(m.GetTotal(p), w)) fail("total of group %d is %.17g, expected %.17g", g, m.GetTotal(p), w);
      auto check = [&](bool has, Reaction k, double want, const char* what) {
        if (has != (m.reactions.count(k) == 1)) fail("%s %s", what, has ? "missing" : "not in the input");
        if (has && !near(m.reactions.at(k).at(g), want)) fail("%s of group %d is %.17g, expected %.17g", what, g, m.reactions.at(k).at(g), want);
      };
      check(d.cap, Reaction::capture, d.c[g - 1], "capture");
      check(d.sca, Reaction::scatter, sc, "scatter");
      check(d.fis, Reaction::fission, d.x[g - 1], "fission");
      if (m.nubar.has_value() != (d.fis && d.nub)) fail("neutron yields");
      if (m.nubar && m.nubar->at(g) != d.n[g - 1]) fail("yield of group %d is %.17g, listed %.17g", g, m.nubar->at(g), d.n[g - 1]);
    }
    if (m.max_group != Group(G)) fail("number of groups is %zu", size_t(m.max_group));
    if (m.scatter_probs.has_value() != d.sca) fail("scatter probabilities");
    if (m.chi.has_value() != (d.fis && d.chi)) fail("fission spectrum");
    if (m.scatter_probs) normalised(*m.scatter_probs, d.s, G, "scatter probabilities");
    if (m.chi) normalised(*m.chi, d.q, G, "fission spectrum");
  }
  // raw matrix
  {
    Doc doc("<minimc><nuclides><multigroup groups='" + S(G) + "'><m>" + list(d.s, r) + "</m></multigroup></nuclides></minimc>");
    Multigroup::TwoDimensional t{doc.root().child("nuclides").child("multigroup").child("m")};
    for (int i = 1; i <= G; ++i) for (int o = 1; o <= G; ++o)
      if (t.at(i).at(o) != d.s[(o - 1) * G + i - 1]) fail("matrix entry from group %d to %d is %.17g, listed %.17g", i, o, t.at(i).at(o), d.s[(o - 1) * G + i - 1]);
  }
  // wrong numbers of entries
  Data e = d;
  e.cap = e.sca = e.fis = e.nub = e.chi = true;
  V* all[] = {&e.c, &e.s, &e.x, &e.n, &e.q};
  const char* names[] = {"capture", "scatter", "fission xs", "nubar", "chi"};
  int k = r.in(0, 4);
  bool matrix = k == 1 || k == 4;
  int want = matrix ? G * G : G, n;
  do {
    int by[] = {want - 1, want + 1, 0, G, G * G, 2 * want, want + G, want - G};
    n = by[r.in(0, 7)];
  } while (n == want || n < 0);
  *all[k] = values(r, n, 0);
  Doc doc(e.doc(r));
  bool thrown = false;
  try {
    Multigroup m{at(doc)};
  } catch (const std::exception&) {
    thrown = true;
  }
  if (!thrown) fail("%s with %d instead of %d entries accepted", names[k], n, want);
}
