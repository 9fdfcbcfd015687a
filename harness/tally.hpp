// Documents with several multigroup materials in slabs along x, estimators and perturbations; expected tallies
#pragma once
#include "common.hpp"
#include "Bins.hpp"
#include "Bank.hpp"
#include "Cell.hpp"
#include "CSGSurface.hpp"
#include "Estimator.hpp"
#include "Material.hpp"
#include "Nuclide.hpp"
#include "Particle.hpp"
#include "Perturbation.hpp"
#include "ScalarField.hpp"
#include "Scorable.hpp"
#include "TransportMethod.hpp"
#include "World.hpp"

static std::string nucname(int n) {   // names that begin with each other
  static const char* first[] = {"n0", "n", "n01"};
  return n < 3 ? first[n] : "n" + std::to_string(n);
}
static inline int nucindex(const std::string& s) {
  int n = 0;
  while (nucname(n) != s) ++n;
  return n;
}
struct Est {
  std::string name;
  int surface;
  std::vector<double> cos, en;  // boundaries; empty: no bins
  double axis[3];
  std::vector<int> sens;        // perturbations
  int size() const { return (cos.size() + 1) * (en.size() + 1); }
  int index(const double* d, int group) const {
    double n = std::sqrt(axis[0] * axis[0] + axis[1] * axis[1] + axis[2] * axis[2]), mu = 0;
    for (int k = 0; k < 3; ++k) mu += d[k] * axis[k] / n;
    int i = 0, j = 0;
    for (double b : cos) {
      if (std::fabs(mu - b) < 1e-9) return -1;
      i += mu >= b;
    }
    for (double b : en) j += group >= b;
    return i * (en.size() + 1) + j;
  }
};
struct Setup {
  int G, nn, nm, ns, np;
  std::vector<std::vector<double>> cap, sca;  // [nuclide][group]
  std::vector<std::vector<double>> fis, nubar;  // [nuclide][group], only with fission
  std::vector<std::vector<std::vector<double>>> chi, mat;  // [nuclide][out][in], as listed
  std::vector<double> aden, plane;
  std::vector<std::vector<double>> frac;      // [material][nuclide]
  std::vector<int> slab;                      // material of slab i, -1 void
  std::vector<int> pert;                      // nuclide of perturbation
  std::vector<std::string> pname;
  std::vector<Est> est;
  std::string head, estimators;
  double total(int m, int g) const {
    double s = 0;
    for (int n = 0; n < nn; ++n) s += frac[m][n] * (cap[n][g] + sca[n][g] + fis[n][g]);
    return s;
  }
  std::string est_xml(const std::vector<int>& order) const {
    std::string t = "<estimators>";
    for (int k : order) {
      auto& e = est[k];
      t += "<current name='" + e.name + "' surface='s" + S(e.surface) + "'>";
      if (e.cos.size() || e.en.size()) {
        t += "<bins>";
        if (e.cos.size()) {
          t += "<cosine u='" + S(e.axis[0]) + "' v='" + S(e.axis[1]) + "' w='" + S(e.axis[2]) + "'><boundaries>";
          for (double b : e.cos) t += S(b) + " ";
          t += "</boundaries></cosine>";
        }
        if (e.en.size()) {
          t += "<energy><boundaries>";
          for (double b : e.en) t += S(b) + " ";
          t += "</boundaries></energy>";
        }
        t += "</bins>";
      }
      if (e.sens.size()) {
        t += "<sensitivities>";
        for (int s : e.sens) t += "<perturbation name='" + pname[s] + "'/>";
        t += "</sensitivities>";
      }
      t += "</current>";
    }
    return t + "</estimators>";
  }
  std::string doc(const std::string& general, const std::vector<int>& order) const {
    return "<minimc><general><particles>neutron</particles>" + general + "</general>" + head + est_xml(order) + "</minimc>";
  }
};
inline Setup setup(Rnd& r, bool sensitivities = true, bool fission = false) {
  Setup s;
  s.G = r.in(1, 3); s.nn = r.in(1, 4); s.nm = r.in(1, 3); s.ns = r.in(2, 5); s.np = sensitivities ? r.in(0, 3) : 0;
  std::string& t = s.head;
  double x = r.uni(-3, -2);
  t += "<surfaces>";
  for (int i = 0; i < s.ns; ++i, x += r.uni(0.5, 2)) {
    s.plane.push_back(x);
    t += "<planex name='s" + S(i) + "' x='" + S(x) + "'/>";
  }
  t += "</surfaces><nuclides><multigroup groups='" + S(s.G) + "'>";
  for (int n = 0; n < s.nn; ++n) {
    std::vector<double> c, q;
    std::string cs, m;
    std::vector<std::vector<double>> mat(s.G, std::vector<double>(s.G));
    for (int g = 0; g < s.G; ++g) { c.push_back(r.logu(0.05, 2)); cs += S(c.back()) + " "; }
    for (int a = 0; a < s.G; ++a) for (int b = 0; b < s.G; ++b) { mat[a][b] = r.coin(0.2) && a != b ? 0 : r.logu(0.05, 2); m += S(mat[a][b]) + " "; }
    for (int b = 0; b < s.G; ++b) { double z = 0; for (int a = 0; a < s.G; ++a) z += mat[a][b]; q.push_back(z); }
    s.cap.push_back(c); s.sca.push_back(q); s.mat.push_back(mat);
    std::string fx;
    s.fis.push_back(std::vector<double>(s.G, 0));
    s.nubar.push_back(std::vector<double>(s.G, 0));
    s.chi.push_back({});
    if (fission && r.coin(0.7)) {
      std::string a, b, d;
      for (int g = 0; g < s.G; ++g) {
        double f = s.fis[n][g] = r.logu(0.05, 2);
        double most = 0.8 * (f + c[g]) / f;   // a particle has less than one secondary on average
        s.nubar[n][g] = r.coin(0.2) ? std::floor(most) : r.uni(0, std::min(most, 5.));
        a += S(f) + " "; b += S(s.nubar[n][g]) + " ";
      }
      for (int o = 0; o < s.G; ++o) {
        s.chi[n].push_back({});
        for (int i = 0; i < s.G; ++i) { s.chi[n][o].push_back(r.coin(0.3) && o ? 0 : r.logu(0.01, 3)); d += S(s.chi[n][o][i]) + " "; }
      }
      fx = "<fission><xs>" + a + "</xs><nubar>" + b + "</nubar><chi>" + d + "</chi></fission>";
    }
    t += "<nuclide name='" + nucname(n) + "'><neutron><capture>" + cs + "</capture><scatter>" + m + "</scatter>" + fx + "</neutron></nuclide>";
  }
  t += "</multigroup></nuclides><materials>";
  for (int m = 0; m < s.nm; ++m) {
    s.aden.push_back(r.logu(0.1, 3));
    std::vector<double> f(s.nn, 0);
    t += "<material name='m" + S(m) + "' aden='" + S(s.aden[m]) + "'>";
    double sum = 0;
    for (int n = 0; n < s.nn; ++n) if (r.coin(0.6) || (n == s.nn - 1 && sum == 0)) {
      f[n] = r.logu(0.1, 10);
      sum += f[n];
      t += "<nuclide name='" + nucname(n) + "' afrac='" + S(f[n]) + "'/>";
    }
    for (auto& z : f) z /= sum;
    s.frac.push_back(f);
    t += "</material>";
  }
  t += "</materials><cells>";
  for (int i = 0; i <= s.ns; ++i) {
    std::string sf;
    if (i > 0) sf += "<surface name='s" + S(i - 1) + "' sense='+1'/>";
    if (i < s.ns) sf += "<surface name='s" + S(i) + "' sense='-1'/>";
    bool vd = i == 0 || i == s.ns || (s.ns > 3 && r.coin(0.15));
    s.slab.push_back(vd ? -1 : r.in(0, s.nm - 1));
    t += vd ? "<void>" + sf + "</void>" : "<cell name='c" + S(i) + "' material='m" + S(s.slab[i]) + "'>" + sf + "</cell>";
  }
  t += "</cells>";
  std::vector<std::string> names{"p", "pp", "q", "pq"};
  std::shuffle(names.begin(), names.end(), r.g);
  if (s.np) {
    t += "<perturbations>";
    for (int i = 0; i < s.np; ++i) {
      std::vector<int> used;  // only nuclides of materials in cells exist in the world
      for (int n = 0; n < s.nn; ++n) { bool u = false; for (int m : s.slab) u |= m >= 0 && s.frac[m][n] > 0; if (u) used.push_back(n); }
      if (used.empty()) { s.np = i; break; }
      s.pert.push_back(used[r.in(0, used.size() - 1)]);
      s.pname.push_back(names[i]);
      t += "<total name='" + names[i] + "' nuclide='" + nucname(s.pert[i]) + "'/>";
    }
    t += "</perturbations>";
  }
  std::vector<std::string> en{"e", "ee", "f", "ef", "g"};
  std::shuffle(en.begin(), en.end(), r.g);
  for (int i = r.in(1, 4); i > 0; --i) {
    Est e;
    e.name = en[i - 1];
    e.surface = r.in(0, s.ns - 1);
    if (r.coin(0.7)) { double b = -0.9; for (int k = r.in(1, 4); k > 0; --k, b += r.uni(0.1, 0.4)) e.cos.push_back(b); }
    if (r.coin(0.6)) { double b = 0.5 + r.in(0, 1); for (int k = r.in(1, 3); k > 0; --k, b += 1) e.en.push_back(b); }
    for (auto& a : e.axis) a = r.uni(-1, 1);
    if (r.coin(0.3)) { e.axis[0] = 1; e.axis[1] = e.axis[2] = 0; }
    for (int k = 0; k < s.np; ++k) if (r.coin(0.6)) e.sens.push_back(k);
    std::shuffle(e.sens.begin(), e.sens.end(), r.g);
    s.est.push_back(e);
  }
  return s;
}
// numbers printed after the headings of one tally in a report
struct Printed { std::vector<double> mean, sd; };
inline std::vector<double> numbers(std::istream& in) {
  std::vector<double> v;
  std::string l;
  std::getline(in, l);
  std::stringstream s{l};
  std::string w;
  while (std::getline(s, w, ',')) if (w.find_first_not_of(" \n") != std::string::npos) v.push_back(strtod(w.c_str(), 0));
  return v;
}
inline std::vector<Printed> parse(const std::string& t) {
  std::vector<Printed> v;
  std::stringstream s{t};
  std::string l;
  while (std::getline(s, l)) {
    if (l == "mean") { std::getline(s, l); v.push_back({numbers(s), {}}); }
    if (l == "std dev") { std::getline(s, l); v.back().sd = numbers(s); }
  }
  return v;
}
