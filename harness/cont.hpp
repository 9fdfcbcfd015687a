// Continuous energy nuclides with tables written to scratch files; reference cross sections
#pragma once
#include "common.hpp"
#include "h5.hpp"
#include "Bank.hpp"
#include "Cell.hpp"
#include "Constants.hpp"
#include "Continuous.hpp"
#include "ContinuousReaction.hpp"
#include "CSGSurface.hpp"
#include "Material.hpp"
#include "Nuclide.hpp"
#include "Particle.hpp"
#include "ScalarField.hpp"
#include "World.hpp"
#include <numeric>
constexpr double kB = 8.617333262145e-11;   // MeV/K
struct Table {
  std::vector<double> x, y;
  double at(double e) const {
    if (e <= x.front()) return y.front();
    if (e >= x.back()) return y.back();
    size_t i = std::upper_bound(x.begin(), x.end(), e) - x.begin();
    return y[i - 1] + (y[i] - y[i - 1]) * (e - x[i - 1]) / (x[i] - x[i - 1]);
  }
};
struct Reac { int kind; Table t; double T; };   // 0 capture, 1 scatter, 2 fission
struct Nuc {
  std::string name;
  double awr;
  std::vector<Reac> reacs;   // in input order
  Table total, nubar;
  double T;                  // of the total
};
struct Cont {
  std::vector<double> grid;
  std::vector<Nuc> nuc;
  std::vector<double> afrac;
  std::string nuclides, material;
};
inline double freegas(double awr, double E, double T) {
  if (T == 0) return 1;
  double a = awr * E / (kB * T);
  return (1 + 1 / (2 * a)) * std::erf(std::sqrt(a)) + std::exp(-a) / std::sqrt(M_PI * a);
}
inline double below_cutoff(double awr, double E, double T) { return awr <= 1 || E < 500 * kB * T / awr; }
inline int file_no = 0;
inline std::string table_file(const Table& t) {
  auto f = scratch("t" + std::to_string(file_no++ % 64) + ".h5");
  write_pandas(f, {t.x}, t.y);
  return f;
}
// slack: how much larger than the sum of the reactions the total may be
inline Cont cont(Rnd& r, double Teval, bool same_T, double slack, int most = 3) {
  Cont c;
  double e = std::pow(10, r.uni(-12, -9));
  int n = r.in(2, 6);
  for (int i = 0; i < n; ++i, e *= r.logu(1.5, 300)) c.grid.push_back(e);
  auto tab = [&](double lo, double hi) {
    Table t{c.grid, {}};
    for (int i = 0; i < n; ++i) t.y.push_back(r.coin(0.1) ? 0 : r.logu(lo, hi));
    return t;
  };
  c.nuclides = "<continuous>";
  c.material = "<material name='m' aden='" + S(r.logu(0.01, 2)) + "'>";
  int nn = r.in(1, most);
  for (int k = 0; k < nn; ++k) {
    Nuc u;
    u.name = "n" + S(k);
    u.awr = r.coin(0.3) ? r.uni(0.9, 1) : r.logu(1, 240);
    std::vector<int> kinds{1};
    if (r.coin(0.8)) kinds.push_back(0);
    if (r.coin(0.6)) kinds.push_back(2);
    std::shuffle(kinds.begin(), kinds.end(), r.g);
    u.nubar = tab(0.5, 4);
    u.total = Table{c.grid, std::vector<double>(n, 0)};
    auto T = [&] { return same_T ? Teval : r.coin(0.5) ? Teval : Teval * r.uni(0.5, 2); };
    std::string x;
    for (int q : kinds) {
      Reac a{q, tab(0.05, 5), T()};
      for (int i = 0; i < n; ++i) {
        if (q == 1 && a.t.y[i] == 0) a.t.y[i] = 0.3;
        u.total.y[i] += a.t.y[i];
      }
      auto at = " file='" + table_file(a.t) + "' temperature='" + S(a.T) + "'/>";
      if (q == 0) x += "<capture" + at;
      else if (q == 1) x += "<scatter><xs" + at + "</scatter>";
      else x += "<fission><xs" + at + "<nubar file='" + table_file(u.nubar) + "' temperature='300'/></fission>";
      u.reacs.push_back(a);
    }
    for (auto& y : u.total.y) y *= 1 + slack;
    u.T = T();
    auto tt = "<total file='" + table_file(u.total) + "' temperature='" + S(u.T) + "'/>";
    x = r.coin() ? tt + x : x + tt;
    c.nuclides += "<nuclide name='" + u.name + "' awr='" + S(u.awr) + "'><neutron>" + x + "</neutron></nuclide>";
    c.afrac.push_back(r.logu(0.1, 10));
    c.material += "<nuclide name='" + u.name + "' afrac='" + S(c.afrac.back()) + "'/>";
    c.nuc.push_back(u);
  }
  double s = std::accumulate(c.afrac.begin(), c.afrac.end(), 0.);
  for (auto& a : c.afrac) a /= s;
  c.nuclides += "</continuous>";
  c.material += "</material>";
  return c;
}
// temperature: contents of the element temperature, or empty; own: temperature of the cell or negative
inline std::string cont_doc(const Cont& c, const std::string& temperature, double own) {
  return "<minimc><general><particles>neutron</particles><tracking>cell delta</tracking></general>" + temperature +
         "<surfaces><planex name='s' x='0'/></surfaces><nuclides>" + c.nuclides + "</nuclides><materials>" + c.material +
         "</materials><cells><cell name='c' material='m'" + (own >= 0 ? " temperature='" + S(own) + "'" : std::string()) +
         "><surface name='s' sense='+1'/></cell></cells></minimc>";
}
