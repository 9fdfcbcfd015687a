#include "cont.hpp"
#include "ThermalScattering.hpp"
// thermal scattering data in factored form, its reference evaluation and the distributions it stands for
struct Axis { std::vector<double> Ts; };
static std::vector<double> rising(Rnd& r, int n, double lo, double hi) {
  std::vector<double> v;
  for (int i = 0; i < n; ++i) v.push_back(lo + (hi - lo) * (i + r.uni(0.1, 0.9)) / n);
  return v;
}
// linear in T between the tabulated temperatures, nearest one outside
static double nearest(const std::vector<double>& Ts, double T, const std::function<double(size_t)>& f) {
  if (T <= Ts.front()) return f(0);
  if (T >= Ts.back()) return f(Ts.size() - 1);
  size_t h = std::upper_bound(Ts.begin(), Ts.end(), T) - Ts.begin();
  double a = (T - Ts[h - 1]) / (Ts[h] - Ts[h - 1]);
  return (1 - a) * f(h - 1) + a * f(h);
}
struct Part {
  std::vector<double> F, x, Ts, S;
  std::vector<std::vector<double>> C;               // F, order
  std::vector<std::vector<std::vector<double>>> X;  // x, T, order
  double at(size_t f, size_t i, double T) const {
    return nearest(Ts, T, [&](size_t t) { double s = 0; for (size_t k = 0; k < S.size(); ++k) s += S[k] * C[f][k] * X[i][t][k]; return s; });
  }
  std::string files(const char* axis) const {
    static int no = 0;
    auto base = scratch("p" + std::to_string(no++ % 32));
    std::vector<double> o, c, v;
    for (size_t k = 0; k < S.size(); ++k) o.push_back(k);
    for (auto& q : C) c.insert(c.end(), q.begin(), q.end());
    for (auto& q : X) for (auto& t : q) v.insert(v.end(), t.begin(), t.end());
    write_pandas(base + "c.h5", {F, o}, c);
    write_pandas(base + "s.h5", {o}, S);
    write_pandas(base + "x.h5", {x, Ts, o}, v);
    return "<partition CDF='" + base + "c.h5' S='" + base + "s.h5' " + axis + "='" + base + "x.h5'/>";
  }
};
// orders that all rise with F; base: value of the first order, which does not depend on F (nonpositive)
static Part part(Rnd& r, const std::vector<double>& x, double Tlo, double Thi, const std::function<double(double)>& base, const std::function<double(double)>& top) {
  Part p;
  p.x = x;
  p.Ts = rising(r, r.in(1, 4), Tlo, Thi);
  int n = r.in(1, 6), K = r.in(1, 3);
  p.F = rising(r, n, 0, 1);
  std::vector<double> b;
  for (double e : x) b.push_back(base(e));
  bool off = b.front() != 0;
  p.C.resize(n);
  for (int k = 0; k < K + off; ++k) {
    p.S.push_back(r.logu(0.1, 10) * (r.coin(0.2) ? -1 : 1));
    auto c = rising(r, n, 0, 1);
    for (int i = 0; i < n; ++i) p.C[i].push_back(off && k == 0 ? 1 : c[i]);
  }
  for (size_t i = 0; i < x.size(); ++i) {
    p.X.emplace_back();
    for (size_t t = 0; t < p.Ts.size(); ++t) {
      p.X[i].emplace_back();
      for (int k = 0; k < K + off; ++k) p.X[i][t].push_back((off && k == 0 ? b[i] * r.uni(0.5, 1) : top(x[i]) * r.uni(0.3, 1) / K) / p.S[k]);
    }
  }
  return p;
}
static std::vector<Part> parts(Rnd& r, const std::vector<double>& x, double Tlo, double Thi, const std::function<double(double)>& base, const std::function<double(double)>& top) {
  std::vector<Part> v;
  for (size_t i = 0; i < x.size();) {
    size_t n = r.in(1, x.size() - i);
    v.push_back(part(r, {x.begin() + i, x.begin() + i + n}, Tlo, Thi, base, top));
    i += n;
  }
  return v;
}
// distribution function through (lo, 0), (value, F)..., (hi, 1)
struct Hist {
  std::vector<double> v, F;
  double at(double a) const {
    if (a <= v.front()) return 0;
    if (a >= v.back()) return 1;
    size_t h = std::upper_bound(v.begin(), v.end(), a) - v.begin();
    return F[h - 1] + (F[h] - F[h - 1]) * (a - v[h - 1]) / (v[h] - v[h - 1]);
  }
};
static Hist hist(const std::vector<Part>& ps, size_t i, double T, double lo, double hi) {
  Hist h{{lo}, {0}};
  for (auto& p : ps) {
    if (i >= p.x.size()) { i -= p.x.size(); continue; }
    for (size_t f = 0; f < p.F.size(); ++f) h.v.push_back(p.at(f, i, T)), h.F.push_back(p.F[f]);
    break;
  }
  h.v.push_back(hi), h.F.push_back(1);
  return h;
}
static double uniform_ks(std::vector<double> a) {
  std::sort(a.begin(), a.end());
  double d = 0;
  for (size_t i = 0; i < a.size(); ++i) d = std::max({d, a[i] - double(i) / a.size(), double(i + 1) / a.size() - a[i]});
  return d * std::sqrt(double(a.size()));
}
void one_case(Rnd& r) {
  const double A = r.coin() ? r.uni(0.9, 1.1) : r.logu(1, 20), Tlo = r.uni(100, 400), Thi = Tlo * r.logu(1.1, 4);
  const double Qlo = Tlo * 0.6, Qhi = Thi * 1.6;   // temperatures asked for
  // cross section
  auto Ts = rising(r, r.in(1, 4), Tlo, Thi);
  std::vector<double> Eg;
  double e = r.logu(1e-12, 1e-9);
  for (int i = r.in(2, 6); i > 0; --i) Eg.push_back(e), e *= r.logu(1.3, 30);
  int K = r.in(1, 3);
  std::vector<double> S0, tv, ev, ord;
  for (int k = 0; k < K; ++k) S0.push_back(r.uni(0.1, 3)), ord.push_back(k);
  for (size_t i = 0; i < Ts.size() * K; ++i) tv.push_back(r.uni(0.2, 2));
  for (size_t i = 0; i < Eg.size() * K; ++i) ev.push_back(r.uni(0.2, 2));
  auto table = [&](size_t i, size_t t) { double s = 0; for (int k = 0; k < K; ++k) s += S0[k] * ev[i * K + k] * tv[t * K + k]; return s; };
  const double cut = Eg.back(), bc = r.logu(0.5, 30);
  // energies of the outgoing distributions reach at least the cutoff
  std::vector<double> Es;
  e = cut * (r.coin() ? 1 : r.uni(1, 2));
  for (int i = r.in(1, 6); i > 0; --i) Es.insert(Es.begin(), e), e /= r.logu(1.2, 20);
  auto bp = parts(r, Es, Tlo, Thi, [&](double x) { return -0.9 * x / (kB * Qhi); }, [&](double) { return 0.95 * bc; });
  auto bs = rising(r, r.in(1, 6), 0, bc * r.logu(0.3, 1.5));
  const double emax = cut + std::max(bc, bs.back()) * kB * Qhi, ac = 1.001 * 4 * emax / (A * kB * Qlo);
  auto ap = parts(r, bs, Tlo, Thi, [](double) { return 0.; }, [&](double) { return 0.95 * ac * (r.coin() ? 1 : r.logu(1e-4, 1)); });
  auto f = [&](const char* n) { return scratch(std::string("x") + n + ".h5"); };
  Table maj{Eg, {}};
  for (size_t i = 0; i < Eg.size(); ++i) maj.y.push_back(r.uni(10, 100));
  write_pandas(f("m"), {maj.x}, maj.y);
  write_pandas(f("t"), {Ts, ord}, tv);
  write_pandas(f("s"), {ord}, S0);
  write_pandas(f("e"), {Eg, ord}, ev);
  Table one{{Eg.front(), Eg.back()}, {1, 1}};
  auto o = "file='" + table_file(one) + "' temperature='300'/>";
  std::string xml = "<tsl majorant='" + f("m") + "' total_T='" + f("t") + "' total_S='" + f("s") + "' total_E='" + f("e") + "' beta_cutoff='" + S(bc) + "' alpha_cutoff='" + S(ac) + "'><beta_partitions>";
  for (auto& p : bp) xml += p.files("E_T");
  xml += "</beta_partitions><alpha_partitions>";
  for (auto& p : ap) xml += p.files("beta_T");
  xml += "</alpha_partitions></tsl>";
  double T = r.coin(0.2) ? Ts[r.in(0, Ts.size() - 1)] : r.coin(0.2) ? Ts.back() * r.uni(1, 1.6) : r.coin(0.2) ? Ts.front() * r.uni(0.6, 1) : r.uni(Qlo, Qhi);
  T = std::min(std::max(T, Qlo), Qhi);
  note = "A " + S(A) + " T " + S(T) + " total T in [" + S(Ts.front()) + "," + S(Ts.back()) + "] cutoff " + S(cut) + " " + xml;
  Doc d("<minimc><general><particles>neutron</particles><tracking>cell delta</tracking></general><surfaces><planex name='s' x='0'/></surfaces><nuclides><continuous><nuclide name='n0' awr='" + S(A) +
        "'><neutron><total " + o + "<scatter><xs " + o + xml + "</scatter></neutron></nuclide></continuous></nuclides><materials><material name='m' aden='1'><nuclide name='n0' afrac='1'/></material></materials><cells><cell name='c' material='m' temperature='" +
        S(T) + "'><surface name='s' sense='+1'/></cell></cells></minimc>");
  World w{d.root()};
  ThermalScattering ts{d.root().child("nuclides").child("continuous").child("nuclide").child("neutron").child("scatter").child("tsl")};
  const Cell* ce = &w.cells[0];
  Particle p{Point{1, 0, 0}, Direction{1, 0, 0}, Energy{ContinuousEnergy(cut)}, Particle::Type::neutron, RNG::result_type(r.in(1, 2000000000)), ce};
  auto head = note;
  for (int i = 0; i < 30; ++i) {
    double E = r.coin(0.2) ? Eg[r.in(0, Eg.size() - 1)] : r.logu(Eg.front() / 5, cut * 1.5);
    note = head + " E " + S(E);
    p.energy = Energy{ContinuousEnergy(E)};
    if (ts.IsValid(p) != (E < cut)) fail("thermal data apply to a neutron: %d", int(ts.IsValid(p)));
    Particle ph{Point{1, 0, 0}, Direction{1, 0, 0}, Energy{ContinuousEnergy(E)}, Particle::Type::photon, 1, ce};
    if (ts.IsValid(ph)) fail("thermal data apply to a photon");
    if (E >= cut) continue;
    if (double g = ts.GetMajorant(p); !near(g, maj.at(E))) fail("majorant %.17g, tabulated %.17g", g, maj.at(E));
    double want = nearest(Ts, T, [&](size_t t) { Table q{Eg, {}}; for (size_t i = 0; i < Eg.size(); ++i) q.y.push_back(table(i, t)); return q.at(E); });
    if (double g = ts.GetTotal(p); !near(g, want)) fail("thermal cross section %.17g, expected %.17g", g, want);
  }
  // collisions
  double E = r.coin(0.1) ? r.logu(1e-3, 1) * bs.front() * kB * T : r.coin() ? cut * r.uni(0.05, 0.999) : r.logu(std::min(Es.front() / 3, cut / 3), cut * 0.999);
  if (E >= cut) E = cut * 0.9;
  note = head + " collision at E " + S(E);
  const double kT = kB * T, bmin = -E / kT;
  size_t h = std::upper_bound(Es.begin(), Es.end(), E) - Es.begin();
  double re = h ? (E - Es[h - 1]) / (Es[h] - Es[h - 1]) : 1;
  Hist hi = hist(bp, h, T, -Es[h] / kT, bc), lo = h ? hist(bp, h - 1, T, -Es[h - 1] / kT, bc) : hi;
  bool test = hi.at(bmin) < 0.3 && lo.at(bmin) < 0.3;
  bool sure = hi.at(bmin) < 0.02 && lo.at(bmin) < 0.02;   // ten rejections in a row do not happen
  int n = case_no % 8 == 0 ? 20000 : 600, thrown = 0;
  std::vector<double> ub, ua;
  for (int i = 0; i < n; ++i) {
    p.energy = Energy{ContinuousEnergy(E)};
    p.direction = Direction{0, 0, 1};
    p.event = Particle::Event::birth;
    try {
      ts.Scatter(p);
    } catch (const std::runtime_error& x) {
      if (sure || !std::strstr(x.what(), "beta")) fail("collision failed: %s", x.what());
      if (++thrown > 50) break;
      continue;
    }
    double Eo = std::get<ContinuousEnergy>(p.GetEnergy()), mu = p.GetDirection().z;
    auto& v = p.GetDirection();
    if (!(Eo >= 0) || !(Eo <= E + bc * kT * (1 + 1e-9))) fail("outgoing energy %.17g", Eo);
    if (!(std::fabs(v.x * v.x + v.y * v.y + v.z * v.z - 1) < 1e-9)) fail("direction (%g,%g,%g) after a collision", v.x, v.y, v.z);
    double b = (Eo - E) / kT;
    auto cond = [&](const Hist& q) { return (q.at(b) - q.at(bmin)) / (1 - q.at(bmin)); };
    ub.push_back((1 - re) * cond(lo) + re * cond(hi));
    // momentum transfer
    double ab = std::fabs(b), a = (E + Eo - 2 * mu * std::sqrt(E * Eo)) / (A * kT);
    size_t k = std::upper_bound(bs.begin(), bs.end(), ab) - bs.begin();
    if (k == 0) continue;
    bool snap = k == bs.size() || (b > 0 ? bc <= bs[k] : bs[k] * kT > E);
    double ra = snap ? 0 : (ab - bs[k - 1]) / (bs[k] - bs[k - 1]);
    double l = std::pow(std::sqrt(E) - std::sqrt(Eo), 2) / (A * kT), u = std::pow(std::sqrt(E) + std::sqrt(Eo), 2) / (A * kT);
    auto pit = [&](size_t i) {
      double q = std::sqrt(E + (b > 0 ? 1 : -1) * bs[i] * kT), l2 = std::pow(std::sqrt(E) - q, 2) / (A * kT), u2 = std::pow(std::sqrt(E) + q, 2) / (A * kT);
      Hist g = hist(ap, i, T, 0, ac);
      return (g.at(l2 + (a - l) / (u - l) * (u2 - l2)) - g.at(l2)) / (g.at(u2) - g.at(l2));
    };
    double s = (1 - ra) * pit(k - 1) + (ra ? ra * pit(k) : 0);
    if (std::isfinite(s)) ua.push_back(s);
  }
  if (double D = uniform_ks(ub); test && D > 3.6) fail("outgoing energy is not distributed as the data tell: KS %g in %zu collisions", D, ub.size());
  if (ua.size() > 300)
    if (double D = uniform_ks(ua); D > 3.6) fail("momentum transfer is not distributed as the data tell: KS %g in %zu collisions", D, ua.size());
}
