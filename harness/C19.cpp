#include "xs.hpp"
// free gas collisions of the real code against the kinematics of a target at rest and an independent sampler
struct Smp { std::vector<double> e, mu, dev; };
static double ks(std::vector<double> a, std::vector<double> b) {
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  double d = 0;
  size_t i = 0, j = 0;
  while (i < a.size() && j < b.size()) {
    double x = std::min(a[i], b[j]);
    while (i < a.size() && a[i] <= x) ++i;
    while (j < b.size() && b[j] <= x) ++j;
    d = std::max(d, std::fabs(double(i) / a.size() - double(j) / b.size()));
  }
  return d * std::sqrt(double(a.size()) * b.size() / (a.size() + b.size()));
}
static double rest_mu(double A, double q) { return ((A + 1) * std::sqrt(q) - (A - 1) / std::sqrt(q)) / 2; }
// speeds in units of the neutron's, target components normal with the given standard deviation, weighted by relative speed
static Smp reference(Rnd& r, double A, double sd, int n) {
  Smp s;
  std::normal_distribution<double> g;
  while (int(s.e.size()) < n) {
    double V[3] = {sd * g(r.g), sd * g(r.g), sd * g(r.g)}, v[3] = {0, 0, 1};
    // proposal for the rejection: relative speed is at most 1 + |V|, whose own density is sampled by weighting
    double sp = std::sqrt(V[0] * V[0] + V[1] * V[1] + V[2] * V[2]), top = 1 + 8 * sd;
    if (sp > 8 * sd) continue;
    double rel = std::sqrt(V[0] * V[0] + V[1] * V[1] + (1 - V[2]) * (1 - V[2]));
    if (r.u() * top >= rel) continue;
    double c[3], w[3], o[3];
    double z = r.uni(-1, 1), ph = 2 * M_PI * r.u(), q = std::sqrt(1 - z * z);
    w[0] = q * std::cos(ph), w[1] = q * std::sin(ph), w[2] = z;
    double L = rel * A / (1 + A), e = 0;
    for (int i = 0; i < 3; ++i) { c[i] = (v[i] + A * V[i]) / (1 + A); o[i] = c[i] + L * w[i]; e += o[i] * o[i]; }
    s.e.push_back(e);
    s.mu.push_back(o[2] / std::sqrt(e));
    s.dev.push_back(s.mu.back() - rest_mu(A, e));
  }
  return s;
}
static const ContinuousScatter& scatter_of(const World& w) {
  for (auto& q : static_cast<const Continuous&>(*w.nuclides.at(0)->xs.at(Particle::Type::neutron)).reactions)
    if (auto s = dynamic_cast<const ContinuousScatter*>(q.get())) return *s;
  fail("no scattering reaction");
}
static void collisions(Rnd& r) {
  bool many = case_no % 40 == 1, rest = !many && r.coin(0.3);
  double T = rest ? 0 : r.logu(20, 3000);
  Cont c = cont(r, 300, true, 0, 1);
  Field f;
  if (rest || r.coin()) { f.c = T; if (r.coin()) f.own = T; else f.xml = "<temperature><constant c='" + S(T) + "'/></temperature>"; }
  else {
    f.lin = true;
    for (double& g : f.g) g = r.uni(-0.04, 0.04) * T;
    double w = 5 * (std::fabs(f.g[0]) + std::fabs(f.g[1]) + std::fabs(f.g[2]));
    f.b = T + w; f.lo = f.b - w; f.hi = f.b + w;
    f.xml = "<temperature><linear><gradient x='" + S(f.g[0]) + "' y='" + S(f.g[1]) + "' z='" + S(f.g[2]) + "'/><intercept b='" + S(f.b) +
        "'/><bounds lower='" + S(f.lo) + "' upper='" + S(f.hi) + "'/></linear></temperature>";
  }
  auto doc = cont_doc(c, f.xml, f.own);
  note = doc;
  Doc d(doc);
  World w{d.root()};
  auto& sc = scatter_of(w);
  const Cell* ce = &w.cells[0];
  double A = c.nuc[0].awr;
  Point x{r.uni(0.1, 5), r.uni(-5, 5), r.uni(-5, 5)};
  T = f.at(x.x, x.y, x.z);
  double E = rest ? r.logu(1e-11, 1) : kB * T * (many || r.coin(0.3) ? r.logu(0.1, 10) / A : r.logu(0.02, 2000));
  note += " at (" + S(x.x) + "," + S(x.y) + "," + S(x.z) + ") T " + S(T) + " E " + S(E) + " A " + S(A);
  Direction u{r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)};
  int n = many ? 500000 : rest ? 400 : 12000;
  Smp s;
  std::vector<double> az;
  Particle p{x, u, Energy{ContinuousEnergy(E)}, Particle::Type::neutron, RNG::result_type(r.in(1, 2000000000)), ce};
  // an axis for the azimuth
  double ax[3] = {std::fabs(u.x) < 0.5 ? 1. : 0., std::fabs(u.x) < 0.5 ? 0. : 1., 0};
  double k = ax[0] * u.x + ax[1] * u.y, e1[3] = {ax[0] - k * u.x, ax[1] - k * u.y, -k * u.z};
  double l = std::sqrt(e1[0] * e1[0] + e1[1] * e1[1] + e1[2] * e1[2]);
  for (double& q : e1) q /= l;
  double e2[3] = {u.y * e1[2] - u.z * e1[1], u.z * e1[0] - u.x * e1[2], u.x * e1[1] - u.y * e1[0]};
  for (int i = 0; i < n; ++i) {
    p.direction = u;
    p.energy = Energy{ContinuousEnergy(E)};
    p.event = Particle::Event::birth;
    sc.Interact(p);
    if (p.event != Particle::Event::scatter) fail("event %d after a scatter", int(p.event));
    if (p.position.x != x.x || p.position.y != x.y || p.position.z != x.z || p.cell != ce) fail("a collision moves the particle");
    if (!std::holds_alternative<ContinuousEnergy>(p.GetEnergy())) fail("no continuous energy after a collision");
    double Eo = std::get<ContinuousEnergy>(p.GetEnergy());
    auto& v = p.GetDirection();
    double mu = v.x * u.x + v.y * u.y + v.z * u.z, q = Eo / E;
    if (!(Eo > 0) || !std::isfinite(mu)) fail("outgoing energy %g cosine %g", Eo, mu);
    if (rest) {
      double lo = (A - 1) * (A - 1) / ((A + 1) * (A + 1));
      if (!(q >= lo - 1e-12 && q <= 1 + 1e-12)) fail("target at rest: energy ratio %.17g outside [%.17g, 1]", q, lo);
      if (q > 1e-6 && std::fabs(mu - rest_mu(A, q)) > 1e-9 / q * (A + 1)) fail("target at rest: cosine %.17g for energy ratio %.17g, expected %.17g", mu, q, rest_mu(A, q));
    }
    s.e.push_back(q);
    s.mu.push_back(mu);
    s.dev.push_back(mu - rest_mu(A, q));
    double c1 = v.x * e1[0] + v.y * e1[1] + v.z * e1[2], c2 = v.x * e2[0] + v.y * e2[1] + v.z * e2[2];
    az.push_back(std::atan2(c2, c1) / (2 * M_PI) + 0.5);
  }
  // distributions
  const double most = 3.6;
  std::vector<double> flat;
  for (int i = 0; i < 4 * n; ++i) flat.push_back((i + 0.5) / (4 * n));
  double D = ks(az, flat);
  if (D > most) fail("azimuth after the collision is not uniform: KS %g", D);
  if (rest) {
    if (A > 1.01) {   // energy is uniform between its bounds
      double lo = (A - 1) * (A - 1) / ((A + 1) * (A + 1));
      std::vector<double> e;
      for (double q : s.e) e.push_back((q - lo) / (1 - lo));
      D = ks(e, flat);
      if (D > most) fail("target at rest: outgoing energy is not uniform: KS %g", D);
    }
    return;
  }
  Smp ref = reference(r, A, std::sqrt(kB * T / (2 * A * E)), n);
  const char* nm[3] = {"energy", "cosine", "cosine beyond that of a target at rest"};
  const std::vector<double>* a[3] = {&s.e, &s.mu, &s.dev};
  const std::vector<double>* b[3] = {&ref.e, &ref.mu, &ref.dev};
  for (int i = 0; i < 3; ++i) {
    D = ks(*a[i], *b[i]);
    if (D > most) fail("outgoing %s is not distributed as for a free gas: KS %g in %d collisions", nm[i], D, n);
  }
}
static void cross(Rnd& r) {
  double T = r.uni(20, 2000);
  Cont c = cont(r, T, false, 0, 1);
  Field f = field(r, T);
  note = cont_doc(c, f.xml, f.own);
  Doc d(note);
  World w{d.root()};
  auto& sc = scatter_of(w);
  const Reac* q = nullptr;
  for (auto& x : c.nuc[0].reacs) if (x.kind == 1) q = &x;
  auto head = note;
  double A = c.nuc[0].awr;
  for (int i = 0; i < 60; ++i) {
    Point x{r.uni(0.1, 5), r.uni(-5, 5), r.uni(-5, 5)};
    double t = f.at(x.x, x.y, x.z);
    double E = r.coin(0.6) && t > 0 ? 500 * kB * t / A * r.logu(0.001, 1.1) : r.logu(c.grid.front() / 3, c.grid.back() * 3);
    if (t < 0 || sharp(q->T, t) || sharp_cut(A, E, t) || t < q->T * 0.99) continue;
    note = head + " T " + S(t) + " E " + S(E);
    Particle p{x, Direction{r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)}, Energy{ContinuousEnergy(E)}, Particle::Type::neutron, 1, &w.cells[0]};
    double v = sc.GetCrossSection(p), want = reaction_ref(*q, A, E, t);
    if (!near(v, want)) fail("effective scattering cross section %.17g, expected %.17g (tabulated %g)", v, want, q->t.at(E));
    for (double tt : {t, q->T, 0.}) if (double g = sc.GetFreeGasScatterAdjustment(p, tt); !near(g, freegas(A, E, tt))) fail("free gas factor %.17g at T %g, expected %.17g", g, tt, freegas(A, E, tt));
  }
}
void one_case(Rnd& r) {
  if (case_no % 4 == 0) cross(r); else collisions(r);
}
