// every flight of a history, seen by an estimator of our own
#pragma once
#include "tally.hpp"
#include "xs.hpp"
struct Step { Particle::Event event; Point pos; Direction dir; Energy energy; const Cell* cell; const CSGSurface* surface; };
struct Recorder : Estimator {
  std::vector<Step>* to;
  Recorder(const pugi::xml_node& n, const PerturbationSet& p, std::vector<Step>* t) : Estimator{n, p}, to{t} {}
  std::unique_ptr<Estimator> Clone() const noexcept override { return {}; }
  Real GetScore(const Particle& p) const noexcept override {
    to->push_back({p.event, p.position, p.direction, p.energy, p.cell, p.current_surface.get()});
    return 0;
  }
};
struct Flights {
  std::vector<Step> steps;
  Doc none{"<estimators/>"}, one{"<current name='r'/>"};
  World& w;
  PerturbationSet p;
  EstimatorSet set;
  EstimatorSetProxy proxy;
  Flights(World& w) : w{w}, p{none.root(), w}, set{none.root(), w, p, 1}, proxy{fill()} {}
  EstimatorSetProxy fill() {
    const_cast<std::vector<std::unique_ptr<Estimator>>&>(set.estimators).push_back(std::make_unique<Recorder>(one.root(), p, &steps));
    return set.GetProxy();
  }
};
struct Stats {
  double n = 0, v = 0, x = 0;     // sum of (outcome - probability), its variance
  void add(double outcome, double prob, double var) { n++; x += outcome - prob; v += var; }
  void check(const char* w, double most = 7) const {
    if (v > 20 && std::fabs(x) > most * std::sqrt(v) + 1) fail("%s: %g more than expected in %g cases, standard deviation %g", w, x, n, std::sqrt(v));
  }
};
struct Sums {
  Stats collide, length, length2, real, realw;
};
inline double along(const Point& a, const Point& b, const Direction& d, double& off) {
  double x = b.x - a.x, y = b.y - a.y, z = b.z - a.z, t = x * d.x + y * d.y + z * d.z;
  off = std::max({std::fabs(x - t * d.x), std::fabs(y - t * d.y), std::fabs(z - t * d.z)});
  return t;
}
inline Particle at_site(const Point& p, const Direction& d, const Energy& e, const Cell* c) { return Particle{p, d, e, Particle::Type::neutron, 1, c}; }
// one history with the checks every flight has to pass
inline void history(World& w, Flights& f, const TransportMethod& m, bool delta, Particle p, Sums& s) {
  using Ev = Particle::Event;
  f.steps.clear();
  Step was{Ev::birth, p.position, p.direction, p.energy, nullptr, nullptr};
  bool first = true;
  was.cell = &w.FindCellContaining(p.position);
  if (!was.cell->material) return;
  m.Transport(p, f.proxy, w);
  if (f.steps.empty()) fail("a history without a flight");
  for (size_t i = 0; i < f.steps.size(); ++i) {
    const Step& now = f.steps[i];
    bool last = i + 1 == f.steps.size(), end = now.event == Ev::capture || now.event == Ev::leak || now.event == Ev::fission;
    if (end != last) fail("flight %zu of %zu ends in event %d", i + 1, f.steps.size(), int(now.event));
    double off, t = along(was.pos, now.pos, was.dir, off), sd = std::numeric_limits<double>::infinity();
    double size = 1 + std::fabs(was.pos.x) + std::fabs(was.pos.y) + std::fabs(was.pos.z) + std::fabs(t);
    if (!(off < 1e-9 * size)) fail("flight %zu is not straight: off by %g", i + 1, off);
    const CSGSurface* near_s = nullptr;
    for (auto& [q, sense] : was.cell->surface_senses) { double d = q->Distance(was.pos, was.dir); if (d < sd) sd = d, near_s = q.get(); }
    auto before = at_site(was.pos, was.dir, was.energy, was.cell);
    double xs = delta ? was.cell->material->GetMicroscopicMajorant(before) : was.cell->material->GetMicroscopicTotal(before);
    double rate = xs * was.cell->material->number_density;
    bool crossing = now.event == Ev::surface_cross || now.event == Ev::leak;
    if (crossing) {
      if (std::isinf(sd)) fail("flight %zu crosses a surface, none is ahead", i + 1);
      if (!(t > sd - 1e-10 * size && t - sd < 1.1e-6 * size)) fail("flight %zu with a crossing has length %.17g, the surface is at %.17g", i + 1, t, sd);
      const Cell* c = &w.FindCellContaining(now.pos);
      if (now.cell != c) fail("after flight %zu the particle is not in the cell of its position", i + 1);
      if ((now.event == Ev::leak) != !now.cell->material) fail("flight %zu ends in event %d in a cell %s material", i + 1, int(now.event), now.cell->material ? "with" : "without");
      if (now.surface != near_s) { double d = now.surface ? now.surface->Distance(was.pos, was.dir) : -1; if (d != sd) fail("flight %zu records a surface at %g, the nearest is at %g", i + 1, d, sd); }
      if (std::memcmp(&now.dir, &was.dir, sizeof now.dir) || now.energy != was.energy) fail("a crossing changes direction or energy");
    } else {
      if (now.event != Ev::scatter && now.event != Ev::capture && now.event != Ev::fission && !(delta && now.event == Ev::virtual_collision)) fail("flight %zu ends in event %d", i + 1, int(now.event));
      if (!(t >= 0 && t <= sd * (1 + 1e-12) + 1e-12)) fail("flight %zu with a collision has length %.17g, the surface is at %.17g", i + 1, t, sd);
      if (now.cell != was.cell) fail("a collision changes the cell");
      if (now.surface != was.surface && !first) fail("a collision changes the crossed surface");
      if (now.event == Ev::virtual_collision && (std::memcmp(&now.dir, &was.dir, sizeof now.dir) || now.energy != was.energy)) fail("a virtual collision changes direction or energy");
    }
    double esc = std::exp(-rate * sd);
    s.collide.add(!crossing, 1 - esc, esc * (1 - esc));
    if (!crossing && esc < 0.999) {
      double u = (1 - std::exp(-rate * t)) / (1 - esc);
      s.length.add(u, 0.5, 1. / 12);
      s.length2.add((u - 0.5) * (u - 0.5), 1. / 12, 1. / 180);
      if (delta) {
        auto site = at_site(now.pos, was.dir, was.energy, was.cell);
        double pr = was.cell->material->GetMicroscopicTotal(site) / was.cell->material->GetMicroscopicMajorant(site);
        if (!(pr >= 0 && pr <= 1 + 1e-9)) fail("total over majorant is %.17g at a collision site", pr);
        bool real = now.event != Ev::virtual_collision;
        s.real.add(real, pr, pr * (1 - pr));
        double x = (now.pos.x - was.pos.x);      // acceptance belongs to the collision site: correlated with where that is
        s.realw.add(real * x, pr * x, pr * (1 - pr) * x * x);
      }
    }
    was = now;
    first = false;
  }
}
inline void conclude(const Sums& s) {
  s.collide.check("collisions before the surface");
  s.length.check("flight lengths (mean)");
  s.length2.check("flight lengths (spread)");
  s.real.check("accepted collisions");
  s.realw.check("accepted collisions by place", 8);
}
struct Ball { Cont c; Field f; std::string text; };
// a ball with a shell around it, of one continuous energy material
inline Ball ball(Rnd& r) {
  double T = r.uni(50, 1500);
  Ball b{cont(r, T, true, 0, 2), field(r, T), ""};
  double ri = r.uni(0.5, 1.5);
  std::string own = b.f.own >= 0 ? " temperature='" + S(b.f.own) + "'" : "";
  auto m = b.c.material;
  auto at = m.find("aden='") + 6;
  m.replace(at, m.find("'", at) - at, S(r.logu(0.03, 0.6)));
  b.text = "<minimc><general><particles>neutron</particles><tracking>cell delta</tracking></general>" + b.f.xml +
      "<surfaces><sphere name='o'><center x='2.5' y='0' z='0'/><radius r='2.4'/></sphere><sphere name='i'><center x='" + S(r.uni(2, 3)) + "' y='0' z='0'/><radius r='" + S(ri) + "'/></sphere></surfaces><nuclides>" +
      b.c.nuclides + "</nuclides><materials>" + m + "</materials><cells><cell name='a' material='m'" + own + "><surface name='i' sense='-1'/></cell>" +
      "<cell name='b' material='m'" + own + "><surface name='i' sense='+1'/><surface name='o' sense='-1'/></cell>" +
      (r.coin() ? "<void><surface name='o' sense='+1'/></void>" : "<void><surface name='o' sense='+1'/><surface name='i' sense='+1'/></void>") + "</cells></minimc>";
  return b;
}
inline void slabs(Rnd& r, bool delta) {
  Setup s = setup(r, false, true);
  std::vector<int> o;
  Doc d(s.doc("", o));
  note = s.head;
  World w{d.root()};
  Flights f{w};
  Sums q;
  int N = case_no % 10 == 0 ? 3000 : 40;
  SurfaceTracking st;
  CellDeltaTracking ct;
  for (int i = 0; i < N; ++i)
    history(w, f, delta ? static_cast<const TransportMethod&>(ct) : st, delta,
            Particle{Point{r.uni(s.plane.front(), s.plane.back()), r.uni(-1, 1), r.uni(-1, 1)}, Direction{r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)}, Energy{Group(r.in(1, s.G))}, Particle::Type::neutron, RNG::result_type(r.in(1, 2000000000))}, q);
  conclude(q);
}
inline void balls(Rnd& r, bool delta) {
  Ball b = ball(r);
  Doc d(b.text);
  note = b.text;
  World w{d.root()};
  Flights f{w};
  Sums q;
  int N = case_no % 10 == 1 ? 3000 : 40;
  SurfaceTracking st;
  CellDeltaTracking ct;
  for (int i = 0; i < N; ++i) {
    double E = r.coin() ? r.logu(b.c.grid.front(), b.c.grid.back()) : r.logu(1e-9, 1e-6);
    history(w, f, delta ? static_cast<const TransportMethod&>(ct) : st, delta,
            Particle{Point{r.uni(1, 4), r.uni(-1, 1), r.uni(-1, 1)}, Direction{r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)}, Energy{ContinuousEnergy(E)}, Particle::Type::neutron, RNG::result_type(r.in(1, 2000000000))}, q);
  }
  conclude(q);
}
