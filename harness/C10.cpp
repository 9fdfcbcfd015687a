#include "run.hpp"
#include "Multigroup.hpp"
#include "ContinuousReaction.hpp"
#include "h5.hpp"
#include <mutex>
static void get(const Point& p, double* v) { v[0] = p.Dot(Point{1, 0, 0}); v[1] = p.Dot(Point{0, 1, 0}); v[2] = p.Dot(Point{0, 0, 1}); }
static bool same(const Point& a, const Point& b) { return a.x == b.x && a.y == b.y && a.z == b.z; }
static Particle part(Rnd& r, Energy e, const Cell* c, unsigned seed) {
  return Particle{Point{r.uni(-5, 5), r.uni(-5, 5), r.uni(-5, 5)}, Direction{r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)}, e, Particle::Type::neutron, seed, c};
}
static void chi2(const std::vector<double>& h, const std::vector<double>& want, double n, const char* w) {
  double c = 0, k = 0;
  for (size_t i = 0; i < h.size(); ++i) {
    double e = want[i] * n;
    if (e == 0 && h[i] > 0) fail("%s: class %zu has probability zero but occurred", w, i);
    if (e > 5) { c += (h[i] - e) * (h[i] - e) / e; k++; }
  }
  if (c > k + 9 * std::sqrt(2 * k) + 20) fail("%s: chi2 %g over %g classes", w, c, k);
}
// secondaries of one fission; react: runs the fission
template <class F> static int fission(Rnd& r, Energy e, const Cell* c, double nubar, F react, std::vector<double>* groups) {
  auto p = part(r, e, c, r.in(1, 2000000000));
  int before = r.in(0, 2);
  for (int i = 0; i < before; ++i) p.BankSecondaries(Direction{1, 0, 0}, Energy{Group(7 + i)});
  auto pos = p.position;
  double d0[3], d1[3];
  get(p.direction, d0);
  react(p);
  get(p.direction, d1);
  if (p.event != Particle::Event::fission || p.IsAlive()) fail("fission leaves the particle alive");
  if (!same(p.position, pos) || p.cell != c) fail("fission moves the particle");
  auto& b = p.secondaries.banked;
  int n = int(b.size()) - before, i = 0;
  if (n != std::floor(nubar) && n != std::floor(nubar) + 1) fail("%d secondaries for an average of %.17g", n, nubar);
  if (nubar == std::floor(nubar) && n != nubar) fail("%d secondaries for exactly %g", n, nubar);
  std::set<std::string> seeds;
  auto key = [](const RNG& g) { std::stringstream s; s << g; return s.str(); };
  for (auto& q : b) {
    if (i++ < before) {
      if (q.energy != Energy{Group(7 + i - 1)}) fail("a particle banked earlier has changed");
      continue;
    }
    if (!same(q.position, pos)) fail("secondary at another position");
    if (q.cell != c) fail("secondary in another cell");
    if (q.type != Particle::Type::neutron || q.event != Particle::Event::birth || !q.IsAlive() || q.current_surface) fail("secondary is not a newborn neutron");
    double d[3];
    get(q.direction, d);
    if (std::fabs(d[0] * d[0] + d[1] * d[1] + d[2] * d[2] - 1) > 1e-9) fail("direction of a secondary has no unit length");
    if (!q.secondaries.empty()) fail("secondary has secondaries");
    if (!seeds.insert(key(q.rng)).second) fail("two secondaries share a random seed");
    if (groups) {
      if (!std::holds_alternative<Group>(q.energy)) fail("secondary without group");
      Group g = std::get<Group>(q.energy);
      if (g < 1 || g > groups->size()) fail("secondary in group %zu", size_t(g));
      (*groups)[g - 1]++;
    } else if (q.energy != e) fail("secondary of a continuous fission has another energy");
  }
  return n;
}
static void multigroup(Rnd& r) {
  Setup s;
  do s = setup(r, false, true); while (std::all_of(s.chi.begin(), s.chi.end(), [](auto& c) { return c.empty(); }));
  std::vector<int> o;
  Doc d(s.doc("", o));
  note = s.head;
  int n = r.in(0, s.nn - 1);
  while (s.chi[n].empty()) n = (n + 1) % s.nn;
  pugi::xml_node node = d.root().child("nuclides").child("multigroup").find_child_by_attribute("nuclide", "name", nucname(n).c_str()).child("neutron");
  Multigroup m{node};
  Cell* c = reinterpret_cast<Cell*>(0x1000);
  int g = r.in(1, s.G);
  std::vector<double> h(s.G), w(s.G);
  double z = 0, total = 0;
  for (int i = 0; i < s.G; ++i) z += w[i] = s.chi[n][i][g - 1];
  for (auto& x : w) x /= z;
  int N = case_no % 10 == 0 ? 8000 : 20;
  double nb = s.nubar[n][g - 1];
  for (int i = 0; i < N; ++i) total += fission(r, Energy{Group(g)}, c, nb, [&](Particle& p) { m.Fission(p); }, &h);
  double f = nb - std::floor(nb);
  if (std::fabs(total / N - nb) > 7 * std::sqrt(f * (1 - f) / N) + 3. / N) fail("average of %g secondaries, declared %g", total / N, nb);
  chi2(h, w, total, "groups of the secondaries");
  auto p = part(r, Energy{Group(g)}, c, 5);
  m.Capture(p);
  if (p.event != Particle::Event::capture || !p.secondaries.empty()) fail("capture with secondaries");
}
static double table(const std::vector<double>& x, const std::vector<double>& y, double e) {
  if (e <= x.front()) return y.front();
  if (e >= x.back()) return y.back();
  size_t i = std::upper_bound(x.begin(), x.end(), e) - x.begin();
  return y[i - 1] + (y[i] - y[i - 1]) * (e - x[i - 1]) / (x[i] - x[i - 1]);
}
static void continuous(Rnd& r) {
  int n = r.in(2, 5);
  std::vector<double> e{0}, v;
  for (int i = 1; i < n; ++i) e.push_back(e.back() + r.logu(0.1, 3));
  for (int i = 0; i < n; ++i) v.push_back(r.coin(0.3) ? r.in(0, 3) : r.uni(0, 4));
  auto file = scratch("nubar.h5");
  write_pandas(file, {e}, v);
  Doc d("<fission><xs file='" + file + "' temperature='300'/><nubar file='" + file + "'/></fission>");
  note = "nubar";
  for (int i = 0; i < n; ++i) note += " " + S(e[i]) + ":" + S(v[i]);
  ContinuousFission f{d.root()};
  std::unique_ptr<const ContinuousReaction> m = ContinuousReaction::Create(d.root());
  Cell* c = reinterpret_cast<Cell*>(0x1000);
  double x = r.coin(0.5) ? e[r.in(0, n - 1)] : r.uni(0, e.back() * 1.2), nb = table(e, v, x), total = 0;
  note += " at " + S(x);
  if (std::fabs(nb - std::round(nb)) < 1e-9 && nb != std::round(nb)) return;
  int N = case_no % 7 == 0 ? 4000 : 20;
  for (int i = 0; i < N; ++i) total += fission(r, Energy{ContinuousEnergy(x)}, c, nb, [&](Particle& p) { if (i % 2) m->Interact(p); else f.Interact(p); }, nullptr);
  double fr = nb - std::floor(nb);
  if (std::fabs(total / N - nb) > 7 * std::sqrt(fr * (1 - fr) / N) + 3. / N) fail("average of %g secondaries, declared %g", total / N, nb);
  Doc dc("<capture file='" + file + "' temperature='300'/>");
  ContinuousCapture k{dc.root()};
  auto p = part(r, Energy{ContinuousEnergy(x)}, c, 5);
  k.Interact(p);
  if (p.event != Particle::Event::capture || !p.secondaries.empty() || p.IsAlive()) fail("capture with secondaries");
}
// transports nothing: grows a tree of secondaries and records who was transported
struct Tree : TransportMethod {
  mutable std::mutex m;
  mutable std::map<unsigned long long, int> seen;
  int most, arms;
  unsigned salt;
  Tree(int most, int arms, unsigned salt) : most{most}, arms{arms}, salt{salt} {}
  int children(unsigned long long id) const {
    int depth = 0;
    for (auto x = id; x > 1; x /= 8) ++depth;
    if (depth >= most) return 0;
    return (id * 2654435761u + salt) % (arms + 1);
  }
  Bank Transport(Particle& p, EstimatorSetProxy&, const World&) const noexcept override {
    auto id = std::get<Group>(p.energy);
    { std::lock_guard<std::mutex> l{m}; seen[id]++; }
    for (int i = 0; i < children(id); ++i) p.BankSecondaries(Direction{0, 0, 1}, Energy{Group(id * 8 + i)});
    p.event = Particle::Event::fission;
    return {};
  }
  MicroscopicCrossSection GetCollisionProbabilityDensity(const Particle&) const noexcept override { return 1; }
  void count(unsigned long long id, std::map<unsigned long long, int>& w, int N) const {
    w[id] += N;
    for (int i = 0; i < children(id); ++i) count(id * 8 + i, w, N);
  }
};
static void history(Rnd& r) {
  Problem p = problem(r, true, false, 5);
  auto i = p.text.find("<energy><constant energy='");
  p.text.replace(i, p.text.find("/>", i) - i, "<energy><constant energy='1'");
  Doc d(p.text);
  note = p.text;
  FixedSource f{d.root()};
  auto t = new Tree(r.in(0, 5), r.in(0, 4), r.in(0, 1000));
  note += " tree " + S(t->most) + " " + S(t->arms) + " " + S(int(t->salt));
  Particle::transport_method.reset(t);
  Quiet q;
  f.Solve();
  std::map<unsigned long long, int> want;
  t->count(1, want, p.N);
  if (want != t->seen) {
    for (auto& [id, n] : want) if (t->seen[id] != n) fail("particle %llu was transported %d times, expected %d", id, t->seen[id], n);
    fail("particles were transported that nobody banked");
  }
}
static void banks(Rnd& r) {
  Bank a, b;
  std::list<int> x, y;
  int id = 1;
  for (int i = r.in(0, 12); i > 0; --i) {
    bool second = r.coin();
    auto& k = second ? b : a;
    auto& l = second ? y : x;
    switch (r.in(0, 4)) {
    case 0: case 1: case 2:
      k.emplace_back(Point{double(id), 0, 0}, Direction{1, 0, 0}, Energy{Group(id)}, Particle::Type::neutron, 1u);
      l.push_back(id++);
      break;
    case 3:
      if (!l.empty()) { k.pop_back(); l.pop_back(); }
      break;
    case 4: a += std::move(b); x.splice(x.begin(), y); break;
    }
    if (a.empty() != x.empty() || b.empty() != y.empty()) fail("empty()");
    if (!x.empty() && std::get<Group>(a.back().energy) != Group(x.back())) fail("back()");
  }
  std::multiset<int> got, want(x.begin(), x.end());
  while (!a.empty()) { got.insert(std::get<Group>(a.back().energy)); a.pop_back(); if (got.size() > 100) fail("bank grows"); }
  if (got != want) fail("bank holds %zu particles, expected %zu", got.size(), want.size());
}
void one_case(Rnd& r) {
  switch (case_no % 5) {
  case 0: case 1: multigroup(r); break;
  case 4: continuous(r); break;
  case 2: history(r); break;
  case 3: banks(r); break;
  }
}
