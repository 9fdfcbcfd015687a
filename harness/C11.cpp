#include "common.hpp"
#include "Bins.hpp"
#include "CSGSurface.hpp"
#include "Particle.hpp"
struct B {
  std::string xml;
  std::vector<double> edge;   // finite boundaries, ascending
  bool exact = false, none = false;
  int size() const { return none ? 1 : int(edge.size()) + 1; }
  // -1: too close to a boundary to tell
  int index(double v) const {
    if (none) return 0;
    int i = 0;
    for (double e : edge) {
      if (!exact && std::fabs(v - e) <= 1e-9 * (std::fabs(e) + std::fabs(edge.back() - edge.front()))) return -1;
      if (v >= e) ++i;
    }
    return i;
  }
  double pick(Rnd& r) const {
    if (none || r.coin(0.1)) return r.coin() ? r.uni(-5, 5) : std::pow(10, r.uni(-12, 12)) * (r.coin() ? 1 : -1);
    double a = edge.front(), b = edge.back();
    if (r.coin(0.2)) return edge[r.in(0, edge.size() - 1)];
    if (r.coin(0.1)) return 0;
    if (r.coin(0.2)) return r.coin() ? a - std::fabs(r.uni(0, 2)) : b + std::fabs(r.uni(0, 2));
    return r.uni(a, b);
  }
};
static B make(Rnd& r, bool allow_none = true) {
  B b;
  int t = r.in(allow_none ? 0 : 1, 3);
  if (t == 0) { b.none = true; return b; }
  if (t == 1) {
    int n = r.in(1, 12);
    b.exact = r.coin();
    double w = b.exact ? std::ldexp(1, r.in(-6, 4)) : r.logu(1e-3, 10), lo = b.exact ? w * r.in(-10, 10) : r.uni(-5, 5), hi = b.exact ? lo + n * w : lo + w * n;
    for (int i = 0; i <= n; ++i) b.edge.push_back(i == n ? hi : lo + i * ((hi - lo) / n));
    b.xml = "<linspace min='" + S(lo) + "' max='" + S(hi) + "' bins='" + S(n) + "'/>";
  } else if (t == 2) {
    int n = r.in(1, 12), k = r.in(0, 2);
    double base = k == 0 ? 10 : k == 1 ? 2 : r.uni(1.1, 20), lo = r.uni(-8, 2), hi = lo + r.uni(0.2, 8);
    for (int i = 0; i <= n; ++i) b.edge.push_back(std::pow(base, lo + i * ((hi - lo) / n)));
    b.xml = "<logspace" + std::string(k == 0 && r.coin() ? "" : " base='" + S(base) + "'") + " min='" + S(lo) + "' max='" + S(hi) + "' bins='" + S(n) + "'/>";
  } else {
    b.exact = true;
    int n = r.in(1, 10);
    double x = r.uni(-5, 5);
    b.xml = "<boundaries>";
    for (int i = 0; i < n; ++i, x += r.logu(1e-6, 5)) { b.edge.push_back(x); b.xml += S(x) + " "; }
    b.xml += "</boundaries>";
  }
  return b;
}
static bool rejected(const std::string& s) {
  Doc d(s);
  try { Bins::Create(d.root()); } catch (const std::runtime_error&) { return true; }
  return false;
}
void one_case(Rnd& r) {
  B b = make(r);
  note = "bins " + b.xml;
  Doc d("<b>" + b.xml + "</b>");
  auto x = Bins::Create(d.root().first_child());
  if (int(x->size()) != b.size()) fail("%zu bins, expected %d", x->size(), b.size());
  for (int k = 0; k < 12; ++k) {
    double v = b.pick(r);
    size_t g = x->GetIndex(v);
    if (g >= x->size()) fail("value %.17g has index %zu of %zu bins", v, g, x->size());
    int w = b.index(v);
    if (w >= 0 && g != size_t(w)) fail("value %.17g has index %zu, expected %d", v, g, w);
  }
  if (r.coin(0.2)) {
    double lo = r.uni(-3, 3), hi = r.coin(0.3) ? lo : lo - r.uni(0, 3);
    std::string a = " min='" + S(lo) + "' max='" + S(hi) + "' bins='3'/>";
    if (!rejected("<linspace" + a)) fail("linear bins from %g to %g are accepted", lo, hi);
    if (!rejected("<logspace" + a)) fail("logarithmic bins from %g to %g are accepted", lo, hi);
    std::string t = S(lo) + " " + S(lo + 1) + " " + S(r.coin() ? lo + 1 : lo + 1 - r.uni(0, 3)) + (r.coin() ? " 100" : "");
    if (!rejected("<boundaries>" + t + "</boundaries>")) fail("boundaries %s are accepted", t.c_str());
  }
  B c = make(r), e = make(r);
  bool hasc = r.coin(0.8);
  if (r.coin(0.7)) {
    int n = r.in(1, 10);
    c = B();
    if (r.coin()) {
      c.xml = "<linspace min='-1' max='1' bins='" + S(n) + "'/>";
      for (int i = 0; i <= n; ++i) c.edge.push_back(-1 + 2.0 * i / n);
    } else {
      c.exact = true;
      std::set<double> z;
      while (int(z.size()) < n) z.insert(r.uni(-1, 1));
      c.xml = "<boundaries>";
      for (double q : z) { c.edge.push_back(q); c.xml += S(q) + " "; }
      c.xml += "</boundaries>";
    }
  }
  double u[3] = {r.uni(-1, 1), r.uni(-1, 1), r.uni(0.1, 1)};
  if (!hasc) { c = B(); c.none = true; }
  std::string t = "<bins>" + (hasc ? "<cosine u='" + S(u[0]) + "' v='" + S(u[1]) + "' w='" + S(u[2]) + "'>" + c.xml + "</cosine>" : "") + (e.none ? "" : "<energy>" + e.xml + "</energy>") + "</bins>";
  note = t;
  Doc d2(t);
  ParticleBins pb{d2.root()};
  if (int(pb.size()) != c.size() * e.size()) fail("tally of %zu elements for %d x %d bins", pb.size(), c.size(), e.size());
  std::map<size_t, std::pair<int, int>> seen;
  std::map<std::pair<int, int>, size_t> back;
  double un = std::sqrt(u[0] * u[0] + u[1] * u[1] + u[2] * u[2]);
  for (int k = 0; k < 30; ++k) {
    double q[3] = {r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)}, qn = std::sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2]);
    bool mg = r.coin(0.3);
    Group gr = r.in(1, 9);
    double ev = mg ? double(gr) : std::fabs(e.pick(r));
    Particle p{Point{0, 0, 0}, Direction{q[0], q[1], q[2]}, mg ? Energy{gr} : Energy{ev}, Particle::Type::neutron, 1};
    double mu = (u[0] * q[0] + u[1] * q[1] + u[2] * q[2]) / un / qn;
    size_t g = pb.GetIndex(p);
    if (g >= pb.size()) fail("cosine %.17g energy %.17g: element %zu of %zu", mu, ev, g, pb.size());
    int ci = c.none ? 0 : c.index(mu), ei = e.index(ev);
    for (double x : c.edge) if (std::fabs(mu - x) < 1e-9) ci = -1;
    if (ci < 0 || ei < 0) continue;
    std::pair<int, int> key{ci, ei};
    if (seen.count(g) && seen[g] != key) fail("element %zu holds cosine and energy bins (%d,%d) and (%d,%d)", g, seen[g].first, seen[g].second, ci, ei);
    if (back.count(key) && back[key] != g) fail("bins (%d,%d) use elements %zu and %zu", ci, ei, back[key], g);
    seen[g] = key;
    back[key] = g;
  }
}
