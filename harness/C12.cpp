#include "tally.hpp"
// a tally with arbitrary real scores: position z of the particle
struct Any : Scorable {
  using Scorable::Scorable;
  Real GetScore(const Particle& p) const noexcept override { return p.GetPosition().z; }
  std::string to_string(const Real w) const noexcept override { return GetScoreAsString(w); }
  double sum(int i) const { return scores.at(i); }
  double sq(int i) const { return square_scores.at(i); }
  size_t n() const { return scores.size(); }
  size_t m() const { return square_scores.size(); }
};
static Particle part(Rnd& r, int G, double z) {
  Direction d{r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)};
  return Particle{Point{0, 0, z}, d, Energy{Group(r.in(1, G))}, Particle::Type::neutron, 1};
}
static int where(const Est& e, const Particle& p) {
  auto& d = p.GetDirection();
  double v[3] = {d.x, d.y, d.z};
  return e.index(v, std::get<Group>(p.GetEnergy()));
}
static void check(const char* what, const std::vector<double>& got, const std::vector<double>& want, double rel) {
  if (got.size() != want.size()) fail("%s: %zu elements, expected %zu", what, got.size(), want.size());
  for (size_t i = 0; i < want.size(); ++i)
    if (!near(got[i], want[i], rel, 1e-12)) fail("%s of element %zu is %.17g, expected %.17g", what, i, got[i], want[i]);
}
static void reals(Rnd& r, const Setup& s) {
  auto& e = s.est[0];
  Doc d(s.est_xml({0}));
  Any t[2] = {Any{"t", d.root().first_child().child("bins")}, Any{"t", d.root().first_child().child("bins")}};
  std::vector<double> sum[2], sq[2];
  int N = 0;
  for (int k = 0; k < 2; ++k) {
    sum[k].assign(e.size(), 0);
    sq[k] = sum[k];
    if (t[k].n() != size_t(e.size()) || t[k].m() != size_t(e.size())) fail("%zu elements, expected %d", t[k].n(), e.size());
    for (int h = r.in(0, 6); h > 0; --h, ++N) {
      ScorableProxy p{t[k]};
      std::map<int, double> tot;
      for (int c = r.in(0, 8); c > 0; --c) {
        double z = r.coin(0.2) ? 0 : r.coin(0.5) ? r.in(-3, 3) : r.uni(-5, 5);
        auto q = part(r, s.G, z);
        int i = where(e, q);
        if (i < 0) continue;
        p.Score(q);
        tot[i] += z;
      }
      p.CommitHistory();
      for (auto& [i, v] : tot) { sum[k][i] += v; sq[k][i] += v * v; }
    }
  }
  auto other = t[1];
  if (r.coin()) {
    t[0] += t[1];
    for (int i = 0; i < e.size(); ++i) { sum[0][i] += sum[1][i]; sq[0][i] += sq[1][i]; }
    for (int i = 0; i < e.size(); ++i) if (t[1].sum(i) != other.sum(i) || t[1].sq(i) != other.sq(i)) fail("the tally added from has changed");
  }
  std::vector<double> a, b, mean, sd;
  double W = std::max(N, 1) + (r.coin() ? 0 : 5);
  for (int i = 0; i < e.size(); ++i) {
    a.push_back(t[0].sum(i));
    b.push_back(t[0].sq(i));
    mean.push_back(sum[0][i] / W);
    sd.push_back(std::sqrt(std::max(0., sq[0][i] - sum[0][i] * sum[0][i] / W)) / W);
    if (!near(t[0].Scorable::GetScore(size_t(i), W), mean[i])) fail("mean of element %d", i);
  }
  check("sum", a, sum[0], 1e-9);
  check("sum of squares", b, sq[0], 1e-9);
  auto p = parse(t[0].to_string(W));
  if (p.size() != 1) fail("report %s", t[0].to_string(W).c_str());
  check("reported mean", p[0].mean, mean, 2e-6);
  if (p[0].sd.size() != sd.size()) fail("%zu standard deviations", p[0].sd.size());
  for (size_t i = 0; i < sd.size(); ++i) {
    if (sd[i] < 1e-6) continue;
    if (!near(p[0].sd[i], sd[i], 2e-6)) fail("reported standard deviation of element %zu is %.9g, expected %.9g", i, p[0].sd[i], sd[i]);
  }
}
static void sets(Rnd& r, const Setup& s) {
  std::vector<int> o1(s.est.size()), o2;
  std::iota(o1.begin(), o1.end(), 0);
  o2 = o1;
  std::shuffle(o2.begin(), o2.end(), r.g);
  Doc d1(s.doc("", o1)), d2(s.doc("", o2));
  World w{d1.root()};
  PerturbationSet ps{d1.root().child("perturbations"), w};
  int N = r.in(1, 20);
  EstimatorSet a{d1.root().child("estimators"), w, ps, double(N)}, b{d2.root().child("estimators"), w, ps, double(N)};
  EstimatorSet c = a;  // as made for every worker
  std::vector<std::vector<double>> sum(s.est.size()), sq(s.est.size());
  for (size_t k = 0; k < s.est.size(); ++k) { sum[k].assign(s.est[k].size(), 0); sq[k] = sum[k]; }
  for (int h = 0; h < N; ++h) {
    auto& at = h % 3 == 0 ? a : h % 3 == 1 ? b : c;
    auto p = at.GetProxy();
    std::map<std::pair<int, int>, double> tot;
    for (int k = r.in(0, 6); k > 0; --k) {
      auto q = part(r, s.G, 0);
      q.SetPerturbations(ps);
      int sf = r.in(0, s.ns - 1);
      q.current_surface = w.FindSurfaceByName("s" + S(sf));
      q.event = r.coin() ? Particle::Event::surface_cross : Particle::Event::leak;
      bool skip = false;
      for (auto& e : s.est) skip |= where(e, q) < 0;
      if (skip) continue;
      p.Score(q);
      for (size_t e = 0; e < s.est.size(); ++e) if (s.est[e].surface == sf) tot[{int(e), where(s.est[e], q)}] += 1;
    }
    p.CommitHistory();
    for (auto& [i, v] : tot) { sum[i.first][i.second] += v; sq[i.first][i.second] += v * v; }
  }
  EstimatorSet all = a;
  all += b;
  all += c;
  auto rep = parse(all.to_string());
  size_t at = 0;
  for (size_t k = 0; k < s.est.size(); ++k) {
    if (at >= rep.size()) fail("%zu tallies reported", rep.size());
    auto& p = rep[at];
    at += 1 + s.est[k].sens.size();
    if (p.mean.size() != sum[k].size() || p.sd.size() != sum[k].size()) fail("estimator %zu: %zu elements reported, expected %zu", k, p.mean.size(), sum[k].size());
    for (size_t i = 0; i < sum[k].size(); ++i) {
      double m = sum[k][i] / N, sd = std::sqrt(std::max(0., sq[k][i] - sum[k][i] * sum[k][i] / N)) / N;
      if (!near(all.FindEstimatorByName(s.est[k].name).Scorable::GetScore(i, N), m)) fail("mean of merged estimator %s element %zu", s.est[k].name.c_str(), i);
      if (!near(p.mean[i], m, 2e-6)) fail("reported mean of %s element %zu is %.9g, expected %.9g", s.est[k].name.c_str(), i, p.mean[i], m);
      if (sd > 1e-6 && !near(p.sd[i], sd, 2e-6)) fail("reported deviation of %s element %zu is %.9g, expected %.9g", s.est[k].name.c_str(), i, p.sd[i], sd);
    }
  }
  if (s.est.size() > 1) {
    Doc d3(s.est_xml({0}));
    EstimatorSet one{d3.root(), w, ps, double(N)};
    bool th = false;
    try { all += one; } catch (const std::runtime_error&) { th = true; }
    if (!th) fail("a set without a namesake of every estimator is merged");
  }
}
void one_case(Rnd& r) {
  auto s = setup(r);
  note = s.head + s.est_xml({0});
  if (r.coin()) reals(r, s); else sets(r, s);
}
