#include "run.hpp"
// The solution of a calculation is the sum over histories run one by one from base seed + i.
void one_case(Rnd& r) {
  auto p = problem(r, true, r.coin(), case_no % 8 == 0 ? 3000 : 40);
  Doc d(p.text);
  note = p.text;
  if (!solid(p, source_x(d))) return;
  std::vector<double> got, want;
  FixedSource f{d.root()};
  if (f.batchsize != (unsigned)p.N || f.seed != (unsigned)p.seed || f.threads != (size_t)p.threads) fail("histories %zu seed %zu threads %zu", size_t(f.batchsize), size_t(f.seed), f.threads);
  EstimatorSet all = f.init_estimator_set;
  {
    Quiet q;
    auto s = f.Solve();
    got = scores(s);
    if (s.total_weight != p.N) fail("scores are divided by %g", double(s.total_weight));
  }
  // the order of nuclides within a material depends on their addresses, so the same world is used
  auto& w = f.world;
  auto& ps = f.perturbations;
  Source src{d.root().child("problemtype").child("fixedsource")};
  std::vector<int> order(p.N);
  std::iota(order.begin(), order.end(), 0);
  if (r.coin()) std::shuffle(order.begin(), order.end(), r.g);
  for (int i : order) {
    auto proxy = all.GetProxy();
    std::list<Particle> todo;
    todo.push_back(src.Sample(p.seed + i));
    long n = 0;
    while (!todo.empty()) {
      Particle q = std::move(todo.back());
      todo.pop_back();
      if (++n > 100000) return;
      q.SetPerturbations(ps);
      q.Transport(proxy, w);
      Bank b;
      q.MoveSecondariesTo(b);
      while (!b.empty()) { todo.push_back(b.back()); b.pop_back(); }
    }
    proxy.CommitHistory();
  }
  want = scores(all);
  if (got.size() != want.size()) fail("%zu scores, expected %zu", got.size(), want.size());
  for (size_t i = 0; i < got.size(); ++i)
    if (!near(got[i], want[i], 1e-7, 1e-9)) fail("score %zu is %.17g, the histories run one by one give %.17g", i, got[i], want[i]);
}
