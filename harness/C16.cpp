#include "common.hpp"
#include "HDF5DataSet.hpp"
#include "h5.hpp"
static std::vector<double> axis(Rnd& r) {
  std::set<double> s;
  int n = r.in(1, 5);
  while (int(s.size()) < n) s.insert(r.uni(-10, 10));
  return {s.begin(), s.end()};
}
template <size_t D> struct Read {
  template <size_t... K> static double at(const HDF5DataSet<D>& d, const std::vector<size_t>& i, std::index_sequence<K...>) { return d.at(i[K]...); }
};
template <typename M> static double look(const M& m, const double* k) {
  if constexpr (std::is_same_v<M, double>) return m;
  else {
    auto it = m.elements.find(*k);
    if (it == m.elements.end()) fail("axis value %g is not a key of the converted table", *k);
    return look(it->second, k + 1);
  }
}
template <size_t D> static void go(Rnd& r) {
  std::vector<std::vector<double>> axes;
  size_t n = 1;
  for (size_t l = 0; l < D; ++l) { axes.push_back(axis(r)); n *= axes.back().size(); }
  std::vector<double> v(n);
  for (auto& x : v) x = r.uni(-100, 100);
  auto path = scratch("t.hdf5");
  std::string sh;
  for (auto& a : axes) sh += S(a.size()) + " ";
  note = "shape " + sh;
  write_pandas(path, axes, v);
  HDF5DataSet<D> d{path};
  std::vector<size_t> i(D, 0);
  auto m = d.ToContinuousMap();
  for (size_t l = 0; l < D; ++l) if (d.GetAxis(l) != axes[l]) fail("axis %zu is not the stored one", l);
  for (size_t o = 0; o < n; ++o) {
    size_t q = o;
    for (size_t l = D; l-- > 0;) { i[l] = q % axes[l].size(); q /= axes[l].size(); }
    double got = Read<D>::at(d, i, std::make_index_sequence<D>{});
    if (got != v[o]) fail("element %zu: %g returned, %g stored", o, got, v[o]);
    std::vector<double> k;
    for (size_t l = 0; l < D; ++l) k.push_back(axes[l][i[l]]);
    double c = look(m, k.data());
    if (c != v[o]) fail("converted table: element %zu is %g, stored %g", o, c, v[o]);
  }
  size_t l = r.in(0, D - 1);
  i.assign(D, 0);
  i[l] = axes[l].size() + (r.coin() ? 0 : r.in(0, 3));
  bool thrown = false;
  try { Read<D>::at(d, i, std::make_index_sequence<D>{}); } catch (const std::out_of_range&) { thrown = true; }
  if (!thrown) fail("index %zu of axis %zu with %zu values is accepted", i[l], l, axes[l].size());
  if (r.coin(0.2)) {
    bool t2 = false, t3 = false;
    write_pandas(path, axes, v, D + 1);
    try { HDF5DataSet<D> x{path}; } catch (const std::runtime_error&) { t2 = true; }
    unlink(path.c_str());
    try { HDF5DataSet<D> x{path}; } catch (const std::runtime_error&) { t3 = true; }
    if (!t2) fail("a file with another number of levels is accepted");
    if (!t3) fail("a missing file is accepted");
  }
}
void one_case(Rnd& r) {
  switch (r.in(1, 4)) {
  case 1: return go<1>(r);
  case 2: return go<2>(r);
  case 3: return go<3>(r);
  default: return go<4>(r);
  }
}
