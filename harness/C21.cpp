#include "common.hpp"
#include "Source.hpp"
#include "Particle.hpp"
#include "Point.hpp"
static void get(const Point& p, double* v) { v[0] = p.Dot(Point{1, 0, 0}); v[1] = p.Dot(Point{0, 1, 0}); v[2] = p.Dot(Point{0, 0, 1}); }
static std::string xyz(const double* v) { return "x='" + S(v[0]) + "' y='" + S(v[1]) + "' z='" + S(v[2]) + "'"; }
static double dot(const double* a, const double* b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
void one_case(Rnd& r) {
  double pos[3], dir[3], got[3], ref[3];
  for (auto& c : pos) c = r.uni(-50, 50);
  for (auto& c : dir) c = r.coin(0.25) ? 0 : r.uni(-3, 3);
  if (dir[0] == 0 && dir[1] == 0 && dir[2] == 0) dir[r.in(0, 2)] = r.coin() ? 1 : -2;
  int kind = r.in(0, 2);   // constant, isotropic, flux
  bool mg = r.coin(), neutron = r.coin();
  unsigned long long group = r.coin(0.1) ? (1ull << 40) + 1 : r.in(1, 50);
  double energy = r.logu(1e-11, 20);
  std::string d = kind == 0 ? "<constant " + xyz(dir) + "/>" : kind == 1 ? "<isotropic/>" : "<isotropic-flux " + xyz(dir) + "/>";
  std::string parts[4] = {"<position><constant " + xyz(pos) + "/></position>", "<direction>" + d + "</direction>",
                          "<energy><constant energy='" + (mg ? std::to_string(group) : S(energy)) + "'/></energy>",
                          std::string("<particletype><constant type='") + (neutron ? "neutron" : "photon") + "'/></particletype>"};
  for (int i = 3; i > 0; --i) std::swap(parts[i], parts[r.in(0, i)]);   // xs:all: any order
  std::string x = "<minimc><general><mode><fixedsource>" + parts[0] + parts[1] + parts[2] + parts[3] + "</fixedsource></mode></general><nuclides><" + (mg ? "multigroup" : "continuous") + " name='a'/></nuclides></minimc>";
  Doc doc(x);
  note = x;
  double n = std::sqrt(dot(dir, dir));
  for (int i = 0; i < 3; ++i) ref[i] = dir[i] / n;
  pugi::xml_node node = doc.root().child("general").child("mode").child("fixedsource");
  Source s{node};
  RNG::result_type seed = r.coin(0.1) ? r.in(0, 3) : r.in(0, 2000000000);
  note += " seed " + std::to_string(seed);
  int need = kind ? 4 : 0;
  auto check = [&](RNG::result_type seed, bool full) {
    Particle p = s.Sample(seed);
    get(p.GetPosition(), got);
    for (int i = 0; i < 3; ++i) if (got[i] != pos[i]) fail("position component %d is %.17g", i, got[i]);
    if (p.type != (neutron ? Particle::Type::neutron : Particle::Type::photon)) fail("particle type");
    if (mg) { if (!std::holds_alternative<Group>(p.GetEnergy()) || std::get<Group>(p.GetEnergy()) != group) fail("group is not %llu", group); }
    else if (!std::holds_alternative<ContinuousEnergy>(p.GetEnergy()) || std::get<ContinuousEnergy>(p.GetEnergy()) != energy) fail("energy is not %.17g", energy);
    if (p.event != Particle::Event::birth || p.current_surface || !p.IsAlive()) fail("a source particle must be newly born");
    get(p.GetDirection(), got);
    if (std::fabs(dot(got, got) - 1) > 1e-9) fail("direction has squared length %.17g", dot(got, got));
    if (kind == 0) for (int i = 0; i < 3; ++i) if (std::fabs(got[i] - ref[i]) > 1e-12) fail("direction component %d is %.17g, declared %.17g", i, got[i], ref[i]);
    if (full) {
      Particle q = s.Sample(seed);
      double g2[3];
      get(q.GetDirection(), g2);
      for (int i = 0; i < 3; ++i) if (got[i] != g2[i]) fail("equal seeds, different directions");
      if (!(p.rng == q.rng) || !(p.GetEnergy() == q.GetEnergy())) fail("equal seeds, different particles");
    }
    RNG g{seed};
    int k = 0;
    for (; k < 16 && !(RNG{g()} == p.rng); ++k) {}
    if (k == 16) fail("the particle's generator is not seeded by the history's generator");
    if (k < need) fail("the particle's generator is seeded by output %d of the history's generator, before the other properties were drawn", k);
    return k;
  };
  check(seed, true);
  if (kind && case_no % 60 < 12) {   // distributions
    const int N = 20000, K = 20;
    std::vector<double> hm(K), ha(K), q(16);
    double a[3], e1[3], e2[3];
    for (int i = 0; i < 3; ++i) a[i] = kind == 1 ? (i == 0) : ref[i];
    int m = std::fabs(a[0]) < 0.6 ? 0 : 1;
    for (int i = 0; i < 3; ++i) e1[i] = (i == m) - a[m] * a[i];
    double l = std::sqrt(dot(e1, e1));
    for (auto& c : e1) c /= l;
    e2[0] = a[1] * e1[2] - a[2] * e1[1]; e2[1] = a[2] * e1[0] - a[0] * e1[2]; e2[2] = a[0] * e1[1] - a[1] * e1[0];
    for (int i = 0; i < N; ++i) {
      check(r.g() % 2147483646 + 1, false);
      double mu = dot(got, a), phi = std::atan2(dot(got, e2), dot(got, e1)) / (2 * M_PI) + 0.5;
      if (kind == 2 && mu < -1e-9) fail("isotropic flux against its reference direction: cosine %.17g", mu);
      double u = kind == 1 ? (mu + 1) / 2 : mu * mu;
      int iu = std::min(K - 1, std::max(0, int(u * K))), ip = std::min(K - 1, std::max(0, int(phi * K)));
      hm[iu]++; ha[ip]++; q[iu / 5 * 4 + ip / 5]++;
    }
    struct { std::vector<double>* h; const char* w; } hs[] = {{&hm, "polar cosine"}, {&ha, "azimuth"}, {&q, "pair of polar cosine and azimuth"}};
    for (auto& h : hs) {
      double k = h.h->size(), chi = 0, e = N / k;
      for (double c : *h.h) chi += (c - e) * (c - e) / e;
      if (chi > k + 9 * std::sqrt(2 * k) + 20) fail("%s does not follow the %s distribution: chi2 %.3g over %g classes", h.w, kind == 1 ? "isotropic" : "isotropic flux", chi, k);
    }
  }
}
