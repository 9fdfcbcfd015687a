// continuous energy problems with a temperature field, and their reference values
#pragma once
#include "cont.hpp"
#include "Multigroup.hpp"
struct Field { bool lin = false; double c = 0, g[3] = {0, 0, 0}, b = 0, lo = 0, hi = 0; std::string xml; double own = -1;
  double at(double x, double y, double z) const { return lin ? g[0] * x + g[1] * y + g[2] * z + b : c; }
  double top() const { return lin ? hi : c; } };
// points have coordinates in (0.1, 5), (-5, 5), (-5, 5)
inline Field field(Rnd& r, double around) {
  Field f;
  int k = r.in(0, 3);
  double t = r.coin(0.3) ? around * r.uni(0.98, 1.02) : r.coin(0.1) ? 0 : around * r.logu(0.2, 5);
  if (k == 0) { f.c = t; f.own = t; }
  else if (k == 1) { f.c = t; f.xml = "<temperature><constant c='" + S(t) + "'/></temperature>"; }
  else {
    f.lin = true;
    f.b = t + 60;
    for (double& x : f.g) x = r.coin(0.3) ? 0 : r.uni(-5, 5);
    double w = 5 * (std::fabs(f.g[0]) + std::fabs(f.g[1]) + std::fabs(f.g[2]));
    f.b += w;
    f.lo = f.b - w; f.hi = (f.b + w) * (r.coin() ? 1 : r.uni(1, 2));
    f.xml = "<temperature><linear><gradient x='" + S(f.g[0]) + "' y='" + S(f.g[1]) + "' z='" + S(f.g[2]) + "'/><intercept b='" + S(f.b) +
        "'/><bounds lower='" + S(f.lo) + "' upper='" + S(f.hi) + "'/></linear></temperature>";
  }
  return f;
}
inline double reaction_ref(const Reac& q, double awr, double E, double T) {
  double t = q.t.at(E);
  if (q.kind != 1 || (T - q.T) / q.T < 0.01 || !below_cutoff(awr, E, T)) return t;
  return t * freegas(awr, E, T) / freegas(awr, E, q.T);
}
// the tolerance and the cutoff are sharp: nothing is claimed within rounding of them
inline bool sharp(double Te, double T) { return std::fabs((T - Te) / Te - 0.01) < 1e-9; }
inline bool sharp_cut(double awr, double E, double T) { double c = 500 * kB * T / awr; return std::fabs(E - c) < 1e-9 * c; }
