// explicit instantiations of /repo's templates that the tests use but the library does not
#include "ContinuousMap.hpp"
#include "HDF5DataSet.hpp"
using M1 = NestedContinuousMap<1>::MappedType;
using M2 = NestedContinuousMap<2>::MappedType;
using M3 = NestedContinuousMap<3>::MappedType;
double i1(M1& m, double a) { m[a] = a; return m.at(a); }
double i2(M2& m, double a, double b) { m[a]; return m.at(a, b); }
double i3(M3& m, double a, double b, double c) { m[a]; return m.at(a, b, c); }
M2 i5(HDF5DataSet<2>& d) { return d.ToContinuousMap(); }
M3 i6(HDF5DataSet<3>& d) { return d.ToContinuousMap(); }
double i7(HDF5DataSet<4>& d, size_t a) { return d.at(a, a, a, a); }
HDF5DataSet<4> i8(const std::filesystem::path& p) { return HDF5DataSet<4>{p}; }
double i9(HDF5DataSet<4>& d, size_t a) { return d.GetAxis(a)[0]; }
double i10(HDF5DataSet<1>& d, HDF5DataSet<2>& e, HDF5DataSet<3>& f, size_t a) { return d.at(a) + e.at(a, a) + f.at(a, a, a); }
M1 i11(HDF5DataSet<1>& d) { return d.ToContinuousMap(); }
