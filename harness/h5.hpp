// writes HDF5 files in the layout minimc reads (pandas MultiIndex frame with one column)
#pragma once
#include "H5Cpp.h"
#include <string>
#include <vector>
inline std::string scratch(const std::string& f) {
  const char* d = getenv("TMPDIR");
  return std::string(d ? d : ".") + "/" + f;
}
inline void write_pandas(const std::string& path, const std::vector<std::vector<double>>& axes,
                         const std::vector<double>& values, unsigned long long levels = 0) {
  H5::H5File file(path, H5F_ACC_TRUNC);
  auto g = file.createGroup("/pandas");
  unsigned long long n = levels ? levels : axes.size();
  H5::DataSpace sc(H5S_SCALAR);
  g.createAttribute("axis1_nlevels", H5::PredType::NATIVE_ULLONG, sc).write(H5::PredType::NATIVE_ULLONG, &n);
  for (size_t i = 0; i < axes.size(); ++i) {
    hsize_t d[1] = {axes[i].size()};
    H5::DataSpace sp(1, d);
    g.createDataSet("axis1_level" + std::to_string(i), H5::PredType::NATIVE_DOUBLE, sp).write(axes[i].data(), H5::PredType::NATIVE_DOUBLE);
  }
  hsize_t d[2] = {values.size(), 1};
  H5::DataSpace sp(2, d);
  g.createDataSet("block0_values", H5::PredType::NATIVE_DOUBLE, sp).write(values.data(), H5::PredType::NATIVE_DOUBLE);
}
