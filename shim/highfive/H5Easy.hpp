// Minimal stand-in for the HighFive 3 "H5Easy" interface, on top of the HDF5 C library.
// HighFive itself is not available in the sandbox; only the calls made by /repo/c++ and
// /repo/tools are provided. Nothing in here is part of the code under test.
#ifndef VERIF_SHIM_H5EASY_HPP
#define VERIF_SHIM_H5EASY_HPP
#include <hdf5.h>
#include <Eigen/Dense>
#include <complex>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>
#include <filesystem>
namespace HighFive {
class Exception : public std::runtime_error { public: using std::runtime_error::runtime_error; };
class File {
  hid_t id_ = -1;
  std::string name_;
public:
  enum AccessMode : unsigned { ReadOnly = 0, ReadWrite = 1, Truncate = 2, Overwrite = 2, Excl = 4, Create = 8, OpenOrCreate = 9 };
  explicit File(const std::string &fn, AccessMode mode = ReadOnly) : name_(fn) {
    H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    if (mode == Truncate)
      id_ = H5Fcreate(fn.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
    else if (mode == ReadOnly)
      id_ = H5Fopen(fn.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
    else {
      id_ = H5Fopen(fn.c_str(), H5F_ACC_RDWR, H5P_DEFAULT);
      if (id_ < 0 && (mode & Create)) id_ = H5Fcreate(fn.c_str(), H5F_ACC_EXCL, H5P_DEFAULT, H5P_DEFAULT);
    }
    if (id_ < 0) throw Exception("Unable to open file " + fn);
  }
  File(const File &) = delete;
  File &operator=(const File &) = delete;
  File(File &&o) noexcept : id_(o.id_), name_(std::move(o.name_)) { o.id_ = -1; }
  ~File() { if (id_ >= 0) H5Fclose(id_); }
  hid_t getId() const { return id_; }
  const std::string &getName() const { return name_; }
  void flush() { H5Fflush(id_, H5F_SCOPE_GLOBAL); }
  bool exist(const std::string &path) const { return exists_path(path); }
  bool exists_path(const std::string &path) const {
    std::string cur;
    size_t pos = 0;
    const std::string p = path.empty() || path[0] != '/' ? "/" + path : path;
    while (pos < p.size()) {
      const auto nxt = p.find('/', pos + 1);
      const auto upto = nxt == std::string::npos ? p.size() : nxt;
      cur = p.substr(0, upto);
      if (cur.size() > 1 && cur.back() != '/' && H5Lexists(id_, cur.c_str(), H5P_DEFAULT) <= 0) return false;
      pos = upto;
    }
    return true;
  }
};
} // namespace HighFive
namespace H5Easy {
using HighFive::File;
enum class DumpMode { Create, Overwrite };
namespace shim {
template <typename T> hid_t mem_type() {
  if constexpr (std::is_same_v<T, double>) return H5T_NATIVE_DOUBLE;
  else if constexpr (std::is_same_v<T, float>) return H5T_NATIVE_FLOAT;
  else if constexpr (std::is_same_v<T, long double>) return H5T_NATIVE_LDOUBLE;
  else if constexpr (std::is_same_v<T, bool>) return H5T_NATIVE_HBOOL;
  else if constexpr (std::is_integral_v<T>) {
    if constexpr (std::is_signed_v<T>) return sizeof(T) == 8 ? H5T_NATIVE_INT64 : sizeof(T) == 4 ? H5T_NATIVE_INT32 : sizeof(T) == 2 ? H5T_NATIVE_INT16 : H5T_NATIVE_INT8;
    else return sizeof(T) == 8 ? H5T_NATIVE_UINT64 : sizeof(T) == 4 ? H5T_NATIVE_UINT32 : sizeof(T) == 2 ? H5T_NATIVE_UINT16 : H5T_NATIVE_UINT8;
  }
}
template <typename T> struct is_complex : std::false_type {};
template <typename T> struct is_complex<std::complex<T>> : std::true_type {};
template <typename T> hid_t make_type() { // caller closes
  if constexpr (is_complex<T>::value) {
    using R = typename T::value_type;
    const hid_t t = H5Tcreate(H5T_COMPOUND, sizeof(T));
    H5Tinsert(t, "r", 0, mem_type<R>());
    H5Tinsert(t, "i", sizeof(R), mem_type<R>());
    return t;
  } else return H5Tcopy(mem_type<T>());
}
inline void write(File &f, const std::string &path, hid_t type, int rank, const hsize_t *dims, const void *data, const bool overwrite) {
  if (overwrite && f.exists_path(path)) {
    const hid_t old = H5Dopen2(f.getId(), path.c_str(), H5P_DEFAULT);
    if (old < 0) throw HighFive::Exception("Unable to open dataset " + path);
    const herr_t e = H5Dwrite(old, type, H5S_ALL, H5S_ALL, H5P_DEFAULT, data);
    H5Dclose(old);
    if (e < 0) throw HighFive::Exception("Error writing dataset " + path);
    return;
  }
  const hid_t space = rank ? H5Screate_simple(rank, dims, nullptr) : H5Screate(H5S_SCALAR);
  const hid_t lcpl = H5Pcreate(H5P_LINK_CREATE);
  H5Pset_create_intermediate_group(lcpl, 1);
  const hid_t ds = H5Dcreate2(f.getId(), path.c_str(), type, space, lcpl, H5P_DEFAULT, H5P_DEFAULT);
  H5Pclose(lcpl);
  herr_t e = -1;
  if (ds >= 0) {
    hsize_t n = 1;
    for (int i = 0; i < rank; i++) n *= dims[i];
    e = n ? H5Dwrite(ds, type, H5S_ALL, H5S_ALL, H5P_DEFAULT, data) : 0;
    H5Dclose(ds);
  }
  H5Sclose(space);
  if (e < 0) throw HighFive::Exception("Unable to create or write dataset " + path);
}
} // namespace shim
template <typename T> void dump(File &f, const std::string &path, const std::vector<T> &v, DumpMode mode = DumpMode::Create) {
  const hsize_t n = v.size();
  const bool ow = mode == DumpMode::Overwrite;
  if constexpr (std::is_same_v<T, std::string>) {
    std::vector<const char *> p;
    for (const auto &s : v) p.push_back(s.c_str());
    const hid_t t = H5Tcopy(H5T_C_S1);
    H5Tset_size(t, H5T_VARIABLE);
    H5Tset_cset(t, H5T_CSET_UTF8);
    shim::write(f, path, t, 1, &n, p.data(), ow);
    H5Tclose(t);
  } else {
    const hid_t t = shim::make_type<T>();
    shim::write(f, path, t, 1, &n, v.data(), ow);
    H5Tclose(t);
  }
}
template <typename T, std::enable_if_t<std::is_arithmetic_v<T> || shim::is_complex<T>::value, int> = 0>
void dump(File &f, const std::string &path, const T &x, DumpMode mode = DumpMode::Create) {
  const hid_t t = shim::make_type<T>();
  shim::write(f, path, t, 0, nullptr, &x, mode == DumpMode::Overwrite);
  H5Tclose(t);
}
inline void dump(File &f, const std::string &path, const std::string &x, DumpMode mode = DumpMode::Create) {
  const char *p = x.c_str();
  const hid_t t = H5Tcopy(H5T_C_S1);
  H5Tset_size(t, H5T_VARIABLE);
  H5Tset_cset(t, H5T_CSET_UTF8);
  shim::write(f, path, t, 0, nullptr, &p, mode == DumpMode::Overwrite);
  H5Tclose(t);
}
template <typename D> void dump(File &f, const std::string &path, const Eigen::MatrixBase<D> &m0, DumpMode mode = DumpMode::Create) {
  using T = typename D::Scalar;
  const Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> m = m0;
  const hsize_t d[2] = {hsize_t(m.rows()), hsize_t(m.cols())};
  const hid_t t = shim::make_type<T>();
  shim::write(f, path, t, 2, d, m.data(), mode == DumpMode::Overwrite);
  H5Tclose(t);
}
namespace shim {
template <typename T> struct loader { // scalar
  static T load(const File &f, const std::string &path) {
    const hid_t ds = H5Dopen2(f.getId(), path.c_str(), H5P_DEFAULT);
    if (ds < 0) throw HighFive::Exception("no dataset " + path);
    T x{};
    const hid_t t = make_type<T>();
    const herr_t e = H5Dread(ds, t, H5S_ALL, H5S_ALL, H5P_DEFAULT, &x);
    H5Tclose(t); H5Dclose(ds);
    if (e < 0) throw HighFive::Exception("read error " + path);
    return x;
  }
};
inline std::vector<hsize_t> dims_of(hid_t ds) {
  const hid_t sp = H5Dget_space(ds);
  std::vector<hsize_t> d(std::max(0, H5Sget_simple_extent_ndims(sp)));
  if (!d.empty()) H5Sget_simple_extent_dims(sp, d.data(), nullptr);
  H5Sclose(sp);
  return d;
}
template <typename T> struct loader<std::vector<T>> {
  static std::vector<T> load(const File &f, const std::string &path) {
    const hid_t ds = H5Dopen2(f.getId(), path.c_str(), H5P_DEFAULT);
    if (ds < 0) throw HighFive::Exception("no dataset " + path);
    const auto d = dims_of(ds);
    if (d.size() != 1) { H5Dclose(ds); throw HighFive::Exception("not a vector: " + path); }
    herr_t e = 0;
    std::vector<T> v(d[0]);
    if constexpr (std::is_same_v<T, std::string>) {
      std::vector<char *> p(d[0], nullptr);
      const hid_t t = H5Tcopy(H5T_C_S1);
      H5Tset_size(t, H5T_VARIABLE);
      H5Tset_cset(t, H5T_CSET_UTF8);
      if (d[0]) e = H5Dread(ds, t, H5S_ALL, H5S_ALL, H5P_DEFAULT, p.data());
      for (size_t i = 0; i < p.size(); i++) if (p[i]) { v[i] = p[i]; H5free_memory(p[i]); }
      H5Tclose(t);
    } else {
      const hid_t t = make_type<T>();
      if (d[0]) e = H5Dread(ds, t, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data());
      H5Tclose(t);
    }
    H5Dclose(ds);
    if (e < 0) throw HighFive::Exception("read error " + path);
    return v;
  }
};
template <typename T, int R, int C, int O> struct loader<Eigen::Matrix<T, R, C, O>> {
  static Eigen::Matrix<T, R, C, O> load(const File &f, const std::string &path) {
    const hid_t ds = H5Dopen2(f.getId(), path.c_str(), H5P_DEFAULT);
    if (ds < 0) throw HighFive::Exception("no dataset " + path);
    const auto d = dims_of(ds);
    if (d.size() != 2) { H5Dclose(ds); throw HighFive::Exception("not a matrix: " + path); }
    Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> m(d[0], d[1]);
    const hid_t t = make_type<T>();
    const herr_t e = d[0] * d[1] ? H5Dread(ds, t, H5S_ALL, H5S_ALL, H5P_DEFAULT, m.data()) : 0;
    H5Tclose(t); H5Dclose(ds);
    if (e < 0) throw HighFive::Exception("read error " + path);
    return m;
  }
};
} // namespace shim
template <typename T> T load(const File &f, const std::string &path) { return shim::loader<T>::load(f, path); }
} // namespace H5Easy
#endif
