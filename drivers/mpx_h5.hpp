// Stand-in for the HDF5 C++ interface: only what decides which bytes go where.
#pragma once
#include <string>
#include <cstddef>
typedef unsigned long long hsize_t;
typedef long hid_t;
typedef int H5S_seloper_t;
#define H5_HAVE_PARALLEL 1
enum { H5F_ACC_RDONLY = 0, H5F_ACC_RDWR = 1, H5F_ACC_TRUNC = 2, H5P_DEFAULT = 0, H5S_SELECT_SET = 0, H5P_FILE_ACCESS = 1, H5P_DATASET_XFER = 2, H5FD_MPIO_COLLECTIVE = 1, H5FD_MPIO_INDEPENDENT = 0, H5F_SCOPE_GLOBAL = 1, H5F_SCOPE_LOCAL = 0 };
hid_t H5Pcreate(int);
int H5Lexists(hid_t, const char *, hid_t);
int H5Gcreate(...);
int H5Fflush(...);
int H5Pclose(hid_t);
template <class... T> int H5Pset_fapl_mpio(hid_t, T...);
int H5Pset_dxpl_mpio(hid_t, int);
// dataset, rank, selection in memory and in the file (extents, start, count)
void mpx_h5_write(const void *, const char *, int, const hsize_t *, const hsize_t *, const hsize_t *, const hsize_t *, const hsize_t *, const hsize_t *);
template <class V> void mpx_h5_attr(const char *, const V *);
void mpx_h5_file(const char *, int, int);
namespace H5
{
  struct DataType {};
  struct PredType : DataType
  {
    static const PredType NATIVE_LDOUBLE, NATIVE_DOUBLE, NATIVE_FLOAT, NATIVE_INT, NATIVE_HBOOL, C_S1, NATIVE_CHAR, NATIVE_UINT, NATIVE_LONG;
  };
  struct FloatType : DataType { FloatType() {} FloatType(const PredType &) {} };
  struct IntType : DataType { IntType() {} IntType(const PredType &) {} };
  struct StrType : DataType { StrType() {} StrType(const PredType &) {} template <class T> StrType(const PredType &, const T &) {} template <class T> StrType(int, const T &) {} };
  struct DataSpace
  {
    int n; hsize_t dim[3], start[3], count[3];
    DataSpace() : n(0) {}
    DataSpace(int rank, const hsize_t *d) : n(rank) { for (int i = 0; i < rank; ++i) { dim[i] = d[i]; start[i] = 0; count[i] = d[i]; } }
    DataSpace(const DataSpace &o) { set(o); }
    DataSpace &operator=(const DataSpace &o) { set(o); return *this; }
    void set(const DataSpace &o) { n = o.n; for (int i = 0; i < n; ++i) { dim[i] = o.dim[i]; start[i] = o.start[i]; count[i] = o.count[i]; } }
    void selectHyperslab(int, const hsize_t *c, const hsize_t *o) { for (int i = 0; i < n; ++i) { start[i] = o[i]; count[i] = c[i]; } }
  };
  struct DSetCreatPropList { DSetCreatPropList() {} void setChunk(int, const hsize_t *) {} void setDeflate(int) {} };
  struct Attribute
  {
    std::string name;
    template <class T, class V> void write(const T &, const V *p) const { mpx_h5_attr(name.c_str(), p); }
    template <class T> void write(const T &, const std::string &p) const { mpx_h5_attr(name.c_str(), p.c_str()); }
  };
  struct Object
  {
    template <class T> Attribute createAttribute(const std::string &n, const T &, const DataSpace &) const { Attribute a; a.name = n; return a; }
    bool attrExists(const std::string &) const { return false; }
    void close() {}
    hid_t getId() const { return 0; }
  };
  struct DataSet : Object
  {
    std::string name; DataSpace sp;
    DataSet() {}
    DataSpace getSpace() const { return sp; }
    template <class T> void write(const void *p, const T &, const DataSpace &m, const DataSpace &f, hid_t = 0) const
    { mpx_h5_write(p, name.c_str(), f.n, m.dim, m.start, m.count, f.dim, f.start, f.count); }
    template <class T> void write(const void *p, const T &t) const { write(p, t, sp, sp); }
  };
  struct Group : Object
  {
    DataSet createDataSet(const std::string &n, const DataType &, const DataSpace &s) const { DataSet d; d.name = n; d.sp = s; return d; }
    DataSet createDataSet(const std::string &n, const DataType &, const DataSpace &s, const DSetCreatPropList &) const { DataSet d; d.name = n; d.sp = s; return d; }
    DataSet openDataSet(const std::string &n) const { DataSet d; d.name = n; return d; }
  };
  struct H5File : Group
  {
    H5File() {}
    H5File(const std::string &n, unsigned f) { mpx_h5_file(n.c_str(), f, 0); }
    H5File(const std::string &n, unsigned f, hid_t, hid_t) { mpx_h5_file(n.c_str(), f, 1); }
    bool nameExists(const std::string &) const { return false; }
    Group openGroup(const std::string &) const { return Group(); }
    Group createGroup(const std::string &) const { return Group(); }
  };
}
