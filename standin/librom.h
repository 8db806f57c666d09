// Stand-in for the small part of libROM that scaleupROM calls (libROM is not installed here).
// Written from libROM's documented behaviour; used only to compile and drive /repo's own code.
#ifndef STANDIN_LIBROM_H
#define STANDIN_LIBROM_H
#include "mpi.h"
#include <memory>
#include <string>
#include <vector>
#include <cmath>
#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <map>
#include <hdf5.h>

namespace CAROM
{

class Vector
{
   std::vector<double> v; bool dist;
public:
   Vector() : dist(false) {}
   Vector(int dim, bool distributed) : v(dim, 0.0), dist(distributed) {}
   Vector(const double *d, int dim, bool distributed, bool copy = true) : v(d, d + dim), dist(distributed) {}
   int dim() const { return (int) v.size(); }
   bool distributed() const { return dist; }
   void setSize(int n) { v.resize(n); }
   double &operator()(int i) { assert(i >= 0 && i < dim()); return v[i]; }
   const double &operator()(int i) const { assert(i >= 0 && i < dim()); return v[i]; }
   double &item(int i) { return (*this)(i); }
   const double &item(int i) const { return (*this)(i); }
   double *getData() const { return const_cast<double*>(v.data()); }
   double norm2() const { double s = 0.; for (double x : v) s += x * x; return s; }
   double norm() const { return std::sqrt(norm2()); }
   Vector &operator=(double a) { for (double &x : v) x = a; return *this; }
   Vector &operator-=(const Vector &o) { assert(dim() == o.dim()); for (int i = 0; i < dim(); i++) v[i] -= o.v[i]; return *this; }
   Vector &operator+=(const Vector &o) { assert(dim() == o.dim()); for (int i = 0; i < dim(); i++) v[i] += o.v[i]; return *this; }
   double inner_product(const Vector &o) const { double s = 0.; for (int i = 0; i < dim(); i++) s += v[i] * o.v[i]; return s; }
};

class Matrix // row major, one process holds every row
{
   std::vector<double> a; int nr, nc; bool dist;
public:
   Matrix() : nr(0), nc(0), dist(false) {}
   Matrix(int r, int c, bool distributed) : a((size_t) r * c, 0.0), nr(r), nc(c), dist(distributed) {}
   int numRows() const { return nr; }
   int numColumns() const { return nc; }
   int numDistributedRows() const { return nr; }
   bool distributed() const { return dist; }
   void setSize(int r, int c) { nr = r; nc = c; a.resize((size_t) r * c); }
   double &operator()(int i, int j) { assert(i >= 0 && i < nr && j >= 0 && j < nc); return a[(size_t) i * nc + j]; }
   const double &operator()(int i, int j) const { assert(i >= 0 && i < nr && j >= 0 && j < nc); return a[(size_t) i * nc + j]; }
   double &item(int i, int j) { return (*this)(i, j); }
   const double &item(int i, int j) const { return (*this)(i, j); }
   double *getData() const { return const_cast<double*>(a.data()); }
   void gather() { dist = false; }
   void distribute(int) { dist = true; }
   Matrix &operator=(double x) { for (double &y : a) y = x; return *this; }
   Vector *getColumn(int j) const { Vector *c = new Vector(nr, dist); for (int i = 0; i < nr; i++) (*c)(i) = (*this)(i, j); return c; }
   void getColumn(int j, Vector &c) const { c.setSize(nr); for (int i = 0; i < nr; i++) c(i) = (*this)(i, j); }
   void transposeMult(const Matrix &o, Matrix &r) const
   {
      assert(nr == o.nr); r.setSize(nc, o.nc);
      for (int i = 0; i < nc; i++) for (int j = 0; j < o.nc; j++)
      { double s = 0.; for (int k = 0; k < nr; k++) s += (*this)(k, i) * o(k, j); r(i, j) = s; }
   }
   void transposeMult(const Vector &o, Vector &r) const
   {
      assert(nr == o.dim()); r.setSize(nc);
      for (int i = 0; i < nc; i++) { double s = 0.; for (int k = 0; k < nr; k++) s += (*this)(k, i) * o(k); r(i) = s; }
   }
   void mult(const Vector &o, Vector &r) const
   {
      assert(nc == o.dim()); r.setSize(nr);
      for (int i = 0; i < nr; i++) { double s = 0.; for (int k = 0; k < nc; k++) s += (*this)(i, k) * o(k); r(i) = s; }
   }
};

class Database
{
public:
   enum class formats { HDF5, CSV, HDF5_MPIO };
};

class HDFDatabase : public Database
{
   hid_t f = -1;
   void put(const std::string &k, hid_t type, const void *d, int n)
   {
      hsize_t dim[1] = { (hsize_t) n };
      hid_t sp = H5Screate_simple(1, dim, NULL);
      hid_t ds = H5Dcreate2(f, k.c_str(), type, sp, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
      assert(ds >= 0);
      if (n > 0) { herr_t e = H5Dwrite(ds, type, H5S_ALL, H5S_ALL, H5P_DEFAULT, d); assert(e >= 0); }
      H5Dclose(ds); H5Sclose(sp);
   }
   void get(const std::string &k, hid_t type, void *d, int n)
   {
      if (n == 0) return;
      hid_t ds = H5Dopen2(f, k.c_str(), H5P_DEFAULT); assert(ds >= 0);
      hid_t sp = H5Dget_space(ds);
      assert(H5Sget_select_npoints(sp) == n);
      herr_t e = H5Dread(ds, type, H5S_ALL, H5S_ALL, H5P_DEFAULT, d); assert(e >= 0);
      H5Sclose(sp); H5Dclose(ds);
   }
public:
   bool create(const std::string &fn) { f = H5Fcreate(fn.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); return f >= 0; }
   bool open(const std::string &fn, const std::string &mode) { f = H5Fopen(fn.c_str(), mode == "r" ? H5F_ACC_RDONLY : H5F_ACC_RDWR, H5P_DEFAULT); return f >= 0; }
   bool close() { return H5Fclose(f) >= 0; }
   void putIntegerArray(const std::string &k, const int *d, int n) { put(k, H5T_NATIVE_INT, d, n); }
   void putDoubleArray(const std::string &k, const double *d, int n) { put(k, H5T_NATIVE_DOUBLE, d, n); }
   void getIntegerArray(const std::string &k, int *d, int n) { get(k, H5T_NATIVE_INT, d, n); }
   void getDoubleArray(const std::string &k, double *d, int n) { get(k, H5T_NATIVE_DOUBLE, d, n); }
   void putInteger(const std::string &k, int d) { put(k, H5T_NATIVE_INT, &d, 1); }
   void getInteger(const std::string &k, int &d) { get(k, H5T_NATIVE_INT, &d, 1); }
   int getDoubleArraySize(const std::string &k)
   {
      hid_t ds = H5Dopen2(f, k.c_str(), H5P_DEFAULT); assert(ds >= 0);
      hid_t sp = H5Dget_space(ds); int n = (int) H5Sget_select_npoints(sp);
      H5Sclose(sp); H5Dclose(ds); return n;
   }
};

class Options
{
public:
   Options(int dim_, int max_num_samples_, int = 1, bool update_right_SV_ = false)
      : dim(dim_), max_num_samples(max_num_samples_), update_right_SV(update_right_SV_) {}
   int dim, max_num_samples; bool update_right_SV;
   int max_basis_dimension = -1;
   double singular_value_tol = 0; bool static_svd_preserve_snapshot = false;
};

namespace standin
{
inline std::string fname(const std::string &b) { return b + ".000000"; }
inline void write(const std::string &base, const std::string &kind, const Matrix &m, const Vector *sv)
{
   HDFDatabase db; bool ok = db.create(fname(base)); assert(ok);
   db.putInteger(kind + "_num_rows", m.numRows()); db.putInteger(kind + "_num_cols", m.numColumns());
   db.putDoubleArray(kind, m.getData(), m.numRows() * m.numColumns());
   if (sv) { db.putInteger("singular_value_size", sv->dim()); db.putDoubleArray("singular_value", sv->getData(), sv->dim()); }
   db.close();
}
inline std::shared_ptr<Matrix> read(const std::string &base, const std::string &kind)
{
   HDFDatabase db; bool ok = db.open(fname(base), "r"); assert(ok);
   int r, c; db.getInteger(kind + "_num_rows", r); db.getInteger(kind + "_num_cols", c);
   auto m = std::make_shared<Matrix>(r, c, true);
   db.getDoubleArray(kind, m->getData(), r * c); db.close(); return m;
}
// one-sided Jacobi SVD of the columns of S: left singular vectors and singular values, descending.
inline void svd(const Matrix &S, Matrix &U, Vector &sv)
{
   const int m = S.numRows(), n = S.numColumns();
   std::vector<std::vector<double>> c(n, std::vector<double>(m));
   for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) c[j][i] = S(i, j);
   for (int sweep = 0; sweep < 60; sweep++)
   {
      double off = 0.;
      for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++)
      {
         double a = 0, b = 0, g = 0;
         for (int i = 0; i < m; i++) { a += c[p][i] * c[p][i]; b += c[q][i] * c[q][i]; g += c[p][i] * c[q][i]; }
         if (g == 0. || a == 0. || b == 0.) continue;
         double rel = std::fabs(g) / std::sqrt(a * b); off = std::max(off, rel);
         if (rel < 1e-15) continue;
         double z = (b - a) / (2 * g), t = (z >= 0 ? 1. : -1.) / (std::fabs(z) + std::sqrt(1 + z * z));
         double cs = 1 / std::sqrt(1 + t * t), sn = cs * t;
         for (int i = 0; i < m; i++) { double x = c[p][i], y = c[q][i]; c[p][i] = cs * x - sn * y; c[q][i] = sn * x + cs * y; }
      }
      if (off < 1e-15) break;
   }
   std::vector<std::pair<double, int>> o;
   for (int j = 0; j < n; j++) { double s = 0; for (double x : c[j]) s += x * x; o.push_back({ std::sqrt(s), j }); }
   std::stable_sort(o.begin(), o.end(), [](const std::pair<double,int> &x, const std::pair<double,int> &y) { return x.first > y.first; });
   const int k = std::min(m, n);
   U = Matrix(m, k, true); sv = Vector(k, false);
   std::vector<std::vector<double>> done;
   int e = 0;
   for (int j = 0; j < k; j++)
   {
      sv(j) = o[j].first;
      std::vector<double> u = c[o[j].second];
      bool ok = o[0].first > 0 && o[j].first > 1e-13 * o[0].first;
      // numerically zero singular value: complete with an arbitrary orthonormal vector.
      for (;;)
      {
         if (!ok) { std::fill(u.begin(), u.end(), 0.); u[e++ % m] = 1.; }
         for (int pass = 0; pass < 2; pass++) for (auto &d : done) { double s = 0; for (int i = 0; i < m; i++) s += d[i] * u[i]; for (int i = 0; i < m; i++) u[i] -= s * d[i]; }
         double s = 0; for (double x : u) s += x * x; s = std::sqrt(s);
         if (!ok && s < 1e-3) continue;
         for (double &x : u) x /= s;
         break;
      }
      done.push_back(u);
      for (int i = 0; i < m; i++) U(i, j) = u[i];
   }
}
}

class BasisGenerator
{
   Options opt; std::string base; std::vector<std::vector<double>> cols;
   std::shared_ptr<Matrix> U, snap; std::shared_ptr<Vector> sv; bool fresh = false;
   void compute()
   {
      if (fresh) return;
      U = std::make_shared<Matrix>(); sv = std::make_shared<Vector>();
      standin::svd(*mat(), *U, *sv); fresh = true;
   }
   std::shared_ptr<Matrix> mat()
   {
      auto m = std::make_shared<Matrix>(opt.dim, (int) cols.size(), true);
      for (size_t j = 0; j < cols.size(); j++) for (int i = 0; i < opt.dim; i++) (*m)(i, j) = cols[j][i];
      return m;
   }
public:
   BasisGenerator(Options o, bool incremental, const std::string &base_ = "", Database::formats = Database::formats::HDF5)
      : opt(o), base(base_) { if (incremental) abort(); }
   bool isNextSample(double) { return true; }
   bool takeSample(const double *u, bool = true)
   {
      double s = 0; for (int i = 0; i < opt.dim; i++) s += u[i] * u[i];
      if (!(s > 0.)) return false;                     // libROM refuses a zero sample
      assert((int) cols.size() < opt.max_num_samples); // libROM: maximum number of samples
      cols.push_back(std::vector<double>(u, u + opt.dim)); fresh = false; return true;
   }
   bool takeSample(const double *u, double, double) { return takeSample(u); }
   int getNumSamples() const { return (int) cols.size(); }
   void writeSnapshot() { standin::write(base + "_snapshot", "snapshot_matrix", *mat(), NULL); }
   void endSamples(const std::string & = "basis") { compute(); standin::write(base, "spatial_basis", *U, sv.get()); }
   void loadSamples(const std::string &fn, const std::string &kind = "basis", int cutoff = 1000000000, Database::formats = Database::formats::HDF5)
   {
      assert(kind == "snapshot");
      auto m = standin::read(fn, "snapshot_matrix");
      assert(m->numRows() == opt.dim);
      std::vector<double> c(opt.dim);
      for (int j = 0; j < m->numColumns() && j < cutoff; j++) { for (int i = 0; i < opt.dim; i++) c[i] = (*m)(i, j); takeSample(c.data()); }
   }
   std::shared_ptr<const Matrix> getSpatialBasis() { compute(); return U; }
   std::shared_ptr<const Vector> getSingularValues() { compute(); return sv; }
   std::shared_ptr<const Matrix> getSnapshotMatrix() { snap = mat(); return snap; }
};

class BasisReader
{
   std::string base;
public:
   BasisReader(const std::string &b, Database::formats = Database::formats::HDF5, int = -1) : base(b) {}
   std::unique_ptr<Matrix> getSpatialBasis(int n)
   {
      auto m = standin::read(base, "spatial_basis");
      assert(n > 0 && n <= m->numColumns());
      std::unique_ptr<Matrix> r(new Matrix(m->numRows(), n, true));
      for (int i = 0; i < m->numRows(); i++) for (int j = 0; j < n; j++) (*r)(i, j) = (*m)(i, j);
      return r;
   }
   std::unique_ptr<Matrix> getSpatialBasis()
   { auto m = standin::read(base, "spatial_basis"); return std::unique_ptr<Matrix>(new Matrix(*m)); }
};

inline int split_dimension(const int dim, const MPI_Comm &comm)
{
   int n, r; MPI_Comm_size(comm, &n); MPI_Comm_rank(comm, &r);
   return dim / n + (r < dim % n ? 1 : 0);
}
inline int get_global_offsets(const int local, std::vector<int> &offsets, const MPI_Comm &comm)
{
   int n; MPI_Comm_size(comm, &n);
   std::vector<int> d(n); int l = local;
   MPI_Allgather(&l, 1, MPI_INT, d.data(), 1, MPI_INT, comm);
   offsets.assign(n + 1, 0); for (int i = 0; i < n; i++) offsets[i + 1] = offsets[i] + d[i];
   return offsets[n];
}

enum class NNLS_termination { LINF, L2 };

// Lawson-Hanson: x >= 0 with lb <= Gt^T x <= ub.
class NNLSSolver
{
   int max_outer; NNLS_termination crit;
public:
   NNLSSolver(double = 1e-14, int = 0, int = 0, int = 1, double = 1e-4, double = 1e-14, int n_outer = 100000, int = 100000,
              const NNLS_termination c = NNLS_termination::LINF) : max_outer(n_outer), crit(c) {}
   void solve_parallel_with_scalapack(const Matrix &Gt, const Vector &lb, const Vector &ub, Vector &x)
   {
      const int n = Gt.numRows(), m = Gt.numColumns();
      Vector b(m, false); for (int i = 0; i < m; i++) b(i) = 0.5 * (lb(i) + ub(i));
      std::vector<char> P(n, 0), banned(n, 0);
      x = Vector(n, true);
      Vector r(b);
      double bn = std::max(b.norm(), 1e-300);
      auto done = [&]() {
         if (crit == NNLS_termination::L2)
         { double h = 0, rr = 0; for (int i = 0; i < m; i++) { double t = 0.5 * (ub(i) - lb(i)); h += t * t; rr += r(i) * r(i); } return rr <= h || std::sqrt(rr) <= 1e-13 * bn; }
         for (int i = 0; i < m; i++) if (std::fabs(r(i)) > 0.5 * (ub(i) - lb(i)) + 1e-14 * bn) return false;
         return true; };
      auto ls = [&](const std::vector<int> &id, std::vector<double> &z) {
         // QR by modified Gram-Schmidt (twice) on the columns Gt(id,:)
         const int k = id.size(); std::vector<std::vector<double>> Q; std::vector<std::vector<double>> R(k, std::vector<double>(k, 0.));
         for (int j = 0; j < k; j++)
         {
            std::vector<double> q(m); double nrm0 = 0; for (int i = 0; i < m; i++) { q[i] = Gt(id[j], i); nrm0 += q[i] * q[i]; }
            for (int p = 0; p < 2; p++) for (int l = 0; l < j; l++) { double s = 0; for (int i = 0; i < m; i++) s += Q[l][i] * q[i]; R[l][j] += s; for (int i = 0; i < m; i++) q[i] -= s * Q[l][i]; }
            double s = 0; for (double y : q) s += y * y; s = std::sqrt(s);
            if (s <= 1e-11 * std::sqrt(nrm0)) return false;
            R[j][j] = s; for (double &y : q) y /= s; Q.push_back(q);
         }
         z.assign(k, 0.);
         for (int j = k - 1; j >= 0; j--) { double s = 0; for (int i = 0; i < m; i++) s += Q[j][i] * b(i); for (int l = j + 1; l < k; l++) s -= R[j][l] * z[l]; z[j] = s / R[j][j]; }
         return true; };
      for (int it = 0; it < max_outer && !done(); it++)
      {
         int best = -1; double bw = 1e-14 * bn;
         for (int j = 0; j < n; j++) if (!P[j] && !banned[j])
         { double s = 0, g = 0; for (int i = 0; i < m; i++) { s += Gt(j, i) * r(i); g += Gt(j, i) * Gt(j, i); } if (g > 0 && s / std::sqrt(g) > bw) { bw = s / std::sqrt(g); best = j; } }
         if (best < 0) break;
         P[best] = 1;
         for (;;)
         {
            std::vector<int> id; for (int j = 0; j < n; j++) if (P[j]) id.push_back(j);
            std::vector<double> z;
            if (!ls(id, z)) { P[best] = 0; banned[best] = 1; break; }
            double alpha = 1.; 
            for (size_t l = 0; l < id.size(); l++) if (z[l] <= 0.) alpha = std::min(alpha, x(id[l]) / (x(id[l]) - z[l] + 1e-300));
            bool all = true; for (double y : z) if (y <= 0.) all = false;
            if (all) { for (int j = 0; j < n; j++) x(j) = 0.; for (size_t l = 0; l < id.size(); l++) x(id[l]) = z[l]; std::fill(banned.begin(), banned.end(), 0); break; }
            if (alpha <= 0.) { if (x(best) == 0.) { size_t l = std::find(id.begin(), id.end(), best) - id.begin(); if (z[l] <= 0.) { P[best] = 0; banned[best] = 1; break; } } }
            for (size_t l = 0; l < id.size(); l++) { x(id[l]) += alpha * (z[l] - x(id[l])); if (z[l] <= 0. && x(id[l]) <= 1e-14) { x(id[l]) = 0.; P[id[l]] = 0; } }
         }
         for (int i = 0; i < m; i++) { double s = 0; for (int j = 0; j < n; j++) if (x(j) != 0.) s += Gt(j, i) * x(j); r(i) = b(i) - s; }
      }
   }
};

}  // namespace CAROM
#endif
