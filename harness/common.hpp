#ifndef COMMON_HPP
#define COMMON_HPP
#include "pbt.hpp"
#include "mfem.hpp"
#include <cstring>
using namespace mfem;
using pbt::Gen; using pbt::Rnd;

// exactly the same bits, except that any NaN equals any NaN
inline bool same_bits(double a, double b) { return (std::isnan(a) && std::isnan(b)) || std::memcmp(&a, &b, sizeof a) == 0; }
inline double odd_double(Rnd &r)
{
   switch (r.range(0, 11)) { case 0: return 0.; case 1: return -0.; case 2: return 1e300; case 3: return 5e-324; case 4: return INFINITY; case 5: return r.range(-3, 3); default: return r.uni(-10, 10); }
}
// columns in random (not sorted) order, explicit zeros, empty rows
inline SparseMatrix *rand_sparse(Rnd &r, int h, int w, double dens, bool odd = false)
{
   std::vector<int> I(1, 0), J; std::vector<double> V;
   for (int i = 0; i < h; i++)
   {
      std::vector<int> c; for (int j = 0; j < w; j++) if (r.uni(0, 1) < dens) c.push_back(j);
      for (int k = (int) c.size() - 1; k > 0; k--) std::swap(c[k], c[r.range(0, k)]);
      for (int j : c) { J.push_back(j); V.push_back(odd ? odd_double(r) : r.range(0, 9) ? r.uni(-1, 1) : 0.); }
      I.push_back(J.size());
   }
   int *ip = Memory<int>(h + 1), *jp = Memory<int>(std::max<size_t>(1, J.size())); double *vp = Memory<double>(std::max<size_t>(1, V.size()));
   std::copy(I.begin(), I.end(), ip); std::copy(J.begin(), J.end(), jp); std::copy(V.begin(), V.end(), vp);
   return new SparseMatrix(ip, jp, vp, h, w);
}
inline void to_dense(const SparseMatrix &s, DenseMatrix &d)
{
   d.SetSize(s.Height(), s.Width()); d = 0.; const int *I = s.GetI(), *J = s.GetJ(); const double *V = s.GetData();
   for (int i = 0; i < s.Height(); i++) for (int k = I[i]; k < I[i + 1]; k++) d(i, J[k]) += V[k];
}
inline void same_sparse(const SparseMatrix &a, const SparseMatrix &b, const char *what)
{
   CHECK(a.Height() == b.Height() && a.Width() == b.Width(), "%s: %dx%d, expected %dx%d", what, b.Height(), b.Width(), a.Height(), a.Width());
   DenseMatrix da, db; to_dense(a, da); to_dense(b, db);
   for (int i = 0; i < da.Height(); i++) for (int j = 0; j < da.Width(); j++) CHECK(same_bits(da(i, j), db(i, j)) || da(i, j) == db(i, j), "%s: entry (%d,%d) is %.17g, expected %.17g", what, i, j, db(i, j), da(i, j));
}
inline double max_abs(const Vector &v) { double m = 0; for (int i = 0; i < v.Size(); i++) { if (!std::isfinite(v[i])) return INFINITY; m = std::max(m, std::abs(v[i])); } return m; }
inline double max_abs(const DenseMatrix &d) { double m = 0; for (int i = 0; i < d.Height(); i++) for (int j = 0; j < d.Width(); j++) { if (!std::isfinite(d(i, j))) return INFINITY; m = std::max(m, std::abs(d(i, j))); } return m; }
// |a - b| <= tol * scale everywhere
inline void near(const Vector &a, const Vector &e, double tol, const char *what)
{
   CHECK(a.Size() == e.Size(), "%s: size %d, expected %d", what, a.Size(), e.Size()); double s = std::max(1e-30, max_abs(e));
   CHECK(std::isfinite(s), "%s: reference is not finite", what);
   for (int i = 0; i < a.Size(); i++) CHECK(std::abs(a[i] - e[i]) <= tol * std::max(1., s), "%s: entry %d is %.17g, expected %.17g", what, i, a[i], e[i]);
}
inline void near(const DenseMatrix &a, const DenseMatrix &e, double tol, const char *what)
{
   CHECK(a.Height() == e.Height() && a.Width() == e.Width(), "%s: %dx%d, expected %dx%d", what, a.Height(), a.Width(), e.Height(), e.Width()); double s = max_abs(e);
   CHECK(std::isfinite(s), "%s: reference is not finite", what);
   for (int i = 0; i < a.Height(); i++) for (int j = 0; j < a.Width(); j++) CHECK(std::abs(a(i, j) - e(i, j)) <= tol * std::max(1., s), "%s: entry (%d,%d) is %.17g, expected %.17g", what, i, j, a(i, j), e(i, j));
}
inline void fill(Rnd &r, DenseMatrix &m, double lo = -1, double hi = 1) { for (int j = 0; j < m.Width(); j++) for (int i = 0; i < m.Height(); i++) m(i, j) = r.uni(lo, hi); }
#endif
