// Wraps the installed MFEM and adds a MUMPSSolver stand-in (this MFEM is built without MUMPS):
// a direct solve of the same assembled system.
#ifndef STANDIN_MFEM_HPP
#define STANDIN_MFEM_HPP
#include_next <mfem.hpp>
#include <stdexcept>
#if defined(MFEM_USE_MPI) && !defined(MFEM_USE_MUMPS)
namespace mfem
{
class MUMPSSolver : public Solver
{
   std::vector<std::vector<double>> lu; std::vector<int> perm, last; int n = 0;
public:
   static inline int deficient = 0;   // negligible pivots of the latest factorisation
   enum MatType { UNSYMMETRIC = 0, SYMMETRIC_POSITIVE_DEFINITE = 1, SYMMETRIC_INDEFINITE = 2 };
   MUMPSSolver(MPI_Comm = MPI_COMM_SELF) {}
   MUMPSSolver(const Operator &op) { SetOperator(op); }
   void SetPrintLevel(int) {}
   void SetMatrixSymType(MatType t) { type = t; }
   void SetReorderingStrategy(int) {}
   void SetOperator(const Operator &op) override
   {
      const HypreParMatrix *A = dynamic_cast<const HypreParMatrix *>(&op);
      MFEM_VERIFY(A, "MUMPSSolver: not a HypreParMatrix");
      SparseMatrix diag; A->GetDiag(diag);
      height = width = n = diag.Height();
      lu.assign(n, std::vector<double>(n, 0.0)); perm.resize(n); last.assign(n, -1);
      double amax = 0.0; deficient = 0;
      for (int i = 0; i < n; i++)
         for (int k = diag.GetI()[i]; k < diag.GetI()[i + 1]; k++)
         {
            int j = diag.GetJ()[k]; double v = diag.GetData()[k];
            amax = std::max(amax, std::fabs(v));
            // MUMPS reads only one triangle of a matrix declared symmetric.
            if (type == UNSYMMETRIC) lu[i][j] += v;
            else if (j <= i) { lu[i][j] += v; if (j < i) lu[j][i] += v; }
         }
      for (int i = 0; i < n; i++) { perm[i] = i; for (int j = 0; j < n; j++) if (lu[i][j] != 0.0) last[i] = j; }
      for (int k = 0; k < n; k++)
      {
         int p = k; for (int i = k + 1; i < n; i++) if (std::fabs(lu[i][k]) > std::fabs(lu[p][k])) p = i;
         if (!std::isfinite(lu[p][k])) throw std::runtime_error("MUMPSSolver: the matrix has entries that are not finite");
         if (!(std::fabs(lu[p][k]) > 1e-12 * amax)) deficient++;
         if (!(std::fabs(lu[p][k]) > 1e-300 * amax)) lu[p][k] = amax > 0. ? 1e-10 * amax : 1.;   // singular (a pressure known up to a constant): any solution of a consistent system
         std::swap(lu[p], lu[k]); std::swap(perm[p], perm[k]); std::swap(last[p], last[k]);
         const double *r = lu[k].data(); const int e = last[k];
         for (int i = k + 1; i < n; i++)
         {
            if (lu[i][k] == 0.0) continue;
            double *w = lu[i].data(); const double f = (w[k] /= r[k]);
            for (int j = k + 1; j <= e; j++) w[j] -= f * r[j];
            last[i] = std::max(last[i], e);
         }
      }
   }
   void Mult(const Vector &b, Vector &x) const override
   {
      MFEM_VERIFY(b.Size() == n && x.Size() == n, "MUMPSSolver: size mismatch");
      Vector y(n);
      for (int i = 0; i < n; i++) { double s = b(perm[i]); const double *r = lu[i].data(); for (int j = 0; j < i; j++) s -= r[j] * y(j); y(i) = s; }
      for (int i = n - 1; i >= 0; i--) { double s = y(i); const double *r = lu[i].data(); for (int j = i + 1; j <= last[i]; j++) s -= r[j] * y(j); y(i) = s / r[i]; }
      for (int i = 0; i < n; i++) x(i) = y(i);
   }
private:
   MatType type = UNSYMMETRIC;
};
}
#endif
#endif
