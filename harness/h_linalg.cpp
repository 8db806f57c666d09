// Dense/sparse projection kernels, tensor contraction, orthonormalisation, block containers, block smoothers.
#include "common.hpp"
#include "linalg_utils.hpp"
#include "block_smoother.hpp"

static void naive_rtap(const DenseMatrix &R, const DenseMatrix &A, const DenseMatrix &P, DenseMatrix &o)
{
   o.SetSize(R.Width(), P.Width());
   for (int i = 0; i < R.Width(); i++) for (int j = 0; j < P.Width(); j++) { double s = 0; for (int a = 0; a < A.Height(); a++) for (int b = 0; b < A.Width(); b++) s += R(a, i) * A(a, b) * P(b, j); o(i, j) = s; }
}
static SparseMatrix *sparse_of(const DenseMatrix &d) { SparseMatrix *s = new SparseMatrix(d.Height(), d.Width()); for (int i = 0; i < d.Height(); i++) for (int j = 0; j < d.Width(); j++) if (d(i, j) != 0.) s->Set(i, j, d(i, j)); s->Finalize(); return s; }
static void dense_of(const SparseMatrix &s, DenseMatrix &d) { d.SetSize(s.Height(), s.Width()); d = 0.; Vector e(s.Width()), c(s.Height()); for (int j = 0; j < s.Width(); j++) { e = 0.; e[j] = 1.; s.Mult(e, c); for (int i = 0; i < s.Height(); i++) d(i, j) = c[i]; } }

PROP(P04, galerkin_projection, 120000, 1600000, "a rectangular operator or different left and right bases, at least 2 columns")
{
   int n = g.size(1, 8, 40), m = g.size(1, 8, 40), r = g.size(1, 5, 20), p = g.size(1, 5, 20); Rnd q(g.seed()); bool sp = g.coin(), sq = g.coin(0.3); if (sq) { m = n; }
   const bool same = sq && g.coin(0.5); if (same) p = r; // one basis object on both sides
   DenseMatrix R(n, r), Pd(m, p), A(n, m); fill(q, R); fill(q, Pd); fill(q, A); DenseMatrix &P = same ? R : Pd; if (sp) for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) if (q.range(0, 1)) A(i, j) = 0.;
   g.note << n << "x" << m << " operator, " << r << " by " << p; g.nontrivial = (r > 1 || p > 1);
   SparseMatrix *S = sparse_of(A); const Operator &Op = sp ? (const Operator &) *S : (const Operator &) A; DenseMatrix e, R0(R), P0(P); naive_rtap(R, A, P, e); double tol = 1e-13;
   DenseMatrix d(3, 2); d = 7.; if (g.coin()) d.SetSize(r, p), d = 7.; RtAP(R, Op, P, d); near(d, e, tol, "RtAP");
   DenseMatrix *dp = DenseRtAP(R, Op, P); near(*dp, e, tol, "dense RtAP"); delete dp;
   SparseMatrix *s = SparseRtAP(R, Op, P); CHECK(s->Finalized(), "sparse result is not finalized"); DenseMatrix sd; dense_of(*s, sd); near(sd, e, tol, "sparse RtAP"); delete s;
   double w = g.coin(0.3) ? 1. : g.real(-3, 3); DenseMatrix b(r, p), be; fill(q, b); be = b; be.Add(w, e); AddwRtAP(R, Op, P, b, w); near(b, be, tol, "weighted add");
   SparseMatrix t(r, p); DenseMatrix tb(r, p); tb = 0.; for (int k = 0; k < 3; k++) { int i = q.range(0, r - 1), j = q.range(0, p - 1); double v = q.uni(-1, 1); t.Set(i, j, v); tb(i, j) = v; } tb.Add(w, e); AddwRtAP(R, Op, P, t, w); t.Finalize(0); dense_of(t, sd); near(sd, tb, tol, "weighted sparse add");
   DenseMatrix dflt(r, p); dflt = 0.; AddwRtAP(R, Op, P, dflt); near(dflt, e, tol, "default weight");
   near(R, R0, 0, "left basis"); near(P, P0, 0, "right basis"); delete S;
   // the library's own containers
   CAROM::Matrix B(m, p, true), C(n, r, true), X(r, p, false); for (int i = 0; i < m; i++) for (int j = 0; j < p; j++) B(i, j) = P(i, j); for (int i = 0; i < n; i++) for (int j = 0; j < r; j++) C(i, j) = R(i, j);
   CAROM::ComputeCtAB(A, B, same ? B : C, X); DenseMatrix x; CAROM::CopyMatrix(X, x); near(x, e, tol, "CtAB");
}

PROP(P04, submatrix_products, 120000, 1600000, "rows repeated or out of order")
{
   int n = g.size(1, 8, 40), c = g.size(1, 6, 24), k = g.size(1, 9, 40); Rnd q(g.seed()); DenseMatrix M(n, c); fill(q, M); Array<int> rows(k); for (int i = 0; i < k; i++) rows[i] = q.range(0, n - 1);
   for (int i = 1; i < k; i++) if (rows[i] <= rows[i - 1]) g.nontrivial = true;
   g.note << n << "x" << c << " rows " << k; Vector x(c), xt(k), y(g.range(0, 3)), e(k), et(c); q.fill(x); q.fill(xt);
   for (int i = 0; i < k; i++) { e[i] = 0; for (int j = 0; j < c; j++) e[i] += M(rows[i], j) * x[j]; }
   for (int j = 0; j < c; j++) { et[j] = 0; for (int i = 0; i < k; i++) et[j] += M(rows[i], j) * xt[i]; }
   y = 5.; MultSubMatrix(M, rows, x, y); near(y, e, 1e-13, "sub-matrix product");
   Vector z(c); z = 9.; MultTransposeSubMatrix(M, rows, xt, z); near(z, et, 1e-13, "transposed product");
   Vector z0(c); q.fill(z0); z = z0; AddMultTransposeSubMatrix(M, rows, xt, z); z0 += et; near(z, z0, 1e-13, "added transposed product");
   int n2 = g.size(1, 8, 40), c2 = g.size(1, 6, 24), k2 = g.size(1, 9, 40); bool same = g.coin(0.3), samerows = same && g.coin(); if (same) n2 = n, c2 = c; if (samerows) k2 = k; // one basis object, one set of rows on both sides
   DenseMatrix Pd(n2, c2), A(k, k2), RS(k, c), PS(k2, c2), ex; fill(q, Pd); fill(q, A); Array<int> prd(k2); for (int i = 0; i < k2; i++) prd[i] = q.range(0, n2 - 1); const DenseMatrix &P = same ? M : Pd; const Array<int> &pr = samerows ? rows : prd;
   for (int i = 0; i < k; i++) for (int j = 0; j < c; j++) RS(i, j) = M(rows[i], j); for (int i = 0; i < k2; i++) for (int j = 0; j < c2; j++) PS(i, j) = P(pr[i], j);
   naive_rtap(RS, A, PS, ex); DenseMatrix o(c, c2), oe; fill(q, o); oe = o; oe += ex; AddSubMatrixRtAP(M, rows, A, P, pr, o); near(o, oe, 1e-13, "added sub-matrix projection");
   AddSubMatrixRtAP(M, rows, A, P, pr, o); oe += ex; near(o, oe, 1e-13, "second added sub-matrix projection");
   SparseMatrix s(c, c2); DenseMatrix se(c, c2), sd; se = 0.; s.Set(0, 0, 2.); se(0, 0) = 2.; se += ex; AddSubMatrixRtAP(M, rows, A, P, pr, s); s.Finalize(0); dense_of(s, sd); near(sd, se, 1e-13, "sparse sub-matrix projection");
   int col = q.range(0, c - 1); Vector be(2); GetBasisElement(M, col, rows, be); CHECK(be.Size() == k, "basis element size"); for (int i = 0; i < k; i++) CHECK(be[i] == M(rows[i], col), "basis element entry %d", i);
   be = 3.; CHECK(M(rows[0], col) != 3., "basis element must be a copy");
   // entries of vector dofs given as -1-i stand for the negative of entry i
   Array<int> sg(rows); int at = q.range(0, k - 1); sg[at] = -1 - sg[at]; GetBasisElement(M, col, sg, be); CHECK(be[at] == -M(rows[at], col), "negated dof");
}

PROP(P04, tensor_contraction, 120000, 1600000, "three different extents")
{
   int I = g.size(1, 6, 20), J = g.size(1, 6, 20), K = g.size(1, 6, 20); Rnd q(g.seed()); g.note << I << "x" << J << "x" << K; g.nontrivial = I != J && J != K && I != K;
   DenseTensor T(I, J, K); for (int i = 0; i < I; i++) for (int j = 0; j < J; j++) for (int k = 0; k < K; k++) T(i, j, k) = q.uni(-1, 1);
   Vector xi(I), xjd(J), xkd(K); q.fill(xi); q.fill(xjd); q.fill(xkd); const bool same = I == J && g.coin(); Vector &xj = same ? xi : xjd, &xk = I == K && g.coin() ? xi : xkd; double w = g.real(-3, 3);
   Vector e(K); DenseMatrix ij(I, J), ik(I, K), kj(K, J), ki(K, I); e = 0.; ij = 0.; ik = 0.; kj = 0.; ki = 0.;
   for (int i = 0; i < I; i++) for (int j = 0; j < J; j++) for (int k = 0; k < K; k++) { double t = T(i, j, k); e[k] += t * xi[i] * xj[j]; ij(i, j) += t * xk[k]; ik(i, k) += t * xj[j]; kj(k, j) += t * xi[i]; ki(k, i) += t * xj[j]; }
   Vector y(g.range(0, 4)); y = 3.; TensorContract(T, xi, xj, y); near(y, e, 1e-13, "contraction");
   Vector z(K), ze(K); q.fill(z); ze = z; ze.Add(w, e); TensorAddScaledContract(T, w, xi, xj, z); near(z, ze, 1e-13, "scaled contraction");
   DenseMatrix m(I, J), me; m = 4.; TensorMult(T, xk, m); near(m, ij, 1e-13, "last axis");
   #define ADD(EX, H, W, CALL, what, f) do { DenseMatrix M(H, W), E; fill(q, M); E = M; E.Add(f, EX); CALL; near(M, E, 1e-13, what); } while (0)
   ADD(ik, I, K, TensorAddMultOnJ(T, xj, M), "middle axis", 1.);
   ADD(kj, K, J, TensorAddMultTranspose(T, xi, 0, M), "transpose, axis 0", 1.);
   ADD(ki, K, I, TensorAddMultTranspose(T, xj, 1, M), "transpose, axis 1", 1.);
   ADD(kj, K, J, TensorAddScaledMultTranspose(T, w, xi, 0, M), "scaled transpose, axis 0", w);
   ADD(ki, K, I, TensorAddScaledMultTranspose(T, w, xj, 1, M), "scaled transpose, axis 1", w);
}

PROP(P05, orthonormalise, 120000, 1600000, "a given space and at least 2 new columns")
{
   int n = g.size(2, 14, 60), big = n > 14 ? 24 : 6, c1 = g.range(0, std::min(big, n - 1)), c = g.range(1, n - c1); if (c > big) c = big; Rnd q(g.seed()); DenseMatrix A(n, c1), B(n, c);
   bool ortho1 = g.coin(); double s1 = g.coin() ? 1. : std::pow(10., g.real(-3, 3)), s2 = g.coin() ? 1. : std::pow(10., g.real(-14, 6));
   // independent columns: a strong diagonal plus noise
   auto ind = [&] (DenseMatrix &M, int off) { fill(q, M, -0.3, 0.3); for (int j = 0; j < M.Width(); j++) M(off + j, j) += 2.; };
   ind(A, 0); ind(B, c1); if (g.coin(0.3)) for (int j = 0; j < c; j++) { Vector v; B.GetColumnReference(j, v); v *= std::pow(10., q.uni(-9, 9)); } if (ortho1 && c1) modifiedGramSchmidt(A); A *= s1; B *= s2;
   // the first basis need only span; the documented use gives orthogonal columns
   if (c1 && !ortho1) { modifiedGramSchmidt(A); for (int j = 0; j < c1; j++) { Vector v; A.GetColumnReference(j, v); v *= s1 * q.uni(.2, 3); } }
   DenseMatrix A0(A), B0(B); g.note << n << " rows, " << c1 << " + " << c; g.nontrivial = c1 > 0 && c > 1;
   if (c1) Orthonormalize(A, B); else modifiedGramSchmidt(B);
   near(A, A0, 0, "given basis"); Vector u, v;
   for (int i = 0; i < c; i++) for (int j = 0; j < c; j++) { B.GetColumnReference(i, u); B.GetColumnReference(j, v); double d = u * v; CHECK(std::abs(d - (i == j)) < 1e-11, "columns %d and %d: inner product %.3g", i, j, d); }
   for (int i = 0; i < c1; i++) for (int j = 0; j < c; j++) { A.GetColumnReference(i, u); B.GetColumnReference(j, v); double d = u * v; CHECK(std::abs(d) < 1e-11 * s1 * 10, "new column %d is not orthogonal to given column %d: %.3g", j, i, d); }
   // span: column j of the input lies in span(A, first j + 1 new columns)
   for (int j = 0; j < c; j++)
   {
      Vector b(n); B0.GetColumn(j, b); double nb = b.Norml2();
      for (int i = 0; i < c1; i++) { A.GetColumnReference(i, u); b.Add(-(b * u) / (u * u), u); }
      for (int i = 0; i <= j; i++) { B.GetColumnReference(i, u); b.Add(-(b * u), u); }
      CHECK(b.Norml2() < 1e-10 * nb, "column %d is not in the span of the given and the new columns: %.3g of %.3g is left", j, b.Norml2(), nb);
   }
}

PROP(P06, add_to_block_matrix, 80000, 1200000, "blocks added at permuted or repeated positions")
{
   int nb = g.size(1, 5, 14), mb = g.size(1, 5, 14); Rnd q(g.seed()); Array<int> ro(nb + 1), co(mb + 1); ro[0] = co[0] = 0; for (int i = 0; i < nb; i++) ro[i + 1] = ro[i] + q.range(1, 3); for (int i = 0; i < mb; i++) co[i + 1] = co[i] + q.range(1, 3);
   BlockMatrix B(ro, co); B.owns_blocks = true; DenseMatrix e(ro.Last(), co.Last()); e = 0.; int adds = g.range(1, 4); g.note << nb << "x" << mb << " blocks, " << adds << " adds";
   for (int t = 0; t < adds; t++)
   {
      int r = g.range(1, nb > 5 ? nb : std::min(3, nb)), c = g.range(1, mb > 5 ? mb : std::min(3, mb)); Array<int> ri(r), ci(c); for (int i = 0; i < r; i++) { ri[i] = q.range(0, nb - 1); if (ri[i] != i) g.nontrivial = true; } for (int i = 0; i < c; i++) ci[i] = q.range(0, mb - 1);
      MatrixBlocks M(r, c);
      for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) if (q.range(0, 2)) { M(i, j) = rand_sparse(q, ro[ri[i] + 1] - ro[ri[i]], co[ci[j] + 1] - co[ci[j]], q.uni(0, 1)); DenseMatrix d; to_dense(*M(i, j), d); for (int a = 0; a < d.Height(); a++) for (int b = 0; b < d.Width(); b++) e(ro[ri[i]] + a, co[ci[j]] + b) += d(a, b); }
      AddToBlockMatrix(ri, ci, M, B);
   }
   B.Finalize(); Vector x(co.Last()), y(ro.Last()), ye(ro.Last()); q.fill(x); y = 0.; ye = 0.; B.Mult(x, y); e.Mult(x, ye); near(y, ye, 1e-13, "assembled block matrix");
}

PROP(P06, set_block, 40000, 400000, "a block strictly inside")
{
   int n = g.size(1, 7, 40), m = g.size(1, 7, 40), i0 = g.range(0, n - 1), j0 = g.range(0, m - 1), i1 = g.range(i0 + 1, n), j1 = g.range(j0 + 1, m); Rnd q(g.seed()); g.note << n << "x" << m << " [" << i0 << "," << i1 << ")x[" << j0 << "," << j1 << ")"; g.nontrivial = i0 > 0 && i1 < n;
   CAROM::Matrix G(n, m, false), B(i1 - i0, j1 - j0, false); CAROM::Vector v(n, false), b(i1 - i0, false);
   for (int i = 0; i < n; i++) { v(i) = 100 + i; for (int j = 0; j < m; j++) G(i, j) = 1000 + i * m + j; }
   for (int i = 0; i < i1 - i0; i++) { b(i) = -1 - i; for (int j = 0; j < j1 - j0; j++) B(i, j) = -1 - i * m - j; }
   CAROM::SetBlock(B, i0, i1, j0, j1, G); CAROM::SetBlock(b, i0, i1, v);
   for (int i = 0; i < n; i++)
   {
      bool in = i >= i0 && i < i1; CHECK(v(i) == (in ? b(i - i0) : 100. + i), "vector entry %d", i);
      for (int j = 0; j < m; j++) CHECK(G(i, j) == (in && j >= j0 && j < j1 ? B(i - i0, j - j0) : 1000. + i * m + j), "matrix entry (%d,%d)", i, j);
   }
}

PROP(P06, matrix_blocks_copy, 80000, 1200000, "a container with a block and an empty place")
{
   int r = g.size(1, 3, 12), c = g.size(1, 3, 12), r2 = g.size(0, 3, 12), c2 = g.size(0, 3, 12); Rnd q(g.seed()); MatrixBlocks A(r, c), B(r2, c2); int set = 0, emp = 0; g.note << r << "x" << c << " into " << r2 << "x" << c2;
   std::vector<DenseMatrix> ref(r * c);
   for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { CHECK(A(i, j) == NULL, "new container is not empty"); if (q.range(0, 2)) { A(i, j) = rand_sparse(q, q.range(1, 3), q.range(1, 3), .7); to_dense(*A(i, j), ref[i * c + j]); set++; } else emp++; }
   for (int i = 0; i < r2; i++) for (int j = 0; j < c2; j++) if (q.range(0, 1)) B(i, j) = rand_sparse(q, 2, 2, .7);
   if (g.coin(0.3)) { MatrixBlocks C(A); B = C; } else B = A;
   B = *&B; CHECK(B.nrows == r && B.ncols == c, "copied size"); g.nontrivial = set && emp;
   auto check = [&] (const MatrixBlocks &M, const char *what) { for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { CHECK((M(i, j) != NULL) == (A(i, j) != NULL), "%s: block (%d,%d)", what, i, j); if (M(i, j)) { DenseMatrix d; to_dense(*M(i, j), d); near(d, ref[i * c + j], 0, what); } } };
   check(B, "copy"); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) if (A(i, j)) CHECK(A(i, j) != B(i, j), "copy shares block (%d,%d)", i, j);
   for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) if (B(i, j)) *B(i, j) = 0.;   // the original does not change with the copy
   check(A, "original"); B.SetSize(2, 1); CHECK(B.nrows == 2 && B.ncols == 1 && !B(0, 0) && !B(1, 0), "resized container"); check(A, "original");
}

// ---------- block smoothers ----------
static BlockMatrix *rand_block(Rnd &q, Array<int> &off, int nb, DenseMatrix &full, int kind)
{
   off.SetSize(nb + 1); off[0] = 0; for (int i = 0; i < nb; i++) off[i + 1] = off[i] + q.range(1, 4); int n = off.Last();
   BlockMatrix *B = new BlockMatrix(off); B->owns_blocks = 1; full.SetSize(n); full = 0.;
   for (int i = 0; i < nb; i++) for (int j = 0; j < nb; j++)
   {
      if (i != j && q.range(0, 3) == 0) continue; // empty off-diagonal block
      SparseMatrix *s = new SparseMatrix(off[i + 1] - off[i], off[j + 1] - off[j]);
      for (int a = 0; a < s->Height(); a++) for (int b = 0; b < s->Width(); b++) { double v = q.uni(-.4, .4); if (i == j && a == b) v = q.range(0, 1) || kind ? 3. + q.uni(0, 1) * nb : -(3. + q.uni(0, 1) * nb); if (i != j && q.range(0, 1)) continue; s->Set(a, b, v); full(off[i] + a, off[j] + b) = v; }
      s->Finalize(); B->SetBlock(i, j, s);
   }
   return B;
}

// y after it sweeps of block Gauss-Seidel (0 symmetric, 1 forward, 2 backward) or one block Jacobi step
static void ref_smooth(const DenseMatrix &A, const Array<int> &off, int which, int type, int it, const Vector &x, Vector &y)
{
   int nb = off.Size() - 1, n = off.Last(); std::vector<DenseMatrix> Di(nb);
   for (int k = 0; k < nb; k++) { int m = off[k + 1] - off[k]; Di[k].SetSize(m); for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) Di[k](i, j) = A(off[k] + i, off[k] + j); Di[k].Invert(); }
   auto solve = [&] (int k, bool off_diag) { int m = off[k + 1] - off[k]; Vector r(m), z(m); for (int i = 0; i < m; i++) { r[i] = x[off[k] + i]; if (off_diag) for (int j = 0; j < n; j++) if (j < off[k] || j >= off[k + 1]) r[i] -= A(off[k] + i, j) * y[j]; } Di[k].Mult(r, z); for (int i = 0; i < m; i++) y[off[k] + i] = z[i]; };
   if (which == 0) { for (int k = 0; k < nb; k++) solve(k, false); return; }
   for (int t = 0; t < it; t++) { if (type != 2) for (int k = 0; k < nb; k++) solve(k, true); if (type != 1) for (int k = nb - 1; k >= 0; k--) solve(k, true); }
}
PROP(P07, smoother_application, 60000, 800000, "2 or more blocks, some of more than one row")
{
   int nb = g.size(1, 5, 14), it = g.size(1, 4, 12); Rnd q(g.seed()); int which = g.range(0, 2) ? 1 : 0, type = which ? g.range(0, 2) : 0; bool iter = which ? g.coin() : false, late = g.coin(), change = g.coin(0.3), refresh = g.coin(0.3);
   Array<int> off; DenseMatrix A; BlockMatrix *B = rand_block(q, off, nb, A, 1); int n = off.Last();
   g.note << nb << " blocks, n=" << n << (which ? " GS type " : " Jacobi type ") << type << " sweeps " << it << (iter ? " iterative" : "") << (late ? " operator set later" : "") << (refresh ? " entries changed" : "") << (change ? " operator replaced" : ""); g.nontrivial = nb > 1 && n > nb;
   BlockSmoother *S = which ? (late ? new BlockGSSmoother(type, it) : new BlockGSSmoother(*B, type, it)) : (BlockSmoother *) (late ? new BlockDSmoother(0, 1) : new BlockDSmoother(*B));
   if (late) S->SetOperator(*B);
   S->iterative_mode = iter;
   for (int rep = 0; rep < (change ? 3 : 2); rep++)
   {
      if (rep == 1 && refresh)   // the same object with other entries
      {
         for (int i = 0; i < B->NumRowBlocks(); i++) for (int j = 0; j < B->NumColBlocks(); j++) { if (B->IsZeroBlock(i, j)) continue; double f = q.uni(.4, 2.) * (q.range(0, 1) ? 1 : -1); B->GetBlock(i, j) *= f; for (int r = off[i]; r < off[i + 1]; r++) for (int c = off[j]; c < off[j + 1]; c++) A(r, c) *= f; }
         S->SetOperator(*B);
      }
      if (rep == 2) { int nb2 = q.range(1, 5); BlockMatrix *C = rand_block(q, off, nb2, A, 1); BlockMatrix *old = B; Array<int> o2(off); B = C; S->SetOperator(*B); delete old; n = off.Last(); }
      CHECK(S->Height() == n && S->Width() == n, "smoother is %dx%d for an operator of size %d", S->Height(), S->Width(), n);
      if (rep && which && q.range(0, 2) == 0) S->iterative_mode = iter = !iter;
      Vector x(n), y(n), e(n), x0; q.fill(x); q.fill(y); int zero = q.range(0, 7); if (zero == 0) x = 0.; else if (zero == 1) for (int b = 0; b + 1 < off.Size(); b++) if (q.range(0, 1)) for (int i = off[b]; i < off[b + 1]; i++) x[i] = 0.; x0 = x; if (iter) e = y; else e = 0.; ref_smooth(A, off, which, type, it, x, e); S->Mult(x, y); near(y, e, 1e-11, "smoothed vector"); near(x, x0, 0, "right-hand side");
      // the solution is a fixed point of every Gauss-Seidel sweep
      if (which && iter) { Vector s(n), r(n), t(n); q.fill(s); A.Mult(s, r); t = s; S->Mult(r, t); near(t, s, 1e-10, "fixed point"); }
   }
   delete S; delete B;
}
PROP(P07, preconditioned_solve, 10000, 100000, "2 or more blocks")
{
   // as a preconditioner it changes the path of the iteration, not the solution
   int nb = g.size(1, 5, 14); Rnd q(g.seed()); int which = g.range(0, 1), type = g.range(0, 2); Array<int> off; DenseMatrix A; BlockMatrix *B = rand_block(q, off, nb, A, 1); int n = off.Last(); g.note << nb << " blocks n=" << n << " " << which << " type " << type; g.nontrivial = nb > 1;
   BlockSmoother *S = which ? (BlockSmoother *) new BlockGSSmoother(*B, type) : new BlockDSmoother(*B); GMRESSolver gm; gm.SetRelTol(1e-13); gm.SetAbsTol(1e-14); gm.SetMaxIter(500); gm.SetKDim(100); gm.SetPrintLevel(-1); gm.SetOperator(*B); gm.SetPreconditioner(*S);
   Vector s(n), b(n), x(n); q.fill(s); A.Mult(s, b); x = 0.; gm.Mult(b, x); CHECK(gm.GetConverged(), "not converged"); near(x, s, 1e-8, "preconditioned solution"); delete S; delete B;
}

// ---------------------------------------------------------------- the residual minimiser
// F(x)_i = (A x)_i + c x_i^3 with A close to the identity times a scale
struct Cubic : public Operator
{
   DenseMatrix A; double c; mutable DenseMatrix J; mutable int evals = 0;
   Cubic(int n) : Operator(n), A(n) {}
   void Mult(const Vector &x, Vector &y) const override { evals++; y.SetSize(height); A.Mult(x, y); for (int i = 0; i < height; i++) y[i] += c * x[i] * x[i] * x[i]; }
   Operator &GetGradient(const Vector &x) const override { J = A; for (int i = 0; i < height; i++) J(i, i) += 3. * c * x[i] * x[i]; return J; }
};
PROP(P08, residual_minimiser, 100000, 1500000, "two or more unknowns, a solution is found")
{
   int calls = g.range(1, 4), found = 0; CGOptimizer opt; std::unique_ptr<Cubic> F; Vector x, b; int n = 0; double rel = std::pow(10., -g.range(1, 5)), abs_tol = g.coin(0.3) ? std::pow(10., -g.range(1, 5)) : 0.; int iters = g.coin(0.3) ? g.range(1, 4) : 2000; opt.SetRelTol(rel); opt.SetAbsTol(abs_tol); opt.SetMaxIter(iters);
   for (int k = 0; k < calls; k++)
   {
      Rnd q(g.seed()); bool again = k && g.coin(0.4), same = again && g.coin(); int from = g.range(0, 3);   // from: 0 zero, 1 random, 2 what is there, 3 the solution
      if (!again) { n = g.size(1, 6, 20); F.reset(new Cubic(n)); fill(q, F->A, -0.3, 0.3); double s = std::pow(10., g.real(-1, 1)); for (int i = 0; i < n; i++) F->A(i, i) += q.uni(1., 2.) + 0.3 * n; F->A *= s; F->c = g.coin() ? 0. : q.uni(0., 0.3) * s; opt.SetOperator(*F); x.SetSize(n); q.fill(x); }
      Vector xs(n), r(n); if (!same) { b.SetSize(n); q.fill(xs); F->Mult(xs, b); } else if (from == 3) from = 2;
      if (from == 0) x = 0.; else if (from == 1) q.fill(x); else if (from == 3) x = xs; Vector b0(b);
      F->Mult(x, r); r -= b; double r0 = r.Norml2(); if (from >= 2 && r0 > 0. && r0 < 1e-3 * b.Norml2()) { if (abs_tol < 2. * r0) continue; }   // closer than the tolerances ask for from here: rounding decides
      g.note << (again ? (same ? "same system" : "same operator") : "new operator") << " n " << n << " from " << from << (F->c ? " cubic" : "") << "; ";
      opt.Mult(b, x); near(b, b0, 0., "right-hand side"); for (int i = 0; i < n; i++) CHECK(std::isfinite(x[i]), "call %d: entry %d of the result is %g (started %g from the right-hand side)", k, i, x[i], r0);
      F->Mult(x, r); r -= b; double r1 = r.Norml2(); CHECK(r1 <= r0 * (1. + 1e-9) + 1e-14 * b.Norml2(), "call %d: the residual grew from %g to %g", k, r0, r1);
      bool ok = r1 < abs_tol || r1 < rel * r0 || r0 == 0., sure = std::abs(r1 - abs_tol) > 1e-9 * abs_tol && std::abs(r1 - rel * r0) > 1e-9 * r0;
      if (sure) CHECK(opt.GetConverged() == ok, "call %d: reports %s with residual %g of %g (tolerances %g, %g)", k, opt.GetConverged() ? "success" : "failure", r1, r0, abs_tol, rel);
      if (iters == 2000) CHECK(ok, "call %d: stopped at residual %g of %g (tolerances %g, %g)", k, r1, r0, abs_tol, rel); found += ok && n > 1;
   }
   g.nontrivial = found > 0;
}
