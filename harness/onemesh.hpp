// One generated mesh with a space on it.
#ifndef ONEMESH_HPP
#define ONEMESH_HPP
#include "system.hpp"
#include "linalg_utils.hpp"
#include "etc.hpp"
#include <complex>
typedef std::complex<double> Z;

struct OneMesh { std::unique_ptr<Mesh> m; int dim; bool simplex, affine; int nb; };
static OneMesh gen_mesh(Gen &g, bool tiny = false)
{
   OneMesh o; o.dim = g.coin(0.35) ? 3 : 2; o.simplex = g.coin(); int n[3]; for (int d = 0; d < 3; d++) n[d] = g.range(1, o.dim == 2 && !tiny ? 3 : 2); if (tiny && o.dim == 3) n[1] = n[2] = 1; if (n[0] * n[1] == 1) n[0] = 2; Rnd r(g.seed());
   std::vector<double> x[3]; for (int d = 0; d < 3; d++) for (int i = 0; i <= n[d]; i++) x[d].push_back(0.4 + i * (0.7 + 0.1 * d)); RawMesh m = raw_grid(o.dim, x, o.simplex, r, [](int, int, int) { return false; });
   double amp = g.coin() ? 0.12 : 0.; for (auto &p : m.x) for (int d = 0; d < o.dim; d++) p[d] += r.uni(-amp, amp); o.affine = o.simplex || amp == 0.;
   for (size_t e = 0; e < m.el.size(); e++) m.el[e].attr = 1 + e % 3; o.nb = g.range(1, 4); int nb = o.nb; raw_boundary(m, [&](const P3 &) { return r.range(1, nb); }); raw_shuffle(m, r, g.coin(0.8)); o.m.reset(raw_to_mesh(m)); int c = g.range(0, 2); if (c) o.m->SetCurvature(c);
   if (c == 2 && o.dim == 2 && amp > 0) { Vector &N = *o.m->GetNodes(); for (int i = 0; i < N.Size(); i++) N[i] += 0.; }
   g.note << o.dim << "D " << (o.simplex ? "simplex " : "tensor ") << o.m->GetNE() << " elements" << (o.affine ? " affine" : "") << " boundary attributes " << nb << " order " << c << "; "; return o;
}
static std::unique_ptr<FiniteElementSpace> gen_space(Gen &g, OneMesh &o, int vdim, int max_order, std::unique_ptr<FiniteElementCollection> &fec, int &order, bool l2only = false)
{
   order = g.range(1, max_order); bool h1 = !l2only && g.coin(0.4); if (h1) fec.reset(new H1_FECollection(order, o.dim)); else fec.reset(new L2_FECollection(order, o.dim, g.coin(0.3) ? BasisType::GaussLobatto : BasisType::GaussLegendre)); int ord = g.coin() ? Ordering::byVDIM : Ordering::byNODES; g.note << (h1 ? "H1" : "L2") << " order " << order << " vdim " << vdim << (ord ? " byVDIM; " : " byNODES; ");
   return std::unique_ptr<FiniteElementSpace>(new FiniteElementSpace(o.m.get(), fec.get(), vdim, ord));
}
static void velocity(Gen &g, FiniteElementSpace &f, Vector &x, int &st) { st = g.range(0, 5); x.SetSize(f.GetVSize()); Rnd r(g.seed()); r.fill(x); if (st == 1) x = 0.; if (st == 2) { Vector c(f.GetVDim()); r.fill(c); VectorConstantCoefficient C(c); GridFunction u(&f, x.GetData()); u.ProjectCoefficient(C); } if (st == 3) x *= 1e-5; if (st >= 4) special(r, f, x.GetData(), st); g.note << "state " << st << "; "; }
static void scatter(SparseMatrix &A, const Array<int> &v, const DenseMatrix &J) { for (int i = 0; i < v.Size(); i++) for (int j = 0; j < v.Size(); j++) A.Add(v[i], v[j], J(i, j)); }
static void same_operator(Operator &A, SparseMatrix &E, double tol, const char *what) { E.Finalize(); Vector e(A.Width()), a(A.Height()), b(A.Height()); for (int j = 0; j < A.Width(); j++) { e = 0.; e[j] = 1.; A.Mult(e, a); E.Mult(e, b); near(a, b, tol, what); } }
// a rule of its own, or one whose points may be nodes or the middle of the element
static IntegrationRule elem_rule(Gen &g, OneMesh &o) { Geometry::Type t = o.m->GetElementBaseGeometry(0); if (g.coin(0.3)) return IntRules.Get(t, 2 * g.range(0, 3) + 1); return gen_rule(g, t, 5); }
static std::vector<double> gather(const Vector &x, const Array<int> &v) { std::vector<double> z; for (int i : v) z.push_back(x[i]); return z; }

// no point where both magnitudes agree, so that the Lax-Friedrichs flux has a gradient
static bool lf_smooth(const std::vector<Pt> &P, const std::vector<double> &z, const FieldVec *ud)
{
   int dim = P[0].x.Size(); if (P[0].ns == 1 && !ud) return true;
   for (auto &p : P) { double m[2] = { 0, 0 }; for (int s = 0; s < p.ns; s++) for (int c = 0; c < dim; c++) { double u = 0; int n = p.N[s].Size(); for (int j = 0; j < n; j++) u += z[(s ? dim * p.N[0].Size() : 0) + c * n + j] * p.N[s][j]; m[s] += u * u; } if (p.ns == 1) { Vector d; ud->at(p.x, d); m[1] = d * d; } if (m[0] + m[1] > 0 && std::abs(std::sqrt(m[0]) - std::sqrt(m[1])) < 1e-9 * (std::sqrt(m[0]) + std::sqrt(m[1]))) return false; }
   return true;
}
#endif
