// Independent reference for integrals over faces and elements: face points are found by geometry (the physical point
// is inverted into each element), and every form is summed directly from its definition.
#ifndef INTEG_HPP
#define INTEG_HPP
#include "topo.hpp"
#include "interface_form.hpp"
#include "interfaceinteg.hpp"
#include "nonlinear_integ.hpp"
#include "dg_bilinear.hpp"
#include "dg_mixed_bilin.hpp"
#include "dg_linear.hpp"
#include <complex>

// value at x of a smooth positive function, times a factor per element attribute
struct Field { double c[12]; double a[3], b; int kind; // kind 0: constant
   double at(const Vector &x, int attr) const { double s = b; for (int d = 0; d < x.Size(); d++) s += a[d] * x[d]; return c[attr < 12 && attr >= 0 ? attr : 0] * (kind ? 1. + 0.4 * std::sin(s) : 1.); } };
inline Field gen_field(Gen &g, bool per_side)
{ Field f; Rnd r(g.seed()); f.kind = g.range(0, 1); double c0 = r.uni(0.5, 2.); for (double &c : f.c) c = per_side ? r.uni(0.5, 2.) : c0; for (double &a : f.a) a = r.uni(-1, 1); f.b = r.uni(0, 3); return f; }
struct FieldCoef : Coefficient { Field f; FieldCoef(const Field &F) : f(F) {} double Eval(ElementTransformation &T, const IntegrationPoint &ip) override { Vector x; T.Transform(ip, x); return f.at(x, T.Attribute); } };
struct FieldMat : MatrixCoefficient { Field f[9]; FieldMat(int d) : MatrixCoefficient(d) {}
   void at(const Vector &x, int attr, DenseMatrix &M) const { M.SetSize(height); for (int i = 0; i < height; i++) for (int j = 0; j < height; j++) M(i, j) = (i == j ? 2. : 0.3 * (i - 2 * j)) * f[3 * i + j].at(x, attr); }
   void Eval(DenseMatrix &M, ElementTransformation &T, const IntegrationPoint &ip) override { Vector x; T.Transform(ip, x); at(x, T.Attribute, M); } };
struct FieldVec : VectorCoefficient { Field f[3]; FieldVec(int d) : VectorCoefficient(d) {}
   void at(const Vector &x, Vector &v) const { v.SetSize(vdim); for (int i = 0; i < vdim; i++) v[i] = f[i].at(x, 0) - 1.; }
   using VectorCoefficient::Eval; void Eval(Vector &v, ElementTransformation &T, const IntegrationPoint &ip) override { Vector x; T.Transform(ip, x); at(x, v); } };

inline void invert(ElementTransformation &T, const Vector &x, IntegrationPoint &ip)
{
   ip = Geometries.GetCenter(T.GetGeometryType()); int d = x.Size(); Vector y, dx(d);
   for (int it = 0; it < 60; it++)
   {
      T.SetIntPoint(&ip); T.Transform(ip, y); for (int i = 0; i < d; i++) y[i] = x[i] - y[i]; T.InverseJacobian().Mult(y, dx);
      ip.x += dx[0]; ip.y += dx[1]; if (d > 2) ip.z += dx[2]; if (max_abs(dx) < 1e-15) break;
   }
   T.SetIntPoint(&ip); T.Transform(ip, y); y -= x; if (!(max_abs(y) < 1e-10)) throw pbt::Discard();
}
struct Pt { double w; Vector nor, x, N[2]; DenseMatrix G[2]; double det[2]; int attr[2], ns; };
inline void element_at(Mesh &m, int e, const FiniteElement &fe, const Vector &x, Pt &p, int s)
{
   IsoparametricTransformation T; m.GetElementTransformation(e, &T); IntegrationPoint ip; invert(T, x, ip); T.SetIntPoint(&ip);
   p.N[s].SetSize(fe.GetDof()); fe.CalcShape(ip, p.N[s]); p.G[s].SetSize(fe.GetDof(), x.Size()); fe.CalcPhysDShape(T, p.G[s]); p.det[s] = T.Weight(); p.attr[s] = m.GetAttribute(e);
}
// points of face f of mesh m, normal outward of element e
inline std::vector<Pt> face_points(Mesh &m, int f, int e, const IntegrationRule &ir)
{
   std::vector<Pt> P; IsoparametricTransformation F; m.GetFaceTransformation(f, &F); Vector c; m.GetElementCenter(e, c);
   for (int i = 0; i < ir.GetNPoints(); i++)
   {
      Pt p; p.w = ir.IntPoint(i).weight; F.SetIntPoint(&ir.IntPoint(i)); F.Transform(ir.IntPoint(i), p.x); p.nor.SetSize(p.x.Size()); CalcOrtho(F.Jacobian(), p.nor);
      double s = 0; for (int d = 0; d < p.x.Size(); d++) s += (p.x[d] - c[d]) * p.nor[d]; if (s < 0) p.nor *= -1.; p.ns = 1; P.push_back(p);
   }
   return P;
}
inline Geometry::Type face_geom(Mesh &m, int f) { return m.GetFaceGeometry(f); }
inline int be_face(Mesh &m, int be) { return m.GetBdrElementEdgeIndex(be); }
inline int be_elem(Mesh &m, int be) { int e1, e2; m.GetFaceElements(be_face(m, be), &e1, &e2); return e1; }
inline double sgn(int s) { return s ? -1. : 1.; }

// -<{t(u)}, [v]> + sigma <[u], {t(v)}> + kappa <{c/h} [u], [v]>, dofs ordered (side, component, index)
struct Elliptic { int nc; double sigma, kappa; std::function<void(const Pt &, int s, int c, int j, double *t)> flux; std::function<double(const Pt &, int s)> pen; };
inline void elliptic(const std::vector<Pt> &P, const Elliptic &E, DenseMatrix &A)
{
   int ns = P[0].ns, n[2] = { P[0].N[0].Size(), ns > 1 ? P[0].N[1].Size() : 0 }, nc = E.nc, tot = nc * (n[0] + n[1]); A.SetSize(tot); A = 0.;
   for (auto &p : P)
   {
      double half = ns > 1 ? 0.5 : 1., pen = 0, nn = p.nor * p.nor; for (int s = 0; s < ns; s++) pen += half * E.pen(p, s) * nn / p.det[s];
      struct D { int s, c, j; double N, t[3]; }; std::vector<D> ds; for (int s = 0; s < ns; s++) for (int c = 0; c < nc; c++) for (int j = 0; j < n[s]; j++) { D d; d.s = s; d.c = c; d.j = j; d.N = sgn(s) * p.N[s][j]; E.flux(p, s, c, j, d.t); for (int k = 0; k < nc; k++) d.t[k] *= half; ds.push_back(d); }
      for (int a = 0; a < tot; a++) for (int b = 0; b < tot; b++) A(a, b) += p.w * (-ds[a].N * ds[b].t[ds[a].c] + E.sigma * ds[b].N * ds[a].t[ds[b].c] + (ds[a].c == ds[b].c ? E.kappa * pen * ds[a].N * ds[b].N : 0.));
   }
}
inline Elliptic diffusion(int nc, double sigma, double kappa, const Field &q)
{
   return { nc, sigma, kappa, [nc, q](const Pt &p, int s, int c, int j, double *t) { for (int k = 0; k < nc; k++) t[k] = 0; double v = 0; for (int d = 0; d < p.x.Size(); d++) v += p.G[s](j, d) * p.nor[d]; t[c] = q.at(p.x, p.attr[s]) * v; }, [q](const Pt &p, int s) { return q.at(p.x, p.attr[s]); } };
}
inline Elliptic diffusion_m(double sigma, double kappa, FieldMat *M)
{
   return { 1, sigma, kappa, [M](const Pt &p, int s, int, int j, double *t) { DenseMatrix m; M->at(p.x, p.attr[s], m); t[0] = 0; for (int a = 0; a < p.x.Size(); a++) for (int b = 0; b < p.x.Size(); b++) t[0] += p.nor[a] * m(a, b) * p.G[s](j, b); },
      [M](const Pt &p, int s) { DenseMatrix m; M->at(p.x, p.attr[s], m); double v = 0; for (int a = 0; a < p.x.Size(); a++) for (int b = 0; b < p.x.Size(); b++) v += p.nor[a] * m(a, b) * p.nor[b]; return v / (p.nor * p.nor); } };
}
inline Elliptic elasticity(int dim, double alpha, double kappa, const Field &la, const Field &mu)
{
   return { dim, alpha, kappa, [dim, la, mu](const Pt &p, int s, int c, int j, double *t) { double L = la.at(p.x, p.attr[s]), M = mu.at(p.x, p.attr[s]), gn = 0; for (int d = 0; d < dim; d++) gn += p.G[s](j, d) * p.nor[d];
      for (int r = 0; r < dim; r++) t[r] = L * p.G[s](j, c) * p.nor[r] + M * ((r == c ? gn : 0.) + p.G[s](j, r) * p.nor[c]); }, [la, mu](const Pt &p, int s) { return la.at(p.x, p.attr[s]) + 2 * mu.at(p.x, p.attr[s]); } };
}
// <{q}, [u.n]>: rows (side, test index), columns (side, component, trial index); on the boundary <q, u.n>
inline void normal_flux(const std::vector<Pt> &P, const std::vector<Pt> &Q, DenseMatrix &A)
{
   int ns = P[0].ns, dim = P[0].x.Size(), n[2] = { P[0].N[0].Size(), ns > 1 ? P[0].N[1].Size() : 0 }, m[2] = { Q[0].N[0].Size(), ns > 1 ? Q[0].N[1].Size() : 0 }; A.SetSize(m[0] + m[1], dim * (n[0] + n[1])); A = 0.;
   for (size_t k = 0; k < P.size(); k++) for (int I = 0; I < ns; I++) for (int i = 0; i < m[I]; i++) for (int J = 0; J < ns; J++) for (int c = 0; c < dim; c++) for (int j = 0; j < n[J]; j++)
      A((I ? m[0] : 0) + i, (J ? dim * n[0] : 0) + c * n[J] + j) += P[k].w * (ns > 1 ? 0.5 : 1.) * Q[k].N[I][i] * sgn(J) * P[k].N[J][j] * P[k].nor[c];
}
// nonlinear face residuals
enum FaceKind { LAX_FRIEDRICHS, TEMAM_FLUX };
template <class T> T maxmag(const std::vector<T> &a, const std::vector<T> &b) { T x = 0., y = 0.; for (const T &v : a) x += v * v; for (const T &v : b) y += v * v; x = std::sqrt(x); y = std::sqrt(y); return std::real(x) >= std::real(y) ? x : y; }
// x, y: (side, component, index); ud: velocity beyond a Dirichlet boundary
template <class T> void face_residual(FaceKind kind, const std::vector<Pt> &P, const Field &Q, const FieldVec *ud, const std::vector<T> &x, std::vector<T> &y)
{
   int ns = P[0].ns, dim = P[0].x.Size(), n[2] = { P[0].N[0].Size(), ns > 1 ? P[0].N[1].Size() : 0 }; y.assign(x.size(), 0.);
   for (auto &p : P)
   {
      std::vector<T> u[2] = { std::vector<T>(dim, 0.), std::vector<T>(dim, 0.) }; for (int s = 0; s < ns; s++) for (int c = 0; c < dim; c++) for (int j = 0; j < n[s]; j++) u[s][c] += x[(s ? dim * n[0] : 0) + c * n[s] + j] * p.N[s][j];
      bool two = ns > 1; if (!two && ud) { Vector v; ud->at(p.x, v); for (int c = 0; c < dim; c++) u[1][c] = v[c]; }
      T un[2] = { 0., 0. }; for (int s = 0; s < 2; s++) for (int c = 0; c < dim; c++) un[s] += u[s][c] * p.nor[c]; double w = p.w * Q.at(p.x, 0);
      std::vector<T> f[2] = { std::vector<T>(dim, 0.), std::vector<T>(dim, 0.) };   // multiplies the test functions of each side
      if (kind == TEMAM_FLUX) for (int c = 0; c < dim; c++) { if (two) { f[0][c] = -0.5 * un[0] * u[1][c]; f[1][c] = 0.5 * un[0] * u[0][c]; } else f[0][c] = 0.5 * un[0] * u[0][c]; }
      else
      {
         T lam = maxmag(u[0], u[1]) * std::sqrt(p.nor * p.nor);
         for (int c = 0; c < dim; c++) { T fl = two || ud ? 0.5 * (un[0] * u[0][c] + un[1] * u[1][c]) + lam * (u[0][c] - u[1][c]) : un[0] * u[0][c]; f[0][c] = -fl; f[1][c] = fl; }
      }
      for (int s = 0; s < ns; s++) for (int c = 0; c < dim; c++) for (int j = 0; j < n[s]; j++) y[(s ? dim * n[0] : 0) + c * n[s] + j] += w * f[s][c] * p.N[s][j];
   }
}
// derivative of R by the complex step
template <class R> void jacobian(R res, const std::vector<double> &x, DenseMatrix &J)
{
   typedef std::complex<double> C; std::vector<C> z(x.begin(), x.end()), y; int n = x.size(); J.SetSize(n); const double h = 1e-30;
   for (int j = 0; j < n; j++) { z[j] = C(x[j], h); res(z, y); for (int i = 0; i < n; i++) J(i, j) = y[i].imag() / h; z[j] = x[j]; }
}
// nonlinear element residuals; dofs (component, index)
enum ElemKind { CONVECTION, TEMAM, INVISCID };
struct EPt { double w; Vector x, N; DenseMatrix G; };
inline std::vector<EPt> element_points(Mesh &m, int e, const FiniteElement &fe, const IntegrationRule &ir)
{
   std::vector<EPt> P; IsoparametricTransformation T; m.GetElementTransformation(e, &T);
   for (int i = 0; i < ir.GetNPoints(); i++) { EPt p; const IntegrationPoint &ip = ir.IntPoint(i); T.SetIntPoint(&ip); p.w = ip.weight * T.Weight(); T.Transform(ip, p.x); p.N.SetSize(fe.GetDof()); fe.CalcShape(ip, p.N); p.G.SetSize(fe.GetDof(), p.x.Size()); fe.CalcPhysDShape(T, p.G); P.push_back(p); }
   return P;
}
template <class T> void element_residual(ElemKind kind, const std::vector<EPt> &P, const Field &Q, const FieldVec *vq, const std::vector<T> &x, std::vector<T> &y)
{
   int dim = P[0].x.Size(), n = P[0].N.Size(); y.assign(x.size(), 0.);
   for (auto &p : P)
   {
      std::vector<T> u(dim, 0.), a(dim, 0.); T du[3][3]; for (int c = 0; c < dim; c++) for (int d = 0; d < dim; d++) du[c][d] = 0.;
      for (int c = 0; c < dim; c++) for (int j = 0; j < n; j++) { u[c] += x[c * n + j] * p.N[j]; for (int d = 0; d < dim; d++) du[c][d] += x[c * n + j] * p.G(j, d); }
      a = u; if (vq) { Vector v; vq->at(p.x, v); for (int c = 0; c < dim; c++) a[c] = v[c]; }
      double w = p.w * Q.at(p.x, 0);
      for (int c = 0; c < dim; c++) for (int j = 0; j < n; j++)
      {
         T conv = 0., flux = 0.; for (int d = 0; d < dim; d++) { conv += a[d] * du[c][d] * p.N[j]; flux += u[c] * u[d] * p.G(j, d); }
         y[c * n + j] += w * (kind == CONVECTION ? conv : kind == INVISCID ? flux : 0.5 * (conv - flux));
      }
   }
}
#endif
