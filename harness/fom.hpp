// Generated decomposed problems with a configuration a solver can be made from, and polynomial exact solutions.
#ifndef FOM_HPP
#define FOM_HPP
#include "topo.hpp"
#include "integ.hpp"
#include "poisson_solver.hpp"
#include "linelast_solver.hpp"
#include "stokes_solver.hpp"
#include "steady_ns_solver.hpp"
#include "unsteady_ns_solver.hpp"
#include "advdiff_solver.hpp"

struct Poly   // in scaled coordinates x / S
{
   static constexpr double S = 3.; std::map<std::array<int, 3>, double> c;
   double operator()(const Vector &x) const { double s = 0; for (auto &t : c) { double m = t.second; for (int d = 0; d < x.Size(); d++) for (int k = 0; k < t.first[d]; k++) m *= x[d] / S; s += m; } return s; }
   Poly d(int a) const { Poly q; for (auto &t : c) if (t.first[a]) { auto e = t.first; double v = t.second * e[a] / S; e[a]--; q.c[e] += v; } return q; }
   Poly operator+(const Poly &o) const { Poly q = *this; for (auto &t : o.c) q.c[t.first] += t.second; return q; }
   Poly operator*(double s) const { Poly q = *this; for (auto &t : q.c) t.second *= s; return q; }
   Poly operator*(const Poly &o) const { Poly q; for (auto &a : c) for (auto &b : o.c) { std::array<int, 3> e = { a.first[0] + b.first[0], a.first[1] + b.first[1], a.first[2] + b.first[2] }; q.c[e] += a.second * b.second; } return q; }
   static Poly random(Rnd &r, int dim, int deg) { Poly q; for (int i = 0; i <= deg; i++) for (int j = 0; i + j <= deg; j++) for (int k = 0; i + j + k <= deg; k++) { if (dim == 2 && k) continue; q.c[{ i, j, k }] = r.uni(-1, 1); } return q; }
   static Poly lin(const double *n, int dim, double c0) { Poly q; q.c[{ 0, 0, 0 }] = c0; for (int d = 0; d < dim; d++) { std::array<int, 3> e = { 0, 0, 0 }; e[d] = 1; q.c[e] = n[d] * S; } return q; }   // n.x + c0
   Poly of(const std::vector<double> &a) const { Poly q, p; p.c[{ 0, 0, 0 }] = 1; for (double v : a) { q = q + p * v; p = p * *this; } return q; }   // sum a_i (this)^i
};
inline Poly lap(const Poly &u, int dim) { Poly q; for (int d = 0; d < dim; d++) q = q + u.d(d).d(d); return q; }

struct Case { double n[3], c0; bool outlet = false; YAML::Node doc; int dim; bool component; World w; std::unique_ptr<Mesh> whole; int nsub; bool affine; std::string dir; };
inline bool mesh_affine(Mesh &m)
{
   for (int e = 0; e < m.GetNE(); e++) { ElementTransformation *t = m.GetElementTransformation(e); const IntegrationRule &v = *Geometries.GetVertices(t->GetGeometryType()); DenseMatrix J0; for (int i = 0; i < v.GetNPoints(); i++) { t->SetIntPoint(&v.IntPoint(i)); DenseMatrix J = t->Jacobian(); if (!i) J0 = J; J -= J0; if (max_abs(J) > 1e-10) return false; } } return true;
}
// the boundary at the largest n.x gets an attribute of its own
static const int OUTLET = 77;
inline void make_outlet(Case &c)
{
   double th = c.component ? c.w.theta : 0; c.n[0] = std::cos(th); c.n[1] = std::sin(th); c.n[2] = 0; c.c0 = -1e30; auto dot = [&](const P3 &p) { return c.n[0] * p[0] + c.n[1] * p[1]; };
   if (!c.component)
   {
      Mesh &m = *c.whole; for (int i = 0; i < m.GetNV(); i++) c.c0 = std::max(c.c0, dot(vertex_of(m, i)));
      for (int b = 0; b < m.GetNBE(); b++) { Array<int> v; m.GetBdrElementVertices(b, v); bool on = true; for (int i = 0; i < v.Size(); i++) if (dot(vertex_of(m, v[i])) < c.c0 - 1e-9) on = false; if (on) { m.SetBdrAttribute(b, OUTLET); c.outlet = true; } } m.SetAttributes(); return;
   }
   for (size_t m = 0; m < c.w.blocks.size(); m++) for (auto &p : c.w.comps[c.w.blocks[m].comp].raw.x) c.c0 = std::max(c.c0, dot(c.w.place(m, p)));
   for (auto &b : c.w.bdr) { const RawMesh &r = c.w.comps[c.w.blocks[b[1]].comp].raw; bool on = true; for (auto &e : r.be) if (e.attr == b[2]) for (int v : e.v) if (dot(c.w.place(b[1], r.x[v])) < c.c0 - 1e-9) on = false; if (on) { b[0] = OUTLET; c.outlet = true; } }
   c.w.gattr.clear(); for (auto &b : c.w.bdr) c.w.gattr.insert(b[0]);
}
// whole = the undivided mesh, with boundary attributes that the configuration uses
inline Case gen_case(Gen &g, int want = 0 /* 1 submesh 2 component */, int want_dim = 0, int max_blocks = 4, int max_ne = 2, bool rot = true, bool outlet = false)
{
   Case c; c.component = want ? want == 2 : want_dim == 3 || g.coin(0.6); Rnd r(g.seed());
   if (c.component) { c.w = gen_world(g, want_dim, rot, max_blocks, 2, false, max_ne, 1); c.dim = c.w.dim; c.nsub = c.w.blocks.size(); c.dir = c.w.dir; if (outlet) make_outlet(c); write_world(c.w, "", ident(c.w.comps.size()), c.doc); RawMesh m = merge_world(c.w, r, true); c.whole.reset(raw_to_mesh(m)); }
   else
   {
      bool in; c.whole = gen_split(g, c.nsub, in); c.dim = 2; if (!in) throw pbt::Discard(); c.dir = pbt::scratch(); if (outlet) make_outlet(c); std::string f = c.dir + "/whole.mesh"; { std::ofstream o(f); o.precision(17); c.whole->Print(o); }
      c.doc["mesh"]["type"] = "submesh"; c.doc["mesh"]["filename"] = f;
   }
   c.affine = mesh_affine(*c.whole); return c;
}
struct Sol { bool direct, amg; };
inline Sol gen_solver(Gen &g, YAML::Node &doc, bool direct_only = false)
{
   Sol s; s.direct = direct_only || g.coin(0.6); s.amg = g.coin(); doc["solver"]["direct_solve"] = s.direct; doc["solver"]["use_amg"] = s.amg; doc["solver"]["relative_tolerance"] = 1e-13; doc["solver"]["absolute_tolerance"] = 1e-13; doc["solver"]["max_iter"] = 20000;
   if (!s.direct && !s.amg) doc["solver"]["block_diagonal_preconditioner"] = g.coin();
   g.note << (s.direct ? "direct" : s.amg ? "iterative amg" : "iterative") << "; "; return s;
}
// difference of a discrete field and an exact one, largest over the points of a rule in every element; `shift` is subtracted (pressure)
inline double field_error(GridFunction &u, Mesh &m, int vdim, const std::function<void(const Vector &, Vector &)> &F, double &scale)
{
   double err = 0; Vector v(vdim), e(vdim), x;
   for (int k = 0; k < m.GetNE(); k++) { ElementTransformation *T = m.GetElementTransformation(k); const IntegrationRule &ir = IntRules.Get(T->GetGeometryType(), 4); for (int i = 0; i < ir.GetNPoints(); i++) { T->SetIntPoint(&ir.IntPoint(i)); T->Transform(ir.IntPoint(i), x); if (vdim == 1) v[0] = u.GetValue(*T, ir.IntPoint(i)); else u.GetVectorValue(*T, ir.IntPoint(i), v); F(x, e); for (int d = 0; d < vdim; d++) { scale = std::max(scale, std::abs(e[d])); double q = std::abs(v[d] - e[d]); if (!(q <= err)) err = std::isfinite(q) ? q : INFINITY; } } }
   return err;
}
// the same problem on the undivided mesh: one subdomain
inline YAML::Node undivided(const Case &c)
{
   YAML::Node doc = YAML::Clone(c.doc);
   if (c.component)
   {
      World w; w.dim = c.dim; w.dir = c.dir; w.bdr_separate = false; Comp k; k.name = "whole"; k.file = c.dir + "/undivided.mesh"; w.comps.push_back(k); { Mesh m(*c.whole); m.SetCurvature(1, false, c.dim, Ordering::byVDIM); std::ofstream o(k.file); o.precision(17); m.Print(o); }
      Block b; b.comp = 0; for (int d = 0; d < 3; d++) b.t[d] = b.r[d] = 0; w.blocks.push_back(b); for (int a : c.whole->bdr_attributes) w.bdr.push_back({ a, 0, a });
      doc.remove("mesh"); write_world(w, "_undivided", { 0 }, doc);
   }
   else { Mesh m(*c.whole); for (int e = 0; e < m.GetNE(); e++) m.SetAttribute(e, 1); m.SetAttributes(); std::string f = c.dir + "/undivided.mesh"; { std::ofstream o(f); o.precision(17); m.Print(o); } doc["mesh"]["filename"] = f; }
   return doc;
}
// keeps the dense factorisation of a flow problem small
inline void limit_flow(const Case &c, int order) { int n = c.whole->GetNE() * (c.dim == 3 ? 60 : order == 1 ? 18 : 32); if (n > (c.dim == 3 ? 700 : 1000)) throw pbt::Discard(); }
// evaluates a field of one mesh at points of another that has the same elements
struct Locator
{
   Mesh &m; std::vector<std::pair<P3, int>> c; static P3 center(Mesh &m, int e) { Array<int> v; m.GetElementVertices(e, v); P3 q = { 0, 0, 0 }; for (int i = 0; i < v.Size(); i++) { P3 x = vertex_of(m, v[i]); for (int d = 0; d < 3; d++) q[d] += x[d] / v.Size(); } return q; }
   Locator(Mesh &m_) : m(m_) { for (int e = 0; e < m.GetNE(); e++) c.push_back({ center(m, e), e }); }
   int find(const P3 &q) const { int b = -1; double best = 1e30; for (auto &p : c) { double d = 0; for (int k = 0; k < 3; k++) d += std::abs(p.first[k] - q[k]); if (d < best) { best = d; b = p.second; } } if (best > 1e-6) return -1; return b; }
};
// largest difference of two fields, each on a mesh of its own
inline double fields_differ(GridFunction &u, Mesh &mu, GridFunction &v, const Locator &L, int vdim, double &scale)
{
   double err = 0; Vector a(vdim), b(vdim), x;
   for (int k = 0; k < mu.GetNE(); k++)
   {
      int e = L.find(Locator::center(mu, k)); CHECK(e >= 0, "element %d of a subdomain is none of the undivided mesh", k); ElementTransformation *T = mu.GetElementTransformation(k); const IntegrationRule &ir = IntRules.Get(T->GetGeometryType(), 4); std::vector<Vector> xs, as; double loc = 0;
      for (int i = 0; i < ir.GetNPoints(); i++) { T->SetIntPoint(&ir.IntPoint(i)); T->Transform(ir.IntPoint(i), x); xs.push_back(x); if (vdim == 1) a[0] = u.GetValue(*T, ir.IntPoint(i)); else u.GetVectorValue(*T, ir.IntPoint(i), a); as.push_back(a); }
      IsoparametricTransformation T2; L.m.GetElementTransformation(e, &T2);
      for (int i = 0; i < ir.GetNPoints(); i++) { IntegrationPoint ip; T2.TransformBack(xs[i], ip); Vector y; T2.SetIntPoint(&ip); T2.Transform(ip, y); y -= xs[i]; if (!(max_abs(y) < 1e-9)) throw pbt::Discard(); /* MFEM's inverse map did not converge */ T2.SetIntPoint(&ip); if (vdim == 1) b[0] = v.GetValue(T2, ip); else v.GetVectorValue(T2, ip, b); for (int d = 0; d < vdim; d++) { scale = std::max(scale, std::abs(b[d])); double q = std::abs(as[i][d] - b[d]); if (!(q <= loc)) loc = std::isfinite(q) ? q : INFINITY; } }
      err = std::max(err, loc);
   }
   return err;
}
// smooth, not in any space used here
struct Wave { double a[3], k[3], p, s; static Wave random(Rnd &r, double s) { Wave w; for (int d = 0; d < 3; d++) { w.k[d] = r.uni(-1.5, 1.5); } w.p = r.uni(0, 6.28); w.s = s; return w; } double operator()(const Vector &x) const { double q = p; for (int d = 0; d < x.Size(); d++) q += k[d] * x[d]; return s * std::sin(q); } };
inline void one_type(const Case &c) { for (int e = 0; e < c.whole->GetNE(); e++) if (c.whole->GetElementType(e) != c.whole->GetElementType(0)) throw pbt::Discard(); }
#endif
