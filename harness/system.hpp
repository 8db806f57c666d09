// Generated systems: subdomain meshes with their topology and finite element spaces, and block matrices over them.
#ifndef SYSTEM_HPP
#define SYSTEM_HPP
#include "integ.hpp"

struct Sys
{
   int dim, n; bool component; World w; std::unique_ptr<Mesh> pm; std::unique_ptr<TopologyHandler> T; Array<Mesh *> ms;
   std::vector<std::unique_ptr<FiniteElementCollection>> fec; std::vector<std::unique_ptr<FiniteElementSpace>> own;
   int faces() { int k = 0; for (int p = 0; p < T->GetNumPorts(); p++) k += T->GetInterfaceInfos(p)->Size(); return k; }
   Geometry::Type fgeom() { return dim == 2 ? Geometry::SEGMENT : ms[0]->GetElementType(0) == Element::TETRAHEDRON ? Geometry::TRIANGLE : Geometry::SQUARE; }
   bool affine() { for (int m = 0; m < n; m++) for (int e = 0; e < ms[m]->GetNE(); e++) { ElementTransformation *t = ms[m]->GetElementTransformation(e); Geometry::Type gt = t->GetGeometryType(); const IntegrationRule &v = *Geometries.GetVertices(gt); DenseMatrix J0; for (int i = 0; i < v.GetNPoints(); i++) { t->SetIntPoint(&v.IntPoint(i)); DenseMatrix J = t->Jacobian(); if (!i) J0 = J; J -= J0; if (max_abs(J) > 1e-10) return false; } } return true; }
};
inline std::unique_ptr<Sys> gen_sys(Gen &g, int max_blocks = 4, int max_ne = 2, bool allow_rot = true, int want = 0 /* 1 submesh, 2 component */)
{
   std::unique_ptr<Sys> s(new Sys); s->component = want ? want == 2 : g.coin(0.6);
   if (s->component) { s->w = gen_world(g, 0, allow_rot, max_blocks, 2, false, max_ne); YAML::Node doc; write_world(s->w, "", ident(s->w.comps.size()), doc); set_config(doc); s->T.reset(new ComponentTopologyHandler()); s->dim = s->w.dim; }
   else { int nsub; bool in; s->pm = gen_split(g, nsub, in); if (!in) throw pbt::Discard(); set_config(base(NULL)); s->T.reset(new SubMeshTopologyHandler(s->pm.get())); s->dim = 2; }
   TopologyData td; s->T->ExportInfo(s->ms, td); s->n = s->ms.Size(); for (int m = 0; m < s->n; m++) for (int e = 0; e < s->ms[m]->GetNE(); e++) s->ms[m]->SetAttribute(e, m + 1);
   return s;
}
// one space per subdomain; orders differ when `mixed`
inline Array<FiniteElementSpace *> gen_spaces(Gen &g, Sys &s, int vdim, int max_order, bool allow_h1, int &order, bool mixed_ok = true, int zero = 0)
{
   Array<FiniteElementSpace *> f; bool h1 = allow_h1 && g.coin(0.3); int ord = g.coin() ? Ordering::byVDIM : Ordering::byNODES; order = g.range(zero && !h1 ? 0 : 1, max_order); bool mixed = mixed_ok && g.coin(0.2);
   g.note << (h1 ? "H1" : "L2") << " order " << order << (mixed ? " mixed" : "") << " vdim " << vdim << (ord ? " byVDIM; " : " byNODES; ");
   for (int m = 0; m < s.n; m++)
   {
      int o = mixed && m % 2 ? std::max(1, order - 1) : order;
      if (h1) s.fec.emplace_back(new H1_FECollection(o, s.dim)); else s.fec.emplace_back(new L2_FECollection(o, s.dim, g.coin(0.3) ? BasisType::GaussLobatto : BasisType::GaussLegendre));
      s.own.emplace_back(new FiniteElementSpace(s.ms[m], s.fec.back().get(), vdim, ord)); f.Append(s.own.back().get());
   }
   return f;
}
// states at which something vanishes exactly: flow along one axis, or only few and small integer coefficients
inline void special(Rnd &r, FiniteElementSpace &f, double *x, int st)
{
   int vd = f.GetVDim(), n = f.GetNDofs(), only = r.range(0, vd - 1), one = r.range(-2, 2);
   for (int c = 0; c < vd; c++) for (int i = 0; i < n; i++) { int k = f.DofToVDof(i, c); if (st == 4) { if (c != only) x[k] = 0.; else if (one) x[k] = one; } else x[k] = r.range(0, 3) ? 0. : r.range(-1, 2); }
}
// a quadrature rule with points and weights of its own, symmetric in nothing
inline IntegrationRule gen_rule(Gen &g, Geometry::Type gt, int maxn = 4)
{
   int n = g.range(1, maxn); Rnd r(g.seed()); IntegrationRule ir(n);
   for (int i = 0; i < n; i++) { IntegrationPoint &p = ir.IntPoint(i); double a = r.uni(0.02, 0.98), b = r.uni(0.02, 0.98), c = r.uni(0.02, 0.98); if (gt == Geometry::TRIANGLE && a + b > 1) { a = 1 - a; b = 1 - b; } if (gt == Geometry::TETRAHEDRON) { double s = a + b + c + r.uni(0.02, 1); a /= s; b /= s; c /= s; } p.x = a; p.y = gt == Geometry::SEGMENT ? 0. : b; p.z = gt == Geometry::TETRAHEDRON || gt == Geometry::CUBE ? c : 0.; p.weight = r.uni(0.1, 1.); p.index = i; }
   return ir;
}
// a face rule: points and weights are symmetric (the direction in which a face is run through is not specified), otherwise free
inline IntegrationRule gen_face_rule(Gen &g, Geometry::Type gt)
{
   if (gt != Geometry::SEGMENT) return IntRules.Get(gt, g.range(0, 6));
   int n = g.range(1, 4); Rnd r(g.seed()); IntegrationRule ir(n); for (int i = 0; i < n; i++) { IntegrationPoint &p = ir.IntPoint(i); p.x = 0.5; p.y = p.z = 0; p.weight = r.uni(0.1, 1.); p.index = i; }
   for (int i = 0; 2 * i + 1 < n; i++) { double a = r.uni(0.02, 0.48), w = r.uni(0.1, 1.); IntegrationPoint &p = ir.IntPoint(i), &q = ir.IntPoint(n - 1 - i); p.x = a; q.x = 1 - a; p.weight = q.weight = w; }
   return ir;
}
// block matrices, prefilled with a few entries
struct Blocks
{
   Array2D<SparseMatrix *> m; Blocks(const Array<FiniteElementSpace *> &row, const Array<FiniteElementSpace *> &col, uint64_t seed) { Rnd r(seed); m.SetSize(row.Size(), col.Size()); for (int i = 0; i < row.Size(); i++) for (int j = 0; j < col.Size(); j++) { m(i, j) = new SparseMatrix(row[i]->GetVSize(), col[j]->GetVSize()); for (int k = r.range(0, 3); k > 0; k--) m(i, j)->Add(r.range(0, row[i]->GetVSize() - 1), r.range(0, col[j]->GetVSize() - 1), r.uni(-1, 1)); } }
   ~Blocks() { for (int i = 0; i < m.NumRows(); i++) for (int j = 0; j < m.NumCols(); j++) delete m(i, j); }
};
inline void same_blocks(Blocks &a, Blocks &e, double tol, const char *what)
{
   for (int i = 0; i < a.m.NumRows(); i++) for (int j = 0; j < a.m.NumCols(); j++)
   {
      SparseMatrix &A = *a.m(i, j), &E = *e.m(i, j); if (!A.Finalized()) A.Finalize(); if (!E.Finalized()) E.Finalize(); double sc = std::max(1., E.MaxNorm());
      CHECK(A.Height() == E.Height() && A.Width() == E.Width(), "%s: block (%d,%d) changed size", what, i, j);
      Array<int> c, ce; Vector v, ve; for (int r = 0; r < A.Height(); r++) { std::map<int, double> x; A.GetRow(r, c, v); for (int k = 0; k < c.Size(); k++) x[c[k]] += v[k]; E.GetRow(r, ce, ve); std::map<int, double> y; for (int k = 0; k < ce.Size(); k++) { y[ce[k]] += ve[k]; x[ce[k]] += 0; } for (auto &q : x) CHECK(std::abs(q.second - y[q.first]) <= tol * sc, "%s: block (%d,%d) entry (%d,%d) is %.15g, expected %.15g", what, i, j, r, q.first, q.second, y[q.first]); }
   }
}
// points of interface face I of the pair of meshes, seen from both elements
inline std::vector<Pt> interface_points(Mesh &m1, Mesh &m2, const InterfaceInfo &I, const FiniteElement &f1, const FiniteElement &f2, int e1, int e2, const IntegrationRule &ir)
{
   std::vector<Pt> P = face_points(m1, be_face(m1, I.BE1), e1, ir); for (auto &p : P) { element_at(m1, e1, f1, p.x, p, 0); element_at(m2, e2, f2, p.x, p, 1); p.ns = 2; } return P;
}
template <class F> void for_faces(Sys &s, F f) { for (int p = 0; p < s.T->GetNumPorts(); p++) { const PortInfo *P = s.T->GetPortInfo(p); Array<InterfaceInfo> *L = s.T->GetInterfaceInfos(p); for (int k = 0; k < L->Size(); k++) f(P->Mesh1, P->Mesh2, (*L)[k], be_elem(*s.ms[P->Mesh1], (*L)[k].BE1), be_elem(*s.ms[P->Mesh2], (*L)[k].BE2)); } }
inline DenseMatrix sub(const DenseMatrix &A, int r0, int r1, int c0, int c1) { DenseMatrix B(r1 - r0, c1 - c0); for (int i = r0; i < r1; i++) for (int j = c0; j < c1; j++) B(i - r0, j - c0) = A(i, j); return B; }
inline void add_block(Blocks &B, int m1, int m2, const DenseMatrix &A, const Array<int> &r1, const Array<int> &r2, const Array<int> &c1, const Array<int> &c2)
{
   int m[2] = { m1, m2 }; const Array<int> *R[2] = { &r1, &r2 }, *C[2] = { &c1, &c2 }; int ro = 0;
   for (int i = 0; i < 2; i++) { int co = 0; for (int j = 0; j < 2; j++) { for (int a = 0; a < R[i]->Size(); a++) for (int b = 0; b < C[j]->Size(); b++) B.m(m[i], m[j])->Add((*R[i])[a], (*C[j])[b], A(ro + a, co + b)); co += C[j]->Size(); } ro += R[i]->Size(); }
}
#endif
