// Nonlinear and linear integrators on one mesh against their definition; quadrature-wise (EQP) evaluation.
#include "onemesh.hpp"

PROP(P24, domain_terms, 5000, 60000, "the state is not zero")
{
   OneMesh o = gen_mesh(g, true); std::unique_ptr<FiniteElementCollection> fec; int order, st; auto f = gen_space(g, o, o.dim, o.dim == 3 ? 2 : 3, fec, order); Vector x; velocity(g, *f, x, st); ElemKind k = (ElemKind) g.range(0, 2); bool vq = k == CONVECTION && g.coin(0.3);
   bool dflt = o.affine && g.coin(0.4); Field q = gen_field(g, false); if (dflt) q.kind = 0; FieldCoef Q(q); FieldVec VQ(o.dim); for (auto &c : VQ.f) { c = gen_field(g, false); if (dflt) c.kind = 0; } IntegrationRule own = elem_rule(g, o); const IntegrationRule &ir = dflt ? IntRules.Get(own.Size() ? o.m->GetElementBaseGeometry(0) : Geometry::SQUARE, 3 * order + 3) : own; g.note << "kind " << k << (vq ? " given velocity" : "") << (dflt ? " default rule" : "");
   NonlinearForm form(f.get()); NonlinearFormIntegrator *I; if (k == CONVECTION) I = new VectorConvectionTrilinearFormIntegrator(Q, vq ? &VQ : NULL); else if (k == TEMAM) I = new TemamTrilinearFormIntegrator(Q); else I = new IncompressibleInviscidFluxNLFIntegrator(Q); if (!dflt) I->SetIntRule(&own); form.AddDomainIntegrator(I);
   Vector y(x.Size()), e(x.Size()); e = 0.; SparseMatrix E(x.Size());
   for (int el = 0; el < o.m->GetNE(); el++)
   {
      auto P = element_points(*o.m, el, *f->GetFE(el), ir); Array<int> v; f->GetElementVDofs(el, v); std::vector<double> z = gather(x, v), w; element_residual(k, P, q, vq ? &VQ : NULL, z, w); for (int i = 0; i < v.Size(); i++) e[v[i]] += w[i];
      DenseMatrix J; jacobian([&](const std::vector<Z> &a, std::vector<Z> &b) { element_residual(k, P, q, vq ? &VQ : NULL, a, b); }, z, J); scatter(E, v, J);
   }
   form.Mult(x, y); near(y, e, 1e-10, "residual"); Operator &G = form.GetGradient(x); same_operator(G, E, 1e-10, "gradient");
   if (k == TEMAM) { double s = y * x; CHECK(std::abs(s) < 1e-11 * std::max(1., y.Norml2() * x.Norml2()), "Temam's form does work %g on the state", s); }
   g.nontrivial = st != 1;
}

PROP(P24, face_terms, 4000, 50000, "the state is not zero and the form has a face")
{
   OneMesh o = gen_mesh(g, true); std::unique_ptr<FiniteElementCollection> fec; int order, st; auto f = gen_space(g, o, o.dim, o.dim == 3 ? 2 : 3, fec, order); Vector x; velocity(g, *f, x, st); FaceKind k = (FaceKind) g.range(0, 1); int where = g.range(0, 2); bool ud = k == LAX_FRIEDRICHS && where && g.coin();   // 0 interior 1 boundary 2 marked boundary
   Field q = gen_field(g, false); FieldCoef Q(q); FieldVec UD(o.dim); for (auto &c : UD.f) c = gen_field(g, false); Geometry::Type fg = o.dim == 2 ? Geometry::SEGMENT : o.simplex ? Geometry::TRIANGLE : Geometry::SQUARE; IntegrationRule ir = gen_face_rule(g, fg); g.note << (k ? "Temam" : "Lax-Friedrichs") << " where " << where << (ud ? " Dirichlet" : "");
   auto make = [&]() { NonlinearFormIntegrator *I; if (k == TEMAM_FLUX) I = new DGTemamFluxIntegrator(Q); else I = new DGLaxFriedrichsFluxIntegrator(Q, ud ? &UD : NULL); I->SetIntRule(&ir); return I; };
   NonlinearForm form(f.get()); Array<int> mark(o.m->bdr_attributes.Max()); mark = 1; if (where == 2) for (int &i : mark) i = g.range(0, 1); if (where == 0) form.AddInteriorFaceIntegrator(make()); else if (where == 1) form.AddBdrFaceIntegrator(make()); else form.AddBdrFaceIntegrator(make(), mark);
   Vector y(x.Size()), e(x.Size()); e = 0.; SparseMatrix E(x.Size()); bool bad = false; int nf = 0;
   auto face = [&](int fc, int e1, int e2) {
      auto P = face_points(*o.m, fc, e1, ir); Array<int> v, v2; f->GetElementVDofs(e1, v); for (auto &p : P) { element_at(*o.m, e1, *f->GetFE(e1), p.x, p, 0); if (e2 >= 0) { element_at(*o.m, e2, *f->GetFE(e2), p.x, p, 1); p.ns = 2; } } if (e2 >= 0) { f->GetElementVDofs(e2, v2); v.Append(v2); }
      std::vector<double> z = gather(x, v), w; face_residual(k, P, q, ud ? &UD : NULL, z, w); for (int i = 0; i < v.Size(); i++) e[v[i]] += w[i]; nf++;
      if (k == LAX_FRIEDRICHS && (e2 >= 0 || ud)) for (auto &p : P) { double m[2] = { 0, 0 }; for (int s = 0; s < p.ns; s++) for (int c = 0; c < o.dim; c++) { double u = 0; int n = p.N[s].Size(); for (int j = 0; j < n; j++) u += z[(s ? o.dim * p.N[0].Size() : 0) + c * n + j] * p.N[s][j]; m[s] += u * u; } if (ud) { Vector d; UD.at(p.x, d); m[1] = d * d; } if (m[0] + m[1] > 0 && std::abs(std::sqrt(m[0]) - std::sqrt(m[1])) < 1e-9 * (std::sqrt(m[0]) + std::sqrt(m[1]))) bad = true; }
      DenseMatrix J; jacobian([&](const std::vector<Z> &a, std::vector<Z> &b) { face_residual(k, P, q, ud ? &UD : NULL, a, b); }, z, J); scatter(E, v, J); };
   if (where == 0) { for (int i = 0; i < o.m->GetNumFaces(); i++) { int e1, e2; o.m->GetFaceElements(i, &e1, &e2); if (e2 >= 0) face(i, e1, e2); } }
   else for (int b = 0; b < o.m->GetNBE(); b++) if (mark[o.m->GetBdrAttribute(b) - 1]) face(be_face(*o.m, b), be_elem(*o.m, b), -1);
   form.Mult(x, y); near(y, e, 1e-10, "residual"); if (!bad) { Operator &G = form.GetGradient(x); same_operator(G, E, 1e-10, "gradient"); } g.label(bad ? "gradient not defined" : "gradient checked"); g.nontrivial = st != 1 && nf;
}

PROP(P24, gradient_is_derivative, 3000, 40000, "the state is not zero")
{  // all terms together, default rules
   OneMesh o = gen_mesh(g, true); std::unique_ptr<FiniteElementCollection> fec; int order, st; auto f = gen_space(g, o, o.dim, o.dim == 3 ? 2 : 3, fec, order); Vector x, d; velocity(g, *f, x, st); d.SetSize(x.Size()); Rnd r(g.seed()); r.fill(d); Field q = gen_field(g, false); FieldCoef Q(q);
   NonlinearForm form(f.get()); int terms = 0, mask = g.range(1, 31); if (mask & 1) form.AddDomainIntegrator(new TemamTrilinearFormIntegrator(Q)); if (mask & 2) form.AddDomainIntegrator(new IncompressibleInviscidFluxNLFIntegrator(Q)); if (mask & 4) form.AddDomainIntegrator(new VectorConvectionTrilinearFormIntegrator(Q)); if (mask & 8) form.AddInteriorFaceIntegrator(new DGTemamFluxIntegrator(Q)); if (mask & 16) form.AddBdrFaceIntegrator(g.coin() ? (NonlinearFormIntegrator *) new DGTemamFluxIntegrator(Q) : new DGLaxFriedrichsFluxIntegrator(Q)); (void) terms; g.note << "terms " << mask;
   Vector a(x), y1(x.Size()), y2(x.Size()), gd(x.Size()); a.Add(1., d); form.Mult(a, y1); a.Add(-2., d); form.Mult(a, y2); y1 -= y2; y1 *= 0.5; form.GetGradient(x).Mult(d, gd); near(gd, y1, 1e-10, "gradient times a direction");   // quadratic forms: the central difference is exact
   if (!(mask & ~9)) { Vector y(x.Size()); form.Mult(x, y); double s = y * x; CHECK(std::abs(s) < 1e-11 * std::max(1., y.Norml2() * x.Norml2()), "Temam's terms do work %g on the state", s); }
   g.nontrivial = st != 1;
}

// ---------------------------------------------------------------- quadrature-wise and precomputed (EQP) evaluation
struct Reduced { DenseMatrix phi; Vector x, full; };   // basis restricted to the element(s), reduced state, full state
static Reduced gen_reduced(Rnd &r, int n, bool zero, int dim = 1, int n1 = 0)
{
   Reduced R; int nb = r.range(1, 4), kind = r.range(0, 5), only = r.range(0, dim - 1); R.phi.SetSize(n, nb); fill(r, R.phi); R.x.SetSize(nb); r.fill(R.x); if (!n1) n1 = n;
   for (int i = 0; i < n; i++) for (int j = 0; j < nb; j++) { if (kind == 1) R.phi(i, j) = r.range(0, 3) ? 0. : r.range(-1, 2); int c = i < n1 ? i * dim / n1 : (i - n1) * dim / (n - n1); if (kind == 2 && c != only) R.phi(i, j) = 0.; }   // flow along one axis, or with few small integers
   if (zero) R.x = 0.; R.full.SetSize(n); R.phi.Mult(R.x, R.full); return R; }
// velocity of each basis vector, and its gradient du_i/dx_j, at one point of one element; rows start..: the element's part of phi
static DenseMatrix *values(const Reduced &R, int start, const Vector &N, int dim) { int n = N.Size(), nb = R.phi.Width(); DenseMatrix *S = new DenseMatrix(dim, nb); *S = 0.; for (int k = 0; k < nb; k++) for (int c = 0; c < dim; c++) for (int j = 0; j < n; j++) (*S)(c, k) += R.phi(start + c * n + j, k) * N[j]; return S; }
static void gradients(const Reduced &R, const DenseMatrix &G, int dim, Array<DenseMatrix *> &out) { int n = G.Height(), nb = R.phi.Width(); for (int k = 0; k < nb; k++) { DenseMatrix *D = new DenseMatrix(dim); *D = 0.; for (int c = 0; c < dim; c++) for (int d = 0; d < dim; d++) for (int j = 0; j < n; j++) (*D)(c, d) += R.phi(c * n + j, k) * G(j, d); out.Append(D); } }
static void project(const Reduced &R, const std::vector<double> &w, Vector &y) { for (int k = 0; k < y.Size(); k++) for (int i = 0; i < R.phi.Height(); i++) y[k] += R.phi(i, k) * w[i]; }
static void project(const Reduced &R, const DenseMatrix &J, DenseMatrix &A) { DenseMatrix t(R.phi.Width(), J.Width()), u(R.phi.Width()); MultAtB(R.phi, J, t); Mult(t, R.phi, u); A += u; }

PROP(P25, domain_quadrature, 5000, 60000, "at least three evaluations at a non-zero state")
{
   OneMesh o = gen_mesh(g, true); std::unique_ptr<FiniteElementCollection> fec; int order; auto f = gen_space(g, o, o.dim, o.dim == 3 ? 2 : 3, fec, order); bool conv = g.coin(), vq = conv && g.coin(0.3); Field q = gen_field(g, false); FieldCoef Q(q); FieldVec VQ(o.dim); for (auto &c : VQ.f) c = gen_field(g, false);
   IntegrationRule ir = elem_rule(g, o); std::unique_ptr<HyperReductionIntegrator> I; if (conv) I.reset(new VectorConvectionTrilinearFormIntegrator(Q, vq ? &VQ : NULL)); else I.reset(new IncompressibleInviscidFluxNLFIntegrator(Q)); I->SetIntRule(&ir); ElemKind k = conv ? CONVECTION : INVISCID; FieldVec *pv = vq ? &VQ : NULL;
   int steps = g.range(1, 8), nz = 0; g.note << (conv ? "convection" : "inviscid flux") << (vq ? " given velocity" : "") << ":";
   for (int t = 0; t < steps; t++)
   {
      int op = g.range(0, 4), e = g.range(0, o.m->GetNE() - 1), p = g.range(0, ir.GetNPoints() - 1); Rnd r(g.seed()); bool zero = g.coin(0.1); const FiniteElement &fe = *f->GetFE(e); Reduced R = gen_reduced(r, fe.GetDof() * o.dim, zero, o.dim); nz += !zero; g.note << " " << op; double w = r.uni(-0.2, 1.5);
      IntegrationRule one(1); one.IntPoint(0) = ir.IntPoint(p); if (op) one.IntPoint(0).weight = w; auto P = element_points(*o.m, e, fe, op ? one : ir); std::vector<double> z(R.full.GetData(), R.full.GetData() + R.full.Size()), ref; element_residual(k, P, q, pv, z, ref); DenseMatrix J; jacobian([&](const std::vector<Z> &a, std::vector<Z> &b) { element_residual(k, P, q, pv, a, b); }, z, J); Vector ev(ref.data(), ref.size());
      ElementTransformation &T = *o.m->GetElementTransformation(e);
      if (op == 0) { Vector y; I->AssembleElementVector(fe, T, R.full, y); near(y, ev, 1e-10, "element vector"); }
      else if (op == 1) { Vector y; if (r.range(0, 1)) { y.SetSize(R.full.Size()); y = 5.; } I->AssembleQuadratureVector(fe, T, ir.IntPoint(p), w, R.full, y); near(y, ev, 1e-10, "vector at a quadrature point"); }
      else if (op == 2) { DenseMatrix M; if (r.range(0, 1)) { M.SetSize(R.full.Size()); M = 5.; } I->AssembleQuadratureGrad(fe, T, ir.IntPoint(p), w, R.full, M); near(M, J, 1e-10, "gradient at a quadrature point"); }
      else
      {
         EQPSample S(SampleInfo({ .el = e, .qp = p, .qw = w })); S.shape1 = values(R, 0, P[0].N, o.dim); gradients(R, P[0].G, o.dim, S.dshape1);
         if (op == 3) { Vector y(R.x.Size()); r.fill(y); Vector x(y); project(R, ref, x); I->AddAssembleVector_Fast(S, T, R.x, y); near(y, x, 1e-10, "precomputed reduced vector"); }
         else { DenseMatrix A(R.x.Size()); fill(r, A); DenseMatrix B(A); project(R, J, B); I->AddAssembleGrad_Fast(S, T, R.x, A); near(A, B, 1e-10, "precomputed reduced gradient"); }
      }
   }
   g.nontrivial = nz >= 3;
}

// Lax-Friedrichs on interior and boundary faces, one integrator through a history of evaluations
PROP(P25, face_quadrature, 6000, 80000, "at least three evaluations at a non-zero state")
{
   OneMesh o = gen_mesh(g, true); std::unique_ptr<FiniteElementCollection> fec; int order; auto f = gen_space(g, o, o.dim, o.dim == 3 ? 2 : 3, fec, order); bool hasud = g.coin(); Field q = gen_field(g, false); FieldCoef Q(q); FieldVec UD(o.dim); for (auto &c : UD.f) c = gen_field(g, false);
   Geometry::Type fg = o.dim == 2 ? Geometry::SEGMENT : o.simplex ? Geometry::TRIANGLE : Geometry::SQUARE; IntegrationRule ir = gen_rule(g, fg); DGLaxFriedrichsFluxIntegrator I(Q, hasud ? &UD : NULL, &ir); FieldVec *ud = hasud ? &UD : NULL;
   std::vector<int> inner; for (int i = 0; i < o.m->GetNumFaces(); i++) { int e1, e2; o.m->GetFaceElements(i, &e1, &e2); if (e2 >= 0) inner.push_back(i); }
   int steps = g.range(1, 8), nz = 0; g.note << (ud ? "Dirichlet:" : "Neumann:");
   for (int t = 0; t < steps; t++)
   {
      int op = g.range(0, 5), p = g.range(0, ir.GetNPoints() - 1); bool in = inner.size() && g.coin(); int id = in ? inner[g.range(0, inner.size() - 1)] : g.range(0, o.m->GetNBE() - 1); Rnd r(g.seed()); int zero = g.coin(0.15) ? g.range(1, 2) : 0; double w = r.uni(-0.2, 1.5); g.note << (in ? " i" : " b") << op;
      int fc = in ? id : be_face(*o.m, id), e1, e2; o.m->GetFaceElements(fc, &e1, &e2); const FiniteElement &f1 = *f->GetFE(e1), &f2 = *f->GetFE(in ? e2 : e1); int n1 = f1.GetDof() * o.dim, n2 = in ? f2.GetDof() * o.dim : 0; Reduced R = gen_reduced(r, n1 + n2, zero == 1, o.dim, n1); if (zero == 2 && n2) { for (int i = 0; i < n1; i++) for (int j = 0; j < R.phi.Width(); j++) R.phi(i, j) = 0.; R.phi.Mult(R.x, R.full); } nz += !zero;
      IntegrationRule one(1); one.IntPoint(0) = ir.IntPoint(p); one.IntPoint(0).weight = w; bool whole = op < 2; auto P = face_points(*o.m, fc, e1, whole ? ir : one); for (auto &a : P) { element_at(*o.m, e1, f1, a.x, a, 0); if (in) { element_at(*o.m, e2, f2, a.x, a, 1); a.ns = 2; } }
      std::vector<double> z(R.full.GetData(), R.full.GetData() + R.full.Size()), ref; face_residual(LAX_FRIEDRICHS, P, q, ud, z, ref); Vector ev(ref.data(), ref.size()); DenseMatrix J; bool grad = op % 2 == 1; if (grad) { if (!lf_smooth(P, z, ud)) continue; jacobian([&](const std::vector<Z> &a, std::vector<Z> &b) { face_residual(LAX_FRIEDRICHS, P, q, ud, a, b); }, z, J); }
      FaceElementTransformations &T = in ? *o.m->GetFaceElementTransformations(fc) : *o.m->GetBdrFaceTransformations(id);
      Vector y; DenseMatrix M; if (r.range(0, 1)) { y.SetSize(n1 + n2); y = 5.; M.SetSize(n1 + n2); M = 5.; }
      if (op == 0) { I.AssembleFaceVector(f1, f2, T, R.full, y); near(y, ev, 1e-10, "face vector"); }
      else if (op == 1) { I.AssembleFaceGrad(f1, f2, T, R.full, M); near(M, J, 1e-10, "face gradient"); }
      else if (op == 2) { I.AssembleQuadratureVector(f1, f2, T, ir.IntPoint(p), w, R.full, y); near(y, ev, 1e-10, "vector at a quadrature point"); }
      else if (op == 3) { I.AssembleQuadratureGrad(f1, f2, T, ir.IntPoint(p), w, R.full, M); near(M, J, 1e-10, "gradient at a quadrature point"); }
      else
      {
         EQPSample S(SampleInfo({ .el = id, .qp = p, .qw = w })); S.shape1 = values(R, 0, P[0].N[0], o.dim); if (in) S.shape2 = values(R, n1, P[0].N[1], o.dim);
         if (op == 4) { Vector a(R.x.Size()); r.fill(a); Vector b(a); project(R, ref, b); I.AddAssembleVector_Fast(S, T, R.x, a); near(a, b, 1e-10, "precomputed reduced vector"); }
         else { DenseMatrix A(R.x.Size()); fill(r, A); DenseMatrix B(A); project(R, J, B); I.AddAssembleGrad_Fast(S, T, R.x, A); near(A, B, 1e-10, "precomputed reduced gradient"); }
      }
   }
   g.nontrivial = nz >= 3;
}

PROP(P25, interface_quadrature, 4000, 60000, "at least three evaluations at a non-zero state")
{
   auto S0 = gen_sys(g, 3, 2); Sys &s = *S0; if (!s.faces()) throw pbt::Discard(); int order; Array<FiniteElementSpace *> f = gen_spaces(g, s, s.dim, s.dim == 3 ? 2 : 3, true, order); Field q = gen_field(g, false); FieldCoef Q(q); int dim = s.dim;
   IntegrationRule ir = gen_rule(g, s.fgeom()); DGLaxFriedrichsFluxIntegrator I(Q, NULL, &ir); int steps = g.range(1, 6), nz = 0;
   for (int t = 0; t < steps; t++)
   {
      int op = g.range(0, 3), p = g.range(0, ir.GetNPoints() - 1), k = g.range(0, s.T->GetNumPorts() - 1); Array<InterfaceInfo> &L = *s.T->GetInterfaceInfos(k); int id = g.range(0, L.Size() - 1); Rnd r(g.seed()); int zero = g.coin(0.15) ? g.range(1, 2) : 0; double w = r.uni(-0.2, 1.5); g.note << " " << op;
      int m1 = s.T->GetPortInfo(k)->Mesh1, m2 = s.T->GetPortInfo(k)->Mesh2; FaceElementTransformations *t1, *t2; s.T->GetInterfaceTransformations(s.ms[m1], s.ms[m2], &L[id], t1, t2); int e1 = t1->Elem1No, e2 = t2->Elem1No; const FiniteElement &f1 = *f[m1]->GetFE(e1), &f2 = *f[m2]->GetFE(e2); int n1 = f1.GetDof() * dim, n2 = f2.GetDof() * dim;
      Reduced R1 = gen_reduced(r, n1, zero == 1, dim), R2 = gen_reduced(r, n2, zero > 0, dim); nz += !zero;
      IntegrationRule one(1); one.IntPoint(0) = ir.IntPoint(p); one.IntPoint(0).weight = w; auto P = face_points(*s.ms[m1], be_face(*s.ms[m1], L[id].BE1), e1, one); t1->SetAllIntPoints(&ir.IntPoint(p)); t1->Elem1->Transform(t1->GetElement1IntPoint(), P[0].x); element_at(*s.ms[m1], e1, f1, P[0].x, P[0], 0); element_at(*s.ms[m2], e2, f2, P[0].x, P[0], 1); P[0].ns = 2;
      std::vector<double> z(R1.full.GetData(), R1.full.GetData() + n1), ref; for (int i = 0; i < n2; i++) z.push_back(R2.full[i]); face_residual(LAX_FRIEDRICHS, P, q, (FieldVec *) NULL, z, ref); DenseMatrix J; if (op % 2) { if (!lf_smooth(P, z, NULL)) continue; jacobian([&](const std::vector<Z> &a, std::vector<Z> &b) { face_residual(LAX_FRIEDRICHS, P, q, (FieldVec *) NULL, a, b); }, z, J); }
      Vector v1(ref.data(), n1), v2(ref.data() + n1, n2);
      if (op == 0) { Vector y1, y2; I.AssembleQuadratureVector(f1, f2, *t1, *t2, ir.IntPoint(p), w, R1.full, R2.full, y1, y2); near(y1, v1, 1e-10, "vector at a quadrature point, side 1"); near(y2, v2, 1e-10, "vector at a quadrature point, side 2"); }
      else if (op == 1) { Array2D<DenseMatrix *> M(2, 2); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { M(i, j) = new DenseMatrix(2); *M(i, j) = 3.; } I.AssembleQuadratureGrad(f1, f2, *t1, *t2, ir.IntPoint(p), w, R1.full, R2.full, M); int off[3] = { 0, n1, n1 + n2 }; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { near(*M(i, j), sub(J, off[i], off[i + 1], off[j], off[j + 1]), 1e-10, "gradient at a quadrature point"); delete M(i, j); } }
      else
      {
         EQPSample S(SampleInfo({ .el = id, .qp = p, .qw = w })); S.shape1 = values(R1, 0, P[0].N[0], dim); S.shape2 = values(R2, 0, P[0].N[1], dim); Reduced *R[2] = { &R1, &R2 }; int off[3] = { 0, n1, n1 + n2 };
         if (op == 2) { Vector a1(R1.x.Size()), a2(R2.x.Size()); r.fill(a1); r.fill(a2); Vector b1(a1), b2(a2); project(R1, std::vector<double>(ref.begin(), ref.begin() + n1), b1); project(R2, std::vector<double>(ref.begin() + n1, ref.end()), b2); I.AddAssembleVector_Fast(S, *t1, *t2, R1.x, R2.x, a1, a2); near(a1, b1, 1e-10, "precomputed reduced vector, side 1"); near(a2, b2, 1e-10, "precomputed reduced vector, side 2"); }
         else
         {
            Array2D<SparseMatrix *> A(2, 2); std::vector<DenseMatrix> B; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { int h = R[i]->x.Size(), wd = R[j]->x.Size(); A(i, j) = new SparseMatrix(h, wd); DenseMatrix E(h, wd); E = 0.; A(i, j)->Add(0, 0, 2.); E(0, 0) = 2.; DenseMatrix s0 = sub(J, off[i], off[i + 1], off[j], off[j + 1]), u(h, s0.Width()), v(h, wd); MultAtB(R[i]->phi, s0, u); Mult(u, R[j]->phi, v); E += v; B.push_back(E); }
            I.AddAssembleGrad_Fast(S, *t1, *t2, R1.x, R2.x, A); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { A(i, j)->Finalize(); DenseMatrix D; to_dense(*A(i, j), D); near(D, B[2 * i + j], 1e-10, "precomputed reduced gradient"); delete A(i, j); }
         }
      }
   }
   g.nontrivial = nz >= 3;
}

PROP(P25, sample_sets, 3000, 40000, "two or more sets with samples")
{
   std::string fn = pbt::scratch() + "/eqp.h5"; hid_t file = H5Fcreate(fn.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); int n = g.range(1, 5), full = 0; std::vector<std::vector<SampleInfo>> ref; std::vector<IntegratorType> ty; Rnd r(g.seed()); const IntegratorType all[4] = { IntegratorType::DOMAIN, IntegratorType::INTERIORFACE, IntegratorType::BDRFACE, IntegratorType::INTERFACE };
   for (int k = 0; k < n; k++) { int m = g.range(0, 6); full += m > 0; std::vector<SampleInfo> v; Array<SampleInfo> a; for (int i = 0; i < m; i++) { SampleInfo s{ r.range(0, 1000), r.range(0, 9), odd_double(r) }; v.push_back(s); a.Append(s); } ref.push_back(v); ty.push_back(all[g.range(0, 3)]); EQPElement e(a); CHECK(e.Size() == m, "%d samples, given %d", e.Size(), m); e.Save(file, "set" + std::to_string(k), ty[k]); g.note << m << " "; }
   if (g.coin()) { H5Fclose(file); file = H5Fopen(fn.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); }
   for (int k = n - 1; k >= 0; k--) { EQPElement e; e.Load(file, "set" + std::to_string(k), ty[k]); CHECK(e.Size() == (int) ref[k].size(), "set %d has %d samples, saved %zu", k, e.Size(), ref[k].size()); for (int i = 0; i < e.Size(); i++) { const SampleInfo &a = e.GetSample(i)->info, &b = ref[k][i]; CHECK(a.el == b.el && a.qp == b.qp && same_bits(a.qw, b.qw), "set %d sample %d is (%d,%d,%g), saved (%d,%d,%g)", k, i, a.el, a.qp, a.qw, b.el, b.qp, b.qw); CHECK(!e.GetSample(i)->shape1 && !e.GetSample(i)->shape2, "a loaded sample has shapes"); } }
   CHECK(H5Fget_obj_count(file, H5F_OBJ_ALL) == 1, "objects of the file are still open"); H5Fclose(file); g.nontrivial = full >= 2;
}

// ---------------------------------------------------------------- boundary linear forms
PROP(P26, boundary_data, 8000, 100000, "some boundary face is marked")
{
   OneMesh o = gen_mesh(g, true); int kind = g.range(0, 5), dim = o.dim; bool be = kind == 2 || kind == 4, vec = kind == 0 || kind >= 3; int order; std::unique_ptr<FiniteElementCollection> fec;
   order = g.range(1, dim == 3 ? 2 : 3); bool h1 = be || g.coin(0.3); if (h1) fec.reset(new H1_FECollection(order, dim)); else fec.reset(new L2_FECollection(order, dim, g.coin(0.3) ? BasisType::GaussLobatto : BasisType::GaussLegendre)); FiniteElementSpace f(o.m.get(), fec.get(), vec ? dim : 1, g.coin() ? Ordering::byVDIM : Ordering::byNODES);
   bool dflt = o.affine && g.coin(0.4), z = g.coin(); Field mu = gen_field(g, true), zf = gen_field(g, false); FieldVec uD(dim); for (auto &c : uD.f) { c = gen_field(g, false); if (dflt) c.kind = 0; } FieldMat F(dim); for (auto &c : F.f) { c = gen_field(g, false); if (dflt) c.kind = 0; } if (dflt) mu.kind = zf.kind = 0;
   FieldCoef MU(mu), ZF(zf); VectorFunctionCoefficient FV(dim * dim, [&F, dim](const Vector &x, Vector &v) { DenseMatrix M; F.at(x, 0, M); for (int i = 0; i < dim; i++) for (int j = 0; j < dim; j++) v[i + j * dim] = M(i, j); });
   double alpha = g.pick(std::vector<double>{ -1., 1., 0., 0.6 }), kappa = g.pick(std::vector<double>{ 0., 1., 12. });
   Geometry::Type fg = dim == 2 ? Geometry::SEGMENT : o.simplex ? Geometry::TRIANGLE : Geometry::SQUARE; IntegrationRule own = gen_face_rule(g, fg); const IntegrationRule &ir = dflt ? IntRules.Get(fg, 2 * order + 4) : own; bool marked = g.coin(); Array<int> mark(o.m->bdr_attributes.Max()); mark = 1; if (marked) for (int &i : mark) i = g.range(0, 1);
   g.note << "kind " << kind << (h1 ? " H1" : " L2") << " order " << order << (marked ? " marked" : "") << (dflt ? " default rule" : "") << (z ? " coefficient" : "");
   LinearForm b(&f); LinearFormIntegrator *I; if (kind == 0) I = new DGVectorDirichletLFIntegrator(uD, MU, alpha, kappa); else if (kind <= 2) I = new DGBoundaryNormalLFIntegrator(uD); else if (kind <= 4) I = new BoundaryNormalStressLFIntegrator(FV); else I = new DGBdrTemamLFIntegrator(uD, z ? &ZF : NULL); if (!dflt) I->SetIntRule(&own);
   if (be) { if (marked) b.AddBoundaryIntegrator(I, mark); else b.AddBoundaryIntegrator(I); } else { if (marked) b.AddBdrFaceIntegrator(I, mark); else b.AddBdrFaceIntegrator(I); } b.UseFastAssembly(false); b.Assemble();
   Vector e(f.GetVSize()); e = 0.; int n = 0;
   for (int q = 0; q < o.m->GetNBE(); q++)
   {
      if (!mark[o.m->GetBdrAttribute(q) - 1]) continue; n++; int fc = be_face(*o.m, q), el = be_elem(*o.m, q); const FiniteElement &fe = *f.GetFE(el); Array<int> v; f.GetElementVDofs(el, v); int nd = fe.GetDof();
      for (auto &p : face_points(*o.m, fc, el, ir))
      {
         element_at(*o.m, el, fe, p.x, p, 0); Vector u; uD.at(p.x, u); double un = u * p.nor, m = mu.at(p.x, p.attr[0]), nn = p.nor * p.nor; Vector Fn(dim); DenseMatrix M; F.at(p.x, 0, M); M.Mult(p.nor, Fn);
         for (int c = 0; c < (vec ? dim : 1); c++) for (int j = 0; j < nd; j++)
         {
            double gn = 0, val; for (int d = 0; d < dim; d++) gn += p.G[0](j, d) * p.nor[d];
            if (kind == 0) val = alpha * m * u[c] * gn + kappa * m * nn / p.det[0] * u[c] * p.N[0][j]; else if (kind <= 2) val = un * p.N[0][j]; else if (kind <= 4) val = Fn[c] * p.N[0][j]; else val = (z ? zf.at(p.x, 0) : 1.) * un * u[c] * p.N[0][j];
            e[v[c * nd + j]] += p.w * val;
         }
      }
   }
   near(b, e, 1e-10, "boundary vector"); g.nontrivial = n > 0;
}

// ---------------------------------------------------------------- face terms of bilinear forms on one mesh
template <class F> static void mesh_faces(OneMesh &o, bool inner, const Array<int> &mark, const FiniteElementSpace &f, const IntegrationRule &ir, F fn)
{
   auto go = [&](int fc, int e1, int e2) { auto P = face_points(*o.m, fc, e1, ir); for (auto &p : P) { element_at(*o.m, e1, *f.GetFE(e1), p.x, p, 0); if (e2 >= 0) { element_at(*o.m, e2, *f.GetFE(e2), p.x, p, 1); p.ns = 2; } } fn(P, e1, e2); };
   if (inner) { for (int i = 0; i < o.m->GetNumFaces(); i++) { int e1, e2; o.m->GetFaceElements(i, &e1, &e2); if (e2 >= 0) go(i, e1, e2); } } else for (int b = 0; b < o.m->GetNBE(); b++) if (mark[o.m->GetBdrAttribute(b) - 1]) go(be_face(*o.m, b), be_elem(*o.m, b), -1);
}
PROP(P27, face_matrices, 5000, 60000, "some face contributes")
{
   OneMesh o = gen_mesh(g, true); int dim = o.dim, o1, o2; bool mixed = g.coin(); std::unique_ptr<FiniteElementCollection> uc, qc; auto u = gen_space(g, o, dim, dim == 3 ? 2 : 3, uc, o1), q = gen_space(g, o, 1, 2, qc, o2); bool dflt = o.affine && g.coin(0.4); Field mu = gen_field(g, true); if (dflt) mu.kind = 0; FieldCoef MU(mu);
   Geometry::Type fg = dim == 2 ? Geometry::SEGMENT : o.simplex ? Geometry::TRIANGLE : Geometry::SQUARE; IntegrationRule own = gen_face_rule(g, fg); const IntegrationRule &ir = dflt ? IntRules.Get(fg, 2 * (o1 + o2) + 2) : own; int inner = g.range(0, 2), outer = g.range(inner ? 0 : 1, 4); double alpha = g.pick(std::vector<double>{ -1., 1., 0., 0.6 }), kappa = g.pick(std::vector<double>{ 0., 1., 12. }); g.note << (mixed ? "normal flux" : "vector diffusion") << " inner terms " << inner << " boundary terms " << outer << (dflt ? " default rule" : "");
   Array<int> all(o.m->bdr_attributes.Max()), mark[4]; all = 1; bool marked[4]; for (int k = 0; k < outer; k++) { mark[k].SetSize(all.Size()); marked[k] = g.coin(0.7); for (int &i : mark[k]) i = g.range(0, 1); } SparseMatrix E(mixed ? q->GetVSize() : u->GetVSize(), u->GetVSize()); int n = 0;
   auto ref = [&](bool inner, const Array<int> &mk) { mesh_faces(o, inner, mk, *u, ir, [&](std::vector<Pt> &P, int e1, int e2) { n++; Array<int> c, c2, r, r2; u->GetElementVDofs(e1, c); q->GetElementVDofs(e1, r); if (e2 >= 0) { u->GetElementVDofs(e2, c2); c.Append(c2); q->GetElementVDofs(e2, r2); r.Append(r2); } DenseMatrix M;
      if (mixed) { std::vector<Pt> Q = P; for (auto &p : Q) { element_at(*o.m, e1, *q->GetFE(e1), p.x, p, 0); if (e2 >= 0) element_at(*o.m, e2, *q->GetFE(e2), p.x, p, 1); } normal_flux(P, Q, M); } else { elliptic(P, diffusion(dim, alpha, kappa, mu), M); r = c; }
      for (int i = 0; i < r.Size(); i++) for (int j = 0; j < c.Size(); j++) E.Add(r[i], c[j], M(i, j)); }); };
   for (int k = 0; k < inner; k++) ref(true, all); for (int k = 0; k < outer; k++) ref(false, marked[k] ? mark[k] : all);
   auto compare = [&](SparseMatrix &A) { if (!A.Finalized()) A.Finalize(); if (!E.Finalized()) E.Finalize(); CHECK(A.Height() == E.Height() && A.Width() == E.Width(), "shape"); Vector x(A.Width()), a(A.Height()), e(A.Height()); for (int j = 0; j < A.Width(); j++) { x = 0.; x[j] = 1.; A.Mult(x, a); E.Mult(x, e); near(a, e, 1e-10, "column of the face matrix"); } };
   if (mixed)
   {
      MixedBilinearFormDGExtension B(u.get(), q.get()); auto mk = [&]() { auto *I = new DGNormalFluxIntegrator(); if (!dflt) I->SetIntRule(&own); return I; }; for (int k = 0; k < inner; k++) B.AddInteriorFaceIntegrator(mk()); for (int k = 0; k < outer; k++) { if (marked[k]) B.AddBdrFaceIntegrator(mk(), mark[k]); else B.AddBdrFaceIntegrator(mk()); } B.Assemble(); B.Finalize(); compare(B.SpMat());
      if (g.coin(0.3)) { MixedBilinearFormDGExtension C(u.get(), q.get(), &B); C.Assemble(); C.Finalize(); compare(C.SpMat()); }   // one that shares the terms
   }
   else { BilinearForm B(u.get()); auto mk = [&]() { auto *I = new DGVectorDiffusionIntegrator(MU, alpha, kappa); if (!dflt) I->SetIntRule(&own); return I; }; for (int k = 0; k < inner; k++) B.AddInteriorFaceIntegrator(mk()); for (int k = 0; k < outer; k++) { if (marked[k]) B.AddBdrFaceIntegrator(mk(), mark[k]); else B.AddBdrFaceIntegrator(mk()); } B.Assemble(); B.Finalize(); compare(B.SpMat()); }
   g.nontrivial = n > 0;
}
