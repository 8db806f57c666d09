// Interface forms against their definition.
#include "system.hpp"
#include <complex>

PROP(P20, interface_matrices, 8000, 100000, "there is an interface face")
{
   auto S = gen_sys(g); Sys &s = *S; int kind = g.range(0, 4), order; bool vec = kind >= 3; // 0 diffusion 1, 1 Q, 2 matrix, 3 vector diffusion, 4 elasticity
   Array<FiniteElementSpace *> f = gen_spaces(g, s, vec ? s.dim : 1, s.dim == 3 ? 2 : 3, true, order); uint64_t seed = g.seed();
   bool dflt = g.coin(0.4) && s.affine() ; IntegrationRule own = gen_face_rule(g, s.fgeom()); const IntegrationRule &ir = dflt ? IntRules.Get(s.fgeom(), 2 * order + 4) : own;
   InterfaceForm form(s.ms, f, s.T.get()); int nint = g.coin(0.2) ? 2 : 1; std::vector<Elliptic> ref; std::vector<std::unique_ptr<Coefficient>> co; std::vector<std::unique_ptr<FieldMat>> cm;
   for (int q = 0; q < nint; q++)
   {
      double sigma = g.pick(std::vector<double>{ -1., 0., 1., 0.7, -1. }), kappa = g.pick(std::vector<double>{ 0., 1., 5.5, 20. }); int k = vec ? g.range(3, 4) : q ? g.range(0, 2) : kind; Field a = gen_field(g, true), b = gen_field(g, true); if (dflt) a.kind = b.kind = 0;
      InterfaceNonlinearFormIntegrator *I; g.note << "kind " << k << " sigma " << sigma << " kappa " << kappa << "; ";
      if (k == 0) { Field one; one.kind = 0; for (double &c : one.c) c = 1.; I = new InterfaceDGDiffusionIntegrator(sigma, kappa); ref.push_back(diffusion(1, sigma, kappa, one)); }
      else if (k == 1 || k == 3) { co.emplace_back(new FieldCoef(a)); if (k == 1) I = new InterfaceDGDiffusionIntegrator(*co.back(), sigma, kappa); else I = new InterfaceDGVectorDiffusionIntegrator(*co.back(), sigma, kappa); ref.push_back(diffusion(vec ? s.dim : 1, sigma, kappa, a)); }
      else if (k == 2) { cm.emplace_back(new FieldMat(s.dim)); for (auto &c : cm.back()->f) { c = gen_field(g, true); if (dflt) c.kind = 0; } I = new InterfaceDGDiffusionIntegrator(*cm.back(), sigma, kappa); ref.push_back(diffusion_m(sigma, kappa, cm.back().get())); }
      else { co.emplace_back(new FieldCoef(a)); co.emplace_back(new FieldCoef(b)); I = new InterfaceDGElasticityIntegrator(co[co.size() - 2].get(), co.back().get(), sigma, kappa); ref.push_back(elasticity(s.dim, sigma, kappa, a, b)); }
      if (!dflt) I->SetIntRule(&own); form.AddInterfaceIntegrator(I);
   }
   g.note << (dflt ? "default rule" : "own rule"); Blocks A(f, f, seed), E(f, f, seed);
   form.AssembleInterfaceMatrices(A.m);
   for_faces(s, [&](int m1, int m2, const InterfaceInfo &I, int e1, int e2) {
      auto P = interface_points(*s.ms[m1], *s.ms[m2], I, *f[m1]->GetFE(e1), *f[m2]->GetFE(e2), e1, e2, ir); Array<int> v1, v2; f[m1]->GetElementVDofs(e1, v1); f[m2]->GetElementVDofs(e2, v2);
      for (auto &r : ref) { DenseMatrix M; elliptic(P, r, M); add_block(E, m1, m2, M, v1, v2, v1, v2); } });
   same_blocks(A, E, 1e-9, "interface matrix"); g.nontrivial = s.faces() > 0;
}

PROP(P20, interface_normal_flux, 5000, 60000, "there is an interface face")
{
   auto S = gen_sys(g); Sys &s = *S; int o1, o2; Array<FiniteElementSpace *> u = gen_spaces(g, s, s.dim, 3, true, o1), p = gen_spaces(g, s, 1, 2, true, o2, true, 1); uint64_t seed = g.seed();
   bool dflt = g.coin(0.4) && s.affine(); IntegrationRule own = gen_face_rule(g, s.fgeom()); const IntegrationRule &ir = dflt ? IntRules.Get(s.fgeom(), 2 * (o1 + o2) + 2) : own;
   MixedInterfaceForm form(s.ms, u, p, s.T.get()); InterfaceNonlinearFormIntegrator *I = new InterfaceDGNormalFluxIntegrator(); if (!dflt) I->SetIntRule(&own); form.AddInterfaceIntegrator(I); int two = g.coin(0.2); if (two) { I = new InterfaceDGNormalFluxIntegrator(); if (!dflt) I->SetIntRule(&own); form.AddInterfaceIntegrator(I); }
   g.note << (dflt ? "default rule" : "own rule"); Blocks A(p, u, seed), E(p, u, seed); form.AssembleInterfaceMatrices(A.m);
   for_faces(s, [&](int m1, int m2, const InterfaceInfo &I, int e1, int e2) {
      auto P = interface_points(*s.ms[m1], *s.ms[m2], I, *u[m1]->GetFE(e1), *u[m2]->GetFE(e2), e1, e2, ir), Q = interface_points(*s.ms[m1], *s.ms[m2], I, *p[m1]->GetFE(e1), *p[m2]->GetFE(e2), e1, e2, ir);
      Array<int> v1, v2, q1, q2; u[m1]->GetElementVDofs(e1, v1); u[m2]->GetElementVDofs(e2, v2); p[m1]->GetElementVDofs(e1, q1); p[m2]->GetElementVDofs(e2, q2);
      DenseMatrix M; normal_flux(P, Q, M); M *= 1. + two; add_block(E, m1, m2, M, q1, q2, v1, v2); });
   same_blocks(A, E, 1e-9, "normal flux matrix"); g.nontrivial = s.faces() > 0;
}

// ---------------------------------------------------------------- nonlinear interface terms
// velocity states: 0 random, 1 both sides equal along the faces (a smooth field), 2 zero, 3 zero on odd subdomains, 4 constant per subdomain, 5 small, 6 along one axis, 7 few and small integers
static void gen_state(Gen &g, int kind, Array<FiniteElementSpace *> &f, Vector &x, Array<int> &off)
{
   off.SetSize(f.Size() + 1); off[0] = 0; for (int m = 0; m < f.Size(); m++) off[m + 1] = off[m] + f[m]->GetVSize(); x.SetSize(off.Last()); Rnd r(g.seed()); int dim = f[0]->GetMesh()->Dimension(); uint64_t only = kind >= 6 ? g.seed() : 0;
   for (int m = 0; m < f.Size(); m++)
   {
      Vector xm(x.GetData() + off[m], f[m]->GetVSize());
      if (kind == 1 || kind == 4) { Vector c(dim); r.fill(c); uint64_t s0 = 7; if (kind == 4) { VectorConstantCoefficient C(c); GridFunction u(f[m], xm.GetData()); u.ProjectCoefficient(C); } else { VectorFunctionCoefficient C(dim, [s0](const Vector &p, Vector &v) { for (int d = 0; d < v.Size(); d++) v[d] = 0.3 * (d + 1) + 0.5 * p[0] - 0.7 * p[1] * (d ? 1 : -1); }); GridFunction u(f[m], xm.GetData()); u.ProjectCoefficient(C); } }
      else if (kind >= 6) { r.fill(xm); Rnd same(only); special(kind == 6 ? same : r, *f[m], xm.GetData(), kind - 2); if (kind == 6) xm *= r.range(-2, 3); } else if (kind == 2 || (kind == 3 && m % 2)) xm = 0.; else { r.fill(xm); if (kind == 5) xm *= 1e-6; }
   }
}
// Lax-Friedrichs is not differentiable where the two magnitudes meet (or one vanishes while both count)
static bool kink(const std::vector<Pt> &P, const std::vector<double> &x, bool &zero)
{
   int dim = P[0].x.Size(), n[2] = { P[0].N[0].Size(), P[0].N[1].Size() };
   for (auto &p : P) { double m[2] = { 0, 0 }; for (int s = 0; s < 2; s++) for (int c = 0; c < dim; c++) { double u = 0; for (int j = 0; j < n[s]; j++) u += x[(s ? dim * n[0] : 0) + c * n[s] + j] * p.N[s][j]; m[s] += u * u; } if (m[0] == 0 && m[1] == 0) { zero = true; continue; } if (std::abs(std::sqrt(m[0]) - std::sqrt(m[1])) < 1e-9 * (std::sqrt(m[0]) + std::sqrt(m[1]))) return true; }
   return false;
}
PROP(P21, interface_flux, 6000, 80000, "there is an interface face and the state is not zero")
{
   auto S = gen_sys(g); Sys &s = *S; int order; Array<FiniteElementSpace *> f = gen_spaces(g, s, s.dim, s.dim == 3 ? 2 : 3, true, order); uint64_t seed = g.seed(); bool temam = g.coin(0.4); int st = g.range(0, 7); g.note << (temam ? "Temam" : "Lax-Friedrichs") << " state " << st << "; ";
   Field q = gen_field(g, false); bool dflt = st == 4 && g.coin() && s.affine(); if (dflt) q.kind = 0; FieldCoef Q(q); IntegrationRule own = gen_face_rule(g, s.fgeom()); const IntegrationRule &ir = dflt ? IntRules.Get(s.fgeom(), 2 * order + 4) : own;
   InterfaceForm form(s.ms, f, s.T.get()); InterfaceNonlinearFormIntegrator *I; if (temam) I = new InterfaceDGTemamFluxIntegrator(Q); else I = new DGLaxFriedrichsFluxIntegrator(Q); if (!dflt) I->SetIntRule(&own); form.AddInterfaceIntegrator(I);
   Vector x, y, e; Array<int> off; gen_state(g, st, f, x, off); FaceKind fk = temam ? TEMAM_FLUX : LAX_FRIEDRICHS;
   Vector xc(x); y.SetSize(x.Size()); Rnd r(g.seed()); r.fill(y); e = y; Blocks A(f, f, seed), E(f, f, seed); bool bad = false, zero = false; int reps = g.coin(0.2) ? 2 : 1;
   for_faces(s, [&](int m1, int m2, const InterfaceInfo &I, int e1, int e2) {
      auto P = interface_points(*s.ms[m1], *s.ms[m2], I, *f[m1]->GetFE(e1), *f[m2]->GetFE(e2), e1, e2, ir); Array<int> v1, v2; f[m1]->GetElementVDofs(e1, v1); f[m2]->GetElementVDofs(e2, v2);
      std::vector<double> z, w; for (int i : v1) z.push_back(x[off[m1] + i]); for (int i : v2) z.push_back(x[off[m2] + i]);
      face_residual(fk, P, q, NULL, z, w); for (int i = 0; i < v1.Size(); i++) e[off[m1] + v1[i]] += reps * w[i]; for (int i = 0; i < v2.Size(); i++) e[off[m2] + v2[i]] += reps * w[v1.Size() + i];
      if (!temam && kink(P, z, zero)) bad = true;
      DenseMatrix J; jacobian([&](const std::vector<std::complex<double>> &a, std::vector<std::complex<double>> &b) { face_residual(fk, P, q, (FieldVec *) NULL, a, b); }, z, J);
      add_block(E, m1, m2, J, v1, v2, v1, v2); });
   for (int k = 0; k < reps; k++) form.InterfaceAddMult(x, y);
   near(y, e, 1e-10, "interface residual"); near(x, xc, 0., "the state");
   if (!bad) { form.InterfaceGetGradient(x, A.m); same_blocks(A, E, 1e-9, "gradient of the interface residual"); near(x, xc, 0., "the state"); }
   g.label(bad ? "gradient not defined" : "gradient checked"); if (zero) g.label("zero on a face"); g.nontrivial = s.faces() > 0 && st != 2;
}
PROP(P21, gradient_is_derivative, 3000, 40000, "there is an interface face and the direction is not zero")
{  // default rules: the gradient is the derivative of the residual; both fluxes are conservative or skew in their sense
   auto S = gen_sys(g, 4, 2); Sys &s = *S; int order; Array<FiniteElementSpace *> f = gen_spaces(g, s, s.dim, s.dim == 3 ? 2 : 3, true, order); bool temam = g.coin(0.5); int st = temam ? g.range(0, 7) : 0; g.note << (temam ? "Temam" : "Lax-Friedrichs") << " state " << st << "; ";
   Field q = gen_field(g, false); FieldCoef Q(q); InterfaceForm form(s.ms, f, s.T.get()); if (temam) form.AddInterfaceIntegrator(new InterfaceDGTemamFluxIntegrator(Q)); else form.AddInterfaceIntegrator(new DGLaxFriedrichsFluxIntegrator(Q));
   Vector x, d; Array<int> off; gen_state(g, st, f, x, off); gen_state(g, 0, f, d, off); int n = x.Size();
   if (!temam) { Rnd r(3); double lift = r.uni(3, 4); for (int m = 0; m < f.Size(); m++) for (int i = 0; i < f[m]->GetVSize(); i++) x[off[m] + i] = 0.1 * x[off[m] + i] + lift * (m + 1); } // magnitudes well apart
   Blocks G(f, f, 1); for (int i = 0; i < s.n; i++) for (int j = 0; j < s.n; j++) { delete G.m(i, j); G.m(i, j) = new SparseMatrix(f[i]->GetVSize(), f[j]->GetVSize()); } form.InterfaceGetGradient(x, G.m);
   BlockOperator op(off); for (int i = 0; i < s.n; i++) for (int j = 0; j < s.n; j++) { G.m(i, j)->Finalize(); op.SetBlock(i, j, G.m(i, j)); } Vector gd(n); op.Mult(d, gd);
   auto R = [&](double h) { Vector z(x), y(n); z.Add(h, d); y = 0.; form.InterfaceAddMult(z, y); return y; };
   // quadratic: exact with any step; otherwise Richardson extrapolation
   double h = temam ? 1. : 1e-2; auto D = [&](double k) { Vector a = R(k), b = R(-k); a -= b; a *= 0.5 / k; return a; }; Vector fd = D(h); if (!temam) { Vector f2 = D(h / 2); f2 *= 4. / 3; fd *= -1. / 3; fd += f2; }
   near(gd, fd, temam ? 1e-10 : 1e-6, "gradient times a direction");
   if (temam) { Vector y = R(0.); double e = y * x, sc = std::max(1., y.Norml2() * x.Norml2()); CHECK(std::abs(e) < 1e-11 * sc, "Temam's interface flux does work %g on the state (scale %g)", e, sc); }
   else if (s.n == 2)
   {  // what leaves one side enters the other: sum of the residual against constant velocities is zero
      for (int c = 0; c < s.dim; c++) { Vector y = R(0.); double tot = 0, sc = 0; for (int m = 0; m < s.n; m++) { GridFunction one(f[m]); Vector k(s.dim); k = 0.; k[c] = 1.; VectorConstantCoefficient K(k); one.ProjectCoefficient(K); Vector ym(y.GetData() + off[m], f[m]->GetVSize()); tot += one * ym; sc += ym.Norml1(); } CHECK(std::abs(tot) < 1e-10 * std::max(1., sc), "component %d: %g is lost between the sides", c, tot); }
   }
   g.nontrivial = s.faces() > 0;
}

// ---------------------------------------------------------------- reference interface matrices of component ports
PROP(P23, matrix_at_port, 3000, 40000, "some port of the reference is used by an interface")
{
   auto S = gen_sys(g, 4, 2, false, 2); Sys &s = *S; ComponentTopologyHandler &T = *(ComponentTopologyHandler *) s.T.get(); bool mixed = g.coin(0.3); int kind = g.range(0, 2), nc = T.GetNumComponents(); bool vec = mixed || kind;
   for (int m = 0; m < s.n; m++) for (int e = 0; e < s.ms[m]->GetNE(); e++) s.ms[m]->SetAttribute(e, 1);
   int order = g.range(1, s.dim == 3 ? 2 : 3), ord = g.coin() ? Ordering::byVDIM : Ordering::byNODES; bool h1 = g.coin(0.4); std::unique_ptr<FiniteElementCollection> fec, qec; if (h1) { fec.reset(new H1_FECollection(order, s.dim)); qec.reset(new H1_FECollection(1, s.dim)); } else { fec.reset(new L2_FECollection(order, s.dim)); qec.reset(new L2_FECollection(order - 1, s.dim)); }
   std::vector<std::unique_ptr<FiniteElementSpace>> own; Array<FiniteElementSpace *> fs, fc, qs, qc; auto mk = [&](Mesh *m, FiniteElementCollection *c, int vd, Array<FiniteElementSpace *> &to) { own.emplace_back(new FiniteElementSpace(m, c, vd, ord)); to.Append(own.back().get()); };
   for (int m = 0; m < s.n; m++) { mk(s.ms[m], fec.get(), vec ? s.dim : 1, fs); mk(s.ms[m], qec.get(), 1, qs); } for (int c = 0; c < nc; c++) { mk(T.GetComponentMesh(c), fec.get(), vec ? s.dim : 1, fc); mk(T.GetComponentMesh(c), qec.get(), 1, qc); }
   double sigma = g.coin() ? -1. : 0.4, kappa = g.coin(0.8) ? 7. : 0.; ConstantCoefficient la(1.3), mu(0.6); g.note << (mixed ? "normal flux" : "kind ") << kind << (h1 ? " H1" : " L2") << " order " << order << " sigma " << sigma << " kappa " << kappa;
   InterfaceForm F(s.ms, fs, &T); MixedInterfaceForm M(s.ms, fs, qs, &T);
   if (mixed) M.AddInterfaceIntegrator(new InterfaceDGNormalFluxIntegrator()); else if (kind == 0) F.AddInterfaceIntegrator(new InterfaceDGDiffusionIntegrator(mu, sigma, kappa)); else if (kind == 1) F.AddInterfaceIntegrator(new InterfaceDGVectorDiffusionIntegrator(mu, sigma, kappa)); else F.AddInterfaceIntegrator(new InterfaceDGElasticityIntegrator(&la, &mu, sigma, kappa));
   Blocks A(mixed ? qs : fs, fs, 3), E(mixed ? qs : fs, fs, 3); if (mixed) M.AssembleInterfaceMatrices(A.m); else F.AssembleInterfaceMatrices(A.m);
   // the sum over ports of the reference matrices is the interface matrix
   std::vector<Array2D<SparseMatrix *>> R(T.GetNumRefPorts()); std::vector<int> seq = ident(R.size()); Rnd r(g.seed()); for (int k = (int) seq.size() - 1; k > 0; k--) std::swap(seq[k], seq[r.range(0, k)]);
   bool pre = g.coin(); for (int p : seq) { R[p].SetSize(2, 2); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) R[p](i, j) = pre ? new SparseMatrix(3, 3) : NULL; if (mixed) M.AssembleInterfaceMatrixAtPort(p, fc, qc, R[p]); else F.AssembleInterfaceMatrixAtPort(p, fc, R[p]); }
   for (size_t p = 0; p < R.size(); p++)
   {
      int c1, c2; T.GetComponentPair(p, c1, c2); int c[2] = { c1, c2 }; CHECK(R[p].NumRows() == 2 && R[p].NumCols() == 2, "reference port %zu: not 2x2 blocks", p);
      for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { SparseMatrix *B = R[p](i, j); CHECK(B && B->Finalized() && B->Height() == (mixed ? qc : fc)[c[i]]->GetVSize() && B->Width() == fc[c[j]]->GetVSize(), "reference port %zu block (%d,%d): wrong shape or not finalised", p, i, j); }
   }
   for (int k = 0; k < T.GetNumPorts(); k++)
   {
      const PortInfo *P = T.GetPortInfo(k); int m[2] = { P->Mesh1, P->Mesh2 }, p = T.GetPortType(k);
      for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { const SparseMatrix &B = *R[p](i, j); for (int a = 0; a < B.Height(); a++) for (int q = B.GetI()[a]; q < B.GetI()[a + 1]; q++) E.m(m[i], m[j])->Add(a, B.GetJ()[q], B.GetData()[q]); }
   }
   same_blocks(A, E, 1e-9, "interface matrices from reference ports"); for (auto &a : R) for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) delete a(i, j); g.nontrivial = s.faces() > 0;
}
