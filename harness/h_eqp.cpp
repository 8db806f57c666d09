// level: all
// Reduced nonlinear forms on sampled quadrature points: the sum they compute, the system their samples are trained on.
#include "onemesh.hpp"
#include "rom_nonlinearform.hpp"
#include "rom_interfaceform.hpp"

static void eqp_config(const char *criterion) { YAML::Node d; d["model_reduction"]["eqp"]["criterion"] = criterion; config = InputParser(); config.dict_ = d; }
static DenseMatrix gen_basis(Gen &g, int rows, int nb, int &offset, DenseMatrix &B) { offset = g.coin(0.3) ? g.range(1, 4) : 0; int extra = g.coin(0.3) ? g.range(1, 3) : 0; Rnd r(g.seed()); DenseMatrix F(offset + rows + extra, nb); fill(r, F); B = sub(F, offset, offset + rows, 0, nb); return F; }

// one term of the form: where it lives, its integrator, the places where it may be sampled
struct Term
{
   int where; ElemKind kind; Field q; std::unique_ptr<FieldCoef> Q; std::unique_ptr<FieldVec> vec; IntegrationRule ir; Array<int> mark; bool marked = false; std::vector<int> ids; HyperReductionIntegrator *I = NULL; std::vector<SampleInfo> S;
   // dofs and points with weight w at a point of the rule (qp < 0: all points with the weights of the rule)
   void vdofs(OneMesh &o, FiniteElementSpace &f, int id, Array<int> &v) const { v.SetSize(0); if (!where) { f.GetElementVDofs(id, v); return; } int fc = where == 1 ? id : be_face(*o.m, id), e1, e2; o.m->GetFaceElements(fc, &e1, &e2); f.GetElementVDofs(e1, v); if (where == 1) { Array<int> v2; f.GetElementVDofs(e2, v2); v.Append(v2); } }
   bool eval(OneMesh &o, FiniteElementSpace &f, int id, int qp, double w, const Vector &x, Array<int> &v, Vector &y, DenseMatrix *J) const
   {
      vdofs(o, f, id, v); std::vector<double> z = gather(x, v), out; IntegrationRule one(1); one.IntPoint(0) = ir.IntPoint(qp); one.IntPoint(0).weight = w;
      if (!where) { auto P = element_points(*o.m, id, *f.GetFE(id), one); element_residual(kind, P, q, vec.get(), z, out); if (J) jacobian([&](const std::vector<Z> &a, std::vector<Z> &b) { element_residual(kind, P, q, vec.get(), a, b); }, z, *J); }
      else
      {
         int fc = where == 1 ? id : be_face(*o.m, id), e1, e2; o.m->GetFaceElements(fc, &e1, &e2); auto P = face_points(*o.m, fc, e1, one); for (auto &p : P) { element_at(*o.m, e1, *f.GetFE(e1), p.x, p, 0); if (where == 1) { element_at(*o.m, e2, *f.GetFE(e2), p.x, p, 1); p.ns = 2; } }
         face_residual(LAX_FRIEDRICHS, P, q, vec.get(), z, out); if (J) { if (!lf_smooth(P, z, vec.get())) return false; jacobian([&](const std::vector<Z> &a, std::vector<Z> &b) { face_residual(LAX_FRIEDRICHS, P, q, vec.get(), a, b); }, z, *J); }
      }
      y.SetSize(out.size()); for (size_t i = 0; i < out.size(); i++) y[i] = out[i]; return true;
   }
};
static IntegratorType type_of(int where) { return where == 0 ? IntegratorType::DOMAIN : where == 1 ? IntegratorType::INTERIORFACE : IntegratorType::BDRFACE; }
static Geometry::Type face_type(const OneMesh &o) { return o.dim == 2 ? Geometry::SEGMENT : o.simplex ? Geometry::TRIANGLE : Geometry::SQUARE; }
static std::unique_ptr<Term> gen_term(Gen &g, OneMesh &o)
{
   std::unique_ptr<Term> t(new Term); t->where = g.range(0, 2); t->kind = g.coin() ? CONVECTION : INVISCID; t->q = gen_field(g, false); t->Q.reset(new FieldCoef(t->q));
   if ((t->where == 0 && t->kind == CONVECTION && g.coin(0.3)) || (t->where == 2 && g.coin())) { t->vec.reset(new FieldVec(o.dim)); for (auto &c : t->vec->f) c = gen_field(g, false); }
   if (!t->where) { t->ir = gen_rule(g, o.m->GetElementBaseGeometry(0)); if (t->kind == CONVECTION) t->I = new VectorConvectionTrilinearFormIntegrator(*t->Q, t->vec.get()); else t->I = new IncompressibleInviscidFluxNLFIntegrator(*t->Q); for (int e = 0; e < o.m->GetNE(); e++) t->ids.push_back(e); }
   else
   {
      t->ir = gen_rule(g, face_type(o), 3); t->I = new DGLaxFriedrichsFluxIntegrator(*t->Q, t->vec.get());
      if (t->where == 1) { for (int i = 0; i < o.m->GetNumFaces(); i++) { int a, b; o.m->GetFaceElements(i, &a, &b); if (b >= 0) t->ids.push_back(i); } }
      else { t->marked = g.coin(); t->mark.SetSize(o.m->bdr_attributes.Max()); t->mark = 1; if (t->marked) for (int &i : t->mark) i = g.range(0, 1); for (int b = 0; b < o.m->GetNBE(); b++) if (t->mark[o.m->GetBdrAttribute(b) - 1]) t->ids.push_back(b); }
   }
   t->I->SetIntRule(&t->ir); g.note << "where " << t->where << (t->where ? "" : t->kind == CONVECTION ? " convection" : " inviscid") << (t->vec ? " given" : "") << (t->marked ? " marked" : "") << "; "; return t;
}
static Array<SampleInfo> gen_samples(Gen &g, const std::vector<int> &ids, int nqe, int maxn = 6)
{
   Array<SampleInfo> S; if (ids.empty()) return S; int mode = g.range(0, 9), n = mode == 0 ? 0 : g.range(1, maxn); Rnd r(g.seed());
   for (int i = 0; i < n; i++) { SampleInfo s{ i && r.range(0, 2) == 0 ? S[i - 1].el : ids[r.range(0, ids.size() - 1)], r.range(0, nqe - 1), r.uni(0.01, 2.) }; S.Append(s); }
   return S;
}
static void add_term(ROMNonlinearForm &F, Term &t) { if (t.where == 0) F.AddDomainIntegrator(t.I); else if (t.where == 1) F.AddInteriorFaceIntegrator(t.I); else if (t.marked) F.AddBdrFaceIntegrator(t.I, t.mark); else F.AddBdrFaceIntegrator(t.I); }
static void set_samples(ROMNonlinearForm &F, int where, int k, const Array<SampleInfo> &S) { if (where == 0) F.UpdateDomainIntegratorSampling(k, S); else if (where == 1) F.UpdateInteriorFaceIntegratorSampling(k, S); else F.UpdateBdrFaceIntegratorSampling(k, S); }

PROP(P43, reduced_form, 3000, 40000, "at least two terms are sampled and the state is not zero")
{
   eqp_config("l2"); OneMesh o = gen_mesh(g, true); std::unique_ptr<FiniteElementCollection> fec; int order; auto f = gen_space(g, o, o.dim, o.dim == 3 ? 2 : 3, fec, order); int nt = g.range(1, 4), nb = g.range(1, 4), offset, sampled = 0, nz = 0; DenseMatrix B; 
   DenseMatrix F0 = gen_basis(g, f->GetTrueVSize(), nb, offset, B); std::vector<std::unique_ptr<Term>> T; std::vector<int> index; int count[3] = { 0, 0, 0 }; bool view = g.coin(0.3); 
   std::vector<std::unique_ptr<EQPElement>> held; ROMNonlinearForm form(nb, f.get(), !view); form.SetBasis(F0, offset);
   for (int i = 0; i < nt; i++) { T.push_back(gen_term(g, o)); add_term(form, *T[i]); index.push_back(count[T[i]->where]++); }
   std::vector<Array<SampleInfo>> S(nt); std::string fn = pbt::scratch() + "/eqp.h5"; 
   auto sample = [&](int i) {
      S[i] = gen_samples(g, T[i]->ids, T[i]->ir.GetNPoints()); sampled += S[i].Size() > 0;
      if (!view) { set_samples(form, T[i]->where, index[i], S[i]); return; }
      held.emplace_back(new EQPElement(S[i])); EQPElement *e = held.back().get(); if (T[i]->where == 0) form.SetDomainEQPElems(index[i], e); else if (T[i]->where == 1) form.SetInteriorEQPElems(index[i], e); else form.SetBdrEQPElems(index[i], e); };
   for (int i = 0; i < nt; i++) sample(i);
   bool fast = false, ready = false; int steps = g.range(1, 6); g.note << (view ? "view:" : "own:");
   for (int t = 0; t < steps; t++)
   {
      int op = g.range(0, 5); Rnd r(g.seed());
      if (op == 0) { if (!ready) { form.PrecomputeCoefficients(); ready = true; } fast = !fast; form.SetPrecomputeMode(fast); CHECK(form.PrecomputeMode() == fast, "mode"); g.note << (fast ? " fast" : " slow"); continue; }
      if (op == 1 && !ready) { int i = g.range(0, nt - 1); sample(i); g.note << " sample"; continue; }
      if (op == 2 && !view && !ready) { hid_t h = H5Fcreate(fn.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); for (int i = 0; i < nt; i++) form.SaveEQPForIntegrator(type_of(T[i]->where), index[i], h, "t" + std::to_string(i)); for (int i = 0; i < nt; i++) if (g.coin()) set_samples(form, T[i]->where, index[i], Array<SampleInfo>()); for (int i = 0; i < nt; i++) form.LoadEQPForIntegrator(type_of(T[i]->where), index[i], h, "t" + std::to_string(i)); H5Fclose(h); g.note << " load"; continue; }
      Vector x(nb); r.fill(x); bool zero = r.range(0, 9) == 0; if (zero) x = 0.; else nz++; Vector full(B.Height()); B.Mult(x, full); bool grad = op >= 4; g.note << (grad ? " grad" : " mult");
      Vector e(nb), u; e = 0.; DenseMatrix E(nb); E = 0.; bool ok = true; Array<int> v;
      for (int i = 0; i < nt; i++) for (const SampleInfo &s : S[i])
      {
         DenseMatrix J; if (!T[i]->eval(o, *f, s.el, s.qp, s.qw, full, v, u, grad ? &J : NULL)) { ok = false; continue; } DenseMatrix Be(v.Size(), nb); for (int a = 0; a < v.Size(); a++) for (int k = 0; k < nb; k++) Be(a, k) = B(v[a], k);
         Be.AddMultTranspose(u, e); if (grad) { DenseMatrix a(nb, v.Size()), c(nb); MultAtB(Be, J, a); Mult(a, Be, c); E += c; }
      }
      if (!ok) continue;
      if (!grad) { Vector y(nb); y = 3.; form.Mult(x, y); near(y, e, 1e-10, fast ? "precomputed reduced vector" : "reduced vector"); }
      else { DenseMatrix *G = dynamic_cast<DenseMatrix *>(&form.GetGradient(x)); CHECK(G, "gradient is not dense"); near(*G, E, 1e-10, fast ? "precomputed reduced gradient" : "reduced gradient"); }
   }
   g.label(fast ? "precomputed" : "direct"); g.nontrivial = sampled >= 2 && nz;
}

// all points with the weights of the rule: the Galerkin projection of the full form
PROP(P43, all_points, 1500, 20000, "the state is not zero")
{
   eqp_config("l2"); OneMesh o = gen_mesh(g, true); std::unique_ptr<FiniteElementCollection> fec; int order; auto f = gen_space(g, o, o.dim, o.dim == 3 ? 2 : 3, fec, order); int nb = g.range(1, 4), offset; DenseMatrix B; DenseMatrix F0 = gen_basis(g, f->GetTrueVSize(), nb, offset, B); bool fast = g.coin();
   IntegrationRule er = elem_rule(g, o), fr = gen_face_rule(g, face_type(o)); Field q = gen_field(g, false); FieldCoef Q(q); FieldVec UD(o.dim); for (auto &c : UD.f) c = gen_field(g, false); Array<int> mark(o.m->bdr_attributes.Max()); for (int &i : mark) i = g.range(0, 1); int terms = g.range(1, 15); g.note << "terms " << terms << (fast ? " fast" : "");
   ROMNonlinearForm R(nb, f.get()); NonlinearForm N(f.get()); R.SetBasis(F0, offset); auto rule = [](HyperReductionIntegrator *I, IntegrationRule &r) { I->SetIntRule(&r); return I; };
   auto inv = [&]() { return rule(new IncompressibleInviscidFluxNLFIntegrator(Q), er); }; auto con = [&]() { return rule(new VectorConvectionTrilinearFormIntegrator(Q), er); }; auto lf = [&](bool d) { return rule(new DGLaxFriedrichsFluxIntegrator(Q, d ? &UD : NULL), fr); };
   auto all = [&](int where, int k, const Array<int> *mk) { std::vector<SampleInfo> S; IntegrationRule &ir = where ? fr : er; auto add = [&](int id) { for (int p = 0; p < ir.GetNPoints(); p++) S.push_back({ id, p, ir.IntPoint(p).weight }); }; if (!where) for (int e = 0; e < o.m->GetNE(); e++) add(e); else if (where == 1) for (int i = 0; i < o.m->GetNumFaces(); i++) { int a, b; o.m->GetFaceElements(i, &a, &b); if (b >= 0) add(i); } if (where == 2) for (int b = 0; b < o.m->GetNBE(); b++) if (!mk || (*mk)[o.m->GetBdrAttribute(b) - 1]) add(b);
      Rnd r(g.seed()); if (r.range(0, 1)) for (int i = (int) S.size() - 1; i > 0; i--) std::swap(S[i], S[r.range(0, i)]); Array<SampleInfo> A; for (auto &s : S) A.Append(s); set_samples(R, where, k, A); };
   int kd = 0, kb = 0; if (terms & 1) { R.AddDomainIntegrator(inv()); N.AddDomainIntegrator(inv()); all(0, kd++, NULL); } if (terms & 2) { R.AddDomainIntegrator(con()); N.AddDomainIntegrator(con()); all(0, kd++, NULL); } if (terms & 4) { R.AddInteriorFaceIntegrator(lf(false)); N.AddInteriorFaceIntegrator(lf(false)); all(1, 0, NULL); }
   if (terms & 8) { R.AddBdrFaceIntegrator(lf(true), mark); N.AddBdrFaceIntegrator(lf(true), mark); all(2, kb++, &mark); R.AddBdrFaceIntegrator(lf(false)); N.AddBdrFaceIntegrator(lf(false)); all(2, kb++, NULL); }
   if (fast) { R.PrecomputeCoefficients(); R.SetPrecomputeMode(true); }
   for (int t = 0; t < 2; t++)
   {
      Rnd r(g.seed()); Vector x(nb), full(B.Height()), y(nb), Y(B.Height()), e(nb); r.fill(x); B.Mult(x, full); N.Mult(full, Y); B.MultTranspose(Y, e); R.Mult(x, y); near(y, e, 1e-10, "reduced vector");
      DenseMatrix &G = dynamic_cast<DenseMatrix &>(R.GetGradient(x)); Operator &A = N.GetGradient(full); DenseMatrix E(nb); for (int j = 0; j < nb; j++) { Vector b, c; B.GetColumnReference(j, b); A.Mult(b, Y); E.GetColumnReference(j, c); B.MultTranspose(Y, c); } near(G, E, 1e-10, "reduced gradient");
   }
   g.nontrivial = true;
}

// ---------------------------------------------------------------- training
static CAROM::Matrix distributed(const DenseMatrix &A) { CAROM::Matrix M(A.Height(), A.Width(), true); for (int i = 0; i < A.Height(); i++) for (int j = 0; j < A.Width(); j++) M(i, j) = A(i, j); return M; }
// how far r is from what the tolerance allows on b (at most 1: allowed); sums that cancel to rounding are allowed to differ
static double excess(const Vector &r, const Vector &b, double tol, bool linf) { if (!linf) return r.Norml2() / (tol * (1 + 1e-6) * b.Norml2() + 1e-11); double m = 0; for (int i = 0; i < r.Size(); i++) m = std::max(m, std::abs(r[i]) / (tol * (1 + 1e-6) * std::abs(b[i]) + 1e-11)); return m; }
// what every trained set must satisfy; A: (row per sample) test values, all rows: rhs = sum of rule weights
static void trained(const EQPElement &E0, const std::vector<int> &ids, const IntegrationRule &ir, const DenseMatrix &Gt, double tol, bool linf, const char *what)
{
   EQPElement &E = const_cast<EQPElement &>(E0); int nqe = ir.GetNPoints(); Vector w(Gt.Height()), full(Gt.Height()), b(Gt.Width()), a(Gt.Width()); w = 0.; for (size_t i = 0; i < ids.size(); i++) for (int p = 0; p < nqe; p++) full[i * nqe + p] = ir.IntPoint(p).weight; Gt.MultTranspose(full, b);
   for (int i = 0; i < E.Size(); i++) { SampleInfo &s = E.GetSample(i)->info; auto it = std::find(ids.begin(), ids.end(), s.el); CHECK(it != ids.end(), "%s: sample at %d, which is not one of the places of the integrator", what, s.el); CHECK(s.qp >= 0 && s.qp < nqe, "%s: point %d of %d", what, s.qp, nqe); CHECK(s.qw > 0, "%s: weight %g", what, s.qw); int k = (it - ids.begin()) * nqe + s.qp; CHECK(w[k] == 0., "%s: the same point twice", what); w[k] = s.qw; }
   Gt.MultTranspose(w, a); a -= b; double r = excess(a, b, tol, linf); CHECK(r <= 1, "%s: the sampled sums differ from the full ones by %g times what the tolerance %g allows", what, r, tol);
}
PROP(P43, training, 1200, 12000, "at least two snapshots or basis vectors")
{
   bool linf = g.coin(0.3); eqp_config(linf ? "linf" : "l2"); OneMesh o = gen_mesh(g, true); std::unique_ptr<FiniteElementCollection> fec; int order; auto f = gen_space(g, o, o.dim, o.dim == 3 ? 1 : 2, fec, order); int nt = g.range(1, 3), nb = g.range(1, 3), ns = g.range(1, 3), offset; DenseMatrix B, U; DenseMatrix F0 = gen_basis(g, f->GetTrueVSize(), nb, offset, B);
   std::vector<std::unique_ptr<Term>> T; int count[3] = { 0, 0, 0 }; std::vector<int> index; ROMNonlinearForm form(nb, f.get()); form.SetBasis(F0, offset); for (int i = 0; i < nt; i++) { T.push_back(gen_term(g, o)); if (T[i]->ids.empty()) throw pbt::Discard(); for (int p = 0; p < T[i]->ir.GetNPoints(); p++) { double &w = T[i]->ir.IntPoint(p).weight; w = std::abs(w) + 0.01; } /* otherwise no positive weights need exist */ add_term(form, *T[i]); index.push_back(count[T[i]->where]++); }
   Rnd r(g.seed()); U.SetSize(B.Height() + (g.coin(0.2) ? 2 : 0), ns); fill(r, U); double tol = g.pick(std::vector<double>{ 1e-2, 1e-3, 0.2, 1e-6 }); g.note << nb << " basis vectors, " << ns << " snapshots, tolerance " << tol << (linf ? " linf" : "");
   CAROM::Matrix snap = distributed(U), plain(U.Height(), ns, false); for (int i = 0; i < U.Height(); i++) for (int j = 0; j < ns; j++) plain(i, j) = U(i, j);
   form.TrainEQP(snap, tol);
   for (int i = 0; i < nt; i++)
   {
      Term &t = *T[i]; int nqe = t.ir.GetNPoints(), ne = t.ids.size(); DenseMatrix Gt(ne * nqe, nb * ns); Array<int> v; Vector u, x(B.Height());
      for (int s = 0; s < ns; s++) { for (int k = 0; k < x.Size(); k++) x[k] = U(k, s); for (int e = 0; e < ne; e++) for (int p = 0; p < nqe; p++) { t.eval(o, *f, t.ids[e], p, 1., x, v, u, NULL); for (int j = 0; j < nb; j++) { double c = 0; for (int a = 0; a < v.Size(); a++) c += B(v[a], j) * u[a]; Gt(e * nqe + p, j + s * nb) = c; } } }
      CAROM::Matrix A(1, 1, true); CAROM::Vector b(1, false); Array<int> idx; if (t.where == 0) form.SetupEQPSystemForDomainIntegrator(plain, t.I, A, b); else if (t.where == 1) form.SetupEQPSystemForInteriorFaceIntegrator(plain, t.I, A, b, idx); else form.SetupEQPSystemForBdrFaceIntegrator(plain, t.I, t.mark, A, b, idx);
      CHECK(A.numRows() == Gt.Height() && A.numColumns() == Gt.Width() && b.dim() == Gt.Width(), "system is %dx%d, expected %dx%d", A.numRows(), A.numColumns(), Gt.Height(), Gt.Width()); if (t.where) { CHECK(idx.Size() == ne, "%d places, expected %d", idx.Size(), ne); for (int e = 0; e < ne; e++) CHECK(std::find(t.ids.begin(), t.ids.end(), idx[e]) != t.ids.end(), "place %d", idx[e]); }
      double sc = std::max(1., max_abs(Gt)); for (int e = 0; e < ne; e++) { int me = t.where ? std::find(t.ids.begin(), t.ids.end(), idx[e]) - t.ids.begin() : e; for (int p = 0; p < nqe; p++) for (int j = 0; j < Gt.Width(); j++) CHECK(std::abs(A(e * nqe + p, j) - Gt(me * nqe + p, j)) < 1e-10 * sc, "entry (%d,%d) of the system is %.15g, expected %.15g", e * nqe + p, j, A(e * nqe + p, j), Gt(me * nqe + p, j)); }
      for (int j = 0; j < Gt.Width(); j++) { double c = 0; for (int e = 0; e < ne; e++) for (int p = 0; p < nqe; p++) c += Gt(e * nqe + p, j) * t.ir.IntPoint(p).weight; CHECK(std::abs(c - b(j)) < 1e-9 * std::max(1., sc * ne), "right-hand side %d is %.15g, expected %.15g", j, b(j), c); }
      EQPElement *E = form.GetEQPForIntegrator(type_of(t.where), index[i]); CHECK(E, "no samples"); trained(*E, t.ids, t.ir, Gt, tol, linf, "training");
   }
   g.nontrivial = nb * ns >= 2;
}

// ---------------------------------------------------------------- across interfaces
struct Parts   // spaces per component, shared by its subdomains; a basis per component
{
   Sys &s; std::vector<std::unique_ptr<FiniteElementCollection>> fec; std::vector<std::unique_ptr<FiniteElementSpace>> own; Array<FiniteElementSpace *> fes, comp; std::vector<DenseMatrix> full, B; std::vector<int> off; Array<int> start; int order;
   Parts(Gen &g, Sys &S, int max_order, int max_nb) : s(S)
   {
      bool h1 = g.coin(0.3), mixed = g.coin(0.2); int ord = g.coin() ? Ordering::byVDIM : Ordering::byNODES, bt = g.coin(0.3) ? BasisType::GaussLobatto : BasisType::GaussLegendre; order = g.range(1, max_order); g.note << (h1 ? "H1" : "L2") << " order " << order << (mixed ? " mixed" : "") << (ord ? " byVDIM; " : " byNODES; ");
      auto coll = [&](int c) { int o = mixed && c % 2 ? std::max(1, order - 1) : order; if (h1) fec.emplace_back(new H1_FECollection(o, s.dim)); else fec.emplace_back(new L2_FECollection(o, s.dim, bt)); return fec.back().get(); };
      for (int c = 0; c < s.T->GetNumComponents(); c++) { own.emplace_back(new FiniteElementSpace(s.T->GetComponentMesh(c), coll(c), s.dim, ord)); comp.Append(own.back().get()); int o; B.emplace_back(); full.push_back(gen_basis(g, comp[c]->GetTrueVSize(), g.range(1, max_nb), o, B[c])); off.push_back(o); }
      start.Append(0); for (int m = 0; m < s.n; m++) { int c = s.T->GetMeshType(m); own.emplace_back(new FiniteElementSpace(s.ms[m], coll(c), s.dim, ord)); fes.Append(own.back().get()); start.Append(start.Last() + B[c].Width()); }
   }
   DenseMatrix &basis(int m) { return B[s.T->GetMeshType(m)]; }
   void give(ROMInterfaceForm &F) { for (int c = 0; c < comp.Size(); c++) F.SetBasisAtComponent(c, full[c], off[c]); F.UpdateBlockOffsets(); }
   int size() { return start.Last(); }
};
static Vector part(const Vector &x, int a, int b) { Vector y(b - a); for (int i = a; i < b; i++) y[i - a] = x[i]; return y; }
// the point of interface k of port p, with weight w, seen from both elements
static std::vector<Pt> port_point(Parts &A, int p, int k, const IntegrationPoint &ip, double w, int &e1, int &e2)
{
   Sys &s = A.s; const PortInfo *P = s.T->GetPortInfo(p); InterfaceInfo &I = (*s.T->GetInterfaceInfos(p))[k]; Mesh &m1 = *s.ms[P->Mesh1], &m2 = *s.ms[P->Mesh2]; FaceElementTransformations *t1, *t2; s.T->GetInterfaceTransformations(&m1, &m2, &I, t1, t2); e1 = t1->Elem1No; e2 = t2->Elem1No;
   IntegrationRule one(1); one.IntPoint(0) = ip; one.IntPoint(0).weight = w; auto Q = face_points(m1, be_face(m1, I.BE1), e1, one); t1->SetAllIntPoints(&ip); t1->Elem1->Transform(t1->GetElement1IntPoint(), Q[0].x); element_at(m1, e1, *A.fes[P->Mesh1]->GetFE(e1), Q[0].x, Q[0], 0); element_at(m2, e2, *A.fes[P->Mesh2]->GetFE(e2), Q[0].x, Q[0], 1); Q[0].ns = 2; return Q;
}
static DenseMatrix rows(const DenseMatrix &B, const Array<int> &v) { DenseMatrix R(v.Size(), B.Width()); for (int a = 0; a < v.Size(); a++) for (int k = 0; k < B.Width(); k++) R(a, k) = B(v[a], k); return R; }
static void lift(DenseMatrix &B, const Vector &x, std::vector<double> &z) { Vector u(B.Height()); B.Mult(x, u); for (double d : u) z.push_back(d); }

PROP(P43, reduced_interface_form, 2500, 30000, "some interface is sampled and the state is not zero")
{
   auto S0 = gen_sys(g, 4, 2); Sys &s = *S0; if (!s.faces()) throw pbt::Discard(); eqp_config("l2"); Parts A(g, s, s.dim == 3 ? 2 : 3, 3); int ni = g.range(1, 2), nr = s.T->GetNumRefPorts(), np = s.T->GetNumPorts(), sampled = 0, nz = 0; std::vector<Field> q; std::vector<std::unique_ptr<FieldCoef>> Q; std::vector<IntegrationRule> ir(ni);
   ROMInterfaceForm F(s.ms, A.fes, A.comp, s.T.get()); A.give(F); for (int i = 0; i < ni; i++) { q.push_back(gen_field(g, false)); Q.emplace_back(new FieldCoef(q[i])); ir[i] = gen_rule(g, s.fgeom(), 3); auto *I = new DGLaxFriedrichsFluxIntegrator(*Q[i]); I->SetIntRule(&ir[i]); F.AddInterfaceIntegrator(I); }
   std::vector<Array<SampleInfo>> S(ni * nr); std::vector<char> set(ni * nr, 0); auto infos = [&](int rp) { std::vector<int> ids; for (int k = 0; k < s.T->GetRefInterfaceInfos(rp)->Size(); k++) ids.push_back(k); return ids; };
   auto sample = [&](int i, int rp) { S[i * nr + rp] = gen_samples(g, infos(rp), ir[i].GetNPoints(), 4); set[i * nr + rp] = 1; F.UpdateInterFaceIntegratorSampling(i, rp, S[i * nr + rp]); for (int p = 0; p < np; p++) sampled += S[i * nr + rp].Size() && s.T->GetPortType(p) == rp; };
   for (int i = 0; i < ni; i++) for (int rp = 0; rp < nr; rp++) if (g.coin(0.85)) sample(i, rp);
   auto rest = [&]() { for (int i = 0; i < ni; i++) for (int rp = 0; rp < nr; rp++) if (!set[i * nr + rp]) sample(i, rp); };
   bool fast = false, ready = false, saved = false; int steps = g.range(1, 5); std::string fn = pbt::scratch() + "/itf.h5"; g.note << nr << " port types " << np << " ports:";
   for (int t = 0; t < steps; t++)
   {
      int op = g.range(0, 5); Rnd r(g.seed());
      if (op == 0) { if (!ready) { rest(); F.PrecomputeCoefficients(); ready = true; } fast = !fast; F.SetPrecomputeMode(fast); g.note << (fast ? " fast" : " slow"); continue; }
      if (op == 1 && !ready && nr) { sample(g.range(0, ni - 1), g.range(0, nr - 1)); continue; }
      if (op == 2 && !ready && !saved) { rest(); hid_t h = H5Fcreate(fn.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); for (int i = 0; i < ni; i++) F.SaveEQPForIntegrator(i, h, "i" + std::to_string(i)); for (int i = 0; i < ni; i++) for (int rp = 0; rp < nr; rp++) if (g.coin()) F.UpdateInterFaceIntegratorSampling(i, rp, Array<SampleInfo>()); for (int i = 0; i < ni; i++) F.LoadEQPForIntegrator(i, h, "i" + std::to_string(i)); CHECK(H5Fget_obj_count(h, H5F_OBJ_ALL) == 1, "objects of the file are still open"); H5Fclose(h); saved = true; g.note << " load"; continue; }
      Vector x(A.size()); r.fill(x); if (r.range(0, 9) == 0) x = 0.; else nz++; bool grad = op >= 4, ok = true; g.note << (grad ? " grad" : " add"); Vector y(A.size()), e; r.fill(y); e = y; DenseMatrix E(A.size()); E = 0.;
      Array2D<SparseMatrix *> M(s.n, s.n); for (int a = 0; a < s.n; a++) for (int b = 0; b < s.n; b++) { int h = A.basis(a).Width(), w = A.basis(b).Width(); M(a, b) = new SparseMatrix(h, w); int i = r.range(0, h - 1), j = r.range(0, w - 1); double d = r.uni(-1, 1); M(a, b)->Add(i, j, d); E(A.start[a] + i, A.start[b] + j) += d; }
      for (int i = 0; i < ni; i++) for (int p = 0; p < np; p++) for (const SampleInfo &sm : S[i * nr + s.T->GetPortType(p)])
      {
         int e1, e2, m[2] = { s.T->GetPortInfo(p)->Mesh1, s.T->GetPortInfo(p)->Mesh2 }; auto P = port_point(A, p, sm.el, ir[i].IntPoint(sm.qp), sm.qw, e1, e2); Array<int> v[2]; A.fes[m[0]]->GetElementVDofs(e1, v[0]); A.fes[m[1]]->GetElementVDofs(e2, v[1]); DenseMatrix R[2] = { rows(A.basis(m[0]), v[0]), rows(A.basis(m[1]), v[1]) }; std::vector<double> z, w; for (int k = 0; k < 2; k++) lift(R[k], part(x, A.start[m[k]], A.start[m[k] + 1]), z);
         face_residual(LAX_FRIEDRICHS, P, q[i], (FieldVec *) NULL, z, w); int o[3] = { 0, v[0].Size(), v[0].Size() + v[1].Size() };
         if (!grad) { for (int k = 0; k < 2; k++) for (int j = 0; j < R[k].Width(); j++) for (int a = 0; a < v[k].Size(); a++) e[A.start[m[k]] + j] += R[k](a, j) * w[o[k] + a]; continue; }
         if (!lf_smooth(P, z, NULL)) { ok = false; continue; } DenseMatrix J; jacobian([&](const std::vector<Z> &a, std::vector<Z> &b) { face_residual(LAX_FRIEDRICHS, P, q[i], (FieldVec *) NULL, a, b); }, z, J);
         for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) { DenseMatrix Jab = sub(J, o[a], o[a + 1], o[b], o[b + 1]), u(R[a].Width(), Jab.Width()), c(R[a].Width(), R[b].Width()); MultAtB(R[a], Jab, u); Mult(u, R[b], c); for (int k = 0; k < c.Height(); k++) for (int l = 0; l < c.Width(); l++) E(A.start[m[a]] + k, A.start[m[b]] + l) += c(k, l); }
      }
      if (!grad) { F.InterfaceAddMult(x, y); near(y, e, 1e-10, fast ? "precomputed reduced vector" : "reduced vector"); }
      else if (ok) { F.InterfaceGetGradient(x, M); for (int a = 0; a < s.n; a++) for (int b = 0; b < s.n; b++) { M(a, b)->Finalize(); DenseMatrix D; to_dense(*M(a, b), D); near(D, sub(E, A.start[a], A.start[a + 1], A.start[b], A.start[b + 1]), 1e-10, fast ? "precomputed reduced gradient" : "reduced gradient"); } }
      for (int a = 0; a < s.n; a++) for (int b = 0; b < s.n; b++) delete M(a, b);
   }
   g.nontrivial = sampled && nz;
}

// every point of every interface with the weights of the rule: the Galerkin projection of the full interface form
PROP(P43, all_interface_points, 1200, 15000, "some port has interfaces")
{
   auto S0 = gen_sys(g, 4, 2); Sys &s = *S0; if (!s.faces()) throw pbt::Discard(); eqp_config("l2"); Parts A(g, s, s.dim == 3 ? 2 : 3, 3); bool fast = g.coin(); Field q = gen_field(g, false); FieldCoef Q(q); IntegrationRule ir = gen_face_rule(g, s.fgeom()); int nr = s.T->GetNumRefPorts(); g.note << (fast ? "precomputed" : "direct");
   ROMInterfaceForm R(s.ms, A.fes, A.comp, s.T.get()); A.give(R); InterfaceForm N(s.ms, A.fes, s.T.get()); auto mk = [&]() { auto *I = new DGLaxFriedrichsFluxIntegrator(Q); I->SetIntRule(&ir); return I; }; R.AddInterfaceIntegrator(mk()); N.AddInterfaceIntegrator(mk());
   for (int rp = 0; rp < nr; rp++) { Array<SampleInfo> S; for (int k = 0; k < s.T->GetRefInterfaceInfos(rp)->Size(); k++) for (int p = 0; p < ir.GetNPoints(); p++) S.Append({ k, p, ir.IntPoint(p).weight }); Rnd r(g.seed()); for (int i = S.Size() - 1; i > 0; i--) std::swap(S[i], S[r.range(0, i)]); R.UpdateInterFaceIntegratorSampling(0, rp, S); }
   if (fast) { R.PrecomputeCoefficients(); R.SetPrecomputeMode(true); }
   Array<int> fo; fo.Append(0); for (int m = 0; m < s.n; m++) fo.Append(fo.Last() + A.fes[m]->GetVSize()); Rnd r(g.seed()); Vector x(A.size()), y(A.size()), e(A.size()), X(fo.Last()), Y(fo.Last()); r.fill(x); y = 0.; e = 0.; Y = 0.; 
   for (int m = 0; m < s.n; m++) { Vector u(X.GetData() + fo[m], fo[m + 1] - fo[m]); A.basis(m).Mult(part(x, A.start[m], A.start[m + 1]), u); }
   N.InterfaceAddMult(X, Y); R.InterfaceAddMult(x, y); for (int m = 0; m < s.n; m++) { Vector u(e.GetData() + A.start[m], A.start[m + 1] - A.start[m]); A.basis(m).MultTranspose(part(Y, fo[m], fo[m + 1]), u); } near(y, e, 1e-10, "reduced vector");
   Array2D<SparseMatrix *> M(s.n, s.n), K(s.n, s.n); for (int a = 0; a < s.n; a++) for (int b = 0; b < s.n; b++) { M(a, b) = new SparseMatrix(A.basis(a).Width(), A.basis(b).Width()); K(a, b) = new SparseMatrix(fo[a + 1] - fo[a], fo[b + 1] - fo[b]); }
   N.InterfaceGetGradient(X, K); R.InterfaceGetGradient(x, M);
   for (int a = 0; a < s.n; a++) for (int b = 0; b < s.n; b++) { M(a, b)->Finalize(); K(a, b)->Finalize(); DenseMatrix D, k, t(A.basis(a).Width(), K(a, b)->Width()), c(A.basis(a).Width(), A.basis(b).Width()); to_dense(*M(a, b), D); to_dense(*K(a, b), k); MultAtB(A.basis(a), k, t); Mult(t, A.basis(b), c); near(D, c, 1e-10, "reduced gradient"); delete M(a, b); delete K(a, b); }
   g.nontrivial = true;
}

PROP(P43, interface_training, 1200, 12000, "at least two pairs of snapshots or basis vectors")
{
   auto S0 = gen_sys(g, 4, 2, false); Sys &s = *S0; bool linf = g.coin(0.3); eqp_config(linf ? "linf" : "l2"); Parts A(g, s, s.dim == 3 ? 1 : 2, 2); int nr = s.T->GetNumRefPorts(), np = s.T->GetNumPorts(), ni = g.range(1, 2), rp = -1, port = -1; if (!nr) throw pbt::Discard();
   int first = g.range(0, nr - 1); for (int i = 0; i < nr && port < 0; i++) { rp = (first + i) % nr; for (int p = 0; p < np; p++) if (s.T->GetPortType(p) == rp) port = p; } if (port < 0) throw pbt::Discard(); int c1, c2, a1, a2; s.T->GetRefPortInfo(rp, c1, c2, a1, a2); const PortInfo *pi = s.T->GetPortInfo(port); CHECK(s.T->GetMeshType(pi->Mesh1) == c1 && s.T->GetMeshType(pi->Mesh2) == c2, "port %d does not join its components", port);
   ROMInterfaceForm F(s.ms, A.fes, A.comp, s.T.get()); A.give(F); std::vector<Field> q; std::vector<std::unique_ptr<FieldCoef>> Q; std::vector<IntegrationRule> ir(ni); std::vector<InterfaceNonlinearFormIntegrator *> I; for (int i = 0; i < ni; i++) { Field f = gen_field(g, false); f.kind = 0; q.push_back(f); Q.emplace_back(new FieldCoef(f)); ir[i] = gen_rule(g, s.fgeom(), 3); for (int p = 0; p < ir[i].GetNPoints(); p++) { double &w = ir[i].IntPoint(p).weight; w = std::abs(w) + 0.01; } auto *L = new DGLaxFriedrichsFluxIntegrator(*Q[i]); L->SetIntRule(&ir[i]); I.push_back(L); F.AddInterfaceIntegrator(L); }
   int n1 = g.range(1, 3), n2 = g.range(1, 3), ns = g.range(1, 3); Rnd r(g.seed()); DenseMatrix U1(A.comp[c1]->GetTrueVSize() + (g.coin(0.2) ? 2 : 0), n1), U2(A.comp[c2]->GetTrueVSize(), n2); fill(r, U1); fill(r, U2); Array2D<int> pairs(ns, 2); for (int i = 0; i < ns; i++) { pairs(i, 0) = r.range(0, n1 - 1); pairs(i, 1) = r.range(0, n2 - 1); }
   double tol = g.pick(std::vector<double>{ 1e-2, 1e-3, 0.2, 1e-6 }); int b1 = A.B[c1].Width(), b2 = A.B[c2].Width(), nb = b1 + b2; g.note << ns << " pairs, tolerance " << tol << (linf ? " linf" : "") << (c1 == c2 ? " same component" : "");
   Array<InterfaceInfo> *L = s.T->GetRefInterfaceInfos(rp); int ne = L->Size(); std::vector<int> ids; for (int k = 0; k < ne; k++) ids.push_back(k); auto plain = [](const DenseMatrix &U) { CAROM::Matrix P(U.Height(), U.Width(), false); for (int i = 0; i < U.Height(); i++) for (int j = 0; j < U.Width(); j++) P(i, j) = U(i, j); return P; };
   F.TrainEQPForRefPort(rp, distributed(U1), distributed(U2), pairs, tol); std::string fn = pbt::scratch() + "/train.h5", name = s.T->GetComponentName(c1) + ":" + s.T->GetComponentName(c2) + "-" + std::to_string(a1) + ":" + std::to_string(a2); for (int i = 0; i < ni; i++) for (int k = 0; k < nr; k++) if (k != rp) F.UpdateInterFaceIntegratorSampling(i, k, Array<SampleInfo>());
   hid_t h = H5Fcreate(fn.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); for (int i = 0; i < ni; i++) F.SaveEQPForIntegrator(i, h, "i" + std::to_string(i));
   for (int i = 0; i < ni; i++)
   {
      int nqe = ir[i].GetNPoints(); DenseMatrix Gt(ne * nqe, nb * ns);
      for (int t = 0; t < ns; t++) for (int e = 0; e < ne; e++) for (int p = 0; p < nqe; p++)
      {
         int e1, e2; auto P = port_point(A, port, e, ir[i].IntPoint(p), 1., e1, e2); Array<int> v[2]; A.fes[pi->Mesh1]->GetElementVDofs(e1, v[0]); A.fes[pi->Mesh2]->GetElementVDofs(e2, v[1]); std::vector<double> z, w; for (int d : v[0]) z.push_back(U1(d, pairs(t, 0))); for (int d : v[1]) z.push_back(U2(d, pairs(t, 1))); face_residual(LAX_FRIEDRICHS, P, q[i], (FieldVec *) NULL, z, w);
         for (int j = 0; j < nb; j++) { double c = 0; if (j < b1) for (int a = 0; a < v[0].Size(); a++) c += A.B[c1](v[0][a], j) * w[a]; else for (int a = 0; a < v[1].Size(); a++) c += A.B[c2](v[1][a], j - b1) * w[v[0].Size() + a]; Gt(e * nqe + p, j + t * nb) = c; }
      }
      CAROM::Matrix G(1, 1, true); CAROM::Vector b(1, false); F.SetupEQPSystem(plain(U1), plain(U2), pairs, A.full[c1], A.full[c2], A.off[c1], A.off[c2], A.comp[c1], A.comp[c2], L, I[i], G, b);
      CHECK(G.numRows() == Gt.Height() && G.numColumns() == Gt.Width() && b.dim() == Gt.Width(), "system is %dx%d, expected %dx%d", G.numRows(), G.numColumns(), Gt.Height(), Gt.Width()); double sc = std::max(1., max_abs(Gt));
      for (int a = 0; a < Gt.Height(); a++) for (int j = 0; j < Gt.Width(); j++) CHECK(std::abs(G(a, j) - Gt(a, j)) < 1e-10 * sc, "entry (%d,%d) of the system is %.15g, expected %.15g", a, j, G(a, j), Gt(a, j));
      for (int j = 0; j < Gt.Width(); j++) { double c = 0; for (int a = 0; a < Gt.Height(); a++) c += Gt(a, j) * ir[i].IntPoint(a % nqe).weight; CHECK(std::abs(c - b(j)) < 1e-9 * sc * std::max(1, ne), "right-hand side %d is %.15g, expected %.15g", j, b(j), c); }
      EQPElement E; hid_t gr = H5Gopen2(h, ("i" + std::to_string(i)).c_str(), H5P_DEFAULT); E.Load(gr, name, IntegratorType::INTERFACE); H5Gclose(gr); trained(E, ids, ir[i], Gt, tol, linf, "training");
   }
   H5Fclose(h); g.nontrivial = nb * ns >= 2 && ne;
}
