// level: all
// A problem handed to a solver as an object does what setting the same data on the solver directly does.
#include "fom.hpp"

// The flow solver has meshes of its own, equal to those of the advection solver. MFEM 4.5.2 evaluates a field only on the very mesh object it
// lives on; the later versions the project is written for compare the element counts. This takes the place of the library's function.
void mfem::VectorGridFunctionCoefficient::Eval(Vector &V, ElementTransformation &T, const IntegrationPoint &ip)
{
   CHECK(T.mesh->GetNE() == GridFunc->FESpace()->GetMesh()->GetNE(), "the flow is evaluated on a mesh of %d elements, it lives on one of %d", T.mesh->GetNE(), GridFunc->FESpace()->GetMesh()->GetNE()); GridFunc->GetVectorValue(T, ip, V);
}

// plain functions that forward to what a case generates
static std::function<void(const Vector &, double, Vector &)> VF[16];
static std::function<double(const Vector &, double)> SF[16];
template <int K> void vf(const Vector &x, double t, Vector &y) { VF[K](x, t, y); }
template <int K> double sf(const Vector &x, double t) { return SF[K](x, t); }
template <int... K> static void tables(std::integer_sequence<int, K...>, std::vector<function_factory::GeneralVectorFunction *> &v, std::vector<function_factory::GeneralScalarFunction *> &s) { v = { vf<K>... }; s = { sf<K>... }; }
struct Tables { std::vector<function_factory::GeneralVectorFunction *> v; std::vector<function_factory::GeneralScalarFunction *> s; Tables() { tables(std::make_integer_sequence<int, 16>(), v, s); } };
static const Tables &tab() { static Tables t; return t; }

struct Entry { int attr; BoundaryType type; int fn; };
struct UserProblem : FlowProblem
{
   explicit UserProblem(const std::vector<Entry> &l)
   {
      int n = l.size(); param_num = 0; battr.SetSize(n); bdr_type.SetSize(n); scalar_bdr_ptr.SetSize(n); vector_bdr_ptr.SetSize(n); scalar_bdr_ptr = NULL; vector_bdr_ptr = NULL;
      for (int i = 0; i < n; i++) { battr[i] = l[i].attr; bdr_type[i] = l[i].type; if (l[i].fn >= 0) { scalar_bdr_ptr[i] = tab().s[l[i].fn]; vector_bdr_ptr[i] = tab().v[l[i].fn]; } }
   }
};
static const BoundaryType Z = BoundaryType::ZERO, D = BoundaryType::DIRICHLET, N = BoundaryType::NEUMANN;
// a list of conditions, in any order, with attributes the mesh does not have; what each attribute ends up with
static std::vector<Entry> gen_list(Gen &g, const Case &c, bool all_first, bool neumann, bool full, int nfn, std::map<int, Entry> &eff)
{
   std::vector<int> at(c.whole->bdr_attributes.begin(), c.whole->bdr_attributes.end()); std::sort(at.begin(), at.end()); std::vector<Entry> l; eff.clear();
   auto kind = [&]() { Entry e; int k = g.range(0, neumann ? 2 : 1); e.type = k == 0 ? D : k == 1 ? Z : N; e.fn = e.type == D ? g.range(0, nfn - 1) : -1; return e; };
   if (all_first && g.coin(0.25)) { Entry e = kind(); if (e.type == N) e = { -1, Z, -1 }; e.attr = -1; l.push_back(e); for (int a : at) { eff[a] = e; eff[a].attr = a; } g.note << "all attributes first; "; }
   bool rest = l.empty() || g.coin(0.6);
   std::vector<Entry> own; if (rest) for (int a : at) { if (!l.empty() && g.coin()) continue; if (l.empty() && !full && g.coin(0.25)) continue; Entry e = kind(); e.attr = a; own.push_back(e); }
   for (int k = g.range(0, 2); k > 0; k--) { Entry e = kind(); e.attr = g.range(0, 1) ? at.back() + k : 200 + k; own.push_back(e); }
   Rnd r(g.seed()); for (int i = (int) own.size() - 1; i > 0; i--) std::swap(own[i], own[r.range(0, i)]);
   for (auto &e : own) { l.push_back(e); if (std::find(at.begin(), at.end(), e.attr) != at.end()) eff[e.attr] = e; }
   for (auto &e : l) g.note << e.attr << (e.type == D ? "D" : e.type == Z ? "Z" : "N") << e.fn << " "; g.note << "; "; return l;
}
template <class S> static int index_of(S &s, int attr) { TopologyData td; Array<Mesh *> ms; s.GetTopologyHandler()->ExportInfo(ms, td); return td.global_bdr_attributes->Find(attr); }
static void same(MultiBlockSolver &a, MultiBlockSolver &b, double tol, const char *what, bool mean_free = false)
{
   Vector x(*a.GetSolution()), y(*b.GetSolution()); CHECK(x.Size() == y.Size(), "%s: sizes %d and %d", what, x.Size(), y.Size()); (void) mean_free; double m = std::max(1e-3, max_abs(y)); CHECK(max_abs(x) < 1e30, "%s: the solution is not finite", what); x -= y; CHECK(max_abs(x) <= tol * m, "%s: the solution differs by %g from that of the same data set directly (magnitude %g)", what, max_abs(x), m);
}
static std::function<double(const Vector &, double)> sfun(const Wave &w) { return [w](const Vector &x, double) { return w(x); }; }
static std::function<void(const Vector &, double, Vector &)> vfun(const std::vector<Wave> &w, bool size) { return [w, size](const Vector &x, double, Vector &y) { if (size) y.SetSize(x.Size()); for (int d = 0; d < x.Size(); d++) y[d] = w[d](x); }; }
static std::vector<Wave> waves(Rnd &r, int n, double s) { std::vector<Wave> w; for (int i = 0; i < n; i++) w.push_back(Wave::random(r, s)); return w; }

PROP(P44, poisson_problem, 1200, 18000, "two conditions or more")
{
   Case c = gen_case(g, 0, 0, 3); gen_solver(g, c.doc, true); c.doc["discretization"]["order"] = g.range(1, 2); c.doc["discretization"]["full-discrete-galerkin"] = g.coin(); c.doc["parameterized_problem"]["name"] = "user";
   std::map<int, Entry> eff; auto l = gen_list(g, c, true, true, false, 4, eff); Rnd r(g.seed()); for (int k = 0; k < 5; k++) SF[k] = sfun(Wave::random(r, 1.)); bool rhs = g.coin(0.7), twice = g.coin(0.3); bool any = false; for (auto &e : eff) any = any || e.second.type != N; if (!any) throw pbt::Discard();
   set_config(c.doc); UserProblem P(l); if (rhs) P.scalar_rhs_ptr = tab().s[4]; PoissonSolver a; a.InitVariables(); if (twice) { std::vector<Entry> o = l; for (auto &e : o) if (e.type == D) { e.type = Z; e.fn = -1; } UserProblem Q(o); Q.scalar_rhs_ptr = tab().s[3]; a.SetParameterizedProblem(&Q); } a.SetParameterizedProblem(&P); a.BuildOperators(); a.SetupBCOperators(); a.Assemble(); bool ok = a.Solve();
   set_config(c.doc); PoissonSolver b; b.InitVariables(); for (auto &e : eff) { if (e.second.type == N) { b.SetBdrType(N, index_of(b, e.first)); continue; } if (e.second.type == D) b.AddBCFunction(SF[e.second.fn], e.first); else b.AddBCFunction(0., e.first); }
   if (rhs) b.AddRHSFunction([](const Vector &x, double) { return SF[4](x, 0); }); else b.AddRHSFunction(0.); b.BuildOperators(); b.SetupBCOperators(); b.Assemble(); bool ok2 = b.Solve(); if (!ok2) throw pbt::Discard(); CHECK(ok, "the solve did not converge"); same(a, b, 1e-9, "Poisson"); g.nontrivial = l.size() > 1 && eff.size() > 1;
}
PROP(P44, elasticity_problem, 800, 12000, "two conditions or more")
{
   Case c = gen_case(g, 0, 0, 3); gen_solver(g, c.doc, true); c.doc["discretization"]["order"] = g.range(1, 2); c.doc["discretization"]["full-discrete-galerkin"] = g.coin(0.7); c.doc["parameterized_problem"]["name"] = "user"; int dim = c.dim;
   std::map<int, Entry> eff; auto l = gen_list(g, c, false, true, false, 4, eff); bool any = false; for (auto &e : l) { if (e.type == N && g.coin(0.7)) { e.fn = g.range(0, 3); for (auto &f : eff) if (f.first == e.attr) f.second.fn = e.fn; } } for (auto &e : eff) any = any || e.second.type == D; if (!any) for (auto &e : l) if (!any && eff.count(e.attr)) { e.type = D; e.fn = g.range(0, 3); eff[e.attr] = e; any = true; } if (!any) throw pbt::Discard();
   Rnd r(g.seed()); for (int k = 0; k < 6; k++) VF[k] = vfun(waves(r, 3, 1.), false); double lam = r.uni(.5, 2), mu = r.uni(.5, 2), la = r.uni(-.3, .3), ma = r.uni(-.3, .3); bool rhs = g.coin(0.7), ic = g.coin(0.3), twice = g.coin(0.3); SF[0] = [lam, la](const Vector &x, double) { return lam * (1 + la * sin(x[0])); }; SF[1] = [mu, ma](const Vector &x, double) { return mu * (1 + ma * cos(x[1])); };
   struct X : LinElastSolver { void materials() { lambda_c.SetSize(numSub); mu_c.SetSize(numSub); for (int i = 0; i < numSub; i++) { lambda_c[i] = new FunctionCoefficient([](const Vector &x) { return SF[0](x, 0); }); mu_c[i] = new FunctionCoefficient([](const Vector &x) { return SF[1](x, 0); }); } } };
   set_config(c.doc); UserProblem P(l); P.general_scalar_ptr.SetSize(2); P.general_scalar_ptr[0] = tab().s[0]; P.general_scalar_ptr[1] = tab().s[1]; P.general_vector_ptr.SetSize(1); P.general_vector_ptr[0] = ic ? tab().v[5] : NULL; if (rhs) P.vector_rhs_ptr = tab().v[4];
   LinElastSolver a; a.InitVariables(); (void) twice; a.SetParameterizedProblem(&P); a.BuildOperators(); a.SetupBCOperators(); a.Assemble(); bool ok = a.Solve();
   set_config(c.doc); X b; b.InitVariables(); b.materials(); for (auto &e : eff) { b.SetBdrType(e.second.type, index_of(b, e.first)); if (e.second.fn >= 0) b.AddBCFunction(VF[e.second.fn], e.first); } if (rhs) b.AddRHSFunction(VF[4]); b.BuildOperators(); b.SetupBCOperators(); b.Assemble(); bool ok2 = b.Solve(); if (!ok2) throw pbt::Discard(); CHECK(ok, "the solve did not converge"); same(a, b, 1e-9, "elasticity"); g.nontrivial = l.size() > 1 && eff.size() > 1; (void) dim;
}

// ------------------------------------------------------------------ flows; with velocity prescribed everywhere, the data is balanced
struct Balance { double area = 0, flux = 0, dir = 0, mag = 0; Vector x0; };
// of functions f per attribute over the attributes that carry data
static Balance balance(Mesh &m, const std::map<int, Entry> &eff)
{
   Balance b; int dim = m.Dimension(); b.x0.SetSize(dim); b.x0 = 0.; Vector x, n(dim), v(dim);
   for (int pass = 0; pass < 2; pass++)
   {
      if (pass && b.area > 0) b.x0 /= b.area;
      for (int i = 0; i < m.GetNBE(); i++)
      {
         auto it = eff.find(m.GetBdrAttribute(i)); if (it == eff.end() || it->second.type != D) continue; FaceElementTransformations *T = m.GetBdrFaceTransformations(i); const IntegrationRule &ir = IntRules.Get(T->GetGeometryType(), 8);
         for (int q = 0; q < ir.GetNPoints(); q++)
         {
            const IntegrationPoint &ip = ir.IntPoint(q); T->SetAllIntPoints(&ip); T->Transform(ip, x); CalcOrtho(T->Jacobian(), n);
            if (!pass) { double w = ip.weight * n.Norml2(); b.area += w; b.x0.Add(w, x); }
            else { v.SetSize(dim); VF[it->second.fn](x, 0., v); double s = v * n; b.flux += ip.weight * s; b.mag += ip.weight * v.Norml2() * n.Norml2(); double d = 0; for (int k = 0; k < dim; k++) d += (x[k] - b.x0[k]) * n[k]; b.dir += ip.weight * d; }
         }
      }
   }
   return b;
}
// velocity data of the problem: polynomials, exact in the quadrature of the balance, less the uniform expansion
static void velocity_data(Rnd &r, int dim, double scale, int from, int n)
{
   for (int k = from; k < from + n; k++) { std::vector<Poly> p; for (int d = 0; d < dim; d++) p.push_back(Poly::random(r, dim, 2) * scale); VF[k] = [p, dim](const Vector &x, double, Vector &y) { y.SetSize(dim); for (int d = 0; d < dim; d++) y[d] = p[d](x); }; }
}
template <class S> static void flow_direct(S &b, const std::map<int, Entry> &eff, bool rhs, int dim, const Vector &x0, double del)
{
   for (auto &e : eff) { b.SetBdrType(e.second.type, index_of(b, e.first)); if (e.second.type == N) continue; if (e.second.type == D) { auto f = VF[e.second.fn]; b.AddBCFunction([f, x0, del, dim](const Vector &x, double t, Vector &y) { f(x, t, y); for (int d = 0; d < dim; d++) y[d] -= del * (x[d] - x0[d]); }, e.first); } else { Vector z(dim); z = 0.; b.AddBCFunction(z, e.first); } }
   if (rhs) b.AddRHSFunction(VF[15]); else { Vector z(dim); z = 0.; b.AddRHSFunction(z); }
}
struct FlowCase { Case c; std::map<int, Entry> eff; std::vector<Entry> l; bool rhs, closed; Balance B; double del; };
static FlowCase gen_flow_problem(Gen &g, bool want_one_type)
{
   FlowCase F; F.c = gen_case(g, want_one_type && g.coin(0.8) ? 2 : 0, 0, 3, 2); if (want_one_type) one_type(F.c); Case &c = F.c; if (!c.affine) throw pbt::Discard(); int order = g.range(1, c.dim == 3 ? 1 : 2), dim = c.dim; limit_flow(c, order); gen_solver(g, c.doc, true); bool full = !want_one_type && g.coin(0.75);
   c.doc["discretization"]["order"] = order; c.doc["discretization"]["full-discrete-galerkin"] = g.coin(); c.doc["parameterized_problem"]["name"] = "user"; c.doc["stokes"]["nu"] = 0.7;
   F.l = gen_list(g, c, full, !full, full || want_one_type, 4, F.eff); double scale = g.pick(std::vector<double>{ 1., 1., 0.01, 30., 1000. }); Rnd r(g.seed()); velocity_data(r, dim, scale, 0, 4); std::vector<Wave> w = waves(r, 3, 1.); VF[15] = vfun(w, true); F.rhs = g.coin(0.7);
   F.closed = true; for (int a : c.whole->bdr_attributes) F.closed = F.closed && F.eff.count(a) && F.eff[a].type != N;
   if (F.closed) c.doc["discretization"]["full-discrete-galerkin"] = false; /* the solver says it cannot balance a discontinuous space */ if (!c.whole->bdr_attributes.Size()) throw pbt::Discard(); { bool any = false; for (auto &e : F.eff) any = any || e.second.type != N; if (!any) throw pbt::Discard(); } F.B = balance(*c.whole, F.eff); F.del = 0; if (F.closed && F.B.area > 0) { if (std::abs(F.B.dir) < 1e-3 * F.B.area) throw pbt::Discard(); F.del = F.B.flux / F.B.dir; }
   g.note << (F.closed ? "closed" : "open") << " scale " << scale << "; "; return F;
}
static UserProblem *flow_problem(FlowCase &F)   // the data of the problem is declared with the balancing flux, as the header of the solver asks
{
   int dim = F.c.dim; for (int k = 0; k < 4; k++) { auto f = VF[k]; VF[k + 4] = [f, dim](const Vector &x, double t, Vector &y) { f(x, t, y); Vector q(dim); function_factory::flow_problem::flux(x, q); y -= q; }; }
   std::vector<Entry> l = F.l; for (auto &e : l) if (e.fn >= 0) e.fn += 4; UserProblem *P = new UserProblem(l); if (F.rhs) P->vector_rhs_ptr = tab().v[15]; return P;
}
static void check_balance(FlowCase &F)
{
   using namespace function_factory::flow_problem; double m = F.B.area > 0 ? F.B.mag / F.B.area : 0; CHECK(std::abs(del_u - F.del) <= 1e-9 * (std::abs(F.del) + m), "the balancing expansion rate is %.15g, expected %.15g", del_u, F.del); CHECK(x0.Size() == F.c.dim, "the centre has %d coordinates", x0.Size());
   if (F.closed && F.B.area > 0) { Vector e(x0); e -= F.B.x0; CHECK(max_abs(e) <= 1e-9, "the centre of the boundaries with data is missed by %g", max_abs(e)); } else for (int d = 0; d < x0.Size(); d++) CHECK(x0[d] == x0[d] || !F.closed, "the centre of the boundaries is not a number");
}
PROP(P44, stokes_problem, 1000, 15000, "velocity prescribed on all boundaries, not all zero")
{
   FlowCase F = gen_flow_problem(g, false); Case &c = F.c; int dim = c.dim; bool twice = g.coin(0.3); c.doc["solver"]["relative_tolerance"] = 1e-12; function_factory::flow_problem::nu = 0.7;
   set_config(c.doc); std::unique_ptr<UserProblem> P(flow_problem(F)); StokesSolver a; a.InitVariables(); if (twice) { UserProblem Q(std::vector<Entry>{ { -1, Z, -1 } }); a.SetParameterizedProblem(&Q); } a.SetParameterizedProblem(P.get()); check_balance(F); a.BuildOperators(); a.SetupBCOperators(); a.Assemble(); bool ok = a.Solve(); if (MUMPSSolver::deficient > 1) throw pbt::Discard();
   set_config(c.doc); StokesSolver b; b.InitVariables(); flow_direct(b, F.eff, F.rhs, dim, F.B.x0, F.del); b.BuildOperators(); b.SetupBCOperators(); b.Assemble(); bool ok2 = b.Solve(); if (!ok2 || MUMPSSolver::deficient > 1) throw pbt::Discard(); CHECK(ok, "the solve did not converge"); same(a, b, 1e-6, "Stokes"); g.nontrivial = F.closed && F.B.area > 0;
}

PROP(P44, unsteady_problem, 1600, 24000, "a moving initial state")
{
   FlowCase F = gen_flow_problem(g, true); Case &c = F.c; int dim = c.dim; if (F.closed) throw pbt::Discard(); /* this solver is discontinuous only: nothing to balance */ c.doc["discretization"]["full-discrete-galerkin"] = true; c.doc["navier-stokes"]["zeta"] = 0.6; c.doc["navier-stokes"]["operator-type"] = "lf"; int nt = g.range(1, 2); c.doc["time-integration"]["number_of_timesteps"] = nt; c.doc["time-integration"]["timestep_size"] = 0.05;
   velocity_data(*std::make_unique<Rnd>(g.seed()), dim, 0.5, 0, 4); int ic = g.range(0, 4); Rnd r(g.seed()); VF[14] = vfun(waves(r, 3, 1.), true); Wave pw = Wave::random(r, 1.); VF[13] = [pw](const Vector &x, double, Vector &y) { y.SetSize(1); y[0] = pw(x); }; g.note << "initial state " << ic << "; ";
   set_config(c.doc); function_factory::flow_problem::nu = 0.7; std::unique_ptr<UserProblem> P(flow_problem(F)); if (ic) { P->ic_ptr.SetSize(ic == 4 ? 1 : 2); P->ic_ptr = NULL; if (ic & 1) P->ic_ptr[0] = tab().v[14]; if (ic & 2) P->ic_ptr[1] = tab().v[13]; } bool u0 = ic == 1 || ic == 3, p0 = ic == 2 || ic == 3;
   UnsteadyNSSolver a; a.InitVariables(); if (g.coin(0.3)) { std::unique_ptr<UserProblem> Q(flow_problem(F)); Q->ic_ptr.SetSize(2); Q->ic_ptr[0] = tab().v[15]; Q->ic_ptr[1] = NULL; for (int k = 0; k < 4; k++) VF[k + 4] = VF[k]; a.SetParameterizedProblem(Q.get()); P.reset(flow_problem(F)); if (ic) { P->ic_ptr.SetSize(ic == 4 ? 1 : 2); P->ic_ptr = NULL; if (ic & 1) P->ic_ptr[0] = tab().v[14]; if (ic & 2) P->ic_ptr[1] = tab().v[13]; } }
   a.SetParameterizedProblem(P.get()); check_balance(F); a.BuildOperators(); a.SetupBCOperators(); a.Assemble(); a.Solve(); if (MUMPSSolver::deficient > 1) throw pbt::Discard();
   set_config(c.doc); UnsteadyNSSolver b; b.InitVariables(); flow_direct(b, F.eff, F.rhs, dim, F.B.x0, 0.); b.BuildOperators(); b.SetupBCOperators(); b.Assemble();
   VectorFunctionCoefficient U(dim, [](const Vector &x, Vector &v) { VF[14](x, 0., v); }), Pc(1, [](const Vector &x, Vector &v) { VF[13](x, 0., v); }); for (int m = 0; m < c.nsub; m++) { if (u0) b.GetGridFunction(2 * m)->ProjectCoefficient(U); if (p0) b.GetGridFunction(2 * m + 1)->ProjectCoefficient(Pc); } b.Solve(); if (MUMPSSolver::deficient > 1) throw pbt::Discard();
   if (!(max_abs(*b.GetSolution()) < 1e6)) throw pbt::Discard(); same(a, b, 1e-7, "unsteady Navier-Stokes"); g.nontrivial = u0;
}
// advection by a flow that is solved for, saved and loaded; the flow is a polynomial of its space
PROP(P44, advection_by_flow, 600, 9000, "the flow moves")
{
   Case c = gen_case(g, 0, 0, 3, 2); if (!c.affine) throw pbt::Discard(); int order = g.range(1, c.dim == 3 ? 1 : 2), dim = c.dim; limit_flow(c, order); gen_solver(g, c.doc, true); c.doc["discretization"]["order"] = order; c.doc["discretization"]["full-discrete-galerkin"] = false; c.doc["parameterized_problem"]["name"] = "user"; double Pe = g.pick(std::vector<double>{ 0.3, 1. }); c.doc["adv-diff"]["peclet_number"] = Pe; c.doc["solver"]["relative_tolerance"] = 1e-12;
   Rnd r(g.seed()); std::vector<Poly> u(dim); int du = g.range(1, order + 1); if (dim == 2) { Poly s = Poly::random(r, 2, du + 1); u[0] = s.d(1); u[1] = s.d(0) * -1.; } else { Poly s[3]; for (auto &q : s) q = Poly::random(r, 3, du); for (int d = 0; d < 3; d++) u[d] = s[(d + 2) % 3].d((d + 1) % 3) + s[(d + 1) % 3].d((d + 2) % 3) * -1.; }
   std::vector<Poly> f; for (int d = 0; d < dim; d++) f.push_back(lap(u[d], dim) * -0.7); VF[0] = [u, dim](const Vector &x, double, Vector &y) { y.SetSize(dim); for (int d = 0; d < dim; d++) y[d] = u[d](x); }; VF[4] = [dim](const Vector &x, double t, Vector &y) { VF[0](x, t, y); Vector q(dim); function_factory::flow_problem::flux(x, q); y -= q; }; VF[5] = [f, dim](const Vector &x, double, Vector &y) { y.SetSize(dim); for (int d = 0; d < dim; d++) y[d] = f[d](x); }; VF[6] = [dim](const Vector &, double, Vector &y) { y.SetSize(dim); y = 0.1; };
   // pressure 0: the flow carries no stress condition, velocity everywhere
   std::vector<Entry> lf; Array<int> at; at = c.whole->bdr_attributes; at.Sort(); for (int a : at) lf.push_back({ a, D, 4 }); std::map<int, Entry> eff; auto l = gen_list(g, c, false, true, false, 4, eff); bool any = false; for (auto &e : eff) any = any || e.second.type != N; if (!any) throw pbt::Discard(); for (int k = 0; k < 5; k++) SF[k] = sfun(Wave::random(r, 1.));
   std::map<int, Entry> ef; for (auto &e : lf) ef[e.attr] = { e.attr, D, 0 }; if (!at.Size()) throw pbt::Discard(); Balance B = balance(*c.whole, ef); if (std::abs(B.dir) < 1e-3 * B.area) throw pbt::Discard(); int mode = g.range(0, 2); /* 0 solve; 1 solve and save, then load; 2 load asked for, nothing there */ g.note << "mode " << mode << "; "; std::string file = c.dir + "/flow.h5"; if (mode == 1) c.doc["adv-diff"]["save_flow"] = true; if (mode == 2) c.doc["adv-diff"]["load_flow"] = true; if (mode) c.doc["adv-diff"]["flow_file"] = file;
   function_factory::flow_problem::nu = 0.7; function_factory::advdiff_problem::analytic_flow = false; auto run = [&](AdvDiffSolver &S, FlowProblem *fp) { function_factory::advdiff_problem::flow_problem = fp; UserProblem P(l); P.scalar_rhs_ptr = tab().s[4]; S.InitVariables(); S.SetParameterizedProblem(&P); S.BuildOperators(); S.SetupBCOperators(); S.Assemble(); bool ok = S.Solve(); if (MUMPSSolver::deficient > 1) throw pbt::Discard(); return ok; };
   set_config(c.doc); UserProblem Fp(lf); Fp.vector_rhs_ptr = tab().v[5]; AdvDiffSolver a; bool ok = run(a, &Fp);
   set_config(c.doc); function_factory::advdiff_problem::analytic_flow = true; AdvDiffSolver b; b.InitVariables(); b.SetFlowAtSubdomain(VF[0]); for (auto &e : eff) { if (e.second.type == N) { b.SetBdrType(N, index_of(b, e.first)); continue; } if (e.second.type == D) b.AddBCFunction(SF[e.second.fn], e.first); else b.AddBCFunction(0., e.first); } b.AddRHSFunction(SF[4]); b.BuildOperators(); b.SetupBCOperators(); b.Assemble(); bool ok2 = b.Solve(); if (!ok2) throw pbt::Discard(); CHECK(ok, "the solve did not converge"); same(a, b, 1e-5, "advection by the solved flow");
   CHECK(FileExists(file) == (mode == 1), "mode %d: the flow file is%s there", mode, FileExists(file) ? "" : " not");
   if (mode == 1)
   {
      YAML::Node d = YAML::Clone(c.doc); d["adv-diff"]["save_flow"] = g.coin(); d["adv-diff"]["load_flow"] = true; set_config(d); function_factory::advdiff_problem::analytic_flow = false; std::vector<Entry> other = lf; for (auto &e : other) e.fn = 6; UserProblem G(other); /* the stored flow counts, not this one */ AdvDiffSolver e; bool ok3 = run(e, &G); CHECK(ok3, "with the stored flow the solve did not converge"); same(e, a, 1e-12, "advection by the stored flow");
   }
   g.nontrivial = true;
}
