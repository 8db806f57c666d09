// level: all
// Full-order solvers on generated decompositions: exact polynomial solutions, undivided reference solves.
#include "fom.hpp"
#include <sys/stat.h>

// ------------------------------------------------------------------ scalar and elasticity: a polynomial of the space is reproduced
// cost of the stand-in's dense factorisation
PROP(P30, poisson_patch, 1600, 22500, "at least one interface")
{
   Case c = gen_case(g); if (!c.affine) throw pbt::Discard();
   int order = g.range(1, c.dim == 3 ? 2 : 3); bool dg = g.coin(); Sol s = gen_solver(g, c.doc); c.doc["discretization"]["order"] = order; c.doc["discretization"]["full-discrete-galerkin"] = dg;
   if (g.coin(0.3)) c.doc["discretization"]["interface"]["kappa"] = (order + 1) * (order + 1) * (1 + g.range(0, 3));
   int deg = g.range(0, order); Rnd r(g.seed()); Poly u = Poly::random(r, c.dim, deg); Poly f = lap(u, c.dim) * -1.; bool each = g.coin(), split_rhs = g.coin(0.3); double cst = 0.37; g.note << "order " << order << (dg ? " DG" : " CG") << " degree " << deg << "; ";
   set_config(c.doc); PoissonSolver S; S.InitVariables();
   if (each) for (int b = 0; b < c.whole->bdr_attributes.Size(); b++) S.AddBCFunction([u](const Vector &x, double) { return u(x); }, c.whole->bdr_attributes[b]); else S.AddBCFunction([u](const Vector &x, double) { return u(x); });
   if (g.coin()) S.SetBdrType(BoundaryType::DIRICHLET);
   if (split_rhs) { S.AddRHSFunction([f, cst](const Vector &x, double) { return f(x) - cst; }); S.AddRHSFunction(cst); } else S.AddRHSFunction([f](const Vector &x, double) { return f(x); });
   S.BuildOperators(); S.SetupBCOperators(); S.Assemble(); bool ok = S.Solve(); CHECK(ok, "the solve of a symmetric positive definite system did not converge");
   CHECK(S.GetNumSubdomains() == c.nsub, "%d subdomains, expected %d", S.GetNumSubdomains(), c.nsub);
   double sc = 1e-3; std::vector<double> err; for (int m = 0; m < c.nsub; m++) err.push_back(field_error(*S.GetGridFunction(m), *S.GetMesh(m), 1, [&](const Vector &x, Vector &v) { v[0] = u(x); }, sc));
   for (int m = 0; m < c.nsub; m++) CHECK(err[m] <= 1e-6 * sc, "subdomain %d: the solution, a polynomial of degree %d, is missed by %g (magnitude %g)", m, deg, err[m], sc);
   g.nontrivial = c.nsub > 1 && deg > 0; (void) s;
}
PROP(P30, elasticity_patch, 1200, 18000, "at least one interface")
{
   Case c = gen_case(g, 0, 0, 3); if (!c.affine) throw pbt::Discard();
   int order = g.range(1, 2); bool dg = g.coin(0.7); gen_solver(g, c.doc); c.doc["discretization"]["order"] = order; c.doc["discretization"]["full-discrete-galerkin"] = dg;
   int deg = g.range(0, order); Rnd r(g.seed()); std::vector<Poly> u; for (int d = 0; d < c.dim; d++) u.push_back(Poly::random(r, c.dim, deg)); double lam = 1, mu = 1; int dim = c.dim; g.note << "order " << order << (dg ? " DG" : " CG") << " degree " << deg << "; ";
   Poly div; for (int d = 0; d < dim; d++) div = div + u[d].d(d); std::vector<Poly> f; for (int d = 0; d < dim; d++) f.push_back(lap(u[d], dim) * -mu + div.d(d) * -(lam + mu));
   auto U = [u, dim](const Vector &x, double, Vector &v) { v.SetSize(dim); for (int d = 0; d < dim; d++) v[d] = u[d](x); };
   set_config(c.doc); LinElastSolver S; S.InitVariables();
   bool each = g.coin(); if (each) for (int b = 0; b < c.whole->bdr_attributes.Size(); b++) S.AddBCFunction(U, c.whole->bdr_attributes[b]); else S.AddBCFunction(U); S.SetBdrType(BoundaryType::DIRICHLET);
   S.AddRHSFunction([f, dim](const Vector &x, double, Vector &v) { v.SetSize(dim); for (int d = 0; d < dim; d++) v[d] = f[d](x); });
   S.BuildOperators(); S.SetupBCOperators(); S.Assemble(); bool ok = S.Solve(); CHECK(ok, "the solve of a symmetric positive definite system did not converge");
   double sc = 1e-3; std::vector<double> err; for (int m = 0; m < c.nsub; m++) err.push_back(field_error(*S.GetGridFunction(m), *S.GetMesh(m), dim, [&](const Vector &x, Vector &v) { U(x, 0, v); }, sc));
   for (int m = 0; m < c.nsub; m++) CHECK(err[m] <= 1e-6 * sc, "subdomain %d: the displacement, a polynomial of degree %d, is missed by %g (magnitude %g)", m, deg, err[m], sc);
   g.nontrivial = c.nsub > 1 && deg > 0;
}
PROP(P30, advection_diffusion_patch, 1000, 15000, "at least one interface")
{
   Case c = gen_case(g); if (!c.affine) throw pbt::Discard();
   int order = g.range(1, c.dim == 3 ? 2 : 3), dim = c.dim; gen_solver(g, c.doc); double Pe = g.pick(std::vector<double>{ 0., 0.3, 1.1 }); c.doc["discretization"]["order"] = order; c.doc["discretization"]["full-discrete-galerkin"] = false; c.doc["adv-diff"]["peclet_number"] = Pe;
   int deg = g.range(0, order); Rnd r(g.seed()); Poly u = Poly::random(r, dim, deg); std::vector<Poly> b; for (int d = 0; d < dim; d++) b.push_back(Poly::random(r, dim, 1)); Poly f = lap(u, dim) * -1.; for (int d = 0; d < dim; d++) f = f + (b[d] * u.d(d)) * Pe; g.note << "order " << order << " degree " << deg << " Pe " << Pe << "; ";
   set_config(c.doc); AdvDiffSolver S; S.InitVariables(); S.AddBCFunction([u](const Vector &x, double) { return u(x); }); S.SetBdrType(BoundaryType::DIRICHLET); S.AddRHSFunction([f](const Vector &x, double) { return f(x); });
   auto B = [b, dim](const Vector &x, double, Vector &v) { v.SetSize(dim); for (int d = 0; d < dim; d++) v[d] = b[d](x); }; if (g.coin()) S.SetFlowAtSubdomain(B); else for (int m = 0; m < c.nsub; m++) S.SetFlowAtSubdomain(B, m);
   S.BuildOperators(); S.SetupBCOperators(); S.Assemble(); bool ok = S.Solve(); CHECK(ok, "the solve did not converge");
   double sc = 1e-3; std::vector<double> err; for (int m = 0; m < c.nsub; m++) err.push_back(field_error(*S.GetGridFunction(m), *S.GetMesh(m), 1, [&](const Vector &x, Vector &v) { v[0] = u(x); }, sc));
   for (int m = 0; m < c.nsub; m++) CHECK(err[m] <= 1e-6 * sc, "subdomain %d: the solution, a polynomial of degree %d, is missed by %g (magnitude %g)", m, deg, err[m], sc);
   g.nontrivial = c.nsub > 1 && deg > 0;
}

// ------------------------------------------------------------------ Stokes and Navier-Stokes
struct Flow { int dim; std::vector<Poly> u, f; Poly p; double nu, zeta; bool outlet; };
// u divergence-free of degree <= du, p of degree <= dp; with an outlet: a shear flow through it, free of stress there
static Flow gen_flow(Gen &g, const Case &c, int du, int dp, double nu, double zeta, bool steady_convection, bool shear)
{
   Flow F; F.dim = c.dim; F.nu = nu; F.zeta = zeta; F.outlet = c.outlet; Rnd r(g.seed()); int dim = c.dim; F.u.resize(dim);
   if (c.outlet || shear)
   {
      double n[3] = { 1, 0, 0 }, t[3] = { 0, 1, 0 }, t2[3] = { 0, 0, 1 }; if (c.outlet) for (int d = 0; d < 3; d++) n[d] = c.n[d]; else if (dim == 2) { double a = r.uni(0, 6.3); n[0] = cos(a); n[1] = sin(a); } t[0] = -n[1]; t[1] = n[0];
      std::vector<double> a(du + 1); for (auto &v : a) v = r.uni(-1, 1); Poly T = Poly::lin(t, dim, 0) * (1. / Poly::S), f = T.of(a); if (dim == 3) f = f + (Poly::lin(t2, dim, 0) * (1. / Poly::S)).of(a);
      for (int d = 0; d < dim; d++) F.u[d] = f * n[d];
      if (c.outlet) F.p = dp > 0 ? Poly::lin(n, dim, -c.c0) * r.uni(-1, 1) : Poly(); else F.p = Poly::random(r, dim, dp);
   }
   else
   {
      if (dim == 2) { Poly s = Poly::random(r, 2, du + 1); F.u[0] = s.d(1); F.u[1] = s.d(0) * -1.; }
      else { Poly s[3]; for (auto &q : s) q = Poly::random(r, 3, du + 1); for (int d = 0; d < 3; d++) F.u[d] = s[(d + 2) % 3].d((d + 1) % 3) + s[(d + 1) % 3].d((d + 2) % 3) * -1.; }
      F.p = Poly::random(r, dim, dp);
   }
   for (int d = 0; d < dim; d++) { Poly f = lap(F.u[d], dim) * -nu + F.p.d(d); if (steady_convection) for (int e = 0; e < dim; e++) f = f + (F.u[e] * F.u[d].d(e)) * zeta; F.f.push_back(f); }
   return F;
}
template <class S> void set_flow(Gen &g, Case &c, S &s, const Flow &F, bool types)
{
   int dim = F.dim; auto u = F.u, f = F.f; auto U = [u, dim](const Vector &x, double, Vector &v) { v.SetSize(dim); for (int d = 0; d < dim; d++) v[d] = u[d](x); };
   if (types) s.SetBdrType(BoundaryType::DIRICHLET);
   TopologyHandler &T = *s.GetTopologyHandler(); (void) T;
   if (F.outlet) { Array<int> at; at = c.whole->bdr_attributes; at.Sort(); for (int b = 0; b < at.Size(); b++) if (at[b] != OUTLET) s.AddBCFunction(U, at[b]); }
   else if (g.coin()) for (int b = 0; b < c.whole->bdr_attributes.Size(); b++) s.AddBCFunction(U, c.whole->bdr_attributes[b]);
   else s.AddBCFunction(U);
   s.AddRHSFunction([f, dim](const Vector &x, double, Vector &v) { v.SetSize(dim); for (int d = 0; d < dim; d++) v[d] = f[d](x); });
}
// pressure up to a constant when nothing fixes it
template <class S> void check_flow(Case &c, S &s, const Flow &F, double tol, const char *what)
{
   double su = 1e-3, sp = 1e-3, shift = 0; std::vector<double> eu, ep; if (!F.outlet) { Mesh &m = *s.GetMesh(0); ElementTransformation *T = m.GetElementTransformation(0); IntegrationPoint ip = Geometries.GetCenter(T->GetGeometryType()); T->SetIntPoint(&ip); Vector x; T->Transform(ip, x); shift = s.GetGridFunction(1)->GetValue(*T, ip) - F.p(x); }
   for (int m = 0; m < c.nsub; m++)
   {
      eu.push_back(field_error(*s.GetGridFunction(2 * m), *s.GetMesh(m), F.dim, [&](const Vector &x, Vector &v) { for (int d = 0; d < F.dim; d++) v[d] = F.u[d](x); }, su));
      ep.push_back(field_error(*s.GetGridFunction(2 * m + 1), *s.GetMesh(m), 1, [&](const Vector &x, Vector &v) { v[0] = F.p(x) + shift; }, sp));
   }
   for (int m = 0; m < c.nsub; m++) { CHECK(eu[m] <= tol * (su + sp), "%s: subdomain %d: the velocity is missed by %g (magnitude %g)", what, m, eu[m], su); CHECK(ep[m] <= 10 * tol * (su + sp) / std::min(1., F.nu), "%s: subdomain %d: the pressure is missed by %g (magnitude %g)", what, m, ep[m], sp); }
   if (!F.outlet) { double sum = 0; int n = 0; for (int m = 0; m < c.nsub; m++) { Vector &v = *s.GetGridFunction(2 * m + 1); sum += v.Sum(); n += v.Size(); } CHECK(std::abs(sum / n) <= 1e-6 * sp, "%s: with velocity conditions everywhere the mean of the pressure unknowns is %g, expected 0", what, sum / n); }
}
// the assembled system, seen from outside
struct StokesX : StokesSolver
{
   double residual(const Vector &x_sub, double &scale)   // of a solution ordered by subdomains
   {
      Array<int> off(num_var * numSub + 1); off = 0; for (int k = 0; k < numSub; k++) { off[k + 1] = u_offsets[k + 1]; off[k + 1 + numSub] = p_offsets[k + 1] + u_offsets.Last(); }
      BlockVector X(const_cast<double *>(x_sub.GetData()), var_offsets), x(off), b(off); SortByVariables(X, x); SortByVariables(*RHS, b); Vector r(b.Size()); systemOp->Mult(x, r); scale = std::max(max_abs(b), 1e-3); for (int i = 0; i < systemOp->NumRowBlocks(); i++) for (int j = 0; j < systemOp->NumColBlocks(); j++) if (!systemOp->IsZeroBlock(i, j)) scale = std::max(scale, systemOp->GetBlock(i, j).MaxNorm() * max_abs(x)); r -= b; return max_abs(r);
   }
};
static void project_flow(StokesSolver &S, int nsub, const Flow &F)
{
   int dim = F.dim; auto u = F.u; auto p = F.p; VectorFunctionCoefficient U(dim, [u, dim](const Vector &x, Vector &v) { for (int d = 0; d < dim; d++) v[d] = u[d](x); }); FunctionCoefficient P([p](const Vector &x) { return p(x); });
   for (int m = 0; m < nsub; m++) { S.GetGridFunction(2 * m)->ProjectCoefficient(U); S.GetGridFunction(2 * m + 1)->ProjectCoefficient(P); }
}
PROP(P30, stokes_patch, 1000, 15000, "at least one interface")
{
   Case c = gen_case(g, 0, 0, 3, 2, true, g.coin()); if (!c.affine) throw pbt::Discard();
   int order = g.range(1, c.dim == 3 ? 1 : 2), dim = c.dim; limit_flow(c, order); bool dg = g.coin(); Sol s = gen_solver(g, c.doc, dim == 3 || g.coin(0.7)); double nu = g.pick(std::vector<double>{ 1., 1.2, 0.1 }); c.doc["discretization"]["order"] = order; c.doc["discretization"]["full-discrete-galerkin"] = dg; c.doc["stokes"]["nu"] = nu; c.doc["solver"]["relative_tolerance"] = 1e-12;
   int du = g.range(0, dim == 3 ? order : order + 1), dp = g.range(0, order); /* 3D: the face rule for the velocity data is exact to twice the pressure order */ Flow F = gen_flow(g, c, du, dp, nu, 0, false, false); g.note << "order " << order << (dg ? " DG" : " CG") << " degrees " << du << "," << dp << (F.outlet ? " outlet" : "") << "; ";
   set_config(c.doc); StokesX S; S.InitVariables(); set_flow(g, c, S, F, g.coin());
   S.BuildOperators(); S.SetupBCOperators(); S.Assemble();
   // the polynomial solves the assembled equations ...
   project_flow(S, c.nsub, F); double sc, res = S.residual(*S.GetSolution(), sc); CHECK(res <= 1e-10 * sc, "the exact solution leaves a residual of %g in the assembled equations (magnitude %g)", res, sc);
   g.nontrivial = c.nsub > 1 && du > 0;
   // ... and is what the solver finds; a continuous pressure space on a few elements can leave the pressure undetermined
   bool ok = S.Solve(); if (!ok && !s.direct) return; CHECK(ok, "the direct solve did not converge"); if (dg) check_flow(c, S, F, s.direct ? 1e-6 : 1e-5, "Stokes");
}
// the solver starts from a random state; the equations can have several solutions, and the one of interest has to stay when started from
static void start_from(YAML::Node &d, const Vector &u, const std::string &f) { hid_t h = H5Fcreate(f.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); hdf5_utils::WriteDataset(h, "solution", u); H5Fclose(h); d["solver"]["use_restart"] = true; d["solver"]["restart_file"] = f; }
PROP(P31, steady_patch, 800, 12000, "at least one interface")
{
   bool lf = g.coin(); Case c = gen_case(g, 0, g.coin(0.8) ? 2 : 0, 3, 2, true, g.coin()); if (!c.affine) throw pbt::Discard(); for (int e = 0; e < c.whole->GetNE(); e++) if (c.whole->GetElementType(e) != c.whole->GetElementType(0)) throw pbt::Discard();
   int order = g.range(1, c.dim == 3 ? 1 : 2), dim = c.dim, k = order + 1; limit_flow(c, order); bool dg = lf || g.coin(); double nu = g.pick(std::vector<double>{ 1., 2., 0.5 }), zeta = g.pick(std::vector<double>{ 1., 0.3, 0.7 });
   c.doc["solver"]["direct_solve"] = true; c.doc["solver"]["relative_tolerance"] = 1e-11; c.doc["solver"]["absolute_tolerance"] = 1e-11; c.doc["solver"]["max_iter"] = 50; c.doc["discretization"]["order"] = order; c.doc["discretization"]["full-discrete-galerkin"] = dg; c.doc["stokes"]["nu"] = nu; c.doc["navier-stokes"]["zeta"] = zeta; c.doc["navier-stokes"]["operator-type"] = lf ? "lf" : "base";
   bool shear = c.outlet || g.coin(0.3); int du = shear ? g.range(0, dim == 3 || (lf && k % 2 == 0) ? k - 1 : k) : g.range(0, (k + 1) / 2), dp = g.range(0, order); Flow F = gen_flow(g, c, du, dp, nu, zeta, true, shear); g.note << "order " << order << (dg ? " DG" : " CG") << (lf ? " LF" : " base") << " degrees " << du << "," << dp << (F.outlet ? " outlet" : shear ? " shear" : "") << " nu " << nu << " zeta " << zeta << "; ";
   auto run = [&](SteadyNSSolver &S) { S.InitVariables(); set_flow(g, c, S, F, true);
      if (F.outlet) { TopologyData td; Array<Mesh *> ms; S.GetTopologyHandler()->ExportInfo(ms, td); S.SetBdrType(BoundaryType::NEUMANN, td.global_bdr_attributes->Find(OUTLET)); }
      S.BuildOperators(); S.SetupBCOperators(); S.Assemble(); return S.Solve(); };
   set_config(c.doc); SteadyNSSolver S; bool ok = run(S), restart = g.coin(0.3); if (!ok && !restart) throw pbt::Discard(); bool found = false;
   if (ok) try { check_flow(c, S, F, 1e-6, "steady Navier-Stokes"); found = true; } catch (pbt::Failure &) { g.note << "another solution?; "; }
   if (!found || restart) { project_flow(S, c.nsub, F); start_from(c.doc, *S.GetSolution(), c.dir + "/start.h5"); set_config(c.doc); SteadyNSSolver R; CHECK(run(R) || !found, "steady Navier-Stokes: no convergence when started from the exact flow"); check_flow(c, R, F, 1e-6, "steady Navier-Stokes started from the exact flow"); }
   g.nontrivial = c.nsub > 1 && du > 0;
}

// ------------------------------------------------------------------ the division into subdomains does not matter (discontinuous spaces)
struct Data { int dim; std::vector<Wave> u, f, ic; double t; };   // boundary data, forcing
static Data gen_data(Gen &g, int dim, double s) { Data d; d.dim = dim; Rnd r(g.seed()); for (int i = 0; i < dim; i++) { d.u.push_back(Wave::random(r, s)); d.f.push_back(Wave::random(r, s)); d.ic.push_back(Wave::random(r, s)); } return d; }
static std::function<void(const Vector &, double, Vector &)> vec(const std::vector<Wave> &w) { int n = w.size(); return [w, n](const Vector &x, double, Vector &v) { v.SetSize(n); for (int d = 0; d < n; d++) v[d] = w[d](x); }; }
// what every boundary attribute gets: 0 nothing, 1 Dirichlet, 2 Neumann
static std::map<int, int> gen_bc(Gen &g, const Case &c, int kinds, bool one_dirichlet) { std::map<int, int> t; Array<int> at; at = c.whole->bdr_attributes; at.Sort(); bool any = false; for (int a : at) { t[a] = g.range(0, kinds - 1); any = any || t[a] == 1; } if (one_dirichlet && !any && at.Size()) t[at[g.range(0, at.Size() - 1)]] = 1; return t; }
template <class S> int bdr_index(S &s, int attr) { TopologyData td; Array<Mesh *> ms; s.GetTopologyHandler()->ExportInfo(ms, td); return td.global_bdr_attributes->Find(attr); }
// the field v moved to the elements of u, both discontinuous
static void carry(GridFunction &u, GridFunction &v, const Locator &L)
{
   const FiniteElementSpace *f = u.FESpace(); int vd = f->GetVDim(); Mesh &m = *f->GetMesh(); Array<int> dofs; Vector x, b(vd), y;
   for (int k = 0; k < m.GetNE(); k++)
   {
      ElementTransformation *T = m.GetElementTransformation(k); const IntegrationRule &n = f->GetFE(k)->GetNodes(); f->GetElementVDofs(k, dofs); IsoparametricTransformation T2; L.m.GetElementTransformation(L.find(Locator::center(m, k)), &T2);
      for (int i = 0; i < n.GetNPoints(); i++) { T->Transform(n.IntPoint(i), x); IntegrationPoint ip; T2.TransformBack(x, ip); T2.SetIntPoint(&ip); T2.Transform(ip, y); y -= x; if (!(max_abs(y) < 1e-9)) throw pbt::Discard(); if (vd == 1) b[0] = v.GetValue(T2, ip); else v.GetVectorValue(T2, ip, b); for (int d = 0; d < vd; d++) u[dofs[d * n.GetNPoints() + i]] = b[d]; }
   }
}
template <class S, class Setup> void both(Case &c, int nv, const std::vector<int> &vd, double tol, const Setup &setup, Gen &g, const char *what, bool restart = false)
{
   set_config(c.doc); S a; bool ok = setup(a, false); int da = MUMPSSolver::deficient; Mesh *m0 = a.GetMesh(0); (void) m0; YAML::Node d2 = undivided(c); set_config(d2); S b; bool ok2 = setup(b, true); int db = MUMPSSolver::deficient; CHECK(b.GetNumSubdomains() == 1, "the undivided mesh makes %d subdomains", b.GetNumSubdomains());
   if (!ok || !ok2) throw pbt::Discard(); if (da > 1 || db > 1) { g.note << "deficient; "; throw pbt::Discard(); }
   Locator L(*b.GetMesh(0));
   if (restart)   // a nonlinear problem, which can have several solutions: the one of the undivided mesh has to stay when the divided solver starts from it
   {
      double far = 0; for (int v = 0; v < nv; v++) { double sc = 1e-3, e = 0; for (int m = 0; m < a.GetNumSubdomains(); m++) e = std::max(e, fields_differ(*a.GetGridFunction(nv * m + v), *a.GetMesh(m), *b.GetGridFunction(v), L, vd[v], sc)); far = std::max(far, e / sc); }
      if (!(far <= tol) || g.coin(0.3))
      {
         if (!(far <= tol)) g.note << "another solution?; ";
         for (int m = 0; m < a.GetNumSubdomains(); m++) for (int v = 0; v < nv; v++) carry(*a.GetGridFunction(nv * m + v), *b.GetGridFunction(v), L);
         start_from(c.doc, *a.GetSolution(), c.dir + "/start.h5"); set_config(c.doc); S r; setup(r, false);
         for (int v = 0; v < nv; v++) { std::vector<double> e; double sc = 1e-3; for (int m = 0; m < r.GetNumSubdomains(); m++) e.push_back(fields_differ(*r.GetGridFunction(nv * m + v), *r.GetMesh(m), *b.GetGridFunction(v), L, vd[v], sc)); for (size_t m = 0; m < e.size(); m++) CHECK(e[m] <= 10 * tol * sc, "%s: subdomain %d: started from the undivided solution, variable %d moves away from it by %g (magnitude %g)", what, (int) m, v, e[m], sc); }
      }
      return;
   }
   for (int v = 0; v < nv; v++) { std::vector<double> e; double sc = 1e-3; for (int m = 0; m < a.GetNumSubdomains(); m++) e.push_back(fields_differ(*a.GetGridFunction(nv * m + v), *a.GetMesh(m), *b.GetGridFunction(v), L, vd[v], sc)); for (size_t m = 0; m < e.size(); m++) CHECK(e[m] <= tol * sc, "%s: subdomain %d: variable %d differs by %g from the undivided solve (magnitude %g)", what, (int) m, v, e[m], sc); }
}
PROP(P32, poisson_split, 1000, 15000, "at least one interface")
{
   Case c = gen_case(g); int order = g.range(1, c.dim == 3 ? 2 : 3); c.doc["discretization"]["order"] = order; c.doc["discretization"]["full-discrete-galerkin"] = true; gen_solver(g, c.doc, true); if (g.coin(0.3)) c.doc["discretization"]["interface"]["kappa"] = (order + 1) * (order + 1) * (1 + g.range(0, 3));
   Data D = gen_data(g, 1, 1.); auto bc = gen_bc(g, c, 2, true); g.note << "order " << order << "; ";
   both<PoissonSolver>(c, 1, { 1 }, 1e-8, [&](PoissonSolver &S, bool) { S.InitVariables(); auto u = D.u[0], f = D.f[0]; for (auto &b : bc) if (b.second) S.AddBCFunction([u](const Vector &x, double) { return u(x); }, b.first); S.AddRHSFunction([f](const Vector &x, double) { return f(x); }); S.BuildOperators(); S.SetupBCOperators(); S.Assemble(); return S.Solve(); }, g, "Poisson");
   g.nontrivial = c.nsub > 1;
}
PROP(P32, elasticity_split, 800, 12000, "at least one interface")
{
   Case c = gen_case(g, 0, 0, 3); int order = g.range(1, 2), dim = c.dim; c.doc["discretization"]["order"] = order; c.doc["discretization"]["full-discrete-galerkin"] = true; gen_solver(g, c.doc, true);
   Data D = gen_data(g, dim, 1.); auto bc = gen_bc(g, c, 3, true); g.note << "order " << order << "; ";
   both<LinElastSolver>(c, 1, { dim }, 1e-7, [&](LinElastSolver &S, bool) { S.InitVariables(); for (auto &b : bc) if (b.second) { S.AddBCFunction(vec(D.u), b.first); S.SetBdrType(b.second == 1 ? BoundaryType::DIRICHLET : BoundaryType::NEUMANN, bdr_index(S, b.first)); } S.AddRHSFunction(vec(D.f)); S.BuildOperators(); S.SetupBCOperators(); S.Assemble(); return S.Solve(); }, g, "elasticity");
   g.nontrivial = c.nsub > 1;
}
PROP(P32, stokes_split, 800, 12000, "at least one interface")
{
   Case c = gen_case(g, 0, 0, 3); int order = g.range(1, c.dim == 3 ? 1 : 2), dim = c.dim; limit_flow(c, order); c.doc["discretization"]["order"] = order; c.doc["discretization"]["full-discrete-galerkin"] = true; c.doc["stokes"]["nu"] = g.pick(std::vector<double>{ 1., 1.2, 0.1 }); gen_solver(g, c.doc, true);
   Data D = gen_data(g, dim, 1.); auto bc = gen_bc(g, c, 2, true); bool types = g.coin(), all = true; for (auto &b : bc) all = all && b.second == 1; if (all) bc.rbegin()->second = 0; /* velocity data everywhere would have to balance */ g.note << "order " << order << "; ";
   both<StokesSolver>(c, 2, { dim, 1 }, 1e-7, [&](StokesSolver &S, bool) { S.InitVariables(); for (auto &b : bc) { if (b.second) S.AddBCFunction(vec(D.u), b.first); if (types) S.SetBdrType(b.second ? BoundaryType::DIRICHLET : BoundaryType::NEUMANN, bdr_index(S, b.first)); } S.AddRHSFunction(vec(D.f)); S.BuildOperators(); S.SetupBCOperators(); S.Assemble(); return S.Solve(); }, g, "Stokes");
   g.nontrivial = c.nsub > 1;
}

PROP(P32, steady_split, 600, 9000, "at least one interface")
{
   Case c = gen_case(g, 0, g.coin(0.8) ? 2 : 0, 3, 2); for (int e = 0; e < c.whole->GetNE(); e++) if (c.whole->GetElementType(e) != c.whole->GetElementType(0)) throw pbt::Discard();
   bool lf = g.coin(); int order = g.range(1, c.dim == 3 ? 1 : 2), dim = c.dim; limit_flow(c, order); double nu = g.pick(std::vector<double>{ 1., 2. }), zeta = g.pick(std::vector<double>{ 1., 0.3, 0.7 });
   c.doc["solver"]["direct_solve"] = true; c.doc["solver"]["relative_tolerance"] = 1e-11; c.doc["solver"]["absolute_tolerance"] = 1e-11; c.doc["solver"]["max_iter"] = 50; c.doc["discretization"]["order"] = order; c.doc["discretization"]["full-discrete-galerkin"] = true; c.doc["stokes"]["nu"] = nu; c.doc["navier-stokes"]["zeta"] = zeta; c.doc["navier-stokes"]["operator-type"] = lf ? "lf" : "base";
   Data D = gen_data(g, dim, 0.3); auto bc = gen_bc(g, c, 2, true); bool all = true; for (auto &b : bc) all = all && b.second == 1; if (all) bc.rbegin()->second = 0; g.note << "order " << order << (lf ? " LF" : " base") << "; ";
   both<SteadyNSSolver>(c, 2, { dim, 1 }, 1e-7, [&](SteadyNSSolver &S, bool) { S.InitVariables(); for (auto &b : bc) { if (b.second) S.AddBCFunction(vec(D.u), b.first); S.SetBdrType(b.second ? BoundaryType::DIRICHLET : BoundaryType::NEUMANN, bdr_index(S, b.first)); } S.AddRHSFunction(vec(D.f)); S.BuildOperators(); S.SetupBCOperators(); S.Assemble(); return S.Solve(); }, g, "steady Navier-Stokes", true);
   g.nontrivial = c.nsub > 1;
}

// ------------------------------------------------------------------ unsteady Navier-Stokes
static void unsteady_doc(Case &c, int order, double nu, double zeta, double dt, int nt, const std::string &dir, int every)
{
   c.doc["solver"]["direct_solve"] = true; c.doc["discretization"]["order"] = order; c.doc["discretization"]["full-discrete-galerkin"] = true; c.doc["stokes"]["nu"] = nu; c.doc["navier-stokes"]["zeta"] = zeta; c.doc["navier-stokes"]["operator-type"] = "lf";
   c.doc["time-integration"]["number_of_timesteps"] = nt; c.doc["time-integration"]["timestep_size"] = dt; if (every) { c.doc["save_solution"]["enabled"] = true; c.doc["save_solution"]["restart_interval"] = every; c.doc["save_solution"]["file_path"]["directory"] = dir; c.doc["save_solution"]["file_path"]["prefix"] = "sol"; }
}
static Case unsteady_case(Gen &g, bool outlet) { Case c = gen_case(g, 0, g.coin(0.8) ? 2 : 0, 3, 2, true, outlet); for (int e = 0; e < c.whole->GetNE(); e++) if (c.whole->GetElementType(e) != c.whole->GetElementType(0)) throw pbt::Discard(); return c; }
PROP(P39, steady_is_kept, 600, 9000, "a flow that moves, two steps or more")
{
   Case c = unsteady_case(g, g.coin()); if (!c.affine) throw pbt::Discard(); int order = g.range(1, c.dim == 3 ? 1 : 2), dim = c.dim, k = order + 1; limit_flow(c, order); double nu = g.pick(std::vector<double>{ 1., 0.1, 0.5 }), zeta = g.pick(std::vector<double>{ 1., 0.3, 0.7 }), dt = g.pick(std::vector<double>{ 0.01, 0.1, 0.5 }); int nt = g.range(1, 4);
   unsteady_doc(c, order, nu, zeta, dt, nt, "", 0); bool shear = c.outlet || g.coin(0.3); int du = shear ? g.range(0, dim == 3 || k % 2 == 0 ? k - 1 : k) : g.range(0, (k + 1) / 2), dp = g.range(0, order); Flow F = gen_flow(g, c, du, dp, nu, zeta, true, shear); g.note << "order " << order << " degrees " << du << "," << dp << (F.outlet ? " outlet" : "") << " dt " << dt << " steps " << nt << "; ";
   set_config(c.doc); UnsteadyNSSolver S; S.InitVariables(); set_flow(g, c, S, F, true); if (F.outlet) S.SetBdrType(BoundaryType::NEUMANN, bdr_index(S, OUTLET));
   S.BuildOperators(); S.SetupBCOperators(); S.Assemble(); project_flow(S, c.nsub, F); S.Solve(); if (MUMPSSolver::deficient > 1) throw pbt::Discard();
   check_flow(c, S, F, 1e-6, "unsteady Navier-Stokes, steady state"); g.nontrivial = du > 0 && nt > 1;
}
struct Run { Data D; std::map<int, int> bc; int dim; };
static void unsteady_setup(UnsteadyNSSolver &S, const Run &r, bool start)
{
   S.InitVariables(); for (auto &b : r.bc) { if (b.second) S.AddBCFunction(vec(r.D.u), b.first); S.SetBdrType(b.second ? BoundaryType::DIRICHLET : BoundaryType::NEUMANN, bdr_index(S, b.first)); } S.AddRHSFunction(vec(r.D.f)); S.BuildOperators(); S.SetupBCOperators(); S.Assemble();
   auto f = vec(r.D.ic); VectorFunctionCoefficient U(r.dim, [f](const Vector &x, Vector &v) { f(x, 0, v); }); if (start) for (int m = 0; m < S.GetNumSubdomains(); m++) S.GetGridFunction(2 * m)->ProjectCoefficient(U);
}
static Run gen_run(Gen &g, const Case &c) { Run r; r.dim = c.dim; r.D = gen_data(g, c.dim, 0.3); r.bc = gen_bc(g, c, 2, true); bool all = true; for (auto &b : r.bc) all = all && b.second == 1; if (all) r.bc.rbegin()->second = 0; return r; }
PROP(P32, unsteady_split, 600, 9000, "at least one interface")
{
   Case c = unsteady_case(g, false); int order = g.range(1, c.dim == 3 ? 1 : 2); limit_flow(c, order); int nt = g.range(1, 4); unsteady_doc(c, order, g.pick(std::vector<double>{ 1., 0.2 }), g.pick(std::vector<double>{ 1., 0.3 }), g.pick(std::vector<double>{ 0.01, 0.1 }), nt, "", 0); Run r = gen_run(g, c); g.note << "order " << order << " steps " << nt << "; ";
   both<UnsteadyNSSolver>(c, 2, { c.dim, 1 }, 1e-7, [&](UnsteadyNSSolver &S, bool) { unsteady_setup(S, r, true); return S.Solve(); }, g, "unsteady Navier-Stokes"); g.nontrivial = c.nsub > 1;
}
PROP(P39, restart, 600, 9000, "the run goes on after the restart")
{
   Case c = unsteady_case(g, false); int order = g.range(1, c.dim == 3 ? 1 : 2), every = g.range(1, 3), nt = g.range(1, 6), visual = g.coin() ? g.range(0, 3) : -1; limit_flow(c, order); std::string dir = c.dir + "/sol"; mkdir(dir.c_str(), 0777); double dt = g.pick(std::vector<double>{ 0.01, 0.1 });
   unsteady_doc(c, order, g.pick(std::vector<double>{ 1., 0.2 }), g.pick(std::vector<double>{ 1., 0.3 }), dt, nt, dir, every); Run r = gen_run(g, c); g.note << "order " << order << " steps " << nt << " saved every " << every << " shown every " << visual << "; "; if (visual >= 0) { c.doc["visualization"]["enabled"] = true; c.doc["visualization"]["time_interval"] = visual; c.doc["visualization"]["file_path"]["directory"] = dir; }
   std::vector<Vector> want; set_config(c.doc); { UnsteadyNSSolver S; unsteady_setup(S, r, true); S.InitVisualization(); S.Solve(); if (MUMPSSolver::deficient > 1) throw pbt::Discard(); want.push_back(*S.GetSolution()); }
   for (int s = 0; s <= nt; s++)
   {
      std::string f = string_format(std::string("%s/%s_%08d.h5"), dir.c_str(), "sol", s); bool there = FileExists(f); CHECK(there == (s % every == 0), "a run of %d steps saved every %d: the file of step %d is%s there", nt, every, s, there ? "" : " not"); if (!there) continue;
      YAML::Node d = YAML::Clone(c.doc); d["solver"]["use_restart"] = true; d["solver"]["restart_file"] = f; d["save_solution"]["enabled"] = false; d["visualization"]["enabled"] = false; set_config(d); UnsteadyNSSolver S; unsteady_setup(S, r, false); S.Solve();
      Vector e(*S.GetSolution()); e -= want[0]; CHECK(max_abs(e) <= 1e-9 * (1 + max_abs(want[0])), "restarted at step %d of %d, the run ends %g away from the uninterrupted one (magnitude %g)", s, nt, max_abs(e), max_abs(want[0]));
      Vector t; { hid_t h = H5Fopen(f.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); int st = -1; double ti = -1; hdf5_utils::ReadAttribute(h, "timestep", st); hdf5_utils::ReadAttribute(h, "time", ti); H5Fclose(h); CHECK(st == s && std::abs(ti - s * dt) < 1e-9, "the file of step %d says step %d and time %g, expected %g", s, st, ti, s * dt); }
   }
   g.nontrivial = nt > 1 && every < nt;
}
