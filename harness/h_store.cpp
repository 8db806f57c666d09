// level: all
// Solutions as stored, sorted, shown and compared.
#include "fom.hpp"
#include <sys/stat.h>
#include <sys/wait.h>

struct Store { std::unique_ptr<MultiBlockSolver> S; int nv, ns; std::vector<std::string> names; std::vector<int> vd; };
static MultiBlockSolver *make(int kind) { switch (kind) { case 0: return new PoissonSolver; case 1: return new LinElastSolver; case 2: return new StokesSolver; case 3: return new SteadyNSSolver; case 4: return new AdvDiffSolver; default: return new UnsteadyNSSolver; } }
static Store gen_store(Gen &g, Case &c, int &order, bool &dg, const std::function<void(YAML::Node &)> &f = [](YAML::Node &) {}, int kind = -1)
{
   if (kind < 0) kind = g.range(0, 4); if (kind == 3) one_type(c); order = g.range(1, 2); dg = g.coin() && kind != 4; c.doc["discretization"]["order"] = order; c.doc["discretization"]["full-discrete-galerkin"] = dg; if (kind > 1 && kind != 4) { c.doc["stokes"]["nu"] = 1.; c.doc["navier-stokes"]["operator-type"] = "base"; } f(c.doc); set_config(c.doc);
   Store s; s.S.reset(make(kind)); s.S->InitVariables(); s.nv = s.S->GetNumVar(); s.ns = s.S->GetNumSubdomains(); s.names = kind == 0 ? PoissonSolver::GetVariableNames() : kind == 1 ? LinElastSolver::GetVariableNames() : kind == 4 ? AdvDiffSolver::GetVariableNames() : StokesSolver::GetVariableNames(); for (int v = 0; v < s.nv; v++) s.vd.push_back(s.S->GetGridFunction(v)->FESpace()->GetVDim()); const char *nm[] = { "poisson", "linelast", "stokes", "steady-ns", "adv-diff", "unsteady-ns" }; g.note << nm[kind] << " order " << order << (dg ? " DG; " : " CG; "); CHECK((int) s.names.size() == s.nv, "%zu names of %d variables", s.names.size(), s.nv); return s;
}
static void fill(Vector &u, Rnd &r) { for (int i = 0; i < u.Size(); i++) u[i] = r.uni(-1, 1); }
static bool exists(const std::string &f) { struct stat s; return !stat(f.c_str(), &s); }
// runs f in a child: true if it ended the process
static bool refuses(const std::function<void()> &f) { fflush(NULL); pid_t p = fork(); if (!p) { freopen("/dev/null", "w", stderr); freopen("/dev/null", "w", stdout); f(); _exit(0); } int st; waitpid(p, &st, 0); return !(WIFEXITED(st) && WEXITSTATUS(st) == 0); }

PROP(P42, solution_files, 1200, 30000, "more than one subdomain")
{
   Case c = gen_case(g, 0, 0, 4, 2); int order; bool dg; bool on = g.coin(0.8), named = g.coin(); Store s = gen_store(g, c, order, dg, [&](YAML::Node &d) { d["save_solution"]["enabled"] = on; d["save_solution"]["file_path"]["directory"] = c.dir; d["save_solution"]["file_path"]["prefix"] = "my_sol"; });
   Rnd r(g.seed()); BlockVector &U = *s.S->GetSolution(); fill(U, r); Vector u(U); std::string f = c.dir + (named ? "/named.h5" : "/my_sol.h5"); CHECK(s.S->GetSolutionFilePrefix() == (on ? "my_sol" : ""), "prefix %s", s.S->GetSolutionFilePrefix().c_str());
   bool timed = on && g.coin(0.4), forced = g.coin(0.2); int step = r.range(0, 100000); double time = r.uni(0, 10); if (!on && forced) { s.S->SetSolutionSaveMode(true); f = named ? f : ""; if (!named) throw pbt::Discard(); }
   if (timed) s.S->SaveSolutionWithTime(f, step, time); else if (named) s.S->SaveSolution(f); else s.S->SaveSolution();
   CHECK(exists(f) == (on || forced), "solution file %s", exists(f) ? "written though disabled" : "missing"); Vector d(U); d -= u; CHECK(max_abs(d) == 0, "saving changed the solution");
   if (on || forced)
   {
      hid_t h = H5Fopen(f.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); Vector w; hdf5_utils::ReadDataset(h, "solution", w); H5Fclose(h); CHECK(w.Size() == u.Size(), "%d values saved, not %d", w.Size(), u.Size()); w -= u; CHECK(max_abs(w) == 0, "saved values differ by %g", max_abs(w));
      set_config(c.doc); std::string solver; U = -7.; int st = -1; double tm = -1; if (timed) { s.S->LoadSolutionWithTime(f, st, tm); CHECK(st == step && tm == time, "step %d time %.17g read, step %d time %.17g written", st, tm, step, time); } else s.S->LoadSolution(f); d = U; d -= u; CHECK(max_abs(d) == 0, "loaded solution differs by %g", max_abs(d));
      // a second solution over the first
      fill(U, r); Vector u2(U); if (named) s.S->SaveSolution(f); else s.S->SaveSolution(); U = 3.; s.S->LoadSolution(f); d = U; d -= u2; CHECK(max_abs(d) == 0, "a solution saved over another reads back wrong by %g", max_abs(d));
      if (g.coin(0.2)) { std::string q = c.dir + "/other.h5"; Vector v(u.Size() + g.pick(std::vector<int>{ -1, 1, 5 })); v = 1.; hid_t h2 = H5Fcreate(q.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); hdf5_utils::WriteDataset(h2, "solution", v); H5Fclose(h2); CHECK(refuses([&] { s.S->LoadSolution(q); }), "a solution of another size was loaded"); CHECK(refuses([&] { s.S->LoadSolution(c.dir + "/none.h5"); }), "a missing file was loaded"); }
   }
   // the fields are views of the solution, block by block
   int at = 0; for (int m = 0; m < s.ns; m++) for (int v = 0; v < s.nv; v++) { GridFunction &x = *s.S->GetGridFunction(m * s.nv + v); CHECK(x.GetData() == U.GetData() + at, "variable %d of subdomain %d is not part of the solution at %d", v, m, at); CHECK(U.BlockSize(m * s.nv + v) == x.Size(), "block size"); CHECK(x.FESpace()->GetMesh() == s.S->GetMesh(m), "variable %d of subdomain %d is on another mesh", v, m); at += x.Size(); } CHECK(at == U.Size(), "%d unknowns in fields, %d in the solution", at, U.Size());
   std::unique_ptr<BlockVector> copy(s.S->GetSolutionCopy()); CHECK(copy->NumBlocks() == U.NumBlocks() && copy->GetData() != U.GetData(), "copy"); d = *copy; d -= U; CHECK(max_abs(d) == 0, "the copy differs"); BlockVector other(*copy); fill(other, r); s.S->CopySolution(&other); d = U; d -= other; CHECK(max_abs(d) == 0, "the copied solution differs"); g.nontrivial = s.ns > 1;
}
PROP(P42, orders_of_blocks, 1200, 30000, "several variables and subdomains")
{
   Case c = gen_case(g, 0, 0, 4, 2); int order; bool dg; Store s = gen_store(g, c, order, dg); Rnd r(g.seed()); BlockVector &U = *s.S->GetSolution(); BlockVector sub(U); fill(sub, r); Array<int> off(s.nv * s.ns + 1); off[0] = 0; for (int v = 0; v < s.nv; v++) for (int m = 0; m < s.ns; m++) off[v * s.ns + m + 1] = off[v * s.ns + m] + U.BlockSize(m * s.nv + v);
   BlockVector var(off), back(sub); var = 9.; back = 9.; Vector keep(sub); s.S->SortByVariables(sub, var); for (int v = 0; v < s.nv; v++) for (int m = 0; m < s.ns; m++) { Vector d(var.GetBlock(v * s.ns + m)); d -= sub.GetBlock(m * s.nv + v); CHECK(max_abs(d) == 0, "variable %d of subdomain %d went elsewhere", v, m); } s.S->SortBySubdomains(var, back); back -= keep; CHECK(max_abs(back) == 0, "sorting by variables and back changes the solution by %g", max_abs(back));
   int v = r.range(0, s.nv - 1); Array<int> o1(s.ns + 1); o1[0] = 0; for (int m = 0; m < s.ns; m++) o1[m + 1] = o1[m] + U.BlockSize(m * s.nv + v); BlockVector one(o1), put(o1); one = 5.; s.S->GetVariableVector(v, sub, one); for (int m = 0; m < s.ns; m++) { Vector d(one.GetBlock(m)); d -= sub.GetBlock(m * s.nv + v); CHECK(max_abs(d) == 0, "variable %d of subdomain %d read from elsewhere", v, m); } fill(put, r); s.S->SetVariableVector(v, put, sub);
   for (int b = 0; b < sub.NumBlocks(); b++) { Vector d(sub.GetBlock(b)); if (b % s.nv == v) d -= put.GetBlock(b / s.nv); else { Vector w(keep.GetData() + (sub.GetBlock(b).GetData() - sub.GetData()), d.Size()); d -= w; } CHECK(max_abs(d) == 0, "setting variable %d changed block %d by %g", v, b, max_abs(d)); } g.nontrivial = s.nv > 1 && s.ns > 1;
}
static double sq(const GridFunction &u, const GridFunction *w) { double s = 0; const FiniteElementSpace *f = u.FESpace(); Mesh *m = f->GetMesh(); int vd = f->GetVDim(); Vector a(vd), b(vd); for (int e = 0; e < m->GetNE(); e++) { ElementTransformation *T = m->GetElementTransformation(e); const IntegrationRule &ir = IntRules.Get(T->GetGeometryType(), 2 * f->GetOrder(e) + 3); for (int i = 0; i < ir.GetNPoints(); i++) { T->SetIntPoint(&ir.IntPoint(i)); if (vd == 1) { a[0] = u.GetValue(*T, ir.IntPoint(i)); b[0] = w ? w->GetValue(*T, ir.IntPoint(i)) : 0; } else { u.GetVectorValue(*T, ir.IntPoint(i), a); if (w) w->GetVectorValue(*T, ir.IntPoint(i), b); else b = 0.; } double q = 0; for (int d = 0; d < vd; d++) q += (a[d] - b[d]) * (a[d] - b[d]); s += q * ir.IntPoint(i).weight * T->Weight(); } } return s; }
PROP(P42, comparison, 1200, 30000, "more than one subdomain")
{
   Case c = gen_case(g, 0, 0, 4, 2); int order; bool dg; Store s = gen_store(g, c, order, dg); if (!c.affine) throw pbt::Discard(); Rnd r(g.seed()); BlockVector &U = *s.S->GetSolution(); fill(U, r); BlockVector T(U); double amp = g.pick(std::vector<double>{ 0., 1e-3, 1. }); for (int b = 0; b < T.NumBlocks(); b++) if (g.coin(0.7)) for (int i = 0; i < T.BlockSize(b); i++) T.GetBlock(b)[i] += amp * r.uni(-1, 1);
   Vector keepU(U), keepT(T), err; s.S->CompareSolution(T, err); CHECK(err.Size() == s.nv, "%d errors", err.Size()); for (int v = 0; v < s.nv; v++) { double a = 0, n = 0; for (int m = 0; m < s.ns; m++) { GridFunction &u = *s.S->GetGridFunction(m * s.nv + v); GridFunction t(u.FESpace(), T.GetBlock(m * s.nv + v).GetData()); a += sq(u, &t); n += sq(u, NULL); } double want = std::sqrt(a / n); CHECK(std::abs(err[v] - want) <= 1e-9 * (1e-3 + want), "relative error of variable %d is %.10g, not %.10g", v, err[v], want); }
   keepU -= U; keepT -= T; CHECK(max_abs(keepU) == 0 && max_abs(keepT) == 0, "comparing changed a solution"); g.nontrivial = s.ns > 1 && amp > 0;
}
PROP(P42, visualization, 1200, 30000, "more than one subdomain")
{
   bool unified = g.coin(); Case c = gen_case(g, unified ? 1 : 0, 0, 4, 2); int order; bool dg, err = g.coin(0.4), path = g.coin(), on = g.coin(0.9); int off = 0, freq = 1; if (!unified && g.coin()) { if (g.coin()) off = g.range(0, c.nsub - 1); else freq = g.range(1, c.nsub); } g.note << (unified ? "unified" : "by subdomain") << " from " << off << " every " << freq << (err ? " with error; " : "; ");
   Store s = gen_store(g, c, order, dg, [&](YAML::Node &d) { YAML::Node v = d["visualization"]; v["enabled"] = on; v["unified_paraview"] = unified; v["file_path"]["directory"] = c.dir; v["file_path"]["prefix"] = "view"; v["visualize_error"] = err; if (off) v["domain_offset"] = off; if (freq > 1) v["domain_frequency"] = freq; }, g.range(0, 3));
   CHECK(s.S->IsVisualizationSaved() == on, "visualization"); std::string px = c.dir + (path ? "/elsewhere" : "/view"); if (path) s.S->InitVisualization(px); else s.S->InitVisualization(); Rnd r(g.seed()); BlockVector &U = *s.S->GetSolution(); fill(U, r);
   // a field continuous over the whole mesh where the space of the undivided mesh shares unknowns at interfaces
   Wave w = Wave::random(r, 1); for (int m = 0; m < s.ns; m++) for (int v = 0; v < s.nv; v++) { GridFunction &u = *s.S->GetGridFunction(m * s.nv + v); if (unified && !dg) { if (s.vd[v] == 1) { FunctionCoefficient f([&](const Vector &x) { return w(x) + v; }); u.ProjectCoefficient(f); } else { VectorFunctionCoefficient f(s.vd[v], [&](const Vector &x, Vector &y) { y = w(x); y[1] *= 2; }); u.ProjectCoefficient(f); } } }
   BlockVector T(U); bool cmp = err && on; Vector e; if (cmp) { if (unified && !dg) T *= 1.5; else for (int i = 0; i < T.Size(); i++) T[i] += r.uni(-1, 1); s.S->CompareSolution(T, e); }
   bool timed = g.coin(); int cyc = g.range(0, 30); if (timed) s.S->SaveVisualization(cyc, 0.1 * cyc); else s.S->SaveVisualization(); if (!on) { CHECK(!exists(px) && !exists(px + "_0"), "a disabled visualization was written"); return; }
   char dir[32]; snprintf(dir, sizeof dir, "Cycle%06d", timed ? cyc : 0); auto base = [](const std::string &s) { return s.substr(s.rfind('/') + 1); };
   if (!unified)
      for (int m = 0; m < s.ns; m++)
      {
         bool want = m >= off && m % freq == 0; std::string p = px + "_" + std::to_string(m); CHECK(exists(p) == want, "subdomain %d was %s", m, want ? "not shown" : "shown"); if (!want) continue; CHECK(exists(p + "/" + base(p) + ".pvd") && exists(p + "/" + dir + "/data.pvtu"), "files of subdomain %d (%s)", m, dir); ParaViewDataCollection *pv = s.S->GetParaViewColl(m); CHECK(pv && pv->GetMesh() == s.S->GetMesh(m), "mesh of subdomain %d", m);
         for (int v = 0; v < s.nv; v++) { GridFunction *q = pv->GetField(s.names[v]), *u = s.S->GetGridFunction(m * s.nv + v); CHECK(q && q->Size() == u->Size(), "field %s of subdomain %d", s.names[v].c_str(), m); Vector d(*q); d -= *u; CHECK(max_abs(d) == 0, "%s shown in subdomain %d differs by %g", s.names[v].c_str(), m, max_abs(d)); if (cmp) { GridFunction *ee = pv->GetField(s.names[v] + "_abs_error"); CHECK(ee && ee->Size() == u->Size(), "error field of %s", s.names[v].c_str()); for (int i = 0; i < u->Size(); i++) CHECK(std::abs(std::abs((*ee)[i]) - std::abs(T.GetBlock(m * s.nv + v)[i] - (*u)[i])) < 1e-12, "error of %s shown in subdomain %d", s.names[v].c_str(), m); } }
      }
   else
   {
      CHECK(exists(px + "/" + base(px) + ".pvd") && exists(px + "/" + dir + "/data.pvtu"), "unified files (%s)", dir); ParaViewDataCollection *pv = s.S->GetParaViewColl(0); std::unique_ptr<Mesh> gm(new Mesh(*pv->GetMesh())); Locator L(*gm);
      for (int v = 0; v < s.nv; v++) for (int k = 0; k < (cmp ? 2 : 1); k++) { GridFunction *q = pv->GetField(s.names[v] + (k ? "_abs_error" : "")); CHECK(q, "field %s", s.names[v].c_str()); FiniteElementSpace fs(gm.get(), q->FESpace()->FEColl(), s.vd[v]); GridFunction mine(&fs); mine = *q; for (int m = 0; m < s.ns; m++) { GridFunction &u = *s.S->GetGridFunction(m * s.nv + v); GridFunction x(u.FESpace()); x = u; if (k) { x = T.GetBlock(m * s.nv + v); x -= u; } double sc = 1; double d = fields_differ(x, *s.S->GetMesh(m), mine, L, s.vd[v], sc); CHECK(d <= 1e-9 * sc, "%s%s shown in subdomain %d differs by %g", s.names[v].c_str(), k ? " (error)" : "", m, d); } }
   }
   g.nontrivial = s.ns > 1;
}
