// level: all
// wrap: _Z24InitParameterizedProblemv
// Reduced models: sampling, training, building, running.
#include "rom.hpp"
#include "vtu.hpp"
#include <unistd.h>

struct Opt { std::string level, lin, prec, ord, mtype; bool tags, sep; int ns; };
// the configuration for sampling and training with enough basis vectors for every solution: two per subdomain of a component
static Opt rom_options(Gen &g, Setup &s, const std::vector<std::string> &vars, bool rot_ok)
{
   Case &c = s.c; Opt o; int kind = s.R.solver == "poisson" ? 0 : s.R.solver == "linelast" ? 1 : 2; rom_doc(g, c, s.R, vars); auto P = parts(c); int n0 = g.range(1, 2), n1 = g.range(2, 3); add_param(c.doc, "p0", 1, 2, n0); add_param(c.doc, "p1", -1, 2, n1); o.ns = n0 * n1;
   o.sep = s.R.separate = g.coin(kind == 2 ? 0.6 : 0.3) || s.R.solver == "unsteady-ns"; c.doc["model_reduction"]["separate_variable_basis"] = o.sep; o.tags = g.coin();
   set_config(c.doc); std::unique_ptr<MultiBlockSolver> S(InitSolver()); S->InitVariables(); int nv = vars.size(); bool same = true; int room = 0; YAML::Node tags; std::vector<int> nbs; TopologyHandler *T = S->GetTopologyHandler();
   for (auto &p : P) for (int v = 0; v < (o.sep ? nv : 1); v++)
   {
      int d = 0, m0 = -1; for (int m = 0; m < S->GetNumSubdomains() && m0 < 0; m++) if (T->GetComponentName(T->GetMeshType(m)) == p.first) m0 = m; for (int w = 0; w < nv; w++) if (!o.sep || w == v) d += S->GetGridFunction(m0 * nv + w)->Size();
      int nb = s.R.solver.find("ns") != std::string::npos ? std::min(d, o.ns * p.second * s.R.steps) : std::min({ d, o.ns * p.second, 2 * p.second + (kind < 2 && g.coin(0.3) ? 1 : 0) }); YAML::Node t; t["name"] = p.first + (o.sep ? "_" + vars[v] : ""); t["number_of_basis"] = nb; if (o.sep && v == 1 && g.coin(0.3)) { t["number_of_supremizer"] = nb; same = false; }
      if (o.sep && kind == 2) { if (v == 0) room = d - nb; else if (nb > room) throw pbt::Discard(); /* the supremizers would depend on the velocity basis */ }
      tags.push_back(t); nbs.push_back(nb); same = same && nb == nbs[0];
   }
   if (o.tags || !same) c.doc["basis"]["tags"] = tags; else c.doc["basis"]["number_of_basis"] = nbs[0];
   bool turned = false; if (c.component) for (auto &b : c.w.blocks) for (int d = 0; d < 3; d++) turned = turned || b.r[d] != 0;
   o.level = c.component && (rot_ok || !turned) ? g.pick(std::vector<std::string>{ "none", "global", "component", "component" }) : g.pick(std::vector<std::string>{ "none", "global" });
   o.lin = kind < 2 ? g.pick(std::vector<std::string>{ "direct", "cg", "minres" }) : g.pick(std::vector<std::string>{ "direct", "direct", "minres" }); o.prec = o.lin == "cg" ? g.pick(std::vector<std::string>{ "none", "gs", "block_jacobi", "block_gs" }) : "none"; if (o.prec == "block_gs" && kind) o.prec = "none"; o.ord = g.pick(std::vector<std::string>{ "domain", "variable" }); o.mtype = kind < 2 ? g.pick(std::vector<std::string>{ "spd", "us" }) : g.pick(std::vector<std::string>{ "us", "sid" });
   YAML::Node mr = c.doc["model_reduction"]; mr["save_operator"]["level"] = o.level; mr["linear_solver_type"] = o.lin; mr["linear_system_type"] = o.mtype; mr["preconditioner"] = o.prec; mr["ordering"] = o.ord;
   g.note << "order " << s.order << (s.dg ? " DG" : " CG") << " samples " << o.ns << " level " << o.level << " " << o.lin << " " << o.mtype << " " << o.prec << " by " << o.ord << (o.sep ? " separate" : "") << "; "; return o;
}
// at: parameters to compare at; none: any, as for problems linear in the parameters
static Vector numbers(const std::string &f) { std::ifstream s(f); CHECK(s.good(), "no file %s", f.c_str()); std::vector<double> x; double v; while (s >> v) x.push_back(v); Vector y(x.size()); for (size_t i = 0; i < x.size(); i++) y[i] = x[i]; return y; }
static void round_trip(Gen &g, Setup &s, const Opt &o, double tol, const std::vector<std::array<double, 2>> &at = {}, bool restart = false)
{
   Case &c = s.c; set_config(c.doc); GenerateSamples(MPI_COMM_WORLD); auto rom = [](YAML::Node &d) { d["main"]["use_rom"] = true; d["model_reduction"]["compare_solution"]["enabled"] = true; }; YAML::Node dr = with(c.doc, rom);
   set_config(dr); TrainROM(MPI_COMM_WORLD); set_config(dr); BuildROM(MPI_COMM_WORLD); if (s.eqp) { set_config(with(dr, [&](YAML::Node &d) { if (c.doc["navier-stokes"]["operator-type"].as<std::string>() == "lf") d["sample_collection"]["mode"] = "port"; })); TrainEQP(MPI_COMM_WORLD); }
   Rnd r(g.seed()); bool load = g.coin(), sys = at.empty() && g.coin(), red = s.R.solver != "unsteady-ns" && g.coin(); char cwd[4096]; CHECK(getcwd(cwd, sizeof cwd) && !chdir(c.dir.c_str()), "scratch directory");
   struct Back { const char *d; ~Back() { if (chdir(d)) abort(); } } back = { cwd };
   for (int k = 0; k < (at.size() ? (int) at.size() : 2); k++)
   {
      double p0 = at.size() ? at[k][0] : r.uni(-2, 2), p1 = at.size() ? at[k][1] : r.uni(-2, 2), e = -1; Vector f = single_run(c.doc, c.dir, "fom", p0, p1, [](YAML::Node &) {}), u = single_run(c.doc, c.dir, "rom", p0, p1, [&](YAML::Node &d) { rom(d); if (restart) { d["solver"]["use_restart"] = true; d["solver"]["absolute_tolerance"] = 1e-9; d["solver"]["restart_file"] = c.dir + "/fom.h5"; } if (load) { d["model_reduction"]["compare_solution"]["load_solution"] = true; d["model_reduction"]["compare_solution"]["fom_solution_file"] = c.dir + "/fom.h5"; } if (sys) { d["model_reduction"]["save_linear_system"]["enabled"] = true; d["model_reduction"]["save_linear_system"]["prefix"] = c.dir + "/sys"; } if (red) d["model_reduction"]["compare_solution"]["save_reduced_solution"] = true; }, &e);
      CHECK(f.Size() == u.Size(), "the reduced solution has %d unknowns, the full one %d", u.Size(), f.Size()); double sc = max_abs(f); u -= f; CHECK(max_abs(u) <= tol * sc, "a reduced model whose basis spans all solutions misses one by %g (magnitude %g)", max_abs(u), sc); CHECK(e >= 0 && e <= tol, "the reported error of the reduced solution is %g", e);
      // the saved reduced system is the one that was solved; the coordinates of both solutions in the basis agree
      if (sys) { Vector x = numbers(c.dir + "/sys_sol.txt"), b = numbers(c.dir + "/sys_rhs.txt"); CHECK(x.Size() == b.Size() && x.Size() > 0, "saved system of %d unknowns and %d equations", x.Size(), b.Size()); Vector q(b); std::ifstream m(c.dir + "/sys_mat.mm"); std::string line; while (std::getline(m, line) && (line.empty() || line[0] == '%')) ; std::stringstream hs(line); int nr, ncol; long nz; hs >> nr >> ncol >> nz; CHECK(nr == x.Size() && ncol == nr, "saved matrix of %d rows and %d columns", nr, ncol); long have = 0; int i, j; double v, as = 0; while (m >> i >> j >> v) { have++; CHECK(i >= 1 && j >= 1 && i <= nr && j <= nr, "entry (%d, %d)", i, j); q[i - 1] -= v * x[j - 1]; as = std::max(as, std::abs(v)); } CHECK(have == nz, "%ld of %ld entries saved", have, nz); CHECK(max_abs(q) <= 1e-5 * (as * max_abs(x) + max_abs(b)), "the saved solution misses the saved system by %g", max_abs(q)); CHECK(std::abs(x.Norml2()) > 0 || sc == 0, "saved solution"); }
      if (red) { Vector x = numbers("rom_reduced_sol.txt"), y = numbers("fom_reduced_sol.txt"); CHECK(x.Size() == y.Size() && x.Size() > 0, "%d and %d reduced unknowns", x.Size(), y.Size()); double s2 = max_abs(y); CHECK(s2 > 0 || sc == 0, "reduced coordinates of the solution"); x -= y; CHECK(max_abs(x) <= tol * s2 * 10, "reduced coordinates of the two solutions differ by %g (magnitude %g)", max_abs(x), s2); }
   }
   g.nontrivial = c.nsub > 1;
}
PROP(P40, poisson_rom, 500, 6000, "at least one interface") { Setup s = gen_setup(g, 0, 0, true); Opt o = rom_options(g, s, PoissonSolver::GetVariableNames(), false); round_trip(g, s, o, 1e-6); }
PROP(P40, elasticity_rom, 300, 4000, "at least one interface") { Setup s = gen_setup(g, 1, 0, true); Opt o = rom_options(g, s, LinElastSolver::GetVariableNames(), false); round_trip(g, s, o, 1e-6); }
PROP(P40, stokes_rom, 300, 4000, "at least one interface") { Setup s = gen_setup(g, 2, 0, true); Opt o = rom_options(g, s, StokesSolver::GetVariableNames(), false); round_trip(g, s, o, 1e-5); }
// nonlinear: exact at the parameters it was trained with
static std::vector<std::array<double, 2>> trained(const Opt &o, const YAML::Node &doc)
{
   auto p = doc["sample_generation"]["parameters"]; std::vector<double> v[2]; for (int k = 0; k < 2; k++) { int n = p[k]["sample_size"].as<int>(); double a = p[k]["minimum"].as<double>(), b = p[k]["maximum"].as<double>(); for (int i = 0; i < n; i++) v[k].push_back(n == 1 ? a : a + (b - a) * i / (n - 1)); }
   std::vector<std::array<double, 2>> q; for (double a : v[0]) for (double b : v[1]) q.push_back({ a, b }); return q;
}
static void ns_doc(Gen &g, Setup &s, const char *type, const char *handling)
{
   YAML::Node d = s.c.doc; one_type(s.c); limit_flow(s.c, s.order); d["solver"]["relative_tolerance"] = 1e-12; d["solver"]["absolute_tolerance"] = 1e-12; d["solver"]["max_iter"] = 50; d["stokes"]["nu"] = mix().nu; d["navier-stokes"]["zeta"] = g.pick(std::vector<double>{ 1., 0.4 }); d["navier-stokes"]["operator-type"] = type; d["model_reduction"]["nonlinear_handling"] = handling;
}
// training parameters whose full-order solutions Newton's method finds
static std::vector<std::array<double, 2>> solvable(const Opt &o, const Case &c)
{
   auto at = trained(o, c.doc); for (auto &p : at) { YAML::Node d = YAML::Clone(c.doc); d["single_run"]["pbt_mix"]["p0"] = p[0]; d["single_run"]["pbt_mix"]["p1"] = p[1]; set_config(d); std::unique_ptr<ParameterizedProblem> P(new MixProblem); std::unique_ptr<MultiBlockSolver> S(InitSolver()); S->InitVariables(); P->SetSingleRun(); S->SetParameterizedProblem(P.get()); S->BuildOperators(); S->SetupBCOperators(); S->Assemble(); bool ok = S->Solve(); if (!ok) throw pbt::Discard(); if (c.doc["main"]["solver"].as<std::string>() == "unsteady-ns") continue; Vector u(*S->GetSolution()); S->GetSolution()->operator=(0.); S->Solve(); Vector v(*S->GetSolution()); double sc = max_abs(u); v -= u; if (sc > 4 || max_abs(v) > 1e-7 * sc) throw pbt::Discard(); /* several solutions */ } return at;
}
PROP(P40, steady_tensor_rom, 150, 2500, "at least one interface")
{
   Setup s = gen_setup(g, 3, 0, true); ns_doc(g, s, "base", "tensor"); Case &c = s.c;
   Opt o = rom_options(g, s, SteadyNSSolver::GetVariableNames(), false); c.doc["model_reduction"]["linear_solver_type"] = "direct"; c.doc["model_reduction"]["linear_system_type"] = "us"; /* without supremizers the reduced system may have other solutions */ bool start = !o.sep || g.coin(0.3); g.note << (start ? "started at the solution; " : ""); round_trip(g, s, o, 1e-6, solvable(o, c), start);
}
static void eqp_doc(Gen &g, Setup &s, Opt &o) { if (s.c.nsub < 2) throw pbt::Discard(); YAML::Node mr = s.c.doc["model_reduction"]; o.level = "component"; mr["save_operator"]["level"] = o.level; mr["linear_solver_type"] = "direct"; mr["linear_system_type"] = "us"; mr["eqp"]["relative_tolerance"] = 1e-11; mr["eqp"]["precompute"] = g.coin(); }
PROP(P40, steady_eqp_rom, 150, 2500, "at least one interface")
{
   bool lf = g.coin(); Setup s = gen_setup(g, 3, 2, false, lf); ns_doc(g, s, lf ? "lf" : "base", "eqp"); Case &c = s.c; Opt o = rom_options(g, s, SteadyNSSolver::GetVariableNames(), false); eqp_doc(g, s, o); bool start = !o.sep || g.coin(0.3); g.note << (lf ? "LF" : "base") << (start ? ", started at the solution; " : "; "); s.eqp = true; round_trip(g, s, o, 1e-5, solvable(o, c), start);
}
PROP(P40, unsteady_rom, 150, 2500, "at least one interface")
{
   Setup s = gen_setup(g, 4, 2, false, true); ns_doc(g, s, "lf", "eqp"); Case &c = s.c; int nt = g.range(1, 3); c.doc["time-integration"]["number_of_timesteps"] = nt; c.doc["time-integration"]["timestep_size"] = g.pick(std::vector<double>{ 0.01, 0.1 }); c.doc["sample_generation"]["time-integration"]["sample_interval"] = 1; c.doc["save_solution"]["restart_interval"] = 0;
   s.R.steps = nt; Opt o = rom_options(g, s, UnsteadyNSSolver::GetVariableNames(), false); eqp_doc(g, s, o); c.doc["model_reduction"]["ordering"] = "variable"; g.note << "steps " << nt << "; "; s.eqp = true; round_trip(g, s, o, 1e-5, solvable(o, c));
}
// the component level assembles the interfaces between the reference components as they lie in their own files
PROP(P40, rotated_component_rom, 60, 300, "neighbours turned differently")
{
   Setup s = gen_setup(g, 0, 2, true); Case &c = s.c; Opt o = rom_options(g, s, PoissonSolver::GetVariableNames(), true); bool differ = false; for (auto &i : c.w.itf) for (int d = 0; d < 3; d++) differ = differ || std::abs(c.w.blocks[i.m1].r[d] - c.w.blocks[i.m2].r[d]) > 1e-9; if (!differ) throw pbt::Discard();
   c.doc["model_reduction"]["save_operator"]["level"] = "component"; round_trip(g, s, o, 1e-6); g.nontrivial = true;
}
// --- the basis, shown: every vector of every component as the field it stands for
PROP(P42, basis_visualization, 300, 4000, "separate variables or several variables")
{
   int kind = g.pick(std::vector<int>{ 0, 1, 2, 2 }); Setup s = gen_setup(g, kind, 0, true); Case &c = s.c; const std::vector<std::string> vars = kind == 0 ? PoissonSolver::GetVariableNames() : kind == 1 ? LinElastSolver::GetVariableNames() : StokesSolver::GetVariableNames();
   Opt o = rom_options(g, s, vars, false); bool on = g.coin(0.9); YAML::Node v = c.doc["basis"]["visualization"]; v["enabled"] = on; v["prefix"] = c.dir + "/shown";
   set_config(c.doc); GenerateSamples(MPI_COMM_WORLD); YAML::Node dr = with(c.doc, [](YAML::Node &d) { d["main"]["use_rom"] = true; }); set_config(dr); TrainROM(MPI_COMM_WORLD); set_config(dr); BuildROM(MPI_COMM_WORLD);
   set_config(c.doc); std::unique_ptr<MultiBlockSolver> S(InitSolver()); S->InitVariables(); TopologyHandler *T = S->GetTopologyHandler(); int nv = vars.size(), nc = T->GetNumComponents(); struct stat st;
   for (int b = 0; b < (o.sep ? nc * nv : nc); b++)
   {
      std::string dir = c.dir + "/shown_" + std::to_string(b); bool is = !stat(dir.c_str(), &st); CHECK(is == on, "the basis of block %d was %s", b, is ? "shown" : "not shown"); if (!is) continue; int comp = o.sep ? b / nv : b, m = -1; for (int k = 0; k < T->GetNumSubdomains() && m < 0; k++) if (T->GetMeshType(k) == comp) m = k;
      std::string tag = T->GetComponentName(comp) + (o.sep ? "_" + vars[b % nv] : ""); auto B = CAROM::standin::read(c.dir + "/basis_" + tag, "spatial_basis"); YAML::Node tags = c.doc["basis"]["tags"]; auto number = [&](const std::string &name, const char *key, int other) { if (tags) for (auto t : tags) if (t["name"].as<std::string>() == name && t[key]) return t[key].as<int>(); return other; }; auto vectors = [&](const std::string &name) { return number(name, "number_of_basis", c.doc["basis"]["number_of_basis"] ? c.doc["basis"]["number_of_basis"].as<int>() : -1); }; int nb = vectors(tag), own = nb; DenseMatrix sup;
      if (o.sep && kind == 2 && b % nv == 0) { std::string p = T->GetComponentName(comp) + "_" + vars[1]; own = nb; nb += number(p, "number_of_supremizer", vectors(p)); hid_t h = H5Fopen((c.dir + "/basis_" + T->GetComponentName(comp) + "_sup.h5").c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); CHECK(h >= 0, "no supremizers of %s", tag.c_str()); hdf5_utils::ReadDataset(h, "supremizer_basis", sup); H5Fclose(h); } // the velocity basis is enriched
      auto F = read_vtu(dir + "/Cycle000000/proc000000.vtu"); Mesh &M = *S->GetMesh(m); size_t fields = 0; for (auto &f : F) fields += f.first.find("_basis_") != std::string::npos; CHECK(fields == (size_t) nb * (o.sep ? 1 : nv), "%zu fields shown for %s, which has %d vectors", fields, tag.c_str(), nb);
      int row = 0; for (int w = 0; w < nv; w++)
      {
         if (o.sep && w != b % nv) continue; FiniteElementSpace *fs = S->GetGridFunction(m * nv + w)->FESpace(); int lod = S->GetGridFunction(m * nv + (o.sep ? w : 0))->FESpace()->FEColl()->GetOrder();
         for (int k = 0; k < nb; k++)
         {
            GridFunction u(fs); for (int i = 0; i < u.Size(); i++) u[i] = k < own ? (*B)(row + i, k) : sup(row + i, k - own); std::string name = vars[w] + "_basis_" + std::to_string(k); CHECK(F.count(name), "%s of %s is not shown", name.c_str(), tag.c_str()); VtuArray &a = F[name], &P = F["Points"]; int vd = fs->GetVDim(), n = P.x.size() / 3; CHECK(n * 3 == (int) P.x.size() && (int) a.x.size() == n * a.comps && a.comps >= vd, "size of %s of %s", name.c_str(), tag.c_str());
            double sc = max_abs(u); int p = 0; for (int e = 0; e < M.GetNE(); e++)
            {
               const IntegrationRule &R = GlobGeometryRefiner.Refine(M.GetElementBaseGeometry(e), lod, 1)->RefPts; ElementTransformation *t = M.GetElementTransformation(e);
               for (int q = 0; q < R.GetNPoints(); q++, p++) { CHECK(p < n, "too few points of %s", tag.c_str()); Vector x; t->Transform(R.IntPoint(q), x); for (int d = 0; d < x.Size(); d++) CHECK(std::abs(x[d] - P.x[3 * p + d]) < 1e-5, "%s is shown at another place", tag.c_str()); Vector y(vd); if (vd == 1) y[0] = u.GetValue(e, R.IntPoint(q)); else { t = M.GetElementTransformation(e); t->SetIntPoint(&R.IntPoint(q)); u.GetVectorValue(*t, R.IntPoint(q), y); } for (int d = 0; d < vd; d++) CHECK(std::abs(y[d] - a.x[p * a.comps + d]) <= 1e-5 * (1 + sc), "%s of %s is shown as %g, not %g", name.c_str(), tag.c_str(), a.x[p * a.comps + d], y[d]); }
            }
            CHECK(p == n, "%d points of %s, not %d", n, tag.c_str(), p);
         }
         row += fs->GetVSize();
      }
   }
   g.nontrivial = nv > 1 || o.sep;
}
