// level: all
// wrap: _Z24InitParameterizedProblemv
// wrap: MPI_Comm_size
// wrap: MPI_Comm_rank
// Collecting samples and their snapshots.
#include "rom.hpp"
#include <unistd.h>

struct Grid { std::vector<std::string> key; std::vector<int> n; std::vector<double> lo, hi; std::vector<bool> log; int total() const { int t = 1; for (int k : n) t *= k; return t; }
   // row major: the last parameter listed varies fastest
   std::array<double, 2> at(int s) const { std::array<double, 2> p = { 0.7, 0.3 }; for (int k = (int) n.size() - 1; k >= 0; k--) { int i = s % n[k]; s /= n[k]; double f = n[k] > 1 ? i / (n[k] - 1.) : 0, v = log[k] ? lo[k] * std::pow(hi[k] / lo[k], f) : lo[k] + f * (hi[k] - lo[k]); if (key[k] == "p0") p[0] = v; else if (key[k] == "p1") p[1] = v; } return p; } };
static Grid gen_grid(Gen &g, Case &c, int most)
{
   Grid G; std::vector<std::string> ks = g.coin() ? std::vector<std::string>{ "p0", "p1" } : std::vector<std::string>{ "p1", "p0" }; if (g.coin(0.3)) ks.insert(ks.begin() + g.range(0, 2), "count"); else if (g.coin(0.2)) ks.pop_back(); c.doc["sample_generation"].remove("parameters");
   for (auto &k : ks) { int n = g.range(1, 3); while (G.total() * n > most) n--; if (n < 1) n = 1; bool lg = k != "count" && g.coin(0.3); double lo = g.pick(std::vector<double>{ 0.5, 1, 2 }), hi = lo * g.pick(std::vector<double>{ 2, 3, 4 }); if (k == "count") { lo = 2; hi = 8; } G.key.push_back(k); G.n.push_back(n); G.lo.push_back(lo); G.hi.push_back(hi); G.log.push_back(lg);
      YAML::Node p; p["key"] = k == "count" ? std::string("unrelated/count") : "single_run/pbt_mix/" + k; p["type"] = k == "count" ? "integer" : "double"; p["sample_size"] = n; p["minimum"] = k == "count" ? YAML::Node((int) lo) : YAML::Node(lo); p["maximum"] = k == "count" ? YAML::Node((int) hi) : YAML::Node(hi); if (lg) p["log_scale"] = true; c.doc["sample_generation"]["parameters"].push_back(p); }
   c.doc["single_run"]["pbt_mix"]["p0"] = 0.7; c.doc["single_run"]["pbt_mix"]["p1"] = 0.3; for (size_t k = 0; k < ks.size(); k++) g.note << ks[k] << " x" << G.n[k] << (G.log[k] ? " log" : "") << ", "; return G;
}
static const std::vector<std::string> &variables(const std::string &s) { static std::vector<std::string> v; v = s == "poisson" ? PoissonSolver::GetVariableNames() : s == "linelast" ? LinElastSolver::GetVariableNames() : StokesSolver::GetVariableNames(); return v; }
struct Layout { int nv; std::vector<std::string> comp; std::vector<std::vector<int>> off; std::vector<PortInfo> ports; };
static Layout layout(const YAML::Node &doc)
{
   set_config(doc); std::unique_ptr<MultiBlockSolver> S(InitSolver()); S->InitVariables(); Layout L; L.nv = S->GetNumVar(); TopologyHandler *T = S->GetTopologyHandler(); int at = 0;
   for (int m = 0; m < S->GetNumSubdomains(); m++) { L.comp.push_back(T->GetComponentName(T->GetMeshType(m))); std::vector<int> o; for (int v = 0; v < L.nv; v++) { o.push_back(at); at += S->GetGridFunction(m * L.nv + v)->Size(); } o.push_back(at); L.off.push_back(o); }
   for (int p = 0; p < T->GetNumPorts(); p++) L.ports.push_back(*T->GetPortInfo(p)); return L;
}
// what should be collected: for every tag its columns, for every pair of ports the columns on either side
struct Tally { std::map<std::string, std::vector<Vector>> cols; std::map<std::string, std::vector<std::pair<int, int>>> ports; };
static std::string port_name(const std::string &a, const std::string &b, int x, int y) { return a + "|" + b + "|" + std::to_string(x) + "|" + std::to_string(y); }
static void tally(Tally &t, const Layout &L, bool separate, const Vector &u)
{
   std::vector<int> col(L.comp.size());
   for (size_t m = 0; m < L.comp.size(); m++) for (int v = 0; v < (separate ? L.nv : 1); v++) { int a = separate ? L.off[m][v] : L.off[m][0], b = separate ? L.off[m][v + 1] : L.off[m].back(); Vector x(b - a); for (int i = a; i < b; i++) x[i - a] = u[i]; auto &c = t.cols[L.comp[m] + (separate ? "_" + variables(config.GetRequiredOption<std::string>("main/solver"))[v] : "")]; col[m] = c.size(); c.push_back(x); }
   for (auto &p : L.ports) t.ports[port_name(L.comp[p.Mesh1], L.comp[p.Mesh2], p.Attr1, p.Attr2)].push_back({ col[p.Mesh1], col[p.Mesh2] });
}
static void check_columns(const std::string &tag, const CAROM::Matrix &M, const std::vector<Vector> &want, double tol)
{
   CHECK(M.numColumns() == (int) want.size(), "%s has %d snapshots, not %zu", tag.c_str(), M.numColumns(), want.size());
   for (size_t j = 0; j < want.size(); j++) { CHECK(M.numRows() == want[j].Size(), "snapshots of %s have %d entries, not %d", tag.c_str(), M.numRows(), want[j].Size()); double sc = 0, e = 0; for (auto &w : want) sc = std::max(sc, max_abs(w)); for (int i = 0; i < M.numRows(); i++) e = std::max(e, std::abs(M(i, j) - want[j][i])); CHECK(e <= tol * sc, "snapshot %zu of %s differs from the sample's solution by %g (magnitude %g)", j, tag.c_str(), e, sc); }
}
static void check_files(const std::string &prefix, const Tally &t, double tol)
{
   for (auto &c : t.cols) check_columns(c.first, *CAROM::standin::read(prefix + "_" + c.first + "_snapshot", "snapshot_matrix"), c.second, tol);
   hid_t f = H5Fopen((prefix + ".port.h5").c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); CHECK(f >= 0, "no file of ports"); int n = -1, nt = -1; hdf5_utils::ReadAttribute(f, "number_of_ports", n); CHECK(n == (int) t.ports.size(), "%d kinds of ports saved, not %zu", n, t.ports.size()); std::set<std::string> seen;
   for (int p = 0; p < n; p++) { hid_t q = H5Gopen2(f, std::to_string(p).c_str(), H5P_DEFAULT); std::string a, b; int x, y; hdf5_utils::ReadAttribute(q, "Mesh1", a); hdf5_utils::ReadAttribute(q, "Mesh2", b); hdf5_utils::ReadAttribute(q, "Attr1", x); hdf5_utils::ReadAttribute(q, "Attr2", y); Array2D<int> c; hdf5_utils::ReadDataset(q, "col_idxs", c); H5Gclose(q); std::string k = port_name(a, b, x, y); CHECK(t.ports.count(k), "a port %s was saved that no interface has", k.c_str()); CHECK(seen.insert(k).second, "port %s saved twice", k.c_str()); auto &w = t.ports.at(k); CHECK(c.NumRows() == (int) w.size(), "port %s has %d pairs of snapshots, not %zu", k.c_str(), c.NumRows(), w.size()); for (int i = 0; i < c.NumRows(); i++) CHECK(c(i, 0) == w[i].first && c(i, 1) == w[i].second, "pair %d of port %s is (%d, %d), not (%d, %d)", i, k.c_str(), c(i, 0), c(i, 1), w[i].first, w[i].second); }
   hdf5_utils::ReadAttribute(f, "number_of_basistags", nt); CHECK(nt == (int) t.cols.size(), "%d tags listed, not %zu", nt, t.cols.size()); seen.clear(); for (int b = 0; b < nt; b++) { BasisTag tag; hdf5_utils::ReadAttribute(f, ("basistag" + std::to_string(b)).c_str(), tag); CHECK(t.cols.count(tag.print()) && seen.insert(tag.print()).second, "tag %s listed", tag.print().c_str()); } H5Fclose(f);
}
static Setup sample_setup(Gen &g, bool timed = false)
{
   int kind = timed ? 4 : g.pick(std::vector<int>{ 0, 0, 1, 2 }); Setup s = gen_setup(g, kind, 0, true, timed); Case &c = s.c; if (kind > 1) limit_flow(c, s.order); rom_doc(g, c, s.R, variables(s.R.solver)); s.R.separate = g.coin(); c.doc["model_reduction"]["separate_variable_basis"] = s.R.separate; g.note << s.R.solver << (s.R.separate ? " separate" : "") << "; ";
   if (timed) { one_type(c); c.doc["stokes"]["nu"] = 1.; c.doc["navier-stokes"]["zeta"] = 1.; c.doc["navier-stokes"]["operator-type"] = "lf"; c.doc["solver"]["max_iter"] = 50; c.doc["solver"]["relative_tolerance"] = 1e-12; c.doc["solver"]["absolute_tolerance"] = 1e-12; } return s;
}
static Vector solve_at(const YAML::Node &doc, const std::string &dir, const std::array<double, 2> &p) { return single_run(doc, dir, "one", p[0], p[1], [](YAML::Node &d) { d["save_solution"]["enabled"] = true; }); }
// --- the files of one sampling run
PROP(P41, snapshots, 1200, 6000, "more than one sample and subdomain")
{
   bool timed = g.coin(0.25); Setup s = sample_setup(g, timed); Case &c = s.c; Grid G = gen_grid(g, c, timed ? 3 : 8); int offset = g.coin() ? g.range(1, 50) : 0, nt = 1, every = 1, boot = 0; if (offset) c.doc["sample_generation"]["file_path"]["offset"] = offset; bool sol = timed ? false : g.coin(0.7); c.doc["save_solution"]["enabled"] = sol; c.doc["save_solution"]["file_path"]["prefix"] = "keep"; if (g.coin(0.3)) c.doc["sample_generation"]["report_frequency"] = g.range(1, 3);
   if (timed) { nt = g.range(1, 6); every = g.range(1, 3); boot = g.coin() ? g.range(0, 3) : 0; YAML::Node ti = c.doc["sample_generation"]["time-integration"]; ti["sample_interval"] = every; if (boot) ti["bootstrap"] = boot; c.doc["time-integration"]["number_of_timesteps"] = nt; c.doc["time-integration"]["timestep_size"] = 0.05; c.doc["save_solution"]["restart_interval"] = 0; g.note << "steps " << nt << " every " << every << " after " << boot << "; "; }
   std::vector<int> at; for (int k = 1; k <= nt; k++) if (!timed || (k > boot && k % every == 0)) at.push_back(k); if (at.empty()) throw pbt::Discard();
   Layout L = layout(c.doc); Tally t; std::vector<Vector> whole; for (int k = 0; k < G.total(); k++) for (int step : at) { YAML::Node d = YAML::Clone(c.doc); d["time-integration"]["number_of_timesteps"] = step; Vector u = solve_at(d, c.dir, G.at(k)); whole.push_back(u); tally(t, L, s.R.separate, u); }
   set_config(c.doc); std::stringstream before, after; before << config.dict_; GenerateSamples(MPI_COMM_WORLD); after << config.dict_; CHECK(before.str() == after.str(), "sampling left another configuration behind");
   check_files(c.dir + "/smp_sample", t, timed ? 1e-6 : 1e-8);
   for (int k = 0; k < G.total() + 2; k++) { std::string f = c.dir + "/sample" + std::to_string(k + offset) + "_keep.h5"; struct stat st; bool is = !stat(f.c_str(), &st); CHECK(is == (sol && k < G.total()), "file %s %s", f.c_str(), is ? "was written" : "is missing"); if (is) { Vector u = read_solution(f); u -= whole[k]; CHECK(max_abs(u) <= 1e-8 * max_abs(whole[k]), "the solution file of sample %d differs by %g", k, max_abs(u)); } }
   g.nontrivial = c.nsub > 1 && G.total() > 1;
}
// --- several runs of sampling, gathered by tag or by port
PROP(P41, gathering, 800, 4000, "more than one run of sampling")
{
   Setup s = sample_setup(g); Case &c = s.c; int runs = g.range(1, 3); bool byport = g.coin(); Layout L = layout(c.doc); c.doc["save_solution"]["enabled"] = false; Tally t; if (!byport) parts(c); /* every component is used */ bool fmt = g.coin() && runs > 0; int base = g.range(0, 5); bool used_default = runs == 1 && g.coin(); std::vector<std::string> px;
   for (int k = 0; k < runs; k++)
   {
      std::string p = used_default ? "smp" : "run" + std::to_string(base + k); px.push_back(c.dir + "/" + p + "_sample"); YAML::Node d0 = YAML::Clone(c.doc); c.doc["sample_generation"]["file_path"]["prefix"] = p; Grid G = gen_grid(g, c, 4);
      for (int j = 0; j < G.total(); j++) tally(t, L, s.R.separate, solve_at(c.doc, c.dir, G.at(j))); set_config(c.doc); GenerateSamples(MPI_COMM_WORLD);
   }
   c.doc["sample_generation"]["file_path"]["prefix"] = "smp"; std::string pre = c.dir + "/run%d_sample"; auto format = [&](const std::string &f) { YAML::Node n; n["format"] = f; n["minimum"] = base; n["maximum"] = base + runs - 1; return n; };
   YAML::Node tags; std::map<std::string, int> nb; int all = 1000; for (auto &q : t.cols) { YAML::Node n; n["name"] = q.first; int most = std::min<int>(q.second.size(), q.second[0].Size()); nb[q.first] = g.range(1, most); all = std::min(all, most); n["number_of_basis"] = nb[q.first]; if (!byport && !used_default) { if (fmt) n["snapshot_format"] = format(pre + "_" + q.first + "_snapshot"); else for (auto &p : px) n["snapshot_files"].push_back(p + "_" + q.first + "_snapshot"); } tags.push_back(n); }
   c.doc["basis"]["tags"] = tags; if (byport) { c.doc["sample_collection"]["mode"] = "port"; if (!used_default) { if (fmt) c.doc["sample_collection"]["port_fileformat"] = format(pre + ".port.h5"); else for (auto &p : px) c.doc["sample_collection"]["port_files"].push_back(p + ".port.h5"); } } else if (g.coin(0.3)) c.doc["sample_collection"]["mode"] = "basis";
   g.note << runs << " runs " << (byport ? "by port " : "by tag ") << (used_default ? "default" : fmt ? "format" : "list"); bool sv = g.coin(); c.doc["basis"]["svd"]["save_spectrum"] = sv;
   set_config(c.doc); std::unique_ptr<SampleGenerator> S(InitSampleGenerator(MPI_COMM_WORLD)); CollectSamples(S.get());
   for (auto &q : t.cols) { size_t u = q.first.rfind('_'); BasisTag tag = s.R.separate ? BasisTag(q.first.substr(0, u), q.first.substr(u + 1)) : BasisTag(q.first); check_columns(q.first, *S->LookUpSnapshot(tag), q.second, 1e-8); }
   if (byport) for (auto &q : t.ports) { PortTag tag; std::stringstream ss(q.first); std::string x, y; std::getline(ss, tag.Mesh1, '|'); std::getline(ss, tag.Mesh2, '|'); std::getline(ss, x, '|'); std::getline(ss, y, '|'); tag.Attr1 = std::stoi(x); tag.Attr2 = std::stoi(y); Array2D<int> &c2 = *S->LookUpSnapshotPortColOffsets(tag); CHECK(c2.NumRows() == (int) q.second.size(), "port %s has %d pairs, not %zu", q.first.c_str(), c2.NumRows(), q.second.size()); for (int i = 0; i < c2.NumRows(); i++) CHECK(c2(i, 0) == q.second[i].first && c2(i, 1) == q.second[i].second, "pair %d of port %s is (%d, %d), not (%d, %d)", i, q.first.c_str(), c2(i, 0), c2(i, 1), q.second[i].first, q.second[i].second); }
   // the basis of every tag spans its leading directions
   S->FormReducedBasis(c.dir + "/basis");
   for (auto &q : t.cols) { auto B = CAROM::standin::read(c.dir + "/basis_" + q.first, "spatial_basis"); double sc = 0; for (auto &x : q.second) sc = std::max(sc, x.Norml2()); for (auto &x : q.second) { Vector r(x); for (int j = 0; j < B->numColumns(); j++) { double d = 0; for (int i = 0; i < r.Size(); i++) d += (*B)(i, j) * x[i]; for (int i = 0; i < r.Size(); i++) r[i] -= d * (*B)(i, j); } CHECK(r.Norml2() <= 1e-7 * sc, "the basis of %s misses a snapshot by %g (norm %g)", q.first.c_str(), r.Norml2(), sc); } struct stat st; bool is = !stat((c.dir + "/basis_" + q.first + "_sv.txt").c_str(), &st); CHECK(is == sv, "spectrum of %s %s", q.first.c_str(), is ? "was written" : "is missing"); }
   g.nontrivial = runs > 1;
}
// --- a run on several processes: each solves and saves its own samples (one process after the other plays them all, on a communicator that says so)
static MPI_Comm pretend = MPI_COMM_NULL; static int pretend_size = 1, pretend_rank = 0;
extern "C" int __real_MPI_Comm_size(MPI_Comm, int *); extern "C" int __real_MPI_Comm_rank(MPI_Comm, int *);
extern "C" int __wrap_MPI_Comm_size(MPI_Comm c, int *n) { if (pretend != MPI_COMM_NULL && c == pretend) { *n = pretend_size; return MPI_SUCCESS; } return __real_MPI_Comm_size(c, n); }
extern "C" int __wrap_MPI_Comm_rank(MPI_Comm c, int *n) { if (pretend != MPI_COMM_NULL && c == pretend) { *n = pretend_rank; return MPI_SUCCESS; } return __real_MPI_Comm_rank(c, n); }
PROP(P41, several_processes, 800, 4000, "more than one process and unequal shares")
{
   Setup s = sample_setup(g); Case &c = s.c; Grid G = gen_grid(g, c, 8); int N = G.total(), procs = g.range(1, std::min(N, 4)); c.doc["save_solution"]["enabled"] = true; c.doc["save_solution"]["file_path"]["prefix"] = "keep"; g.note << procs << " processes"; Layout L = layout(c.doc);
   std::vector<Vector> whole; for (int k = 0; k < N; k++) whole.push_back(solve_at(c.doc, c.dir, G.at(k)));
   alarm(40); // a process that never finishes
   if (pretend == MPI_COMM_NULL) MPI_Comm_dup(MPI_COMM_SELF, &pretend);
   std::vector<int> owner(N, -1); int next = 0;
   for (int r = 0; r < procs; r++)
   {
      pretend_size = procs; pretend_rank = r; YAML::Node d = YAML::Clone(c.doc); std::string dir = c.dir + "/rank" + std::to_string(r); mkdir(dir.c_str(), 0755); d["sample_generation"]["file_path"]["directory"] = dir; d["sample_generation"]["file_path"]["prefix"] = "rank" + std::to_string(r); set_config(d); GenerateSamples(pretend);
      Tally t; int mine = 0; for (int k = 0; k < N; k++) { struct stat st; std::string f = dir + "/sample" + std::to_string(k) + "_keep.h5"; if (stat(f.c_str(), &st)) continue; CHECK(owner[k] < 0, "sample %d was taken by processes %d and %d", k, owner[k], r); owner[k] = r; mine++; Vector u = read_solution(f); tally(t, L, s.R.separate, u); u -= whole[k]; CHECK(max_abs(u) <= 1e-8 * max_abs(whole[k]), "the solution file of sample %d differs by %g", k, max_abs(u)); }
      CHECK(mine >= N / procs && mine <= (N + procs - 1) / procs, "process %d took %d of the %d samples", r, mine, N); check_files(dir + "/rank" + std::to_string(r) + "_sample", t, 1e-8);
   }
   for (int k = 0; k < N; k++) CHECK(owner[k] >= 0, "sample %d was taken by no process", k); pretend_size = 1; pretend_rank = 0;
   g.nontrivial = procs > 1 && N % procs;
}
// --- random samples: every snapshot is the solution at some parameters in range
PROP(P41, random_samples, 500, 2500, "two parameters and more than one sample")
{
   Setup s = gen_setup(g, g.range(0, 1), 0, true); Case &c = s.c; rom_doc(g, c, s.R, variables(s.R.solver)); c.doc["save_solution"]["enabled"] = true; Layout L = layout(c.doc); Grid G = gen_grid(g, c, 8); int n = g.size(1, 6, 14, 0.1); c.doc["sample_generation"]["type"] = "random"; c.doc["sample_generation"]["random_sample_generator"]["number_of_samples"] = n; YAML::Node P = c.doc["sample_generation"]["parameters"]; for (size_t k = 0; k < P.size(); k++) P[k].remove("sample_size");
   Vector u[2] = { solve_at(c.doc, c.dir, { 1., 0. }), solve_at(c.doc, c.dir, { 0., 1. }) }; double a[2][2]; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) a[i][j] = u[i] * u[j]; double det = a[0][0] * a[1][1] - a[0][1] * a[1][0]; if (!(det > 1e-3 * a[0][0] * a[1][1])) throw pbt::Discard();
   bool one = g.coin(0.3); std::vector<Vector> got; g.note << n << (one ? " random, one run" : " random"); set_config(c.doc);
   if (one) { got.push_back(single_run(c.doc, c.dir, "one", 0.7, 0.3, [](YAML::Node &d) { d["single_run"]["choose_from_random_sample"] = true; })); }
   else { GenerateSamples(MPI_COMM_WORLD); std::vector<int> at(L.comp.size()); for (int k = 0; k < n; k++) got.push_back(Vector(u[0].Size())); std::map<std::string, int> col; std::map<std::string, std::shared_ptr<CAROM::Matrix>> M; for (int k = 0; k < n; k++) for (size_t m = 0; m < L.comp.size(); m++) { auto &x = M[L.comp[m]]; if (!x) x = CAROM::standin::read(c.dir + "/smp_sample_" + L.comp[m] + "_snapshot", "snapshot_matrix"); int j = col[L.comp[m]]++; CHECK(j < x->numColumns(), "%s has only %d snapshots", L.comp[m].c_str(), x->numColumns()); CHECK(x->numRows() == L.off[m].back() - L.off[m][0], "size of snapshots"); for (int i = 0; i < x->numRows(); i++) got[k][L.off[m][0] + i] = (*x)(i, j); } for (auto &x : M) CHECK(col[x.first] == x.second->numColumns(), "%s has %d snapshots, not %d", x.first.c_str(), x.second->numColumns(), col[x.first]); }
   std::set<std::pair<double, double>> seen; bool two = false, varies[2] = { false, false };
   for (auto &k : G.key) { if (k == "p0") varies[0] = true; if (k == "p1") varies[1] = true; } two = varies[0] && varies[1];
   for (auto &x : got)
   {
      double b0 = u[0] * x, b1 = u[1] * x, p[2] = { (b0 * a[1][1] - b1 * a[0][1]) / det, (a[0][0] * b1 - a[1][0] * b0) / det }; Vector r(x); r.Add(-p[0], u[0]); r.Add(-p[1], u[1]); CHECK(max_abs(r) <= 1e-7 * max_abs(x), "a random sample is no solution of the problem (residual %g)", max_abs(r));
      double lo[2] = { 0.7, 0.3 }, hi[2] = { 0.7, 0.3 }; for (size_t k = 0; k < G.key.size(); k++) if (G.key[k] != "count") { int d = G.key[k] == "p1"; lo[d] = G.lo[k]; hi[d] = G.hi[k]; } for (int d = 0; d < 2; d++) CHECK(p[d] >= lo[d] - 1e-5 && p[d] <= hi[d] + 1e-5, "parameter %d of a random sample is %g, outside [%g, %g]", d, p[d], lo[d], hi[d]);
      if (varies[0] || varies[1]) CHECK(seen.insert({ std::round(p[0] * 1e6), std::round(p[1] * 1e6) }).second, "the same random sample twice");
   }
   g.nontrivial = two && got.size() > 1;
}
// --- numbering of samples and their division among processes
struct Divided : SampleGenerator { Divided() : SampleGenerator(MPI_COMM_WORLD) {} void as(int rank, int of) { num_procs = of; proc_rank = rank; } };
PROP(P41, numbering, 1500, 6000, "more than one parameter")
{
   YAML::Node d; int np = g.range(1, 4), procs = g.range(1, 9); std::vector<int> n; std::vector<double> lo, hi; for (int k = 0; k < np; k++) { n.push_back(g.range(1, 6)); lo.push_back(g.real(-3, 3)); hi.push_back(lo[k] + g.real(0.1, 2)); YAML::Node p; p["key"] = "par/v" + std::to_string(k); p["type"] = "double"; p["sample_size"] = n[k]; p["minimum"] = lo[k]; p["maximum"] = hi[k]; d["sample_generation"]["parameters"].push_back(p); g.note << n[k] << " "; } g.note << "on " << procs;
   set_config(d); std::vector<std::unique_ptr<Divided>> S; for (int r = 0; r < procs; r++) { S.emplace_back(new Divided()); S[r]->as(r, procs); S[r]->SetParamSpaceSizes(); } int N = 1; for (int k : n) N *= k; CHECK(S[0]->GetTotalSampleSize() == N && S[0]->GetNumSampleParams() == np, "%d samples of %d parameters", S[0]->GetTotalSampleSize(), S[0]->GetNumSampleParams());
   std::vector<int> jobs(procs); Rnd r(g.seed());
   for (int s = 0; s < N; s++)
   {
      int owner = -1; for (int k = 0; k < procs; k++) if (S[k]->IsMyJob(s)) { CHECK(owner < 0, "sample %d belongs to two processes", s); owner = k; } CHECK(owner >= 0, "sample %d belongs to no process", s); jobs[owner]++;
      Array<int> i = S[0]->GetSampleIndex(s), want(np); int t = s; for (int k = np - 1; k >= 0; k--) { want[k] = t % n[k]; t /= n[k]; } CHECK(i.Size() == np, "size of index"); for (int k = 0; k < np; k++) CHECK(i[k] == want[k], "sample %d: index %d of parameter %d, not %d", s, i[k], k, want[k]); CHECK(S[0]->GetSampleIndex(want) == s, "index of sample %d is %d", s, S[0]->GetSampleIndex(want)); CHECK(S[owner]->IsMyJob(want), "owner by indices");
   }
   int least = *std::min_element(jobs.begin(), jobs.end()), most = *std::max_element(jobs.begin(), jobs.end()); CHECK(most - least <= 1, "a process has %d samples, another %d", most, least);
   for (int k = 0; k < 6; k++) { int s = r.range(0, N - 1), t = s; if (r.range(0, 1)) S[0]->SetSampleParams(s); else { Array<int> w(np); for (int q = np - 1; q >= 0; q--) { w[q] = t % n[q]; t /= n[q]; } S[0]->SetSampleParams(w); } t = s; for (int q = np - 1; q >= 0; q--) { int i = t % n[q]; t /= n[q]; double v = config.GetRequiredOption<double>("par/v" + std::to_string(q)), e = n[q] == 1 ? lo[q] : lo[q] + (hi[q] - lo[q]) * i / (n[q] - 1); CHECK(std::abs(v - e) < 1e-9, "sample %d sets parameter %d to %g, not %g", s, q, v, e); } }
   g.nontrivial = np > 1;
}
