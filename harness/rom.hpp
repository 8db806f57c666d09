// Sampling, training and running reduced models through /repo's own workflow functions, on generated decompositions.
#ifndef ROM_HPP
#define ROM_HPP
#include "fom.hpp"
#include "main_workflow.hpp"
#include <sys/stat.h>

// a problem of two parameters in which data are linear: p0 (...) + p1 (...)
struct Mix { std::vector<Wave> rhs[2], bdr[2]; double p[2] = { 1, 0 }; std::map<int, int> bc; int kind = 0; /* 0 scalar 1 elasticity 2 flow */ double nu = 1; bool ic = false; std::vector<Wave> start; };
inline Mix &mix() { static Mix m; return m; }
inline void mix_vec(const std::vector<Wave> *w, const Vector &x, Vector &v) { int n = w[0].size(); v.SetSize(n); for (int d = 0; d < n; d++) v[d] = mix().p[0] * w[0][d](x) + mix().p[1] * w[1][d](x); }
inline double mix_rhs(const Vector &x, double) { Vector v; mix_vec(mix().rhs, x, v); return v[0]; }
inline double mix_bdr(const Vector &x, double) { Vector v; mix_vec(mix().bdr, x, v); return v[0]; }
inline void mix_vrhs(const Vector &x, double, Vector &v) { mix_vec(mix().rhs, x, v); }
inline void mix_vbdr(const Vector &x, double, Vector &v) { mix_vec(mix().bdr, x, v); }
inline double mix_one(const Vector &, double) { return 1.; }
inline double mix_one1(const Vector &) { return 1.; }
struct MixProblem : ParameterizedProblem
{
   MixProblem()
   {
      Mix &m = mix(); battr.SetSize(0); bdr_type.SetSize(0); scalar_bdr_ptr.SetSize(0); vector_bdr_ptr.SetSize(0); param_num = 2; param_map["p0"] = 0; param_map["p1"] = 1; param_ptr.SetSize(2); param_ptr[0] = &m.p[0]; param_ptr[1] = &m.p[1];
      for (auto &b : m.bc)
      {
         battr.Append(b.first); bool D = b.second == 1, N = b.second == 2;
         if (m.kind == 0) { bdr_type.Append(D ? BoundaryType::DIRICHLET : b.second == 3 ? BoundaryType::ZERO : BoundaryType::NEUMANN); scalar_bdr_ptr.Append(D ? (function_factory::GeneralScalarFunction *) &mix_bdr : NULL); }
         if (m.kind == 1) { bdr_type.Append(D ? BoundaryType::DIRICHLET : BoundaryType::NEUMANN); vector_bdr_ptr.Append(D || N ? &mix_vbdr : NULL); }
         if (m.kind == 2) { bdr_type.Append(D ? BoundaryType::DIRICHLET : b.second == 3 ? BoundaryType::ZERO : BoundaryType::NEUMANN); vector_bdr_ptr.Append(D ? &mix_vbdr : NULL); }
      }
      if (m.kind == 0) scalar_rhs_ptr = &mix_rhs; else vector_rhs_ptr = &mix_vrhs;
      if (m.kind == 1) { general_scalar_ptr.SetSize(2); general_scalar_ptr = &mix_one; general_vector_ptr.SetSize(1); general_vector_ptr = NULL; }
      if (m.kind == 2) function_factory::flow_problem::nu = m.nu;
   }
};
extern "C" ParameterizedProblem *__wrap__Z24InitParameterizedProblemv() { return new MixProblem(); }

struct Rom { std::string dir, solver; int comps; std::vector<int> count; bool separate; int samples, steps = 1; std::vector<std::string> vars; };
// what a configuration needs for sampling and training: a grid of samples over the two parameters
inline void rom_doc(Gen &g, Case &c, Rom &R, const std::vector<std::string> &vars)
{
   R.dir = c.dir; R.vars = vars; c.doc["main"]["solver"] = R.solver; c.doc["main"]["use_rom"] = false; c.doc["parameterized_problem"]["name"] = "pbt_mix"; c.doc["single_run"]["pbt_mix"]["p0"] = 0.; c.doc["single_run"]["pbt_mix"]["p1"] = 0.;
   YAML::Node sg = c.doc["sample_generation"]; sg["maximum_number_of_snapshots"] = 200; sg["file_path"]["directory"] = c.dir; sg["file_path"]["prefix"] = "smp"; c.doc["save_solution"]["file_path"]["directory"] = c.dir; c.doc["save_solution"]["enabled"] = true;
   c.doc["basis"]["prefix"] = c.dir + "/basis"; c.doc["model_reduction"]["rom_handler_type"] = "mfem"; c.doc["model_reduction"]["separate_variable_basis"] = R.separate; c.doc["model_reduction"]["save_operator"]["prefix"] = c.dir + "/romop";
}
inline YAML::Node with(const YAML::Node &d, const std::function<void(YAML::Node &)> &f) { YAML::Node e = YAML::Clone(d); f(e); return e; }
inline void add_param(YAML::Node &doc, const char *key, double lo, double hi, int n) { YAML::Node p; p["key"] = std::string("single_run/pbt_mix/") + key; p["type"] = "double"; p["sample_size"] = n; p["minimum"] = lo; p["maximum"] = hi; doc["sample_generation"]["parameters"].push_back(p); }
inline Vector read_solution(const std::string &f) { hid_t h = H5Fopen(f.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); CHECK(h >= 0, "no solution file %s", f.c_str()); Vector v; hdf5_utils::ReadDataset(h, "solution", v); H5Fclose(h); return v; }
inline Vector single_run(const YAML::Node &base, const std::string &dir, const std::string &name, double p0, double p1, const std::function<void(YAML::Node &)> &f, double *err = NULL)
{
   YAML::Node d = YAML::Clone(base); d["single_run"]["pbt_mix"]["p0"] = p0; d["single_run"]["pbt_mix"]["p1"] = p1; d["save_solution"]["file_path"]["prefix"] = name; f(d); set_config(d); double e = SingleRun(MPI_COMM_WORLD, dir + "/" + name + "_out.h5"); if (err) *err = e; return read_solution(dir + "/" + name + ".h5");
}
struct Setup { Case c; Rom R; int order; bool dg, eqp = false; };
// kind: 0 poisson 1 elasticity 2 stokes 3 steady-ns 4 unsteady-ns; still: no velocity data but zero
inline Setup gen_setup(Gen &g, int kind, int want, bool rot = false, bool still = false)
{
   Setup s; s.c = gen_case(g, want, kind ? 2 : 0, kind > 1 ? 3 : 4, 2, rot); Case &c = s.c; const char *names[] = { "poisson", "linelast", "stokes", "steady-ns", "unsteady-ns" }; s.R.solver = names[kind];
   s.order = g.range(1, kind > 1 || c.dim == 3 ? 1 : 2); s.dg = g.coin(); c.doc["discretization"]["order"] = s.order; c.doc["discretization"]["full-discrete-galerkin"] = s.dg; c.doc["solver"]["direct_solve"] = true; c.doc["solver"]["relative_tolerance"] = 1e-13; c.doc["solver"]["absolute_tolerance"] = 1e-13; c.doc["solver"]["max_iter"] = 5000;
   Mix &m = mix(); m = Mix(); m.kind = kind == 0 ? 0 : kind == 1 ? 1 : 2; int n = kind ? c.dim : 1; Rnd r(g.seed()); for (int k = 0; k < 2; k++) for (int d = 0; d < n; d++) { m.rhs[k].push_back(Wave::random(r, kind > 2 ? 0.15 : 1)); m.bdr[k].push_back(Wave::random(r, kind > 2 ? 0.15 : 1)); }
   Array<int> at; at = c.whole->bdr_attributes; at.Sort(); int any = 0; for (int a : at) { int t; if (kind == 0) t = g.pick(std::vector<int>{ 1, 0, 3 }); else if (kind == 1) t = g.pick(std::vector<int>{ 1, 0, 2 }); else t = g.pick(still ? std::vector<int>{ 3, 0, 3 } : std::vector<int>{ 1, 0, 3 }); m.bc[a] = t; any += t == 1 || (still && t == 3); }
   if (!any) m.bc[at[g.range(0, at.Size() - 1)]] = still ? 3 : 1; if (kind > 1) { bool open = false; for (auto &b : m.bc) open = open || b.second == 0; if (!open) { if (m.bc.size() < 2) throw pbt::Discard(); auto it = m.bc.begin(); if (it->second == 1) ++it; bool other = false; for (auto &b : m.bc) if (b.first != it->first && (b.second == 1 || still)) other = true; if (!other) throw pbt::Discard(); it->second = 0; } }
   m.nu = 1; s.R.separate = false; for (auto &b : m.bc) g.note << "bc" << b.first << ":" << b.second << " "; return s;
}
// names of the components with the number of subdomains made of each
inline std::vector<std::pair<std::string, int>> parts(const Case &c)
{
   std::vector<std::pair<std::string, int>> p; if (!c.component) { set_config(c.doc); SubMeshTopologyHandler T; for (int m = 0; m < c.nsub; m++) p.push_back({ T.GetComponentName(m), 1 }); return p; }
   for (size_t k = 0; k < c.w.comps.size(); k++) { int n = 0; for (auto &b : c.w.blocks) n += b.comp == (int) k; if (!n) throw pbt::Discard(); p.push_back({ c.w.comps[k].name, n }); } return p;
}
#endif
