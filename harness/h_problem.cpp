// Parameterized problems: named parameters, boundary types, problem functions.
// level: base
#include "common.hpp"
#include "parameterized_problem.hpp"
#include <sys/wait.h>
#include <unistd.h>
using namespace std;
typedef map<string, double> Model;
typedef double (*Scalar)(const Model &, const Vector &, double);
typedef void (*Vec)(const Model &, const Vector &, double, Vector &);
namespace ff = function_factory;
static const double PI = 3.14159265358979323846;

// ---------- closed forms, from the parameters' names ----------
static double f_poisson0(const Model &m, const Vector &x, double) { return sin(2 * PI * (m.at("k") * x.Sum() + m.at("offset"))); }
static double wave(const Model &m, const string &k, const string &off, const Vector &x) { double s = m.at(off); for (int d = 0; d < x.Size(); d++) s += m.at(k + to_string(d)) * x[d]; return sin(2 * PI * s); }
static double f_comp(const Model &m, const Vector &x, double) { return wave(m, "k", "offset", x); }
static double f_comp_bdr(const Model &m, const Vector &x, double) { return wave(m, "bdr_k", "bdr_offset", x); }
static double f_spiral(const Model &m, const Vector &x, double)
{
   double c = m.at("L") / 2, r2 = 0; for (int d = 0; d < x.Size(); d++) r2 += (x[d] - c) * (x[d] - c);
   double a = atan2(x[1] - c, x[0] - c); if (a < 0) a += 2 * PI;
   double best = 1e300; for (int n = -1; n <= 1; n++) best = min(best, fabs(sqrt(r2) - m.at("s") * m.at("L") * (a + 2 * PI * n) / (4 * PI)));
   return exp(-best * best / (2 * m.at("Lw") * m.at("Lw"))) * cos(2 * PI * m.at("k") * best);
}
static double f_q(const Model &m, const Vector &x, double)
{ static const char *n[3] = { "qk_x", "qk_y", "qk_z" }; double s = m.at("qoffset"); for (int d = 0; d < x.Size(); d++) s += m.at(n[d]) * x[d]; return m.at("q0") + m.at("dq") * sin(2 * PI * s); }
static double f_lambda(const Model &m, const Vector &, double) { return m.at("lambda"); }
static double f_mu(const Model &m, const Vector &, double) { return m.at("mu"); }

static void v_channel(const Model &m, const Vector &x, double, Vector &y) { y = 0.; double s = (x[1] - m.at("x0")) / m.at("L"); y[0] = m.at("U") * (1 - 4 * s * s); }
static void v_component(const Model &m, const Vector &x, double, Vector &y)
{
   static const char *X[3] = { "_x", "_y", "_z" }, *U[3] = { "_u", "_v", "_w" };
   for (int i = 0; i < x.Size(); i++)
   {
      double s = -m.at(string("offsets") + X[i]); for (int j = 0; j < x.Size(); j++) s += m.at(string("k") + U[i] + X[j]) * x[j];
      y[i] = m.at(string("u0") + X[i]) + m.at(string("du") + X[i]) * sin(2 * PI * s) - ff::flow_problem::del_u * (x[i] - ff::flow_problem::x0[i]);
   }
}
static double inflow(const Model &m, double y) { double a = m.at("y0"), b = m.at("y1"); return 4 * m.at("u0") * (y - a) * (b - y) / ((b - a) * (b - a)); }
static void v_step(const Model &m, const Vector &x, double t, Vector &y)
{
   y = 0.; y[0] = inflow(m, x[1]); double a = m.at("y0"), b = m.at("y1");
   for (string k : { "0", "1" }) y[1] += m.at("amp" + k) * sin(PI * m.at("ky" + k) * (x[1] - a) / (b - a)) * sin(2 * PI * (m.at("freq" + k) * t + m.at("t_offset" + k)));
}
static void v_step_ic(const Model &m, const Vector &x, double, Vector &y) { y = 0.; y[0] = x[1] < m.at("y0") ? 0. : inflow(m, x[1]); }
static void v_step_pic(const Model &, const Vector &, double, Vector &y) { y.SetSize(1); y = 0.; }
static void v_lid(const Model &m, const Vector &x, double, Vector &y) { y = 0.; double L = m.at("L"); y[0] = 4 * m.at("u0") * (x[0] / L) * (1 - x[0] / L); }
static void v_force(const Model &m, const Vector &x, double, Vector &y)
{ static const char *n[3] = { "fx", "fy", "fz" }; y.SetSize(3); for (int d = 0; d < 3; d++) y[d] = m.at(n[d]); }
static void v_disp(const Model &m, const Vector &x, double, Vector &y) { y = 0.; y[y.Size() - 1] = -x[0] * m.at("rdisp_f") / 5; }
static void v_disp_l(const Model &m, const Vector &x, double, Vector &y) { y = 0.; y[y.Size() - 1] = (1 - x[y.Size() - 1] / 5) * m.at("rdisp_f"); }
static void v_tip(const Model &m, const Vector &, double, Vector &y) { y = 0.; y[y.Size() - 1] = -m.at("rforce_f") / 100; }
static void v_disp1(const Model &m, const Vector &x, double, Vector &y) { y = 0.; y[y.Size() - 1] = -x[0] * ff::linelast_disp::rdisp_f / 5; }   // force_cantilever: no parameter of its own
static void v_gravity(const Model &m, const Vector &, double, Vector &y) { y = 0.; y[y.Size() - 1] = -m.at("density") * m.at("g"); }
static void v_wind(const Model &m, const Vector &, double, Vector &y) { y = 0.; y[0] = m.at("qwind_f"); }
static void v_zero(const Model &, const Vector &, double, Vector &y) { y = 0.; }
static void train(const Model &m, const Vector &x, Vector &y, const char *sw, const char *c0, const char *c1, const char *w0, const char *w1)
{
   y = 0.; const char *c[2] = { c0, c1 }, *w[2] = { w0, w1 };
   for (int d = 0; d < 2; d++)
      if (m.at(string(sw) + "xy"[d]) >= 0.5) { string p = w[d]; y[d] = m.at(c[d]) + m.at(p + "_amp") * sin(PI * m.at(p + "_freq") * (x[d] / 3 + 2 * m.at(p + "_offset"))); }
}
static void v_left(const Model &m, const Vector &x, double, Vector &y) { train(m, x, y, "l", "l_ux", "l_uy", "xu", "yu"); }
static void v_right(const Model &m, const Vector &x, double, Vector &y) { train(m, x, y, "r", "r_fx", "r_fy", "xf", "yf"); }
static void v_up(const Model &m, const Vector &x, double, Vector &y) { train(m, x, y, "u", "u_fx", "u_fy", "xf", "yf"); }
static void v_down(const Model &m, const Vector &x, double, Vector &y) { train(m, x, y, "d", "d_fx", "d_fy", "xf", "yf"); }
static void v_body(const Model &m, const Vector &x, double, Vector &y) { train(m, x, y, "b", "b_fx", "b_fy", "bxf", "byf"); }

// ---------- what each problem promises ----------
struct Par { string key; double dflt; function<double *()> at; };
struct Bdr { int attr; string type; Scalar s; Vec v; };   // type: letters of the allowed types D, N, Z
struct Spec
{
   string name; int dmin, dmax; vector<Par> par; vector<Bdr> bdr; Scalar srhs = nullptr; Vec vrhs = nullptr; vector<Vec> ic; vector<Scalar> gs; vector<Vec> gv;
   void p(const string &k, double d, double *a) { par.push_back({ k, d, [a] { return a; } }); }
   void pv(const string &k, double d, Vector &v, int i) { Vector *q = &v; par.push_back({ k, d, [q, i] { return &(*q)[i]; } }); }
   void pm(const string &k, double d, DenseMatrix &v, int i, int j) { DenseMatrix *q = &v; par.push_back({ k, d, [q, i, j] { return &(*q)(i, j); } }); }
};
static const vector<string> XYZ = { "_x", "_y", "_z" }, UVW = { "_u", "_v", "_w" };
static void component_pars(Spec &s)
{
   using namespace ff::flow_problem; s.p("nu", 1., &nu);
   for (int i = 0; i < 3; i++)
   {
      s.pv("u0" + XYZ[i], 0., component_flow::u0, i); s.pv("du" + XYZ[i], 1., component_flow::du, i); s.pv("offsets" + XYZ[i], 0., component_flow::offsets, i);
      for (int j = 0; j < 3; j++) s.pm("k" + UVW[i] + XYZ[j], 1., component_flow::k, j, i);
   }
}
static void lame(Spec &s, double l = 1., double m = 1.) { s.p("lambda", l, &ff::linelast_problem::_lambda); s.p("mu", m, &ff::linelast_problem::_mu); s.gs = { f_lambda, f_mu }; }
static vector<Spec> make_specs()
{
   vector<Spec> S;
   { Spec s; s.name = "poisson0"; s.dmin = 1; s.dmax = 3; s.p("k", 1., &ff::poisson0::k); s.p("offset", 0., &ff::poisson0::offset); s.srhs = f_poisson0; s.bdr = { { -1, "Z" } }; S.push_back(s); }
   { Spec s; s.name = "poisson_component"; s.dmin = 1; s.dmax = 3; using namespace ff::poisson_component;
     for (int d = 0; d < 3; d++) { s.pv("k" + to_string(d), 0., k, d); s.pv("bdr_k" + to_string(d), 0., bdr_k, d); }
     s.p("offset", 0.1, &offset); s.p("bdr_offset", 0., &bdr_offset); s.p("bdr_idx", -1., &bdr_idx); s.srhs = f_comp; s.bdr = { { -1, "D", f_comp_bdr } }; S.push_back(s); }
   { Spec s; s.name = "poisson_spiral"; s.dmin = 2; s.dmax = 3; using namespace ff::poisson_spiral; s.p("L", 1., &L); s.p("Lw", .2, &Lw); s.p("k", 1., &k); s.p("s", .6, &ff::poisson_spiral::s); s.srhs = f_spiral; s.bdr = { { -1, "Z" } }; S.push_back(s); }
   { Spec s; s.name = "channel_flow"; s.dmin = 2; s.dmax = 3; using namespace ff::flow_problem; s.p("nu", 1., &nu); s.p("L", 1., &channel_flow::L); s.p("U", 1., &channel_flow::U); s.p("x0", .5, &channel_flow::x0);
     s.bdr = { { 1, "Z" }, { 2, "N" }, { 3, "Z" }, { 4, "D", nullptr, v_channel }, { 5, "Z" } }; S.push_back(s); }
   { Spec s; s.name = "component_flow"; s.dmin = 2; s.dmax = 3; component_pars(s); for (int b = 1; b < 5; b++) s.bdr.push_back({ b, "D", nullptr, v_component }); s.bdr.push_back({ 5, "Z" }); S.push_back(s);
     s.name = "flow_past_array"; for (int b = 0; b < 4; b++) s.bdr[b].type = "DN"; S.push_back(s);
     s.name = "advdiff_flow_past_array"; s.bdr.clear(); using namespace ff::advdiff_problem::advdiff_flow_past_array; s.p("q0", 1., &q0); s.p("dq", .1, &dq); s.p("qoffset", 0., &qoffset); for (int j = 0; j < 3; j++) s.pv("qk" + XYZ[j], 0., qk, j);
     for (int b = 1; b < 5; b++) s.bdr.push_back({ b, "DN", f_q, v_component }); s.bdr.push_back({ 5, "N" }); S.push_back(s); }
   { Spec s; s.name = "backward_facing_step"; s.dmin = 2; s.dmax = 2; using namespace ff::flow_problem; using namespace backward_facing_step; s.p("nu", 1., &nu); s.p("y0", 0., &backward_facing_step::y0); s.p("y1", 1., &backward_facing_step::y1); s.p("u0", 1., &u0);
     for (int i = 0; i < 2; i++) { string k = to_string(i); s.pv("amp" + k, 0., amp, i); s.pv("ky" + k, 0., ky, i); s.pv("freq" + k, 0., freq, i); s.pv("t_offset" + k, 0., t_offset, i); }
     s.bdr = { { 1, "D", nullptr, v_step }, { 2, "Z" }, { 3, "N" } }; s.ic = { v_step_ic, v_step_pic }; S.push_back(s); }
   { Spec s; s.name = "lid_driven_cavity"; s.dmin = 2; s.dmax = 2; using namespace ff::flow_problem; s.p("nu", 1., &nu); s.p("u0", 1., &lid_driven_cavity::u0); s.p("L", 1., &lid_driven_cavity::L);
     s.bdr = { { 1, "DZ" }, { 2, "Z" }, { 3, "D", nullptr, v_lid }, { 4, "Z" }, { 5, "Z" } }; S.push_back(s); }
   { Spec s; s.name = "periodic_flow_past_array"; s.dmin = 2; s.dmax = 3; using namespace ff::flow_problem; s.p("nu", 1., &nu); s.pv("fx", 0., periodic_flow_past_array::f, 0); s.pv("fy", 0., periodic_flow_past_array::f, 1); s.pv("fz", 0., periodic_flow_past_array::f, 2);
     s.vrhs = v_force; s.bdr = { { 5, "Z" } }; S.push_back(s);
     s.name = "force_driven_corner"; s.bdr = { { 1, "Z" }, { 2, "Z" }, { 3, "N" }, { 4, "N" }, { 5, "Z" } }; S.push_back(s); }
   { Spec s; s.name = "linelast_disp"; s.dmin = 2; s.dmax = 3; s.p("rdisp_f", 1., &ff::linelast_disp::rdisp_f); lame(s); s.gv = { v_disp }; s.bdr = { { 1, "D", nullptr, v_disp }, { 2, "D", nullptr, v_disp }, { 3, "Z" } }; S.push_back(s);
     s.name = "linelast_disp_lcantilever"; s.gv = { nullptr }; s.bdr = { { 1, "D", nullptr, v_disp_l }, { 2, "D", nullptr, v_disp_l }, { 3, "N" } }; S.push_back(s);
     s.name = "linelast_disp_lattice"; s.bdr = { { 1, "N" }, { 2, "D", nullptr, v_disp }, { 3, "N" }, { 4, "D", nullptr, v_disp }, { 5, "N" } }; S.push_back(s); }
   { Spec s; s.name = "linelast_force_cantilever"; s.dmin = 2; s.dmax = 3; s.p("rforce_f", 1., &ff::linelast_force::rforce_f); lame(s); s.gv = { nullptr };
     s.bdr = { { 1, "N" }, { 2, "N", nullptr, v_tip }, { 3, "N" }, { 4, "D", nullptr, v_disp1 }, { 5, "N" } }; S.push_back(s); }
   { Spec s; s.name = "linelast_frame_wind"; s.dmin = 2; s.dmax = 3; using namespace ff::linelast_frame_wind; lame(s, 3846153846., 769230769.); s.p("qwind_f", 500., &qwind_f); s.p("density", 78.5, &density); s.p("g", 9.81, &ff::linelast_frame_wind::g); s.gv = { nullptr }; s.vrhs = v_gravity;
     s.bdr = { { 1, "N", nullptr, v_wind }, { 2, "N" }, { 3, "N" }, { 4, "D", nullptr, v_zero }, { 5, "N" } }; S.push_back(s); }
   { Spec s; s.name = "linelast_cwtrain"; s.dmin = 2; s.dmax = 2; lame(s); using namespace ff::linelast_cwtrain;
#define P0(n) s.p(#n, 0., &n)
     P0(lx); P0(ly); P0(rx); P0(ry); P0(dx); P0(dy); P0(ux); P0(uy); P0(bx); P0(by); P0(l_ux); P0(l_uy); P0(r_fx); P0(r_fy); P0(u_fx); P0(u_fy); P0(d_fx); P0(d_fy); P0(b_fx); P0(b_fy);
#define P3(n) s.p(#n "_amp", 1., &n##_amp); s.p(#n "_freq", 1., &n##_freq); s.p(#n "_offset", 0., &n##_offset)
     P3(xu); P3(yu); P3(xf); P3(yf); P3(bxf); P3(byf);
     s.gv = { v_body }; s.bdr = { { 1, "N", nullptr, v_down }, { 2, "N", nullptr, v_right }, { 3, "N", nullptr, v_up }, { 4, "D", nullptr, v_left }, { 5, "N" } }; S.push_back(s); }
   return S;
}
static const vector<Spec> &specs() { static vector<Spec> s = make_specs(); return s; }

static char letter(BoundaryType t) { return t == BoundaryType::DIRICHLET ? 'D' : t == BoundaryType::NEUMANN ? 'N' : t == BoundaryType::ZERO ? 'Z' : '?'; }
static void check_state(const Spec &s, ParameterizedProblem &p, Model &m, const char *when)
{
   CHECK(p.GetProblemName() == s.name, "name %s, expected %s", p.GetProblemName().c_str(), s.name.c_str());
   CHECK(p.GetNumParams() == (int) s.par.size(), "%s %s: %d parameters, expected %d", s.name.c_str(), when, (int) p.GetNumParams(), (int) s.par.size());
   set<int> idx;
   for (auto &q : s.par)
   {
      CHECK(same_bits(*q.at(), m.at(q.key)), "%s %s: parameter %s is %.17g, expected %.17g", s.name.c_str(), when, q.key.c_str(), *q.at(), m.at(q.key));
      int i = p.GetParamIndex(q.key); CHECK(i >= 0 && i < (int) s.par.size() && idx.insert(i).second, "%s: index %d of %s out of range or taken", s.name.c_str(), i, q.key.c_str());
   }
}
static void check_bdr(const Spec &s, ParameterizedProblem &p, const Model &m, bool set_once)
{
   CHECK(p.battr.Size() == (int) s.bdr.size() && p.bdr_type.Size() == (int) s.bdr.size(), "%s: %d boundaries, %d types, expected %d", s.name.c_str(), p.battr.Size(), p.bdr_type.Size(), (int) s.bdr.size());
   for (size_t b = 0; b < s.bdr.size(); b++)
   {
      int attr = s.bdr[b].attr; string types = s.bdr[b].type;
      if (s.name == "poisson_component") attr = m.at("bdr_idx") >= 0 ? 1 + (int) m.at("bdr_idx") : -1;
      if (types == "DN" && set_once)   // inflow where the mean flow enters, outflow opposite
      {
         bool in = attr == 4 ? m.at("u0_x") > 0 : attr == 2 ? !(m.at("u0_x") > 0) : attr == 1 ? m.at("u0_y") > 0 : !(m.at("u0_y") > 0); types = in ? "D" : "N";
      }
      CHECK(p.battr[b] == attr, "%s: boundary %d has attribute %d, expected %d", s.name.c_str(), (int) b, p.battr[b], attr);
      CHECK(types.find(letter(p.bdr_type[b])) != string::npos, "%s: boundary attribute %d has type %c, expected %s", s.name.c_str(), attr, letter(p.bdr_type[b]), types.c_str());
   }
}
static void check_scalar(const Spec &s, const Model &m, ff::GeneralScalarFunction *f, Scalar ref, const Vector &x, double t, const char *what)
{
   CHECK((f == NULL) == (ref == nullptr), "%s: %s is %s", s.name.c_str(), what, f ? "given, expected none" : "missing"); if (!ref) return;
   double a = f(x, t), e = ref(m, x, t); CHECK(fabs(a - e) <= 1e-10 * max(1., fabs(e)), "%s: %s is %.17g, expected %.17g", s.name.c_str(), what, a, e);
}
static void check_vector(const Spec &s, const Model &m, ff::GeneralVectorFunction *f, Vec ref, const Vector &x, double t, const char *what)
{
   CHECK((f == NULL) == (ref == nullptr), "%s: %s is %s", s.name.c_str(), what, f ? "given, expected none" : "missing"); if (!ref) return;
   Vector a(x.Size()), e(x.Size()); a = 777.; f(x, t, a); ref(m, x, t, e); double sc = max(1., e.Normlinf());
   CHECK(a.Size() == e.Size(), "%s: %s has %d components, expected %d", s.name.c_str(), what, a.Size(), e.Size());
   for (int d = 0; d < e.Size(); d++) CHECK(fabs(a[d] - e[d]) <= 1e-10 * sc, "%s: component %d of %s is %.17g, expected %.17g", s.name.c_str(), d, what, a[d], e[d]);
}
static void check_functions(Gen &g, const Spec &s, ParameterizedProblem &p, const Model &m)
{
   int dim = g.range(s.dmin, s.dmax); Vector x(dim); for (int d = 0; d < dim; d++) x[d] = g.coin(0.2) ? g.range(-1, 2) : g.real(-2, 2); double t = g.real(0, 2);
   ff::flow_problem::x0.SetSize(dim); for (int d = 0; d < dim; d++) ff::flow_problem::x0[d] = g.real(-1, 1); ff::flow_problem::del_u = g.coin() ? 0. : g.real(-1, 1);
   if (s.name == "poisson_spiral" && (fabs(x[1] - m.at("L") / 2) < 1e-9)) x[1] += 0.01;   // the angle jumps there
   check_scalar(s, m, p.scalar_rhs_ptr, s.srhs, x, t, "scalar right-hand side"); check_vector(s, m, p.vector_rhs_ptr, s.vrhs, x, t, "right-hand side");
   for (size_t b = 0; b < s.bdr.size(); b++)
   {
      string w = "boundary function " + to_string(b);
      // a zero boundary ignores its function; a natural one without data may have one that is not used
      if (s.bdr[b].s) { CHECK(p.scalar_bdr_ptr.Size() == (int) s.bdr.size(), "%s: %d boundary functions", s.name.c_str(), p.scalar_bdr_ptr.Size()); check_scalar(s, m, p.scalar_bdr_ptr[b], s.bdr[b].s, x, t, w.c_str()); }
      if (s.bdr[b].v) { CHECK(p.vector_bdr_ptr.Size() == (int) s.bdr.size(), "%s: %d boundary functions", s.name.c_str(), p.vector_bdr_ptr.Size()); check_vector(s, m, p.vector_bdr_ptr[b], s.bdr[b].v, x, t, w.c_str()); }
      if (s.gs.size() && !s.bdr[b].v) CHECK(p.vector_bdr_ptr[b] == NULL, "%s: unloaded boundary %d has a load", s.name.c_str(), (int) b);   // elasticity loads every boundary that has a function
   }
   CHECK(p.ic_ptr.Size() == (int) s.ic.size(), "%s: %d initial conditions", s.name.c_str(), p.ic_ptr.Size()); for (size_t i = 0; i < s.ic.size(); i++) check_vector(s, m, p.ic_ptr[i], s.ic[i], x, t, "initial condition");
   CHECK(p.general_scalar_ptr.Size() == (int) s.gs.size() && p.general_vector_ptr.Size() == (int) s.gv.size(), "%s: material functions", s.name.c_str());
   for (size_t i = 0; i < s.gs.size(); i++) check_scalar(s, m, p.general_scalar_ptr[i], s.gs[i], x, t, "material function");
   for (size_t i = 0; i < s.gv.size(); i++) check_vector(s, m, p.general_vector_ptr[i], s.gv[i], x, t, "general vector function");
}
static double gen_value(Gen &g, const Spec &s, const string &k)
{
   if (k == "bdr_idx") return g.coin(0.3) ? -g.real(0.01, 1) : g.coin(0.4) ? g.range(0, 3) : g.real(0, 3.999);
   if (k == "L" || k == "Lw") return g.real(0.2, 3);
   if (k == "y0") return g.real(-1, 0.4); if (k == "y1") return g.real(0.6, 2);
   if (s.name == "linelast_cwtrain" && k.size() == 2 && k != "mu") return g.coin(0.2) ? 0.5 : g.real(0, 1);
   return g.coin(0.2) ? g.range(-2, 2) : g.real(-3, 3);
}

PROP(P37, parameters_and_functions, 12000, 200000, "a parameter is set and the functions are evaluated afterwards")
{
   struct Live { const Spec *s; unique_ptr<ParameterizedProblem> p; bool set_once; };
   vector<Live> live; map<double *, double> mem;   // the model: what every parameter of every live problem holds
   auto view = [&](const Spec &s) { Model m; for (auto &q : s.par) m[q.key] = mem.at(q.at()); return m; };
   int steps = g.range(2, 10), sets = 0;
   for (int it = 0; it < steps; it++)
   {
      if (live.empty() || (live.size() < 3 && g.coin(0.15)))
      {
         const Spec &s = specs()[g.draw(specs().size())]; g.note << "new " << s.name << "\n"; YAML::Node doc; doc["parameterized_problem"]["name"] = s.name; config = InputParser(); config.dict_ = doc;
         Live l{ &s, unique_ptr<ParameterizedProblem>(InitParameterizedProblem()), false }; CHECK(l.p.get(), "%s: no problem", s.name.c_str());
         for (auto &q : s.par) mem[q.at()] = q.dflt;   // a new problem starts from its defaults
         live.push_back(move(l));
      }
      Live &l = live[g.draw(live.size())]; const Spec &s = *l.s; int n = s.par.size();
      switch (g.draw(4))
      {
         case 0: { auto &q = s.par[g.draw(n)]; double v = gen_value(g, s, q.key); g.note << s.name << ": " << q.key << " = " << v << "\n"; l.p->SetParams(q.key, v); mem[q.at()] = v; l.set_once = true; sets++; break; }
         case 1:
         {
            vector<int> perm; for (int i = 0; i < n; i++) perm.push_back(i); for (int i = n - 1; i > 0; i--) swap(perm[i], perm[g.draw(i + 1)]);
            int k = g.range(1, n); Array<int> idx(k); Vector val(k); g.note << s.name << ": by index";
            for (int i = 0; i < k; i++) { auto &q = s.par[perm[i]]; idx[i] = l.p->GetParamIndex(q.key); val[i] = gen_value(g, s, q.key); mem[q.at()] = val[i]; g.note << " " << q.key << "=" << val[i]; }
            g.note << "\n"; l.p->SetParams(idx, val); l.set_once = true; sets++; break;
         }
         case 2:
         {
            YAML::Node doc; doc["parameterized_problem"]["name"] = s.name; doc["single_run"][s.name] = YAML::Node(YAML::NodeType::Map); int k = 0; g.note << s.name << ": single run";
            for (auto &q : s.par) if (g.coin(0.4)) { double v = gen_value(g, s, q.key); ostringstream o; o.precision(17); o << v; doc["single_run"][s.name][q.key] = o.str(); mem[q.at()] = v; k++; g.note << " " << q.key << "=" << v; }
            doc["single_run"]["other"]["nu"] = 3.; g.note << "\n"; config = InputParser(); config.dict_ = doc; l.p->SetSingleRun(); if (k) l.set_once = true; sets += k; break;
         }
         default:
            if (g.coin(0.03))
            {  // an unknown name is refused
               fflush(stdout); pid_t pid = fork();
               if (!pid) { freopen("/dev/null", "w", stderr); freopen("/dev/null", "w", stdout); signal(SIGABRT, SIG_DFL); l.p->SetParams("no such parameter", 1.); _exit(0); }
               int st = 0; waitpid(pid, &st, 0); CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 0), "%s: an unknown parameter is accepted", s.name.c_str());
            }
      }
      for (auto &o : live) { Model m = view(*o.s); check_state(*o.s, *o.p, m, "after a step"); }
      Model m = view(s);
      // problems share global parameters: the boundary types of a problem follow those that were set through it
      bool only = true; for (auto &o : live) if (&o != &l) for (auto &q : o.s->par) for (auto &r : s.par) if (q.at() == r.at()) only = false;
      if (only) check_bdr(s, *l.p, m, l.set_once);
      check_functions(g, s, *l.p, m);
   }
   g.nontrivial = sets > 0;
   // the flow problem inside an advection problem follows it
   for (auto &l : live) if (l.s->name == "advdiff_flow_past_array" && l.set_once && live.size() == 1)
   {
      FlowProblem *f = ff::advdiff_problem::flow_problem; Model m = view(*l.s); const Spec *s = nullptr; for (auto &q : specs()) if (q.name == "flow_past_array") s = &q;
      check_bdr(*s, *f, m, true); CHECK(f->vector_bdr_ptr.Size() == 5, "flow problem"); check_functions(g, Spec{ s->name, 2, 3, s->par, s->bdr, s->srhs, s->vrhs, s->ic, s->gs, s->gv }, *f, m);
   }
}
