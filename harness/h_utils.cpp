// Mesh tools, run as programs.
// level: base
// util: rectangle_mesh
// util: cubic_mesh
// util: 1d_mesh
// util: gmsh2mfem
#include "common.hpp"
#include <fcntl.h>
#include <fstream>
#include <memory>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace std;

static int run_tool(Gen &g, const string &name, const vector<string> &args)
{
   string exe = string(getenv("VERIF_UTILS")) + "/util_" + name; vector<char *> a = { (char *) exe.c_str() }; g.note << name;
   for (auto &s : args) { a.push_back((char *) s.c_str()); g.note << ' ' << (s.empty() ? "''" : s); } a.push_back(NULL);
   fflush(NULL); pid_t p = fork();
   if (!p)
   {
      if (chdir(pbt::scratch().c_str())) _exit(99); int fd = open("log", O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 1); dup2(fd, 2); signal(SIGABRT, SIG_DFL); execv(exe.c_str(), a.data()); _exit(98);
   }
   int st = 0; waitpid(p, &st, 0); return WIFEXITED(st) ? WEXITSTATUS(st) : 200;
}
static string tail_of_log() { ifstream f(pbt::scratch() + "/log"); string s((istreambuf_iterator<char>(f)), istreambuf_iterator<char>()); return s.size() > 400 ? s.substr(s.size() - 400) : s; }
static unique_ptr<Mesh> read(const string &file)
{
   string path = pbt::scratch() + "/" + file; struct stat st; CHECK(stat(path.c_str(), &st) == 0, "no file %s was written", file.c_str());
   return unique_ptr<Mesh>(new Mesh(path.c_str()));
}
static double volume(Mesh &m, int e);
static string str(double d) { ostringstream o; o.precision(12); o << d; return o.str(); }

// a box of n[d] cells per direction and size L[d], split in D[d] parts, periodic where per[d]
static void check_box(Mesh &m, int dim, const int *n0, const double *L, const int *D, const bool *per, bool simplex, int order, int rs, bool parts)
{
   int n[3] = { 1, 1, 1 }; long ne = 1, nv = 1; double vol = 1, part = 1; for (int d = 0; d < dim; d++) { n[d] = n0[d] << rs; ne *= n[d]; nv *= per[d] ? n[d] : n[d] + 1; vol *= L[d]; part *= L[d] / D[d]; }
   if (simplex) ne *= dim == 2 ? 2 : 6;
   CHECK(m.Dimension() == dim && m.SpaceDimension() == dim, "dimension %d/%d, expected %d", m.Dimension(), m.SpaceDimension(), dim);
   CHECK(m.GetNE() == ne, "%d elements, expected %ld", m.GetNE(), ne); CHECK(m.GetNV() == nv, "%d vertices, expected %ld", m.GetNV(), nv);
   Geometry::Type geo = dim == 1 ? Geometry::SEGMENT : dim == 2 ? (simplex ? Geometry::TRIANGLE : Geometry::SQUARE) : (simplex ? Geometry::TETRAHEDRON : Geometry::CUBE);
   if (order) { CHECK(m.GetNodes(), "no nodes"); CHECK(m.GetNodes()->FESpace()->GetMaxElementOrder() == order, "order %d, expected %d", m.GetNodes()->FESpace()->GetMaxElementOrder(), order); }
   map<int, double> sub; map<vector<long>, int> cells;
   for (int e = 0; e < m.GetNE(); e++)
   {
      CHECK(m.GetElementBaseGeometry(e) == geo, "element %d has geometry %d", e, m.GetElementBaseGeometry(e));
      double v = volume(m, e); CHECK(fabs(v - vol / ne) <= 1e-5 * vol / ne, "element %d has volume %.10g, expected %.10g", e, v, vol / ne);
      Vector c(dim); ElementTransformation *T = m.GetElementTransformation(e); T->Transform(Geometries.GetCenter(geo), c); int attr = 0, mul = 1; vector<long> cell;
      for (int d = 0; d < dim; d++) { int k = (int) floor(c[d] / (L[d] / D[d])); CHECK(k >= 0 && k < D[d], "element %d lies outside of the box", e); attr += k * mul; mul *= D[d]; cell.push_back((long) floor(c[d] / L[d] * n[d])); }
      cells[cell]++; CHECK(m.GetAttribute(e) == (parts ? attr + 1 : 1), "element %d at (%g, %g) has attribute %d, expected %d", e, c[0], dim > 1 ? c[1] : 0., m.GetAttribute(e), parts ? attr + 1 : 1); sub[m.GetAttribute(e)] += v;
   }
   int per_cell = simplex ? (dim == 2 ? 2 : 6) : 1; if (rs == 0 || !simplex) for (auto &p : cells) CHECK(p.second == per_cell, "a cell holds %d elements, expected %d", p.second, per_cell);
   if (parts) for (auto &p : sub) CHECK(fabs(p.second - part) <= 1e-5 * part, "subdomain %d has volume %.10g, expected %.10g", p.first, p.second, part);
   // boundary: side d at its lower or upper end
   static const int A1[3][2] = { { 1, 2 } }, A2[3][2] = { { 4, 2 }, { 1, 3 } }, A3[3][2] = { { 5, 3 }, { 2, 4 }, { 1, 6 } }; const int(*A)[2] = dim == 1 ? A1 : dim == 2 ? A2 : A3;
   // (the two sides of a periodic direction may stay marked: MFEM versions differ)
   map<int, double> side; double expect[7] = { 0 };
   for (int d = 0; d < dim; d++) for (int e = 0; e < 2; e++) expect[A[d][e]] = dim == 1 ? 1. : vol / L[d];
   for (int b = 0; b < m.GetNBE(); b++)
   {
      ElementTransformation *T = m.GetBdrElementTransformation(b); const IntegrationRule &ir = IntRules.Get(m.GetBdrElementBaseGeometry(b), 2 * max(1, order)); int at = m.GetBdrAttribute(b); double area = 0;
      for (int i = 0; i < ir.GetNPoints(); i++)
      {
         T->SetIntPoint(&ir.IntPoint(i)); area += ir.IntPoint(i).weight * (dim == 1 ? 1. : T->Weight()); Vector x(dim); T->Transform(ir.IntPoint(i), x); bool on = false;
         for (int d = 0; d < dim; d++) for (int e = 0; e < 2; e++) if (A[d][e] == at && (fabs(x[d] - (e ? L[d] : 0.)) < 1e-5 * L[d] || (per[d] && fabs(x[d] - (e ? 0. : L[d])) < 1e-5 * L[d]))) on = true;
         CHECK(on, "boundary element %d with attribute %d is at (%g, %g)", b, at, x[0], dim > 1 ? x[1] : 0.);
      }
      side[at] += area;
   }
   for (int a = 1; a <= 2 * dim; a++) { bool p = false; for (int d = 0; d < dim; d++) if (per[d] && (A[d][0] == a || A[d][1] == a)) p = true; CHECK((p && side[a] == 0) || fabs(side[a] - expect[a]) <= 1e-5 * max(1., expect[a]), "boundary attribute %d measures %.10g, expected %.10g", a, side[a], expect[a]); }
}
static double volume(Mesh &m, int e)
{
   ElementTransformation *T = m.GetElementTransformation(e); const IntegrationRule &ir = IntRules.Get(T->GetGeometryType(), 10); double v = 0;
   for (int i = 0; i < ir.GetNPoints(); i++) { T->SetIntPoint(&ir.IntPoint(i)); v += ir.IntPoint(i).weight * T->Weight(); } return v;
}
static double length(Gen &g) { return g.coin(0.4) ? g.range(1, 6) : g.real(0.1, 9); }

PROP(P38, rectangle, 700, 12000, "two or more subdomains")
{
   int D[3] = { g.range(1, 3), g.range(1, 3), 1 }, n[3], rs = g.range(0, 2), order = g.range(1, 3), dir = g.range(0, 2); bool pm = g.coin(), tri = g.coin(), per[3] = { pm && dir != 1, pm && dir != 0, false }; double L[3];
   for (int d = 0; d < 2; d++) { n[d] = D[d] * g.range(1, 3); L[d] = length(g); while (per[d] && n[d] < 3) n[d] += D[d]; }
   bool named = g.coin(0.8); string file = named ? "mine.mesh" : string(tri ? "rectangle-tri" : "rectangle-quad") + "-o" + to_string(order) + (rs ? "-r" + to_string(rs) : "") + (pm ? (dir == 0 ? "-xp" : dir == 1 ? "-yp" : "-p") : "-d") + ".mesh";
   int rc = run_tool(g, "rectangle_mesh", { "-nx", to_string(n[0]), "-ny", to_string(n[1]), "-dx", to_string(D[0]), "-dy", to_string(D[1]), "-o", to_string(order), "-rs", to_string(rs), "-a", str(L[0]), "-b", str(L[1]), "-dir", to_string(dir), "-e", tri ? "6" : "4", pm ? "-pm" : "-no-pm", "-m", named ? file : "" });
   CHECK(rc == 0, "exit %d: %s", rc, tail_of_log().c_str()); auto m = read(file); check_box(*m, 2, n, L, D, per, tri, order, rs, true); g.nontrivial = D[0] * D[1] > 1;
}
PROP(P38, cube, 300, 6000, "two or more subdomains")
{
   int D[3], n[3], rs = g.range(0, 1), order = g.range(1, 2), dir = g.range(0, 3); bool pm = g.coin(), tet = g.coin(), per[3]; double L[3];
   for (int d = 0; d < 3; d++) { D[d] = g.range(1, 3); per[d] = pm && (dir == 3 || dir == d); n[d] = D[d]; if (g.coin(0.3)) n[d] += D[d]; L[d] = length(g); while (per[d] && n[d] < 3) n[d] += D[d]; }
   if (n[0] * n[1] * n[2] > 60) rs = 0; if (n[0] * n[1] * n[2] > 150) throw pbt::Discard();
   int rc = run_tool(g, "cubic_mesh", { "-nx", to_string(n[0]), "-ny", to_string(n[1]), "-nz", to_string(n[2]), "-dx", to_string(D[0]), "-dy", to_string(D[1]), "-dz", to_string(D[2]), "-o", to_string(order), "-rs", to_string(rs), "-a", str(L[0]), "-b", str(L[1]), "-c", str(L[2]), "-dir", to_string(dir), "-e", tet ? "4" : "6", pm ? "-pm" : "-no-pm", "-m", "box.mesh" });
   CHECK(rc == 0, "exit %d: %s", rc, tail_of_log().c_str()); auto m = read("box.mesh"); check_box(*m, 3, n, L, D, per, tet, order, rs, true); g.nontrivial = D[0] * D[1] * D[2] > 1;
}
PROP(P38, line, 300, 4000, "two or more cells, or refined")
{
   int D[3] = { 1, 1, 1 }, n[3] = { g.range(1, 8) }, rs = g.range(0, 3); bool per[3] = { g.coin() }; double L[3] = { length(g) }; if (per[0] && n[0] < 3) n[0] = 3;
   bool named = g.coin(); string file = named ? "line.mesh" : "1d" + (rs ? "-r" + to_string(rs) : string()) + (per[0] ? "-p" : "") + ".mesh";
   int rc = run_tool(g, "1d_mesh", { "-nx", to_string(n[0]), "-rs", to_string(rs), "-a", str(L[0]), per[0] ? "-pm" : "-no-pm", "-m", named ? file : "" });
   CHECK(rc == 0, "exit %d: %s", rc, tail_of_log().c_str()); auto m = read(file); check_box(*m, 1, n, L, D, per, false, 0, rs, false); g.nontrivial = n[0] > 1 || rs;
}
// parts of unequal size are refused
PROP(P38, unequal_parts_refused, 60, 1000, "every case")
{
   bool cube = g.coin(); int dim = cube ? 3 : 2, bad = g.draw(dim); static const char *N[] = { "-nx", "-ny", "-nz" }, *DD[] = { "-dx", "-dy", "-dz" }; vector<string> a = { "-no-pm", "-m", "x.mesh" };
   for (int d = 0; d < dim; d++) { int k = g.range(2, 3); a.push_back(DD[d]); a.push_back(to_string(k)); a.push_back(N[d]); a.push_back(to_string(d == bad ? k * g.range(1, 2) + g.range(1, k - 1) : k)); }
   int rc = run_tool(g, cube ? "cubic_mesh" : "rectangle_mesh", a); CHECK(rc != 0 && rc != 98 && rc != 99, "parts of unequal size were accepted"); g.nontrivial = true;
}
// a Gmsh file and its conversion
PROP(P38, gmsh_conversion, 300, 4000, "two or more attributes")
{
   int dim = g.range(2, 3); bool simplex = g.coin(); int n[3] = { g.range(1, 4), g.range(1, 3), dim == 3 ? g.range(1, 2) : 1 }; Rnd r(g.seed());
   Mesh ref = dim == 2 ? Mesh::MakeCartesian2D(n[0], n[1], simplex ? Element::TRIANGLE : Element::QUADRILATERAL, false, 1.5, 1., false) : Mesh::MakeCartesian3D(n[0], n[1], n[2], simplex ? Element::TETRAHEDRON : Element::HEXAHEDRON, 1.5, 1., 2., false);
   for (int v = 0; v < ref.GetNV(); v++) for (int d = 0; d < dim; d++) ref.GetVertex(v)[d] += r.uni(-.05, .05) / n[d];
   int na = g.range(1, 4), nb = g.range(1, 5); set<int> used; for (int e = 0; e < ref.GetNE(); e++) { ref.SetAttribute(e, r.range(1, na)); used.insert(ref.GetAttribute(e)); } for (int b = 0; b < ref.GetNBE(); b++) ref.GetBdrElement(b)->SetAttribute(r.range(1, nb));
   string in = pbt::scratch() + "/in.msh";
   {
      ofstream f(in); f.precision(17); f << "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Nodes\n" << ref.GetNV() << "\n";
      for (int v = 0; v < ref.GetNV(); v++) f << v + 1 << ' ' << ref.GetVertex(v)[0] << ' ' << ref.GetVertex(v)[1] << ' ' << (dim == 3 ? ref.GetVertex(v)[2] : 0.) << "\n";
      f << "$EndNodes\n$Elements\n" << ref.GetNE() + ref.GetNBE() << "\n"; int k = 1;
      auto put = [&](Element *e, int type) { f << k++ << ' ' << type << " 2 " << e->GetAttribute() << ' ' << e->GetAttribute(); for (int i = 0; i < e->GetNVertices(); i++) f << ' ' << e->GetVertices()[i] + 1; f << "\n"; };
      for (int b = 0; b < ref.GetNBE(); b++) put(ref.GetBdrElement(b), dim == 2 ? 1 : simplex ? 2 : 3);
      for (int e = 0; e < ref.GetNE(); e++) put(ref.GetElement(e), dim == 2 ? (simplex ? 2 : 3) : simplex ? 4 : 5);
      f << "$EndElements\n";
   }
   int order = g.range(1, 3); bool fnc = g.coin(0.3); vector<string> a = { "-m", "in.msh", "-o", to_string(order) }; if (fnc) a.push_back("-fnc");
   int rc = run_tool(g, "gmsh2mfem", a); CHECK(rc == 0, "exit %d: %s", rc, tail_of_log().c_str()); auto m = read("in.msh.mfem");
   CHECK(m->Dimension() == dim && m->SpaceDimension() == dim && m->GetNE() == ref.GetNE() && m->GetNBE() == ref.GetNBE() && m->GetNV() == ref.GetNV(), "another mesh: dimension %d/%d, %d elements, %d boundary elements", m->Dimension(), m->SpaceDimension(), m->GetNE(), m->GetNBE());
   if (order > 1 || fnc) CHECK(m->GetNodes() && m->GetNodes()->FESpace()->GetMaxElementOrder() == order, "order of the nodes is not %d", order);
   // elements by centre
   auto key = [&](Mesh &q, bool bdr) { vector<pair<vector<double>, int>> k; for (int e = 0; e < (bdr ? q.GetNBE() : q.GetNE()); e++) { ElementTransformation *T = bdr ? q.GetBdrElementTransformation(e) : q.GetElementTransformation(e); Vector x(dim); T->Transform(Geometries.GetCenter(T->GetGeometryType()), x); vector<double> v; for (int d = 0; d < dim; d++) v.push_back(round(x[d] * 1e5)); k.push_back({ v, bdr ? q.GetBdrAttribute(e) : q.GetAttribute(e) }); } return k; };
   for (bool bdr : { false, true })
   {
      auto ka = key(ref, bdr), kb = key(*m, bdr);
      for (auto &p : ka) { int hits = 0; for (auto &q : kb) { double d = 0; for (int i = 0; i < dim; i++) d = max(d, fabs(p.first[i] - q.first[i])); if (d <= 2.) { hits++; CHECK(p.second == q.second, "%s attribute %d became %d", bdr ? "boundary" : "element", p.second, q.second); } } CHECK(hits == 1, "%d %s at the place of one", hits, bdr ? "boundary elements" : "elements"); }
   }
   for (int e = 0; e < ref.GetNE(); e++) { double va = volume(ref, e), vb = volume(*m, e); CHECK(fabs(va - vb) < 1e-5 * va, "element %d has volume %g, expected %g", e, vb, va); }
   g.nontrivial = used.size() > 1;
}
