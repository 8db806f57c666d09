// Generated meshes: block assemblies built both from component meshes (files) and as one global mesh.
#ifndef TOPO_HPP
#define TOPO_HPP
#include "common.hpp"
#include "input_parser.hpp"
#include "topology_handler.hpp"
#include "component_topology_handler.hpp"
#include "hdf5_utils.hpp"
#include <array>
#include <algorithm>
#include <fstream>
#include <set>
#include <memory>

typedef std::array<double, 3> P3;
struct RawElem { int geom; std::vector<int> v; int attr; };   // geom: MFEM element type
struct RawMesh { int dim; std::vector<P3> x; std::vector<RawElem> el, be; };

inline std::vector<std::vector<int>> raw_faces(const RawElem &e)
{
   const std::vector<int> &v = e.v;
   switch (e.geom)
   {
      case Element::TRIANGLE: return { { v[0], v[1] }, { v[1], v[2] }, { v[2], v[0] } };
      case Element::QUADRILATERAL: return { { v[0], v[1] }, { v[1], v[2] }, { v[2], v[3] }, { v[3], v[0] } };
      case Element::TETRAHEDRON: return { { v[1], v[2], v[3] }, { v[0], v[3], v[2] }, { v[0], v[1], v[3] }, { v[0], v[2], v[1] } };
      default: return { { v[3], v[2], v[1], v[0] }, { v[0], v[1], v[5], v[4] }, { v[1], v[2], v[6], v[5] }, { v[2], v[3], v[7], v[6] }, { v[3], v[0], v[4], v[7] }, { v[4], v[5], v[6], v[7] } };
   }
}
// a structured box grid: x[d] the vertex positions along axis d; cells for which skip() holds are left out
template <class Skip> RawMesh raw_grid(int dim, const std::vector<double> *x, bool simplex, Rnd &r, Skip skip)
{
   RawMesh m; m.dim = dim; int n[3] = { 1, 1, 1 }, nv[3] = { 1, 1, 1 }; for (int d = 0; d < dim; d++) { nv[d] = x[d].size(); n[d] = nv[d] - 1; }
   auto id = [&](int i, int j, int k) { return i + nv[0] * (j + nv[1] * k); };
   for (int k = 0; k < nv[2]; k++) for (int j = 0; j < nv[1]; j++) for (int i = 0; i < nv[0]; i++) m.x.push_back({ x[0][i], x[1][j], dim == 3 ? x[2][k] : 0. });
   for (int k = 0; k < n[2]; k++) for (int j = 0; j < n[1]; j++) for (int i = 0; i < n[0]; i++)
   {
      if (skip(i, j, k)) continue;
      if (dim == 2)
      {
         int a = id(i, j, 0), b = id(i + 1, j, 0), c = id(i + 1, j + 1, 0), d = id(i, j + 1, 0);
         if (!simplex) m.el.push_back({ Element::QUADRILATERAL, { a, b, c, d }, 1 });
         else if (r.range(0, 1)) { m.el.push_back({ Element::TRIANGLE, { a, b, c }, 1 }); m.el.push_back({ Element::TRIANGLE, { a, c, d }, 1 }); }
         else { m.el.push_back({ Element::TRIANGLE, { a, b, d }, 1 }); m.el.push_back({ Element::TRIANGLE, { b, c, d }, 1 }); }
      }
      else
      {
         int h[8]; for (int q = 0; q < 8; q++) h[q] = id(i + (q & 1), j + ((q >> 1) & 1), k + (q >> 2));
         if (!simplex) m.el.push_back({ Element::HEXAHEDRON, { h[0], h[1], h[3], h[2], h[4], h[5], h[7], h[6] }, 1 });
         else
         {
            static const int perm[6][3] = { { 1, 2, 4 }, { 2, 4, 1 }, { 4, 1, 2 }, { 2, 1, 4 }, { 1, 4, 2 }, { 4, 2, 1 } };
            for (int p = 0; p < 6; p++) { std::vector<int> t = { h[0], h[perm[p][0]], h[perm[p][0] + perm[p][1]], h[7] }; if (p >= 3) std::swap(t[1], t[2]); m.el.push_back({ Element::TETRAHEDRON, t, 1 }); }
         }
      }
   }
   return m;
}
// boundary elements = faces that one element has; attr(centre) names them
template <class F> void raw_boundary(RawMesh &m, F attr)
{
   std::map<std::vector<int>, std::pair<int, std::vector<int>>> cnt;
   for (auto &e : m.el) for (auto &f : raw_faces(e)) { auto s = f; std::sort(s.begin(), s.end()); auto &c = cnt[s]; c.first++; c.second = f; }
   for (auto &c : cnt) if (c.second.first == 1)
   {
      P3 x = { 0, 0, 0 }; for (int v : c.second.second) for (int d = 0; d < 3; d++) x[d] += m.x[v][d] / c.second.second.size();
      m.be.push_back({ m.dim == 2 ? (int) Element::SEGMENT : c.second.second.size() == 3 ? (int) Element::TRIANGLE : (int) Element::QUADRILATERAL, c.second.second, attr(x) });
   }
}
// drop vertices without an element; renumber vertices and elements at random; rotate the vertex lists
inline void raw_shuffle(RawMesh &m, Rnd &r, bool shuffle)
{
   std::vector<int> use(m.x.size(), -1), ord; for (auto &e : m.el) for (int v : e.v) use[v] = 0;
   for (size_t i = 0; i < use.size(); i++) if (use[i] == 0) ord.push_back(i);
   auto perm = [&](auto &v) { if (shuffle) for (int k = (int) v.size() - 1; k > 0; k--) std::swap(v[k], v[r.range(0, k)]); };
   perm(ord); perm(m.el); perm(m.be);
   std::vector<P3> x; for (size_t i = 0; i < ord.size(); i++) { use[ord[i]] = i; x.push_back(m.x[ord[i]]); } m.x = x;
   for (auto *l : { &m.el, &m.be }) for (auto &e : *l) for (int &v : e.v) v = use[v];
   if (shuffle) for (auto &e : m.be) if (e.v.size() > 2) std::rotate(e.v.begin(), e.v.begin() + r.range(0, e.v.size() - 1), e.v.end());
   if (shuffle) for (auto &e : m.el)
   {
      if (e.geom == Element::TRIANGLE || e.geom == Element::QUADRILATERAL) std::rotate(e.v.begin(), e.v.begin() + r.range(0, e.v.size() - 1), e.v.end());
      if (e.geom == Element::HEXAHEDRON)
      {  // one of the 24 turns of a cube
         static const int C[8][3] = { { 0, 0, 0 }, { 1, 0, 0 }, { 1, 1, 0 }, { 0, 1, 0 }, { 0, 0, 1 }, { 1, 0, 1 }, { 1, 1, 1 }, { 0, 1, 1 } };
         int p[3] = { 0, 1, 2 }, f[3] = { r.range(0, 1), r.range(0, 1), r.range(0, 1) }, rot = r.range(0, 2); std::rotate(p, p + rot, p + 3); if ((f[0] + f[1] + f[2]) % 2) std::swap(p[0], p[1]);
         std::vector<int> o = e.v; for (int q = 0; q < 8; q++) { int c[3]; for (int d = 0; d < 3; d++) c[d] = C[q][p[d]] ^ f[d]; for (int k = 0; k < 8; k++) if (C[k][0] == c[0] && C[k][1] == c[1] && C[k][2] == c[2]) e.v[q] = o[k]; }
      }
      if (e.geom == Element::TETRAHEDRON) std::rotate(e.v.begin(), e.v.begin() + r.range(0, 2), e.v.begin() + 3);
   }
}
inline Mesh *raw_to_mesh(const RawMesh &m)
{
   Mesh *M = new Mesh(m.dim, m.x.size(), m.el.size(), m.be.size(), m.dim);
   for (auto &p : m.x) M->AddVertex(p[0], p[1], p[2]);
   for (auto &e : m.el) switch (e.geom) { case Element::TRIANGLE: M->AddTriangle(e.v.data(), e.attr); break; case Element::QUADRILATERAL: M->AddQuad(e.v.data(), e.attr); break; case Element::TETRAHEDRON: M->AddTet(e.v.data(), e.attr); break; default: M->AddHex(e.v.data(), e.attr); }
   for (auto &e : m.be) switch (e.geom) { case Element::SEGMENT: M->AddBdrSegment(e.v.data(), e.attr); break; case Element::TRIANGLE: M->AddBdrTriangle(e.v.data(), e.attr); break; default: M->AddBdrQuad(e.v.data(), e.attr); }
   M->FinalizeMesh(1, true);
   return M;
}
// a name for a face: its vertices' coordinates, in any order
inline std::vector<std::array<long long, 3>> face_key(const std::vector<P3> &x) { std::vector<std::array<long long, 3>> k; for (auto &p : x) k.push_back({ std::llround(p[0] * 1e6), std::llround(p[1] * 1e6), std::llround(p[2] * 1e6) }); std::sort(k.begin(), k.end()); return k; }
typedef std::vector<std::array<long long, 3>> FaceKey;
inline P3 vertex_of(Mesh &m, int v) { P3 p = { 0, 0, 0 }; if (!m.GetNodes()) { for (int d = 0; d < m.SpaceDimension(); d++) p[d] = m.GetVertex(v)[d]; return p; } for (int d = 0; d < m.SpaceDimension(); d++) { double c[3]; m.GetNode(v, c); p[d] = c[d]; } return p; }
inline FaceKey be_key(Mesh &m, int be) { Array<int> v; m.GetBdrElementVertices(be, v); std::vector<P3> x; for (int i = 0; i < v.Size(); i++) x.push_back(vertex_of(m, v[i])); return face_key(x); }
inline FaceKey face_key_of(Mesh &m, int f) { Array<int> v; m.GetFaceVertices(f, v); std::vector<P3> x; for (int i = 0; i < v.Size(); i++) x.push_back(vertex_of(m, v[i])); return face_key(x); }

struct Comp { std::string name; RawMesh raw; double o[3]; int attr[7]; int order; std::string file; bool simplex; };  // attr: sides +x +y -x -y (+z -z), hole
struct Block { int comp, rot; double t[3], r[3]; int pos[3]; };
struct Itf { int m1, m2, a1, a2, ref; };
struct RefPort { std::string name; int c1, c2, a1, a2; double conf[6]; int src; bool used; };
static const int NDIR2[4][3] = { { 1, 0, 0 }, { 0, 1, 0 }, { -1, 0, 0 }, { 0, -1, 0 } };

struct World
{
   int dim, nb[3], ne[3]; bool simplex, rotate; double L[3], theta; std::vector<double> sp[3];
   std::vector<Comp> comps; std::vector<Block> blocks; std::vector<Itf> itf; std::vector<RefPort> ports; std::vector<std::array<int, 3>> bdr; std::set<int> gattr;
   std::string dir; bool bdr_separate;
   int block_at(int i, int j, int k) const { return i + nb[0] * (j + nb[1] * k); }
   static void side(int dim, int q, int &axis, int &sign) { if (q < 4) { axis = q % 2; sign = q < 2 ? 1 : -1; } else { axis = 2; sign = q == 4 ? 1 : -1; } }
   P3 place(int m, const P3 &x) const   // where block m puts a point of its component
   {
      const Block &b = blocks[m]; double c = std::cos(b.r[0]), s = std::sin(b.r[0]);
      if (dim == 2) return { c * x[0] - s * x[1] + b.t[0], s * x[0] + c * x[1] + b.t[1], 0. };
      return { x[0] + b.t[0], x[1] + b.t[1], x[2] + b.t[2] };
   }
};

// opt: dimension 0 = any; max blocks
inline World gen_world(Gen &g, int want_dim = 0, bool allow_rot = true, int max_blocks = 6, int max_comp = 3, bool holes = true, int max_ne = 3, int order_max = 2)
{
   World w; w.dim = want_dim ? want_dim : g.coin(0.35) ? 3 : 2; int dim = w.dim; w.simplex = g.coin(); w.rotate = allow_rot && dim == 2 && g.coin(0.4);
   int tot = 1; for (int d = 0; d < 3; d++) { w.nb[d] = 1; if (d < dim) { w.nb[d] = g.range(1, max_blocks > 9 ? 5 : 3); while (tot * w.nb[d] > max_blocks) w.nb[d]--; tot *= w.nb[d]; } }
   if (tot == 1) { w.nb[0] = 2; tot = 2; }
   for (int d = 0; d < 3; d++) { w.ne[d] = d < dim ? g.range(1, dim == 2 ? max_ne : std::min(2, max_ne)) : 1; w.L[d] = 1. + 0.25 * g.range(0, 4); }
   if (w.rotate) { w.ne[1] = w.ne[0]; w.L[1] = w.L[0]; }
   Rnd r(g.seed());
   for (int d = 0; d < dim; d++)
   {
      std::vector<double> x; for (int i = 0; i <= w.ne[d]; i++) x.push_back(w.L[d] * i / w.ne[d]);
      if (!w.rotate && w.ne[d] > 1) for (int i = 1; i < w.ne[d]; i++) x[i] += r.uni(-0.3, 0.3) * w.L[d] / w.ne[d];
      if (w.rotate && d == 1) x = w.sp[0]; else if (w.rotate && w.ne[0] == 3) { double e = r.uni(-0.2, 0.2); x[1] += e * w.L[0] / 3; x[2] -= e * w.L[0] / 3; }
      w.sp[d] = x;
   }
   w.theta = w.rotate && g.coin() ? 0.3 * g.range(1, 9) : 0.;
   int nc = g.range(1, max_comp); bool names = max_comp <= 3 && g.coin(0.2); // names that begin alike
   bool shuffle = g.coin(0.8), hole = holes && g.coin(0.3), mixed = dim == 2 && g.coin(0.2); // components of triangles next to components of quadrilaterals
   int order = g.range(1, order_max);
   w.dir = pbt::scratch();
   for (int c = 0; c < nc; c++)
   {
      Comp C; C.name = names ? c == 0 ? "comp1" : c == 1 ? "comp10" : "comp" : std::string("comp") + (char)('a' + (c * 7 + 3) % 26); C.order = order; for (int d = 0; d < 3; d++) C.o[d] = g.coin(0.3) ? 0.5 * g.range(-2, 2) : 0.;
      std::vector<double> x[3]; for (int d = 0; d < dim; d++) for (double v : w.sp[d]) x[d].push_back(v + C.o[d]);
      int hi = w.ne[0] >= 3 ? 1 : -1, hj = w.ne[1] >= 3 ? 1 : -1; bool H = hole && dim == 2 && hi > 0 && hj > 0 && (c % 2 == 0);
      Rnd rc(r.r()); C.simplex = mixed ? g.coin() : w.simplex; C.raw = raw_grid(dim, x, C.simplex, rc, [&](int i, int j, int) { return H && i == hi && j == hj; });
      // interior vertices move
      double amp = rc.range(0, 1) ? 0.15 : 0.; for (auto &p : C.raw.x) { bool in = true; for (int d = 0; d < dim; d++) if (std::abs(p[d] - C.o[d]) < 1e-12 || std::abs(p[d] - C.o[d] - w.L[d]) < 1e-12) in = false; if (in) for (int d = 0; d < dim; d++) p[d] += rc.uni(-amp, amp) * w.L[d] / w.ne[d]; }
      static const int clash[12] = {1, 11, 111, 2, 12, 112, 21, 121, 211, 22, 122, 221}; // numbers whose decimal names run into each other
      int mode = rc.range(0, 5), pool[12]; for (int i = 0; i < 12; i++) pool[i] = mode == 0 ? clash[i] : mode == 1 ? 11 * (i + 1) : i + 1; for (int i = 11; i > 0; i--) std::swap(pool[i], pool[rc.range(0, i)]);
      int a0 = rc.range(0, 1); for (int i = 0; i < 7; i++) C.attr[i] = a0 ? pool[i] : i + 1;
      raw_boundary(C.raw, [&](const P3 &p) { for (int q = 0; q < 2 * dim; q++) { int ax, sg; World::side(dim, q, ax, sg); if (std::abs(p[ax] - C.o[ax] - (sg > 0 ? w.L[ax] : 0.)) < 1e-9) return C.attr[q]; } return C.attr[6]; });
      raw_shuffle(C.raw, rc, shuffle);
      C.file = w.dir + "/" + C.name + ".mesh"; Mesh *M = raw_to_mesh(C.raw); M->SetCurvature(order, false, dim, Ordering::byVDIM);
      std::ofstream f(C.file); f.precision(17); M->Print(f); delete M;
      w.comps.push_back(C);
   }
   for (int k = 0; k < w.nb[2]; k++) for (int j = 0; j < w.nb[1]; j++) for (int i = 0; i < w.nb[0]; i++)
   {
      Block b; b.comp = g.range(0, nc - 1); b.rot = w.rotate ? g.range(0, 3) : 0; b.pos[0] = i; b.pos[1] = j; b.pos[2] = k; const Comp &C = w.comps[b.comp];
      for (int d = 0; d < 3; d++) { b.r[d] = 0; b.t[d] = 0; }
      if (dim == 3) for (int d = 0; d < 3; d++) b.t[d] = b.pos[d] * w.L[d] - C.o[d];
      else
      {
         double a = b.rot * M_PI / 2, lo[2] = { 1e30, 1e30 };
         for (int q = 0; q < 4; q++) { double X = C.o[0] + (q & 1) * w.L[0], Y = C.o[1] + (q >> 1) * w.L[1]; lo[0] = std::min(lo[0], std::cos(a) * X - std::sin(a) * Y); lo[1] = std::min(lo[1], std::sin(a) * X + std::cos(a) * Y); }
         double tx = i * w.L[0] - lo[0], ty = j * w.L[1] - lo[1], ct = std::cos(w.theta), st = std::sin(w.theta);
         b.t[0] = ct * tx - st * ty; b.t[1] = st * tx + ct * ty; b.r[0] = a + w.theta;
      }
      w.blocks.push_back(b);
   }
   // ports
   for (int k = 0; k < w.nb[2]; k++) for (int j = 0; j < w.nb[1]; j++) for (int i = 0; i < w.nb[0]; i++) for (int ax = 0; ax < dim; ax++)
   {
      int n[3] = { i, j, k }; n[ax]++; if (n[ax] >= w.nb[ax]) continue;
      int m1 = w.block_at(i, j, k), m2 = w.block_at(n[0], n[1], n[2]);
      auto attr = [&](int m, int dir) { const Block &b = w.blocks[m]; int q = dim == 2 ? (dir - b.rot + 4) % 4 : dir; return w.comps[b.comp].attr[q]; };
      int fw = ax < 2 ? ax : 4, bw = ax < 2 ? ax + 2 : 5; int a1 = attr(m1, fw), a2 = attr(m2, bw);
      if (g.coin(0.25)) { std::swap(m1, m2); std::swap(a1, a2); }
      w.itf.push_back({ m1, m2, a1, a2, -1 });
   }
   for (int k = (int) w.itf.size() - 1; k > 0; k--) std::swap(w.itf[k], w.itf[r.range(0, k)]);
   int psrc = g.range(0, 2); // 0 all in the input file, 1 all in the configuration file, 2 mixed
   for (auto &t : w.itf)
   {
      const Block &b1 = w.blocks[t.m1], &b2 = w.blocks[t.m2];
      for (size_t p = 0; p < w.ports.size(); p++) { auto &P = w.ports[p]; if (P.c1 == b1.comp && P.c2 == b2.comp && P.a1 == t.a1 && P.a2 == t.a2) t.ref = p; }
      if (t.ref >= 0) continue;
      RefPort P; P.name = names ? "port" + std::string(w.ports.size(), '1') : "port" + std::to_string(100 - w.ports.size()); P.c1 = b1.comp; P.c2 = b2.comp; P.a1 = t.a1; P.a2 = t.a2; P.used = true; P.src = psrc == 2 ? r.range(0, 1) : psrc; for (int d = 0; d < 6; d++) P.conf[d] = 0;
      if (dim == 3) for (int d = 0; d < 3; d++) P.conf[d] = b2.t[d] - b1.t[d];
      else { double c = std::cos(-b1.r[0]), s = std::sin(-b1.r[0]), dx = b2.t[0] - b1.t[0], dy = b2.t[1] - b1.t[1]; P.conf[0] = c * dx - s * dy; P.conf[1] = s * dx + c * dy; P.conf[3] = b2.r[0] - b1.r[0]; }
      t.ref = w.ports.size(); w.ports.push_back(P);
   }
   // boundaries: every attribute of a block that is no port
   int ng = g.range(1, 4); std::vector<int> gl; for (int i = 0; i < ng; i++) gl.push_back(g.coin(0.7) ? i + 1 : g.coin(0.2) ? 40 * i + 30 : 3 * i + 2);
   for (size_t m = 0; m < w.blocks.size(); m++)
   {
      std::set<int> as; for (auto &b : w.comps[w.blocks[m].comp].raw.be) as.insert(b.attr);
      for (auto &t : w.itf) { if (t.m1 == (int) m) as.erase(t.a1); if (t.m2 == (int) m) as.erase(t.a2); }
      for (int a : as) w.bdr.push_back({ gl[r.range(0, ng - 1)], (int) m, a });
   }
   if (w.bdr.empty()) throw pbt::Discard();
   for (int k = (int) w.bdr.size() - 1; k > 0; k--) std::swap(w.bdr[k], w.bdr[r.range(0, k)]);
   for (auto &b : w.bdr) w.gattr.insert(b[0]);
   w.bdr_separate = g.coin(0.3);
   g.note << dim << "D " << (w.simplex ? "simplex" : "tensor") << " blocks " << w.nb[0] << "x" << w.nb[1] << "x" << w.nb[2] << " elements/block " << w.ne[0] << "x" << w.ne[1] << "x" << w.ne[2] << " components " << nc << (w.rotate ? " rotated" : "") << (shuffle ? " shuffled" : "") << (mixed ? " mixed" : "") << " order " << order << " types";
   for (auto &b : w.blocks) g.note << " " << b.comp << (b.rot ? "r" + std::to_string(b.rot) : ""); g.note << " ports " << w.itf.size() << "/" << w.ports.size() << "; ";
   return w;
}

inline YAML::Node port_yaml(const World &w, const RefPort &P)
{
   YAML::Node n; n["name"] = P.name; n["comp1"]["name"] = w.comps[P.c1].name; n["comp1"]["attr"] = P.a1; n["comp2"]["name"] = w.comps[P.c2].name; n["comp2"]["attr"] = P.a2;
   for (int d = 0; d < 6; d++) { char s[40]; snprintf(s, 40, "%.17g", P.conf[d]); n["comp2_configuration"].push_back(std::string(s)); } return n;
}
// writes the HDF5 configuration and makes `config`; corder = order of the components in the file
inline void write_world(const World &w, const std::string &tag, const std::vector<int> &corder, YAML::Node &doc)
{
   std::vector<int> inv(w.comps.size(), -1); for (size_t i = 0; i < corder.size(); i++) inv[corder[i]] = i;
   std::string gf = w.dir + "/global" + tag + ".h5", bf = w.dir + "/bdr" + tag + ".h5";
   hid_t f = H5Fcreate(gf.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT), c = H5Gcreate(f, "components", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
   hdf5_utils::WriteAttribute(c, "number_of_components", (int) corder.size()); for (size_t i = 0; i < corder.size(); i++) hdf5_utils::WriteAttribute(c, std::to_string(i), w.comps[corder[i]].name);
   Array<int> types; Array2D<double> conf(w.blocks.size(), 6);
   for (size_t m = 0; m < w.blocks.size(); m++) { types.Append(inv[w.blocks[m].comp]); for (int d = 0; d < 3; d++) { conf(m, d) = w.blocks[m].t[d]; conf(m, d + 3) = w.blocks[m].r[d]; } }
   hdf5_utils::WriteDataset(c, "meshes", types); hdf5_utils::WriteDataset(c, "configuration", conf); H5Gclose(c);
   hid_t b = f; if (w.bdr_separate) b = H5Fcreate(bf.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
   Array2D<int> bd(w.bdr.size(), 3); for (size_t i = 0; i < w.bdr.size(); i++) for (int j = 0; j < 3; j++) bd(i, j) = w.bdr[i][j];
   hdf5_utils::WriteDataset(b, "boundary", bd); if (w.bdr_separate) H5Fclose(b);
   hid_t p = H5Gcreate(f, "ports", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT); hdf5_utils::WriteAttribute(p, "number_of_references", (int) w.ports.size());
   for (size_t i = 0; i < w.ports.size(); i++)
   {
      const RefPort &P = w.ports[i]; hdf5_utils::WriteAttribute(p, std::to_string(i), P.name); if (P.src != 1) continue;
      hid_t q = H5Gcreate(p, P.name.c_str(), H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT); hdf5_utils::WriteAttribute(q, "comp1", w.comps[P.c1].name); hdf5_utils::WriteAttribute(q, "comp2", w.comps[P.c2].name); hdf5_utils::WriteAttribute(q, "attr1", P.a1); hdf5_utils::WriteAttribute(q, "attr2", P.a2);
      Array<double> cf; for (int d = 0; d < 6; d++) cf.Append(P.conf[d]); hdf5_utils::WriteDataset(q, "comp2_configuration", cf); H5Gclose(q);
   }
   if (w.itf.size()) { Array2D<int> t(w.itf.size(), 5); for (size_t i = 0; i < w.itf.size(); i++) { t(i, 0) = w.itf[i].m1; t(i, 1) = w.itf[i].m2; t(i, 2) = w.itf[i].a1; t(i, 3) = w.itf[i].a2; t(i, 4) = w.itf[i].ref; } hdf5_utils::WriteDataset(p, "interface", t); }
   H5Gclose(p); H5Fclose(f);
   YAML::Node cw; cw["global_config"] = gf; if (w.bdr_separate) cw["bdr_config"] = bf;
   for (int i = (int) w.comps.size() - 1; i >= 0; i--) { YAML::Node n; n["name"] = w.comps[i].name; n["file"] = w.comps[i].file; cw["components"].push_back(n); }
   for (auto &P : w.ports) if (P.src == 0) cw["ports"].push_back(port_yaml(w, P));
   doc["mesh"]["type"] = "component-wise"; doc["mesh"]["component-wise"] = cw;
}
inline std::vector<int> ident(int n) { std::vector<int> v; for (int i = 0; i < n; i++) v.push_back(i); return v; }
// the same assembly as one mesh: element attribute = block + 1, boundary attributes = the global ones
inline RawMesh merge_world(const World &w, Rnd &r, bool shuffle)
{
   RawMesh G; G.dim = w.dim; std::map<std::array<long long, 3>, int> id;
   for (size_t m = 0; m < w.blocks.size(); m++)
   {
      const RawMesh &c = w.comps[w.blocks[m].comp].raw; std::vector<int> at;
      for (auto &p : c.x) { P3 q = w.place(m, p); std::array<long long, 3> k = { std::llround(q[0] * 1e7), std::llround(q[1] * 1e7), std::llround(q[2] * 1e7) }; auto it = id.find(k);
         for (int dx = -1; dx <= 1 && it == id.end(); dx++) for (int dy = -1; dy <= 1 && it == id.end(); dy++) for (int dz = -1; dz <= 1 && it == id.end(); dz++) it = id.find({ k[0] + dx, k[1] + dy, k[2] + dz });
         if (it == id.end()) { it = id.insert({ k, (int) G.x.size() }).first; G.x.push_back(q); } at.push_back(it->second); }
      for (auto e : c.el) { for (int &v : e.v) v = at[v]; e.attr = m + 1; G.el.push_back(e); }
      for (auto e : c.be) { int ga = 0; for (auto &b : w.bdr) if (b[1] == (int) m && b[2] == e.attr) ga = b[0]; if (!ga) continue; for (int &v : e.v) v = at[v]; e.attr = ga; G.be.push_back(e); }
   }
   raw_shuffle(G, r, shuffle); return G;
}
inline void set_config(const YAML::Node &doc) { config = InputParser(); config.dict_ = YAML::Clone(doc); }

// both sides of an interface see the same physical points at the same face points, with opposite normals
inline void check_transformations(TopologyHandler &t, Mesh *m1, Mesh *m2, const InterfaceInfo &I, const char *what, const std::function<P3(const P3 &)> &move2 = nullptr, double scale = 5.)
{
   FaceElementTransformations *t1 = NULL, *t2 = NULL; t.GetInterfaceTransformations(m1, m2, &I, t1, t2);
   CHECK(t1 && t2, "%s: no transformation", what); CHECK(t1->Elem1No >= 0 && t2->Elem1No >= 0, "%s: no element", what);
   int dim = m1->Dimension(); const IntegrationRule &ir = IntRules.Get(t1->GetGeometryType(), 3);
   for (int i = 0; i < ir.GetNPoints(); i++)
   {
      const IntegrationPoint &ip = ir.IntPoint(i); t1->SetAllIntPoints(&ip); t2->SetAllIntPoints(&ip);
      Vector x1, x2, n1(dim), n2(dim); t1->Elem1->Transform(t1->GetElement1IntPoint(), x1); t2->Elem1->Transform(t2->GetElement1IntPoint(), x2);
      if (move2) { P3 p = { x2[0], x2[1], dim == 3 ? x2[2] : 0. }; p = move2(p); for (int d = 0; d < dim; d++) x2[d] = p[d]; }
      for (int d = 0; d < dim; d++) CHECK(std::abs(x1[d] - x2[d]) < 1e-8 * scale, "%s: face point %d is at coordinate %d = %.12g from side 1 and %.12g from side 2", what, i, d, x1[d], x2[d]);
      // the points lie on the face of the boundary element
      Vector fx; t1->Transform(ip, fx);
   }
}
// ---------------------------------------------------------------- one mesh split by element attributes
inline std::unique_ptr<Mesh> gen_split(Gen &g, int &nsub, bool &interesting)
{
   bool simplex = g.coin(); int nx = g.size(1, 4, 10), ny = g.size(1, 4, 10); if (nx * ny == 1) nx = 2; Rnd r(g.seed());
   std::vector<double> x[3]; for (int i = 0; i <= nx; i++) x[0].push_back(i + (i && i < nx ? r.uni(-0.3, 0.3) : 0.)); for (int j = 0; j <= ny; j++) x[1].push_back(0.7 * j);
   int hole = nx > 2 && ny > 2 && g.coin(0.2);
   RawMesh m = raw_grid(2, x, simplex, r, [&](int i, int j, int) { return hole && i == 1 && j == 1; });
   if (simplex && g.coin(0.3)) { // mix
      RawMesh q = raw_grid(2, x, false, r, [&](int i, int j, int) { return i % 2 == 0; }); RawMesh s = raw_grid(2, x, true, r, [&](int i, int j, int) { return i % 2 == 1; }); m = q; m.el.insert(m.el.end(), s.el.begin(), s.el.end()); }
   nsub = g.range(1, std::min<int>(nx > 4 || ny > 4 ? 14 : 5, m.el.size())); int style = g.range(0, 2);
   std::vector<int> at(m.el.size()); for (size_t e = 0; e < at.size(); e++) at[e] = style == 0 ? r.range(1, nsub) : style == 1 ? 1 + (int)(e * nsub / at.size()) : 1 + e % nsub;
   std::set<int> have(at.begin(), at.end()); for (int a = 1; a <= nsub; a++) if (!have.count(a)) { nsub = a - 1; break; } for (int &a : at) if (a > nsub) a = 1 + a % std::max(1, nsub); if (nsub < 1) { nsub = 1; for (int &a : at) a = 1; }
   for (size_t e = 0; e < at.size(); e++) m.el[e].attr = at[e];
   int nb = g.size(1, 5, 30); bool gaps = g.coin(0.3); raw_boundary(m, [&](const P3 &) { int b = r.range(1, nb); return gaps ? 2 * b + 1 : b; });
   raw_shuffle(m, r, g.coin(0.8)); std::unique_ptr<Mesh> M(raw_to_mesh(m)); int order = g.range(0, 2); if (order) M->SetCurvature(order);
   g.note << (simplex ? "tri" : "quad") << " " << nx << "x" << ny << " subdomains " << nsub << " style " << style << " order " << order << " boundary attributes " << nb << (gaps ? " (gaps)" : "") << (hole ? " hole" : "") << "; ";
   interesting = nsub > 1; return M;
}
inline YAML::Node base(const char *dd) { YAML::Node d; d["mesh"]["type"] = "submesh"; if (dd) d["domain-decomposition"]["type"] = std::string(dd); return d; }
#endif
