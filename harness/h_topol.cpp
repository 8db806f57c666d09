// Decomposition of a mesh into subdomains, assembly of subdomains from component meshes.
#include "topo.hpp"
#include "rom_element_collection.hpp"
#include "linalg_utils.hpp"
#include <unistd.h>
#include <sys/wait.h>
#include <memory>

// ---------------------------------------------------------------- one mesh split by element attributes
static int open_handles() { return H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_FILE | H5F_OBJ_DATASET | H5F_OBJ_GROUP | H5F_OBJ_ATTR); }

PROP(P10, submesh_decomposition, 6000, 100000, "the mesh is split in two or more subdomains that share a face")
{
   int nsub; bool in; auto pm = gen_split(g, nsub, in); bool nodd = g.coin(0.15); int ref = g.coin(0.25) ? g.coin(0.15) ? 2 : 1 : 0; bool fromfile = g.coin(0.3);
   // one domain of attributes that leave numbers out; attributes renamed after the mesh listed them
   if (nodd && g.coin()) { int a = g.range(1, 3), b = g.range(0, 5); for (int e = 0; e < pm->GetNE(); e++) pm->SetAttribute(e, a * pm->GetAttribute(e) + b); if (g.coin()) pm->SetAttributes(); g.note << "attributes x" << a << "+" << b << " "; }
   if (g.coin(0.2)) { int most = pm->attributes.Max(), l = g.range(1, most); pm->attributes.SetSize(1); pm->attributes[0] = l; g.note << "attributes listed before they were set "; }
   YAML::Node doc = base(nodd ? "none" : g.coin() ? "interior_penalty" : NULL); if (ref) doc["mesh"]["uniform_refinement"] = ref;
   std::unique_ptr<SubMeshTopologyHandler> T;
   if (fromfile) { std::string fn = pbt::scratch() + "/m.mesh"; { std::ofstream f(fn); f.precision(17); pm->Print(f); } doc["mesh"]["filename"] = fn; set_config(doc); T.reset(new SubMeshTopologyHandler()); }
   else { set_config(doc); T.reset(new SubMeshTopologyHandler(pm.get())); }
   Mesh &P = *T->GetGlobalMesh(); int n = nodd ? 1 : nsub; g.note << (nodd ? "no decomposition" : "") << (ref ? "refined " : "") << (fromfile ? "from file" : "");
   CHECK(T->GetNumSubdomains() == n && T->GetNumComponents() == n, "%d subdomains, %d components, expected %d", T->GetNumSubdomains(), T->GetNumComponents(), n);
   Array<Mesh *> ms; TopologyData td; T->ExportInfo(ms, td); CHECK(ms.Size() == n && td.numSub == n && td.dim == 2, "exported %d meshes, dim %d", ms.Size(), td.dim);
   if (ref) { int ne = fromfile ? pm->GetNE() * (ref == 2 ? 16 : 4) : -1; if (ne > 0) CHECK(P.GetNE() == ne, "refined parent has %d elements, expected %d", P.GetNE(), ne); }
   // the exported boundary attributes are the parent's
   std::set<int> pb, eb; for (int b = 0; b < P.GetNBE(); b++) pb.insert(P.GetBdrAttribute(b)); for (int i = 0; i < td.global_bdr_attributes->Size(); i++) eb.insert((*td.global_bdr_attributes)[i]); CHECK(pb == eb, "global boundary attributes differ from the parent's");
   // oracle: every parent face, by its vertices
   std::map<FaceKey, int> bdr; for (int b = 0; b < P.GetNBE(); b++) bdr[be_key(P, b)] = P.GetBdrAttribute(b);
   std::map<FaceKey, std::pair<int, int>> shared;
   for (int f = 0; f < P.GetNumFaces(); f++) { int e1, e2; P.GetFaceElements(f, &e1, &e2); if (e2 < 0) continue; int a = P.GetAttribute(e1) - 1, b = P.GetAttribute(e2) - 1; if (nodd || a == b) continue; shared[face_key_of(P, f)] = { std::min(a, b), std::max(a, b) }; }
   int ne = 0; for (int m = 0; m < n; m++) { ne += ms[m]->GetNE(); CHECK(ms[m] == T->GetMesh(m), "mesh %d", m); CHECK(T->GetMeshType(m) == m && T->GetNumSubdomains(m) == 1 && T->GetComponentIndexOfMesh(m) == 0, "bookkeeping of subdomain %d", m); }
   CHECK(ne == P.GetNE(), "subdomains have %d elements, the mesh %d", ne, P.GetNE());
   for (int m = 0; m < n; m++) for (int e = 0; e < ms[m]->GetNE(); e++) { int pe = ((SubMesh *) ms[m])->GetParentElementIDMap()[e]; CHECK(nodd || P.GetAttribute(pe) == m + 1, "subdomain %d has element %d of attribute %d", m, pe, P.GetAttribute(pe)); }
   std::set<FaceKey> seen; std::set<int> attrs; std::set<std::pair<int, int>> pairs; int maxb = *pb.rbegin();
   std::vector<std::map<int, int>> expect(n);
   for (int k = 0; k < T->GetNumPorts(); k++)
   {
      const PortInfo *I = T->GetPortInfo(k); CHECK(I->Mesh1 < I->Mesh2 && I->Mesh1 >= 0 && I->Mesh2 < n, "port %d is between %d and %d", k, I->Mesh1, I->Mesh2);
      CHECK(pairs.insert({ I->Mesh1, I->Mesh2 }).second, "two ports between %d and %d", I->Mesh1, I->Mesh2);
      CHECK(I->PortAttr > maxb + 1 && attrs.insert(I->PortAttr).second, "port attribute %d is not new", I->PortAttr); CHECK(I->Attr1 == I->PortAttr && I->Attr2 == I->PortAttr, "port %d attributes", k);
      int c1, c2, a1, a2; T->GetRefPortInfo(T->GetPortType(k), c1, c2, a1, a2); CHECK(c1 == I->Mesh1 && c2 == I->Mesh2 && a1 == I->Attr1 && a2 == I->Attr2, "reference port of port %d", k); T->GetComponentPair(T->GetPortType(k), c1, c2); CHECK(c1 == I->Mesh1 && c2 == I->Mesh2, "component pair of port %d", k);
      Array<InterfaceInfo> *L = T->GetInterfaceInfos(k); CHECK(L && L->Size() > 0, "port %d has no interface", k); CHECK(T->GetRefInterfaceInfos(k) == L, "reference interfaces of port %d", k);
      for (int i = 0; i < L->Size(); i++)
      {
         InterfaceInfo &f = (*L)[i]; CHECK(f.BE1 >= 0 && f.BE1 < ms[I->Mesh1]->GetNBE() && f.BE2 >= 0 && f.BE2 < ms[I->Mesh2]->GetNBE(), "port %d interface %d: no such boundary element", k, i);
         FaceKey k1 = be_key(*ms[I->Mesh1], f.BE1), k2 = be_key(*ms[I->Mesh2], f.BE2); CHECK(k1 == k2, "port %d interface %d: the two boundary elements are different faces", k, i);
         CHECK(shared.count(k1) && shared[k1] == std::make_pair(I->Mesh1, I->Mesh2), "port %d interface %d: not a face between these subdomains", k, i); CHECK(seen.insert(k1).second, "port %d interface %d: face listed twice", k, i);
         expect[I->Mesh1][f.BE1] = I->PortAttr; expect[I->Mesh2][f.BE2] = I->PortAttr;
         check_transformations(*T, ms[I->Mesh1], ms[I->Mesh2], f, "interface");
      }
   }
   CHECK(seen.size() == shared.size(), "%zu of the %zu faces between subdomains are in a port", seen.size(), shared.size());
   for (int m = 0; m < n; m++)
   {
      std::set<int> got, up;
      for (int b = 0; b < ms[m]->GetNBE(); b++) { int a = ms[m]->GetBdrAttribute(b); got.insert(a); int e; if (expect[m].count(b)) e = expect[m][b]; else { FaceKey key = be_key(*ms[m], b); CHECK(bdr.count(key), "subdomain %d boundary element %d is neither outer boundary nor port", m, b); e = bdr[key]; } CHECK(a == e, "subdomain %d boundary element %d has attribute %d, expected %d", m, b, a, e); }
      for (int i = 0; i < ms[m]->bdr_attributes.Size(); i++) CHECK(up.insert(ms[m]->bdr_attributes[i]).second, "subdomain %d lists attribute %d twice", m, ms[m]->bdr_attributes[i]); CHECK(up == got, "subdomain %d: list of boundary attributes is out of date", m);
   }
   g.nontrivial = shared.size() > 0;
}

static void sinfield(const Vector &x, Vector &u) { for (int d = 0; d < u.Size(); d++) u[d] = std::sin(1. + 1.3 * x[0] * (d + 1) + 0.7 * x[1]) + (x.Size() > 2 ? x[2] : 0.); }
PROP(P15, transfer_to_global, 4000, 60000, "two or more subdomains")
{
   int nsub; bool in; auto pm = gen_split(g, nsub, in); YAML::Node doc = base(g.coin(0.1) ? "none" : NULL); set_config(doc); SubMeshTopologyHandler T(pm.get()); int n = T.GetNumSubdomains();
   int nv = g.size(1, 3, 6); std::vector<int> vd(nv), byv(nv), ord(nv), l2(nv); for (int v = 0; v < nv; v++) { vd[v] = g.range(1, 3); byv[v] = g.coin(); ord[v] = g.range(1, 3); l2[v] = g.coin(); g.note << (l2[v] ? "L2" : "H1") << " order " << ord[v] << " "; }
   g.note << "variables " << nv; g.nontrivial = n > 1;
   std::vector<std::unique_ptr<FiniteElementCollection>> fec(nv); for (int v = 0; v < nv; v++) if (l2[v]) fec[v].reset(new L2_FECollection(ord[v], 2)); else fec[v].reset(new H1_FECollection(ord[v], 2));
   std::vector<std::unique_ptr<FiniteElementSpace>> sp; Array<GridFunction *> us, gu; Rnd r(g.seed());
   std::vector<std::unique_ptr<GridFunction>> own;
   for (int v = 0; v < nv; v++) { sp.emplace_back(new FiniteElementSpace(T.GetGlobalMesh(), fec[v].get(), vd[v], byv[v] ? Ordering::byVDIM : Ordering::byNODES)); own.emplace_back(new GridFunction(sp.back().get())); *own.back() = -77.; gu.Append(own.back().get()); }
   for (int m = 0; m < n; m++) for (int v = 0; v < nv; v++)
   {
      sp.emplace_back(new FiniteElementSpace(T.GetMesh(m), fec[v].get(), vd[v], byv[v] ? Ordering::byVDIM : Ordering::byNODES)); own.emplace_back(new GridFunction(sp.back().get())); us.Append(own.back().get());
      if (l2[v]) r.fill(*own.back()); else { VectorFunctionCoefficient c(vd[v], sinfield); own.back()->ProjectCoefficient(c); *own.back() *= (1. + v); }
   }
   T.TransferToGlobal(us, gu, nv);
   for (int m = 0; m < n; m++) for (int v = 0; v < nv; v++) for (int e = 0; e < T.GetMesh(m)->GetNE(); e++)
   {
      int pe = ((SubMesh *) T.GetMesh(m))->GetParentElementIDMap()[e]; const IntegrationRule &ir = IntRules.Get(T.GetMesh(m)->GetElementBaseGeometry(e), 4);
      for (int q = 0; q < ir.GetNPoints(); q++)
      {
         // same physical point on both meshes
         ElementTransformation *ts = T.GetMesh(m)->GetElementTransformation(e); ts->SetIntPoint(&ir.IntPoint(q)); Vector x, a, b; ts->Transform(ir.IntPoint(q), x); us[m * nv + v]->GetVectorValue(e, ir.IntPoint(q), a);
         ElementTransformation *tp = T.GetGlobalMesh()->GetElementTransformation(pe); IntegrationPoint ip = ir.IntPoint(q); Vector y; tp->Transform(ip, y); y -= x; CHECK(max_abs(y) < 1e-9, "parent element %d is not where element %d of subdomain %d is", pe, e, m); gu[v]->GetVectorValue(pe, ip, b);
         for (int d = 0; d < vd[v]; d++) CHECK(std::abs(a[d] - b[d]) < 1e-8, "variable %d component %d in element %d of subdomain %d: global field %.12g, subdomain field %.12g", v, d, e, m, b[d], a[d]);
      }
   }
}

// ---------------------------------------------------------------- assembly from component meshes
static void check_world(World &w, ComponentTopologyHandler &T, const std::vector<int> &inv)
{
   int n = w.blocks.size(); CHECK(T.GetNumSubdomains() == n && T.GetNumComponents() == (int) w.comps.size(), "%d subdomains, %d components", T.GetNumSubdomains(), T.GetNumComponents());
   CHECK(T.GetType() == COMPONENT, "type"); std::vector<int> cnt(w.comps.size(), 0);
   for (size_t c = 0; c < w.comps.size(); c++) CHECK(T.GetComponentName(inv[c]) == w.comps[c].name, "component %zu is named %s", c, T.GetComponentName(inv[c]).c_str());
   for (int m = 0; m < n; m++)
   {
      int c = w.blocks[m].comp; CHECK(T.GetMeshType(m) == inv[c], "subdomain %d is of component %d", m, T.GetMeshType(m)); CHECK(T.GetComponentIndexOfMesh(m) == cnt[c], "subdomain %d is number %d of its component, expected %d", m, T.GetComponentIndexOfMesh(m), cnt[c]); cnt[c]++;
      Mesh *M = T.GetMesh(m), *C = T.GetComponentMesh(inv[c]); CHECK(M->GetNE() == C->GetNE() && M->GetNV() == C->GetNV() && M->GetNBE() == C->GetNBE(), "subdomain %d: not a copy of its component", m);
      for (int v = 0; v < M->GetNV(); v++) { P3 a = vertex_of(*M, v), b = w.place(m, vertex_of(*C, v)); for (int d = 0; d < w.dim; d++) CHECK(std::abs(a[d] - b[d]) < 1e-9, "subdomain %d vertex %d is at %.12g, expected %.12g", m, v, a[d], b[d]); }
   }
   for (size_t c = 0; c < w.comps.size(); c++) CHECK(T.GetNumSubdomains(inv[c]) == cnt[c], "component %zu has %d subdomains, expected %d", c, T.GetNumSubdomains(inv[c]), cnt[c]);
}
static void check_ports(World &w, ComponentTopologyHandler &T, const std::vector<int> &inv)
{
   CHECK(T.GetNumPorts() == (int) w.itf.size() && T.GetNumRefPorts() == (int) w.ports.size(), "%d ports of %d reference ports, expected %zu of %zu", T.GetNumPorts(), T.GetNumRefPorts(), w.itf.size(), w.ports.size());
   for (size_t p = 0; p < w.itf.size(); p++)
   {
      const PortInfo *I = T.GetPortInfo(p); Itf &t = w.itf[p]; CHECK(I->Mesh1 == t.m1 && I->Mesh2 == t.m2 && I->Attr1 == t.a1 && I->Attr2 == t.a2 && T.GetPortType(p) == t.ref, "port %zu is not the one configured", p);
      Mesh *m1 = T.GetMesh(t.m1), *m2 = T.GetMesh(t.m2), *C1 = T.GetComponentMesh(T.GetMeshType(t.m1)), *C2 = T.GetComponentMesh(T.GetMeshType(t.m2));
      std::set<int> e1, e2, g1, g2; for (int b = 0; b < C1->GetNBE(); b++) if (C1->GetBdrAttribute(b) == t.a1) e1.insert(b); for (int b = 0; b < C2->GetNBE(); b++) if (C2->GetBdrAttribute(b) == t.a2) e2.insert(b);
      Array<InterfaceInfo> *L = T.GetInterfaceInfos(p); CHECK(L, "port %zu has no interfaces", p);
      for (int i = 0; i < L->Size(); i++)
      {
         InterfaceInfo &f = (*L)[i]; CHECK(g1.insert(f.BE1).second && g2.insert(f.BE2).second, "port %zu: boundary element listed twice", p); CHECK(e1.count(f.BE1) && e2.count(f.BE2), "port %zu: boundary element not of the port", p);
         CHECK(be_key(*m1, f.BE1).size() == be_key(*m2, f.BE2).size(), "port %zu: different shapes", p);
         check_transformations(T, m1, m2, f, "interface");
      }
      CHECK(g1.size() == e1.size() && g2.size() == e2.size(), "port %zu pairs %zu of %zu faces", p, g1.size(), e1.size());
   }
   for (size_t p = 0; p < w.ports.size(); p++)
   {
      RefPort &P = w.ports[p]; int c1, c2, a1, a2; T.GetRefPortInfo(p, c1, c2, a1, a2); CHECK(c1 == inv[P.c1] && c2 == inv[P.c2] && a1 == P.a1 && a2 == P.a2, "reference port %zu: components %d %d attributes %d %d", p, c1, c2, a1, a2); T.GetComponentPair(p, c1, c2); CHECK(c1 == inv[P.c1] && c2 == inv[P.c2], "component pair of port %zu", p);
      Mesh M1(*T.GetComponentMesh(c1)), M2(*T.GetComponentMesh(c2)); Array<InterfaceInfo> *L = T.GetRefInterfaceInfos(p);
      auto mv = [&](const P3 &x) -> P3 { double c = std::cos(P.conf[3]), s = std::sin(P.conf[3]); if (w.dim == 2) return { c * x[0] - s * x[1] + P.conf[0], s * x[0] + c * x[1] + P.conf[1], 0. }; return { x[0] + P.conf[0], x[1] + P.conf[1], x[2] + P.conf[2] }; };
      for (int i = 0; i < L->Size(); i++) check_transformations(T, &M1, &M2, (*L)[i], "reference interface", mv);
      // stored pairs
      auto *D = T.GetPortData(p); CHECK(D->be_pairs.NumRows() == L->Size(), "reference port %zu: %d pairs, %d interfaces", p, D->be_pairs.NumRows(), L->Size());
      for (auto &v : D->vtx2to1) { P3 a = vertex_of(M1, v.second), b = mv(vertex_of(M2, v.first)); for (int d = 0; d < w.dim; d++) CHECK(std::abs(a[d] - b[d]) < 1e-8, "reference port %zu: vertices %d and %d do not coincide", p, v.first, v.second); }
   }
}
static void check_attributes(World &w, ComponentTopologyHandler &T)
{
   Array<Mesh *> ms; TopologyData td; T.ExportInfo(ms, td); CHECK(ms.Size() == (int) w.blocks.size() && td.numSub == ms.Size() && td.dim == w.dim, "exported data"); for (int m = 0; m < ms.Size(); m++) CHECK(ms[m] == T.GetMesh(m), "exported mesh %d", m);
   std::set<int> ga; for (int i = 0; i < td.global_bdr_attributes->Size(); i++) CHECK(ga.insert((*td.global_bdr_attributes)[i]).second, "global attribute %d twice", (*td.global_bdr_attributes)[i]); CHECK(ga == w.gattr, "global boundary attributes are not the configured ones");
   std::set<int> comp; for (size_t c = 0; c < w.comps.size(); c++) for (auto &b : w.comps[c].raw.be) comp.insert(b.attr);
   std::set<int> pa; std::vector<std::map<int, int>> e(w.blocks.size());
   for (size_t p = 0; p < w.itf.size(); p++) { int a = T.GetPortInfo(p)->PortAttr; CHECK(a > 0 && pa.insert(a).second && !ga.count(a) && !comp.count(a) && a != *ga.rbegin() + 1, "port attribute %d is already in use", a); e[w.itf[p].m1][w.itf[p].a1] = a; e[w.itf[p].m2][w.itf[p].a2] = a; }
   for (auto &b : w.bdr) e[b[1]][b[2]] = b[0];
   for (int m = 0; m < ms.Size(); m++)
   {
      Mesh *C = T.GetComponentMesh(T.GetMeshType(m)); std::set<int> got, up; Array<int> *map = T.GetBdrAttrComponentToGlobalMap(m); CHECK(map->Size() == C->bdr_attributes.Size(), "attribute map of subdomain %d", m);
      for (int i = 0; i < map->Size(); i++) CHECK((*map)[i] == e[m][C->bdr_attributes[i]], "subdomain %d: attribute %d maps to %d, expected %d", m, C->bdr_attributes[i], (*map)[i], e[m][C->bdr_attributes[i]]);
      for (int b = 0; b < ms[m]->GetNBE(); b++) { int ex = e[m][C->GetBdrAttribute(b)], a = ms[m]->GetBdrAttribute(b); got.insert(a); CHECK(a == ex, "subdomain %d boundary element %d has attribute %d, expected %d", m, b, a, ex); }
      for (int i = 0; i < ms[m]->bdr_attributes.Size(); i++) CHECK(up.insert(ms[m]->bdr_attributes[i]).second, "attribute twice"); CHECK(up == got, "subdomain %d: list of boundary attributes is out of date", m);
   }
   // the components keep their own
   for (size_t c = 0; c < w.comps.size(); c++) { std::set<int> a; for (auto &b : w.comps[c].raw.be) a.insert(b.attr); for (int k = 0; k < T.GetNumComponents(); k++) if (T.GetComponentName(k) == w.comps[c].name) { std::set<int> h; Mesh *C = T.GetComponentMesh(k); for (int b = 0; b < C->GetNBE(); b++) h.insert(C->GetBdrAttribute(b)); CHECK(h == a, "component %zu changed its attributes", c); } }
}
static std::vector<int> order_of(Gen &g, int n) { std::vector<int> o = ident(n); for (int k = n - 1; k > 0; k--) std::swap(o[k], o[g.range(0, k)]); return o; }
static std::vector<int> inverse(const std::vector<int> &o) { std::vector<int> i(o.size()); for (size_t k = 0; k < o.size(); k++) i[o[k]] = k; return i; }
static void junk(Gen &g, World &w, YAML::Node &doc)
{
   YAML::Node cw = doc["mesh"]["component-wise"];
   if (g.coin(0.3)) { YAML::Node n; n["name"] = "unused"; n["file"] = "/nonexistent/file.mesh"; cw["components"].push_back(n); }
   if (g.coin(0.3)) { YAML::Node n; n["name"] = "unusedport"; n["comp1"]["name"] = "nowhere"; n["comp1"]["attr"] = 1; n["comp2"]["name"] = "nowhere"; n["comp2"]["attr"] = 2; cw["ports"].push_back(n); }
}

static void drive_component(Gen &g, int what)
{
   World w = gen_world(g, 0, true, g.coin(0.05) ? 16 : 6); auto o = order_of(g, w.comps.size()); YAML::Node doc; write_world(w, "", o, doc); junk(g, w, doc);
   if (g.coin(0.15)) { doc["mesh"]["uniform_refinement"] = w.dim == 2 && g.coin(0.3) ? 2 : 1; g.note << "refined; "; } if (g.coin(0.05)) doc["mesh"]["component-wise"]["verbose"] = true; set_config(doc);
   ComponentTopologyHandler T; auto inv = inverse(o);
   if (what == 0) { check_world(w, T, inv); check_ports(w, T, inv); } else check_attributes(w, T);
   g.label(w.dim == 3 ? "3D" : "2D"); if (w.rotate) g.label("rotated"); g.nontrivial = w.itf.size() > 1;
}
PROP(P11, component_ports, 5000, 60000, "two or more ports") { drive_component(g, 0); }
PROP(P12, component_attributes, 5000, 60000, "two or more ports") { drive_component(g, 1); }

static void same_port(ComponentTopologyHandler &A, ComponentTopologyHandler &B, int p, const char *what)
{
   auto *a = A.GetPortData(p), *b = B.GetPortData(p); CHECK(A.GetComponentName(a->Component1) == B.GetComponentName(b->Component1) && A.GetComponentName(a->Component2) == B.GetComponentName(b->Component2) && a->Attr1 == b->Attr1 && a->Attr2 == b->Attr2, "%s: port %d joins different sides", what, p);
   CHECK(a->vtx2to1.size() == b->vtx2to1.size(), "%s: port %d maps %zu vertices, expected %zu", what, p, b->vtx2to1.size(), a->vtx2to1.size()); for (auto &v : a->vtx2to1) CHECK(b->vtx2to1.count(v.first) && b->vtx2to1[v.first] == v.second, "%s: port %d vertex %d", what, p, v.first);
   CHECK(a->be_pairs.NumRows() == b->be_pairs.NumRows() && b->be_pairs.NumCols() == 2, "%s: port %d pairs", what, p);
   std::set<std::pair<int, int>> sa, sb; for (int i = 0; i < a->be_pairs.NumRows(); i++) { sa.insert({ a->be_pairs(i, 0), a->be_pairs(i, 1) }); sb.insert({ b->be_pairs(i, 0), b->be_pairs(i, 1) }); } CHECK(sa == sb, "%s: port %d pairs other boundary elements", what, p);
   Array<InterfaceInfo> *x = A.GetRefInterfaceInfos(p), *y = B.GetRefInterfaceInfos(p); CHECK(x->Size() == y->Size(), "%s: port %d interfaces", what, p);
   std::set<std::array<int, 4>> ia, ib; for (int i = 0; i < x->Size(); i++) { ia.insert({ (*x)[i].BE1, (*x)[i].BE2, (*x)[i].Inf1, (*x)[i].Inf2 }); ib.insert({ (*y)[i].BE1, (*y)[i].BE2, (*y)[i].Inf1, (*y)[i].Inf2 }); } CHECK(ia == ib, "%s: port %d orientation data differ", what, p);
}
// sides that coincide within the configured gap are joined as if they did exactly; farther ones are refused
PROP(P11, vertex_gap, 1500, 15000, "every case")
{
   World w = gen_world(g); auto o = order_of(g, w.comps.size()); YAML::Node doc; write_world(w, "", o, doc); int k = g.coin(0.3) ? 10 : g.range(3, 11); bool given = k != 10 || g.coin(); double thr = std::pow(10., -k); if (given) doc["mesh"]["component-wise"]["vertex_gap_threshold"] = thr; set_config(doc); ComponentTopologyHandler A;
   bool refuse = g.coin(0.3); int p = g.range(0, w.ports.size() - 1), only = g.coin() ? g.range(0, w.dim - 1) : -1; World v = w; double f = refuse ? g.real(1.2, 20.) : g.real(0.1, 0.9); for (int d = 0; d < w.dim; d++) if (only < 0 || only == d) v.ports[p].conf[d] += (g.coin() ? 1 : -1) * f * thr;
   g.note << "threshold " << thr << (given ? "" : " by default") << " port " << p << " off by " << f << " of it in " << only; YAML::Node d2; write_world(v, "2", o, d2); if (given) d2["mesh"]["component-wise"]["vertex_gap_threshold"] = thr; set_config(d2); g.nontrivial = true;
   if (refuse) { fflush(NULL); pid_t c = fork(); if (!c) { if (!freopen("/dev/null", "w", stderr)) _exit(1); ComponentTopologyHandler B; _exit(0); } int st; waitpid(c, &st, 0); CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 0), "sides %g apart were joined, threshold %g", f * thr, thr); return; }
   ComponentTopologyHandler B; for (size_t q = 0; q < w.ports.size(); q++) same_port(A, B, q, "displaced");
}

// ports are computed and written by one run, then read by later ones (whole, some, merged in one file, with other components in another order)
PROP(P13, port_files, 2000, 30000, "two or more reference ports went through a file")
{
   World w = gen_world(g, 0, true, g.coin(0.05) ? 16 : 6); for (auto &P : w.ports) P.src = 0; int np = w.ports.size(); auto o = order_of(g, w.comps.size());
   YAML::Node doc; write_world(w, "", o, doc); YAML::Node cw = doc["mesh"]["component-wise"]; std::vector<std::string> file(np);
   for (int p = 0; p < np; p++) { file[p] = w.dir + "/port" + std::to_string(p) + ".h5"; cw["ports"][p]["file"] = file[p]; } cw["write_ports"] = true;
   // an earlier, longer file of the same name must not shine through: it exists only for a name nobody reads, so write twice instead
   set_config(doc); ComponentTopologyHandler A; for (int p = 0; p < np; p++) { std::ifstream f(file[p]); CHECK(f.good(), "port %d was not written", p); }
   auto inv = inverse(o); check_ports(w, A, inv);
   int mode = g.range(0, 3); g.note << "mode " << mode; YAML::Node d2; std::vector<int> o2 = g.coin() ? order_of(g, w.comps.size()) : o; write_world(w, "2", o2, d2); YAML::Node c2 = d2["mesh"]["component-wise"]; YAML::Node L;
   std::vector<int> from; for (int p = 0; p < np; p++) from.push_back(mode == 1 ? g.range(0, 1) : 1);
   if (mode == 2 || mode == 3)
   {  // all ports in one file, groups in another order, and one that nobody asked for
      std::string mf = w.dir + "/merged.h5"; hid_t f = H5Fcreate(mf.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); auto po = order_of(g, np); int extra = g.range(0, 1); hdf5_utils::WriteAttribute(f, "number_of_ports", np + extra); int k = 0;
      if (extra) { hid_t q = H5Gcreate(f, "0", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT); hdf5_utils::WriteAttribute(q, "name", std::string("other")); H5Gclose(q); k = 1; }
      for (int i = 0; i < np; i++, k++) { hid_t s = H5Fopen(file[po[i]].c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); H5Ocopy(s, "0", f, std::to_string(k).c_str(), H5P_DEFAULT, H5P_DEFAULT); H5Fclose(s); }
      H5Fclose(f); YAML::Node n; n["file"] = mf; n["name"] = "all"; L.push_back(n); if (mode == 3) { YAML::Node m; m["file"] = file[0]; m["name"] = w.ports[0].name; L.push_back(m); L.push_back(n); }
   }
   else for (int p = np - 1; p >= 0; p--) { YAML::Node n = port_yaml(w, w.ports[p]); if (from[p]) { YAML::Node m; m["name"] = w.ports[p].name; m["file"] = file[p]; n = m; } L.push_back(n); }
   c2["ports"] = L; set_config(d2); { ComponentTopologyHandler B; auto inv2 = inverse(o2); check_world(w, B, inv2); check_ports(w, B, inv2); check_attributes(w, B); for (int p = 0; p < np; p++) same_port(A, B, p, "read back"); }
   // the files are free again: no handle stays open, so the next run can write them
   CHECK(open_handles() == 0, "%d HDF5 handles stay open", (int) open_handles());
   for (int p = 0; p < np; p++) std::remove(file[p].c_str()); set_config(doc); { ComponentTopologyHandler C; for (int p = 0; p < np; p++) same_port(A, C, p, "built again"); }
   g.nontrivial = np > 1;
}

// the same assembly, given as one mesh and as components
PROP(P14, submesh_vs_component, 3000, 50000, "two or more ports")
{
   World w = gen_world(g, 2, true, 6, 3, true, 3, 1); Rnd r(g.seed()); RawMesh raw = merge_world(w, r, g.coin(0.8)); std::unique_ptr<Mesh> M(raw_to_mesh(raw));
   YAML::Node doc; write_world(w, "", ident(w.comps.size()), doc); set_config(doc); ComponentTopologyHandler C; set_config(base(NULL)); SubMeshTopologyHandler S(M.get());
   CHECK(C.GetNumSubdomains() == S.GetNumSubdomains(), "%d and %d subdomains", C.GetNumSubdomains(), S.GetNumSubdomains()); CHECK(C.GetNumPorts() == S.GetNumPorts(), "%d and %d ports", C.GetNumPorts(), S.GetNumPorts());
   auto collect = [&](TopologyHandler &T) { std::map<std::pair<int, int>, std::set<FaceKey>> out; for (int k = 0; k < T.GetNumPorts(); k++) { const PortInfo *I = T.GetPortInfo(k); auto &s = out[{ std::min(I->Mesh1, I->Mesh2), std::max(I->Mesh1, I->Mesh2) }]; for (int i = 0; i < T.GetInterfaceInfos(k)->Size(); i++) { FaceKey f; auto key = be_key(*T.GetMesh(I->Mesh1), (*T.GetInterfaceInfos(k))[i].BE1); for (auto p : key) f.push_back({ (p[0] + 500000) / 1000, (p[1] + 500000) / 1000, 0 }); CHECK(s.insert(f).second, "face twice"); } } return out; };
   auto near_sets = [&](std::map<std::pair<int, int>, std::set<FaceKey>> a, std::map<std::pair<int, int>, std::set<FaceKey>> b) {
      CHECK(a.size() == b.size(), "ports between different pairs of subdomains");
      for (auto &p : a) { CHECK(b.count(p.first), "no port between %d and %d", p.first.first, p.first.second); CHECK(b[p.first].size() == p.second.size(), "port %d-%d: %zu and %zu faces", p.first.first, p.first.second, p.second.size(), b[p.first].size());
         for (auto &f : p.second) { bool ok = false; for (auto &h : b[p.first]) { bool e = h.size() == f.size(); for (size_t i = 0; e && i < h.size(); i++) { bool any = false; for (size_t j = 0; j < h.size(); j++) if (std::abs(h[j][0] - f[i][0]) <= 1 && std::abs(h[j][1] - f[i][1]) <= 1) any = true; e = any; } ok |= e; } CHECK(ok, "port %d-%d: a face is missing", p.first.first, p.first.second); } } };
   near_sets(collect(C), collect(S));
   // boundary measure per subdomain and attribute, domain measure per subdomain
   for (int m = 0; m < C.GetNumSubdomains(); m++)
   {
      std::map<int, double> a, b; double va = 0, vb = 0; auto meas = [&](TopologyHandler &T, std::map<int, double> &o, double &v) { Mesh *X = T.GetMesh(m); for (int e = 0; e < X->GetNE(); e++) v += X->GetElementVolume(e); for (int e = 0; e < X->GetNBE(); e++) { ElementTransformation *t = X->GetBdrElementTransformation(e); const IntegrationRule &ir = IntRules.Get(t->GetGeometryType(), 2); for (int q = 0; q < ir.GetNPoints(); q++) { t->SetIntPoint(&ir.IntPoint(q)); int at = X->GetBdrAttribute(e); o[w.gattr.count(at) ? at : -1] += t->Weight() * ir.IntPoint(q).weight; } } };
      meas(C, a, va); meas(S, b, vb); CHECK(std::abs(va - vb) < 1e-8, "subdomain %d: areas %.12g %.12g", m, va, vb); CHECK(a.size() == b.size(), "subdomain %d: different attributes", m); for (auto &x : a) CHECK(b.count(x.first) && std::abs(b[x.first] - x.second) < 1e-8, "subdomain %d: length of boundary %d is %.12g and %.12g", m, x.first, x.second, b[x.first]);
   }
   g.nontrivial = w.itf.size() > 1;
}

// ---------------------------------------------------------------- ROM element matrices stored for reuse
static void rnd_blocks(Rnd &r, MatrixBlocks &B) { for (int i = 0; i < B.nrows; i++) for (int j = 0; j < B.ncols; j++) { delete B(i, j); B(i, j) = r.range(0, 4) ? rand_sparse(r, r.range(1, 4), r.range(1, 4), 0.5, true) : NULL; } }
static void same_blocks(MatrixBlocks &a, MatrixBlocks &b, const char *what)
{
   CHECK(a.nrows == b.nrows && a.ncols == b.ncols, "%s: %dx%d blocks, expected %dx%d", what, b.nrows, b.ncols, a.nrows, a.ncols);
   for (int i = 0; i < a.nrows; i++) for (int j = 0; j < a.ncols; j++) { bool za = !a(i, j) || !a(i, j)->NumNonZeroElems(), zb = !b(i, j) || !b(i, j)->NumNonZeroElems(); CHECK(za == zb, "%s: block (%d,%d) %s", what, i, j, zb ? "is missing" : "appeared"); if (!za) same_sparse(*a(i, j), *b(i, j), what); }
}
PROP(P16, rom_elements_round_trip, 2000, 30000, "two or more components or ports, read by a run with another component order or fewer components")
{
   World w = gen_world(g, 0, true, g.coin(0.05) ? 12 : 4, 3, true, 2, 1); auto o = order_of(g, w.comps.size()); YAML::Node doc; write_world(w, "", o, doc); set_config(doc); ComponentTopologyHandler A; bool sep = g.coin(); int nv = g.size(1, 3, 12);
   H1_FECollection fec(1, w.dim); auto spaces = [&](ComponentTopologyHandler &T, std::vector<std::unique_ptr<FiniteElementSpace>> &own, Array<FiniteElementSpace *> &f) { for (int c = 0; c < T.GetNumComponents(); c++) for (int v = 0; v < nv; v++) { own.emplace_back(new FiniteElementSpace(T.GetComponentMesh(c), &fec)); f.Append(own.back().get()); } };
   std::vector<std::unique_ptr<FiniteElementSpace>> oa, ob; Array<FiniteElementSpace *> fa, fb; spaces(A, oa, fa); ROMLinearElement E(&A, fa, sep); Rnd r(g.seed());
   { int nb = sep ? nv : 1; auto is = [&](MatrixBlocks &M, int n, const char *what) { CHECK(M.nrows == n && M.ncols == n && M.blocks.NumRows() == n && M.blocks.NumCols() == n, "%s is %dx%d blocks, expected %d", what, M.nrows, M.ncols, n); };
     for (int c = 0; c < A.GetNumComponents(); c++) { is(*E.comp[c], nb, "a component"); is(*E.mass[c], nb, "a mass"); CHECK(E.bdr[c]->Size() == A.GetComponentMesh(c)->bdr_attributes.Size(), "number of boundaries"); for (int b = 0; b < E.bdr[c]->Size(); b++) is(*(*E.bdr[c])[b], nb, "a boundary"); } for (int p = 0; p < A.GetNumRefPorts(); p++) is(*E.port[p], 2 * nb, "a port"); }
   for (int c = 0; c < A.GetNumComponents(); c++) { rnd_blocks(r, *E.comp[c]); rnd_blocks(r, *E.mass[c]); for (int b = 0; b < E.bdr[c]->Size(); b++) rnd_blocks(r, *(*E.bdr[c])[b]); } for (int p = 0; p < A.GetNumRefPorts(); p++) rnd_blocks(r, *E.port[p]);
   std::string fn = w.dir + "/elements.h5"; if (g.coin(0.2)) E.Save(fn); E.Save(fn);
   CHECK(open_handles() == 0, "handles stay open after saving");
   // another assembly: the components in another order, unused ones dropped, some ports only
   World v = w; std::set<int> used; int keep = g.range(1, w.blocks.size()); v.blocks.resize(keep); v.itf.clear(); v.ports.clear(); std::map<int, int> pmap; v.bdr.clear();
   for (auto t : w.itf) if (t.m1 < keep && t.m2 < keep) { if (!pmap.count(t.ref)) { int k = pmap.size(); pmap[t.ref] = k; v.ports.push_back(w.ports[t.ref]); } t.ref = pmap[t.ref]; v.itf.push_back(t); }
   for (int m = 0; m < keep; m++) { used.insert(v.blocks[m].comp); std::set<int> as; for (auto &b : w.comps[v.blocks[m].comp].raw.be) as.insert(b.attr); for (auto &t : v.itf) { if (t.m1 == m) as.erase(t.a1); if (t.m2 == m) as.erase(t.a2); } for (int a : as) v.bdr.push_back({ 1, m, a }); }
   if (v.bdr.empty()) throw pbt::Discard();
   std::vector<int> o2; for (int c : order_of(g, w.comps.size())) if (used.count(c)) o2.push_back(c); YAML::Node d2; write_world(v, "2", o2, d2); set_config(d2); ComponentTopologyHandler B; spaces(B, ob, fb); ROMLinearElement F(&B, fb, sep); if (g.coin(0.3)) for (int c = 0; c < B.GetNumComponents(); c++) rnd_blocks(r, *F.comp[c]);
   F.Load(fn); if (g.coin(0.2)) F.Load(fn);
   CHECK(open_handles() == 0, "handles stay open after loading");
   for (int c = 0; c < B.GetNumComponents(); c++) { int a = -1; for (int k = 0; k < A.GetNumComponents(); k++) if (A.GetComponentName(k) == B.GetComponentName(c)) a = k; same_blocks(*E.comp[a], *F.comp[c], "component"); same_blocks(*E.mass[a], *F.mass[c], "mass"); CHECK(E.bdr[a]->Size() == F.bdr[c]->Size(), "number of boundaries"); for (int b = 0; b < E.bdr[a]->Size(); b++) same_blocks(*(*E.bdr[a])[b], *(*F.bdr[c])[b], "boundary"); }
   for (auto &p : pmap) same_blocks(*E.port[p.first], *F.port[p.second], "port");
   g.note << "components kept " << o2.size() << " ports kept " << v.ports.size(); g.nontrivial = w.comps.size() + w.ports.size() > 2;
}
