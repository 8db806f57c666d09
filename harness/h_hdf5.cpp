// Stored data comes back exactly.
#include "common.hpp"
#include "hdf5_utils.hpp"
#include "linalg_utils.hpp"
#include "rom_element_collection.hpp"
using namespace hdf5_utils;

struct Obj { int kind; std::string name; uint64_t seed; int a, b, c; };
static const std::vector<std::string> STR = { "", "x", "comp0", "a longer string, well beyond any small-string buffer of the library: 0123456789", "with space", "../path/to file.h5", "vel_x" };
static const std::vector<std::string> CH = { "comp", "port", "chan-2", "empty", "x/y", "" };

static std::string rstr(Rnd &r) { std::string s = STR[r.range(0, STR.size() - 1)]; int n = r.range(0, 40) ? r.range(0, 30) : r.range(30, 3000); for (int i = 0; i < n; i++) s += (char) r.range(32, 126); return s; }
static const char *KIND[] = { "int attr", "double attr", "bool attr", "string attr", "tag attr", "Array<int>", "Array<double>", "Array<bool>", "Array2D<int>", "Array2D<double>", "Array2D<bool>",
                              "Vector", "DenseMatrix", "DenseTensor", "SparseMatrix", "BlockMatrix", "MatrixBlocks", "SampleInfo" };
static const int NK = 18;

template <class T> static T rnd_val(Rnd &r);
template <> int rnd_val<int>(Rnd &r) { return r.range(0, 3) ? r.range(-1000, 1000) : (r.range(0, 1) ? 2147483647 : -2147483647 - 1); }
template <> double rnd_val<double>(Rnd &r) { return odd_double(r); }
template <> bool rnd_val<bool>(Rnd &r) { return r.range(0, 1); }
static bool eq(int a, int b) { return a == b; }
static bool eq(double a, double b) { return same_bits(a, b); }
static bool eq(bool a, bool b) { return a == b; }

template <class T> static void arr(Obj &o, hid_t f, bool write)
{
   Rnd r(o.seed); Array<T> v(o.a); for (int i = 0; i < o.a; i++) v[i] = rnd_val<T>(r);
   if (write) { WriteDataset(f, o.name, v); return; }
   Array<T> w(o.b % 7); for (int i = 0; i < w.Size(); i++) w[i] = T(); // whatever the target held
   ReadDataset(f, o.name, w); CHECK(w.Size() == o.a, "%s: %d entries, expected %d", o.name.c_str(), w.Size(), o.a); for (int i = 0; i < o.a; i++) CHECK(eq(v[i], w[i]), "%s: entry %d differs", o.name.c_str(), i);
   hsize_t *d; int nd = GetDatasetSize(f, o.name, d); CHECK(nd == 1 && (int) d[0] == o.a, "%s: dataset size", o.name.c_str()); delete[] d;
}
template <class T> static void arr2(Obj &o, hid_t f, bool write)
{
   Rnd r(o.seed); Array2D<T> v(o.a, o.b); for (int i = 0; i < o.a; i++) for (int j = 0; j < o.b; j++) v(i, j) = rnd_val<T>(r);
   if (write) { WriteDataset(f, o.name, v); return; }
   Array2D<T> w(o.c % 4, o.c % 5); ReadDataset(f, o.name, w); CHECK(w.NumRows() == o.a && w.NumCols() == o.b, "%s: %dx%d, expected %dx%d", o.name.c_str(), w.NumRows(), w.NumCols(), o.a, o.b);
   for (int i = 0; i < o.a; i++) for (int j = 0; j < o.b; j++) CHECK(eq(v(i, j), w(i, j)), "%s: entry (%d,%d) differs", o.name.c_str(), i, j);
}
static void offsets(Rnd &r, int n, Array<int> &off) { off.SetSize(n + 1); off[0] = 0; for (int i = 0; i < n; i++) off[i + 1] = off[i] + r.range(1, 4); }

// writes the object, or reads it and compares with what was written
static void io(Obj &o, hid_t f, bool write)
{
   Rnd r(o.seed); const char *nm = o.name.c_str();
   switch (o.kind)
   {
      case 0: { int v = rnd_val<int>(r), w = -7; if (write) WriteAttribute(f, o.name, v); else { ReadAttribute(f, o.name, w); CHECK(w == v, "%s: %d, expected %d", nm, w, v); } break; }
      case 1: { double v = rnd_val<double>(r), w = -7; if (write) WriteAttribute(f, o.name, v); else { ReadAttribute(f, o.name, w); CHECK(same_bits(w, v), "%s: %.17g, expected %.17g", nm, w, v); } break; }
      case 2: { bool v = rnd_val<bool>(r), w = !v; if (write) WriteAttribute(f, o.name, v); else { ReadAttribute(f, o.name, w); CHECK(w == v, "%s: wrong bool", nm); } break; }
      case 3: { std::string v = rstr(r), w = "before"; if (write) WriteAttribute(f, o.name, v); else { ReadAttribute(f, o.name, w); CHECK(w == v, "%s: '%s', expected '%s'", nm, w.c_str(), v.c_str()); } break; }
      case 4: { BasisTag v(rstr(r), r.range(0, 1) ? rstr(r) : ""), w("q", "p"); if (write) WriteAttribute(f, o.name, v); else { ReadAttribute(f, o.name, w); CHECK(w == v, "%s: tag '%s', expected '%s'", nm, w.print().c_str(), v.print().c_str()); } break; }
      case 5: arr<int>(o, f, write); break;
      case 6: arr<double>(o, f, write); break;
      case 7: arr<bool>(o, f, write); break;
      case 8: arr2<int>(o, f, write); break;
      case 9: arr2<double>(o, f, write); break;
      case 10: arr2<bool>(o, f, write); break;
      case 11: { Vector v(std::max(1, o.a)); for (int i = 0; i < v.Size(); i++) v[i] = odd_double(r); if (write) { WriteDataset(f, o.name, v); break; } Vector w(o.b); w = 3.; ReadDataset(f, o.name, w); CHECK(w.Size() == v.Size(), "%s: size", nm); for (int i = 0; i < v.Size(); i++) CHECK(same_bits(v[i], w[i]), "%s: entry %d", nm, i); break; }
      case 12: { DenseMatrix v(std::max(1, o.a), std::max(1, o.b)); for (int i = 0; i < v.Height(); i++) for (int j = 0; j < v.Width(); j++) v(i, j) = odd_double(r); if (write) { WriteDataset(f, o.name, v); break; } DenseMatrix w(o.c, o.c ? 2 : 0); w = 3.; ReadDataset(f, o.name, w); CHECK(w.Height() == v.Height() && w.Width() == v.Width(), "%s: %dx%d, expected %dx%d", nm, w.Height(), w.Width(), v.Height(), v.Width()); for (int i = 0; i < v.Height(); i++) for (int j = 0; j < v.Width(); j++) CHECK(same_bits(v(i, j), w(i, j)), "%s: entry (%d,%d)", nm, i, j); break; }
      case 13: { DenseTensor v(std::max(1, o.a), std::max(1, o.b), std::max(1, o.c)); for (int k = 0; k < v.SizeK(); k++) for (int i = 0; i < v.SizeI(); i++) for (int j = 0; j < v.SizeJ(); j++) v(i, j, k) = odd_double(r); if (write) { WriteDataset(f, o.name, v); break; } DenseTensor w(2, 1, 3); w = 3.; ReadDataset(f, o.name, w); CHECK(w.SizeI() == v.SizeI() && w.SizeJ() == v.SizeJ() && w.SizeK() == v.SizeK(), "%s: tensor size", nm); for (int k = 0; k < v.SizeK(); k++) for (int i = 0; i < v.SizeI(); i++) for (int j = 0; j < v.SizeJ(); j++) CHECK(same_bits(v(i, j, k), w(i, j, k)), "%s: entry (%d,%d,%d)", nm, i, j, k); break; }
      case 14: { SparseMatrix *v = rand_sparse(r, std::max(1, o.a), std::max(1, o.b), o.c / 8., true); if (write) WriteSparseMatrix(f, o.name, v); else { SparseMatrix *w = ReadSparseMatrix(f, o.name); same_sparse(*v, *w, nm); delete w; } delete v; break; }
      case 15:
      {
         int n = o.a > 9 ? 10 + o.a % 5 : std::max(1, o.a % 5); Array<int> off; offsets(r, n, off); BlockMatrix v(off); v.owns_blocks = true;
         for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (r.range(0, 2)) v.SetBlock(i, j, rand_sparse(r, off[i + 1] - off[i], off[j + 1] - off[j], r.range(0, 3) / 3., false));
         if (write) { WriteBlockMatrix(f, o.name, &v); break; }
         BlockMatrix *w = ReadBlockMatrix(f, o.name, off); SparseMatrix *a = v.CreateMonolithic(), *b = w->CreateMonolithic(); same_sparse(*a, *b, nm); delete a; delete b; delete w; break;
      }
      case 16:
      {
         int n = o.a > 9 ? 10 + o.a % 4 : o.a % 4, m = n ? std::max(1, o.b > 9 ? 10 + o.b % 4 : o.b % 4) : 0; MatrixBlocks v(n, m); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) if (r.range(0, 2)) v(i, j) = rand_sparse(r, r.range(1, 4), r.range(1, 4), r.range(0, 3) / 3., true);
         if (n == 0) m = 0;
         if (write) { WriteDataset(f, o.name, v); break; }
         int wn = r.range(0, 2) ? r.range(0, 3) : n, wm = wn ? (wn == n ? m : r.range(1, 3)) : 0; MatrixBlocks w(wn, wm); for (int i = 0; i < wn; i++) for (int j = 0; j < wm; j++) if (r.range(0, 2)) w(i, j) = rand_sparse(r, 2, 2, .5); // whatever the target held
         ReadDataset(f, o.name, w); CHECK(w.nrows == n && w.ncols == m && w.blocks.NumRows() == n && w.blocks.NumCols() == m, "%s: %dx%d blocks, expected %dx%d", nm, w.nrows, w.ncols, n, m);
         for (int i = 0; i < n; i++) for (int j = 0; j < m; j++)
         {
            bool zero = !v(i, j) || v(i, j)->NumNonZeroElems() == 0;   // an empty block may come back as none
            if (zero) CHECK(!w(i, j) || w(i, j)->NumNonZeroElems() == 0, "%s: block (%d,%d) should be empty", nm, i, j);
            else { CHECK(w(i, j) != NULL, "%s: block (%d,%d) is missing", nm, i, j); same_sparse(*v(i, j), *w(i, j), nm); }
         }
         break;
      }
      case 17:
      {
         IntegratorType t = (IntegratorType)(o.b % NUM_INTEG_TYPE); Array<SampleInfo> v(o.a); for (int i = 0; i < o.a; i++) { v[i].el = r.range(0, 500); v[i].qp = r.range(0, 30); v[i].qw = r.uni(0, 3); }
         if (write) { WriteDataset(f, o.name, t, v); break; }
         Array<SampleInfo> w(r.range(0, 12)); ReadDataset(f, o.name, t, w); CHECK(w.Size() == o.a, "%s: %d samples, expected %d", nm, w.Size(), o.a); for (int i = 0; i < o.a; i++) CHECK(w[i].el == v[i].el && w[i].qp == v[i].qp && same_bits(w[i].qw, v[i].qw), "%s: sample %d", nm, i);
         break;
      }
   }
}

PROP(P03, hdf5_round_trip, 6000, 100000, "2 or more objects in one file, at least one of them a matrix or a container")
{
   std::string fn = pbt::scratch() + "/f.h5"; int n = g.range(1, 6), big = 0; std::vector<Obj> objs;
   for (int i = 0; i < n; i++) { Obj o; o.kind = g.range(0, NK - 1); o.name = (g.coin(0.3) ? "another, rather longer name " : "obj") + std::to_string(i); o.seed = g.seed(); o.a = g.coin(0.2) ? 0 : g.size(1, 9, 70); o.b = g.size(1, 9, 70); o.c = g.range(0, 8); if (o.kind >= 5 && o.kind <= 11 && g.coin(0.01)) { o.a = g.range(70, 20000); if (o.kind >= 8 && o.kind <= 10) o.a /= 50; } objs.push_back(o); g.note << KIND[o.kind] << " " << o.a << "," << o.b << "," << o.c << "; "; big += o.kind >= 12; g.label(KIND[o.kind]); }
   bool grp = g.coin(0.4), again = g.coin(0.3);
   for (int pass = 0; pass < (again ? 2 : 1); pass++)   // an existing file is replaced
   {
      hid_t f = H5Fcreate(fn.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); CHECK(f >= 0, "cannot create the file again");
      hid_t d = grp ? H5Gcreate(f, "grp", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT) : f;
      for (auto &o : objs) io(o, d, true);
      if (grp) H5Gclose(d);
      CHECK(H5Fget_obj_count(f, H5F_OBJ_DATASET | H5F_OBJ_GROUP | H5F_OBJ_ATTR) == 0, "writing leaves %ld objects of the file open", (long) H5Fget_obj_count(f, H5F_OBJ_DATASET | H5F_OBJ_GROUP | H5F_OBJ_ATTR)); H5Fclose(f);
      f = H5Fopen(fn.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); d = grp ? H5Gopen2(f, "grp", H5P_DEFAULT) : f;
      // in any order, more than once
      for (int k = 0; k < 2 * n; k++) { Obj &o = objs[k < n ? n - 1 - k : (k * 7) % n]; io(o, d, false); }
      for (auto &o : objs) if (o.kind >= 5) CHECK(pathExists(d, o.name), "%s is not found", o.name.c_str());
      CHECK(!pathExists(d, "absent"), "an absent path is found"); if (grp) for (auto &o : objs) if (o.kind >= 5) { CHECK(pathExists(f, "grp/" + o.name), "grp/%s is not found", o.name.c_str()); CHECK(!pathExists(f, o.name), "%s is found outside of its group", o.name.c_str()); }
      if (grp) H5Gclose(d);
      CHECK(H5Fget_obj_count(f, H5F_OBJ_DATASET | H5F_OBJ_GROUP | H5F_OBJ_ATTR) == 0, "reading leaves objects of the file open"); H5Fclose(f);
   }
   g.nontrivial = n >= 2 && big;
}

PROP(P03, sparse_file_round_trip, 1500, 20000, "a matrix with at least one stored entry")
{
   int h = g.size(1, 12, 80), w = g.size(1, 12, 80), dens = g.range(0, 10); Rnd r(g.seed()); g.note << h << "x" << w << " " << dens;
   SparseMatrix *m = rand_sparse(r, h, w, dens / 10., true); std::string f = pbt::scratch() + "/m.h5"; g.nontrivial = m->NumNonZeroElems() > 0;
   if (m->NumNonZeroElems() == 0) { delete m; throw pbt::Discard(); }   // the storage library refuses empty arrays
   WriteSparseMatrixToHDF(m, f); SparseMatrix *q = ReadSparseMatrixFromHDF(f); same_sparse(*m, *q, "matrix"); delete q; delete m;
}

PROP(P03, text_dump, 1500, 20000, "2 or more entries")
{
   int h = g.size(1, 6, 40), w = g.size(1, 6, 40); Rnd r(g.seed()); g.note << h << "x" << w; DenseMatrix m(h, w); fill(r, m, -1e3, 1e3); Vector v(h * w); r.fill(v, -1e-6, 1e-6); g.nontrivial = h * w > 1;
   std::string f = pbt::scratch() + "/m.txt"; PrintMatrix(m, f); { std::ifstream i(f); double x; std::string line; for (int a = 0; a < h; a++) { CHECK((bool) std::getline(i, line), "row %d missing", a); std::istringstream s(line); for (int b = 0; b < w; b++) { CHECK((bool) (s >> x), "entry (%d,%d) missing", a, b); CHECK(std::abs(x - m(a, b)) <= 1e-14 * std::abs(m(a, b)), "entry (%d,%d) is %.17g, expected %.17g", a, b, x, m(a, b)); } CHECK(!(s >> x), "row %d too long", a); } }
   PrintVector(v, f); { std::ifstream i(f); double x; for (int k = 0; k < v.Size(); k++) { CHECK((bool) (i >> x), "entry %d missing", k); CHECK(std::abs(x - v[k]) <= 1e-14 * std::abs(v[k]), "entry %d", k); } CHECK(!(i >> x), "too long"); }
}

PROP(P03, basis_tag_order, 3000, 30000, "three tags, not all equal")
{
   // a strict total order that agrees with ==, so that every tag has its own slot in a map
   std::vector<BasisTag> t; for (int i = 0; i < 3; i++) t.push_back(BasisTag(g.pick(CH), g.pick(CH)));
   g.note << t[0].print() << " " << t[1].print() << " " << t[2].print(); g.nontrivial = !(t[0] == t[1] && t[1] == t[2]);
   for (auto &a : t) for (auto &b : t)
   {
      bool e = a.comp == b.comp && a.var == b.var; CHECK((a == b) == e, "equality"); CHECK((a < b) + (b < a) + (a == b) == 1, "not a total order"); BasisTag c; c = a; CHECK(c == a, "assignment");
      for (auto &d : t) if (a < b && b < d) CHECK(a < d, "not transitive");
      CHECK(a.print() == (a.var == "" ? a.comp : a.comp + "_" + a.var), "printed tag '%s'", a.print().c_str());
   }
}
