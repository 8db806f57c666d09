// Configuration access and parameter sampling.
#include "pbt.hpp"
#include "input_parser.hpp"
#include "parameter.hpp"
#include "etc.hpp"
#include <sys/wait.h>
#include <unistd.h>
using pbt::Gen;

// ---------- reference model: an ordered nested map with typed leaves ----------
struct Val
{
   enum K { MAP, INT, DBL, STR, BOOL, INTS, DBLS, STRS } k = MAP;
   std::vector<std::pair<std::string, Val>> m;   // MAP, in insertion order
   int i = 0; double d = 0; std::string s; bool b = false;
   std::vector<int> vi; std::vector<double> vd; std::vector<std::string> vs;
   Val *find(const std::string &key) { for (auto &p : m) if (p.first == key) return &p.second; return NULL; }
};
static const std::vector<std::string> KEYS = { "a", "b", "mesh", "sub-mesh", "basis", "x1", "number_of_basis", "c", "Mesh", "mesh2", "10", "number of", "true", "x" };
static const std::vector<std::string> WORDS = { "dg", "none", "file_%03d.h5", "left right", "GMRES", "v0", "a-b", "./dir", "Zz", "\\tab", "it's", "12", "1e3", "true", "~", "/abs/path.h5", "x#y", " lead", "trail " };
static double gen_double(Gen &g)
{
   switch (g.draw(5)) { case 0: return g.range(-5, 5); case 1: return g.real(-1, 1); case 2: return g.real(-1, 1) * 1e-9; case 3: return g.real(-1, 1) * 1e12; default: return g.real(0, 3) / 3.0; }
}
static Val gen_leaf(Gen &g)
{
   Val v; v.k = (Val::K) g.range(1, 7); int n;
   switch (v.k)
   {
      case Val::INT: v.i = g.coin(0.2) ? g.range(-2000000000, 2000000000) : g.range(-20, 20); break;
      case Val::DBL: v.d = gen_double(g); break;
      case Val::STR: v.s = g.pick(WORDS); if (g.coin(0.01)) for (int k = g.range(1, 300); k > 0; k--) v.s += " " + g.pick(WORDS); break;
      case Val::BOOL: v.b = g.coin(); break;
      case Val::INTS: n = g.size(1, 5, 60); while (n--) v.vi.push_back(g.range(-9, 9)); break;
      case Val::DBLS: n = g.size(1, 5, 60); while (n--) v.vd.push_back(gen_double(g)); break;
      default: n = g.size(1, 4, 30); while (n--) v.vs.push_back(g.pick(WORDS)); break;
   }
   return v;
}
static Val gen_map(Gen &g, int depth)
{
   Val v; int n = g.size(depth ? 1 : 0, 4, 12);
   for (int k = 0; k < n; k++)
   {
      std::string key = g.pick(KEYS); if (v.find(key)) continue;
      v.m.push_back({ key, (depth < 3 && g.coin(0.4)) || (depth < 9 && g.coin(0.03)) ? gen_map(g, depth + 1) : gen_leaf(g) });
   }
   return v;
}
static std::string quote(const std::string &s) { std::string o = "'"; for (char c : s) { if (c == '\'') o += "''"; else o += c; } return o + "'"; }
static std::string num(double d) { char b[40]; snprintf(b, 40, "%.17g", d); return b; }
static std::string flow(const Val &v)
{
   std::string o; size_t k;
   switch (v.k)
   {
      case Val::INT: return std::to_string(v.i);
      case Val::DBL: return num(v.d);
      case Val::STR: return quote(v.s);
      case Val::BOOL: return v.b ? "true" : "false";
      case Val::INTS: o = "["; for (k = 0; k < v.vi.size(); k++) o += (k ? "," : "") + std::to_string(v.vi[k]); return o + "]";
      case Val::DBLS: o = "["; for (k = 0; k < v.vd.size(); k++) o += (k ? "," : "") + num(v.vd[k]); return o + "]";
      case Val::STRS: o = "["; for (k = 0; k < v.vs.size(); k++) o += (k ? "," : "") + quote(v.vs[k]); return o + "]";
      default: o = "{"; for (k = 0; k < v.m.size(); k++) o += (k ? ", " : "") + quote(v.m[k].first) + ": " + flow(v.m[k].second); return o + "}";
   }
}
static void write_block(std::ostream &o, const Val &v, int ind)
{
   for (auto &p : v.m)
   {
      o << std::string(ind, ' ') << p.first << ":";
      if (p.second.k == Val::MAP && p.second.m.size()) { o << "\n"; write_block(o, p.second, ind + 2); }
      else o << " " << flow(p.second) << "\n";
   }
}
// the node must hold exactly v
static void same(const YAML::Node &n, const Val &v, const std::string &at)
{
   size_t k;
   switch (v.k)
   {
      case Val::INT: CHECK(n.as<int>() == v.i, "%s: %d, expected %d", at.c_str(), n.as<int>(), v.i); break;
      case Val::DBL: CHECK(n.as<double>() == v.d, "%s: %.17g, expected %.17g", at.c_str(), n.as<double>(), v.d); break;
      case Val::STR: CHECK(n.as<std::string>() == v.s, "%s: '%s', expected '%s'", at.c_str(), n.as<std::string>().c_str(), v.s.c_str()); break;
      case Val::BOOL: CHECK(n.as<bool>() == v.b, "%s: wrong bool", at.c_str()); break;
      case Val::INTS: { Array<int> a = n.as<Array<int>>(); CHECK(a.Size() == (int) v.vi.size(), "%s: %d entries, expected %zu", at.c_str(), a.Size(), v.vi.size()); for (k = 0; k < v.vi.size(); k++) CHECK(a[k] == v.vi[k], "%s[%zu]", at.c_str(), k); break; }
      case Val::DBLS: { Vector a = n.as<Vector>(); CHECK(a.Size() == (int) v.vd.size(), "%s: %d entries, expected %zu", at.c_str(), a.Size(), v.vd.size()); for (k = 0; k < v.vd.size(); k++) CHECK(a[k] == v.vd[k], "%s[%zu]", at.c_str(), k); break; }
      case Val::STRS: { std::vector<std::string> a = n.as<std::vector<std::string>>(); CHECK(a == v.vs, "%s: wrong list of strings", at.c_str()); break; }
      default:
         if (v.m.empty()) { CHECK(!n.IsDefined() || n.size() == 0, "%s: should be empty", at.c_str()); break; }
         CHECK(n.IsMap(), "%s: should be a mapping", at.c_str());
         k = 0;
         for (YAML::const_iterator it = n.begin(); it != n.end(); ++it, k++)
         {
            // the order of keys in a mapping is not significant
            std::string key = it->first.as<std::string>(); const Val *c = const_cast<Val &>(v).find(key);
            CHECK(c != NULL, "%s has extra key '%s'", at.c_str(), key.c_str());
            same(it->second, *c, at + "/" + key);
         }
         CHECK(k == v.m.size(), "%s: %zu keys, expected %zu", at.c_str(), k, v.m.size());
   }
}
static std::string join(const std::vector<std::string> &p) { std::string o; for (auto &s : p) o += (o.empty() ? "" : "/") + s; return o; }
// a path that only passes through mappings (or leaves the document); NULL leaf = absent
static std::vector<std::string> gen_path(Gen &g, Val &root, Val *&leaf, Val *&parent)
{
   std::vector<std::string> p; Val *cur = &root; leaf = NULL; parent = &root;
   int depth = g.size(1, 4, 12);
   for (int d = 0; d < depth; d++)
   {
      if (cur && cur->k != Val::MAP) break;
      std::string key = (cur && cur->m.size() && g.coin(0.7)) ? cur->m[g.draw(cur->m.size())].first : g.pick(KEYS);
      p.push_back(key); parent = cur; cur = cur ? cur->find(key) : NULL;
   }
   leaf = cur; return p;
}
static void model_set(Val &root, const std::vector<std::string> &p, const Val &v)
{
   Val *c = &root;
   for (size_t k = 0; k < p.size(); k++) { Val *n = c->find(p[k]); if (!n) { c->m.push_back({ p[k], Val() }); n = &c->m.back().second; } c = n; }
   *c = v;
}
static void write_doc(const std::string &f, const Val &root, bool block)
{
   std::ofstream o(f); if (block && root.m.size()) write_block(o, root, 0); else o << flow(root) << "\n";
}

PROP(P01, access_model, 25000, 600000, "at least one set and one lookup of an absent path, on a document of at least 2 leaves")
{
   Val root = gen_map(g, 1); std::string f = pbt::scratch() + "/in.yml"; bool block = g.coin();
   write_doc(f, root, block); g.note << flow(root);
   InputParser ip(f); same(ip.dict_, root, "");
   // an independent node for the *InDict forms; the parser's own document must not be affected by it and vice versa
   Val other = gen_map(g, 1); YAML::Node od = YAML::Load(flow(other));
   int nop = g.size(1, 8, 40), sets = 0, absent = 0; std::vector<std::string> last[2];
   for (int o = 0; o < nop; o++)
   {
      bool in = g.coin(0.3); Val &m = in ? other : root; Val *leaf, *par;
      std::vector<std::string> p = gen_path(g, m, leaf, par);
      if (last[in].size() && g.coin(0.25)) { p = last[in]; leaf = &m; for (auto &k : p) leaf = leaf && leaf->k == Val::MAP ? leaf->find(k) : NULL; Val *c = &m; for (size_t k = 0; c && k + 1 < p.size(); k++) { if (c->k != Val::MAP) break; c = c->find(p[k]); } if (c && c->k != Val::MAP) { p = gen_path(g, m, leaf, par); } }
      last[in] = p; std::string key = join(p);
      int op = g.range(0, 4);
      g.note << "; " << (in ? "dict " : "") << op << " " << key;
      if (op == 4)   // the document is public: a group or value is replaced, added or removed in it directly, or the whole document is replaced
      {
         YAML::Node &doc = in ? od : ip.dict_; int what = g.range(0, 9); size_t n = g.range(1, p.size()); std::vector<std::string> q(p.begin(), p.begin() + n);
         if (what == 0) { Val v = gen_map(g, 1); g.note << " all " << flow(v); m = v; if (g.coin()) doc.reset(YAML::Load(flow(v))); else doc = YAML::Load(flow(v)); }
         else
         {
            std::vector<YAML::Node> at(1, doc); for (size_t k = 0; k + 1 < n; k++) at.push_back(at.back()[q[k]]);
            Val *c = &m; for (size_t k = 0; c && k + 1 < n; k++) c = c->find(q[k]);
            if (what <= 2 && c && c->k == Val::MAP && c->find(q.back())) { at.back().remove(q.back()); for (size_t k = 0; k < c->m.size(); k++) if (c->m[k].first == q.back()) { c->m.erase(c->m.begin() + k); break; } g.note << " removed at " << join(q); }
            else { Val v = g.coin() ? gen_map(g, 1) : gen_leaf(g); g.note << " " << join(q) << ":=" << flow(v); if (in && g.coin()) ip.SetOptionInDict<YAML::Node>(join(q), YAML::Load(flow(v)), od); else if (!in && g.coin()) ip.SetOption<YAML::Node>(join(q), YAML::Load(flow(v))); else at.back()[q.back()] = YAML::Load(flow(v)); model_set(m, q, v); }
         }
      }
      else if (op == 0)
      {
         Val v = gen_leaf(g); sets++; g.note << "=" << flow(v);
         #define SET(T, x) do { if (in) ip.SetOptionInDict<T>(key, x, od); else ip.SetOption<T>(key, x); } while (0)
         switch (v.k)
         {
            case Val::INT: SET(int, v.i); break;
            case Val::DBL: SET(double, v.d); break;
            case Val::STR: SET(std::string, v.s); break;
            case Val::BOOL: SET(bool, v.b); break;
            case Val::INTS: { Array<int> a(v.vi.size()); for (size_t k = 0; k < v.vi.size(); k++) a[k] = v.vi[k]; SET(Array<int>, a); break; }
            case Val::DBLS: { Vector a(v.vd.size()); for (size_t k = 0; k < v.vd.size(); k++) a[k] = v.vd[k]; SET(Vector, a); break; }
            default: SET(std::vector<std::string>, v.vs);
         }
         model_set(m, p, v);
      }
      else if (op == 1 || (op == 2 && !leaf))
      {
         if (!leaf) absent++;
         #define GET(T, fb) (in ? ip.GetOptionFromDict<T>(key, fb, od) : ip.GetOption<T>(key, fb))
         if (!leaf)
         {
            int fi = g.range(-100, 100); CHECK(GET(int, fi) == fi, "absent %s: int fallback not returned", key.c_str());
            double fd = gen_double(g); CHECK(GET(double, fd) == fd, "absent %s: double fallback not returned", key.c_str());
            CHECK(GET(std::vector<std::string>, std::vector<std::string>({ "p", "q" })) == std::vector<std::string>({ "p", "q" }), "absent %s: list fallback not returned", key.c_str()); Vector fv(3); fv = fd; Vector gv(GET(Vector, fv)); CHECK(gv.Size() == 3 && gv[2] == fd, "absent %s: vector fallback not returned", key.c_str());
            CHECK(GET(std::string, "fb") == "fb" && GET(bool, true) == true && GET(bool, false) == false, "absent %s: fallback not returned", key.c_str());
         }
         else switch (leaf->k)
         {
            case Val::INT: CHECK(GET(int, leaf->i ^ 1) == leaf->i, "%s: wrong int", key.c_str()); CHECK(GET(double, 0.5) == leaf->i && GET(std::string, "") == std::to_string(leaf->i), "%s: the int as another type", key.c_str()); break;
            case Val::DBL: CHECK(GET(double, leaf->d + 1) == leaf->d, "%s: wrong double", key.c_str()); break;
            case Val::STR: CHECK(GET(std::string, "other") == leaf->s, "%s: wrong string", key.c_str()); break;
            case Val::BOOL: CHECK(GET(bool, !leaf->b) == leaf->b, "%s: wrong bool", key.c_str()); break;
            case Val::INTS: { Array<int> fb(2), a(GET(Array<int>, fb)); CHECK(a.Size() == (int) leaf->vi.size(), "%s: %d integers", key.c_str(), a.Size()); for (int k = 0; k < a.Size(); k++) CHECK(a[k] == leaf->vi[k], "%s: wrong integer %d", key.c_str(), k); Vector v(GET(Vector, Vector())); CHECK(v.Size() == a.Size() && v[v.Size() - 1] == a.Last(), "%s: the integers as a vector", key.c_str()); break; }
            case Val::DBLS: { Vector a(GET(Vector, Vector())); Array<double> fb, b(GET(Array<double>, fb)); CHECK(a.Size() == (int) leaf->vd.size() && b.Size() == a.Size(), "%s: %d numbers", key.c_str(), a.Size()); for (int k = 0; k < a.Size(); k++) CHECK(a[k] == leaf->vd[k] && b[k] == a[k], "%s: wrong number %d", key.c_str(), k); break; }
            case Val::STRS: CHECK(GET(std::vector<std::string>, std::vector<std::string>(1)) == leaf->vs, "%s: wrong list of strings", key.c_str()); break;
            default: break;
         }
      }
      else if (op == 2)
      {
         YAML::Node n = in ? ip.FindNodeFromDict(key, od) : ip.FindNode(key); CHECK((bool) n, "%s exists but was not found", key.c_str()); same(n, *leaf, key);
         if (leaf->k == Val::DBL) { double x = in ? ip.GetRequiredOptionFromDict<double>(key, od) : ip.GetRequiredOption<double>(key); CHECK(x == leaf->d, "%s: wrong required double", key.c_str()); }
         if (leaf->k == Val::INT) { int x = in ? ip.GetRequiredOptionFromDict<int>(key, od) : ip.GetRequiredOption<int>(key); CHECK(x == leaf->i, "%s: wrong required int", key.c_str()); }
      }
      else
      {
         YAML::Node n = in ? ip.FindNodeFromDict(key, od) : ip.FindNode(key);
         CHECK(((bool) n) == (leaf != NULL), "%s: found %d, expected %d", key.c_str(), (int) (bool) n, (int) (leaf != NULL));
         if (!leaf) absent++;
      }
      // nothing else may have changed
      same(ip.dict_, root, ""); same(od, other, "dict:");
   }
   g.nontrivial = sets && absent && root.m.size() >= 2;
}

PROP(P01, forced_override, 12000, 300000, "two or more overrides, at least one of them of an existing key")
{
   Val root = gen_map(g, 1); std::string f = pbt::scratch() + "/in.yml"; bool block = g.coin();
   write_doc(f, root, block); g.note << flow(root);
   int n = g.size(0, 4, 20), ex = 0; std::string forced;
   for (int k = 0; k < n; k++)
   {
      Val *leaf, *par; std::vector<std::string> p = gen_path(g, root, leaf, par); Val v = gen_leaf(g); if (leaf) ex++;
      forced += (k ? ":" : "") + join(p) + "=" + flow(v); model_set(root, p, v);
   }
   if (n && g.coin(0.2)) forced += ":";
   g.note << " | " << forced;
   InputParser ip(f, forced); same(ip.dict_, root, "");
   g.nontrivial = n >= 2 && ex;
}

PROP(P01, malformed_override_refused, 200, 2000, "every case")
{
   std::string f = pbt::scratch() + "/in.yml"; { std::ofstream o(f); o << "a: 1\n"; }
   const std::vector<std::string> bad = { "a", "a:b=1", "b=1:c", "a=1=2", "a=1:b=2=3:c=1", "a=", "a=1::b=2", ":a=1", "=", "=1", "a=1:=2", "a=1:b", "a==1", "a=1:b=2:c" };
   std::string s = g.pick(bad); g.note << s; g.nontrivial = true;
   fflush(NULL); pid_t p = fork();
   if (!p) { InputParser ip(f, s); _exit(0); }
   int st; waitpid(p, &st, 0); CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 0), "malformed override '%s' was accepted", s.c_str());
}

PROP(P01, wrong_type_refused, 300, 4000, "every case")
{
   const std::vector<std::string> words = { "word", "seven", "x1", "1x", "1 2", "two words", "./file.h5" };
   int form = g.range(0, 3), t = g.range(0, 3); std::string v, w = g.pick(words); int n = g.range(2, 5);
   if (form == 0) v = "\"" + w + "\"", t = g.range(0, 2);            // a word asked for as a number or a truth value
   else if (form == 1) { v = g.coin() ? std::to_string(g.range(-9, 99)) : "\"" + w + "\""; }   // a scalar asked for as a list
   else { v = "["; int at = g.range(0, n - 1); for (int k = 0; k < n; k++) v += (k ? ", " : "") + (form == 3 && k == at ? "\"" + w + "\"" : std::to_string(g.range(0, 9))); v += "]"; }   // a list asked for as a scalar; a list with a word asked for as numbers
   bool dict = g.coin(), req = g.coin(); std::string f = pbt::scratch() + "/in.yml"; { std::ofstream o(f); o << "a:\n  b: " << v << "\n"; }
   g.note << v << " form " << form << " as " << t; g.nontrivial = true;
   fflush(NULL); pid_t c = fork();
   if (!c)
   {
      try
      {
         InputParser ip(f); YAML::Node d = ip.FindNode("a");
#define ASK(T, fb) { T q(req ? (dict ? ip.GetRequiredOptionFromDict<T>("b", d) : ip.GetRequiredOption<T>("a/b")) : (dict ? ip.GetOptionFromDict<T>("b", fb, d) : ip.GetOption<T>("a/b", fb))); (void) q; }
         if (form == 0 || form == 2) { if (t == 0) ASK(int, 1) else if (t == 1) ASK(double, 1.) else if (t == 2) ASK(bool, true) else ASK(std::string, std::string("x")) }
         else if (t == 0) ASK(Array<int>, Array<int>()) else if (t == 1) ASK(Vector, Vector()) else if (t == 2) ASK(Array<double>, Array<double>()) else if (form == 1) ASK(std::vector<std::string>, std::vector<std::string>()) else ASK(Array<int>, Array<int>())
#undef ASK
      }
      catch (YAML::Exception &) { _exit(1); }
      _exit(0);
   }
   int st; waitpid(c, &st, 0); CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 0), "the value %s was accepted as another type", v.c_str());
}

PROP(P01, required_missing_refused, 200, 2000, "every case")
{
   Val root = gen_map(g, 1); std::string f = pbt::scratch() + "/in.yml"; write_doc(f, root, false);
   Val *leaf, *par; std::vector<std::string> p = gen_path(g, root, leaf, par); if (leaf) p.push_back("absent"); if (leaf && leaf->k != Val::MAP) { p.clear(); p.push_back("absent"); }
   std::string key = join(p); g.note << flow(root) << " | " << key; g.nontrivial = true; int t = g.range(0, 2);
   fflush(NULL); pid_t c = fork();
   if (!c)
   {
      InputParser ip(f);
      if (t == 0) ip.GetRequiredOption<int>(key); else if (t == 1) ip.GetRequiredOption<std::string>(key); else ip.GetRequiredOptionFromDict<double>(key, ip.dict_);
      _exit(0);
   }
   int st; waitpid(c, &st, 0); CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 0), "missing required option '%s' was accepted", key.c_str());
}

PROP(P01, list_lookup, 12000, 300000, "a list of 2 or more entries with the key looked for in one of them, not all")
{
   int n = g.size(0, 6, 30), hit = -1; std::vector<Val> rows; std::string doc = "list: [";
   bool nested = g.coin(0.3); std::string lk = nested ? "id/name" : "name", rk = g.coin(0.3) ? "opt/number" : "number";
   const std::vector<std::string> names = { "comp0", "comp1", "comp2", "comp1_vel", "3", "comp", "comp10", "Comp1" }; std::string target = g.pick(names); bool bynum = g.coin(0.3); int itarget = g.range(0, 3);
   std::vector<int> has(n), num_(n); int def = g.range(-5, -1);
   for (int k = 0; k < n; k++)
   {
      Val r; std::string nm = g.pick(names); int in = g.range(0, 3); bool present = g.coin(0.85); has[k] = g.coin(0.8); num_[k] = g.range(0, 99);
      Val v; if (bynum) { v.k = Val::INT; v.i = in; } else { v.k = Val::STR; v.s = nm; }
      if (g.coin()) { Val e; e.k = Val::BOOL; r.m.push_back({ "flag", e }); }
      if (present) model_set(r, nested ? std::vector<std::string>{ "id", "name" } : std::vector<std::string>{ "name" }, v);
      Val w; w.k = Val::INT; w.i = num_[k]; if (has[k]) model_set(r, rk == "number" ? std::vector<std::string>{ "number" } : std::vector<std::string>{ "opt", "number" }, w);
      Val id; id.k = Val::INT; id.i = k; r.m.push_back({ "row", id });
      if (hit < 0 && present && (bynum ? in == itarget : nm == target)) hit = k;
      rows.push_back(r); doc += (k ? ", " : "") + flow(r);
   }
   doc += "]\n"; g.note << doc << " | " << (bynum ? std::to_string(itarget) : target);
   std::string f = pbt::scratch() + "/in.yml"; { std::ofstream o(f); o << doc; }
   InputParser ip(f); YAML::Node list = ip.FindNode("list");
   auto intact = [&] () { CHECK((int) ip.dict_["list"].size() == n, "lookup changed the list"); for (int k = 0; k < n; k++) same(ip.dict_["list"][k], rows[k], "list[" + std::to_string(k) + "]"); };
   YAML::Node r = bynum ? ip.LookUpFromDict<int>(lk, itarget, list) : ip.LookUpFromDict<std::string>(lk, target, list);
   CHECK(((bool) r) == (hit >= 0), "entry found %d, expected %d", (int) (bool) r, hit);
   if (hit >= 0) { CHECK(r["row"].as<int>() == hit, "first matching entry is %d, got %d", hit, r["row"].as<int>()); }
   intact();
   int got = bynum ? ip.LookUpFromDict<int, int>(lk, itarget, rk, def, list) : ip.LookUpFromDict<std::string, int>(lk, target, rk, def, list);
   int expect = (hit >= 0 && has[hit]) ? num_[hit] : def;
   CHECK(got == expect, "looked-up value %d, expected %d", got, expect);
   intact();
   g.nontrivial = n >= 2 && hit >= 0;
}

PROP(P01, array_conversion, 10000, 100000, "a list of 2 or more")
{
   int n = g.size(0, 12, 200); Array<double> ad(n); Array<int> ai(n); Vector v(n); std::vector<std::string> vs(n);
   for (int k = 0; k < n; k++) { ad[k] = gen_double(g); ai[k] = g.range(-1000, 1000); v[k] = gen_double(g); vs[k] = g.pick(WORDS); }
   g.note << "n=" << n; g.nontrivial = n >= 2;
   if (n)
   {
      YAML::Node a, b, c, d; a = ad; b = ai; c = v; d = vs;
      YAML::Emitter ea, eb, ec, ed; std::stringstream s; 
      s << "d: " << YAML::Dump(a) << "\n";
      Array<double> ad2 = a.as<Array<double>>(); Array<int> ai2 = b.as<Array<int>>(); Vector v2 = c.as<Vector>(); std::vector<std::string> vs2 = d.as<std::vector<std::string>>();
      CHECK(ad2.Size() == n && ai2.Size() == n && v2.Size() == n && (int) vs2.size() == n, "sizes changed");
      for (int k = 0; k < n; k++) CHECK(ad2[k] == ad[k] && ai2[k] == ai[k] && v2[k] == v[k] && vs2[k] == vs[k], "entry %d changed", k);
   }
   // decoding replaces whatever the target held
   YAML::Node l = YAML::Load("[1, 2]"); Array<int> t(5); t = 7; CHECK(YAML::convert<Array<int>>::decode(l, t) && t.Size() == 2 && t[0] == 1 && t[1] == 2, "decode into a used array");
   Vector tv(5); tv = 7; CHECK(YAML::convert<Vector>::decode(l, tv) && tv.Size() == 2 && tv[1] == 2., "decode into a used vector");
   Array<int> t2; CHECK(!YAML::convert<Array<int>>::decode(YAML::Load("3"), t2) && !YAML::convert<Vector>::decode(YAML::Load("{a: 1}"), tv), "a non-list was accepted as a list");
}

// ---------- parameters ----------
static bool close(double a, double b, double tol) { return std::abs(a - b) <= tol * std::max(std::abs(a), std::abs(b)); }
static YAML::Node opts(double lo, double hi, bool lg, bool explicit_) { YAML::Node n; n["minimum"] = lo; n["maximum"] = hi; if (lg || explicit_) n["log_scale"] = lg; return n; }

PROP(P02, double_grid, 40000, 600000, "3 or more grid points over a non-degenerate range")
{
   bool lg = g.coin(); double lo, hi; int n = g.range(1, 12); if (g.coin(0.1)) n = g.range(13, 400);
   if (lg) { lo = std::pow(10., g.real(-6, 4)); hi = lo * std::pow(10., g.real(0, 6)); if (g.coin(0.1)) std::swap(lo, hi); if (g.coin(0.1)) { lo = -lo; hi = -hi; } }
   else { lo = gen_double(g); hi = lo + (g.coin(0.1) ? 0. : g.real(0, 1) * std::pow(10., g.range(-3, 3))); if (g.coin(0.1)) std::swap(lo, hi); }
   std::string key = g.coin() ? "p/k" : "a/b/c"; g.note << (lg ? "log " : "lin ") << lo << ".." << hi << " n=" << n;
   DoubleParam p(key, opts(lo, hi, lg, g.coin())); p.SetSize(n); CHECK(p.GetSize() == n && p.GetKey() == key, "size or key");
   InputParser ip; ip.dict_ = YAML::Node(YAML::NodeType::Map); ip.SetOption<int>("other", 5); ip.SetOption<std::string>("p/keep", "x");
   int visits = g.range(1, 6); double tol = lg ? 1e-11 : 1e-13;
   for (int t = 0; t < visits; t++)
   {
      int i = t == 0 ? n - 1 : t == 1 ? 0 : g.range(0, n - 1);
      p.SetParam(i, ip); double v = ip.GetRequiredOption<double>(key);
      double e = n == 1 ? lo : lg ? lo * std::pow(hi / lo, (double) i / (n - 1)) : lo + (hi - lo) * i / (n - 1);
      double scale = std::max(std::abs(lo), std::abs(hi));
      CHECK(lg ? close(v, e, tol * n) : std::abs(v - e) <= tol * n * scale, "point %d of %d is %.17g, expected %.17g", i, n, v, e);
      if (i == 0) CHECK(v == lo, "first point %.17g is not the minimum %.17g", v, lo);
      CHECK(ip.GetOption<int>("other", 0) == 5 && ip.GetOption<std::string>("p/keep", "") == "x" && ip.dict_.size() == (key[0] == 'p' ? 2u : 3u), "another option changed");
   }
   g.nontrivial = n >= 3 && lo != hi;
}

PROP(P02, integer_grid, 20000, 300000, "3 or more points over a range of at least 2")
{
   int lo = g.size(-50, 50, 20000), n = g.size(1, 12, 300), step = g.size(0, 6, 1000), extra = g.range(0, std::max(0, n - 2)); bool fn = g.coin(0.4);
   if (g.coin(0.3)) extra = 0;
   int hi = lo + step * std::max(1, n - 1) + extra; if (fn && lo < 0) { hi -= lo; lo = 0; } if (!fn && g.coin(0.1)) std::swap(lo, hi); if (fn && hi - lo > 5000) throw pbt::Discard();
   YAML::Node o; o["minimum"] = lo; o["maximum"] = hi; const std::vector<std::string> fmts = { "snap%04d.h5", "d/%d", "x_%02d_y", "plain%d%%" }; std::string fmt = g.pick(fmts); if (fn) o["format"] = fmt;
   g.note << (fn ? fmt : "int") << " " << lo << ".." << hi << " n=" << n; InputParser ip; ip.dict_ = YAML::Node(YAML::NodeType::Map); ip.SetOption<int>("other", 5);
   IntegerParam *p = fn ? new FilenameParam("f/k", o) : new IntegerParam("f/k", o); p->SetSize(n);
   // equally spaced by the whole number of steps that fit
   int dp = (hi - lo) / std::max(1, n - 1);
   for (int t = 0; t < n; t++)
   {
      int i = n - 1 - t; p->SetParam(i, ip); int e = n == 1 ? lo : lo + i * dp; char b[100]; snprintf(b, 100, fmt.c_str(), e);
      if (fn) { std::string v = ip.GetRequiredOption<std::string>("f/k"); CHECK(v == b, "file %d is '%s', expected '%s'", i, v.c_str(), b); }
      else { int v = ip.GetRequiredOption<int>("f/k"); CHECK(v == e, "point %d of %d is %d, expected %d", i, n, v, e); }
      CHECK(ip.GetOption<int>("other", 0) == 5, "another option changed");
   }
   if (fn)
   {
      std::vector<std::string> l; l.push_back("first"); ((FilenameParam *) p)->ParseFilenames(l);
      CHECK((int) l.size() == hi - lo + 2 && l[0] == "first", "%zu file names for %d..%d", l.size() - 1, lo, hi);
      for (int k = lo; k <= hi; k++) { char b[100]; snprintf(b, 100, fmt.c_str(), k); CHECK(l[1 + k - lo] == b, "file name %d is %s", k, l[1 + k - lo].c_str()); }
   }
   delete p; g.nontrivial = n >= 3 && hi - lo >= 2;
}

PROP(P02, random_in_range, 2000, 30000, "a non-degenerate range")
{
   int kind = g.range(0, 3); const int N = 600; InputParser ip; ip.dict_ = YAML::Node(YAML::NodeType::Map); ip.SetOption<int>("other", 5);
   if (kind < 2)
   {
      bool lg = kind == 1; double lo, hi;
      if (lg) { lo = std::pow(10., g.real(-6, 4)); hi = lo * std::pow(10., g.real(0.5, 6)); } else { lo = gen_double(g); hi = lo + g.real(0.01, 1) * std::pow(10., g.range(-3, 3)) * std::max(1., std::abs(lo)); }
      g.note << (lg ? "log " : "lin ") << lo << ".." << hi; g.nontrivial = true;
      DoubleParam p("k", opts(lo, hi, lg, false)); p.SetSize(1); int below = 0; double mid = lg ? std::sqrt(lo * hi) : 0.5 * (lo + hi), q1 = lg ? lo * std::pow(hi / lo, .25) : lo + .25 * (hi - lo); int q = 0;
      for (int t = 0; t < N; t++) { p.SetRandomParam(ip); double v = ip.GetRequiredOption<double>("k"); double sl = 1e-12 * std::max(std::abs(lo), std::abs(hi)); CHECK(v >= lo - sl && v <= hi + sl, "%.17g outside %.17g..%.17g", v, lo, hi); below += v < mid; q += v < q1; }
      // 8 standard deviations
      CHECK(std::abs(below - N / 2) < 8 * 0.5 * std::sqrt(N) && std::abs(q - N / 4) < 8 * 0.44 * std::sqrt(N), "%d of %d below the middle, %d below the first quarter", below, N, q);
   }
   else
   {
      int lo = g.range(-50, 50), k = g.range(1, 8); bool fn = kind == 3; if (fn) lo = std::abs(lo); int hi = lo + k - 1; g.note << (fn ? "file " : "int ") << lo << ".." << hi; g.nontrivial = k > 1;
      YAML::Node o; o["minimum"] = lo; o["maximum"] = hi; o["format"] = "s%03d.h5"; IntegerParam *p = fn ? new FilenameParam("k", o) : new IntegerParam("k", o); std::map<int, int> seen;
      for (int t = 0; t < N; t++)
      {
         p->SetRandomParam(ip); int v; if (fn) { std::string s = ip.GetRequiredOption<std::string>("k"); CHECK(sscanf(s.c_str(), "s%d.h5", &v) == 1 && s.size() == 7, "file name %s", s.c_str()); } else v = ip.GetRequiredOption<int>("k");
         CHECK(v >= lo && v <= hi, "%d outside %d..%d", v, lo, hi); seen[v]++;
      }
      for (int v = lo; v <= hi; v++) CHECK(seen[v] > 0, "%d of %d..%d never drawn in %d", v, lo, hi, N);
      delete p;
   }
   CHECK(ip.GetOption<int>("other", 0) == 5, "another option changed");
}

PROP(P02, string_format, 10000, 100000, "an output of at least 10 characters")
{
   int a = g.range(-100000, 100000); double d = gen_double(g); std::string w(g.size(0, 300, 5000), 'w'); char b[6000];
   snprintf(b, 6000, "%s-%05d_%.6e.h5", w.c_str(), a, d); std::string s = string_format("%s-%05d_%.6e.h5", w.c_str(), a, d);
   CHECK(s == b, "formatted '%s', expected '%s'", s.c_str(), b); g.note << b; g.nontrivial = s.size() >= 10;
}
