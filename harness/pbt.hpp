// A small property-based testing engine.
// A case is the sequence of bounded draws the property makes from Gen. The runner forks workers, so that an
// assertion, a sanitizer report or a crash in the code under test is a failing case, not the end of the run;
// a failing draw sequence is shrunk (shorter, then smaller draws) and written to a replay file.
#ifndef PBT_HPP
#define PBT_HPP
#include <cstdint>
#include <functional>
#include <map>
#include <random>
#include <sstream>
#include <string>
#include <vector>

namespace pbt
{
struct Failure { std::string msg; };
struct Discard {};

// where the runner watches the case (shared memory), so that a crashed case still leaves its draws and description
struct Watch { volatile size_t used; volatile size_t len; char text[16000]; uint64_t val[50000]; };
extern Watch *watch;
class NoteBuf : public std::streambuf
{
   std::string s;
   void put(const char *p, size_t n)
   {
      s.append(p, n);
      if (watch) for (size_t i = 0; i < n && watch->len + 1 < sizeof watch->text; i++) { watch->text[watch->len] = p[i]; watch->len = watch->len + 1; }
   }
protected:
   int overflow(int c) override { char ch = (char) c; put(&ch, 1); return c; }
   std::streamsize xsputn(const char *p, std::streamsize n) override { put(p, n); return n; }
public:
   const std::string &str() const { return s; }
};

class Gen
{
   NoteBuf buf;
   std::vector<uint64_t> rec; size_t pos = 0; bool replaying; std::mt19937_64 rng;
public:
   std::ostream note;                    // human readable description of the case
   bool nontrivial = false;              // set by the property, by its stated rule
   std::map<std::string, long> labels;   // distribution of what was generated
   Gen(uint64_t seed) : replaying(false), rng(seed), note(&buf) { note.precision(17); }
   Gen(const std::vector<uint64_t> &c) : rec(c), replaying(true), note(&buf) { note.precision(17); }
   const std::string &text() const { return buf.str(); }
   // uniform in [0, n)
   uint64_t draw(uint64_t n)
   {
      if (n <= 1) return 0;
      if (replaying) { uint64_t v = (pos < rec.size()) ? rec[pos] : 0; v %= n; if (watch && pos < 50000) watch->val[pos] = v; pos++; if (watch) watch->used = pos; return v; }
      uint64_t v = rng() % n; rec.push_back(v); pos++; return v;
   }
   int range(int lo, int hi) { return lo + (int) draw((uint64_t)((int64_t) hi - lo + 1)); }
   bool coin(double p = 0.5) { return draw(1000) >= (uint64_t)(1000 * (1 - p)); }
   // mostly in [lo, hi], now and then anywhere up to big
   int size(int lo, int hi, int big, double p = 0.03) { return coin(p) ? range(lo, big) : range(lo, hi); }
   double real(double lo, double hi) { return lo + (hi - lo) * (double) draw(1 << 20) / (double)((1 << 20) - 1); }
   // seed for bulk data
   uint64_t seed() { return draw(1000003); }
   template <class T> const T &pick(const std::vector<T> &v) { return v[draw(v.size())]; }
   void label(const std::string &s) { labels[s]++; }
   const std::vector<uint64_t> &choices() const { return rec; }
   size_t used() const { return pos; }
};

// bulk data from one drawn seed
struct Rnd
{
   std::mt19937_64 r;
   Rnd(uint64_t s) : r(s * 0x9E3779B97F4A7C15ull + 12345) {}
   double uni(double lo, double hi) { return lo + (hi - lo) * ((r() >> 11) * (1.0 / 9007199254740992.0)); }
   int range(int lo, int hi) { return lo + (int)(r() % (uint64_t)(hi - lo + 1)); }
   template <class V> void fill(V &v, double lo = -1., double hi = 1.) { for (int i = 0; i < v.Size(); i++) v[i] = uni(lo, hi); }
};

void fail(const std::string &msg);
void failf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
std::string scratch();   // a directory private to the running case, empty at its start

struct Test { const char *property, *name; std::function<void(Gen &)> fn; int quick, thorough; const char *rule; };
std::vector<Test> &tests();
struct Reg { Reg(const char *p, const char *n, std::function<void(Gen &)> f, int q, int t, const char *r) { tests().push_back({ p, n, f, q, t, r }); } };
}

// PROP(P05, name, quick cases, thorough cases, "rule") { ... uses g ... }
#define PROP(prop, name, q, t, rule) static void prop##_##name(pbt::Gen &); static pbt::Reg reg_##prop##_##name(#prop, #name, prop##_##name, q, t, rule); static void prop##_##name(pbt::Gen &g)
#define CHECK(cond, ...) do { if (!(cond)) pbt::failf(__VA_ARGS__); } while (0)
#endif
