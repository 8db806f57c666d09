#include <mpi.h>
#include "pbt.hpp"
#include "mfem.hpp"
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <set>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <ftw.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>

using namespace pbt;

// The code under test seeds its generator from std::random_device: a fixed device makes every run repeatable.
namespace std { random_device::result_type random_device::_M_getval() { return 20240229u; } }

namespace pbt
{
Watch *watch = NULL;
std::vector<Test> &tests() { static std::vector<Test> t; return t; }
void fail(const std::string &m) { throw Failure{ m }; }
void failf(const char *fmt, ...) { char b[4096]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); throw Failure{ b }; }
static std::string scratch_root, scratch_cur; static bool scratch_used = false;
static int rm_cb(const char *p, const struct stat *, int, struct FTW *) { return remove(p); }
static void wipe(const std::string &d) { nftw(d.c_str(), rm_cb, 16, FTW_DEPTH | FTW_PHYS); }
std::string scratch()
{
   if (!scratch_used) { mkdir(scratch_cur.c_str(), 0700); scratch_used = true; }
   return scratch_cur;
}
}

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static std::string esc(const std::string &s)
{
   std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
   return o;
}
static uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); }
static uint64_t hashs(const char *s) { uint64_t h = 1469598103934665603ull; while (*s) { h ^= (unsigned char) *s++; h *= 1099511628211ull; } return h; }

// one case; true = held. A discarded case counts as held.
static bool run_case(const Test &t, Gen &g, std::string &msg, bool &discarded)
{
   discarded = false; bool ok = true;
   try { t.fn(g); }
   catch (Failure &f) { ok = false; msg = f.msg; }
   catch (Discard &) { discarded = true; }
   catch (std::exception &e) { ok = false; msg = std::string("exception: ") + e.what(); }
   catch (...) { ok = false; msg = "unknown exception"; }
   if (scratch_used) { if (chdir("/")) {} wipe(scratch_cur); scratch_used = false; }
   return ok;
}

struct Shared { volatile long cur; volatile int state; volatile int fail; char msg[8192]; Watch w; };  // state: 0 running 1 done
static Shared *shm_new() { void *p = mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); return (Shared *) p; }
static void quiet(const std::string &errfile)
{
   int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); close(fd);
   fd = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd >= 0) { dup2(fd, 2); close(fd); }
}
static std::string tail(const std::string &f)
{
   FILE *p = fopen(f.c_str(), "r"); if (!p) return ""; std::string s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0) s.append(b, n); fclose(p);
   size_t a = s.find("ERROR: AddressSanitizer"); if (a == std::string::npos) a = s.find("Assertion"); if (a == std::string::npos) a = s.find("runtime error");
   if (a != std::string::npos) { size_t st = s.rfind('\n', a); s = s.substr(st == std::string::npos ? 0 : st + 1, 1500); }
   else if (s.size() > 1500) s = s.substr(s.size() - 1500);
   return s;
}
static const int CASE_LIMIT = 120; // s; a case takes seconds at most, so more means it hangs

// run one draw sequence in a child; true = failed
static bool fails(const Test &t, const std::vector<uint64_t> &c, std::string &msg, std::vector<uint64_t> *used = NULL, std::string *note = NULL)
{
   Shared *s = shm_new(); std::string err = scratch_root + "/shrink.err";
   fflush(NULL);
   pid_t p = fork();
   if (!p)
   {
      quiet(err); alarm(CASE_LIMIT); scratch_cur = scratch_root + "/shrink"; watch = &s->w;
      Gen g(c); std::string m; bool d; bool ok = run_case(t, g, m, d);
      s->fail = !ok; snprintf(s->msg, sizeof s->msg, "%s", m.c_str());
      s->state = 1; _exit(0);
   }
   int st; waitpid(p, &st, 0);
   bool r;
   if (s->state == 1) { r = s->fail; msg = s->msg; }
   else { r = true; char b[64]; snprintf(b, 64, WIFSIGNALED(st) ? "killed by signal %d: " : "exited with %d: ", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)); msg = b + tail(err); }
   if (note) *note = std::string(s->w.text, s->w.len);
   if (used) { used->clear(); for (size_t i = 0; i < s->w.used && i < 50000; i++) used->push_back(s->w.val[i]); }
   munmap(s, sizeof(Shared)); wipe(scratch_root + "/shrink");
   return r;
}

static std::vector<uint64_t> shrink(const Test &t, std::vector<uint64_t> c, std::string &msg, std::string &note, double budget, int &steps)
{
   double t0 = now(); std::string m, n; std::vector<uint64_t> u; steps = 0;
   auto better = [&](const std::vector<uint64_t> &d) { steps++; if (fails(t, d, m, &u, &n)) { c = u; msg = m; note = n; return true; } return false; };
   if (!fails(t, c, m, &u, &n)) { c = u; note = n; return c; }   // not reproducible: the caller finds out by replaying
   c = u; msg = m; note = n;
   bool prog = true;
   while (prog && now() - t0 < budget)
   {
      prog = false;
      for (size_t k = std::max<size_t>(1, c.size() / 2); k >= 1 && now() - t0 < budget; k /= 2)
         for (size_t i = 0; i + k <= c.size() && now() - t0 < budget;)
         { std::vector<uint64_t> d(c); d.erase(d.begin() + i, d.begin() + i + k); if (better(d)) prog = true; else i += k; }
      for (size_t i = 0; i < c.size() && now() - t0 < budget; i++)
      {
         if (!c[i]) continue;
         std::vector<uint64_t> d(c); d[i] = 0; if (better(d)) { prog = true; continue; }
         uint64_t lo = 0, hi = c[i]; // binary search for the smallest failing value
         while (hi - lo > 1 && now() - t0 < budget) { uint64_t mid = lo + (hi - lo) / 2; std::vector<uint64_t> d2(c); if (i >= d2.size()) break; d2[i] = mid; if (better(d2)) { hi = mid; prog = true; } else lo = mid; }
      }
   }
   return c;
}

static void write_replay(const std::string &f, const Test &t, const std::vector<uint64_t> &c, const std::string &msg, const std::string &note, uint64_t seed, long idx)
{
   FILE *p = fopen(f.c_str(), "w"); if (!p) { perror(f.c_str()); return; }
   fprintf(p, "property %s\ntest %s\nseed %llu\ncase %ld\nchoices", t.property, t.name, (unsigned long long) seed, idx);
   for (uint64_t v : c) fprintf(p, " %llu", (unsigned long long) v);
   fprintf(p, "\nnote %s\nmessage %s\n", esc(note).c_str(), esc(msg).c_str()); fclose(p);
}

int main(int argc, char **argv)
{
   std::string mode = argc > 1 ? argv[1] : "";
   std::map<std::string, std::string> o; for (int i = 2; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
   if (mode == "list") { for (auto &t : tests()) printf("%s %s %d %d\n", t.property, t.name, t.quick, t.thorough); return 0; }
   char tmpl[] = "/tmp/pbtXXXXXX"; if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 3; } scratch_root = tmpl;
   int prov; MPI_Init_thread(NULL, NULL, MPI_THREAD_SINGLE, &prov);
   int rc = 0;
   const Test *t = NULL; for (auto &x : tests()) if (o["--test"] == x.name && o["--property"] == x.property) t = &x;
   if (mode == "replay")
   {
      FILE *p = fopen(o["--file"].c_str(), "r"); if (!p) { perror("replay"); return 3; }
      std::string prop, name; std::vector<uint64_t> c; char *line = NULL; size_t cap = 0;
      while (getline(&line, &cap, p) > 0)
      {
         std::istringstream is(line); std::string k; is >> k;
         if (k == "property") is >> prop; else if (k == "test") is >> name; else if (k == "choices") { uint64_t v; while (is >> v) c.push_back(v); }
      }
      fclose(p);
      for (auto &x : tests()) if (name == x.name && prop == x.property) t = &x;
      if (!t) { printf("no such test\n"); return 3; }
      int n = o.count("--times") ? atoi(o["--times"].c_str()) : 1, bad = 0; std::string m, note;
      for (int i = 0; i < n && bad < 2; i++) if (fails(*t, c, m, NULL, &note)) bad++;
      printf("{\"fails\": %d, \"of\": %d, \"message\": \"%s\", \"note\": \"%s\"}\n", bad, n, esc(m).c_str(), esc(note).c_str());
      rc = bad ? 1 : 0;
   }
   else if (mode == "run")
   {
      if (!t) { fprintf(stderr, "no such test\n"); return 3; }
      uint64_t seed = strtoull(o["--seed"].c_str(), NULL, 10); long n = atol(o["--n"].c_str()); int W = atoi(o["--workers"].c_str()); double tl = atof(o["--time"].c_str());
      std::vector<Shared *> sh(W); std::vector<pid_t> pid(W, 0); double t0 = now();
      for (int w = 0; w < W; w++)
      {
         sh[w] = shm_new(); sh[w]->cur = -1; fflush(NULL);
         pid[w] = fork();
         if (!pid[w])
         {
            quiet(scratch_root + "/w" + std::to_string(w) + ".err"); scratch_cur = scratch_root + "/w" + std::to_string(w);
            long done = 0, nt = 0, disc = 0; std::set<uint64_t> seen; std::map<std::string, long> lab; std::vector<std::string> samples; bool bad = false; double maxc = 0;
            for (long i = w; i < n && now() - t0 < tl; i += W)
            {
               sh[w]->cur = i; alarm(CASE_LIMIT); double c0 = now();
               Gen g(mix(mix(seed, hashs(t->name)), i)); std::string m; bool d; bool ok = run_case(*t, g, m, d);
               maxc = std::max(maxc, now() - c0);
               if (!ok) { snprintf(sh[w]->msg, sizeof sh[w]->msg, "%s", m.c_str()); sh[w]->fail = 1; bad = true; break; }
               if (d) { disc++; continue; }
               done++;
               uint64_t h = 7; for (uint64_t v : g.choices()) h = mix(h, v);
               if (g.nontrivial && seen.insert(h).second) { nt++; if (samples.size() < 2) samples.push_back(g.text()); }
               for (auto &l : g.labels) lab[l.first] += l.second;
            }
            FILE *f = fopen((scratch_root + "/w" + std::to_string(w) + ".out").c_str(), "w");
            fprintf(f, "%ld %ld %ld %.3f\n", done, nt, disc, maxc);
            for (uint64_t h : seen) fprintf(f, "H %llu\n", (unsigned long long) h);
            for (auto &l : lab) fprintf(f, "L %ld %s\n", l.second, l.first.c_str());
            for (auto &s : samples) fprintf(f, "S %s\n", esc(s).c_str());
            fclose(f);
            if (!bad) sh[w]->state = 1;
            _exit(0);
         }
      }
      long best = -1; int bw = -1; std::string bmsg;
      for (int k = 0; k < W; k++)
      {
         int st; pid_t p = wait(&st); int w = std::find(pid.begin(), pid.end(), p) - pid.begin(); if (w >= W) { k--; continue; }
         if (sh[w]->state == 1) continue;
         std::string m = sh[w]->fail ? std::string(sh[w]->msg) : std::string(WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) : "exited with " + std::to_string(WEXITSTATUS(st))) + ": " + tail(scratch_root + "/w" + std::to_string(w) + ".err");
         if (best < 0 || sh[w]->cur < best) { best = sh[w]->cur; bw = w; bmsg = m; }
         tl = 0; for (int v = 0; v < W; v++) if (v != w && sh[v]->state != 1 && !sh[v]->fail) {} // the others finish on their own
      }
      (void) bw;
      long done = 0, disc = 0; std::set<uint64_t> seen; std::map<std::string, long> lab; std::vector<std::string> samples; double maxc = 0;
      for (int w = 0; w < W; w++)
      {
         FILE *f = fopen((scratch_root + "/w" + std::to_string(w) + ".out").c_str(), "r"); if (!f) continue;
         char *line = NULL; size_t cap = 0; long a, b, c; double mc;
         if (getline(&line, &cap, f) > 0 && sscanf(line, "%ld %ld %ld %lf", &a, &b, &c, &mc) == 4) { done += a; disc += c; maxc = std::max(maxc, mc); }
         while (getline(&line, &cap, f) > 0)
         {
            std::string s(line); if (!s.empty() && s.back() == '\n') s.pop_back();
            if (s[0] == 'H') seen.insert(strtoull(s.c_str() + 2, NULL, 10));
            else if (s[0] == 'L') { char *e; long v = strtol(s.c_str() + 2, &e, 10); lab[e + 1] += v; }
            else if (s[0] == 'S' && samples.size() < 3) samples.push_back(s.substr(2));
         }
         fclose(f);
      }
      printf("{\"property\": \"%s\", \"test\": \"%s\", \"requested\": %ld, \"evaluations\": %ld, \"discarded\": %ld, \"distinct_nontrivial\": %zu, \"max_case_s\": %.2f, \"wall_s\": %.2f, \"rule\": \"%s\", \"labels\": {", t->property, t->name, n, done + (best >= 0), disc, seen.size(), maxc, now() - t0, esc(t->rule).c_str());
      bool first = true; for (auto &l : lab) { printf("%s\"%s\": %ld", first ? "" : ", ", esc(l.first).c_str(), l.second); first = false; }
      printf("}, \"samples\": ["); for (size_t i = 0; i < samples.size(); i++) printf("%s\"%s\"", i ? ", " : "", samples[i].c_str());
      printf("]");
      if (best >= 0)
      {
         // the draws of a case are its generator's outputs reduced modulo the bounds asked for
         std::vector<uint64_t> c; std::mt19937_64 r(mix(mix(seed, hashs(t->name)), best)); for (int i = 0; i < 50000; i++) c.push_back(r());
         std::string msg = bmsg, note; int steps = 0; double budget = o.count("--shrink") ? atof(o["--shrink"].c_str()) : 60;
         if (bmsg.find("killed by signal 14") == 0) budget = 0;   // a hang: do not search further
         c = shrink(*t, c, msg, note, budget, steps);
         while (!c.empty() && c.back() == 0) c.pop_back();
         write_replay(o["--replay"], *t, c, msg, note, seed, best);
         printf(", \"failure\": {\"case\": %ld, \"message\": \"%s\", \"first_message\": \"%s\", \"note\": \"%s\", \"draws\": %zu, \"shrink_steps\": %d}", best, esc(msg).c_str(), esc(bmsg).c_str(), esc(note).c_str(), c.size(), steps);
         rc = 1;
      }
      printf("}\n");
   }
   else { fprintf(stderr, "usage: list | run --property P --test T --seed S --n N --workers W --time T --replay F | replay --file F\n"); rc = 3; }
   fflush(NULL); wipe(scratch_root); _exit(rc);
}

// An error exit of the code under test ends the (forked) case at once; Open MPI's own would wait for its daemon.
extern "C" int MPI_Abort(MPI_Comm, int) { fflush(stdout); fflush(stderr); abort(); }
