// Exhaustive bounded explorer: every property harness is a list of finite
// families; a family is an index range [0,size) and a function that executes
// one case (one input / operation sequence / schedule) on the real library.
//
// Cases run in forked processes, `chunk` consecutive cases per process, so a
// crash, a hang or a runaway allocation is attributed to one case and every
// failure can be replayed: alone, or with the chunk prefix that preceded it.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <functional>
#include <string>
#include <vector>
#include <algorithm>
#include <map>
#include <set>
#include <csignal>
#include <ctime>
#include <cerrno>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>

namespace vh {
using std::string; using std::vector;

inline string fmt(const char* f, ...) {
  char buf[4096]; va_list ap; va_start(ap, f); int n = vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
  return string(buf, std::min<size_t>(n < 0 ? 0 : n, sizeof buf - 1));
}

struct Ctx {
  bool verbose = false;          // replay: describe the case
  bool stream = false;           // print the description as it is made (the case may crash)
  string desc;                   // description of the case (filled when verbose)
  uint64_t states = 0, transitions = 0, skipped = 0, validated = 0;
  uint64_t outcome = 0;          // hash of the observed outcome (distinct-outcome counting)
  bool failed = false; string msg;
  void fail(const string& m) { if (!failed) { failed = true; msg = m; } }
  void d(const string& s) { if (stream) { fputs(s.c_str(), stdout); fflush(stdout); } else if (verbose) desc += s; }
  void out(uint64_t h) { outcome = outcome * 1099511628211ull ^ (h + 0x9e3779b97f4a7c15ull); }
};

struct Family {
  string name;
  uint64_t size;
  uint32_t chunk;                // cases per process
  std::function<void(uint64_t, Ctx&)> run;
  string bound;                  // what is enumerated
};

enum { ST_RUN = 0, ST_DONE = 1, ST_FAIL = 2 };
constexpr int OUT_BITS = 1 << 16;
struct Slot {
  volatile uint64_t cur;
  volatile int state;
  uint64_t states, transitions, skipped, validated, cases;
  uint64_t fail_idx; char msg[2048];
};
struct Shared { unsigned char seen[OUT_BITS / 8]; };

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline void on_prof(int) { _exit(77); }
inline void arm(double s) { itimerval v{}; v.it_value.tv_sec = (long)s; v.it_value.tv_usec = (long)((s - (long)s) * 1e6); setitimer(ITIMER_PROF, &v, nullptr); }

struct Fail { string family; uint64_t first, idx; string kind, msg; };

struct Options { double case_cpu = 10, case_wall = 150; size_t as_limit = 4ull << 30; int max_fail = 3; bool close_err = true; std::function<void(const vector<string>&, Ctx&)> one; };

inline string jstr(const string& s) {
  string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) o += fmt("\\u%04x", c); else o += c; } return o + "\"";
}

inline void child(const Family& f, uint64_t a, uint64_t b, Slot* s, Shared* sh, const Options& o) {
  if (o.as_limit) { rlimit r{ o.as_limit, o.as_limit }; setrlimit(RLIMIT_AS, &r); }
  rlimit c{ 0, 0 }; setrlimit(RLIMIT_CORE, &c);
  signal(SIGPROF, on_prof);
  for (uint64_t i = a; i < b; ++i) {
    s->cur = i; arm(o.case_cpu);
    Ctx x; f.run(i, x);
    s->states += x.states; s->transitions += x.transitions; s->skipped += x.skipped; s->validated += x.validated; s->cases++;
    if (sh) { uint32_t h = (uint32_t)((x.outcome * 0x9e3779b97f4a7c15ull) >> 48); sh->seen[h >> 3] |= 1 << (h & 7); }
    if (x.failed) { s->fail_idx = i; snprintf(s->msg, sizeof s->msg, "%s", x.msg.c_str()); s->state = ST_FAIL; _exit(3); }
  }
  s->state = ST_DONE; _exit(0);
}

// runs [a,b) of f in a fresh process; returns true when everything held
inline bool run_range(const Family& f, uint64_t a, uint64_t b, const Options& o, string& kind, string& msg, uint64_t& idx) {
  Slot* s = (Slot*)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void*)s, 0, sizeof *s); fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (!p) child(f, a, b, s, nullptr, o);
  double t0 = now(); uint64_t last = ~0ull; int st = 0; bool killed = false;
  while (true) {
    pid_t r = waitpid(p, &st, WNOHANG); if (r == p) break;
    if (s->cur != last) { last = s->cur; t0 = now(); }
    if (now() - t0 > o.case_wall) { kill(p, SIGKILL); killed = true; waitpid(p, &st, 0); break; }
    usleep(2000);
  }
  idx = s->cur; bool ok = false; kind.clear();
  if (killed) { kind = "hang"; msg = "no progress (wall clock)"; }
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { kind = "hang"; msg = fmt("did not finish within %g s of CPU time", o.case_cpu); }
  else if (s->state == ST_FAIL) { kind = "property"; msg = s->msg; idx = s->fail_idx; }
  else if (s->state == ST_DONE) ok = true;
  else { kind = "crash"; msg = WIFSIGNALED(st) ? fmt("killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))) : fmt("process exited with status %d", WEXITSTATUS(st)); }
  munmap(s, sizeof(Slot)); return ok;
}

struct Stats { uint64_t states = 0, transitions = 0, skipped = 0, validated = 0, cases = 0; };

inline int explore(const vector<Family>& fams, const Options& o, int jobs, const char* outfile, double budget) {
  struct Job { pid_t pid = 0; int fam; uint64_t a, b; double t0; uint64_t last; };
  Slot* slots = (Slot*)mmap(nullptr, sizeof(Slot) * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  vector<Job> js(jobs); vector<Stats> st(fams.size()); vector<Fail> fails; vector<uint64_t> done(fams.size(), 0);
  size_t fi = 0; uint64_t next = 0; bool stop = false, enough = false; double start = now();
  auto collect = [&](int k, int status, bool wallkill) {
    Job& j = js[k]; Slot& s = slots[k]; Stats& t = st[j.fam];
    t.states += s.states; t.transitions += s.transitions; t.skipped += s.skipped; t.validated += s.validated; t.cases += s.cases;
    if (s.state == ST_DONE) { done[j.fam] += j.b - j.a; j.pid = 0; return; }
    Fail f; f.family = fams[j.fam].name; f.first = j.a; f.idx = s.state == ST_FAIL ? s.fail_idx : (uint64_t)s.cur;
    if (s.state == ST_FAIL) { f.kind = "property"; f.msg = s.msg; }
    else if (wallkill) { f.kind = "hang"; f.msg = "no progress (wall clock)"; }
    else if (WIFEXITED(status) && WEXITSTATUS(status) == 77) { f.kind = "hang"; f.msg = "CPU time limit"; }
    else { f.kind = "crash"; f.msg = WIFSIGNALED(status) ? fmt("signal %d (%s)", WTERMSIG(status), strsignal(WTERMSIG(status))) : fmt("exit status %d", WEXITSTATUS(status)); }
    fails.push_back(f); j.pid = 0;
    if ((int)fails.size() >= o.max_fail) stop = enough = true;
  };
  bool capped = false;
  while (true) {
    if (budget > 0 && now() - start > budget && !stop) { stop = true; capped = true; }
    if (enough) { for (auto& j : js) if (j.pid) { int status; kill(j.pid, SIGKILL); waitpid(j.pid, &status, 0); j.pid = 0; } break; }
    bool any = false;
    for (int k = 0; k < jobs; ++k) {
      Job& j = js[k];
      if (j.pid) {
        int status; pid_t r = waitpid(j.pid, &status, WNOHANG);
        if (r == j.pid) collect(k, status, false);
        else {
          any = true;
          if (slots[k].cur != j.last) { j.last = slots[k].cur; j.t0 = now(); }
          else if (now() - j.t0 > o.case_wall) { kill(j.pid, SIGKILL); waitpid(j.pid, &status, 0); collect(k, status, true); }
        }
      }
      if (!j.pid && !stop) {
        while (fi < fams.size() && next >= fams[fi].size) { ++fi; next = 0; }
        if (fi < fams.size()) {
          j.fam = (int)fi; j.a = next; j.b = std::min<uint64_t>(fams[fi].size, next + fams[fi].chunk); next = j.b;
          memset((void*)&slots[k], 0, sizeof(Slot)); j.t0 = now(); j.last = ~0ull; fflush(stdout); fflush(stderr);
          j.pid = fork();
          if (j.pid < 0) { j.pid = 0; next = j.a; usleep(20000); continue; }
          if (!j.pid) {
            if (o.close_err) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); dup2(fd, 1); }
            child(fams[j.fam], j.a, j.b, &slots[k], sh, o);
          }
          any = true;
        }
      }
    }
    if (!any) { if (stop) break; while (fi < fams.size() && next >= fams[fi].size) { ++fi; next = 0; } if (fi >= fams.size()) break; }
    usleep(300);
  }
  std::sort(fails.begin(), fails.end(), [&](const Fail& a, const Fail& b) { return a.idx < b.idx; });
  uint64_t outcomes = 0; for (unsigned char c : sh->seen) outcomes += __builtin_popcount(c);
  FILE* f = fopen(outfile, "w"); if (!f) return 2;
  fprintf(f, "{\"wall\":%.3f,\"capped\":%s,\"distinct_outcomes\":%llu,\"families\":[", now() - start, capped ? "true" : "false", (unsigned long long)outcomes);
  for (size_t i = 0; i < fams.size(); ++i)
    fprintf(f, "%s\n{\"name\":%s,\"bound\":%s,\"size\":%llu,\"completed\":%llu,\"cases\":%llu,\"states\":%llu,\"transitions\":%llu,\"skipped\":%llu,\"validated\":%llu}", i ? "," : "",
      jstr(fams[i].name).c_str(), jstr(fams[i].bound).c_str(), (unsigned long long)fams[i].size, (unsigned long long)done[i], (unsigned long long)st[i].cases,
      (unsigned long long)st[i].states, (unsigned long long)st[i].transitions, (unsigned long long)st[i].skipped, (unsigned long long)st[i].validated);
  fprintf(f, "],\"failures\":[");
  for (size_t i = 0; i < fails.size(); ++i)
    fprintf(f, "%s\n{\"family\":%s,\"first\":%llu,\"idx\":%llu,\"kind\":%s,\"msg\":%s}", i ? "," : "", jstr(fails[i].family).c_str(), (unsigned long long)fails[i].first,
      (unsigned long long)fails[i].idx, jstr(fails[i].kind).c_str(), jstr(fails[i].msg).c_str());
  fprintf(f, "],\"samples\":[");
  bool firsts = true;
  for (size_t i = 0; i < fams.size(); ++i) {
    if (!fams[i].size || !fails.empty()) continue;
    // describe one executed case of the family, in a child so that it cannot hurt us
    uint64_t idx = fams[i].size / 2; int pp[2]; if (pipe(pp)) continue; fflush(f);
    pid_t p = fork();
    if (!p) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); dup2(fd, 1); arm(o.case_cpu); signal(SIGPROF, on_prof); Ctx x; x.verbose = true; fams[i].run(idx, x); string s = x.desc.substr(0, 1200); ssize_t w = write(pp[1], s.data(), s.size()); (void)w; _exit(0); }
    close(pp[1]); string s; char buf[512]; ssize_t n; while ((n = read(pp[0], buf, sizeof buf)) > 0) s.append(buf, n); close(pp[0]); waitpid(p, nullptr, 0);
    fprintf(f, "%s\n%s", firsts ? "" : ",", jstr(fams[i].name + " #" + std::to_string(idx) + ": " + s).c_str()); firsts = false;
  }
  fprintf(f, "]}\n"); fclose(f);
  return 0;
}

// usage: prog explore OUT.json [jobs] [budget_s] | replay FAMILY FIRST IDX | describe FAMILY IDX | list
inline int harness_main(int argc, char** argv, const vector<Family>& fams, Options o = {}) {
  string mode = argc > 1 ? argv[1] : "";
  if (getenv("VH_MAXFAIL")) o.max_fail = atoi(getenv("VH_MAXFAIL"));
  auto find = [&](const string& n) -> const Family* { for (auto& f : fams) if (f.name == n) return &f; return nullptr; };
  if (mode == "list") { for (auto& f : fams) printf("%-28s %12llu  %s\n", f.name.c_str(), (unsigned long long)f.size, f.bound.c_str()); return 0; }
  if (mode == "explore") {
    int jobs = argc > 3 ? atoi(argv[3]) : 0; if (jobs <= 0) jobs = (int)sysconf(_SC_NPROCESSORS_ONLN);
    vector<Family> sel; const char* only = getenv("VH_ONLY");
    for (auto& f : fams) if (!only || f.name.find(only) != string::npos) sel.push_back(f);
    return explore(sel, o, jobs, argv[2], argc > 4 ? atof(argv[4]) : 0);
  }
  if (mode == "replay" && argc >= 5) {
    const Family* f = find(argv[2]); if (!f) { fprintf(stderr, "no family %s\n", argv[2]); return 2; }
    uint64_t a = strtoull(argv[3], nullptr, 10), i = strtoull(argv[4], nullptr, 10);
    Options oo = o; oo.case_cpu *= 2;
    string kind, msg; uint64_t idx;
    if (run_range(*f, a, i + 1, oo, kind, msg, idx)) { printf("HELD %s %llu..%llu\n", argv[2], (unsigned long long)a, (unsigned long long)i); return 0; }
    printf("FAILED %s case %llu [%s] %s\n", argv[2], (unsigned long long)idx, kind.c_str(), msg.c_str()); return 1;
  }
  if (mode == "describe" && argc >= 4) {
    const Family* f = find(argv[2]); if (!f) return 2; Ctx x; x.verbose = x.stream = true; signal(SIGPROF, on_prof); arm(o.case_cpu);
    f->run(strtoull(argv[3], nullptr, 10), x); printf("\n%s\n", x.failed ? ("FAILED " + x.msg).c_str() : "HELD"); return x.failed;
  }
  if (mode == "case" && o.one) { // one input given on the command line: 1 when it fails
    vector<string> a(argv + 2, argv + argc); Family f{ "case", 1, 1, [&](uint64_t, Ctx& x) { o.one(a, x); }, "" }; string kind, msg; uint64_t idx;
    int fd = dup(2), nl = open("/dev/null", O_WRONLY); dup2(nl, 2); bool ok = run_range(f, 0, 1, o, kind, msg, idx); dup2(fd, 2);
    printf(ok ? "HELD\n" : "FAILED [%s] %s\n", kind.c_str(), msg.c_str()); return ok ? 0 : 1;
  }
  fprintf(stderr, "usage\n"); return 2;
}

inline bool thorough() { const char* t = getenv("VERIF_TIER"); return t && !strcmp(t, "thorough"); }

// mixed-radix decoder
struct Dec { uint64_t v; explicit Dec(uint64_t x) : v(x) {} uint64_t operator()(uint64_t n) { uint64_t r = v % n; v /= n; return r; } };
}
