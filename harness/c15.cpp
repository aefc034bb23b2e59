// C15: independent objects used by different threads do not influence each
// other.  The library is compiled with a scheduling point at every basic block
// (cov flavour); two real threads run under a scheduler that lets exactly one
// of them proceed and enumerates every schedule up to a preemption bound.  The
// harness itself and the standard library run atomically between scheduling
// points; locks, once flags and static-initialisation guards are taken over by
// the scheduler, so waiting for the other thread is a switch and never a hang.
#include "curves.h"
#include "mth.h"
#include <pthread.h>
#include <atomic>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <dlfcn.h>
#include <sys/personality.h>
using namespace vh;

namespace sched {
static int report_to = -1;                                                // who continues when a thread stops: -1 the scheduler, k thread k
static int word[3]; static pthread_t th[2]; static bool made = false;
static bool live[2]; static thread_local int self = -1; static uint64_t count[2]; static uint64_t limit = ~0ull;
static std::function<void()> body[2]; static vector<char> first_visit; static bool profile = false; static std::map<void*, int> seen; static thread_local bool inside = false;
static void wake(int k) { __atomic_store_n(&word[k + 1], 1, __ATOMIC_RELEASE); syscall(SYS_futex, &word[k + 1], FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
static void wait_for(int k) { while (!__atomic_load_n(&word[k + 1], __ATOMIC_ACQUIRE)) syscall(SYS_futex, &word[k + 1], FUTEX_WAIT_PRIVATE, 0, 0, 0, 0); __atomic_store_n(&word[k + 1], 0, __ATOMIC_RELAXED); }
static void* loop(void* a) { int k = (int)(intptr_t)a; while (true) { wait_for(k); self = k; body[k](); self = -1; live[k] = false; wake(report_to); } return nullptr; }
static void start(int k, std::function<void()> f) {
  if (!made) { made = true; for (int i = 0; i < 2; ++i) pthread_create(&th[i], nullptr, loop, (void*)(intptr_t)i); }
  body[k] = f; live[k] = true; count[k] = 0; }
// runs thread k for at most n points (0: to its end)
static void run(int k, uint64_t n) { if (!live[k]) return; limit = n ? count[k] + n : ~0ull; wake(k); wait_for(-1); }
// called by a thread that waits for the other: the other one proceeds by one block
static bool yield_wait() { if (self < 0) return false; int k = self; if (!live[1 - k]) { sched_yield(); return true; } uint64_t keep = limit; int rep = report_to; limit = count[1 - k] + 1; report_to = k; wake(1 - k); wait_for(k); limit = keep; report_to = rep; return true; }
}
extern "C" void __sanitizer_cov_trace_pc() {
  using namespace sched; if (self < 0 || inside) return; int k = self;
  if (profile) { inside = true; void* pc = __builtin_return_address(0); bool fresh = seen.emplace(pc, 1).second; first_visit.push_back(fresh); inside = false; }
  if (++count[k] >= limit) { wake(report_to); wait_for(k); }
}
// waiting for the other thread becomes a switch
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) { static int (*real)(pthread_mutex_t*) = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock"); if (sched::self < 0) return real(m); int r; while ((r = pthread_mutex_trylock(m)) == EBUSY) sched::yield_wait(); return r; }
extern "C" int pthread_rwlock_rdlock(pthread_rwlock_t* m) { static int (*real)(pthread_rwlock_t*) = (int (*)(pthread_rwlock_t*))dlsym(RTLD_NEXT, "pthread_rwlock_rdlock"); if (sched::self < 0) return real(m); int r; while ((r = pthread_rwlock_tryrdlock(m)) == EBUSY) sched::yield_wait(); return r; }
extern "C" int pthread_rwlock_wrlock(pthread_rwlock_t* m) { static int (*real)(pthread_rwlock_t*) = (int (*)(pthread_rwlock_t*))dlsym(RTLD_NEXT, "pthread_rwlock_wrlock"); if (sched::self < 0) return real(m); int r; while ((r = pthread_rwlock_trywrlock(m)) == EBUSY) sched::yield_wait(); return r; }
extern "C" int pthread_once(pthread_once_t* o, void (*f)(void)) { int* w = (int*)o; while (true) { if (*w == 2) return 0; if (*w == 0) { *w = 1; try { f(); } catch (...) { *w = 0; throw; } *w = 2; return 0; } if (!sched::yield_wait()) sched_yield(); } }
extern "C" int __cxa_guard_acquire(long long* g) { char* c = (char*)g; while (true) { if (c[0]) return 0; if (!c[1]) { c[1] = 1; return 1; } if (!sched::yield_wait()) sched_yield(); } }
extern "C" void __cxa_guard_release(long long* g) { char* c = (char*)g; c[1] = 0; __atomic_store_n(&c[0], (char)1, __ATOMIC_RELEASE); }
extern "C" void __cxa_guard_abort(long long* g) { ((char*)g)[1] = 0; }
// ---------------------------------------------------------------- programs
typedef vector<double> Out;
static void rec(Out& o, const Sink& k) { for (auto& c : k.out) { o.push_back(1e9); for (auto& e : c) for (auto& p : e.p) { o.push_back(p.x); o.push_back(p.y); } } }
struct Prog { const char* name; std::function<void(Out&)> run; };
static void clip_prog(Out& o, const Shape& S, const Shape& C, vector<std::pair<int, int>> what, bool text = false) {
  river::processor p; paths s, q; if (text) { s = river::make_path(str(S).c_str()); q = river::make_path(str(C).c_str()); } else { s = to_paths(S); q = to_paths(C); } p.add_path(s, path_type::subject); p.add_path(q, path_type::clip);
  for (auto& w : what) { Sink k; p.process((clip_type)w.first, (fill_rule)w.second, sink_funcs(), &k); rec(o, k); }
}
static vector<Prog> programs() {
  auto at_ = atoms();
  Shape tri = { poly({ {0,0},{4,1},{1,3} }) }, tri2 = { poly({ {2,-1},{3,4},{0,2} }) }, bow = { poly({ {0,0},{2,2},{2,0},{0,2} }) }, sq = { rectc(0,0,2,1,false) };
  Shape D = { at_[4] }, loop = { map(at_[6], Aff{ 0.9,0.2,-0.1,1.1,0.3,0.2 }) };
  return {
    { "triangles", [=](Out& o) { clip_prog(o, tri, tri2, { {1,1} }); } },
    { "bow tie and square", [=](Out& o) { clip_prog(o, bow, sq, { {4,0},{2,2} }); } },
    { "D and triangle", [=](Out& o) { clip_prog(o, D, { poly({ {-2,0.2},{2,0.4},{0.3,-3} }) }, { {3,1} }); } },
    { "two cubics", [=](Out& o) { clip_prog(o, D, loop, { {2,1} }); } },
    { "text", [=](Out& o) { for (const char* s : { "m 0 0 l 1.5 2 c 1 2 3 4 5 6", "l 3 4 m 1 1 l 2 2", "m 1 2 x", "" }) { paths p = river::make_path(s); Sink k; for (auto& q : p) q.traverse(sink_funcs(), &k); rec(o, k); } } },
    { "coinciding", [=](Out& o) { clip_prog(o, { rectc(0,0,2,2,false), rectc(2,1,4,3,false), at_[4] }, { rectc(1,0,3,2,true), rectc(0,2,2,4,false), reversed(at_[4]) }, { {2,1} }); } },
    { "text clip", [=](Out& o) { clip_prog(o, sq, tri2, { {1,3},{4,1} }, true); } },
    { "rmath", [=](Out& o) { bezier_cubic a{ {0,0},{1,2},{2,-1},{3,1} }, b{ {0,1},{1,-2},{2,2},{3,0} }; auto r = rmath::intersect(a, b, 25); o.push_back(r.count); for (int i = 0; i < r.count; ++i) { o.push_back(r.data[i].t0); o.push_back(r.data[i].t1); } auto l = rmath::intersect(rmath::line{ {-1,0.3},{4,0.5} }, a); o.push_back(l.count); for (int i = 0; i < l.count; ++i) o.push_back(l.data[i].t1); double ts[3] = { 0.2,0.5,0.7 }; bezier_cubic q[4]; a.split(ts, q, 3); for (auto& z : q) { o.push_back(z.p1.x); o.push_back(z.p2.y); } auto y = a.point_at_y(0.4); o.push_back(y.count); auto bb = a.get_boundary(); o.push_back(bb.max.y); auto e = rmath::resolv_cubic_equa(1, -6, 11, -6); o.push_back(e.count); for (int i = 0; i < e.count; ++i) o.push_back(e.data[i]); auto s = rmath::intersect({ 0,0 }, { 2,2 }, { 0,2 }, { 2,0 }); o.push_back(s.count); o.push_back(s.data[0].p.x); } },
  };
}
int main(int argc, char** argv) {
  { int per = personality(0xffffffff); if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && !getenv("VH_NOASLR") && personality(per | ADDR_NO_RANDOMIZE) != -1) { setenv("VH_NOASLR", "1", 1); execv("/proc/self/exe", argv); } } // same addresses in exploration and replay
  auto P = programs(); const int n = (int)P.size(); bool deep = thorough(); vector<Out> solo(n); vector<uint64_t> len(n); vector<vector<uint64_t>> uniq(n);
  // in a child, so that this process never runs the library: results alone, number of scheduling points, and those where a block is first visited
  { int pp[2]; if (pipe(pp)) return 2; pid_t pid = fork();
    auto put = [&](const void* d, size_t z) { const char* c = (const char*)d; while (z) { ssize_t w = write(pp[1], c, z); if (w <= 0) _exit(4); c += w; z -= w; } };
    if (!pid) { close(pp[0]); for (int k = 0; k < n; ++k) { Out o; P[k].run(o); solo[k] = o; }
      for (int k = 0; k < n; ++k) { Out o; sched::seen.clear(); sched::first_visit.clear(); sched::profile = true; sched::start(0, [&] { P[k].run(o); }); sched::run(0, 0); sched::profile = false; vector<uint64_t> u; for (size_t i = 0; i < sched::first_visit.size(); ++i) if (sched::first_visit[i]) u.push_back(i + 1); uint64_t z = solo[k].size(), l = sched::count[0], m = u.size(); put(&z, 8); put(solo[k].data(), z * 8); put(&l, 8); put(&m, 8); put(u.data(), m * 8); }
      _exit(0); }
    close(pp[1]); FILE* fp = fdopen(pp[0], "r"); bool ok = true; auto get = [&](void* d, size_t z) { if (z && ok && fread(d, 1, z, fp) != z) ok = false; };
    for (int k = 0; k < n && ok; ++k) { uint64_t z = 0, m = 0; get(&z, 8); solo[k].resize(z); get(solo[k].data(), z * 8); get(&len[k], 8); get(&m, 8); uniq[k].resize(m); get(uniq[k].data(), m * 8); }
    fclose(fp); int st; waitpid(pid, &st, 0); if (!ok) { // a program crashes even alone: that is for the explorer to find
      for (int k = 0; k < n; ++k) { solo[k].clear(); len[k] = 1; uniq[k] = { 1 }; } } }
  if (getenv("VH_SHOW")) for (int k = 0; k < n; ++k) printf("%s: %llu points, %d distinct\n", P[k].name, (unsigned long long)len[k], (int)uniq[k].size());
  auto judge = [=](Ctx& x, int a, int b, const Out& oa, const Out& ob, const string& s) { x.validated += 2; x.out(a * 64 + b); if (oa.size() != solo[a].size() || memcmp(oa.data(), solo[a].data(), oa.size() * 8)) x.fail(s + ": the first thread (" + P[a].name + ") gets another result than alone"); else if (ob.size() != solo[b].size() || memcmp(ob.data(), solo[b].data(), ob.size() * 8)) x.fail(s + ": the second thread (" + P[b].name + ") gets another result than alone"); };
  vector<Family> f; 
  if (len[0] == 0) { fprintf(stderr, "no scheduling points\n"); return 2; }
  // one preemption: every point of the first program, the second runs to its end there
  for (int a = 0; a < n; ++a) { uint64_t st = deep ? 1 : std::max<uint64_t>(1, len[a] / 20000); if (st > 1) st |= 1;
    f.push_back({ fmt("one-preemption %s", P[a].name), ((len[a] + st - 1) / st) * n, 500, [=](uint64_t i, Ctx& x) { int b = (int)(i % n); uint64_t k = (i / n) * st + 1; Out oa, ob; x.states++; x.transitions += 2; if (x.verbose) x.d(fmt("%s preempted after block %llu by all of %s", P[a].name, (unsigned long long)k, P[b].name));
      sched::start(0, [&] { P[a].run(oa); }); sched::start(1, [&] { P[b].run(ob); }); sched::run(0, k); sched::run(1, 0); sched::run(0, 0); judge(x, a, b, oa, ob, fmt("preempted after block %llu", (unsigned long long)k)); }, fmt("%s (%llu basic blocks) preempted at %s block by each of %d programs, which then run to their end", P[a].name, (unsigned long long)len[a], st == 1 ? "every" : fmt("every %d-th", (int)st).c_str(), n) }); }
  // the same from a cold start: nothing of the library has run in the process, so lazily initialised state is initialised under preemption
  for (int a = 0; a < n; ++a) { auto U = uniq[a]; f.push_back({ fmt("cold-start %s", P[a].name), U.size() * n, 1, [=](uint64_t i, Ctx& x) { int b = (int)(i % n); uint64_t k = U[i / n]; Out oa, ob; x.states++; x.transitions += 2; if (x.verbose) x.d(fmt("cold start, %s preempted after block %llu by all of %s", P[a].name, (unsigned long long)k, P[b].name));
      sched::start(0, [&] { P[a].run(oa); }); sched::start(1, [&] { P[b].run(ob); }); sched::run(0, k); sched::run(1, 0); sched::run(0, 0); judge(x, a, b, oa, ob, fmt("cold start, preempted after block %llu", (unsigned long long)k)); }, fmt("%s preempted at each of its %d distinct blocks by each of %d programs, every case in a process that has not used the library before", P[a].name, (int)U.size(), n) }); }
  // two preemptions at the first visits of blocks: a runs to point u, b to point v, a to its end, b to its end
  for (int a = 0; a < n; ++a) for (int b = a; b < n; ++b) { auto U = uniq[a], V = uniq[b]; uint64_t su = 1, sv = 1; uint64_t lim = deep ? 400000 : 12000; while ((U.size() / su) * (V.size() / sv) > lim) { if (U.size() / su > V.size() / sv) ++su; else ++sv; } uint64_t nu = (U.size() + su - 1) / su, nv = (V.size() + sv - 1) / sv;
    f.push_back({ fmt("two-preemptions %s | %s", P[a].name, P[b].name), nu * nv, 500, [=](uint64_t i, Ctx& x) { uint64_t u = U[(i % nu) * su], v = V[(i / nu) * sv]; Out oa, ob; x.states++; x.transitions += 3; if (x.verbose) x.d(fmt("%s to block %llu, %s to block %llu, then each to its end", P[a].name, (unsigned long long)u, P[b].name, (unsigned long long)v));
      sched::start(0, [&] { P[a].run(oa); }); sched::start(1, [&] { P[b].run(ob); }); sched::run(0, u); sched::run(1, v); sched::run(0, 0); sched::run(1, 0); judge(x, a, b, oa, ob, fmt("switches at blocks %llu and %llu", (unsigned long long)u, (unsigned long long)v)); }, fmt("both programs preempted at first visits of blocks (%d of %d and %d of %d)", (int)nu, (int)U.size(), (int)nv, (int)V.size()) }); }
  // round robin with every quantum
  for (int a = 0; a < n; ++a) { int mx = deep ? 3000 : 300; f.push_back({ fmt("round-robin %s", P[a].name), (uint64_t)mx * n, 50, [=](uint64_t i, Ctx& x) { int b = (int)(i % n); uint64_t q = i / n + 1; Out oa, ob; x.states++; if (x.verbose) x.d(fmt("%s and %s, switching every %llu blocks", P[a].name, P[b].name, (unsigned long long)q)); sched::start(0, [&] { P[a].run(oa); }); sched::start(1, [&] { P[b].run(ob); }); while (sched::live[0] || sched::live[1]) { sched::run(0, q); sched::run(1, q); x.transitions += 2; } judge(x, a, b, oa, ob, fmt("switching every %llu blocks", (unsigned long long)q)); }, fmt("strict alternation with every quantum from 1 to %d blocks", mx) }); }
  { // nesting: the second program runs inside a callback of the first (every callback in turn)
    struct Nest { Out* o; int at; std::function<void()> f; int n = 0; void hit() { if (n++ == at) f(); } }; auto at_ = atoms();
    static Shape S = { poly({ {0,0},{4,1},{1,3} }), map(at_[3], Aff{ 1,0,0,1,2,1 }) }, C = { poly({ {2,-1},{3,4},{0,2} }) };
    f.push_back({ "nested", (uint64_t)n * 60, 20, [=](uint64_t i, Ctx& x) { int b = (int)(i % n), at = (int)(i / n); Out ob; x.states++; x.transitions++; if (x.verbose) x.d(fmt("%s run inside callback %d", P[b].name, at)); auto go = [&](int at, Out& oa) { Nest ns{ &oa, at, [&] { P[b].run(ob); } }; river::path_traverse_funcs fn; 
        fn.move_to = [](path_moveto_func_para) { auto z = (Nest*)user; z->hit(); z->o->insert(z->o->end(), { 1,to.x,to.y }); }; fn.line_to = [](path_lineto_func_para) { auto z = (Nest*)user; z->hit(); z->o->insert(z->o->end(), { 2,from.x,from.y,to.x,to.y }); }; fn.cubic_to = [](path_cubicto_func_para) { auto z = (Nest*)user; z->hit(); z->o->insert(z->o->end(), { 3,from.x,from.y,ctrl1.x,ctrl2.y,to.x,to.y }); };
        struct Rd { const Shape* s; Nest* n; } rd{ &S, &ns }; river::processor p; p.add_path([](read_path_func_para) { auto r = (const Rd*)paths; point z(0, 0); for (auto& c : *r->s) { r->n->hit(); segment_funcs.move_to(z, c[0].p[0], user); for (auto& e : c) { r->n->hit(); if (e.cub) segment_funcs.cubic_to(e.p[0], e.p[1], e.p[2], e.p[3], user); else segment_funcs.line_to(e.p[0], e.p[3], user); z = e.p[3]; } } }, &rd, path_type::subject); auto q = to_paths(C); p.add_path(q, path_type::clip); p.process(clip_type::xor_, fill_rule::non_zero, fn, &ns); return ns.n; };
        Out base, nest; go(-1, base); ob.clear(); int total = go(at, nest); if (at >= total) { x.skipped++; return; } x.validated += 2; x.out(i); if (base.size() != nest.size() || memcmp(base.data(), nest.data(), base.size() * 8)) x.fail("the outer processor's result changed"); else if (ob != solo[b]) x.fail("the nested program gets another result than alone"); }, "each program run inside every read and write callback of another processor" }); }
  Options o; o.case_cpu = 30; o.as_limit = 0; return harness_main(argc, argv, f, o);
}
