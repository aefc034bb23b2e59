// C18: the same calls give the same output, bit for bit, whatever the addresses,
// the initial contents of memory and the stack, and whatever ran before.
#include "alloc.h"
#include "curves.h"
#include "mth.h"
using namespace vh;
// output recorded without allocating inside the run: plain buffers
struct Rec { double v[1 << 16]; size_t n = 0; bool over = false; void put(double d) { if (n < (1 << 16)) v[n++] = d; else over = true; } };
static void r_m(path_moveto_func_para) { auto r = (Rec*)user; r->put(1e9); r->put(to.x); r->put(to.y); }
static void r_l(path_lineto_func_para) { auto r = (Rec*)user; r->put(2e9); r->put(from.x); r->put(from.y); r->put(to.x); r->put(to.y); }
static void r_c(path_cubicto_func_para) { auto r = (Rec*)user; r->put(3e9); for (auto* p : { &from, &ctrl1, &ctrl2, &to }) { r->put(p->x); r->put(p->y); } }
static river::path_traverse_funcs fn() { river::path_traverse_funcs f; f.move_to = r_m; f.line_to = r_l; f.cubic_to = r_c; return f; }
static void __attribute__((noinline)) dirty_stack(int b) { volatile unsigned char s[1 << 16]; for (size_t i = 0; i < sizeof s; ++i) s[i] = (unsigned char)b; }
static void read_shape(read_path_func_para) { auto s = (const Shape*)paths; point z(0, 0); for (auto& c : *s) { if (c.empty()) continue; segment_funcs.move_to(z, c[0].p[0], user); for (auto& e : c) { if (e.cub) segment_funcs.cubic_to(e.p[0], e.p[1], e.p[2], e.p[3], user); else segment_funcs.line_to(e.p[0], e.p[3], user); z = e.p[3]; } } }
static void run(const Shape& S, const Shape& C, int c, int f, const va::Env& e, int st, Rec& r) {
  va::begin(e); dirty_stack(st); r.n = 0;
  { river::processor p; p.add_path(read_shape, &S, path_type::subject); p.add_path(read_shape, &C, path_type::clip); p.process((clip_type)c, (fill_rule)f, fn(), &r); }
  va::end();
}
static void envs(const Shape& S, const Shape& C, Ctx& x, int ops, int fills) {
  static Rec* a = new Rec; static Rec* b = new Rec; x.states++;
  for (int c = 1; c < 5; ++c) for (int f = 0; f < 4; ++f) { if (!(ops >> c & 1) || !(fills >> f & 1)) continue;
    run(S, C, c, f, { 0,0 }, 0, *a); uint64_t h = a->n; for (size_t i = 0; i < a->n; ++i) { uint64_t k; memcpy(&k, &a->v[i], 8); h = h * 1099511628211ull ^ k; } x.out(h); if (a->over) { x.skipped++; continue; }
    for (int o = 0; o < 5; ++o) for (int fl = 0; fl < 4; ++fl) { run(S, C, c, f, { o, fl }, fl == 1 ? 0xff : fl == 2 ? 0x5a : fl == 3 ? 0x7f : 0, *b); x.transitions++; x.validated++;
      if (a->n != b->n || memcmp(a->v, b->v, a->n * 8)) { size_t i = 0; while (i < a->n && i < b->n && a->v[i] == b->v[i]) ++i; x.fail(fmt("%s/%s: the output depends on memory (address order %d, contents %d): %d values against %d, first difference at %d: %.17g / %.17g", opname(c), fillname(f), o, fl, (int)a->n, (int)b->n, (int)i, i < a->n ? a->v[i] : 0., i < b->n ? b->v[i] : 0.)); return; } } }
}
int main(int argc, char** argv) {
  vector<Family> f; bool deep = thorough();
  for (auto& p : line_families(deep)) { uint64_t lim = deep ? 300000 : 30000, st = std::max<uint64_t>(1, p.size / lim); while (st > 1 && (st % 2 == 0 || st % 3 == 0 || st % 5 == 0 || st % 11 == 0)) ++st;
    f.push_back({ p.name, (p.size + st - 1) / st, std::min<uint32_t>(p.chunk, 100), [p, st](uint64_t i, Ctx& x) { Shape S, C; p.make(i * st, S, C); describe_pair(x, S, C); envs(S, C, x, 2 << i % 4, 1 << (i / 4) % 4); }, p.bound + (st > 1 ? fmt("; every %d-th", (int)st) : "") + "; 5 address orders x 4 initial contents, operation and fill rule in rotation" }); }
  for (auto& p : curve_families(false)) { uint64_t lim = deep ? 40000 : 4000, st = std::max<uint64_t>(1, p.size / lim); while (st > 1 && (st % 2 == 0 || st % 3 == 0 || st % 5 == 0)) ++st;
    f.push_back({ "curved-" + p.name, (p.size + st - 1) / st, p.chunk, [p, st](uint64_t i, Ctx& x) { Shape S, C; p.make(i * st, S, C); describe_pair(x, S, C); if (!judged(p, S, C)) { x.skipped++; return; } envs(S, C, x, 2 << i % 4, 1 << (i / 4) % 4); }, p.bound + (st > 1 ? fmt("; every %d-th", (int)st) : "") }); }
  { // text and rmath in every environment
    f.push_back({ "text", 6 * 6 * 6 * 6, 50, [](uint64_t i, Ctx& x) { static Rec* a = new Rec; static Rec* b = new Rec; static const char* W[] = { "m 0.25 1 ", "l 1.5 -2 ", "c 1 2 3 4 5 6 ", "a 1 2 3 4", "x", "\n" }; Dec d(i); char s[128]; s[0] = 0; for (int k = 0; k < 4; ++k) strcat(s, W[d(6)]); x.states++; if (x.verbose) x.d(s);
      auto go = [&](const va::Env& e, int st, Rec& r) { va::begin(e); dirty_stack(st); r.n = 0; { river::paths p = river::make_path(s); for (auto& q : p) { r.put(7e9); q.traverse(fn(), &r); } } va::end(); };
      go({ 0,0 }, 0, *a); for (int o = 0; o < 5; ++o) for (int fl = 0; fl < 4; ++fl) { go({ o,fl }, fl * 0x55, *b); x.transitions++; x.validated++; if (a->n != b->n || memcmp(a->v, b->v, a->n * 8)) { x.fail(fmt("make_path depends on memory (address order %d, contents %d)", o, fl)); return; } } x.out(a->n); }, "all documents of 4 words out of 6; 5 address orders x 4 initial contents" });
    f.push_back({ "rmath", ipow(9, 4), 50, [](uint64_t i, Ctx& x) { static Rec* a = new Rec; static Rec* b = new Rec; Dec d(i); bezier_cubic c{ gpt(2, d(9)), gpt(2, d(9)), gpt(2, d(9)), gpt(2, d(9)) }; x.states++; if (x.verbose) x.d(bs(c));
      auto go = [&](const va::Env& e, int st, Rec& r) { va::begin(e); dirty_stack(st); r.n = 0; { double t[2] = { 0,0 }; int n = c.split_y(t, t + 1); r.put(n); for (int k = 0; k < n; ++k) r.put(t[k]); auto bb = c.get_boundary(); r.put(bb.min.x); r.put(bb.min.y); r.put(bb.max.x); r.put(bb.max.y); auto y = c.point_at_y(0.63); r.put(y.count); for (int k = 0; k < y.count; ++k) r.put(y.t[k]); double ts[3] = { 0.2,0.5,0.7 }; bezier_cubic q[4]; c.split(ts, q, 3); for (auto& z : q) for (auto* p : { &z.p0,&z.p1,&z.p2,&z.p3 }) { r.put(p->x); r.put(p->y); }
          auto l = rmath::intersect(rmath::line{ c.p1 + vec2(0.1, 0), c.p3 - vec2(0.3, 0.2) }, c); r.put(l.count); for (int k = 0; k < l.count; ++k) { r.put(l.data[k].t0); r.put(l.data[k].t1); r.put(l.data[k].p.x); r.put(l.data[k].p.y); }
          auto z = rmath::intersect(c, bezier_cubic{ c.p1, c.p0 + vec2(0.5, 0.25), c.p3, c.p2 + vec2(-0.3, 1) }, 20); r.put(z.count); for (int k = 0; k < z.count; ++k) { r.put(z.data[k].t0); r.put(z.data[k].t1); r.put(z.data[k].p.x); }
          auto s = rmath::intersect(c.p0, c.p1, c.p2, c.p3); r.put(s.count); for (int k = 0; k < s.count; ++k) { r.put(s.data[k].t0); r.put(s.data[k].p.x); } auto e3 = rmath::resolv_cubic_equa(c.p0.x, c.p1.x, c.p2.x, c.p3.x); r.put(e3.count); for (int k = 0; k < e3.count; ++k) r.put(e3.data[k]); } va::end(); };
      go({ 0,0 }, 0, *a); for (int o = 0; o < 5; o += 2) for (int fl = 0; fl < 4; ++fl) { go({ o,fl }, fl * 0x55, *b); x.transitions++; x.validated++; if (a->n != b->n || memcmp(a->v, b->v, a->n * 8)) { x.fail(fmt("an rmath result depends on memory (address order %d, contents %d)", o, fl)); return; } } x.out(a->n); }, "rmath entry points on all cubics of the 3x3 grid; 3 address orders x 4 initial contents" }); }
  { // whatever ran before: every ordered pair of programs, the second compared with itself in a process of its own
    struct Job { Shape S, C; int c, f; }; static vector<Job> J; auto A = atoms(); auto P = partners(); auto T = tris(2, true);
    for (int k = 0; k < 96; ++k) { Job j; if (k % 3 == 0) { j.S = { A[k / 3 % A.size()] }; j.C = { map(A[(k / 3 * 5 + 1) % A.size()], Aff{ 1,0.1,0,1,0.31,0.17 }) }; } else if (k % 3 == 1) { j.S = { T[k * 5 % T.size()], T[k * 11 % T.size()] }; j.C = P[k % P.size()]; } else { j.S = P[k % P.size()]; j.C = { map(A[k % A.size()], Aff{ 1,0,0.2,0.9,0.13,0.07 }) }; } j.c = 1 + k % 4; j.f = k / 4 % 4; J.push_back(j); }
    static const int nj = deep ? 96 : 96;
    f.push_back({ "after-another", (uint64_t)nj * nj, 1, [](uint64_t i, Ctx& x) { static Rec* a = new Rec; static Rec* b = new Rec; const Job& p = J[i % nj]; const Job& q = J[i / nj]; x.states++; if (x.verbose) { x.d("first "); describe_pair(x, p.S, p.C); x.d(" then "); describe_pair(x, q.S, q.C); }
      auto go = [&](const Job& j, Rec& r) { r.n = 0; river::processor pr; pr.add_path(read_shape, &j.S, path_type::subject); pr.add_path(read_shape, &j.C, path_type::clip); pr.process((clip_type)j.c, (fill_rule)j.f, fn(), &r); };
      Rec* sh = (Rec*)mmap(nullptr, sizeof(Rec), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); pid_t c = fork(); if (!c) { go(q, *sh); _exit(0); } int st; waitpid(c, &st, 0); if (st) { x.fail("the second computation alone crashes"); return; }
      go(p, *a); go(q, *b); x.transitions += 3; x.validated++; x.out(b->n); if (sh->n != b->n || memcmp(sh->v, b->v, b->n * 8)) x.fail(fmt("%s/%s gives another output (%d values instead of %d) after another computation than in a fresh process", opname(q.c), fillname(q.f), (int)b->n, (int)sh->n)); munmap(sh, sizeof(Rec)); }, "every ordered pair of 96 computations (curves, triangles, mixed): the second one compared with its result in a process that has computed nothing before" }); }
  Options o; o.case_cpu = 20; o.case_wall = 150; o.as_limit = 8ull << 30; return harness_main(argc, argv, f, o);
}
