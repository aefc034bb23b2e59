// C14: no invalid memory access, no undefined arithmetic, no leak, no hang: the
// library runs under AddressSanitizer and UndefinedBehaviorSanitizer (asan
// flavour) on every case of the families; after everything is destroyed the
// number of allocated bytes is what it was before.
#include "curves.h"
#include "mth.h"
using namespace vh;
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" const char* __asan_default_options() { return "detect_leaks=0:allocator_may_return_null=0:hard_rss_limit_mb=3500:detect_stack_use_after_return=1:quarantine_size_mb=16:malloc_context_size=5"; }
struct Boom { int k; };
struct Counter { int left; uint64_t n; };
static void b_m(path_moveto_func_para) { auto c = (Counter*)user; c->n++; if (c->left-- == 0) throw Boom{ 1 }; }
static void b_l(path_lineto_func_para) { auto c = (Counter*)user; c->n++; if (c->left-- == 0) throw Boom{ 2 }; }
static void b_c(path_cubicto_func_para) { auto c = (Counter*)user; c->n++; if (c->left-- == 0) throw Boom{ 3 }; }

template<class F> static void balanced(Ctx& x, const char* what, F f) {
  size_t before = __sanitizer_get_current_allocated_bytes(); f(); size_t after = __sanitizer_get_current_allocated_bytes(); x.validated++;
  if (after != before) { // caches that are filled once are not leaks: only growth that repeats counts
    f(); size_t again = __sanitizer_get_current_allocated_bytes(); if (again > after) x.fail(fmt("%s: %lld bytes are still allocated after everything was destroyed", what, (long long)(again - after))); }
}
static void pair_case(const Shape& S, const Shape& C, Ctx& x, int mask) {
  x.states++;
  balanced(x, "add_path and process", [&] {
    auto s = to_paths(S), q = to_paths(C);
    for (int c = 0; c < 5; ++c) for (int f = 0; f < 4; ++f) { if (!(mask >> (c * 4 + f) & 1)) continue; river::processor p; p.add_path(s, path_type::subject); p.add_path(q, path_type::clip); Counter k{ -1, 0 }; river::path_traverse_funcs fn; fn.move_to = b_m; fn.line_to = b_l; fn.cubic_to = b_c; p.process((clip_type)c, (fill_rule)f, fn, &k); x.transitions++; x.out(k.n); }
    // several processes and both output forms on one processor, inputs destroyed before
    river::processor p; { auto s2 = to_paths(S); p.add_path(s2, path_type::subject); } { auto q2 = to_paths(C); p.add_path(q2, path_type::clip); }
    paths o; p.process(clip_type::xor_, fill_rule::even_odd, o); p.process(clip_type::union_, fill_rule::non_zero, o); p.add_path(s, path_type::clip); paths o2; p.process(clip_type::difference, fill_rule::positive, o2); x.transitions += 3;
  });
}
int main(int argc, char** argv) {
  vector<Family> f; bool deep = thorough();
  for (auto& p : line_families(deep)) { uint64_t lim = deep ? 600000 : 12000, st = std::max<uint64_t>(1, p.size / lim); while (st > 1 && (st % 2 == 0 || st % 3 == 0 || st % 5 == 0 || st % 11 == 0)) ++st;
    f.push_back({ p.name, (p.size + st - 1) / st, std::min<uint32_t>(p.chunk, 100), [p, st](uint64_t i, Ctx& x) { Shape S, C; p.make(i * st, S, C); describe_pair(x, S, C); pair_case(S, C, x, 0xfffff); }, p.bound + (st > 1 ? fmt("; every %d-th", (int)st) : "") + "; 5 operations x 4 fill rules, address and undefined-behaviour sanitizer, allocation balance" }); }
  for (auto& p : curve_families(false)) { uint64_t lim = deep ? 40000 : 6000, st = std::max<uint64_t>(1, p.size / lim); while (st > 1 && (st % 2 == 0 || st % 3 == 0 || st % 5 == 0)) ++st;
    f.push_back({ "curved-" + p.name, (p.size + st - 1) / st, p.chunk, [p, st](uint64_t i, Ctx& x) { Shape S, C; p.make(i * st, S, C); describe_pair(x, S, C); if (!judged(p, S, C)) { x.skipped++; return; } int op = 1 + i % 4; pair_case(S, C, x, 0xf << op * 4); }, p.bound + (st > 1 ? fmt("; every %d-th", (int)st) : "") }); }
  { // exceptions thrown by the caller's own callbacks, at every callback
    auto P = partners(); auto T = tris(2, true); uint64_t nt = T.size(), np = P.size();
    f.push_back({ "throwing-writer", nt * np, 20, [=](uint64_t i, Ctx& x) { Dec d(i); Shape S = { T[d(nt)] }, C = P[d(np)]; describe_pair(x, S, C); x.states++;
      for (int op = 1; op < 5; ++op) { uint64_t total = 0; { auto s = to_paths(S), q = to_paths(C); river::processor p; p.add_path(s, path_type::subject); p.add_path(q, path_type::clip); Counter k{ -1, 0 }; river::path_traverse_funcs fn; fn.move_to = b_m; fn.line_to = b_l; fn.cubic_to = b_c; p.process((clip_type)op, fill_rule::non_zero, fn, &k); total = k.n; }
        for (uint64_t at = 0; at < total; ++at) { balanced(x, "throwing callback", [&] { auto s = to_paths(S), q = to_paths(C); river::processor p; p.add_path(s, path_type::subject); p.add_path(q, path_type::clip); Counter k{ (int)at, 0 }; river::path_traverse_funcs fn; fn.move_to = b_m; fn.line_to = b_l; fn.cubic_to = b_c; bool thrown = false; try { p.process((clip_type)op, fill_rule::non_zero, fn, &k); } catch (const Boom&) { thrown = true; } if (!thrown) x.fail(fmt("the exception of callback %d did not reach the caller", (int)at)); k = { -1, 0 }; p.process((clip_type)op, fill_rule::non_zero, fn, &k); x.transitions += 2; if (k.n != total) x.fail(fmt("after an exception in callback %d process reports %d elements instead of %d", (int)at, (int)k.n, (int)total)); }); if (x.failed) return; } } }, "all triangles of the 3x3 grid against 8 clip shapes, 4 operations: an exception thrown from every single output callback in turn" }); }
  { // every prefix of an element stream, without moves, with repeated moves
    static const int K = 6; int D = deep ? 6 : 5;
    f.push_back({ "streams", ipow(K, D) * 2, 100, [D](uint64_t i, Ctx& x) { Dec d(i); bool asclip = d(2); vector<int> ops; for (int k = 0; k < D; ++k) ops.push_back((int)d(K)); x.states++; if (x.verbose) for (int o : ops) x.d(fmt("%d ", o));
      balanced(x, "element stream", [&] { paths v; v.emplace_back(); for (int k = 0; k < D; ++k) { point a(k % 3, (k * 2) % 5 * 0.7), b(2 - k % 2, k * 0.6); switch (ops[k]) { case 0: v[0].moveto(a); break; case 1: v[0].lineto(a); break; case 2: v[0].lineto(b); break; case 3: v[0].cubicto(a + point(0.3, 1.1), b - point(0.9, 0.4), b); break; case 4: v[0].lineto(0, 0); break; default: v[0].cubicto(b, b, a); } }
        paths t = river::make_path("m -1 -1 l 4 0.3 l 1.1 3.7"); river::processor p; p.add_path(v, asclip ? path_type::clip : path_type::subject); paths o; p.process(clip_type::union_, fill_rule::even_odd, o); p.add_path(t, asclip ? path_type::subject : path_type::clip); p.process(clip_type::intersection, fill_rule::non_zero, o); p.process(clip_type::xor_, fill_rule::negative, o); x.transitions += 3; x.out(o.size()); }); }, fmt("all streams of %d elements out of 6 (moves, lines, curves, degenerate curves, no leading move, repeated moves) as subject or clip", D) }); }
  { static const char al[] = "mlca 1.-e\n"; int D = deep ? 7 : 6;
    f.push_back({ "strings", ipow(10, D), 5000, [D](uint64_t i, Ctx& x) { Dec d(i); string s; for (int k = 0; k < D; ++k) s += al[d(10)]; x.states++; x.transitions++; if (x.verbose) x.d(s); balanced(x, "make_path", [&] { char* buf = new char[s.size() + 1]; memcpy(buf, s.c_str(), s.size() + 1); paths p = river::make_path(buf); x.out(p.size()); delete[] buf; }); }, fmt("make_path on all strings of length %d over 10 characters, in a buffer that ends with the string", D) }); }
  f.push_back({ "rmath", ipow(9, 4), 200, [](uint64_t i, Ctx& x) { Dec d(i); bezier_cubic b{ gpt(2, d(9)), gpt(2, d(9)), gpt(2, d(9)), gpt(2, d(9)) }; x.states++; if (x.verbose) x.d(bs(b));
      balanced(x, "rmath", [&] { for (int m : { 0, 5, 8 }) { bezier_cubic c = bmap(b, amap(m)); auto r = c.get_boundary(); double t[2]; int n = c.split_y(t, t + 1); (void)n; vector<double> ts; for (int k = 1; k < 6; ++k) { ts.push_back(k / 6.0); vector<bezier_cubic> out(ts.size() + 1); c.split(ts.data(), out.data(), ts.size()); } auto q = c.point_at_y((c.p0.y + c.p2.y) / 2); auto l = rmath::intersect(rmath::line{ c.p1 + vec2(0.1, 0), c.p3 - vec2(0.3, 0.2) }, c); rmath::cubic_intersect_result z; if (m == 0) z = rmath::intersect(c, bezier_cubic{ c.p1, c.p0 + vec2(0.5, 0.25), c.p3, c.p2 + vec2(-0.3, 1) }, 12 + (int)(i % 14)); auto s = rmath::intersect(c.p0, c.p1, c.p2, c.p3); x.transitions += 10; x.out(q.count * 100 + l.count * 10 + z.count + s.count * 1000 + (r.min.x > 0)); } }); }, "every rmath entry point on all cubics of the 3x3 grid under 3 maps, exactly sized output arrays" });
  Options o; o.case_cpu = 60; o.case_wall = 400; o.as_limit = 0; return harness_main(argc, argv, f, o);
}
