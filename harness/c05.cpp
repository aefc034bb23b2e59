// C05: histories of one processor (adds and processes in any order) and
// interleaved histories of two processors.  Model: the state of a processor is
// the multiset of shapes added so far; process() reports the region the
// operation defines on that state and changes nothing.
#include "curves.h"
using namespace vh;

struct Op { int kind; int a, b; };     // 0 add subject shape a, 1 add clip shape a, 2 process op a fill b with callbacks, 3 the same into paths
static vector<Shape> menu() {
  return { { rectc(0,0,4,3,false) }, { poly({ {1,-1},{5,1.5},{2,4} }) }, { rectc(1,1,3,2,true) }, { map(circ(1), Aff{ 1.3,0,0,1.1,2.35,1.63 }) }, { poly({ {-1,-0.5},{3.5,4.2},{4.4,-0.7},{-0.6,3.4} }) }, { rectc(2,1,6,3,false) }, {} };
}
static vector<Op> alphabet(bool deep) {
  vector<Op> v = { {0,0,0},{0,2,0},{0,3,0},{1,1,0},{1,4,0},{2,2,1},{3,1,0},{2,3,2},{3,4,0} };
  if (deep) { v.push_back({ 0,5,0 }); v.push_back({ 1,0,0 }); v.push_back({ 2,2,3 }); }
  return v;
}
static string opstr(const Op& o) { return o.kind == 0 ? fmt("add(subject,#%d) ", o.a) : o.kind == 1 ? fmt("add(clip,#%d) ", o.a) : fmt("process(%s,%s,%s) ", opname(o.a), fillname(o.b), o.kind == 2 ? "callbacks" : "paths"); }

static void tell(const river::path& q, vector<double>& v) { static river::path_traverse_funcs g; g.move_to = [](path_moveto_func_para) { for (double d : { 0., to.x, to.y }) ((vector<double>*)user)->push_back(d); }; g.line_to = [](path_lineto_func_para) { for (double d : { 1., to.x, to.y }) ((vector<double>*)user)->push_back(d); }; g.cubic_to = [](path_cubicto_func_para) { for (double d : { 2., ctrl1.x, ctrl1.y, ctrl2.x, ctrl2.y, to.x, to.y }) ((vector<double>*)user)->push_back(d); }; q.traverse(g, &v); }
static bool same_path(const river::path& a, const river::path& b) { vector<double> u, v; tell(a, u); tell(b, v); return u == v; }
struct Model { Shape S, C; };
static void scramble(paths& p) { for (auto& q : p) { river::path n; for (int k = 0; k < 40; ++k) n.lineto(-12345.5 - k, 777); q.~path(); new (&q) river::path(std::move(n)); } } // what was passed to add_path is changed and then freed

// applies one operation to the real processor; returns the output of process
static bool apply(river::processor& p, const Op& o, const vector<Shape>& M, Shape* out, string* err) {
  if (o.kind < 2) { paths in = to_paths(M[o.a]); paths ref = to_paths(M[o.a]); p.add_path(in, o.kind ? path_type::clip : path_type::subject);
    for (size_t i = 0; i < in.size(); ++i) if (!same_path(in[i], ref[i])) *err = "add_path changed its argument";
    scramble(in); return false; }
  if (o.kind == 2) { Sink k; p.process((clip_type)o.a, (fill_rule)o.b, sink_funcs(), &k); *out = k.out; if (!k.err.empty()) *err = k.err; return true; }
  paths r; p.process((clip_type)o.a, (fill_rule)o.b, r); *out = from_paths(r, err); return true;
}
static void history(const vector<Op>& h, const vector<Shape>& M, Ctx& x) {
  river::processor p; Model m; string done;
  for (size_t i = 0; i < h.size(); ++i) {
    const Op& o = h[i]; done += opstr(o); Shape out; string err; x.transitions++;
    bool pr = apply(p, o, M, &out, &err); if (!err.empty()) { x.fail(err + " after " + done); return; }
    if (o.kind == 0) for (auto& c : M[o.a]) m.S.push_back(c);
    if (o.kind == 1) for (auto& c : M[o.a]) m.C.push_back(c);
    x.states++; if (!pr) continue;
    Scan sc; sc.build({ m.S, m.C }, 61); x.out(hash_shape(out));
    auto r = sc.check(out, [&](const int* w) { return combine((clip_type)o.a, filled((fill_rule)o.b, w[0]), filled((fill_rule)o.b, w[1])); }); x.validated++;
    if (sc.wrong(r)) { x.fail(fmt("wrong region (area %.6g, near y=%.6g x=%.6g..%.6g) after ", r.bad, r.wy, r.wx0, r.wx1) + done + "; output: " + str(out)); return; }
  }
}

// programs of one processor for the interleaving part
static vector<vector<Op>> programs() {
  return { { {0,0,0},{1,1,0},{2,1,0},{3,2,1} }, { {0,4,0},{2,2,0},{0,2,0},{3,2,2} }, { {0,3,0},{1,0,0},{2,4,0},{2,3,1} }, { {1,1,0},{0,5,0},{3,3,3},{2,4,0} }, { {0,2,0},{0,0,0},{0,3,0},{2,2,1} }, { {2,2,0},{0,1,0},{1,5,0},{3,1,2} } };
}
static vector<Shape> solo(const vector<Op>& pr, const vector<Shape>& M) { river::processor p; vector<Shape> r; string e; for (auto& o : pr) { Shape s; if (apply(p, o, M, &s, &e)) r.push_back(s); } return r; }
static bool same(const Shape& a, const Shape& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) { if (a[i].size() != b[i].size()) return false; for (size_t j = 0; j < a[i].size(); ++j) { if (a[i][j].cub != b[i][j].cub) return false; for (int k = 0; k < 4; ++k) if (a[i][j].p[k] != b[i][j].p[k]) return false; } } return true; }

int main(int argc, char** argv) {
  auto M = menu(); bool deep = thorough(); auto A = alphabet(deep); uint64_t n = A.size(); vector<Family> f;
  if (deep) { auto B = alphabet(false); uint64_t m = B.size(); f.push_back({ "histories-7", ipow(m, 6) * 4, 400, [=](uint64_t i, Ctx& x) { Dec d(i); vector<Op> h; for (int k = 0; k < 6; ++k) h.push_back(B[d(m)]); h.push_back(B[5 + d(4)]); if (x.verbose) { string s; for (auto& o : h) s += opstr(o); x.d(s); } history(h, M, x); }, "all sequences of 7 operations out of 9 ending with a process" }); }
  for (int D = 1; D <= 6; ++D) {
    vector<Op> last; for (auto& o : A) if (o.kind >= 2) last.push_back(o); uint64_t nl = last.size();
    f.push_back({ fmt("histories-%d", D), ipow(n, D - 1) * nl, 100, [=](uint64_t i, Ctx& x) { Dec d(i); vector<Op> h; for (int k = 0; k < D - 1; ++k) h.push_back(A[d(n)]); h.push_back(last[d(nl)]); if (x.verbose) { string s; for (auto& o : h) s += opstr(o); x.d(s); } history(h, M, x); }, fmt("all sequences of %d operations out of %d (adds of 5..7 shapes to either side, processes with 4..5 operation/fill/output combinations) ending with a process", D, (int)n) });
  }
  { // two add_path calls for the price of many: the same shapes added in one call, contour by contour, or as one path with several moves
    auto P = partners(); uint64_t np = P.size(); auto T = tris(2, true); uint64_t nt = T.size();
    f.push_back({ "reprocess", np * nt * 5 * 4, 200, [=](uint64_t i, Ctx& x) { Dec d(i); int op1 = (int)d(5), f1 = (int)d(4); const Shape& C = P[d(np)]; Shape S = { T[d(nt)] }; if (x.verbose) { describe_pair(x, S, C); x.d(fmt(" process(%s,%s) then every process", opname(op1), fillname(f1))); }
      river::processor p; auto s = to_paths(S), c = to_paths(C); p.add_path(s, path_type::subject); p.add_path(c, path_type::clip); Sink k; p.process((clip_type)op1, (fill_rule)f1, sink_funcs(), &k); Scan sc; sc.build({ S, C }, 0); x.states++;
      for (int op = 0; op < 5; ++op) for (int fl = 0; fl < 4; ++fl) { Sink q; p.process((clip_type)op, (fill_rule)fl, sink_funcs(), &q); x.transitions++; x.out(hash_shape(q.out)); auto r = sc.check(q.out, [&](const int* w) { return combine((clip_type)op, filled((fill_rule)fl, w[0]), filled((fill_rule)fl, w[1])); }); x.validated++; if (sc.wrong(r)) { x.fail(fmt("%s/%s after %s/%s: wrong region (area %.6g); output: ", opname(op), fillname(fl), opname(op1), fillname(f1), r.bad) + str(q.out)); return; } } }, "every first operation and fill rule, then all 20 in turn on the same processor; all triangles of the 3x3 grid against 8 clip shapes" });
  }
  { // the same or coinciding shapes added before and after processes, to both sides
    auto at_ = atoms(); Contour tri = poly({ {0,0},{4,1},{1,3} }), slant = poly({ {0,0},{4,1},{8,2},{5,-2} });
    vector<Shape> K = { { tri }, { reversed(tri) }, { slant }, { rectc(0,0,4,2,false) }, { at_[4] }, { reversed(closed(at_[4])) } };
    vector<Op> B = { {0,0,0},{1,0,0},{0,1,0},{1,2,0},{0,3,0},{1,3,0},{0,4,0},{1,5,0},{2,2,1},{3,4,0},{2,3,2},{2,1,3} }; uint64_t m = B.size(); int D = deep ? 6 : 5;
    f.push_back({ "coinciding", ipow(m, D - 1) * 4, 100, [=](uint64_t i, Ctx& x) { Dec d(i); vector<Op> h; for (int k = 0; k < D - 1; ++k) h.push_back(B[d(m)]); h.push_back(B[8 + d(4)]); if (x.verbose) { for (size_t k = 0; k < K.size(); ++k) x.d(fmt("#%d=", (int)k) + str(K[k]) + "; "); string s; for (auto& o : h) s += opstr(o); x.d(s); } history(h, K, x); }, fmt("all sequences of %d operations out of 12 over shapes that coincide in whole or in part (same and reversed triangle, collinear edge, same and reversed curve) ending with a process", D) });
    auto P = partners(); uint64_t np = P.size(); auto T = tris(2, true); uint64_t nt = T.size();
    f.push_back({ "add-after-process", np * nt * (np + 2) * 2 * 4, 200, [=](uint64_t i, Ctx& x) { Dec d(i); int op1 = 1 + (int)d(4); const Shape& C = P[d(np)]; Shape S = { T[d(nt)] }; uint64_t w = d(np + 2); Shape L = w == 0 ? S : w == 1 ? Shape{ reversed(S[0]) } : P[w - 2]; bool lc = d(2); if (x.verbose) { describe_pair(x, S, C); x.d(fmt(" process(%s,non_zero), then add(%s,", opname(op1), lc ? "clip" : "subject") + str(L) + "), process"); }
      river::processor p; auto s = to_paths(S), c = to_paths(C), l = to_paths(L); p.add_path(s, path_type::subject); p.add_path(c, path_type::clip); Sink k; p.process((clip_type)op1, fill_rule::non_zero, sink_funcs(), &k); p.add_path(l, lc ? path_type::clip : path_type::subject); Shape S2 = S, C2 = C; for (auto& q : L) (lc ? C2 : S2).push_back(q); Scan sc; sc.build({ S2, C2 }, 0); x.states++;
      for (int op = 1; op < 5; ++op) { int fl = (int)((i / 7 + op) % 4); Sink q; p.process((clip_type)op, (fill_rule)fl, sink_funcs(), &q); x.transitions++; x.out(hash_shape(q.out)); auto r = sc.check(q.out, [&](const int* w) { return combine((clip_type)op, filled((fill_rule)fl, w[0]), filled((fill_rule)fl, w[1])); }); x.validated++; if (sc.wrong(r)) { x.fail(fmt("%s/%s: wrong region (area %.6g); output: ", opname(op), fillname(fl), r.bad) + str(q.out)); return; } } }, "all triangles of the 3x3 grid with 8 clip shapes, a process, one more path (the same triangle, its reverse or one of 8) to either side, then processes" });
    // an exception from the caller's output callback at every point leaves the processor as it was
    struct Bomb { int left; Sink k; }; static river::path_traverse_funcs bf; static auto base = sink_funcs();
    bf.move_to = [](path_moveto_func_para) { auto b = (Bomb*)user; if (b->left-- == 0) throw 1; base.move_to(from, to, &b->k); }; bf.line_to = [](path_lineto_func_para) { auto b = (Bomb*)user; if (b->left-- == 0) throw 1; base.line_to(from, to, &b->k); }; bf.cubic_to = [](path_cubicto_func_para) { auto b = (Bomb*)user; if (b->left-- == 0) throw 1; base.cubic_to(from, ctrl1, ctrl2, to, &b->k); };
    f.push_back({ "exceptions", np * nt * 4, 50, [=](uint64_t i, Ctx& x) { Dec d(i); int op1 = 1 + (int)d(4); const Shape& C = P[d(np)]; Shape S = { T[d(nt)], map(circ(1), Aff{ 0.8,0,0,0.7,1.13,0.87 }) }; if (x.verbose) { describe_pair(x, S, C); x.d(fmt(" process(%s,even_odd) left by an exception at every callback, add, process", opname(op1))); } x.states++;
      Shape S2 = S; S2.push_back(P[1][0]); Scan sc; sc.build({ S2, C }, 0);
      for (int at = 0; at < 64; ++at) { river::processor p; auto s = to_paths(S), c = to_paths(C), l = to_paths({ P[1][0] }); p.add_path(s, path_type::subject); p.add_path(c, path_type::clip); Bomb b{ at, {} }; bool thrown = false; try { p.process((clip_type)op1, fill_rule::even_odd, bf, &b); } catch (int) { thrown = true; } if (!thrown) break; p.add_path(l, path_type::subject); int op = 1 + (op1 + at) % 4; Sink q; p.process((clip_type)op, fill_rule::non_zero, sink_funcs(), &q); x.transitions += 2; x.out(hash_shape(q.out)); auto r = sc.check(q.out, [&](const int* w) { return combine((clip_type)op, w[0] != 0, w[1] != 0); }); x.validated++; if (sc.wrong(r)) { x.fail(fmt("%s after an exception in callback %d of %s: wrong region (area %.6g); output: ", opname(op), at, opname(op1), r.bad) + str(q.out)); return; } } }, "a process left by an exception at every single output callback, one more add, then another process: triangles with an ellipse against 8 clip shapes" });
  }
  { // the contours of an input arrive one by one, with a process before every further one; copies of a curve after the curve has been cut
    for (auto& p : curve_families(deep)) { if (p.name != "identical-cut") continue; 
      f.push_back({ "copies-after-process", p.size, 8, [p](uint64_t i, Ctx& x) { Shape S, C; p.make(i, S, C); describe_pair(x, S, C); if (!judged(p, S, C)) { x.skipped++; return; } int op = 1 + (int)(i % 4), fl = (int)(i / 4 % 4), op2 = 1 + (int)(i / 7 % 4); x.d(fmt(" the cut curve and the cutting contour, process(%s,%s), then the copies one by one, process(%s,%s) after each", opname(op2), fillname(fl), opname(op), fillname(fl)));
        river::processor q; Shape S2, C2; auto put = [&](const Contour& c, bool clip) { auto in = to_paths({ c }); q.add_path(in, clip ? path_type::clip : path_type::subject); (clip ? C2 : S2).push_back(c); };
        auto run = [&](int o) { Sink k; q.process((clip_type)o, (fill_rule)fl, sink_funcs(), &k); x.transitions++; x.out(hash_shape(k.out)); Scan sc; sc.build({ S2, C2 }, 61); auto r = sc.check(k.out, [&](const int* w) { return combine((clip_type)o, filled((fill_rule)fl, w[0]), filled((fill_rule)fl, w[1])); }); x.validated++; x.states++; if (sc.wrong(r)) x.fail(fmt("%s/%s with %d contours: wrong region (area %.6g, near y=%.6g)", opname(o), fillname(fl), (int)(S2.size() + C2.size()), r.bad, r.wy)); return !x.failed; };
        put(S[0], false); put(C.back(), true); if (!run(op2)) return; for (size_t k = 1; k < S.size(); ++k) { put(S[k], false); if (!run(op)) return; } for (size_t k = 0; k + 1 < C.size(); ++k) { put(C[k], true); if (!run(op)) return; } },
        "curve shapes and a cutting contour, processed, then exact or reversed copies of the curves added one by one with a process after each" }); }
  }
  { // long histories: the same few operations again and again
    auto P = partners(); uint64_t np = P.size(); auto at_ = atoms(); int N = deep ? 600 : 300; Shape S = { poly({ {0,0},{2.2,0.3},{1,2.1} }), at_[4] };
    f.push_back({ "many-processes", np * 20 * 20, 20, [=](uint64_t i, Ctx& x) { Dec d(i); int a = (int)d(20), b = (int)d(20); const Shape& C = P[d(np)]; if (x.verbose) { describe_pair(x, S, C); x.d(fmt(" %d processes: %s/%s and %s/%s in turn", N, opname(a / 4), fillname(a % 4), opname(b / 4), fillname(b % 4))); }
      river::processor p; auto s = to_paths(S), c = to_paths(C); p.add_path(s, path_type::subject); p.add_path(c, path_type::clip); Scan sc; sc.build({ S, C }, 0); x.states++;
      for (int k = 0; k < N; ++k) { int op = (k & 1 ? b : a) / 4, fl = (k & 1 ? b : a) % 4; Sink q; p.process((clip_type)op, (fill_rule)fl, sink_funcs(), &q); x.transitions++; if (k < 2) x.out(hash_shape(q.out)); if (k > 3 && (k & (k + 1)) && (k & (k - 1)) && k < N - 2) continue;
        auto r = sc.check(q.out, [&](const int* w) { return combine((clip_type)op, filled((fill_rule)fl, w[0]), filled((fill_rule)fl, w[1])); }); x.validated++; if (sc.wrong(r)) { x.fail(fmt("%s/%s as process number %d: wrong region (area %.6g, near y=%.6g)", opname(op), fillname(fl), k + 1, r.bad, r.wy)); return; } } },
      fmt("every pair of the 20 operation/fill combinations used in turn, %d processes on one processor, against 8 clip shapes; the region is compared after 1, 2, 3, 4, 2^k-1, 2^k and all of them", N) });
    int n2 = deep ? 300 : 140;
    f.push_back({ "many-adds", 48, 1, [=](uint64_t i, Ctx& x) { Dec d(i); int op = 1 + (int)d(4), fl = (int)d(4), kind = (int)d(3); if (x.verbose) x.d(fmt("%d adds with %s/%s after each, shapes %d", n2, opname(op), fillname(fl), kind));
      river::processor p; Shape S, C; for (int k = 0; k < n2; ++k) { Contour c = kind == 0 ? poly({ {k * 0.7, 0}, {k * 0.7 + 1.5, 0.5}, {k * 0.7 + 0.6, 2} }) : kind == 1 ? rectc(k * 0.25, k * 0.25, k * 0.25 + 1, k * 0.25 + 1, k & 1) : map(circ(1), Aff{ 0.6,0,0,0.5,k * 1.01,0.03 * k }); bool cl = k % 3 == 2; auto in = to_paths({ c }); p.add_path(in, cl ? path_type::clip : path_type::subject); (cl ? C : S).push_back(c); x.states++;
        Sink q; p.process((clip_type)op, (fill_rule)fl, sink_funcs(), &q); x.transitions++; if (k > 8 && k % 16 > 1 && k < n2 - 2) continue; Scan sc; sc.build({ S, C }, kind == 2 ? 61 : 0); x.out(hash_shape(q.out));
        auto r = sc.check(q.out, [&](const int* w) { return combine((clip_type)op, filled((fill_rule)fl, w[0]), filled((fill_rule)fl, w[1])); }); x.validated++; if (sc.wrong(r)) { x.fail(fmt("%s/%s after %d adds, each followed by a process: wrong region (area %.6g, near y=%.6g)", opname(op), fillname(fl), k + 1, r.bad, r.wy)); return; } } },
      fmt("%d adds to one processor (triangles, squares, ellipses; every third to the clip), each followed by a process; 4 operations x 4 fill rules", n2) });
  }
  {
    auto Pr = programs(); uint64_t np = Pr.size(); vector<int> masks; for (int b = 0; b < 256; ++b) if (__builtin_popcount(b) == 4) masks.push_back(b); uint64_t nm = masks.size();
    f.push_back({ "two-processors", np * np * nm, 35, [=](uint64_t i, Ctx& x) { Dec d(i); auto& a = Pr[d(np)]; auto& b = Pr[d(np)]; int m = masks[d(nm)];
      if (x.verbose) { string s; size_t u = 0, v = 0; for (int k = 0; k < 8; ++k) s += (m >> k & 1) ? "A." + opstr(a[u++]) : "B." + opstr(b[v++]); x.d(s); }
      auto ea = solo(a, M), eb = solo(b, M); vector<Shape> ra, rb; { river::processor pa, pb; size_t u = 0, v = 0; string e; for (int k = 0; k < 8; ++k) { Shape s; x.transitions++; if (m >> k & 1) { if (apply(pa, a[u++], M, &s, &e)) ra.push_back(s); } else if (apply(pb, b[v++], M, &s, &e)) rb.push_back(s); x.states++; } if (!e.empty()) x.fail(e); }
      for (size_t k = 0; k < ea.size(); ++k) { x.validated++; x.out(hash_shape(ra[k])); if (!same(ea[k], ra[k])) x.fail("processor A is influenced by processor B; alone: " + str(ea[k]) + "; interleaved: " + str(ra[k])); }
      for (size_t k = 0; k < eb.size(); ++k) { x.validated++; if (!same(eb[k], rb[k])) x.fail("processor B is influenced by processor A; alone: " + str(eb[k]) + "; interleaved: " + str(rb[k])); } }, "all 70 interleavings of two 4-operation programs, all 36 pairs of 6 programs: outputs equal, bit for bit, to those of each program run alone" });
  }
  return harness_main(argc, argv, f);
}
