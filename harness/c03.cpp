// C03: the shape of the output stream: contours open with a move, chain, close
// on their first point, are finite, stay on the input boundary and inside its
// bounding box; the paths overload delivers the same contours, appended.
#include "curves.h"
using namespace vh;

static double dist_seg(point p, const Seg& s) {
  if (!s.cub) { point d = s.p[3] - s.p[0]; double l = d.dist2(), t = l > 0 ? (p - s.p[0]).dot(d) / l : 0; t = t < 0 ? 0 : t > 1 ? 1 : t; return (p - s.p[0] - d * t).dist(); }
  // distance to a curve: sample, then refine around the best few samples
  const int N = 48; double bd = 1e300; double ds[N + 1]; for (int i = 0; i <= N; ++i) { ds[i] = (at(s, (double)i / N) - p).dist(); bd = std::min(bd, ds[i]); }
  double len = (s.p[1] - s.p[0]).dist() + (s.p[2] - s.p[1]).dist() + (s.p[3] - s.p[2]).dist(); double best = bd;
  for (int i = 0; i <= N; ++i) if (ds[i] < bd + len * 3 / N) { double l = std::max(0., (i - 1.) / N), r = std::min(1., (i + 1.) / N); for (int k = 0; k < 60; ++k) { double a = l + (r - l) / 3, b = r - (r - l) / 3; if ((at(s, a) - p).dist() < (at(s, b) - p).dist()) r = b; else l = a; } best = std::min(best, (at(s, (l + r) / 2) - p).dist()); }
  return best;
}
static bool fin(point p) { return std::isfinite(p.x) && std::isfinite(p.y); }

// two output edges that run along each other (a zero-width part of the result)
static bool overlap(const Seg& a, const Seg& b, double tol) {
  if (a.cub != b.cub) return false;
  if (a.cub) { auto eq = [&](int i, int j) { return (a.p[i] - b.p[j]).dist() <= tol; }; return (eq(0, 0) && eq(1, 1) && eq(2, 2) && eq(3, 3)) || (eq(0, 3) && eq(1, 2) && eq(2, 1) && eq(3, 0)); }
  point d = a.p[3] - a.p[0]; double l = d.dist(); if (l <= 4 * tol) return false; d = d / l;
  auto off = [&](point p) { return std::abs(d.cross(p - a.p[0])); }; if (off(b.p[0]) > tol || off(b.p[3]) > tol) return false;
  double u = d.dot(b.p[0] - a.p[0]), v = d.dot(b.p[3] - a.p[0]); return std::min(l, std::max(u, v)) - std::max(0., std::min(u, v)) > 1000 * tol;
}
static void wellformed(const Shape& S, const Shape& C, Ctx& x, Masks mk, bool curved) {
  Shape in = closed(S); for (auto& c : closed(C)) in.push_back(c);
  double ext = extent(S, C), tol = (curved ? 5e-6 : 1e-7) * ext, lo[2] = { 1e300,1e300 }, hi[2] = { -1e300,-1e300 };
  for (auto& c : in) for (auto& e : c) { double t[2]; vector<point> v = { e.p[0], e.p[3] }; if (e.cub) { int n = extrema(e.p[0].x, e.p[1].x, e.p[2].x, e.p[3].x, t); while (n--) v.push_back(at(e, t[n])); n = extrema(e.p[0].y, e.p[1].y, e.p[2].y, e.p[3].y, t); while (n--) v.push_back(at(e, t[n])); } for (auto& p : v) { lo[0] = std::min(lo[0], p.x); hi[0] = std::max(hi[0], p.x); lo[1] = std::min(lo[1], p.y); hi[1] = std::max(hi[1], p.y); } }
  x.states++;
  for (int c = 0; c < 5; ++c) for (int f = 0; f < 4; ++f) {
    if (!(mk.ops >> c & 1) || !(mk.fills >> f & 1)) continue;
    x.transitions++; string w = fmt("%s/%s: ", opname(c), fillname(f));
    Sink k = clip(S, C, (clip_type)c, (fill_rule)f); x.out(hash_shape(k.out));
    auto bad = [&](const string& m) { x.fail(w + m + "; output: " + str(k.out)); };
    if (!k.err.empty()) return bad(k.err);
    if (c == 0 && k.calls) return bad("operation none produced output");
    for (size_t i = 0; i < k.out.size(); ++i) {
      auto& ct = k.out[i];
      if (ct.size() < 2) return bad(fmt("contour %d has %d edges", (int)i, (int)ct.size()));
      if (ct.back().p[3] != k.start[i]) return bad(fmt("contour %d starts at (%.17g,%.17g) and ends at (%.17g,%.17g)", (int)i, k.start[i].x, k.start[i].y, ct.back().p[3].x, ct.back().p[3].y));
      for (auto& e : ct) {
        for (auto& p : e.p) if (!fin(p)) return bad("coordinate that is not finite");
        int n = e.cub ? 4 : 2;
        for (int j = 0; j <= n; ++j) { point p = at(e, (double)j / n); x.validated++;
          if (p.x < lo[0] - tol || p.x > hi[0] + tol || p.y < lo[1] - tol || p.y > hi[1] + tol) return bad(fmt("point (%.9g,%.9g) outside the bounding box of the input", p.x, p.y));
          bool on = false; for (auto& ic : in) { for (auto& ie : ic) if (dist_seg(p, ie) <= tol) { on = true; break; } if (on) break; }
          if (!on) return bad(fmt("point (%.9g,%.9g) of the output boundary is not on the input boundary", p.x, p.y)); }
      }
    }
    for (size_t i = 0; i < k.out.size(); ++i) for (size_t a = 0; a < k.out[i].size(); ++a) for (size_t j = i; j < k.out.size(); ++j) for (size_t b = j == i ? a + 1 : 0; b < k.out[j].size(); ++b) { x.validated++; const Seg& u = k.out[i][a]; const Seg& v = k.out[j][b]; if (overlap(u, v, 1e-9 * ext)) return bad(fmt("the edges (%.9g,%.9g)-(%.9g,%.9g) and (%.9g,%.9g)-(%.9g,%.9g) run along each other", u.p[0].x, u.p[0].y, u.p[3].x, u.p[3].y, v.p[0].x, v.p[0].y, v.p[3].x, v.p[3].y)); }
    // the other overload: same contours, appended behind what was there
    paths o; o.push_back(to_path(poly({ {7,7},{8,7},{8,9} })));
    { river::processor p; auto s = to_paths(S), q = to_paths(C); p.add_path(s, path_type::subject); p.add_path(q, path_type::clip); p.process((clip_type)c, (fill_rule)f, o); }
    if (o.size() != k.out.size() + 1) return bad(fmt("paths overload: %d paths for %d contours", (int)o.size() - 1, (int)k.out.size()));
    for (size_t i = 0; i < o.size(); ++i) {
      Sink t; o[i].traverse(sink_funcs(), &t); if (!t.err.empty()) return bad("paths overload: " + t.err);
      if (t.out.size() != 1) return bad(fmt("paths overload: path %d has %d contours", (int)i, (int)t.out.size()));
      Contour want = i ? k.out[i - 1] : poly({ {7,7},{8,7},{8,9} });
      if (t.start[0] != (i ? k.start[i - 1] : point(7, 7)) || t.out[0].size() != want.size()) return bad(fmt("paths overload: path %d differs from the callbacks", (int)i));
      for (size_t j = 0; j < want.size(); ++j) for (int q = 0; q < 4; ++q) if (t.out[0][j].p[q] != want[j].p[q] || t.out[0][j].cub != want[j].cub) return bad(fmt("paths overload: path %d differs from the callbacks", (int)i));
    }
  }
}

int main(int argc, char** argv) {
  vector<Family> f; bool deep = thorough();
  for (auto& p : line_families(deep)) { uint64_t st = deep ? (p.size > 4000000 ? 7 : 1) : 1;
    f.push_back({ p.name, (p.size + st - 1) / st, p.chunk, [p, st](uint64_t i, Ctx& x) { Shape S, C; p.make(i * st, S, C); describe_pair(x, S, C); wellformed(S, C, x, {}, false); }, p.bound + (st > 1 ? fmt("; every %d-th", (int)st) : "") + "; 5 operations x 4 fill rules" }); }
  for (auto& p : curve_families(false)) { uint64_t st = 1; if (p.name == "curved-large") continue;
    f.push_back({ p.name, (p.size + st - 1) / st, p.chunk, [p, st](uint64_t i, Ctx& x) { Shape S, C; p.make(i * st, S, C); describe_pair(x, S, C); if (!judged(p, S, C)) { x.skipped++; return; } Masks m; m.fills = 1 << (i * 7 + i / 4) % 4; wellformed(S, C, x, m, true); }, p.bound + (st > 1 ? fmt("; every %d-th", (int)st) : "") }); }
  Options o; o.case_cpu = 20; o.case_wall = 150; return harness_main(argc, argv, f, o);
}
