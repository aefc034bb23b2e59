// Shapes, the reference model (winding numbers on scan lines, written without
// any code of the library) and the calls into the real library.
#pragma once
#include "river.h"
#include "vh.h"

namespace vh {
using river::point; using river::path; using river::paths; using river::fill_rule; using river::clip_type; using river::path_type;

struct Seg { bool cub = false; point p[4]; };           // line: p[0], p[3]
typedef vector<Seg> Contour; typedef vector<Contour> Shape; typedef vector<point> Poly;
inline Seg L(point a, point b) { Seg s; s.p[0] = a; s.p[3] = b; s.p[1] = a; s.p[2] = b; return s; }
inline Seg B(point a, point b, point c, point d) { Seg s; s.cub = true; s.p[0] = a; s.p[1] = b; s.p[2] = c; s.p[3] = d; return s; }
inline Contour poly(const Poly& v) { Contour c; for (size_t i = 0; i + 1 < v.size(); ++i) c.push_back(L(v[i], v[i + 1])); return c; } // open; closed implicitly
inline Contour closed(Contour c) { if (!c.empty()) { point a = c.front().p[0], b = c.back().p[3]; if (a != b) c.push_back(L(b, a)); } return c; }
inline Shape closed(const Shape& s) { Shape r; for (auto& c : s) r.push_back(closed(c)); return r; }
inline Contour reversed(const Contour& c) { Contour r; for (size_t i = c.size(); i--;) { Seg s = c[i]; std::swap(s.p[0], s.p[3]); std::swap(s.p[1], s.p[2]); r.push_back(s); } return r; }

struct Aff { double a = 1, b = 0, c = 0, d = 1, e = 0, f = 0; point operator()(point p) const { return point(a * p.x + b * p.y + e, c * p.x + d * p.y + f); } };
inline Contour map(const Contour& c, const Aff& m) { Contour r = c; for (auto& s : r) for (auto& p : s.p) p = m(p); return r; }
inline Shape map(const Shape& s, const Aff& m) { Shape r; for (auto& c : s) r.push_back(map(c, m)); return r; }
inline double det(const Aff& m) { return m.a * m.d - m.b * m.c; }

inline string num(double v) { string s = fmt("%.17g", v); double w; string t = fmt("%.6g", v); w = atof(t.c_str()); return w == v ? t : s; }
inline string str(const Shape& s) { string o; for (auto& c : s) { if (c.empty()) continue; o += "m " + num(c[0].p[0].x) + " " + num(c[0].p[0].y) + " "; for (auto& e : c) { if (e.cub) { o += "c "; for (int i = 1; i < 4; ++i) o += num(e.p[i].x) + " " + num(e.p[i].y) + " "; } else o += "l " + num(e.p[3].x) + " " + num(e.p[3].y) + " "; } } return o; }
inline const char* opname(int c) { static const char* n[] = { "none", "intersection", "union", "difference", "xor" }; return n[c]; }
inline const char* fillname(int f) { static const char* n[] = { "even_odd", "non_zero", "positive", "negative" }; return n[f]; }

inline bool filled(fill_rule f, int w) { switch (f) { case fill_rule::even_odd: return w & 1; case fill_rule::non_zero: return w != 0; case fill_rule::positive: return w > 0; default: return w < 0; } }
inline bool combine(clip_type c, bool a, bool b) { switch (c) { case clip_type::none: return false; case clip_type::intersection: return a && b; case clip_type::union_: return a || b; case clip_type::difference: return a && !b; default: return a != b; } }

inline double bez(double a, double b, double c, double d, double t) { double k = 1 - t; return a * k * k * k + 3 * b * k * k * t + 3 * c * k * t * t + d * t * t * t; }
inline point at(const Seg& s, double t) { if (!s.cub) return s.p[0] + (s.p[3] - s.p[0]) * t; return point(bez(s.p[0].x, s.p[1].x, s.p[2].x, s.p[3].x, t), bez(s.p[0].y, s.p[1].y, s.p[2].y, s.p[3].y, t)); }
// parameters of the extrema along one axis, strictly inside (0,1)
inline int extrema(double p0, double p1, double p2, double p3, double* t) {
  double a = p3 - 3 * p2 + 3 * p1 - p0, b = 2 * (p0 - 2 * p1 + p2), c = p1 - p0; int n = 0; double r[2]; int m = 0;
  double sc = std::abs(a) + std::abs(b) + std::abs(c); if (sc == 0) return 0;
  if (std::abs(a) < 1e-14 * sc) { if (std::abs(b) > 1e-14 * sc) r[m++] = -c / b; }
  else { double D = b * b - 4 * a * c; if (D > 0) { double q = -0.5 * (b + (b >= 0 ? 1 : -1) * std::sqrt(D)); r[m++] = q / a; if (q != 0) r[m++] = c / q; } }
  for (int i = 0; i < m; ++i) if (r[i] > 0 && r[i] < 1) t[n++] = r[i];
  if (n == 2 && t[0] > t[1]) std::swap(t[0], t[1]); return n;
}

// a piece that is monotone in y
struct Mono { const Seg* s; double t0, t1, y0, y1; };
inline void monos(const Shape& sh, vector<Mono>& o) {
  for (auto& c : sh) for (auto& e : c) {
    if (!e.cub) { o.push_back({ &e, 0, 1, e.p[0].y, e.p[3].y }); continue; }
    double t[2]; int n = extrema(e.p[0].y, e.p[1].y, e.p[2].y, e.p[3].y, t); double l = 0, yl = e.p[0].y;
    for (int i = 0; i <= n; ++i) { double r = i < n ? t[i] : 1, yr = i < n ? at(e, r).y : e.p[3].y; o.push_back({ &e, l, r, yl, yr }); l = r; yl = yr; }
  }
}
struct Cross { double x; int w; };
inline void cross_at(const vector<Mono>& m, double y, vector<Cross>& o) {
  for (auto& e : m) {
    if ((e.y0 < y) == (e.y1 < y)) continue; int w = e.y1 < e.y0 ? 1 : -1;
    if (!e.s->cub) { o.push_back({ e.s->p[0].x + (e.s->p[3].x - e.s->p[0].x) * (y - e.y0) / (e.y1 - e.y0), w }); continue; }
    double l = e.t0, r = e.t1; bool bl = e.y0 < y;
    for (int k = 0; k < 52; ++k) { double mid = (l + r) / 2; if ((at(*e.s, mid).y < y) == bl) l = mid; else r = mid; }
    o.push_back({ at(*e.s, (l + r) / 2).x, w });
  }
}
inline double extent(const Shape& a, const Shape& b) { double m = 0, lo[2] = { 1e300,1e300 }, hi[2] = { -1e300,-1e300 }; for (auto* s : { &a, &b }) for (auto& c : *s) for (auto& e : c) for (auto& p : e.p) { lo[0] = std::min(lo[0], p.x); hi[0] = std::max(hi[0], p.x); lo[1] = std::min(lo[1], p.y); hi[1] = std::max(hi[1], p.y); } m = std::max(hi[0] - lo[0], hi[1] - lo[1]); return m > 0 ? m : 1; }

// ---------------------------------------------------------------- reference model
// Region described by a predicate over per-layer winding numbers; compared with
// the result on every scan line of a fixed, result independent set plus the
// middle line of every slab between consecutive critical ordinates.
struct Scan {
  vector<vector<Mono>> layer; vector<Shape> keep; vector<double> ys; double ext = 1; bool curved = false; double ylo = 0, yhi = 0; int uniform = 0;
  // input layers
  void build(const vector<Shape>& layers, int uniform_lines) {
    keep.clear(); for (auto& s : layers) keep.push_back(closed(s));
    layer.assign(keep.size(), {}); for (size_t i = 0; i < keep.size(); ++i) monos(keep[i], layer[i]);
    ys.clear(); double xl = 1e300, xh = -1e300; ylo = 1e300; yhi = -1e300; curved = false;
    vector<const Seg*> all;
    for (auto& s : keep) for (auto& c : s) for (auto& e : c) { all.push_back(&e); for (auto& p : e.p) { xl = std::min(xl, p.x); xh = std::max(xh, p.x); ylo = std::min(ylo, p.y); yhi = std::max(yhi, p.y); } if (e.cub) curved = true; }
    if (all.empty()) { ylo = yhi = 0; ext = 1; return; }
    ext = std::max(xh - xl, yhi - ylo); if (!(ext > 0)) ext = 1;
    for (auto& l : layer) for (auto& m : l) { ys.push_back(m.y0); ys.push_back(m.y1); }
    for (size_t i = 0; i < all.size(); ++i) { if (all[i]->cub) continue; for (size_t j = i + 1; j < all.size(); ++j) { if (all[j]->cub) continue;
      point A = all[i]->p[3] - all[i]->p[0], Bv = all[j]->p[3] - all[j]->p[0]; double d = A.x * Bv.y - A.y * Bv.x; if (d == 0) continue; point r = all[j]->p[0] - all[i]->p[0];
      double t = (r.x * Bv.y - r.y * Bv.x) / d, u = (r.x * A.y - r.y * A.x) / d; if (t >= -1e-9 && t <= 1 + 1e-9 && u >= -1e-9 && u <= 1 + 1e-9) ys.push_back(all[i]->p[0].y + A.y * t); } }
    uniform = uniform_lines;
  }
  struct Res { double bad = 0; double worst = 0; double wy = 0, wx0 = 0, wx1 = 0; int wmin = 0, wmax = 0; };
  // pred(w) : expected membership from the winding numbers of the input layers
  template<class F> Res check(const Shape& out_, F pred) const {
    Res r; Shape out = closed(out_); vector<Mono> om; monos(out, om);
    vector<double> y = ys; for (auto& m : om) { y.push_back(m.y0); y.push_back(m.y1); }
    for (double v : y) if (!std::isfinite(v)) { r.bad = 1e300; r.worst = 1e300; return r; }
    std::sort(y.begin(), y.end()); const double eps = curved ? 1e-6 * ext : 1e-7 * ext;
    vector<std::pair<double, double>> lines; // y, weight
    if (uniform) { double lo = ylo, hi = yhi; for (auto& m : om) { lo = std::min(lo, std::min(m.y0, m.y1)); hi = std::max(hi, std::max(m.y0, m.y1)); }
      double dy = (hi - lo) / uniform; for (int i = 0; i < uniform; ++i) lines.push_back({ lo + dy * (i + 0.5137), dy }); }
    for (size_t i = 0; i + 1 < y.size(); ++i) if (y[i + 1] - y[i] > (uniform ? 2.5 * eps : eps)) lines.push_back({ (y[i] + y[i + 1]) / 2, uniform ? 0 : y[i + 1] - y[i] });
    const double span = curved ? 5e-6 * ext : 1e-6 * ext;
    struct ev { double x; int k, w; }; vector<ev> E; vector<Cross> c; const int nl = (int)layer.size(); vector<int> w(nl + 1);
    for (auto& ln : lines) {
      // a scan line that grazes a critical ordinate is ill conditioned
      if (uniform) { auto it = std::lower_bound(y.begin(), y.end(), ln.first); bool near = (it != y.end() && *it - ln.first < eps) || (it != y.begin() && ln.first - *std::prev(it) < eps); if (near) continue; }
      E.clear();
      for (int k = 0; k <= nl; ++k) { c.clear(); cross_at(k < nl ? layer[k] : om, ln.first, c); for (auto& z : c) E.push_back({ z.x, k, z.w }); }
      std::sort(E.begin(), E.end(), [](const ev& l, const ev& q) { return l.x < q.x; });
      std::fill(w.begin(), w.end(), 0); double badlen = 0;
      for (size_t j = 0; j + 1 < E.size(); ++j) {
        w[E[j].k] += E[j].w; double len = E[j + 1].x - E[j].x; if (len < span) continue;
        r.wmin = std::min(r.wmin, w[nl]); r.wmax = std::max(r.wmax, w[nl]);
        if ((bool)pred(w.data()) != (w[nl] != 0)) { badlen += len; if (len > r.worst) { r.worst = len; r.wy = ln.first; r.wx0 = E[j].x; r.wx1 = E[j + 1].x; } }
      }
      r.bad += badlen * ln.second;
    }
    return r;
  }
  bool wrong(const Res& r) const { return r.bad > tol() || (curved && r.worst > 2e-5 * ext); }
  double tol() const { return curved ? 1e-6 * ext * ext : 1e-6 * ext * ext; }
};

// ---------------------------------------------------------------- calls into the library
inline path to_path(const Contour& c) { path q; if (c.empty()) return q; q.moveto(c[0].p[0]); for (auto& e : c) if (e.cub) q.cubicto(e.p[1], e.p[2], e.p[3]); else q.lineto(e.p[3]); return q; }
inline paths to_paths(const Shape& s) { paths r; for (auto& c : s) if (!c.empty()) r.push_back(to_path(c)); return r; }

// everything the write callbacks saw, with the protocol facts C03 needs
struct Sink {
  Shape out; vector<point> start; point last{ 0, 0 }; bool open = false; string err; bool chain = true; uint64_t calls = 0;
};
inline void sink_move(path_moveto_func_para) { auto s = (Sink*)user; s->calls++; s->out.push_back({}); s->start.push_back(to); s->last = to; s->open = true; }
inline void sink_line(path_lineto_func_para) { auto s = (Sink*)user; s->calls++; if (!s->open) { s->err = "line before move"; s->out.push_back({}); s->start.push_back(from); s->open = true; } else if (from != s->last) s->err = fmt("line starts at (%g,%g), the previous element ended at (%g,%g)", from.x, from.y, s->last.x, s->last.y); s->out.back().push_back(L(from, to)); s->last = to; }
inline void sink_cubic(path_cubicto_func_para) { auto s = (Sink*)user; s->calls++; if (!s->open) { s->err = "curve before move"; s->out.push_back({}); s->start.push_back(from); s->open = true; } else if (from != s->last) s->err = fmt("curve starts at (%g,%g), the previous element ended at (%g,%g)", from.x, from.y, s->last.x, s->last.y); s->out.back().push_back(B(from, ctrl1, ctrl2, to)); s->last = to; }
inline river::path_traverse_funcs sink_funcs() { river::path_traverse_funcs f; f.move_to = sink_move; f.line_to = sink_line; f.cubic_to = sink_cubic; return f; }
inline Shape from_paths(const paths& ps, string* err = nullptr) { Sink s; for (auto& p : ps) p.traverse(sink_funcs(), &s); if (err) *err = s.err; return s.out; }

inline Sink clip(const Shape& S, const Shape& C, clip_type c, fill_rule f) {
  river::processor p; auto s = to_paths(S), q = to_paths(C); p.add_path(s, path_type::subject); p.add_path(q, path_type::clip);
  Sink k; p.process(c, f, sink_funcs(), &k); return k;
}
inline uint64_t hash_shape(const Shape& s) { uint64_t h = 14695981039346656037ull; auto add = [&](double v) { long q = std::lround(v * 1e4); h = (h ^ (uint64_t)q) * 1099511628211ull; }; for (auto& c : s) { add(-77); for (auto& e : c) for (auto& p : e.p) { add(p.x); add(p.y); } } return h; }

// ---------------------------------------------------------------- the region property on one (subject, clip) pair
struct Masks { int ops = 0x1f, fills = 0xf; };
inline bool check_pair(const Shape& S, const Shape& C, Ctx& x, int uniform, bool orientation, Masks mk = {}) {
  Scan sc; sc.build({ S, C }, uniform); x.states++;
  for (int c = 0; c < 5; ++c) for (int f = 0; f < 4; ++f) {
    if (!(mk.ops >> c & 1) || !(mk.fills >> f & 1)) continue;
    x.transitions++;
    Sink k = clip(S, C, (clip_type)c, (fill_rule)f); x.out(hash_shape(k.out));
    auto r = sc.check(k.out, [&](const int* w) { return combine((clip_type)c, filled((fill_rule)f, w[0]), filled((fill_rule)f, w[1])); });
    x.validated++;
    if (!orientation && sc.wrong(r)) { x.fail(fmt("%s/%s: result differs from the reference region on an area of %.6g (e.g. y=%.9g, x in [%.9g,%.9g]); output: ", opname(c), fillname(f), r.bad, r.wy, r.wx0, r.wx1) + str(k.out)); return false; }
    if (orientation) { int lo = f == 3 ? -1 : 0, hi = f == 3 ? 0 : 1; if (r.wmin < lo || r.wmax > hi) { x.fail(fmt("%s/%s: the output has winding numbers %d..%d; output: ", opname(c), fillname(f), r.wmin, r.wmax) + str(k.out)); return false; } }
  }
  return true;
}
inline void describe_pair(Ctx& x, const Shape& S, const Shape& C) { if (x.verbose) x.d("subject \"" + str(S) + "\" clip \"" + str(C) + "\""); }
// "m x y l x y c x1 y1 x2 y2 x y ..." -> shape (for cases given on the command line)
inline Shape shape_of(const string& t) {
  Shape s; point cur; const char* p = t.c_str(); char* e; auto num = [&]() { double v = strtod(p, &e); p = e; return v; };
  while (true) { while (*p == ' ') ++p; char c = *p; if (!c) break; ++p; double v[6]; int n = c == 'c' ? 6 : 2; for (int i = 0; i < n; ++i) v[i] = num();
    point to(v[n - 2], v[n - 1]); if (c == 'm') { s.push_back({}); } else if (c == 'l') s.back().push_back(L(cur, to)); else s.back().push_back(B(cur, { v[0],v[1] }, { v[2],v[3] }, to)); cur = to; }
  return s;
}
inline void region_case(const vector<string>& a, Ctx& x) { if (a.size() < 2) return; Shape S = shape_of(a[0]), C = shape_of(a[1]); bool cub = false; for (auto* s : { &S, &C }) for (auto& c : *s) for (auto& e : c) cub |= e.cub; check_pair(S, C, x, cub ? 61 : 0, false); }
}
