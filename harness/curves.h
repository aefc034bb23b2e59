// Finite families of (subject, clip) pairs with cubic Bezier edges, and the
// general-position rule that delimits them.  The rule looks at the input only.
#pragma once
#include "lines.h"
namespace vh {
// --- general position: wherever two edges come close they cross at an angle ---
struct Cone { double c, h; bool any; };           // centre angle, half width
inline double angdiff(double a, double b) { double d = std::remainder(a - b, 2 * 3.14159265358979323846); return d; }
inline Cone cone(const Seg& s) {
  vector<point> v; if (s.cub) { v = { s.p[1] - s.p[0], s.p[2] - s.p[1], s.p[3] - s.p[2] }; } else v = { s.p[3] - s.p[0] };
  double sc = 0; for (auto& p : v) sc = std::max(sc, p.dist()); Cone r{ 0,0,false };
  double lo = 0, hi = 0, base = 0;
  for (auto& p : v) { if (p.dist() <= 1e-9 * sc || sc == 0) continue; double a = std::atan2(p.y, p.x); if (!r.any) { r.any = true; base = a; } else { double d = angdiff(a, base); lo = std::min(lo, d); hi = std::max(hi, d); } }
  r.c = base + (lo + hi) / 2; r.h = (hi - lo) / 2; return r;
}
inline void halve(const Seg& s, Seg& a, Seg& b) {
  if (!s.cub) { point m = (s.p[0] + s.p[3]) * 0.5; a = L(s.p[0], m); b = L(m, s.p[3]); return; }
  point p01 = (s.p[0] + s.p[1]) * 0.5, p12 = (s.p[1] + s.p[2]) * 0.5, p23 = (s.p[2] + s.p[3]) * 0.5, q0 = (p01 + p12) * 0.5, q1 = (p12 + p23) * 0.5, m = (q0 + q1) * 0.5;
  a = B(s.p[0], p01, q0, m); b = B(m, q1, p23, s.p[3]);
}
inline bool boxes(const Seg& a, const Seg& b, double e) {
  for (int ax = 0; ax < 2; ++ax) { double al = 1e300, ah = -1e300, bl = 1e300, bh = -1e300; for (int i = 0; i < 4; ++i) { double u = ax ? a.p[i].y : a.p[i].x, v = ax ? b.p[i].y : b.p[i].x; al = std::min(al, u); ah = std::max(ah, u); bl = std::min(bl, v); bh = std::max(bh, v); } if (al > bh + e || bl > ah + e) return false; }
  return true;
}
constexpr double gp_angle = 0.06;                  // ~3.4 degrees
// joint: b starts where a ends (adjacent in a contour); both ends possible for two-edge contours
inline bool gp_pair(const Seg& a, const Seg& b, double e, int depth, bool joint_ab, bool joint_ba, int& budget) {
  if (!boxes(a, b, e)) return true;
  if (--budget < 0) return false;
  Cone ca = cone(a), cb = cone(b); if (!ca.any || !cb.any) return false;
  double d = std::abs(angdiff(ca.c, cb.c)), dd = std::min(d, 3.14159265358979323846 - d);
  if (dd - ca.h - cb.h > gp_angle && ca.h < 0.8 && cb.h < 0.8) return true;                     // transversal
  if ((joint_ab ^ joint_ba) && d + ca.h + cb.h < 1.5) return true;                              // smooth continuation
  if (depth <= 0) return false;
  Seg a0, a1, b0, b1; halve(a, a0, a1); halve(b, b0, b1);
  return gp_pair(a0, b0, e, depth - 1, false, false, budget) && gp_pair(a0, b1, e, depth - 1, false, joint_ba, budget)
    && gp_pair(a1, b0, e, depth - 1, joint_ab, false, budget) && gp_pair(a1, b1, e, depth - 1, false, false, budget);
}
inline bool self_ok(const Seg& s, double e, int depth, int& budget) {
  if (!s.cub) return true; Cone c = cone(s); if (!c.any) return false; if (c.h < 0.75) return true; if (depth <= 0 || --budget < 0) return false;
  Seg a, b; halve(s, a, b); return self_ok(a, e, depth - 1, budget) && self_ok(b, e, depth - 1, budget) && gp_pair(a, b, e, depth - 1, true, false, budget);
}
inline bool general_position(const Shape& S0, const Shape& C0) {
  Shape S = closed(S0), C = closed(C0); double ext = extent(S, C), e = 1e-4 * ext; int budget = 1000000;
  vector<vector<Seg>> cs; for (auto* s : { &S, &C }) for (auto& c : *s) { vector<Seg> v; for (auto& q : c) if (q.cub || q.p[0] != q.p[3]) v.push_back(q); cs.push_back(v); }
  for (auto& c : cs) for (auto& s : c) if (!self_ok(s, e, 13, budget)) return false;
  for (size_t i = 0; i < cs.size(); ++i) for (size_t j = i; j < cs.size(); ++j) for (size_t a = 0; a < cs[i].size(); ++a) for (size_t b = (i == j ? a + 1 : 0); b < cs[j].size(); ++b) {
    const Seg& u = cs[i][a]; const Seg& v = cs[j][b]; if (!u.cub && !v.cub) continue;         // straight edges need no restriction
    size_t n = cs[i].size(); bool ab = i == j && (a + 1) % n == b, ba = i == j && (b + 1) % n == a;
    if (!gp_pair(u, v, e, 13, ab, ba, budget)) return false;
  }
  return true;
}

// --- curved shapes -----------------------------------------------------------
inline Contour circ(double r) { const double d = r * 0.5522847498; return { B({r,0},{r,d},{d,r},{0,r}), B({0,r},{-d,r},{-r,d},{-r,0}), B({-r,0},{-r,-d},{-d,-r},{0,-r}), B({0,-r},{d,-r},{r,-d},{r,0}) }; }
inline Contour roundrect(double w, double h, double r) { const double k = r * 0.4477152502; return { L({-w + r,-h},{w - r,-h}), B({w - r,-h},{w - k,-h},{w,-h + k},{w,-h + r}), L({w,-h + r},{w,h - r}), B({w,h - r},{w,h - k},{w - k,h},{w - r,h}), L({w - r,h},{-w + r,h}), B({-w + r,h},{-w + k,h},{-w,h - k},{-w,h - r}), L({-w,h - r},{-w,-h + r}), B({-w,-h + r},{-w,-h + k},{-w + k,-h},{-w + r,-h}) }; }
inline vector<Contour> atoms() {
  vector<Contour> v;
  v.push_back(circ(1));
  v.push_back(map(circ(1), Aff{ 1.5,0.3,-0.2,0.6,0,0 }));
  v.push_back(roundrect(1.2, 0.8, 0.5));
  v.push_back({ B({-1.2,0},{-0.6,1.1},{0.6,1.1},{1.2,0}), B({1.2,0},{0.5,-0.9},{-0.7,-1.0},{-1.2,0}) });            // lens
  v.push_back({ B({-1,-0.5},{-1.5,1.8},{1.7,1.6},{1,-0.5}) });                                                      // D, closed by a line
  v.push_back({ B({0,-1},{2.5,1.2},{-2.5,1.1},{0,-1}) });                                                           // petal
  v.push_back({ B({-1.3,-0.6},{2.6,1.3},{-2.4,1.4},{1.3,-0.7}) });                                                  // self-crossing loop
  v.push_back({ B({-1,-1},{0.8,-0.4},{-0.7,0.5},{1,1}), L({1,1},{-0.2,1.2}), B({-0.2,1.2},{-1.8,0.4},{0.3,-0.2},{-1,-1}) }); // S sides
  v.push_back({ B({-1.1,0.1},{-0.4,1.9},{-0.3,-1.7},{0.2,0.3}), B({0.2,0.3},{0.7,1.6},{1.0,0.2},{1.2,-0.3}), L({1.2,-0.3},{0.1,-1.1}) }); // two bumps
  v.push_back({ L({-1,-1},{1.1,-0.9}), L({1.1,-0.9},{0.1,1.2}) });                                                  // triangle
  v.push_back({ L({-1,-0.75},{1,-0.75}), L({1,-0.75},{1,0.75}), L({1,0.75},{-1,0.75}) });                           // rectangle
  v.push_back({ B({0,1.1},{1.4,1.1},{1.2,-0.2},{0,-1.2}), B({0,-1.2},{-1.2,-0.2},{-1.4,1.1},{0,1.1}) });            // drop
  return v;
}
inline Contour cubic_on_grid(int N, Dec& d, int n, point start) { Contour c; uint64_t M = (N + 1) * (N + 1); point a = start; for (int i = 0; i < n; ++i) { point p1 = gp(N, d(M)), p2 = gp(N, d(M)), e = gp(N, d(M)); c.push_back(B(a, p1, p2, e)); a = e; } return c; }

// the stated domain of the curved families: general position, except for exact copies of a contour (then the base against the cutting contour)
inline bool judged(const PairFam& p, const Shape& S, const Shape& C) { if (p.name == "identical" || p.name == "dips") return true; if (p.name == "identical-cut") return general_position({ S[0] }, { C.back() }); return general_position(S, C); }
inline vector<PairFam> curve_families(bool deep) {
  vector<PairFam> f; auto at_ = atoms();
  static const double offs_q[] = { -1.31, -0.57, 0.083, 0.71, 1.47 };
  static const double offs_d[] = { -1.73, -1.31, -0.93, -0.57, -0.21, 0.083, 0.37, 0.71, 1.13, 1.47, 1.87 };
  vector<double> of(deep ? std::begin(offs_d) : std::begin(offs_q), deep ? std::end(offs_d) : std::end(offs_q)); uint64_t no = of.size(), na = at_.size();
  f.push_back({ "atom-pairs", na * na * no * no * 2, 8, [=](uint64_t i, Shape& S, Shape& C) { Dec d(i); double dx = of[d(no)], dy = of[d(no)] + 0.017; auto a = at_[d(na)], b = map(at_[d(na)], Aff{ 1,0,0,1,dx,dy }); if (d(2)) b = reversed(closed(b)); S = { a }; C = { b }; },
    fmt("all ordered pairs of 12 shapes (circle, ellipse, rounded rectangle, lens, D, petal, self-crossing loop, S-sided, bumps, triangle, rectangle, drop) at all %d relative offsets, both orientations of the second", (int)(no * no)) });
  f.push_back({ "atom-affine", na * na * affs().size() * 2, 8, [=](uint64_t i, Shape& S, Shape& C) { Dec d(i); auto A = affs(); auto& m = A[d(A.size())]; auto a = at_[d(na)], b = map(at_[d(na)], Aff{ 0.8,0.1,-0.25,0.9,0.41,0.33 }); if (d(2)) b = map(b, Aff{ 0.6,0,0,0.6,-0.35,0.1 }); S = { map(a, m) }; C = { map(b, m) }; },
    "all ordered pairs of the 12 shapes under 11 affine maps (rotated, sheared, mirrored, scaled 1e-3..1e4, offset)" });
  f.push_back({ "identical", na * 4 * 2, 4, [=](uint64_t i, Shape& S, Shape& C) { Dec d(i); auto a = at_[d(na)]; auto ca = closed(a); int k = (int)d(4); bool tr = d(2); auto A = affs(); if (tr) { a = map(a, A[1]); ca = map(ca, A[1]); } S = { a }; if (k == 0) C = { a }; else if (k == 1) C = { reversed(ca) }; else if (k == 2) { S = { a, a }; C = { a }; } else { S = { a, reversed(ca) }; C = { a }; } },
    "every shape against itself: the same curved boundary in subject and clip, twice in the subject, and reversed" });
  f.push_back({ "identical-cut", na * 6 * na * 2 * (deep ? 4 : 2), 8, [=](uint64_t i, Shape& S, Shape& C) { Dec d(i); auto a = at_[d(na)]; auto r = reversed(closed(a)); int k = (int)d(6); auto cut = at_[d(na)]; if (d(2)) cut = reversed(closed(cut)); static const Aff o4[4] = { { 0.9,0.1,-0.15,0.8,0.41,0.33 },{ 1.1,-0.2,0.1,0.7,-0.37,-0.29 },{ 0.5,0.3,-0.3,0.6,0.13,-0.47 },{ 1.3,0,0.2,0.4,-0.11,0.21 } }; cut = map(cut, o4[d(deep ? 4 : 2)]);
    S = { a }; if (k == 0) C = { a }; else if (k == 1) C = { r }; else if (k == 2) { S = { a, a }; C = { r }; } else if (k == 3) { S = { a, r }; C = { a }; } else if (k == 4) S = { a, r }; else S = { a, a }; C.push_back(cut); }, "every shape with exact copies of itself (in the subject, in the clip, reversed, twice) and a further shape that cuts all of them" });
  f.push_back({ "rings", na * na * (deep ? no * no : 4), 8, [=](uint64_t i, Shape& S, Shape& C) { Dec d(i); auto a = at_[d(na)], b = at_[d(na)]; double dx, dy; if (deep) { dx = of[d(no)]; dy = of[d(no)]; } else { static const double o2[4] = { -0.7,0.31,0.83,1.21 }; dx = o2[d(4)]; dy = 0.27 - dx / 3; }
    S = { map(circ(1), Aff{ 1.9,0,0,1.7,0,0 }), map(reversed(closed(a)), Aff{ 0.7,0.05,0,0.7,0.1,-0.05 }) }; C = { map(b, Aff{ 0.9,0,0.1,1.1,dx,dy }) }; }, "ellipse with a hole of every shape against every shape" });
  static const vector<Shape> clips = { {}, { map(circ(1), Aff{ 0.93,0,0,1.07,1.13,0.91 }) }, { poly({ {-0.37,0.63},{2.41,0.29},{1.27,2.53} }) }, { Contour{ B({0.21,-0.33},{2.9,1.4},{-0.7,1.1},{1.77,2.37}) } } };
  { int N = deep ? 3 : 2; uint64_t M = ipow((N + 1) * (N + 1), 3); uint64_t ns = deep ? 6 : 3;
    f.push_back({ "one-cubic", M * ns * clips.size(), 40, [=](uint64_t i, Shape& S, Shape& C) { Dec d(i); C = clips[d(clips.size())]; static const int st[6] = { 0,1,4,2,5,7 }; point s = gp(N, st[d(ns)]); S = { cubic_on_grid(N, d, 1, s) }; }, fmt("every contour of one cubic (closed by a line) with control points on the %dx%d grid, against nothing, a circle, a triangle and a loop", N + 1, N + 1) }); }
  if (!deep) { f.push_back({ "two-cubics", ipow(9, 6) / 27, 40, [=](uint64_t i, Shape& S, Shape& C) { Dec d(i); S = { cubic_on_grid(2, d, 2, point(0, 0)) }; C = clips[2]; }, "contours of two cubics, start at a corner, first five points enumerated on the 3x3 grid and the last one over its lower third, against a triangle" }); }
  else { f.push_back({ "two-cubics", ipow(9, 6), 40, [=](uint64_t i, Shape& S, Shape& C) { Dec d(i); S = { cubic_on_grid(2, d, 2, point(0, 0)) }; C = clips[1 + i % 3]; }, "all contours of two cubics with points on the 3x3 grid, start at a corner, clip shape by rotation" }); }
  { uint64_t M = ipow(9, 3); vector<uint64_t> sel; for (uint64_t k = 0; k < M; k += deep ? 3 : 17) sel.push_back(k); uint64_t n = sel.size();
    f.push_back({ "cubic-pairs", n * n, 40, [=](uint64_t i, Shape& S, Shape& C) { Dec d(i); Dec a(sel[d(n)]), b(sel[d(n)]); S = { cubic_on_grid(2, a, 1, point(0, 0)) }; C = { map(cubic_on_grid(2, b, 1, point(2, 1)), Aff{ 0.97,0.13,-0.09,1.03,0.07,-0.04 }) }; }, fmt("all pairs of %d one-cubic contours on the 3x3 grid (start corner / edge middle, second slightly skewed)", (int)n) }); }
  { // extrema close to the ends of a curve, and edges that cut the small dips they leave
    static const double ds[] = { 0.11, 0.05, 0.023, 0.011, 0.006, 0.004, 0.0015, 0.0005, 0.0001 };
    f.push_back({ "dips", 9 * 3 * 8 * 6 * 2, 8, [=](uint64_t i, Shape& S, Shape& C) { Dec d(i); double t = ds[d(9)]; int where = (int)d(3), sym = (int)d(8), cut = (int)d(6); bool left = d(2);
      auto slope = [&](double b2, double b3) { return -(2 * b2 * t * (1 - t) + b3 * t * t) / ((1 - t) * (1 - t)); };  // the first control leg that puts the extremum at t
      double b1 = 1, b2 = 1, b3 = 1; if (where != 1) b1 = slope(b2, b3); if (where != 0) b3 = slope(b2, b1);
      point p[4] = { {0,0}, {1,b1}, {2,b1 + b2}, {3,b1 + b2 + b3} }; Seg q = B(p[0], p[1], p[2], p[3]); double tb[2]; int n = extrema(p[0].y, p[1].y, p[2].y, p[3].y, tb); double lo = 0; for (int k = 0; k < n; ++k) lo = std::min(lo, at(q, tb[k]).y);
      S = { Contour{ q, L(p[3], left ? point(0.3, 3.1) : point(3.4, 3.2)) } };
      double h = cut == 0 ? 0.5 * lo : cut == 1 ? 0 : cut == 2 ? -0.5 * lo : 0.4; if (cut == 5) C = { map(circ(1), Aff{ 0.9,0,0,0.8,1.4,0.9 }) }; else if (cut == 4) C = { poly({ {0.013,-1},{4,1},{1,4} }) }; else C = { poly({ {-1.3,-1.7},{4.6,-1.7},{4.6,h},{-1.3,h} }) };
      Aff m{ sym & 1 ? -1. : 1., 0, 0, sym & 2 ? -1. : 1., 0.3, 0.1 }; if (sym & 4) { S[0] = reversed(closed(S[0])); } S[0] = map(S[0], m); C[0] = map(C[0], m); },
      "cubics with an extremum at 0.0001..0.11 from the start, the end or both, mirrored and reversed, cut through the small dip, at its vertex, above it, by a slanted edge and by an ellipse" }); }
  { int mx = deep ? 24 : 10;
    auto make = [](int k, int n, Shape& S, Shape& C) {
      if (k == 0) { for (int j = 0; j < n; ++j) S.push_back(map(circ(1), Aff{ 1,0,0,1,j * 1.37,0.11 * j })); C = { map(roundrect(1, 1, 0.4), Aff{ n * 0.7 + 0.5,0,0,0.6,n * 0.66,0.33 }) }; }
      else if (k == 1) { for (int j = 0; j < n; ++j) S.push_back(map(j & 1 ? reversed(circ(1)) : circ(1), Aff{ 1 + j * 0.7,0,0,1 + j * 0.6,0,0 })); C = { map(circ(1), Aff{ 0.4 * n,0.1,0,0.5 * n + 0.3,0.31 * n,0.21 }) }; }
      else if (k == 2) { Contour w; point a(0, 0); for (int j = 0; j < n; ++j) { point e(j + 1.0, 0.07 * (j + 1)); w.push_back(B(a, a + point(0.3, 1.3), e + point(-0.3, -1.2), e)); a = e; } w.push_back(L(a, { n * 0.5,-3 })); S = { w }; C = { rectc(-0.3, -0.41, n + 0.3, 0.53, false) }; }
      else { Contour w; for (int j = 0; j < 2 * n + 3; ++j) { double t0 = 6.283185307179586 * j / (2 * n + 3), t1 = 6.283185307179586 * (j + 1) / (2 * n + 3), tm = (t0 + t1) / 2; w.push_back(B({ 3 * std::cos(t0),3 * std::sin(t0) }, { 4.2 * std::cos(t0 + 0.4 * (tm - t0)),4.2 * std::sin(t0 + 0.4 * (tm - t0)) }, { 4.2 * std::cos(t1 - 0.4 * (tm - t0)),4.2 * std::sin(t1 - 0.4 * (tm - t0)) }, { 3 * std::cos(t1),3 * std::sin(t1) })); } S = { w }; C = { map(circ(1), Aff{ 3.3,0,0,3.2,0.4,0.3 }) }; } };
    f.push_back({ "curved-scalable", (uint64_t)mx * 4, 1, [=](uint64_t i, Shape& S, Shape& C) { Dec d(i); int n = 1 + (int)d(mx), k = (int)d(4); make(k, n, S, C); },
      fmt("chains of circles, concentric rings, waves and flowers, every size 1..%d", mx) });
    f.push_back({ "curved-large", 8, 1, [=](uint64_t i, Shape& S, Shape& C) { Dec d(i); int n = d(2) ? 40 : 70; make((int)d(4), n, S, C); }, "the same schemes at sizes 40 and 70" }); }
  return f;
}
}
