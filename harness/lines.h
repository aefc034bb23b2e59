// Finite families of straight-edged (subject, clip) pairs.
#pragma once
#include "geo.h"
namespace vh {
struct PairFam { string name; uint64_t size; uint32_t chunk; std::function<void(uint64_t, Shape&, Shape&)> make; string bound; };

inline Contour rectc(double x0, double y0, double x1, double y1, bool cw) { return cw ? poly({ {x0,y0},{x0,y1},{x1,y1},{x1,y0} }) : poly({ {x0,y0},{x1,y0},{x1,y1},{x0,y1} }); }
inline vector<Contour> rects(int N, bool both) { vector<Contour> v; for (int x0 = 0; x0 < N; ++x0) for (int x1 = x0 + 1; x1 <= N; ++x1) for (int y0 = 0; y0 < N; ++y0) for (int y1 = y0 + 1; y1 <= N; ++y1) { v.push_back(rectc(x0, y0, x1, y1, false)); if (both) v.push_back(rectc(x0, y0, x1, y1, true)); } return v; }
inline point gp(int N, uint64_t i) { return point((double)(i % (N + 1)), (double)(i / (N + 1))); }
inline vector<Contour> tris(int N, bool both) { vector<Contour> v; int M = (N + 1) * (N + 1); for (int a = 0; a < M; ++a) for (int b = a + 1; b < M; ++b) for (int c = b + 1; c < M; ++c) { point A = gp(N, a), Bp = gp(N, b), Cp = gp(N, c); if ((Bp - A).cross(Cp - A) == 0) continue; v.push_back(poly({ A,Bp,Cp })); if (both) v.push_back(poly({ A,Cp,Bp })); } return v; }
inline uint64_t ipow(uint64_t b, int e) { uint64_t r = 1; while (e--) r *= b; return r; }
inline Contour seqc(int N, int K, uint64_t id) { Poly p; uint64_t M = (N + 1) * (N + 1); for (int i = 0; i < K; ++i) { p.push_back(gp(N, id % M)); id /= M; } return poly(p); }

inline vector<Aff> affs() {
  double c = std::cos(0.3), s = std::sin(0.3);
  return { Aff{}, Aff{ c,-s,s,c,0.25,-0.75 }, Aff{ 1,0.37,0.11,1,-5,3 }, Aff{ 0,1,1,0,0,0 }, Aff{ -1,0,0,1,0,0 }, Aff{ 1,0,0,-1,0,0 },
    Aff{ 1e-3,0,0,1e-3,0,0 }, Aff{ 1e4 * c,-1e4 * s,1e4 * s,1e4 * c,-3e4,2e4 }, Aff{ 100,0,0,1,-250,-7 }, Aff{ 0.1,0,0,0.1,0.3,-0.7 }, Aff{ c,s,-s,c,1000.125,-2000.5 } };
}
// clip shapes that the exhaustive vertex sequences are combined with
inline vector<Shape> partners() {
  vector<Shape> v;
  v.push_back({});
  v.push_back({ rectc(0,0,2,2,false) });
  v.push_back({ poly({ {0,1},{1,0},{2,1},{1,2} }) });
  v.push_back({ poly({ {0,0},{2,2},{2,0},{0,2} }) });
  v.push_back({ rectc(0,0,2,1,true) });
  v.push_back({ poly({ {0,0},{2,1},{0,2} }) });
  v.push_back({ rectc(-1,-1,3,3,false), rectc(0,0,2,2,true) });
  v.push_back({ rectc(0.5,-1,1.5,3,false), rectc(-1,0.5,3,1.5,false) });
  return v;
}
inline Contour starc(int n, int k, double r, double cx, double cy, double ph = 0.1) { Poly p; for (int i = 0; i < n; ++i) { double a = 2 * 3.141592653589793 * ((long)i * k % n) / n + ph; p.push_back({ cx + r * std::cos(a), cy + r * std::sin(a) }); } return poly(p); }
inline Contour comb(int k, double h, double y0) { Poly p; p.push_back({ 0,y0 }); p.push_back({ 2.0 * k,y0 }); for (int i = k - 1; i >= 0; --i) { p.push_back({ 2.0 * i + 1.5,y0 + h }); p.push_back({ 2.0 * i + 0.75,y0 + 1 }); } return poly(p); }
inline Contour stairs(int k) { Poly p; for (int i = 0; i < k; ++i) { p.push_back({ (double)i,(double)i }); p.push_back({ i + 1.0,(double)i }); } p.push_back({ (double)k,(double)k }); p.push_back({ 0,(double)k }); return poly(p); }

// scalable shapes: every size n in a range
inline void scalable(int kind, int n, Shape& S, Shape& C) {
  switch (kind) {
  case 0: S = { comb(n, 10, 0) }; C = { rectc(-1, 4, 2.0 * n + 1, 6, false) }; break;
  case 1: S = { comb(n, 10, 0) }; C = { rectc(0.3, 0.5, 2.0 * n, 7.25, true), rectc(0.9, 2.5, n + 0.1, 5.25, false) }; break;
  case 2: for (int i = 0; i < n; ++i) S.push_back(rectc(i, i, 2.0 * n + 2 - i, 2.0 * n + 2 - i, i & 1)); C = { rectc(-1, n + 0.5, 2.0 * n + 3, n + 1.5, false) }; break;
  case 3: for (int i = 0; i < n; ++i) S.push_back(rectc(i, i, 2.0 * n + 2 - i, 2.0 * n + 2 - i, false)); C = { rectc(n + 0.5, -1, n + 1.75, 2.0 * n + 3, true) }; break;
  case 4: for (int i = 0; i < n; ++i) { S.push_back(rectc(0, 2 * i, 2.0 * n, 2 * i + 1, false)); C.push_back(rectc(2 * i, 0, 2 * i + 1, 2.0 * n, i & 1)); } break;
  case 5: S = { starc(2 * n + 3, n + 1, 5, 0, 0) }; C = { starc(2 * n + 3, 1, 3, 0.5, 0.25) }; break;
  case 6: S = { stairs(n) }; C = { rectc(0.5, 0.5, n + 0.5, n - 0.5, false) }; break;
  case 7: S = { starc(n + 3, 1, 5, 0, 0) }; C = { starc(n + 4, 1, 5, 1, 0.5) }; break;
  case 8: for (int i = 0; i < n; ++i) S.push_back(poly({ {i * 0.7, 0}, {i * 0.7 + 3, 0.5}, {i * 0.7 + 1, 3} })); C = { rectc(-1, 1, n + 4, 2, true) }; break;
  default: S = { stairs(n) }; C = { map(stairs(n), Aff{ -1,0,0,-1,(double)n,(double)n + 1 }) }; break;
  }
}
constexpr int n_scalable = 10;

inline vector<PairFam> line_families(bool deep, double share = 1) {
  vector<PairFam> f; auto A = affs(); uint64_t nA = A.size();
  auto add_pairs = [&](string name, vector<Contour> P, vector<Contour> Q, uint64_t na, uint32_t chunk, string bound) {
    f.push_back({ name, P.size() * Q.size() * na, chunk, [P, Q, A, na](uint64_t i, Shape& S, Shape& C) { Dec d(i); auto& m = A[d(na)]; S = { map(P[d(P.size())], m) }; C = { map(Q[d(Q.size())], m) }; }, bound });
  };
  add_pairs("rect-pairs", rects(deep ? 4 : 3, true), rects(deep ? 4 : 3, true), deep ? 3 : 1, 200, "all ordered pairs of grid rectangles, both orientations");
  add_pairs("rect-pairs-affine", rects(2, true), rects(2, true), nA, 200, "all ordered pairs of 2x2-grid rectangles, both orientations, under 11 affine maps (rotated, sheared, mirrored, scaled 1e-3..1e4, offset)");
  add_pairs("triangle-pairs", tris(2, true), tris(2, true), deep ? nA : 2, 200, "all ordered pairs of non-degenerate triangles on the 3x3 grid, both orientations");
  if (deep) add_pairs("triangle-pairs-4x4", tris(3, false), tris(3, true), 1, 400, "all ordered pairs of triangles on the 4x4 grid");
  {
    auto P = partners(); int K = 4; uint64_t n = ipow(9, K);
    f.push_back({ "quad-sequences", n * P.size(), 400, [P, K](uint64_t i, Shape& S, Shape& C) { Dec d(i); C = P[d(P.size())]; S = { seqc(2, K, d.v) }; }, "all vertex sequences of length 4 on the 3x3 grid (self-crossing, repeated and collinear vertices included) against 8 clip shapes" });
    int K2 = deep ? 6 : 5; uint64_t n2 = ipow(9, K2 - 1); // first vertex fixed up to the symmetry class of the grid: corner, edge, centre
    static const int firsts[3] = { 0,1,4 };
    f.push_back({ "long-sequences", n2 * 3 * (deep ? 4 : 2), 400, [P, K2, deep](uint64_t i, Shape& S, Shape& C) { Dec d(i); static const int pick[4] = { 2,7,3,5 }; C = P[pick[d(deep ? 4 : 2)]]; uint64_t fv = firsts[d(3)]; S = { seqc(2, K2, fv + 9 * d.v) }; }, fmt("all vertex sequences of length %d on the 3x3 grid with the first vertex a corner, an edge middle or the centre", K2) });
  }
  {
    auto R = rects(2, true); uint64_t n = R.size();
    f.push_back({ "rect-triples", n * n * n, 200, [R, n](uint64_t i, Shape& S, Shape& C) { Dec d(i); S = { R[d(n)], R[d(n)] }; C = { R[d(n)] }; }, "two subject rectangles and one clip rectangle, 2x2 grid, both orientations (overlapping, nested, identical, touching)" });
    if (deep) f.push_back({ "rect-quads", n * n * n * n, 400, [R, n](uint64_t i, Shape& S, Shape& C) { Dec d(i); S = { R[d(n)], R[d(n)] }; C = { R[d(n)], R[d(n)] }; }, "two subject and two clip rectangles, 2x2 grid, both orientations" });
    // winding numbers up to +-4 : stacks of the same few rectangles
    auto R3 = rects(1, true); R3.push_back(rectc(0.25, 0.25, 0.75, 1.5, false)); R3.push_back(rectc(0.25, 0.25, 0.75, 1.5, true)); R3.push_back(rectc(0.5, -0.5, 2, 0.5, false)); uint64_t m = R3.size(); int K = deep ? 6 : 5;
    f.push_back({ "stacks", ipow(m, K), 200, [R3, m, K](uint64_t i, Shape& S, Shape& C) { Dec d(i); for (int k = 0; k < K; ++k) (k < K - 1 ? S : C).push_back(R3[d(m)]); }, fmt("all stacks of %d subject and 1 clip rectangles out of 5 (winding numbers from -4 to 4 and beyond)", K - 1) });
  }
  {
    auto T = tris(1, true); auto T2 = tris(2, false); vector<Contour> Q; for (size_t i = 0; i < T2.size(); i += deep ? 1 : 5) Q.push_back(T2[i]); uint64_t n = T2.size(), q = Q.size();
    f.push_back({ "triangle-triples", n * n * q, 400, [T2, Q, n, q](uint64_t i, Shape& S, Shape& C) { Dec d(i); S = { T2[d(n)], reversed(closed(T2[d(n)])) }; C = { map(Q[d(q)], Aff{ 0.9,0.2,-0.15,1.1,0.05,-0.1 }) }; }, "two opposite subject triangles on the 3x3 grid and a skewed clip triangle" });
  }
  {
    int mx = deep ? 60 : 26;
    f.push_back({ "scalable", (uint64_t)n_scalable * mx, 4, [mx](uint64_t i, Shape& S, Shape& C) { Dec d(i); int n = 1 + (int)d(mx); scalable((int)d(n_scalable), n, S, C); }, fmt("10 shape schemes (combs, nested rings, stacked rings, lattices, stars, staircases, fans), every size 1..%d", mx) });
    static const int big[] = { 64, 130, 260 };
    f.push_back({ "large", (uint64_t)n_scalable * 3, 1, [](uint64_t i, Shape& S, Shape& C) { Dec d(i); int n = big[d(3)], k = (int)d(n_scalable); if (k == 4) n /= 4; if (k == 5) n /= 8; scalable(k, n, S, C); }, "the same schemes at sizes 64, 130 and 260 (lattices 16, 32 and 65, full stars 8, 16 and 32): winding numbers, contours, vertices and crossings beyond 256" });
  }
  {
    // horizontal chains: rectilinear polygons with long flat runs, every 2^k profile
    int k = deep ? 8 : 6;
    f.push_back({ "skylines", ipow(3, k), 64, [k](uint64_t i, Shape& S, Shape& C) { Dec d(i); Poly p; p.push_back({ 0,0 }); p.push_back({ (double)k,0 }); for (int j = k - 1; j >= 0; --j) { double h = 1 + (double)d(3); p.push_back({ j + 1.0,h }); p.push_back({ (double)j,h }); } S = { poly(p) }; C = { rectc(0, 1, k, 2, false), rectc(1.5, 2, k - 0.5, 3, false) }; }, fmt("all rectilinear skylines with %d columns of height 1..3 against clips sharing their levels", k) });
    f.push_back({ "canyons", ipow(3, k), 64, [k](uint64_t i, Shape& S, Shape& C) { Dec d(i); Poly p; p.push_back({ 0,4 }); p.push_back({ (double)k,4 }); for (int j = k - 1; j >= 0; --j) { double h = 1 + (double)d(3); p.push_back({ j + 1.0,h }); p.push_back({ (double)j,h }); } S = { poly(p) }; C = { rectc(0, 2, k, 3, true) }; }, fmt("all rectilinear canyons (flat local minima) with %d columns of depth 1..3", k) });
  }
  {
    // the same grid reached by different roundings: 0.1*k, k/10, (k+1)*0.1-0.1 : coordinates that are equal only up to rounding
    auto rnd = [](Contour c, int k) { for (auto& s : c) for (auto& p : s.p) p = k == 0 ? point(p.x * 0.1, p.y * 0.1) : k == 1 ? point(p.x / 10, p.y / 10) : point((p.x + 1) * 0.1 - 0.1, (p.y + 2) * 0.1 - 0.2); return c; };
    auto R = rects(4, deep); auto T = tris(2, true); uint64_t n = R.size(), m = T.size();
    f.push_back({ "rounded-rects", n * n * 2, 200, [=](uint64_t i, Shape& S, Shape& C) { Dec d(i); int k = 1 + (int)d(2); S = { rnd(R[d(n)], 0) }; C = { rnd(R[d(n)], k) }; }, "all ordered pairs of 4x4-grid rectangles whose coordinates agree only up to rounding (0.1*k against k/10 and against (k+1)*0.1-0.1)" });
    f.push_back({ "rounded-triangles", m * m * 2, 200, [=](uint64_t i, Shape& S, Shape& C) { Dec d(i); int k = 1 + (int)d(2); Aff M = i & 1 ? Aff{ 1.5,0,0,2.3,0,0 } : Aff{}; S = { rnd(map(T[d(m)], M), 0) }; C = { rnd(map(T[d(m)], M), k) }; }, "all ordered pairs of 3x3-grid triangles, both orientations, whose coordinates agree only up to rounding" });
    auto P = partners(); static const double es[] = { 1e-16, 1e-14, 1e-12, 1e-10 };
    static const double fs[] = { 1e-6, 1e-5, 1e-4, 1e-3 };
    f.push_back({ "short-edges", m * P.size() * 4 * 8 * 2 / (deep ? 1 : 4), 200, [=](uint64_t i, Shape& S, Shape& C) { Dec d(deep ? i : i * 4 + i % 4); double e = fs[d(4)]; int dir = (int)d(8); dir += dir >= 4; bool mid = d(2); point q(e * (dir % 3 - 1.0), e * (dir / 3 - 1.0)); C = P[d(P.size())]; Contour c = closed(map(T[d(m)], Aff{ 1,0.1,0.05,1,0,0 }));
      if (mid) { point b = c[0].p[3]; Contour k = { c[0], L(b, b + q) }; for (size_t j = 1; j < c.size(); ++j) { Seg s = c[j]; if (j == 1) s.p[0] = b + q; k.push_back(s); } c = k; } else { c.back().p[3] = c.back().p[3] + q; c.back().p[2] = c.back().p[3]; } S = { c }; }, "triangles with one more edge of length 1e-6..1e-3 at a corner, in 8 directions (spikes, notches, tiny crossings)" });
    f.push_back({ "rounded-duplicates", m * P.size() * 4 * 8 * 2 / (deep ? 1 : 4), 200, [=](uint64_t i, Shape& S, Shape& C) { Dec d(deep ? i : i * 4 + i % 4); double e = es[d(4)]; int dir = (int)d(8); dir += dir >= 4; bool mid = d(2); point q(e * (dir % 3 - 1.0), e * (dir / 3 - 1.0)); C = P[d(P.size())]; Contour c = closed(map(T[d(m)], Aff{ 1,0.1,0.05,1,0,0 }));
      if (mid) { point b = c[0].p[3]; Contour k = { c[0], L(b, b + q) }; for (size_t j = 1; j < c.size(); ++j) { Seg s = c[j]; if (j == 1) s.p[0] = b + q; k.push_back(s); } c = k; } else { c.back().p[3] = c.back().p[3] + q; c.back().p[2] = c.back().p[3]; } S = { c }; }, "triangles with a vertex repeated, or closed on the first vertex, with an error of 1e-16..1e-10 in 8 directions" });
  }
  {
    // edges that leave a common vertex in almost the same direction
    static const double es[] = { 1e-3, 1e-4, 1e-5, 1e-6, 3e-7, 1e-7, 3e-8, 1e-8 };
    f.push_back({ "near-slopes", 8 * 2 * 2 * 20 * 4 * 3 * 2, 100, [](uint64_t i, Shape& S, Shape& C) { Dec d(i); double e = es[d(8)] * (d(2) ? -1 : 1), r = d(2) ? 1000 : 1; double th = 6.283185307179586 * d(20) / 20 + 0.0123; int sides = (int)d(4); double ratio[] = { 1, 0.5, 2.75 }; double q = ratio[d(3)]; bool rev = d(2);
      auto pt = [&](double a, double l) { return point(0.5 + std::floor(l * std::cos(a) * 1048576 + 0.5) / 1048576 * r, 0.25 + std::floor(l * std::sin(a) * 1048576 + 0.5) / 1048576 * r); };
      point o(0.5, 0.25), a = pt(th, 1), n(-(a.y - o.y), a.x - o.x), b = o + (a - o) * q + n * (e * q);
      Contour c1 = poly({ o, a, pt(th + (sides & 1 ? 0.7 : -0.7), 0.8) }), c2 = poly({ o, b, pt(th + (sides & 2 ? 0.6 : -0.6), 0.9) });
      S = { c1 }; C = { rev ? reversed(closed(c2)) : c2 }; }, "pairs of triangles with a common vertex and edges leaving it at angles of 1e-8..1e-3, in 20 directions, on either side, of equal and different lengths, at two scales" });
  }
  return f;
}
}
