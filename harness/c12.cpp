// C12: the Bezier operations against extended-precision evaluation.
#include "mth.h"
using namespace vh;
typedef long double ld; struct P2 { ld x, y; };
static P2 ev(const bezier_cubic& b, ld t) { ld k = 1 - t; ld w[4] = { k * k * k, 3 * k * k * t, 3 * k * t * t, t * t * t }; const vec2* p[4] = { &b.p0,&b.p1,&b.p2,&b.p3 }; P2 r{ 0,0 }; for (int i = 0; i < 4; ++i) { r.x += w[i] * p[i]->x; r.y += w[i] * p[i]->y; } return r; }
static bool near(vec2 a, P2 b, double e) { return std::abs((double)(a.x - b.x)) <= e && std::abs((double)(a.y - b.y)) <= e; }
static double mag(const bezier_cubic& b) { double m = 0; for (auto p : { b.p0,b.p1,b.p2,b.p3 }) m = std::max({ m, std::abs(p.x), std::abs(p.y) }); return std::max(m, 1e-12); }
static bool sub(const bezier_cubic& b, const bezier_cubic& s, ld t0, ld t1, double e) { for (int k = 0; k <= 6; ++k) { ld u = k / 6.0L; P2 q = ev(s, u); if (!near(vec2((double)q.x, (double)q.y), ev(b, t0 + (t1 - t0) * u), e)) return false; } return true; }
static void one(const bezier_cubic& b, Ctx& x) {
  string id = bs(b); if (x.verbose) x.d(id + " "); double M = mag(b), e = 1e-13 * M * 40, ext = bext(b); x.states++;
  // evaluation
  for (int k = -2; k <= 18; ++k) { double t = k / 16.0; x.transitions++; x.validated++; vec2 p = b.point_at(t); if (!near(p, ev(b, t), e * 4)) return x.fail(id + fmt(": point_at(%g) = %s", t, ps(p).c_str())); }
  if (b.point_at(0) != b.p0 || b.point_at(1) != b.p3) return x.fail(id + ": point_at(0) or point_at(1) is not the end point");
  // one split
  for (int k = 0; k <= 8; ++k) { double t = k / 8.0; bezier_cubic l, r; x.transitions++; x.validated++; b.split(t, &l, &r); if (l.p0 != b.p0 || r.p3 != b.p3 || l.p3 != r.p0) return x.fail(id + fmt(": split(%g) does not keep the ends or does not join: ", t) + bs(l) + " | " + bs(r)); if (!sub(b, l, 0, t, e) || !sub(b, r, t, 1, e)) return x.fail(id + fmt(": split(%g) traces another curve: ", t) + bs(l) + " | " + bs(r)); }
  // every ascending set of split parameters out of {1/8 .. 7/8}, up to 4
  for (int m = 1; m < 128; ++m) { int n = __builtin_popcount(m); if (n > 4) continue; double ts[4]; int c = 0; for (int k = 0; k < 7; ++k) if (m >> k & 1) ts[c++] = (k + 1) / 8.0; bezier_cubic o[6]; bezier_cubic guard{ {7,7},{7,7},{7,7},{7,7} }; o[n + 1] = guard; b.split(ts, o, n); x.transitions++; x.validated++;
    if (o[n + 1].p0 != guard.p0 || o[n + 1].p3 != guard.p3) return x.fail(id + fmt(": split at %d parameters writes more than %d pieces", n, n + 1)); if (o[0].p0 != b.p0 || o[n].p3 != b.p3) return x.fail(id + fmt(": split at the %d parameters of mask %d loses the ends", n, m));
    for (int k = 0; k <= n; ++k) { if (k && o[k].p0 != o[k - 1].p3) return x.fail(id + fmt(": split mask %d: pieces %d and %d do not join", m, k - 1, k)); if (!sub(b, o[k], k ? ts[k - 1] : 0, k < n ? ts[k] : 1, e * 10)) return x.fail(id + fmt(": split mask %d: piece %d traces another curve", m, k)); } }
  // extrema
  for (int axis = 0; axis < 2; ++axis) {
    auto c = [&](vec2 p) { return axis ? p.y : p.x; }; ld a0 = c(b.p0), a1 = c(b.p1), a2 = c(b.p2), a3 = c(b.p3); Poly3 p = poly3(a0, a1, a2, a3); Poly3 d{ { p.c[1], 2 * p.c[2], 3 * p.c[3], 0 } };
    ld sc = fabsl(d.c[0]) + fabsl(d.c[1]) + fabsl(d.c[2]); vector<ld> rt = sc > 0 ? roots(d, 0, 1) : vector<ld>{};
    ld lo = std::min(a0, a3), hi = std::max(a0, a3); for (ld t : rt) { lo = std::min(lo, p(t)); hi = std::max(hi, p(t)); }
    auto r = b.get_boundary(); x.validated++; double gl = c(r.min), gh = c(r.max); if (axis == 0) x.transitions++; double te = 1e-7 * ext + e;
    if (!(std::abs((double)(gl - lo)) <= te && std::abs((double)(gh - hi)) <= te)) return x.fail(id + fmt(": get_boundary says %c in [%.12g,%.12g], the curve spans [%.12Lg,%.12Lg]", axis ? 'y' : 'x', gl, gh, lo, hi));
    if (axis) { double t[2] = { -9,-9 }; int n = b.split_y(&t[0], &t[1]); x.transitions++; x.out(n); x.out((uint64_t)llround((t[0] + t[1]) * 4096));
      if (n < 0 || n > 2) return x.fail(id + fmt(": split_y returns %d", n));
      for (int k = 0; k < n; ++k) if (!(t[k] > 0 && t[k] < 1)) return x.fail(id + fmt(": split_y parameter %.17g outside (0,1)", t[k])); if (n == 2 && !(t[0] <= t[1])) return x.fail(id + fmt(": split_y parameters not ascending: %.17g %.17g", t[0], t[1]));
      // every piece is monotone in y up to rounding
      double cut[4] = { 0, n > 0 ? t[0] : 1, n > 1 ? t[1] : 1, 1 };
      for (int k = 0; k <= n; ++k) { double u = cut[k], v = k == n ? 1 : cut[k + 1]; ld pu = p(u), pv = p(v), l2 = std::min(pu, pv), h2 = std::max(pu, pv); x.validated++; for (ld q : rt) if (q > u && q < v) { ld w = p(q); if (w < l2 - te || w > h2 + te) return x.fail(id + fmt(": piece [%g,%g] is not monotone in y", u, v)); } } 
      for (int k = 0; k < n; ++k) { x.validated++; if (fabsl(d(t[k])) > 1e-5L * sc) return x.fail(id + fmt(": split_y reports %.17g, which is no extremum", t[k])); } }
  }
  // point_at_y
  { Poly3 p = poly3(b.p0.y, b.p1.y, b.p2.y, b.p3.y); ld lo = std::min({ b.p0.y,b.p1.y,b.p2.y,b.p3.y }), hi = std::max({ b.p0.y,b.p1.y,b.p2.y,b.p3.y }); 
    for (int k = -1; k <= 18; ++k) { double y = k == 18 ? b.p0.y : (double)(lo + (hi - lo) * (k / 16.0L)); if (hi == lo) break; auto r = b.point_at_y(y); x.transitions++; x.validated++; if (r.count < 0 || r.count > 3) return x.fail(id + fmt(": point_at_y(%.17g) returns %d parameters", y, r.count));
      Poly3 q = p; q.c[0] -= y; auto rt = roots(q, 0, 1); if (k >= 18) { ld t = k - 18; if (fabsl(q.d(t)) >= 2e-3L * ext) { bool lone = true; for (ld u : rt) if (fabsl(u - t) > 1e-9L && fabsl(u - t) < 1e-3) lone = false; int n = 0; for (int i = 0; i < r.count; ++i) n += fabsl(r.t[i] - t) < 1e-5; if (lone && n != 1) return x.fail(id + fmt(": point_at_y(%.17g), the height of the start, reports it %d times", y, n)); } }
      for (int i = 0; i < r.count; ++i) { if (!(r.t[i] >= 0 && r.t[i] <= 1)) return x.fail(id + fmt(": point_at_y(%.17g) returns t=%.17g", y, r.t[i])); if (fabsl(q(r.t[i])) > 1e-7L * ext + e) return x.fail(id + fmt(": point_at_y(%.17g) returns t=%.17g where y is %.17Lg", y, r.t[i], p(r.t[i]))); }
      for (ld t : rt) { if (t < 1e-6 || t > 1 - 1e-6 || fabsl(q.d(t)) < 2e-3L * ext) continue; bool lone = true; for (ld u : rt) if (u != t && fabsl(u - t) < 1e-3) lone = false; if (!lone) continue; x.validated++; int n = 0; for (int i = 0; i < r.count; ++i) n += fabsl(r.t[i] - t) < 1e-5; if (n != 1) return x.fail(id + fmt(": point_at_y(%.17g) reports the parameter %.12Lg %d times", y, t, n)); } } }
}
int main(int argc, char** argv) {
  vector<Family> f; bool deep = thorough();
  f.push_back({ "grid", vpow(9, 4), 40, [](uint64_t i, Ctx& x) { Dec d(i); bezier_cubic b{ gpt(2, d(9)), gpt(2, d(9)), gpt(2, d(9)), gpt(2, d(9)) }; for (int m = 0; m < n_amap; ++m) { one(bmap(b, amap(m)), x); if (x.failed) return; } }, "all cubics with control points on the 3x3 grid under 10 affine maps" });
  int N = deep ? 5 : 4; uint64_t M = (N + 1) * (N + 1);
  f.push_back({ "fine", vpow(M, 3) * 2, 60, [=](uint64_t i, Ctx& x) { Dec d(i); bezier_cubic b; b.p0 = d(2) ? vec2(1, 0) : vec2(0, 0); b.p1 = gpt(N, d(M)); b.p2 = gpt(N, d(M)); b.p3 = gpt(N, d(M)); one(b, x); if (!x.failed) one(bmap(b, amap(6)), x); }, fmt("all cubics with control points on the %dx%d grid, start corner or edge, plain and sheared", N + 1, N + 1) });
  f.push_back({ "ordinates", vpow(13, 4), 200, [](uint64_t i, Ctx& x) { Dec d(i); static const double v[13] = { 0, 1, -1, 2, 3, 1.0 / 3, 2.0 / 3, 0.5, 10, -7, 0.1, 1e-3, 100 }; bezier_cubic b{ {0, v[d(13)]}, {0.3, v[d(13)]}, {0.6, v[d(13)]}, {1, v[d(13)]} }; one(b, x); if (x.failed) return; for (auto* p : { &b.p0,&b.p1,&b.p2,&b.p3 }) std::swap(p->x, p->y); one(b, x); }, "function-like cubics with all quadruples of 13 ordinates (equal, thirds, widely different), both axes" });
  f.push_back({ "circle", 7 * 7 * 12, 20, [](uint64_t i, Ctx& x) { Dec d(i); static const double v[7] = { 0, 1, -3, 0.1, 1000, -0.001, 12345.678 }, rr[12] = { 1, 2, 0.5, 1e-3, 1e3, 0.1, 3.3, 7, 1e5, 0.25, 40, 0.7 }; vec2 c(v[d(7)], v[d(7)]); double r = rr[d(12)]; bezier_cubic o[4]; bezier_cubic::circle(c, r, o); x.states++; x.transitions++; x.out(i); if (x.verbose) x.d("circle " + ps(c) + fmt(" r=%g", r)); double e = 1e-12 * (std::abs(c.x) + std::abs(c.y) + r);
      for (int k = 0; k < 4; ++k) { x.validated++; if ((o[k].p3 - o[(k + 1) % 4].p0).dist() > e) return x.fail(fmt("circle: arcs %d and %d do not join", k, (k + 1) % 4)); double la = 0; for (int s = 0; s <= 32; ++s) { double t = s / 32.0; vec2 p = bez_at(o[k], t) - c; if (std::abs(p.dist() - r) > 3e-4 * r + e) return x.fail(fmt("circle: arc %d at t=%g is %.9g from the centre, radius %g", k, t, p.dist(), r)); double a = std::atan2(p.y, p.x) - k * 1.5707963267948966; a = std::remainder(a, 6.283185307179586); if (s && a <= la) return x.fail(fmt("circle: arc %d does not run counterclockwise from %d degrees", k, k * 90)); if ((!s && std::abs(a) > 1e-6 + e / r) || (s == 32 && std::abs(a - 1.5707963267948966) > 1e-6 + e / r)) return x.fail(fmt("circle: arc %d does not span its quadrant", k)); la = a; } } }, "49 centres x 12 radii" });
  return harness_main(argc, argv, f);
}
