// C16: the small geometric helpers against exact integer arithmetic.
#include "mth.h"
using namespace vh; using rmath::rect; using rmath::arc; typedef long long ll;
static const double PI = 3.14159265358979323846;
static bool ang(double a, double b, double e) { return std::abs(std::remainder(a - b, 2 * PI)) <= e; }
int main(int argc, char** argv) {
  vector<Family> f; bool deep = thorough(); const int N = deep ? 5 : 4; const uint64_t M = (N + 1) * (N + 1);
  f.push_back({ "rect-from", vpow(M, 4), 2000, [=](uint64_t i, Ctx& x) { Dec d(i); vec2 p[4]; for (auto& v : p) v = gpt(N, d(M)) - vec2(1, 2); x.states++; x.transitions += 4; x.validated += 8; if (x.verbose) x.d("rect::from " + ps(p[0]) + ps(p[1]) + ps(p[2]) + ps(p[3]));
      for (int n = 1; n <= 4; ++n) { rect r = n == 1 ? rect::from({ p[0] }) : n == 2 ? rect::from({ p[0],p[1] }) : n == 3 ? rect::from({ p[0],p[1],p[2] }) : rect::from({ p[0],p[1],p[2],p[3] }); double lx = 1e9, ly = 1e9, hx = -1e9, hy = -1e9; for (int k = 0; k < n; ++k) { lx = std::min(lx, p[k].x); hx = std::max(hx, p[k].x); ly = std::min(ly, p[k].y); hy = std::max(hy, p[k].y); } x.out((uint64_t)(lx * 64 + ly * 16 + hx * 4 + hy + 1000));
        if (r.min != vec2(lx, ly) || r.max != vec2(hx, hy)) return x.fail("rect::from of " + ps(p[0]) + ps(p[1]) + ps(p[2]) + ps(p[3]) + fmt(" (first %d): ", n) + ps(r.min) + ps(r.max));
        if (r.width() != hx - lx || r.height() != hy - ly || r.center() != vec2((lx + hx) / 2, (ly + hy) / 2)) return x.fail("width, height or centre of " + ps(r.min) + ps(r.max)); 
        for (double g : { 0.0, 0.5, 2.0 }) { rect q = r.inflated(g); if (q.min != vec2(lx - g, ly - g) || q.max != vec2(hx + g, hy + g)) return x.fail(ps(r.min) + ps(r.max) + fmt(" inflated by %g: ", g) + ps(q.min) + ps(q.max)); } }
      rect a(p[0]); if (a.min != p[0] || a.max != p[0]) return x.fail("rect of one point"); rect b(p[0], 1.5); if (b.min != p[0] - vec2(1.5, 1.5) || b.max != p[0] + vec2(1.5, 1.5)) return x.fail("rect around a point"); rect c(p[0], p[1]); if (c.min != p[0] || c.max != p[1]) return x.fail("rect of two corners"); }, fmt("bounding rectangles of 1..4 points, all points of the %dx%d grid", N + 1, N + 1) });
  f.push_back({ "rect-intersect", vpow(10, 2) * vpow(10, 2), 2000, [=](uint64_t i, Ctx& x) { Dec d(i); static int lo[10], hi[10]; int n = 0; for (int a = 0; a < 4; ++a) for (int b = a; b < 4; ++b) { lo[n] = a; hi[n++] = b; } int k[4]; for (auto& v : k) v = (int)d(10); rect r(vec2(lo[k[0]], lo[k[1]]), vec2(hi[k[0]], hi[k[1]])), s(vec2(lo[k[2]], lo[k[3]]), vec2(hi[k[2]], hi[k[3]])); bool want = lo[k[0]] <= hi[k[2]] && lo[k[2]] <= hi[k[0]] && lo[k[1]] <= hi[k[3]] && lo[k[3]] <= hi[k[1]]; x.states++; x.transitions += 2; x.validated += 2; x.out(want * 16 + i % 13); if (x.verbose) x.d("rect " + ps(r.min) + ps(r.max) + " with " + ps(s.min) + ps(s.max)); if (r.intersect(s) != want || s.intersect(r) != want) x.fail("rect " + ps(r.min) + ps(r.max) + " with " + ps(s.min) + ps(s.max) + ": intersect says " + (r.intersect(s) ? "yes" : "no") + "/" + (s.intersect(r) ? "yes" : "no")); }, "all pairs of rectangles (flat and empty-width ones included) on the 4x4 grid" });
  f.push_back({ "point-line", vpow(M, 3), 1000, [=](uint64_t i, Ctx& x) { Dec d(i); vec2 a = gpt(N, d(M)), b = gpt(N, d(M)), q = gpt(N, d(M)); for (int m = 0; m < n_amap; ++m) { auto A = amap(m); vec2 p = A(q), l0 = A(a), l1 = A(b); x.states++; x.transitions += 3; x.validated += 3; double ext = std::max({ (l1 - l0).dist(), (p - l0).dist(), 1e-12 }); string id = "point " + ps(p) + " line " + ps(l0) + ps(l1); if (x.verbose && !m) x.d(id);
        long double ux = (long double)l1.x - l0.x, uy = (long double)l1.y - l0.y, vx = (long double)p.x - l0.x, vy = (long double)p.y - l0.y, n2 = ux * ux + uy * uy, cr = ux * vy - uy * vx, dt = ux * vx + uy * vy; double want = (double)(n2 == 0 ? vx * vx + vy * vy : cr * cr / n2), got = rmath::dist2_point_line(p, l0, l1); x.out((uint64_t)llround(want / ext / ext * 1000));
        if (!(std::abs(got - want) <= 1e-9 * ext * ext)) return x.fail(id + fmt(": dist2_point_line %.17g, expected %.17g", got, want));
        if (m < n_exact) { bool in = n2 == 0 ? (vx == 0 && vy == 0) : dt >= 0 && dt <= n2; if (rmath::point_project_in_segment(p, l0, l1) != in) return x.fail(id + fmt(": point_project_in_segment %d, expected %d", !in, in)); } else if (n2 > 0 && fabsl(dt / n2) > 1e-9L && fabsl(dt / n2 - 1) > 1e-9L) { bool in = dt > 0 && dt < n2; if (rmath::point_project_in_segment(p, l0, l1) != in) return x.fail(id + fmt(": point_project_in_segment %d, expected %d", !in, in)); }
        double ca = 0, cb = 0, cc = 0; rmath::line{ l0, l1 }.general_from(&ca, &cb, &cc); double nn = std::sqrt(ca * ca + cb * cb), mg = std::abs(l0.x) + std::abs(l0.y) + std::abs(l1.x) + std::abs(l1.y) + 1e-12; if (!(nn > 0)) return x.fail(id + ": the general form has no normal"); for (vec2 z : { l0, l1 }) if (!(std::abs(ca * z.x + cb * z.y + cc) <= 1e-10 * nn * mg * 10 + (n2 == 0 ? 0 : 1e-12 * mg * mg))) return x.fail(id + fmt(": the general form %.17g x + %.17g y + %.17g does not hold at ", ca, cb, cc) + ps(z));
        if (n2 > 0) { long double h = (ca * (long double)p.x + cb * (long double)p.y + cc) / nn; if (!(std::abs((double)(h * h) - want) <= 1e-6 * ext * ext + 1e-9 * mg * mg * 1e-3)) return x.fail(id + ": the general form measures another distance"); } } }, fmt("all point/line triples of the %dx%d grid (coincident points included) under 10 affine maps", N + 1, N + 1) });
  f.push_back({ "angles", 4001, 200, [=](uint64_t i, Ctx& x) { for (int k = 0; k < 6; ++k) { static const double off[6] = { 0, 1e-16, -1e-16, 1e-9, -1e-9, 0.123456 }; double r = ((double)i - 2000) * PI / 16 + off[k]; double g = rmath::clamp_0_2pi(r); x.states++; x.transitions++; x.validated++; x.out((uint64_t)llround(g * 1e3)); if (x.verbose && !k) x.d(fmt("angle %.17g", r)); if (!(g >= 0 && g < 2 * rmath::pi)) return x.fail(fmt("clamp_0_2pi(%.17g) = %.17g", r, g)); if (!ang(g, r, 1e-9)) return x.fail(fmt("clamp_0_2pi(%.17g) = %.17g is another direction", r, g)); } }, "multiples of pi/16 from -125 pi to 125 pi, with rounding-sized and larger offsets" });
  f.push_back({ "vectors", vpow(7, 4), 500, [=](uint64_t i, Ctx& x) { Dec d(i); static const double v[7] = { 0, 1, -2, 0.5, 3, -0.25, 8 }; vec2 a(v[d(7)], v[d(7)]), b(v[d(7)], v[d(7)]); x.states++; x.transitions += 14; x.validated += 14; string id = ps(a) + ps(b); if (x.verbose) x.d(id); x.out((uint64_t)(a.dot(b) * 16 + 100000)); x.out((uint64_t)(a.cross(b) * 16 + 100000));
      bool ok = a + b == vec2(a.x + b.x, a.y + b.y) && a - b == vec2(a.x - b.x, a.y - b.y) && -a == vec2(-a.x, -a.y) && a * 4 == vec2(a.x * 4, a.y * 4) && 4 * a == vec2(a.x * 4, a.y * 4) && a / 4 == vec2(a.x / 4, a.y / 4) && a + 1.0 == vec2(a.x + 1, a.y + 1) && a - 1.0 == vec2(a.x - 1, a.y - 1) && a.dot(b) == a.x * b.x + a.y * b.y && a.cross(b) == a.x * b.y - a.y * b.x && a.dist2() == a.x * a.x + a.y * a.y && std::abs(a.dist() - std::hypot(a.x, a.y)) <= 1e-12 && (a == b) == (a.x == b.x && a.y == b.y) && (a != b) == !(a == b); if (!ok) return x.fail("vector arithmetic on " + id);
      for (int k = -8; k <= 8; ++k) { double r = k * PI / 8; vec2 w = a.rotated(r), z = a; z.rotate(r); if (w != z || std::abs(w.dist() - a.dist()) > 1e-12 * 10 || (a.dist() > 0 && !ang(std::atan2(w.y, w.x), std::atan2(a.y, a.x) + r, 1e-9))) return x.fail(id + fmt(": rotated by %g gives ", r) + ps(w)); }
      if (a.dist() > 0) { vec2 w = a.normalization(), z = a; z.normalizate(); if (w != z || std::abs(w.dist() - 1) > 1e-12 || w.dot(a) <= 0 || std::abs(w.cross(a)) > 1e-12) return x.fail(id + ": normalization gives " + ps(w)); } }, "all pairs of vectors with coordinates from 7 values" });
  f.push_back({ "arcs", 5 * 5 * 24 * 65, 500, [=](uint64_t i, Ctx& x) { Dec d(i); static const double v[5] = { 0, 1, -3, 0.1, 250 }; vec2 c(v[d(5)], v[d(5)]); int k = (int)d(24); double sweep = ((double)d(65) - 32) * PI / 16; static const double rr[3] = { 1, 0.01, 40 }; double r = rr[k % 3], a0 = (k / 3) * PI / 4 + (k % 3 == 1 ? 0.2 : 0); vec2 s = c + vec2(std::cos(a0), std::sin(a0)) * r; arc A(s, c, sweep); x.states++; x.transitions++; x.validated += 8; x.out(i); string id = "arc from " + ps(s) + " around " + ps(c) + fmt(" sweep %.9g", sweep); if (x.verbose) x.d(id); double e = 1e-9 * (1 + std::abs(c.x) + std::abs(c.y) + r), ea = e / r + 1e-9;
      auto chk = [&](const arc& q, vec2 st, vec2 en, double sw, double sa, double ee, const char* w) { if ((q.start() - st).dist() > e || (q.end() - en).dist() > e || q.center() != c || std::abs(q.radius() - r) > e || std::abs(q.sweep_rad() - sw) > 1e-12) return x.fail(id + w + ": start, end, centre, radius or sweep: " + ps(q.start()) + ps(q.end()) + fmt(" r=%g sweep=%g", q.radius(), q.sweep_rad())); if (!(q.start_rad() >= 0 && q.start_rad() < 2 * rmath::pi && q.end_rad() >= 0 && q.end_rad() < 2 * rmath::pi) || !ang(q.start_rad(), sa, ea) || !ang(q.end_rad(), ee, ea)) return x.fail(id + w + fmt(": angles %.9g..%.9g, expected %.9g..%.9g", q.start_rad(), q.end_rad(), sa, ee)); };
      vec2 en = c + vec2(std::cos(a0 + sweep), std::sin(a0 + sweep)) * r; chk(A, s, en, sweep, a0, a0 + sweep, ""); if (!x.failed) chk(A.reverse(), en, s, -sweep, a0 + sweep, a0, " reversed"); if (!x.failed) chk(A.reverse().reverse(), s, en, sweep, a0, a0 + sweep, " reversed twice"); }, "25 centres x 24 start points x 65 sweeps from -2 pi to 2 pi, and their reversals" });
  return harness_main(argc, argv, f);
}
