// C10: segment/cubic intersection against reference roots in extended precision.
#include "mth.h"
using namespace vh;
struct RX { double t, s; bool robust; };               // curve parameter, segment parameter
static vector<RX> reference(const rmath::line& l, const bezier_cubic& b, double ext) {
  vector<RX> o; long double dx = (long double)l.p1.x - l.p0.x, dy = (long double)l.p1.y - l.p0.y, len = sqrtl(dx * dx + dy * dy);
  auto h = [&](vec2 p) { return ((long double)(p.x - l.p0.x) * dy - (long double)(p.y - l.p0.y) * dx) / len; };
  Poly3 p = poly3(h(b.p0), h(b.p1), h(b.p2), h(b.p3)); auto r = roots(p, -0.01L, 1.01L);
  for (auto t : r) { vec2 q = bez_at(b, (double)t); double s = (double)(((q.x - l.p0.x) * dx + (q.y - l.p0.y) * dy) / (len * len)); bool rob = fabsl(p.d(t)) > 2e-3 * ext; for (auto u : r) if (u != t && fabsl(u - t) < 1e-3) rob = false; o.push_back({ (double)t, s, rob }); }
  return o;
}
static void one(const rmath::line& l, const bezier_cubic& b, Ctx& x) {
  double ext = std::max({ bext(b), (l.p1 - l.p0).dist(), (l.p0 - b.p0).dist(), (l.p1 - b.p3).dist() }); string id = "line " + ps(l.p0) + ps(l.p1) + " curve " + bs(b);
  if (x.verbose) x.d(id + " ");
  auto r = rmath::intersect(l, b); x.transitions++; x.states++; x.out(r.count * 1000003ull + (uint64_t)llround(r.count ? r.data[0].t1 * 4096 : 0)); 
  if (r.count < 0 || r.count > 3) return x.fail(id + fmt(": count %d", r.count));
  for (int i = 0; i < r.count; ++i) { auto& d = r.data[i]; x.validated++; vec2 u = l.p0 + (l.p1 - l.p0) * d.t0, v = bez_at(b, d.t1);
    if (!((u - d.p).dist() <= 1e-6 * ext) || !((v - d.p).dist() <= 1e-6 * ext)) return x.fail(id + fmt(": reported point %s t0=%.12g t1=%.12g is off by %.3g / %.3g", ps(d.p).c_str(), d.t0, d.t1, (u - d.p).dist(), (v - d.p).dist()));
    if (d.t0 < -1e-6 || d.t0 > 1 + 1e-6 || d.t1 < -1e-6 || d.t1 > 1 + 1e-6) return x.fail(id + fmt(": parameter out of range t0=%.12g t1=%.12g", d.t0, d.t1)); }
  for (auto& q : reference(l, b, ext)) { if (!q.robust) continue; const double e = 1e-6; bool in = q.t > e && q.t < 1 - e && q.s > e && q.s < 1 - e; 
    // an end point of one exactly on the inside of the other must be kept too
    bool tend = (std::abs(q.t) < 1e-12 || std::abs(q.t - 1) < 1e-12) && q.s > e && q.s < 1 - e, send = (std::abs(q.s) < 1e-12 || std::abs(q.s - 1) < 1e-12) && q.t > e && q.t < 1 - e;
    if (!in && !tend && !send) continue; x.validated++; int n = 0; for (int i = 0; i < r.count; ++i) n += std::abs(r.data[i].t1 - q.t) < 2e-4 && std::abs(r.data[i].t0 - q.s) < 1e-3;
    if (n != 1) return x.fail(id + fmt(": crossing at curve t=%.9g segment t=%.9g reported %d times (%d reports)", q.t, q.s, n, r.count)); }
}
int main(int argc, char** argv) {
  vector<Family> f; bool deep = thorough();
  { int N = 2; uint64_t M = 9; // all cubics x all segments of the grid
    f.push_back({ "grid", vpow(M, 3) * 9 * 72 , 500, [=](uint64_t i, Ctx& x) { Dec d(i); uint64_t a = d(9), b = d(8); b += b >= a; bezier_cubic c; c.p0 = gpt(N, d(9)); c.p1 = gpt(N, d(M)); c.p2 = gpt(N, d(M)); c.p3 = gpt(N, d(M)); rmath::line l{ gpt(N, a), gpt(N, b) }; for (int m : { 0, 5, 6, 8 }) { auto A = amap(m); one({ A(l.p0), A(l.p1) }, bmap(c, A), x); if (x.failed) return; } }, "all cubics with control points on the 3x3 grid x all 72 segments of the grid, under 4 affine maps" }); }
  { int N = 3; uint64_t M = 16, ns = deep ? 960 : 240; // finer curve grid, skewed segments
    f.push_back({ "fine", vpow(M, 3) * ns, 500, [=](uint64_t i, Ctx& x) { Dec d(i); uint64_t s = d(ns); bezier_cubic c; c.p1 = gpt(N, d(M)); c.p2 = gpt(N, d(M)); c.p3 = gpt(N, d(M)); c.p0 = vec2(0, 0); double a = 0.37 + s * 0.731, o = 0.2 + 0.11 * (s % 13); vec2 ctr(1.5 + 0.3 * std::cos(a * 3), 1.5 + 0.3 * std::sin(a * 2)), dir(std::cos(a), std::sin(a)); rmath::line l{ ctr - dir * (2.5 * o), ctr + dir * (0.4 + o) }; one(l, c, x); if (x.failed) return; auto A = amap(7); one({ A(l.p0), A(l.p1) }, bmap(c, A), x); if (x.failed) return; rmath::line rv{ l.p1, l.p0 }; one(rv, { c.p3,c.p2,c.p1,c.p0 }, x); }, fmt("all cubics with control points on the 4x4 grid x %d oblique segments, original, scaled by 1e-3, reversed", (int)ns) }); }
  { // axis-parallel segments at many heights: the sweep's own queries
    f.push_back({ "axis", vpow(9, 3) * 2 * 41, 500, [=](uint64_t i, Ctx& x) { Dec d(i); int k = (int)d(41); bool vert = d(2); bezier_cubic c; c.p0 = vec2(0, 0); c.p1 = gpt(2, d(9)); c.p2 = gpt(2, d(9)); c.p3 = gpt(2, d(9)); double v = -0.05 + 2.1 * k / 40; rmath::line l = vert ? rmath::line{ vec2(v, -1), vec2(v, 3) } : rmath::line{ vec2(-1, v), vec2(3, v) }; one(l, c, x); if (x.failed) return; std::swap(l.p0, l.p1); one(l, c, x); if (x.failed) return; auto A = amap(9); one({ A(l.p0), A(l.p1) }, bmap(c, A), x); }, "all cubics with control points on the 3x3 grid x horizontal and vertical segments at 41 positions, both directions" }); }
  return harness_main(argc, argv, f);
}
