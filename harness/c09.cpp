// C09: segment/segment intersection against exact integer arithmetic.
#include "mth.h"
using namespace vh;
typedef long long ll; struct IP { ll x, y; };
static ll crs(IP a, IP b, IP c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
static int sg(ll v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
static bool inside(IP p, IP a, IP b) { return crs(a, b, p) == 0 && ((p.x - a.x) * (p.x - b.x) + (p.y - a.y) * (p.y - b.y)) < 0; } // strictly inside the segment
// collinear up to rounding: every reported point is an end point, every end point well inside the other segment is reported
static void collinear(const vec2 v[4], Ctx& x) {
  auto r = rmath::intersect(v[0], v[1], v[2], v[3]); double ext = 0, la = (v[1] - v[0]).dist(), lb = (v[3] - v[2]).dist(); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) ext = std::max(ext, (v[i] - v[j]).dist()); double tol = 1e-9 * ext; x.validated++;
  auto bad = [&](string s) { x.fail("collinear segments " + ps(v[0]) + ps(v[1]) + " and " + ps(v[2]) + ps(v[3]) + ": " + s); };
  if (r.count > 2) return bad(fmt("%d points", r.count));
  for (int i = 0; i < r.count; ++i) { auto& d = r.data[i]; bool e = false; for (int k = 0; k < 4; ++k) e |= (v[k] - d.p).dist() <= tol; if (!e) return bad("reported point " + ps(d.p) + " is no end point"); if (!((v[0] + (v[1] - v[0]) * d.t0 - d.p).dist() <= tol) || !((v[2] + (v[3] - v[2]) * d.t1 - d.p).dist() <= tol)) return bad(fmt("reported point %s is not at t0=%.17g and t1=%.17g", ps(d.p).c_str(), d.t0, d.t1)); }
  for (int k = 0; k < 4; ++k) { const vec2& a = v[k < 2 ? 2 : 0]; const vec2& b = v[k < 2 ? 3 : 1]; double l2 = (b - a).dist2(); if (l2 == 0 || la == 0 || lb == 0) continue; double t = (v[k] - a).dot(b - a) / l2; if (t < 1e-3 || t > 1 - 1e-3) continue; bool f = false; for (int i = 0; i < r.count; ++i) f |= (r.data[i].p - v[k]).dist() <= tol; if (!f) return bad("end point " + ps(v[k]) + " inside the other segment not reported"); }
}
static void one(const IP q[4], const Aff& m, bool exact, Ctx& x) {
  vec2 v[4]; for (int i = 0; i < 4; ++i) v[i] = m(vec2((double)q[i].x, (double)q[i].y));
  if (x.verbose) x.d("segments " + ps(v[0]) + ps(v[1]) + " and " + ps(v[2]) + ps(v[3]) + " ");
  auto r = rmath::intersect(v[0], v[1], v[2], v[3]); x.transitions++; x.states++; x.out(r.count * 1000003ull + (uint64_t)llround(r.count ? r.data[0].t0 * 4096 : 0) * 31 + (uint64_t)llround(r.count ? r.data[0].t1 * 4096 : 0));
  double ext = 0; for (auto& a : v) for (auto& b : v) ext = std::max(ext, (a - b).dist()); double tol = 1e-9 * ext;
  auto bad = [&](string s) { x.fail("segments " + ps(v[0]) + ps(v[1]) + " and " + ps(v[2]) + ps(v[3]) + ": " + s); };
  if (r.count < 0 || r.count > 2) return bad(fmt("count %d", r.count));
  for (int i = 0; i < r.count; ++i) { auto& d = r.data[i]; x.validated++; if (!((v[0] + (v[1] - v[0]) * d.t0 - d.p).dist() <= tol) || !((v[2] + (v[3] - v[2]) * d.t1 - d.p).dist() <= tol)) return bad(fmt("reported point %s is not at t0=%.17g and t1=%.17g", ps(d.p).c_str(), d.t0, d.t1)); if (d.t0 < -1e-9 || d.t0 > 1 + 1e-9 || d.t1 < -1e-9 || d.t1 > 1 + 1e-9) return bad(fmt("parameter out of range t0=%.17g t1=%.17g", d.t0, d.t1)); }
  bool dega = q[0].x == q[1].x && q[0].y == q[1].y, degb = q[2].x == q[3].x && q[2].y == q[3].y; if (dega || degb) return;
  x.validated++;
  ll den = (q[1].x - q[0].x) * (q[3].y - q[2].y) - (q[1].y - q[0].y) * (q[3].x - q[2].x);
  if (den != 0) {
    int a = sg(crs(q[0], q[1], q[2])), b = sg(crs(q[0], q[1], q[3])), c = sg(crs(q[2], q[3], q[0])), d = sg(crs(q[2], q[3], q[1]));
    bool meet = a * b <= 0 && c * d <= 0, touch = meet && (a == 0 || b == 0 || c == 0 || d == 0);
    if (!exact && touch) { if (r.count > 1) bad("more than one point for lines that are not parallel"); return; } // rounding of the input decides
    if (r.count != (meet ? 1 : 0)) return bad(fmt("%d intersections reported, %d exist", r.count, meet ? 1 : 0));
    if (meet) { double t = (double)((q[2].x - q[0].x) * (q[3].y - q[2].y) - (q[2].y - q[0].y) * (q[3].x - q[2].x)) / den; vec2 p = v[0] + (v[1] - v[0]) * t; if ((p - r.data[0].p).dist() > tol) return bad("wrong point " + ps(r.data[0].p) + " instead of " + ps(p)); if (std::abs(t - r.data[0].t0) > 1e-9) return bad("wrong parameter"); }
    return;
  }
  if (crs(q[0], q[1], q[2]) != 0) { if (r.count) bad("intersection of parallel segments that are apart"); return; }
  if (!exact) { collinear(v, x); return; }                // collinear up to rounding only
  // collinear: the end points that lie strictly inside the other segment
  vector<vec2> want; for (int i = 0; i < 4; ++i) if (inside(q[i], q[i < 2 ? 2 : 0], q[i < 2 ? 3 : 1])) want.push_back(v[i]);
  if ((int)want.size() != r.count) return bad(fmt("collinear: %d points reported, %d end points lie inside the other segment", r.count, (int)want.size()));
  for (auto& w : want) { bool f = false; for (int i = 0; i < r.count; ++i) f |= (r.data[i].p - w).dist() <= tol; if (!f) return bad("collinear: " + ps(w) + " not reported"); }
}
int main(int argc, char** argv) {
  vector<Family> f; bool deep = thorough(); int N = deep ? 6 : 5; uint64_t M = (N + 1) * (N + 1);
  f.push_back({ "grid", vpow(M, 4), 20000, [=](uint64_t i, Ctx& x) { Dec d(i); IP q[4]; for (auto& p : q) { uint64_t k = d(M); p = { (ll)(k % (N + 1)), (ll)(k / (N + 1)) }; } for (int m = 0; m < n_amap; ++m) { one(q, amap(m), m < n_exact, x); if (x.failed) return; } }, fmt("all pairs of segments (zero-length ones included) with end points on the %dx%d grid, under 10 affine maps (5 exact in floating point)", N + 1, N + 1) });
  { // skew coordinates: long thin configurations, near-parallel lines
    static const ll xs[] = { 0,1,2,7,100,101,1000,4095 }; f.push_back({ "skew", vpow(8, 7), 20000, [=](uint64_t i, Ctx& x) { Dec d(i); IP q[4]; q[0] = { 0, xs[d(8)] }; q[1] = { xs[d(8)], xs[d(8)] }; q[2] = { xs[d(8)], xs[d(8)] }; q[3] = { xs[d(8)], xs[d(8)] }; one(q, amap(0), true, x); if (!x.failed) one(q, amap(2), true, x); }, "segments with end points from {0,1,2,7,100,101,1000,4095}: near-parallel and far apart configurations" }); }
  { // pieces of one line, cut at points that are on it only up to rounding; pieces of very different length share their ends
    static const double ts[] = { 0, 2e-5, 1e-4, 0.03, 1.0 / 3, 0.5, 0.75, 0.9999, 1 }; int K = deep ? 19 : 9;
    f.push_back({ "pieces", vpow(9, 4) * K * K, 20000, [=](uint64_t i, Ctx& x) { Dec d(i); int u = (int)d(K), w = (int)d(K); double a = 0.1 + u * 0.61, r = 1.7 + 0.9 * (w % 3), k[] = { 4, 9, -30, 700 }; vec2 p(k[w % 4] + 0.037 * w, -k[(w + 1) % 4] + 0.011 * u), q = p + vec2(r * std::cos(a), r * std::sin(a)); vec2 v[4]; int id[4]; for (int j = 0; j < 4; ++j) { id[j] = (int)d(9); double t = ts[id[j]]; v[j] = j % 2 ? p + (q - p) * t : q + (p - q) * (1 - t); if (id[j] == 0) v[j] = p; if (id[j] == 8) v[j] = q; for (int l = 0; l < j; ++l) if (id[l] == id[j]) v[j] = v[l]; }
      x.states++; x.transitions++; if (id[0] == id[1] || id[2] == id[3]) { x.skipped++; return; } if (x.verbose) x.d("segments " + ps(v[0]) + ps(v[1]) + " and " + ps(v[2]) + ps(v[3]) + " "); collinear(v, x); x.out(rmath::intersect(v[0], v[1], v[2], v[3]).count * 7919 + i % 7919); }, "all pairs of pieces of one line between 9 points that are on it up to rounding (pieces of 2e-5 up to 1 of its length, shared ends), 81 (361) lines" }); }
  return harness_main(argc, argv, f);
}
