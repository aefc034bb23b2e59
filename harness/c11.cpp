// C11: cubic/cubic intersection against a reference that isolates every
// crossing by subdivision until the tangent cones are apart, then Newton.
#include "curves.h"
#include "mth.h"
using namespace vh;
struct Cr { double t, u; };
static Seg seg(const bezier_cubic& b) { return B(b.p0, b.p1, b.p2, b.p3); }
struct Box { double x0, y0, x1, y1; };
static Box box(const Seg& s) { Box b{ 1e300,1e300,-1e300,-1e300 }; for (auto& p : s.p) { b.x0 = std::min(b.x0, p.x); b.y0 = std::min(b.y0, p.y); b.x1 = std::max(b.x1, p.x); b.y1 = std::max(b.y1, p.y); } return b; }
// false: the two curves touch, overlap or come close at a small angle somewhere
static bool crossings(const bezier_cubic& A, const bezier_cubic& C, const Seg& a, double a0, double a1, const Seg& b, double b0, double b1, double ext, vector<Cr>& out, int& work) {
  if (++work > 60000) return false;
  Box p = box(a), q = box(b); double e = 1e-7 * ext; if (p.x1 + e < q.x0 || q.x1 + e < p.x0 || p.y1 + e < q.y0 || q.y1 + e < p.y0) return true;
  Cone c = cone(a), d = cone(b); bool sep = false;
  if (c.any && d.any) { double g = std::abs(std::remainder(c.c - d.c, 3.14159265358979323846)); sep = g > c.h + d.h + 0.04; }
  if (sep && a1 - a0 < 0.04 && b1 - b0 < 0.04) {
    double t = (a0 + a1) / 2, u = (b0 + b1) / 2;
    for (int i = 0; i < 30; ++i) { vec2 f = bez_at(A, t) - bez_at(C, u), da = bez_d(A, t), db = bez_d(C, u); double D = da.x * -db.y + da.y * db.x; if (D == 0) return false; double dt = (-f.x * -db.y + f.y * -db.x) / D, du = (da.x * -f.y + da.y * f.x) / D; t += dt; u += du; if (!(std::abs(t) < 4 && std::abs(u) < 4)) return true; if (std::abs(dt) + std::abs(du) < 1e-15) break; }
    double m = 1e-9; if (t < a0 - m || t > a1 + m || u < b0 - m || u > b1 + m) return true; if ((bez_at(A, t) - bez_at(C, u)).dist() > 1e-9 * ext) return false;
    for (auto& k : out) if (std::abs(k.t - t) < 1e-7 && std::abs(k.u - u) < 1e-7) return true; out.push_back({ t, u }); return true;
  }
  if (a1 - a0 < 1e-5 && b1 - b0 < 1e-5) return false;
  if (a1 - a0 >= b1 - b0) { Seg l, r; halve(a, l, r); double m = (a0 + a1) / 2; return crossings(A, C, l, a0, m, b, b0, b1, ext, out, work) && crossings(A, C, r, m, a1, b, b0, b1, ext, out, work); }
  Seg l, r; halve(b, l, r); double m = (b0 + b1) / 2; return crossings(A, C, a, a0, a1, l, b0, m, ext, out, work) && crossings(A, C, a, a0, a1, r, m, b1, ext, out, work);
}
static void one(const bezier_cubic& A, const bezier_cubic& C, Ctx& x, int precise = 25) {
  double ext = std::max({ bext(A), bext(C), (A.p0 - C.p0).dist() }); string id = bs(A) + " with " + bs(C); if (x.verbose) x.d(id + " ");
  vector<Cr> ref; int work = 0; x.states++;
  bool gp = crossings(A, C, seg(A), 0, 1, seg(C), 0, 1, ext, ref, work);
  for (size_t i = 0; i < ref.size() && gp; ++i) for (size_t j = 0; j < i; ++j) { double dt = std::abs(ref[i].t - ref[j].t), du = std::abs(ref[i].u - ref[j].u); if (std::min(dt, du) < 1e-3 && std::max(dt, du) < 0.02) gp = false; } // one parameter may agree when a curve passes through one point twice
  if (!gp) { x.skipped++; return; }
  auto r = rmath::intersect(A, C, precise); x.transitions++; x.out(r.count * 1000003ull + (uint64_t)llround(r.count ? r.data[0].t0 * 4096 : 0));
  if (r.count < 0 || r.count > 9) return x.fail(id + fmt(": count %d", r.count));
  for (int i = 0; i < r.count; ++i) { auto& d = r.data[i]; x.validated++;
    if (!(d.t0 >= 0 && d.t0 <= 1 && d.t1 >= 0 && d.t1 <= 1)) return x.fail(id + fmt(": parameter out of range t0=%.12g t1=%.12g", d.t0, d.t1));
    double u = (bez_at(A, d.t0) - d.p).dist(), v = (bez_at(C, d.t1) - d.p).dist(); if (!(u <= 1e-6 * ext && v <= 1e-6 * ext)) return x.fail(id + fmt(": reported point %s t0=%.12g t1=%.12g is off by %.3g / %.3g", ps(d.p).c_str(), d.t0, d.t1, u, v));
    for (int j = 0; j < i; ++j) if (std::abs(d.t0 - r.data[j].t0) < 1e-5 && std::abs(d.t1 - r.data[j].t1) < 1e-5) return x.fail(id + fmt(": crossing at t0=%.9g t1=%.9g reported twice", d.t0, d.t1)); }
  for (auto& q : ref) { const double e = 1e-5; if (q.t < e || q.t > 1 - e || q.u < e || q.u > 1 - e) continue; x.validated++;
    int n = 0; for (int i = 0; i < r.count; ++i) n += std::abs(r.data[i].t0 - q.t) < 2e-5 && std::abs(r.data[i].t1 - q.u) < 2e-5;
    if (n != 1) return x.fail(id + fmt(": crossing at t0=%.9g t1=%.9g reported %d times (%d reports)", q.t, q.u, n, r.count)); }
}
int main(int argc, char** argv) {
  vector<Family> f; bool deep = thorough();
  { uint64_t st = 1, n2 = (729 + st - 1) / st, na = deep ? 9 : 3; static const Aff sk{ 0.97,0.13,-0.09,1.03,0.07,-0.04 };
    f.push_back({ "grid-pairs", 729 * n2 * na, 200, [=](uint64_t i, Ctx& x) { Dec d(i); static const int ms[3] = { 0, 5, 8 }; uint64_t w = d(na); Aff m = amap(ms[w % 3]); static const int s0[3] = { 0, 1, 4 }; Dec b(d(n2) * st), a(d(729)); bezier_cubic A{ gpt(2, s0[w / 3]), gpt(2, a(9)), gpt(2, a(9)), gpt(2, a(9)) }, C{ gpt(2, 5), gpt(2, b(9)), gpt(2, b(9)), gpt(2, b(9)) }; C = bmap(bmap(C, sk), m); A = bmap(A, m); one(A, C, x); if (!x.failed) one(C, A, x); }, fmt("all cubics from the corner (thorough: also an edge and the centre) of the 3x3 grid x every %d-th cubic from its edge, slightly skewed, both argument orders", (int)st) }); }
  { // the many-crossing configurations: two S curves / loops at every angle, offset and amplitude
    int na = deep ? 96 : 48, no = deep ? 13 : 9;
    f.push_back({ "s-curves", (uint64_t)na * no * no * 5 * 5 * 3, 100, [=](uint64_t i, Ctx& x) { Dec d(i); double a = 6.283185307179586 * ((double)d(na) + 0.31) / na, ox = ((double)d(no) - no / 2) * 0.17 + 0.011, oy = ((double)d(no) - no / 2) * 0.19 + 0.007; static const double am[5] = { 1, 2, 3.5, 5, 8 }; double h1 = am[d(5)], h2 = am[d(5)]; int k = (int)d(3); auto shape = [&](double h, int k) { return k == 0 ? bezier_cubic{ {-1,0},{-0.2,h},{0.2,-h},{1,0} } : k == 1 ? bezier_cubic{ {-1,-0.3},{1.6,h * 0.6},{-1.6,h * 0.6},{1,-0.3} } : bezier_cubic{ {-1,-0.4},{-0.5,h * 0.4},{0.5,h * 0.4},{1,-0.4} }; }; bezier_cubic A = shape(h1, k), C = shape(h2, k == 2 ? 0 : 0); Aff m{ std::cos(a),-std::sin(a),std::sin(a),std::cos(a),ox,oy }; C = bmap(C, m); one(A, C, x); if (!x.failed) one(C, A, x); }, fmt("S curves, loops and arches of 5 amplitudes against S curves of 5 amplitudes at %d angles and %d x %d offsets (up to 9 crossings)", na, no, no) }); }
  { // nine crossings: y = T3(x) against x = T3(y), stretched, turned and moved
    int na = deep ? 13 : 9, no = deep ? 9 : 7, nh = 4, nm = 6;
    f.push_back({ "nine", (uint64_t)na * no * no * nh * nh * nm * 4, 40, [=](uint64_t i, Ctx& x) { Dec d(i); double a = 1.5707963267948966 + ((double)d(na) - na / 2) * 0.06, ox = ((double)d(no) - no / 2) * 0.06 + 0.011, oy = ((double)d(no) - no / 2) * 0.07 + 0.007; static const double hs[4] = { 0.55, 0.8, 1, 1.2 }; double h1 = hs[d(nh)], h2 = hs[d(nh)]; static const int ms[6] = { 0, 5, 7, 8, 6, 3 }; Aff m = amap(ms[d(nm)]); int rev = (int)d(4);
      auto t3 = [](double w, double h) { double k = 4 * w * w * w; return bezier_cubic{ {-w, h * (3 * w - k)},{-w / 3, h * (k + w)},{w / 3, -h * (k + w)},{w, h * (k - 3 * w)} }; }; bezier_cubic A = t3(1.11, h1), C = t3(1.07, h2); C = bmap(C, Aff{ std::cos(a),-std::sin(a),std::sin(a),std::cos(a),ox,oy }); A = bmap(A, m); C = bmap(C, m); if (rev & 1) A = { A.p3, A.p2, A.p1, A.p0 }; if (rev & 2) C = { C.p3, C.p2, C.p1, C.p0 }; for (int pr : { 25, 40 }) { one(A, C, x, pr); if (!x.failed) one(C, A, x, pr); if (x.failed) return; } }, fmt("graphs of cubic Chebyshev polynomials against each other turned by about a right angle (%d angles, %d x %d offsets, 4 x 4 heights, %d affine maps, both directions, both argument orders, precision 25 and 40): up to nine crossings", na, no, no, nm) }); }
  { // a curve through, or close beside, the point where the other one crosses itself
    static const double ws[] = { 1.002, 1.01, 1.05, 1.2, 1.6, 3 }, hs[] = { 0.6, 2, 5 }, es[] = { 0, 1e-9, 1e-7, 1e-5, 1e-3, -3e-6 }, tp[] = { 0.3, 0.5, 0.77 }; static const int ms[3] = { 0, 5, 8 };
    f.push_back({ "nodes", 6 * 3 * 12 * 3 * 3 * 6 * 3, 60, [](uint64_t i, Ctx& x) { Dec d(i); double w = ws[d(6)], h = hs[d(3)], a = 6.283185307179586 * ((double)d(12) + 0.17) / 12; int k = (int)d(3); double t = tp[d(3)], e = es[d(6)]; Aff m = amap(ms[d(3)]);
      bezier_cubic C{ {-1,-0.3},{w,h},{-w,h},{1,-0.3} }; double kt = 1 / (1 + 3 * w), u = (1 - std::sqrt(1 - 4 * kt)) / 2; vec2 node = bez_at(C, u);
      bezier_cubic A = k == 0 ? bezier_cubic{ {-1,0},{-0.2,0.4},{0.3,-0.5},{1.1,0} } : k == 1 ? bezier_cubic{ {-1,0},{-0.4,0.7},{0.4,0.7},{1,0} } : bezier_cubic{ {-1.2,0},{-0.3,0.05},{0.4,0.15},{1,0.3} };
      A = bmap(A, Aff{ std::cos(a),-std::sin(a),std::sin(a),std::cos(a),0,0 }); vec2 q = bez_at(A, t), n = bez_d(A, t); n = vec2(-n.y, n.x) / n.dist(); vec2 mv = node - q + n * e; A = { A.p0 + mv, A.p1 + mv, A.p2 + mv, A.p3 + mv };
      A = bmap(A, m); C = bmap(C, m); one(A, C, x); if (!x.failed) one(C, A, x); }, "looped cubics of 6 widths and 3 heights against 3 curves in 12 directions that pass the loop's node exactly or at a distance of 1e-9..1e-3, 3 affine maps, both argument orders" }); }
  { // pairs that merely come near, share an end, or are far apart: nothing to report inside
    f.push_back({ "chained", 729 * 27, 200, [=](uint64_t i, Ctx& x) { Dec d(i); bezier_cubic A{ gpt(2, 0), gpt(2, d(9)), gpt(2, d(9)), gpt(2, d(9)) }; bezier_cubic C{ A.p3, gpt(2, d(3) * 3 + 1) * 1.1, gpt(2, d(3) + 3) * 0.9, gpt(2, d(3) * 4) + vec2(0.05, 0.1) }; one(A, C, x); if (!x.failed) one(C, A, x); }, "all cubics from the grid corner x 27 cubics that start where the first ends" }); }
  Options o; o.case_cpu = 30; return harness_main(argc, argv, f, o);
}
