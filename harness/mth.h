// helpers for the rmath harnesses: exact integer geometry, reference roots
#pragma once
#include "geo.h"
namespace vh {
using rmath::vec2; using rmath::bezier_cubic;
inline uint64_t vpow(uint64_t b, int e) { uint64_t r = 1; while (e--) r *= b; return r; }
inline vec2 gpt(int N, uint64_t i) { return vec2((double)(i % (N + 1)), (double)(i / (N + 1))); }
inline string ps(vec2 p) { return fmt("(%.17g,%.17g)", p.x, p.y); }
inline string bs(const bezier_cubic& b) { return ps(b.p0) + ps(b.p1) + ps(b.p2) + ps(b.p3); }
inline Aff amap(int k) { static const vector<Aff> v = { Aff{}, Aff{ 0.5,0,0,0.5,-8,4 }, Aff{ 0,1,1,0,0,0 }, Aff{ -1,0,0,1,3,0 }, Aff{ 1024,0,0,1024,0,0 },  // exact
    Aff{ 0.955336489125606,-0.29552020666134,0.29552020666134,0.955336489125606,0.25,-0.75 }, Aff{ 1,0.37,0.11,1,-5,3 }, Aff{ 1e-3,0,0,1e-3,0,0 }, Aff{ 9.5e3,-3e3,3e3,9.5e3,-3e4,2e4 }, Aff{ 0.1,0,0,0.1,0.3,-0.7 } }; return v[k]; }
constexpr int n_amap = 10, n_exact = 5;
// B(t) = c0 + c1 t + c2 t^2 + c3 t^3 in long double
struct Poly3 { long double c[4]; long double operator()(long double t) const { return ((c[3] * t + c[2]) * t + c[1]) * t + c[0]; } long double d(long double t) const { return (3 * c[3] * t + 2 * c[2]) * t + c[1]; } };
inline Poly3 poly3(long double a, long double b, long double c, long double d) { return { { a, 3 * (b - a), 3 * (a - 2 * b + c), d - 3 * c + 3 * b - a } }; }
// all sign changes of p on [lo,hi], by splitting at the critical points
inline vector<long double> roots(const Poly3& p, long double lo, long double hi) {
  vector<long double> cut = { lo, hi }; long double A = 3 * p.c[3], Bq = 2 * p.c[2], C = p.c[1], sc = fabsl(A) + fabsl(Bq) + fabsl(C);
  if (sc > 0) { if (fabsl(A) < 1e-17L * sc) { if (Bq != 0) cut.push_back(-C / Bq); } else { long double D = Bq * Bq - 4 * A * C; if (D >= 0) { long double s = sqrtl(D), q = -0.5L * (Bq + (Bq >= 0 ? s : -s)); cut.push_back(q / A); if (q != 0) cut.push_back(C / q); } } }
  vector<long double> k; for (auto v : cut) if (v >= lo && v <= hi) k.push_back(v); std::sort(k.begin(), k.end()); vector<long double> r;
  for (size_t i = 0; i + 1 < k.size(); ++i) { long double a = k[i], b = k[i + 1], fa = p(a), fb = p(b); if (fa == 0) { if (r.empty() || r.back() != a) r.push_back(a); continue; } if ((fa < 0) == (fb < 0) || fb == 0) continue; for (int n = 0; n < 90; ++n) { long double m = (a + b) / 2; if ((p(m) < 0) == (fa < 0)) a = m; else b = m; } r.push_back((a + b) / 2); }
  if (!k.empty() && p(k.back()) == 0 && (r.empty() || r.back() != k.back())) r.push_back(k.back());
  return r;
}
inline bezier_cubic bmap(const bezier_cubic& b, const Aff& m) { return { m(b.p0), m(b.p1), m(b.p2), m(b.p3) }; }
inline vec2 bez_at(const bezier_cubic& b, double t) { return vec2(bez(b.p0.x, b.p1.x, b.p2.x, b.p3.x, t), bez(b.p0.y, b.p1.y, b.p2.y, b.p3.y, t)); }
inline vec2 bez_d(const bezier_cubic& b, double t) { double k = 1 - t; return (b.p1 - b.p0) * (3 * k * k) + (b.p2 - b.p1) * (6 * k * t) + (b.p3 - b.p2) * (3 * t * t); }
inline double bext(const bezier_cubic& b) { double lx = std::min({ b.p0.x,b.p1.x,b.p2.x,b.p3.x }), hx = std::max({ b.p0.x,b.p1.x,b.p2.x,b.p3.x }), ly = std::min({ b.p0.y,b.p1.y,b.p2.y,b.p3.y }), hy = std::max({ b.p0.y,b.p1.y,b.p2.y,b.p3.y }); return std::max({ hx - lx, hy - ly, 1e-12 }); }
}
