// C13: the quadratic and cubic solvers against exact integer roots and
// extended-precision isolation.
#include "mth.h"
using namespace vh;
typedef long double ld;
static string eqs(int n, const double* c) { string s; for (int i = n; i >= 0; --i) s += fmt("%s%.17g x^%d", i == n ? "" : " + ", c[i], i); return s; }
// returned roots of c[n] x^n + ... ; n = 2 or 3
static vector<double> call(int n, const double* c) { vector<double> v; if (n == 2) { auto r = rmath::resolv_quad_equa(c[2], c[1], c[0]); for (int i = 0; i < std::min(r.count, 2); ++i) v.push_back(r.data[i]); if (r.count > 2 || r.count < 0) v.assign(9, NAN); } else { auto r = rmath::resolv_cubic_equa(c[3], c[2], c[1], c[0]); for (int i = 0; i < std::min(r.count, 3); ++i) v.push_back(r.data[i]); if (r.count > 3 || r.count < 0) v.assign(9, NAN); } return v; }
static void exact(int n, const double* c, vector<double> want, Ctx& x) { bool triple = want.size() == 3 && want[0] == want[1] && want[1] == want[2]; std::sort(want.begin(), want.end()); want.erase(std::unique(want.begin(), want.end()), want.end()); auto got = call(n, c); x.states++; x.transitions++; x.validated += 1 + want.size(); string id = eqs(n, c); x.out(got.size()); for (double g : got) x.out((uint64_t)llround(g * 64)); if (x.verbose) x.d(id + " "); 
  string gs; for (double g : got) gs += fmt(" %.17g", g); if (got.size() != want.size()) return x.fail(id + fmt(" = 0: %d distinct roots expected, got", (int)want.size()) + gs);
  std::sort(got.begin(), got.end()); for (size_t i = 0; i < want.size(); ++i) if (!(std::abs(got[i] - want[i]) <= (triple ? 1e-4 : 1e-7) * (1 + std::abs(want[i])))) return x.fail(id + fmt(" = 0: root %.9g expected, got", want[i]) + gs); }
static void general(int n, const double* c, Ctx& x) {
  auto got = call(n, c); x.states++; x.transitions++; string id = eqs(n, c); if (x.verbose) x.d(id + " "); string gs; for (double g : got) gs += fmt(" %.17g", g); x.out(got.size()); for (double g : got) x.out((uint64_t)llround(std::max(-1e6, std::min(1e6, g)) * 64));
  Poly3 p{ { c[0], c[1], c[2], n == 3 ? c[3] : 0.0 } }; if (p.c[3] == 0 && p.c[2] == 0 && p.c[1] == 0) { if (!got.empty()) x.fail(id + " = 0: a constant has no isolated roots, got" + gs); return; }
  ld lead = p.c[3] != 0 ? p.c[3] : p.c[2] != 0 ? p.c[2] : p.c[1], R = 1; for (ld v : p.c) R = std::max(R, 1 + fabsl(v / lead)); auto rt = roots(p, -R, R);
  auto size = [&](ld r) { return fabsl(p.c[3] * r * r * r) + fabsl(p.c[2] * r * r) + fabsl(p.c[1] * r) + fabsl(p.c[0]); };
  for (double g : got) { x.validated++; if (!std::isfinite(g) || fabsl(p(g)) > 1e-8L * size(fabsl(g) + 1e-7L)) return x.fail(id + fmt(" = 0: %.17g is returned but the value there is %.3Lg; all:", g, p(g)) + gs); }
  vector<ld> crit; // simple roots, well separated
  for (ld r : rt) { bool lone = true; for (ld u : rt) if (u != r && fabsl(u - r) < 1e-3L * (1 + fabsl(r))) lone = false; if (!lone || fabsl(p.d(r)) * (1e-3L + fabsl(r)) < 1e-3L * size(r)) continue; x.validated++; int k = 0; for (double g : got) k += fabsl(g - r) <= 1e-7L * (1 + fabsl(r)); if (k != 1) return x.fail(id + fmt(" = 0: the simple root %.12Lg is returned %d times; all:", r, k) + gs); }
}
int main(int argc, char** argv) {
  vector<Family> f; bool deep = thorough(); int K = deep ? 14 : 10; uint64_t W = 2 * K + 1;
  f.push_back({ "cubic-coefficients", vpow(W, 4), 4000, [=](uint64_t i, Ctx& x) { Dec d(i); double c[4]; for (auto& v : c) v = (double)d(W) - K; general(3, c, x); }, fmt("all cubics with integer coefficients in [-%d,%d] (degenerate leading coefficients included)", K, K) });
  f.push_back({ "quadratic-coefficients", vpow(61, 3), 4000, [=](uint64_t i, Ctx& x) { Dec d(i); double c[3]; for (auto& v : c) v = (double)d(61) - 30; general(2, c, x); }, "all quadratics with integer coefficients in [-30,30]" });
  static const double lead[6] = { 1, -1, 3, -0.5, 0.01, 250 }; int Q = deep ? 34 : 20; uint64_t V = 2 * Q + 1;
  f.push_back({ "cubic-roots", vpow(V, 3) * 6, 4000, [=](uint64_t i, Ctx& x) { Dec d(i); double l = lead[d(6)], a = (double)d(V) - Q, b = (double)d(V) - Q, c = (double)d(V) - Q; double k[4] = { -l * a * b * c, l * (a * b + b * c + a * c), -l * (a + b + c), l }; exact(3, k, { a, b, c }, x); }, fmt("all cubics with three integer roots in [-%d,%d] (double and triple roots included) x 6 leading coefficients", Q, Q) });
  f.push_back({ "quadratic-roots", 201 * 201 * 6, 4000, [=](uint64_t i, Ctx& x) { Dec d(i); double l = lead[d(6)], a = (double)d(201) - 100, b = (double)d(201) - 100; double k[3] = { l * a * b, -l * (a + b), l }; exact(2, k, { a, b }, x); }, "all quadratics with two integer roots in [-100,100] x 6 leading coefficients" });
  f.push_back({ "one-real-root", vpow(25, 3) * 6, 4000, [=](uint64_t i, Ctx& x) { Dec d(i); double l = lead[d(6)], r = (double)d(25) - 12, m = (double)d(25) - 12, q = 1 + (double)d(25); double s = -2 * m, t = m * m + q; double k[4] = { -l * r * t, l * (t - r * s), l * (s - r), l }; exact(3, k, { r }, x); }, "all cubics with one integer root and a complex pair m +- i sqrt(q)" });
  f.push_back({ "spread", vpow(15, 4), 4000, [=](uint64_t i, Ctx& x) { Dec d(i); static const double v[15] = { 0, 1, -1, 0.1, -0.1, 10, -10, 1e-3, -1e-3, 1e3, -1e3, 0.37, -2.5, 33.3, -1.0 / 3 }; double c[4]; for (auto& k : c) k = v[d(15)]; general(3, c, x); }, "all cubics with coefficients from 15 values between 1e-3 and 1e3" });
  f.push_back({ "unit-roots", vpow(33, 3), 4000, [=](uint64_t i, Ctx& x) { Dec d(i); double a = (double)d(33) / 16 - 0.5, b = (double)d(33) / 16 - 0.5, c = (double)d(33) / 16 - 0.5; double k[4] = { -a * b * c, a * b + b * c + a * c, -(a + b + c), 1 }; exact(3, k, { a, b, c }, x); }, "all cubics with three roots on the 1/16 grid of [-0.5,1.5] (the parameter range of curves)" });
  return harness_main(argc, argv, f);
}
