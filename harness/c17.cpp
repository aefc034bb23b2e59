// C17: results are valid inputs: outputs of operations fed back into further
// operations obey the laws of set algebra.  Oracle: the winding-number model of
// the original inputs; two operations are executed in sequence.
#include "curves.h"
using namespace vh;
static const clip_type U = clip_type::union_, I = clip_type::intersection, D = clip_type::difference, X = clip_type::xor_;
struct Law { const char* name; std::function<Shape(const Shape& A, const Shape& B, fill_rule f, uint64_t& n)> make; std::function<bool(bool, bool)> want; };
static Shape op(const Shape& a, const Shape& b, clip_type c, fill_rule f, uint64_t& n) { ++n; return clip(a, b, c, f).out; }
static vector<Law> laws() {
  const fill_rule z = fill_rule::non_zero;
  return {
    { "(A-B) u (A^B) = A", [=](auto& A, auto& B, auto f, auto& n) { return op(op(A, B, D, f, n), op(A, B, I, f, n), U, z, n); }, [](bool a, bool b) { return a; } },
    { "(A u B) - (A^B) = A xor B", [=](auto& A, auto& B, auto f, auto& n) { return op(op(A, B, U, f, n), op(A, B, I, f, n), D, z, n); }, [](bool a, bool b) { return a != b; } },
    { "(A-B) u (B-A) = A xor B", [=](auto& A, auto& B, auto f, auto& n) { return op(op(A, B, D, f, n), op(B, A, D, f, n), U, z, n); }, [](bool a, bool b) { return a != b; } },
    { "(A-B) ^ (A^B) = nothing", [=](auto& A, auto& B, auto f, auto& n) { return op(op(A, B, D, f, n), op(A, B, I, f, n), I, z, n); }, [](bool a, bool b) { return false; } },
    { "(A xor B) xor (A^B) = A u B", [=](auto& A, auto& B, auto f, auto& n) { return op(op(A, B, X, f, n), op(A, B, I, f, n), X, z, n); }, [](bool a, bool b) { return a || b; } },
    { "(A u B) u nothing = A u B", [=](auto& A, auto& B, auto f, auto& n) { return op(op(A, B, U, f, n), {}, U, z, n); }, [](bool a, bool b) { return a || b; } },
    { "(A xor B) ^ (A xor B) = A xor B", [=](auto& A, auto& B, auto f, auto& n) { Shape s = op(A, B, X, f, n); return op(s, s, I, z, n); }, [](bool a, bool b) { return a != b; } },
    { "nothing u (A-B) under even_odd = A-B", [=](auto& A, auto& B, auto f, auto& n) { return op({}, op(A, B, D, f, n), U, fill_rule::even_odd, n); }, [](bool a, bool b) { return a && !b; } },
    { "(A u B) - B = A-B", [=](auto& A, auto& B, auto f, auto& n) { return op(op(A, B, U, f, n), op(B, {}, U, f, n), D, z, n); }, [](bool a, bool b) { return a && !b; } },
    { "(A xor B) xor B = A", [=](auto& A, auto& B, auto f, auto& n) { return op(op(A, B, X, f, n), op(B, {}, U, f, n), X, z, n); }, [](bool a, bool b) { return a; } },
    { "(A ^ B) - A = nothing", [=](auto& A, auto& B, auto f, auto& n) { return op(op(A, B, I, f, n), op(A, {}, U, f, n), D, z, n); }, [](bool a, bool b) { return false; } },
    { "(A-B) u B = A u B", [=](auto& A, auto& B, auto f, auto& n) { return op(op(A, B, D, f, n), op(B, {}, U, f, n), U, z, n); }, [](bool a, bool b) { return a || b; } },
  };
}
// an edge with a horizontal (double) extremum, or with one that near to its end, is cut there into vertices about 1e-8 apart, too close for a further operation
static bool flat_inflection(const Shape& s) { for (auto& c : s) for (auto& g : c) { if (!g.cub) continue; double a = g.p[1].y - g.p[0].y, b = g.p[2].y - g.p[1].y, d = g.p[3].y - g.p[2].y, A = a - 2 * b + d, B = 2 * (b - a), D = B * B - 4 * A * a, sc = std::abs(a) + std::abs(b) + std::abs(d); if (std::abs(D) < 1e-3 * sc * sc) return true; double tb[2]; int n = extrema(g.p[0].y, g.p[1].y, g.p[2].y, g.p[3].y, tb); for (int k = 0; k < n; ++k) if (std::min(tb[k], 1 - tb[k]) > 0 && std::min(tb[k], 1 - tb[k]) < 2e-4) return true; } return false; }
static void one(const Shape& S, const Shape& C, Ctx& x, int uniform, int fills, int nlaws = 12) {
  static const vector<Law> W = laws(); Scan sc; sc.build({ S, C }, uniform); x.states++;
  for (int f = 0; f < 3; ++f) { if (!(fills >> f & 1)) continue; for (int l = 0; l < nlaws; ++l) { auto& w = W[l]; uint64_t n = 0; Shape r = w.make(S, C, (fill_rule)f, n); x.transitions += n; x.out(hash_shape(r)); x.validated++;
    auto q = sc.check(r, [&](const int* v) { return w.want(filled((fill_rule)f, v[0]), filled((fill_rule)f, v[1])); });
    if (sc.wrong(q)) { x.fail(fmt("%s (%s): differs on an area of %.6g (e.g. y=%.9g, x in [%.9g,%.9g]); output: ", w.name, fillname(f), q.bad, q.wy, q.wx0, q.wx1) + str(r)); return; } } }
}
int main(int argc, char** argv) {
  vector<Family> f; bool deep = thorough();
  for (auto& p : line_families(deep)) { uint64_t lim = deep ? 400000 : 25000, st = std::max<uint64_t>(1, p.size / lim); while (st > 1 && (st % 2 == 0 || st % 3 == 0 || st % 5 == 0 || st % 11 == 0)) ++st;
    f.push_back({ p.name, (p.size + st - 1) / st, std::min<uint32_t>(p.chunk, 100), [p, st](uint64_t i, Ctx& x) { Shape S, C; p.make(i * st, S, C); describe_pair(x, S, C); if (p.name == "near-slopes" && i * st % 8 > 4) { x.skipped++; return; } one(S, C, x, 0, 7); }, p.bound + (st > 1 ? fmt("; every %d-th", (int)st) : "") + "; 12 laws x 3 fill rules" }); }
  for (auto& p : curve_families(false)) { uint64_t lim = deep ? 200000 : 30000, st = std::max<uint64_t>(1, p.size / lim); while (st > 1 && (st % 2 == 0 || st % 3 == 0 || st % 5 == 0)) ++st;
    f.push_back({ "curved-" + p.name, (p.size + st - 1) / st, p.chunk, [p, st](uint64_t i, Ctx& x) { Shape S, C; p.make(i * st, S, C); describe_pair(x, S, C); if (!judged(p, S, C) || flat_inflection(S) || flat_inflection(C)) { x.skipped++; return; } one(S, C, x, 61, 1 << i % 3, 8); }, p.bound + (st > 1 ? fmt("; every %d-th", (int)st) : "") + "; 8 laws" }); }
  Options o; o.case_cpu = 20; o.case_wall = 150; return harness_main(argc, argv, f, o);
}
