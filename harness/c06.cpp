// C06: the result depends on the curves the caller describes, not on how they
// are written down.  Every rewriting of the input that leaves the described
// curves unchanged gives the same region.
#include "curves.h"
using namespace vh;

static Contour rotate_start(const Contour& c0, size_t k) { Contour c = closed(c0); Contour r; for (size_t i = 0; i < c.size(); ++i) r.push_back(c[(i + k) % c.size()]); return r; }
static void cut(const Seg& s, double t, Seg& a, Seg& b) {
  if (!s.cub) { point m = s.p[0] + (s.p[3] - s.p[0]) * t; a = L(s.p[0], m); b = L(m, s.p[3]); return; }
  auto mix = [t](point u, point v) { return u * (1 - t) + v * t; };
  point p01 = mix(s.p[0], s.p[1]), p12 = mix(s.p[1], s.p[2]), p23 = mix(s.p[2], s.p[3]), q0 = mix(p01, p12), q1 = mix(p12, p23), m = mix(q0, q1); a = B(s.p[0], p01, q0, m); b = B(m, q1, p23, s.p[3]);
}
// one rewriting of a shape; returns false when it does not apply
static const int n_rw = 16;
static const char* rwname(int r) { static const char* n[] = { "start one vertex later", "start at the last vertex", "closed explicitly", "every vertex repeated", "every edge cut in half", "every edge cut at 0.3 and again", "contours in reverse order", "all contours in one path", "one add_path call per contour", "through a read callback", "straight edges written as cubics", "empty and one-point paths added", "opposite direction", "subject and clip exchanged", "only the first contour reversed", "each contour started at its own vertex" }; return n[r]; }
enum How { H_PATHS, H_ONEPATH, H_SEPARATE, H_CALLBACK, H_NOISE, H_REPEAT };
static bool rewrite(int r, const Shape& in, Shape& out, How& how) {
  how = H_PATHS; out.clear(); if (in.empty()) return false;
  switch (r) {
  case 0: for (auto& c : in) out.push_back(rotate_start(c, 1)); return true;
  case 1: for (auto& c : in) { auto k = closed(c); out.push_back(rotate_start(k, k.size() - 1)); } return true;
  case 2: for (auto& c : in) out.push_back(closed(c)); return true;
  case 3: out = closed(in); how = H_REPEAT; return true;
  case 4: for (auto& c : in) { Contour k; for (auto& e : closed(c)) { Seg a, b; cut(e, 0.5, a, b); k.push_back(a); k.push_back(b); } out.push_back(k); } return true;
  case 5: for (auto& c : in) { Contour k; for (auto& e : closed(c)) { Seg a, b, p, q; cut(e, 0.3, a, b); cut(b, 0.45, p, q); k.push_back(a); k.push_back(p); k.push_back(q); } out.push_back(k); } return true;
  case 6: if (in.size() < 2) return false; for (size_t i = in.size(); i--;) out.push_back(in[i]); return true;
  case 7: out = in; how = H_ONEPATH; return true;
  case 8: out = in; how = H_SEPARATE; return true;
  case 9: out = in; how = H_CALLBACK; return true;
  case 10: for (auto& c : in) { Contour k; for (auto& e : c) k.push_back(e.cub ? e : B(e.p[0], e.p[0] + (e.p[3] - e.p[0]) * (1 / 4.), e.p[0] + (e.p[3] - e.p[0]) * (3 / 4.), e.p[3])); out.push_back(k); } return true;
  case 11: out = in; how = H_NOISE; return true;
  case 12: for (auto& c : in) out.push_back(reversed(closed(c))); return true;
  case 13: out = in; return true;
  case 14: for (auto& c : in) out.push_back(out.empty() ? reversed(closed(c)) : c); return true;
  default: if (in.size() < 2) return false; for (auto& c : in) out.push_back(rotate_start(c, 1 + out.size())); return true;
  }
}
static void feed(river::processor& p, const Shape& s, path_type t, How how) {
  if (how == H_ONEPATH) { paths v; v.emplace_back(); for (auto& c : s) { if (c.empty()) continue; v[0].moveto(c[0].p[0]); for (auto& e : c) if (e.cub) v[0].cubicto(e.p[1], e.p[2], e.p[3]); else v[0].lineto(e.p[3]); } p.add_path(v, t); return; }
  if (how == H_SEPARATE) { for (auto& c : s) { paths v; v.push_back(to_path(c)); p.add_path(v, t); } return; }
  if (how == H_REPEAT) { paths v; for (auto& c : s) { v.emplace_back(); v.back().moveto(c[0].p[0]); v.back().lineto(c[0].p[0]); for (auto& e : c) { if (e.cub) v.back().cubicto(e.p[1], e.p[2], e.p[3]); else v.back().lineto(e.p[3]); v.back().lineto(e.p[3]); v.back().lineto(e.p[3]); } } p.add_path(v, t); return; }
  if (how == H_NOISE) { paths v; v.emplace_back(); v.emplace_back(); v.back().moveto(1, 1); for (auto& c : s) { v.push_back(to_path(c)); v.emplace_back(); v.back().moveto(2, 1); v.back().lineto(2, 1); } p.add_path(v, t); p.add_path(paths(), t); return; }
  if (how == H_CALLBACK) { p.add_path([](read_path_func_para) { auto s = (const Shape*)paths; point z(0, 0); for (auto& c : *s) { if (c.empty()) continue; segment_funcs.move_to(z, c[0].p[0], user); for (auto& e : c) { if (e.cub) segment_funcs.cubic_to(e.p[0], e.p[1], e.p[2], e.p[3], user); else segment_funcs.line_to(e.p[0], e.p[3], user); z = e.p[3]; } } }, &s, t); return; }
  auto v = to_paths(s); p.add_path(v, t);
}
static void invariance(const Shape& S, const Shape& C, Ctx& x, Masks mk, bool curved, int rws) {
  x.states++;
  for (int c = 1; c < 5; ++c) for (int f = 0; f < 4; ++f) {
    if (!(mk.ops >> c & 1) || !(mk.fills >> f & 1)) continue;
    Sink base = clip(S, C, (clip_type)c, (fill_rule)f); Scan sc; sc.build({ base.out }, curved ? 61 : 0); if (base.out.empty()) { sc.build({ S, C }, curved ? 61 : 0); sc.layer = { {} }; sc.keep = { {} }; }
    if (curved) sc.curved = true;
    for (int r = 0; r < n_rw; ++r) { if (!(rws >> r & 1)) continue;
      Shape S2, C2; How hs, hc; bool a = rewrite(r, S, S2, hs), b = rewrite(r, C, C2, hc); if (!a && !b) continue; if (!a) { S2 = S; hs = H_PATHS; } if (!b) { C2 = C; hc = H_PATHS; }
      if (r == 13 && c == 3) continue; if (r == 14 && f != 0) continue; if (r == 13) { std::swap(S2, C2); std::swap(hs, hc); }
      river::processor p; int f2 = f; if (r == 12) f2 = f == 2 ? 3 : f == 3 ? 2 : f;
      if (r == 6) { feed(p, C2, path_type::clip, hc); feed(p, S2, path_type::subject, hs); } else { feed(p, S2, path_type::subject, hs); feed(p, C2, path_type::clip, hc); }
      Sink k; p.process((clip_type)c, (fill_rule)f2, sink_funcs(), &k); x.transitions++; x.out(hash_shape(k.out));
      auto res = sc.check(k.out, [](const int* w) { return w[0] != 0; }); x.validated++;
      if (sc.wrong(res)) { x.fail(fmt("%s/%s: the input rewritten (%s) gives another region (area %.6g, near y=%.6g x=%.6g..%.6g): ", opname(c), fillname(f), rwname(r), res.bad, res.wy, res.wx0, res.wx1) + str(base.out) + " <> " + str(k.out)); return; }
    }
  }
}
int main(int argc, char** argv) {
  vector<Family> f; bool deep = thorough();
  for (auto& p : line_families(deep)) { if (p.name.compare(0, 8, "rounded-") == 0 && !deep) continue; uint64_t lim = deep ? 200000 : 20000, st = std::max<uint64_t>(1, p.size / lim); if (p.name == "scalable") st = deep ? 1 : 2; while (st > 1 && (p.size % st == 0 || st % 2 == 0 || st % 3 == 0)) ++st;
    f.push_back({ p.name, (p.size + st - 1) / st, std::min<uint32_t>(p.chunk, 50), [p, st](uint64_t i, Ctx& x) { Shape S, C; p.make(i * st, S, C); describe_pair(x, S, C); Masks m; m.ops = 0x1e; if (S.size() + C.size() > 12) m.fills = 1 << i % 4; invariance(S, C, x, m, false, 0xffff); }, p.bound + (st > 1 ? fmt("; every %d-th", (int)st) : "") + fmt("; 4 operations x 4 fill rules x %d rewritings", n_rw) }); }
  for (auto& p : curve_families(false)) { if (p.name == "identical" || p.name == "identical-cut" || p.name == "curved-scalable") continue; uint64_t lim = deep ? 20000 : 1500, st = std::max<uint64_t>(1, p.size / lim); while (st > 1 && (st % 2 == 0 || st % 3 == 0 || st % 5 == 0)) ++st;
    f.push_back({ "curved-" + p.name, (p.size + st - 1) / st, 4, [p, st](uint64_t i, Ctx& x) { Shape S, C; p.make(i * st, S, C); describe_pair(x, S, C); if (!general_position(S, C)) { x.skipped++; return; } Masks m; m.ops = 2 << i % 4; m.fills = 1 << (i / 4) % 4; invariance(S, C, x, m, true, 0xffff); }, p.bound + (st > 1 ? fmt("; every %d-th", (int)st) : "") }); }
  Options o; o.case_cpu = 20; o.case_wall = 150; return harness_main(argc, argv, f, o);
}
