// C02: as C01 for contours with cubic Bezier edges in general position.
#include "curves.h"
using namespace vh;
int main(int argc, char** argv) {
  vector<Family> f; bool deep = thorough();
  for (auto& p : curve_families(true)) f.push_back({ p.name, p.size, p.chunk, [p, deep](uint64_t i, Ctx& x) {
      Shape S, C; p.make(i, S, C); describe_pair(x, S, C);
      if (!judged(p, S, C)) { x.skipped++; x.d(" [not in general position: skipped]"); return; }
      Masks m; m.ops = 0x1e; if (!deep) if (p.name == "one-cubic" || p.name == "two-cubics" || p.name == "cubic-pairs" || p.name == "atom-pairs") m.fills = 1 << (i * 7 + i / 4) % 4;
      check_pair(S, C, x, 61, false, m); }, p.bound + (deep ? "; 4 operations x 4 fill rules" : "; 4 operations, fill rule in rotation for the grid families, all 4 for the others") });
  // straight edges written as cubics, some of them folding back, in every coinciding and touching position
  for (auto& p : line_families(deep)) if (p.name == "rect-pairs-affine" || p.name == "triangle-pairs" || p.name == "rounded-rects") { uint64_t st = std::max<uint64_t>(1, p.size / (deep ? 200000 : 20000)); while (st > 1 && (st % 2 == 0 || st % 3 == 0 || st % 5 == 0 || st % 11 == 0)) ++st;
    f.push_back({ "straight-" + p.name, (p.size + st - 1) / st * 3, 100, [p, st](uint64_t i, Ctx& x) { Shape S, C; p.make(i / 3 * st, S, C); static const double k0[] = { 1 / 3., 0.2, 0.75 }, k1[] = { 2 / 3., 0.7, 0.25 }; int w = (int)(i % 3), n = 0;
      auto cubics = [&](Shape& s) { for (auto& c : s) { c = closed(c); for (auto& g : c) if (!g.cub && (w == 1 || n++ % 2 == 0)) g = B(g.p[0], g.p[0] + (g.p[3] - g.p[0]) * k0[w], g.p[0] + (g.p[3] - g.p[0]) * k1[w], g.p[3]); } }; cubics(S); n = 1; cubics(C); describe_pair(x, S, C); Masks m; m.ops = 0x1e; m.fills = 1 << (i / 3) % 4; check_pair(S, C, x, 0, false, m); }, p.bound + (st > 1 ? fmt("; every %d-th", (int)st) : "") + "; every edge, or every second one, written as a straight cubic with control points at thirds, uneven or crossed; 4 operations, fill rule in rotation" }); }
  Options o; o.case_cpu = 20; o.case_wall = 150; o.one = region_case; return harness_main(argc, argv, f, o);
}
