// C04: the output of every operation winds once and in one direction: every
// point has winding number 0 or 1 (0 or -1 for the negative fill rule).
#include "curves.h"
using namespace vh;
int main(int argc, char** argv) {
  vector<Family> f; bool deep = thorough();
  for (auto& p : line_families(deep)) { uint64_t st = 1;
    f.push_back({ p.name, (p.size + st - 1) / st, p.chunk, [p, st](uint64_t i, Ctx& x) { Shape S, C; p.make(i * st, S, C); describe_pair(x, S, C); check_pair(S, C, x, 0, true); }, p.bound + (st > 1 ? fmt("; every %d-th", (int)st) : "") + "; 5 operations x 4 fill rules" }); }
  for (auto& p : curve_families(deep)) { uint64_t st = 1;
    f.push_back({ "curved-" + p.name, (p.size + st - 1) / st, p.chunk, [p, st](uint64_t i, Ctx& x) { Shape S, C; p.make(i * st, S, C); describe_pair(x, S, C); if (!judged(p, S, C)) { x.skipped++; return; } Masks m; m.ops = 0x1e; m.fills = 1 << (i * 7 + i / 4) % 4; check_pair(S, C, x, 61, true, m); }, p.bound + (st > 1 ? fmt("; every %d-th", (int)st) : "") }); }
  Options o; o.case_cpu = 20; o.case_wall = 150; return harness_main(argc, argv, f, o);
}
