// C01: the result of every operation on straight-edged paths is the region the
// operation and the fill rule define (reference: winding numbers).
#include "lines.h"
using namespace vh;
int main(int argc, char** argv) {
  vector<Family> f;
  for (auto& p : line_families(thorough())) f.push_back({ p.name, p.size, p.chunk, [p](uint64_t i, Ctx& x) { Shape S, C; p.make(i, S, C); describe_pair(x, S, C); check_pair(S, C, x, 0, false); }, p.bound + "; 5 operations x 4 fill rules" });
  Options o; o.one = region_case; return harness_main(argc, argv, f, o);
}
