// C08: a path is a faithful record: every sequence of building calls is
// reported by traverse exactly, in order, with the right current point, for
// every subset of callbacks; copying through processor-independent routes
// (move construction, vector growth, text) loses nothing.
#include "geo.h"
using namespace vh;
static uint64_t vpow(uint64_t b, int e) { uint64_t r = 1; while (e--) r *= b; return r; }
struct Ev { char k; point from, a, b, to; bool operator==(const Ev& o) const { auto same = [](point p, point q) { return !memcmp(&p.x, &q.x, 8) && !memcmp(&p.y, &q.y, 8); }; return k == o.k && same(from, o.from) && same(to, o.to) && (k != 'c' || (same(a, o.a) && same(b, o.b))); } };
struct Log { vector<Ev> v; };
static void t_m(path_moveto_func_para) { ((Log*)user)->v.push_back({ 'm',from,{},{},to }); }
static void t_l(path_lineto_func_para) { ((Log*)user)->v.push_back({ 'l',from,{},{},to }); }
static void t_c(path_cubicto_func_para) { ((Log*)user)->v.push_back({ 'c',from,ctrl1,ctrl2,to }); }
static void t_a(path_arcto_func_para) { ((Log*)user)->v.push_back({ 'a',from,{},{},to }); }

static const double vals[] = { 0, 1, -2.5, 1e-300, 1e300, 0.1, -0.0, 123456789.125 };
static point pt(uint64_t k) { return point(vals[k % 8], vals[(k * 3 + 1 + k / 8) % 8]); }
static const int K = 9;
// operation: 0,1 moveto; 2,3 moveto(x,y)... every op with two different argument sets
static void build(path& p, vector<Ev>& want, point& cur, int op, int step) {
  uint64_t s = (uint64_t)op * 5 + step * 7; point a = pt(s), b = pt(s + 2), c = pt(s + 5); 
  switch (op) {
  case 0: p.moveto(a); want.push_back({ 'm',cur,{},{},a }); cur = a; break;
  case 1: p.moveto(b.x, b.y); want.push_back({ 'm',cur,{},{},b }); cur = b; break;
  case 2: p.lineto(a); want.push_back({ 'l',cur,{},{},a }); cur = a; break;
  case 3: p.lineto(c.x, c.y); want.push_back({ 'l',cur,{},{},c }); cur = c; break;
  case 4: p.cubicto(a, b, c); want.push_back({ 'c',cur,a,b,c }); cur = c; break;
  case 5: p.cubicto(c, cur, b); want.push_back({ 'c',cur,c,cur,b }); cur = b; break;
  case 6: p.lineto(cur); want.push_back({ 'l',cur,{},{},cur }); break;          // zero length
  case 7: p.moveto(cur); want.push_back({ 'm',cur,{},{},cur }); break;
  default: p.cubicto(cur, cur, cur); want.push_back({ 'c',cur,cur,cur,cur }); break;
  }
}
static bool expect(const path& p, const vector<Ev>& want, int mask, Ctx& x, const char* what) {
  river::path_traverse_funcs f; if (mask & 1) f.move_to = t_m; if (mask & 2) f.line_to = t_l; if (mask & 4) f.cubic_to = t_c; if (mask & 8) f.arc_to = t_a;
  Log l; p.traverse(f, &l); vector<Ev> w; for (auto& e : want) if ((e.k == 'm' && mask & 1) || (e.k == 'l' && mask & 2) || (e.k == 'c' && mask & 4)) w.push_back(e);
  x.validated++; x.transitions++;
  if (l.v == w) return true;
  string s; for (auto& e : l.v) s += fmt("%c from(%g,%g) to(%g,%g); ", e.k, e.from.x, e.from.y, e.to.x, e.to.y); string t; for (auto& e : w) t += fmt("%c from(%g,%g) to(%g,%g); ", e.k, e.from.x, e.from.y, e.to.x, e.to.y);
  x.fail(fmt("%s, callbacks %d: got ", what, mask) + s + " expected " + t); return false;
}
int main(int argc, char** argv) {
  vector<Family> f; bool deep = thorough(); int D = deep ? 8 : 7;
  for (int d = 0; d <= D; ++d) f.push_back({ fmt("build-%d", d), vpow(K, d), 1000, [d](uint64_t i, Ctx& x) {
      Dec q(i); path p; vector<Ev> want; point cur(0, 0); string ops; uint64_t h = 1;
      for (int k = 0; k < d; ++k) { int o = (int)q(K); ops += (char)('0' + o); h = h * 11 + o; build(p, want, cur, o, k); x.states++; if (d <= 4 && !expect(p, want, 7, x, "after each call")) return; }
      x.out(h); if (x.verbose) x.d("calls " + ops);
      for (int m = 0; m < 16; ++m) if ((d <= 4 || m == 7 || m == (int)(i % 16)) && !expect(p, want, m, x, "traverse")) return;
      if (!expect(p, want, 15, x, "second traverse")) return;
      path moved(std::move(p)); if (!expect(moved, want, 7, x, "moved path")) return;
      { Log l; river::path_traverse_funcs g; g.move_to = t_m; g.line_to = t_l; g.cubic_to = t_c; p.traverse(g, &l); if (!l.v.empty()) { x.fail("a moved-from path still reports elements"); return; } }
      vector<Ev> w2; point c2(0, 0); p.moveto(3, 4); p.lineto(5, 6); w2.push_back({ 'm',{0,0},{},{},{3,4} }); w2.push_back({ 'l',{3,4},{},{},{5,6} }); if (!expect(p, w2, 7, x, "moved-from path used again")) return;
      paths ps; ps.push_back(std::move(moved)); for (int k = 0; k < 5; ++k) { ps.emplace_back(); ps.back().moveto(k, k); } expect(ps[0], want, 7, x, "path in a growing vector");
    }, fmt("all sequences of %d building calls out of 9 (both overloads, zero-length elements, extreme values), traversed with every subset of the 4 callbacks", d) });
  { int L = deep ? 6 : 5; // text -> path -> text
    f.push_back({ "text", vpow(6, L) * 8, 500, [L](uint64_t i, Ctx& x) { Dec q(i); string s = "m 0.5 -1 "; vector<Ev> want; point cur(0.5, -1); want.push_back({ 'm',{0,0},{},{},cur }); vector<vector<Ev>> all; int sh = (int)q(8);
      for (int k = 0; k < L; ++k) { int o = (int)q(6); point a(k + sh * 0.25, -3.5 * k), b(1.75 * k - sh, 2 + k), c(0.125 * o, 64 - sh); switch (o % 3) { case 0: s += "l " + num(a.x) + " " + num(a.y) + " "; want.push_back({ 'l',cur,{},{},a }); cur = a; break; case 1: s += "c" + num(a.x) + " " + num(a.y) + " " + num(b.x) + " " + num(b.y) + "\n" + num(c.x) + " " + num(c.y); want.push_back({ 'c',cur,a,b,c }); cur = c; break; default: s += "m" + num(b.x) + " " + num(b.y); all.push_back(want); want.clear(); want.push_back({ 'm',{0,0},{},{},b }); cur = b; } }
      all.push_back(want); if (x.verbose) x.d(s); x.states++; x.out(i); auto ps = river::make_path(s.c_str()); if (ps.size() != all.size()) { x.fail(fmt("%d paths instead of %d from ", (int)ps.size(), (int)all.size()) + s); return; } for (size_t k = 0; k < ps.size(); ++k) if (!expect(ps[k], all[k], 7, x, "make_path")) return; }, fmt("all documents of %d commands with exactly representable numbers: make_path builds the same elements as the calls", L) }); }
  { // long paths: every size around the powers of two that narrow counters wrap at, and every size up to a bound
    vector<uint64_t> sz; int lin = deep ? 3000 : 1200; for (int k = 1; k <= lin; ++k) sz.push_back(k); for (int b : { 12,13,14,15,16,17,18 }) for (int o = -2; o <= 2; ++o) sz.push_back((1ull << b) + o); for (uint64_t v : { 21845ull, 21846ull, 10922ull, 10923ull, 43690ull, 43691ull, 100000ull, 300000ull }) sz.push_back(v); uint64_t ns = sz.size();
    f.push_back({ "long", ns * 5, 5, [sz](uint64_t i, Ctx& x) { Dec q(i); int pat = (int)q(5); uint64_t n = sz[q(~0ull)]; path p; vector<Ev> want; point cur(0, 0); x.states++; x.out(i); if (x.verbose) x.d(fmt("%llu calls, pattern %d", (unsigned long long)n, pat));
      for (uint64_t k = 0; k < n; ++k) { point a(k * 0.5, -(double)k), b(3 - (double)k, k * 0.25), c(k + 0.125, 7); int o = pat == 0 ? (k ? 1 : 0) : pat == 1 ? (k ? 2 : 0) : pat == 2 ? (int)(k % 3) : pat == 3 ? (k * k % 7 == 0 ? 0 : k % 2 + 1) : 0; if (o == 0) { p.moveto(a); want.push_back({ 'm',cur,{},{},a }); cur = a; } else if (o == 1) { p.lineto(b); want.push_back({ 'l',cur,{},{},b }); cur = b; } else { p.cubicto(a, b, c); want.push_back({ 'c',cur,a,b,c }); cur = c; } }
      if (!expect(p, want, 7, x, "long path")) return; path moved(std::move(p)); expect(moved, want, 7, x, "long path, moved"); }, fmt("paths of every size 1..%d, around every power of two up to 2^18 and a third of them, 5 patterns of calls", lin) }); }
  return harness_main(argc, argv, f);
}
