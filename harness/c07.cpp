// C07: make_path against a hand-written reference parser, on every string over
// small alphabets, every token sequence up to a depth, every truncation and
// every single-character edit of well-formed strings.
#include "geo.h"
using namespace vh;

static uint64_t vpow(uint64_t b, int e) { uint64_t r = 1; while (e--) r *= b; return r; }
struct El { char k; double v[6]; };
typedef vector<vector<El>> Doc;                        // paths -> elements

// ---- reference: repeated (m P | l P | a P P | c P P P), blanks between tokens, stops at the first thing it cannot read
struct Ref {
  const char* s; size_t i = 0, n; bool range = false;      // range: a number outside what a double holds
  explicit Ref(const string& t) : s(t.c_str()), n(strlen(t.c_str())) {}
  void ws() { while (i < n && (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13))) ++i; }
  static bool dg(char c) { return c >= '0' && c <= '9'; }
  bool num(double& v) {
    ws(); size_t j = i; if (j < n && (s[j] == '+' || s[j] == '-')) ++j; size_t d0 = j; while (j < n && dg(s[j])) ++j; size_t di = j - d0, df = 0;
    if (j < n && s[j] == '.') { size_t k = j + 1; while (k < n && dg(s[k])) ++k; df = k - j - 1; if (di + df) j = k; }
    if (!(di + df)) return false;
    if (j < n && (s[j] == 'e' || s[j] == 'E')) { size_t k = j + 1; if (k < n && (s[k] == '+' || s[k] == '-')) ++k; size_t e0 = k; while (k < n && dg(s[k])) ++k; if (k > e0) j = k; }
    v = strtod(string(s + i, j - i).c_str(), nullptr); if (!std::isfinite(v) || (v != 0 && std::abs(v) < 1e-290)) range = true; if (v == 0) for (size_t k = i; k < j && s[k] != 'e' && s[k] != 'E'; ++k) if (s[k] >= '1' && s[k] <= '9') range = true; i = j; return true;
  }
  bool cmd(Doc& d) {
    ws(); if (i >= n) return false; char c = s[i]; int np = c == 'm' || c == 'l' ? 1 : c == 'a' ? 2 : c == 'c' ? 3 : 0; if (!np) return false; ++i;
    El e; e.k = c; for (int k = 0; k < np * 2; ++k) if (!num(e.v[k])) return false;
    if (c == 'a') return true;
    if (c == 'm') d.push_back({}); else if (d.empty()) d.push_back({});
    d.back().push_back(e); return true;
  }
  Doc all() { Doc d; while (cmd(d)) {} return d; }
};
struct Rec { vector<El> e; string err; point last{ 0,0 }; };
static Doc read(const paths& ps, string& err) {
  Doc d; for (auto& p : ps) { Rec r; river::path_traverse_funcs f; 
    f.move_to = [](path_moveto_func_para) { auto r = (Rec*)user; r->e.push_back({ 'm',{to.x,to.y} }); r->last = to; };
    f.line_to = [](path_lineto_func_para) { auto r = (Rec*)user; if (from != r->last) r->err = "from of a line is not the current point"; r->e.push_back({ 'l',{to.x,to.y} }); r->last = to; };
    f.cubic_to = [](path_cubicto_func_para) { auto r = (Rec*)user; if (from != r->last) r->err = "from of a curve is not the current point"; r->e.push_back({ 'c',{ctrl1.x,ctrl1.y,ctrl2.x,ctrl2.y,to.x,to.y} }); r->last = to; };
    p.traverse(f, &r); if (!r.err.empty()) err = r.err; d.push_back(r.e); } return d;
}
static string show(const Doc& d) { string o; for (auto& p : d) { o += "["; for (auto& e : p) { o += e.k; for (int k = 0; k < (e.k == 'c' ? 6 : 2); ++k) o += fmt(" %.17g", e.v[k]); o += "; "; } o += "]"; } return o; }
static bool close(double a, double b) { return a == b || std::abs(a - b) <= 1e-14 * std::max(std::abs(a), std::abs(b)); }
static bool eq(const Doc& a, const Doc& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) { if (a[i].size() != b[i].size()) return false; for (size_t j = 0; j < a[i].size(); ++j) { if (a[i][j].k != b[i][j].k) return false; for (int k = 0; k < (a[i][j].k == 'c' ? 6 : 2); ++k) if (!close(a[i][j].v[k], b[i][j].v[k])) return false; } } return true; }
static void check(const string& s, Ctx& x) {
  x.transitions++; if (x.verbose) x.d("\"" + s + "\" ");
  { string lo = s; for (auto& c : lo) c = (char)tolower((unsigned char)c); if (lo.find("inf") != string::npos || lo.find("nan") != string::npos) { river::make_path(s.c_str()); x.skipped++; return; } } // not numbers: no promise
  Ref ref(s); Doc want = ref.all(); if (ref.range) { river::make_path(s.c_str()); x.skipped++; return; } string err; paths p = river::make_path(s.c_str()); Doc got = read(p, err); x.validated++; x.states++;
  uint64_t h = 7; for (auto& q : got) { h = h * 31 + 5; for (auto& e : q) { h = h * 31 + e.k; for (int k = 0; k < (e.k == 'c' ? 6 : 2); ++k) h = h * 1000003 + (uint64_t)std::llround(e.v[k] * 1000); } } x.out(h);
  if (!err.empty()) x.fail("\"" + s + "\": " + err);
  if (!eq(want, got)) x.fail("\"" + s + "\": expected " + show(want) + " got " + show(got));
}
int main(int argc, char** argv) {
  vector<Family> f; bool deep = thorough();
  { static const char al[] = "mlca 12.-"; const int K = 9; int D = deep ? 8 : 7;
    for (int d = 0; d <= D; ++d) f.push_back({ fmt("strings-%d", d), vpow(K, d), 5000, [d, K](uint64_t i, Ctx& x) { string s; Dec q(i); for (int k = 0; k < d; ++k) s += al[q(K)]; check(s, x); }, fmt("all strings of length %d over {m l c a blank 1 2 . -}", d) }); }
  { static const char al[] = "ml 1e+-.\n"; const int K = 9; int D = deep ? 8 : 7;
    f.push_back({ fmt("number-strings-%d", D), vpow(K, D), 5000, [D, K](uint64_t i, Ctx& x) { string s = "m 3 4 l"; Dec q(i); for (int k = 0; k < D; ++k) s += al[q(K)]; check(s, x); }, fmt("a line command followed by all strings of length %d over {m l blank 1 e + - . newline}", D) }); }
  { static const string al = "mlcaMLCAzZhvqstefxin,;:()0123579+-. \t\n"; const int K = (int)al.size(); int D = deep ? 5 : 4; static const char* pre[] = { "", "m 1 2 l 3 4 ", "m 1 2 l" };
    f.push_back({ "wide-alphabet", vpow(K, D) * 3, 5000, [D, K](uint64_t i, Ctx& x) { Dec q(i); string s = pre[q(3)]; for (int k = 0; k < D; ++k) s += al[q(K)]; check(s, x); }, fmt("all strings of length %d over %d characters (upper case and foreign commands, separators, brackets, digits), alone, after a document and as the arguments of a line", D, K) }); 
    static const string doc = "m 1 2l-3 4.5c1 2 3 4 5 6 m7 8"; f.push_back({ "bytes", (uint64_t)255 * 255 * (doc.size() - 1), 5000, [](uint64_t i, Ctx& x) { Dec q(i); string s = doc; char a = (char)(1 + q(255)), b = (char)(1 + q(255)); size_t at = q(doc.size() - 1); s[at] = a; s[at + 1] = b; check(s, x); }, "a document with every two neighbouring characters replaced by every pair of bytes 1..255" }); 
    int L = deep ? 3000 : 600; f.push_back({ "long", (uint64_t)L * 4, 20, [](uint64_t i, Ctx& x) { Dec q(i); int k = (int)q(4), n = 1 + (int)q(~0ull); string s; if (k == 0) { s = "m 0 0"; for (int j = 0; j < n; ++j) s += fmt(" l %d %d.5", j, n - j); } else if (k == 1) { for (int j = 0; j < n; ++j) s += fmt("m%d 1l2 3", j); } else if (k == 2) { s = "m 0." + string(n % 40, '3') + " 1" + string(n % 15, '0') + string(n, ' ') + "l 1 2"; } else { s = string(n, '\n') + "m 1 2"; for (int j = 0; j < n; ++j) s += "c 1 2 3 4 5 6"; s += " l 1"; } check(s, x); }, fmt("documents of every size 1..%d: long contours, many contours, long numbers and runs of blanks, curves with a truncated end", L) }); }
  { // sequences of well-formed and broken commands
    static const char* tok[] = { "m 1 2 ", "l-3.5 4", "c 1 2 3 4 5 6", "a 1 1 2 2 ", "l 1", "m", "c 1 2 3 4 ", " z ", "L 1 2 ", "l 1e2 .5\n", "m 1,2 " , "7 8 " }; const int K = 12; int D = deep ? 7 : 6;
    for (int d = 1; d <= D; ++d) f.push_back({ fmt("commands-%d", d), vpow(K, d), 5000, [d, K](uint64_t i, Ctx& x) { string s; Dec q(i); for (int k = 0; k < d; ++k) s += tok[q(K)]; check(s, x); }, fmt("all sequences of %d commands out of 12 (well-formed, truncated, unknown, upper case, numbers without command)", d) }); }
  { // all number spellings in every argument position
    static const char* num[] = { "0", "-0", "1", "+1", "-1", "1.5", "-1.5", ".5", "-.5", "5.", "1e3", "1E3", "1e-3", "1.25e+2", "-2.5e-1", "123456789", "0.000001", "1e10", "3.141592653589793", "00012", "1e0" }; const int K = 21; static const char* sep[] = { " ", "  ", "\t", "\n", "\r\n", " \v\f" };
    f.push_back({ "number-pairs", (uint64_t)K * K * 6 * 3, 2000, [K](uint64_t i, Ctx& x) { Dec q(i); string a = num[q(K)], b = num[q(K)], s = sep[q(6)]; int w = (int)q(3); string t = w == 0 ? "m" + s + a + s + b : w == 1 ? "m 0 0" + s + "l" + a + s + b + s + "l 1 1" : "m 0 0 c 1 1 " + a + s + b + s + "2 2 l 3 3"; check(t, x); }, "all pairs of 21 number spellings x 6 separators x 3 command contexts" }); }
  { // every truncation and every single character edit of well-formed documents
    static const string docs[] = { "m 0 0 l 100 0 l 100 100 l 0 100 l 0 0", "m 10 10 c 20 -5 30 45 40 10 l 10 40 m 1.5 -2.25 l 3 4 c 1 2 3 4 5 6", "m0 0l1 1c1 1 2 2 3 3m4 4l5 5", "l 5 5 m 1 1 l 2 2 a 1 1 2 2 l 3 3" }; static const char ed[] = "mlca 0.-ex,Z\n"; uint64_t tot = 0; vector<uint64_t> base; for (auto& d : docs) { base.push_back(tot); tot += d.size() * 15 + 1; }
    f.push_back({ "edits", tot, 500, [base](uint64_t i, Ctx& x) { int k = (int)base.size() - 1; while (base[k] > i) --k; uint64_t r = i - base[k]; string s = docs[k]; size_t pos = r / 15; int e = (int)(r % 15); if (pos >= s.size()) ; else if (e == 0) s = s.substr(0, pos); else if (e == 1) s.erase(pos, 1); else s[pos] = ed[e - 2]; check(s, x); }, "4 documents: every truncation, every deletion and every replacement of one character by one of 13" }); }
  return harness_main(argc, argv, f);
}
