// C13: values of expressions against an independent evaluator with running error bounds
#include "h.h"
#include "nimble_boundary_condition.h"
#include "nimble_expression_parser.h"
using H::Rng;
typedef long double L;
struct R { L v, e; bool bad; };      // value, absolute error bound, "cannot judge"
struct Node { char op; double c; std::string fn; std::vector<Node*> k; };
// ops: n number, v variable (fn), K constant (fn), N negate, + - * / ^ %, f function, ? conditional
//      boolean: > < g(>=) l(<=) = ! (not) | & X(xor) T F, i (!=)
static const L U = 2.3e-16L;
static L pt[4];
static R mk(L v, L e) { R r{v, e + U * fabsl(v) + 1e-320L, false}; if (!(fabsl(v) < 1e300L) || !(r.e <= 1e290L)) r.bad = true; return r; }
static R bad() { return R{0, 0, true}; }
static R ev(Node* n);
struct B { bool v, bad; };
static B evb(Node* n)
{
  switch (n->op) {
    case 'T': return {true, false};
    case 'F': return {false, false};
    case '!': { B a = evb(n->k[0]); return {!a.v, a.bad}; }
    case '|': { B a = evb(n->k[0]), b = evb(n->k[1]); return {a.v || b.v, a.bad || b.bad}; }
    case '&': { B a = evb(n->k[0]), b = evb(n->k[1]); return {a.v && b.v, a.bad || b.bad}; }
    case 'X': { B a = evb(n->k[0]), b = evb(n->k[1]); return {a.v != b.v, a.bad || b.bad}; }
  }
  R a = ev(n->k[0]), b = ev(n->k[1]);
  if (a.bad || b.bad) return {false, true};
  bool exact = (n->k[0]->op == 'v' || n->k[0]->op == 'n') && (n->k[1]->op == 'v' || n->k[1]->op == 'n');
  if (!exact && fabsl(a.v - b.v) <= 4 * (a.e + b.e)) return {false, true};
  switch (n->op) {
    case '>': return {a.v > b.v, false};
    case '<': return {a.v < b.v, false};
    case 'g': return {a.v >= b.v, false};
    case 'l': return {a.v <= b.v, false};
    case '=': return {a.v == b.v, false};
    case 'i': return {a.v != b.v, false};
  }
  abort();
}
static R fun(std::string const& f, R x)
{
  if (x.bad) return x;
  auto lip = [&](L (*g)(L), L d) { return mk(g(x.v), d * x.e * 1.1L + 4 * U * fabsl(g(x.v))); };
  if (f == "sin") return fabsl(x.v) > 1e6 ? bad() : lip(sinl, 1);
  if (f == "cos") return fabsl(x.v) > 1e6 ? bad() : lip(cosl, 1);
  if (f == "tan") { L c = cosl(x.v); return fabsl(x.v) > 1e6 || fabsl(c) < 1e-3L + 10 * x.e ? bad() : lip(tanl, 2 / (c * c)); }
  if (f == "erf") return lip(erfl, 1.2L);
  if (f == "erfc") return x.v > 20 ? bad() : mk(erfcl(x.v), 1.2L * x.e + 1e-15L * fabsl(erfcl(x.v)));
  if (f == "exp") return x.v > 500 || x.e > 0.1L ? bad() : lip(expl, 1.2L * expl(x.v));
  if (f == "log") return x.v <= 4 * x.e || x.v < 1e-290L ? bad() : lip(logl, 2 / x.v);
  if (f == "log10") return x.v <= 4 * x.e || x.v < 1e-290L ? bad() : lip(log10l, 1 / x.v);
  if (f == "abs") return lip(fabsl, 1);
  if (f == "asin" || f == "acos") { L q = 1 - fabsl(x.v); if (q < 1e-4L + 10 * x.e) return bad(); L d = 2 / sqrtl(q); return f == "asin" ? lip(asinl, d) : lip(acosl, d); }
  if (f == "atan") return lip(atanl, 1);
  if (f == "sqrt") return x.v <= 4 * x.e || x.v < 1e-290L ? bad() : lip(sqrtl, 1 / sqrtl(x.v));
  if (f == "cbrt") return fabsl(x.v) <= 4 * x.e || fabsl(x.v) < 1e-290L ? bad() : lip(cbrtl, 1 / powl(fabsl(x.v), 2.0L / 3));
  L r = f == "ceil" ? ceill(x.v) : f == "floor" ? floorl(x.v) : roundl(x.v);
  L lo = x.v - 4 * x.e, hi = x.v + 4 * x.e;
  auto q = [&](L w) { return f == "ceil" ? ceill(w) : f == "floor" ? floorl(w) : roundl(w); };
  if (fabsl(x.v) > 1e12L || q(lo) != r || q(hi) != r) return bad();
  return R{r, 0, false};
}
static R ev(Node* n)
{
  switch (n->op) {
    case 'n': return R{n->c, 0, false};
    case 'v': return R{pt[n->fn == "x" ? 0 : n->fn == "y" ? 1 : n->fn == "z" ? 2 : 3], 0, false};
    case 'K': return mk(n->fn == "e" ? expl(1.0L) : n->fn == "pi" ? acosl(-1.0L) : 2 * acosl(-1.0L), 0);
    case 'N': { R a = ev(n->k[0]); a.v = -a.v; return a; }
    case 'f': return fun(n->fn, ev(n->k[0]));
    case '?': { B c = evb(n->k[0]); R a = ev(n->k[1]), b = ev(n->k[2]); if (c.bad) return bad(); return c.v ? a : b; }
  }
  R a = ev(n->k[0]), b = ev(n->k[1]);
  if (a.bad || b.bad) return bad();
  switch (n->op) {
    case '+': { R r = mk(a.v + b.v, a.e + b.e); r.e += U * (fabsl(a.v) + fabsl(b.v)); return r; }   // any association
    case '-': { R r = mk(a.v - b.v, a.e + b.e); r.e += U * (fabsl(a.v) + fabsl(b.v)); return r; }
    case '*': return mk(a.v * b.v, fabsl(a.v) * b.e + fabsl(b.v) * a.e + a.e * b.e + 2 * U * fabsl(a.v * b.v));
    case '/': if (fabsl(b.v) < 8 * b.e || fabsl(b.v) < 1e-250L) return bad(); { L q = a.v / b.v; return mk(q, 1.3L * (a.e / fabsl(b.v) + fabsl(q) * b.e / fabsl(b.v)) + 2 * U * fabsl(q)); }
    case '^': {
      bool ib = n->k[1]->op == 'n' && n->k[1]->c == floor(n->k[1]->c);
      if (n->k[1]->op == 'N' && n->k[1]->k[0]->op == 'n') ib = n->k[1]->k[0]->c == floor(n->k[1]->k[0]->c);
      if (!ib && a.v <= 4 * a.e) return bad();
      if (a.v == 0 || fabsl(a.v) < 16 * a.e || fabsl(b.v) > 60) return bad();
      L p = powl(a.v, b.v); if (!(fabsl(p) < 1e250L) || fabsl(p) < 1e-250L) return bad();
      return mk(p, 1.5L * fabsl(p) * (fabsl(b.v) * a.e / fabsl(a.v) + fabsl(logl(fabsl(a.v))) * b.e) + 8 * U * fabsl(p));
    }
    case '%': {
      if (fabsl(b.v) < 1e-6L || fabsl(a.v / b.v) > 1e9L) return bad();
      L q = a.v / b.v, fr = fabsl(q - roundl(q)), es = (a.e + fabsl(q) * b.e) / fabsl(b.v);
      if (fr <= 4 * es + 1e-15L * fabsl(q)) return bad();
      return mk(fmodl(a.v, b.v), a.e + (fabsl(q) + 1) * b.e);
    }
  }
  abort();
}
static Rng* g;
static Node* N(char op, std::vector<Node*> k = {}, double c = 0, std::string fn = "") { return new Node{op, c, fn, k}; }
static double rnum()
{
  switch (g->i(0, 5)) {
    case 0: return g->i(0, 9);
    case 1: return g->i(0, 2000);
    case 2: return g->i(0, 9999) / 1000.0;
    case 3: return g->i(1, 99) * std::pow(10.0, g->i(-12, 12));
    case 4: return g->d(0, 10);
    default: return g->i(1, 4);
  }
}
static const char* FN[] = {"sin", "cos", "tan", "erf", "exp", "log", "abs", "asin", "acos", "atan", "sqrt", "cbrt", "erfc", "ceil", "round", "floor", "log10"};
static Node* gen(int d);
static Node* genb(int d)
{
  int r = g->i(0, d <= 0 ? 7 : 13);
  if (r <= 6) return N(r == 0 ? '=' : r == 1 ? 'i' : r == 2 ? 'g' : r == 3 ? 'l' : r < 5 ? '>' : '<', {gen(d - 1), gen(d - 1)});
  if (r == 7) return N(g->p(0.5) ? 'T' : 'F');
  if (r <= 9) return N('!', {genb(d - 1)});
  return N(r <= 11 ? '&' : r == 12 ? '|' : 'X', {genb(d - 1), genb(d - 1)});
}
static Node* gen(int d)
{
  if (d <= 0 || g->p(0.12)) {
    int r = g->i(0, 9);
    if (r < 5) return N('v', {}, 0, r == 0 ? "t" : r == 1 ? "z" : r == 2 ? "y" : "x");
    if (r == 5) return N('K', {}, 0, std::vector<std::string>{"e", "pi", "tau"}[g->i(0, 2)]);
    return N('n', {}, rnum());
  }
  int r = g->i(0, 21);
  if (r < 4) return N('+', {gen(d - 1), gen(d - 1)});
  if (r < 8) return N('-', {gen(d - 1), gen(d - 1)});
  if (r < 11) return N('*', {gen(d - 1), gen(d - 1)});
  if (r < 13) return N('/', {gen(d - 1), gen(d - 1)});
  if (r < 15) { Node* p = g->p(0.7) ? N('n', {}, g->p(0.6) ? g->i(0, 4) : g->i(1, 9) / 2.0) : gen(d - 1); if (g->p(0.25)) p = N('N', {p}); return N('^', {gen(d - 1), p}); }
  if (r < 16) return N('%', {gen(d - 1), gen(d - 1)});
  if (r < 18) return N('N', {gen(d - 1)});
  if (r < 20) return N('f', {gen(d - 1)}, 0, FN[g->i(0, 16)]);
  return N('?', {genb(d - 1), gen(d - 1), gen(d - 1)});
}
static int style;                                   // spaces: 0 none, 1 around binary operators, 2 random
static std::string sp() { if (style == 0) return ""; if (style == 1) return " "; int n = g->i(0, 2); return std::string(n, ' '); }
static std::string isp() { return style == 2 ? std::string(g->i(0, 1), ' ') : ""; }
static std::string number0(double v);
static std::string number(double v)                  // other spellings of the same number: leading and trailing zeros, ".5", "5."
{
  std::string s = number0(v), t = s; if (!g->p(0.2)) return s;
  size_t e = t.find_first_of("eE"); std::string m = t.substr(0, e), x = e == std::string::npos ? "" : t.substr(e);
  if (m.find('.') == std::string::npos) { if (g->p(0.3)) m += "."; } else if (g->p(0.5)) m += std::string(g->i(1, 3), '0');
  if (m.size() > 2 && m[0] == '0' && m[1] == '.' && isdigit(m[2]) && g->p(0.5)) m = m.substr(1); else if (g->p(0.6)) m = std::string(g->i(1, 2), '0') + m;
  if (!x.empty() && g->p(0.5)) { size_t d = x.find_first_of("0123456789"); x.insert(d, std::string(g->i(1, 2), '0')); if (x[1] == '+' && g->p(0.5)) x.erase(1, 1); }
  t = m + x; if (strtod(t.c_str(), 0) != v) abort(); H::S("numbers in other spellings"); return t;
}
static std::string number0(double v)
{
  char b[64]; int k = g->i(0, 3);
  if (v == std::floor(v) && v < 1e9 && k < 2) { snprintf(b, 64, k ? "%.0f" : "%.1f", v); return b; }
  if (k == 2 || v > 1e9 || (v < 1e-4 && v > 0)) {
    snprintf(b, 64, "%.17g", v); for (int p = 1; p < 17; ++p) { char q[64]; snprintf(q, 64, "%.*e", p, v); if (strtod(q, 0) == v) { strcpy(b, q); break; } }
    std::string s = b; if (g->p(0.2)) for (auto& c : s) if (c == 'e') c = 'E';
    return s;
  }
  for (int p = 1; p < 18; ++p) { snprintf(b, 64, "%.*f", p, v); if (strtod(b, 0) == v) return b; }
  snprintf(b, 64, "%.17e", v); return b;
}
// precedence: 0 conditional, 1 mod (kept in parentheses on both sides: its place in the ordinary order is not settled), 2 + -, 3 * /, 4 unary minus, 5 ^, 6 atom
static int prec(Node* n) { switch (n->op) { case '?': return 0; case '%': return 1; case '+': case '-': return 2; case '*': case '/': return 3; case 'N': return 4; case '^': return 5; } return 6; }
static std::string str(Node* n);
static std::string par(Node* n, bool need) { if (!need && !g->p(0.08)) return str(n); return "(" + isp() + str(n) + isp() + ")"; }
static std::string strb(Node* n);
static int bprec(Node* n) { switch (n->op) { case '|': return 0; case 'X': return 1; case '&': return 2; case '!': return 3; case 'T': case 'F': return 5; } return 4; }
static std::string parb(Node* n, bool need) { if (!need && !g->p(0.1)) return strb(n); return "(" + isp() + strb(n) + isp() + ")"; }
static std::string strb(Node* n)
{
  switch (n->op) {
    case 'T': return "true";
    case 'F': return "false";
    case '!': return "!" + isp() + parb(n->k[0], bprec(n->k[0]) < 5 && n->k[0]->op != '!');
    case '|': return parb(n->k[0], false) + sp() + "|" + sp() + parb(n->k[1], false);
    case 'X': return parb(n->k[0], bprec(n->k[0]) < 1) + sp() + "^" + sp() + parb(n->k[1], bprec(n->k[1]) < 1);
    case '&': return parb(n->k[0], bprec(n->k[0]) < 2) + sp() + "&" + sp() + parb(n->k[1], bprec(n->k[1]) < 2);
  }
  std::string o = n->op == 'g' ? ">=" : n->op == 'l' ? "<=" : n->op == '=' ? "==" : n->op == 'i' ? "!=" : std::string(1, n->op);
  // a power next to ^ as xor is ambiguous: operands containing ^ are put in parentheses
  auto arg = [&](Node* k) { std::string s = str(k); return prec(k) < 2 || s.find('^') != std::string::npos || g->p(0.05) ? "(" + s + ")" : s; };
  return arg(n->k[0]) + sp() + o + sp() + arg(n->k[1]);
}
static std::string str(Node* n)
{
  switch (n->op) {
    case 'n': return number(n->c);
    case 'v': case 'K': { std::string s = n->fn; if (g->p(0.1)) for (auto& c : s) c = toupper(c); return s; }
    case 'N': return "-" + isp() + par(n->k[0], prec(n->k[0]) < 4);
    case 'f': { std::string f = n->fn; if (g->p(0.1)) f[0] = toupper(f[0]); return f + "(" + isp() + str(n->k[0]) + isp() + ")"; }
    case '?': return parb(n->k[0], false) + sp() + "?" + sp() + par(n->k[1], false) + sp() + ":" + sp() + par(n->k[2], false);
    case '%': return par(n->k[0], prec(n->k[0]) < 6) + sp() + "%" + sp() + par(n->k[1], prec(n->k[1]) < 6);
    case '+': return par(n->k[0], prec(n->k[0]) < 2) + sp() + "+" + sp() + par(n->k[1], prec(n->k[1]) < 2);
    case '-': return par(n->k[0], prec(n->k[0]) < 2) + sp() + "-" + sp() + par(n->k[1], prec(n->k[1]) <= 2);
    case '*': return par(n->k[0], prec(n->k[0]) < 3) + sp() + "*" + sp() + par(n->k[1], prec(n->k[1]) < 3);
    case '/': return par(n->k[0], prec(n->k[0]) < 3) + sp() + "/" + sp() + par(n->k[1], prec(n->k[1]) <= 3);
    case '^': return par(n->k[0], prec(n->k[0]) <= 5) + sp() + "^" + sp() + par(n->k[1], prec(n->k[1]) < 4);
  }
  abort();
}
static int count(Node* n) { int c = 1; for (auto k : n->k) c += count(k); return c; }
static void free_(Node* n) { for (auto k : n->k) free_(k); delete n; }
// syntactic class of an expression, so that findings about one construct do not hide others
static bool has(Node* n, std::function<bool(Node*)> f) { if (f(n)) return true; for (auto k : n->k) if (has(k, f)) return true; return false; }

int main(int argc, char** argv)
{
  Rng rng(atoll(argv[1]), 1300 + atoll(argv[2])); g = &rng; int ncase = atoi(argv[3]);
  for (int c = 0; c < ncase; ++c) {
    Node* n; int depth = rng.i(1, 6);
    do { n = gen(depth); if (count(n) <= 90) break; free_(n); depth = 3; } while (true);
    style = rng.i(0, 2);
    std::string s = str(n); if (style == 2 && rng.p(0.3)) s = std::string(rng.i(0, 3), ' ') + s + std::string(rng.i(0, 3), ' ');
    if (rng.p(0.05)) s = "(" + s + ")";
    H::note(s); H::ev();
    bool viaBC = rng.p(0.3);
    std::vector<std::array<double, 4>> P;
    for (int k = 0; k < 8; ++k) { std::array<double, 4> a; for (auto& q : a) q = rng.p(0.15) ? rng.i(-3, 3) : rng.p(0.1) ? rng.logu(1e-6, 1e6) : rng.d(-5, 5); P.push_back(a); }
    try {
      ExpressionParsing::BoundaryConditionFunctor f;
      nimble::BoundaryCondition bc;
      std::map<int, std::string> ns{{3, "left"}, {7, "nodelist_7"}}, ss;
      if (viaBC) { bc.Initialize(3, "prescribed_velocity left y \"" + s + "\"", ns, ss); f = bc.expression_; }
      else f = s;
      ExpressionParsing::BoundaryConditionFunctor f2(f), f3(s), f4("x + 1");
      f4 = f3;
      bool judged = false;
      std::vector<double> first;
      for (size_t k = 0; k < P.size(); ++k) {
        for (int q = 0; q < 4; ++q) pt[q] = P[k][q];
        R r = ev(n);
        double v = f.eval(P[k][0], P[k][1], P[k][2], P[k][3]); first.push_back(v);
        double v2 = f2.eval(P[k][0], P[k][1], P[k][2], P[k][3]), v3 = f3(P[k][0], P[k][1], P[k][2], P[k][3]), v4 = f4.eval(P[k][0], P[k][1], P[k][2], P[k][3]);
        if (memcmp(&v, &v2, 8) || memcmp(&v, &v3, 8) || memcmp(&v, &v4, 8)) { if (!(std::isnan(v) && std::isnan(v2) && std::isnan(v3) && std::isnan(v4))) H::V("copy", H::fmt("'%s' at (%.17g,%.17g,%.17g,%.17g): original %.17g copy %.17g second %.17g assigned %.17g", s.c_str(), P[k][0], P[k][1], P[k][2], P[k][3], v, v2, v3, v4)); }
        if (r.bad) { H::S("points not judged (ill-conditioned or outside domain)"); continue; }
        judged = true; H::S("points judged");
        if (!(fabsl((L)v - r.v) <= 3 * r.e + 1e-300L)) H::V("value", H::fmt("'%s' at x=%.17g y=%.17g z=%.17g t=%.17g is %.17g, expected %.17Lg (error bound %.2Lg)", s.c_str(), P[k][0], P[k][1], P[k][2], P[k][3], v, r.v, r.e));
      }
      if (viaBC) { double m = bc.expression_.eval(P[0][0], P[0][1], P[0][2], P[0][3]); if (memcmp(&m, &first[0], 8) && !std::isnan(m)) H::V("bc", "boundary condition evaluates '" + s + "' differently"); }
      for (size_t k = P.size(); k-- > 0;) { double v = f.eval(P[k][0], P[k][1], P[k][2], P[k][3]); if (memcmp(&v, &first[k], 8) && !(std::isnan(v) && std::isnan(first[k]))) H::V("history", "'" + s + H::fmt("' re-evaluated gives %.17g after %.17g", v, first[k])); }
      if (judged) { H::D(H::hash(s)); if (count(n) > 8 && count(n) < 14) H::X(s); H::M("nodes in one expression", count(n)); }
      if (has(n, [](Node* k) { return k->op == '?'; })) H::S("conditionals"); if (has(n, [](Node* k) { return k->op == '!'; })) H::S("negations of conditions"); if (has(n, [](Node* k) { return k->op == '^'; })) H::S("powers");
      if (!has(n, [](Node* k) { return k->op == 'v'; })) H::S("constant expressions");
    } catch (std::exception& e) { H::V("rejected", "valid expression '" + s + "' rejected: " + e.what()); }
    free_(n);
  }
  return H::end();
}
