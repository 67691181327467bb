// C14: any text as an expression is accepted or rejected safely (run under ASan+UBSan)
#include "h.h"
#include <csignal>
#include <unistd.h>
#include "nimble_boundary_condition.h"
#include "nimble_expression_parser.h"
using ExpressionParsing::BoundaryConditionFunctor;
static std::string cur;
static void onalarm(int) { H::V("hang", "no result within 20 s for '" + cur.substr(0, 300) + "'"); H::end(); _exit(0); }
static BoundaryConditionFunctor* canary = nullptr;
// one text; returns true when accepted
static bool one(std::string const& s, bool viaBC)
{
  cur = s;
  if (!canary) canary = new BoundaryConditionFunctor("2.5*x - y^2/(1 + z^2) + ((t > 1) ? 3 : sin(t))");
  bool acc = false;
  auto ev4 = [](BoundaryConditionFunctor& f, double* r) { int k = 0; for (double a : {0.0, -1.5, 1e30, 3.0}) r[k++] = f.eval(a, a / 3, -a, a + 0.5); };
  try {
    if (viaBC) {
      nimble::BoundaryCondition bc; std::map<int, std::string> ns{{1, "a"}}, ss;
      if (bc.Initialize(3, "prescribed_velocity a x \"" + s + "\"", ns, ss) && bc.has_expression_ && !s.empty()) {
        nimble::BoundaryCondition b2(bc); double a[4], b[4]; ev4(bc.expression_, a); ev4(b2.expression_, b); acc = true;
        if (memcmp(a, b, sizeof a)) for (int k = 0; k < 4; ++k) if (!(std::isnan(a[k]) && std::isnan(b[k])) && a[k] != b[k]) H::V("copy", "copied condition with '" + s + "' evaluates differently");
      }
    } else {
      BoundaryConditionFunctor* f = new BoundaryConditionFunctor(s);
      if (!s.empty()) {
        double a[4], b[4], c[4], d[4]; ev4(*f, a); ev4(*f, b);
        BoundaryConditionFunctor* g = new BoundaryConditionFunctor(*f); BoundaryConditionFunctor h("x"); h = *f; h = *f;
        delete f; ev4(*g, c); ev4(h, d); delete g;
        for (int k = 0; k < 4; ++k) for (double w : {b[k], c[k], d[k]}) if (!(std::isnan(a[k]) && std::isnan(w)) && a[k] != w) H::V("copy", "copy of '" + s + "' evaluates differently");
        acc = true;
      } else delete f;
    }
  } catch (std::exception const&) {
    H::S("rejected");
    // a failed assignment leaves the old expression usable
    BoundaryConditionFunctor k("x*2 + t"); try { k = s; } catch (std::exception const&) { if (!s.empty() && k.eval(2, 0, 0, 1) != 5) H::V("assign", "failed assignment of '" + s + "' changed the expression"); }
  } catch (...) { H::V("throw", "'" + s + "' ended in an exception that is no std::exception"); }
  if (acc) H::S("accepted");
  // later and earlier expressions are unaffected
  double v = canary->eval(1, 2, 3, 0.5), w = 2.5 - 4.0 / 10 + sin(0.5); BoundaryConditionFunctor q("2*(x + 1)^2 - -y");
  if (std::fabs(v - w) > 1e-14 || q.eval(2, 1, 0, 0) != 19) H::V("later", "an expression evaluates wrongly after '" + s + "'");
  return acc;
}
#ifdef FUZZ
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) { if (n > 2000) return 0; std::string s((const char*)d, n); one(s, false); if (!H::vcount().empty()) { fprintf(stderr, "ERROR: AddressSanitizer: semantic-violation\n"); abort(); } return 0; }
#else
int main(int argc, char** argv)
{
  H::Rng g(atoll(argv[1]), 1400 + atoll(argv[2])); int n = atoi(argv[3]); signal(SIGALRM, onalarm);
  std::vector<std::string> tok{"x", "y", "z", "t", "e", "pi", "tau", "1", "0", "2.5", ".", "1e", "1e5", "2e-05", "1e999", "1e-999", "99999999999999999999", "3.", ".5", "+", "-", "*", "/", "^", "%", "(", ")", "(", ")", "?", ":",
    "?", ":", "<", ">", "=", "==", "<=", ">=", "!", "!=", "|", "&", "||", "&&", "~", " ", "  ", "\t", "true", "false", "sin(", "cos(", "abs(", "sqrt(", "log10(", "sin", "exp (", "erf(", "floor(", "foo(", "q", "_", "\n", "\\", "'", ",", ";", "#"};
  std::vector<std::string> good{"x", "sin(x*2)+t", "(x > 1) ? 2 : 3", "-x^2 + y/3 - 1e-3*z", "(x >= 1 & !(y < 2) | t == 0) ? exp(-t) : ((z<0) ? 1 : 0)", "2 * (x - 3)^(-2) % 4", "abs(x) - -y", "((((x))))", "true ? 1 : 2", "(x > 0 ^ y > 0) ? 1 : -1"};
  for (int c = 0; c < n; ++c) {
    std::string s; int k = g.i(0, 9);
    if (k < 4) { int m = g.i(0, 14); for (int i = 0; i < m; ++i) s += g.pick(tok); }
    else if (k < 7) { s = g.pick(good); if (g.p(0.5)) s += g.pick(tok) + g.pick(good); int m = g.i(1, 4); for (int i = 0; i < m; ++i) { size_t p = g.u() % (s.size() + 1); switch (g.i(0, 3)) { case 0: s.insert(p, g.pick(tok)); break; case 1: if (p < s.size()) s.erase(p, g.i(1, 3)); break; case 2: if (p < s.size()) s[p] = (char)g.i(1, 255); break; default: s = s.substr(0, p); } } }
    else if (k == 7) { int m = g.i(0, 20); for (int i = 0; i < m; ++i) s += (char)g.i(g.p(0.2) ? 0 : 32, g.p(0.2) ? 255 : 126); }
    else if (k == 8) { std::string a = g.pick(tok), b = g.pick(tok), m = g.pick(good); int d = g.p(0.04) ? g.i(50, 500) : g.i(1, 30); for (int i = 0; i < d; ++i) s += a; s += m; for (int i = 0; i < d; ++i) s += b; }
    else { std::function<std::string(int)> gen = [&](int d) -> std::string { if (d <= 0) return g.pick(tok); switch (g.i(0, 7)) { case 0: return "(" + gen(d - 1) + ")"; case 1: return gen(d - 1) + g.pick(tok) + gen(d - 1); case 2: return "-" + gen(d - 1); case 3: return gen(d - 1) + " ? " + gen(d - 2) + " : " + gen(d - 1); case 4: return "sin(" + gen(d - 1) + ")"; case 5: return gen(d - 1) + "^" + gen(d - 2); case 6: return "!" + gen(d - 1) + "?" + gen(d - 1) + ":1"; } return gen(d - 1) + " & " + gen(d - 1) + "? x : y"; }; s = gen(g.i(1, 5)); }
    if (s.size() > 4000) s.resize(4000);
    if (!s.empty() && g.p(0.02)) s.push_back('\0');
    H::note(s); H::ev(); alarm(20);
    bool acc = one(s, g.p(0.3)); alarm(0);
    H::D(H::hash(s)); H::M("length", s.size());
    if (acc && s.size() > 10) H::X(s);
  }
  return H::end();
}
#endif
