// C17: identities of the small-matrix utilities.
#include "m3.h"
#include <iostream>
#include <sstream>
using namespace H;
static M3 randmat(Rng& r, bool scaled = true)
{
  M3 m; int k = r.i(0, 6);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m[i][j] = (double)(k == 0 ? r.i(-3, 3) : k == 1 ? (i == j ? r.n() : 0) : k == 2 ? (i == j) + 1e-9 * r.n() : k == 3 ? r.n() * r.logu(1e-8, 1e8) : r.n());
  if (scaled && r.p(.3)) { double s = r.logu(1e-20, 1e20); for (auto& x : m.a) for (auto& v : x) v = (double)(v * s); }
  if (scaled && r.p(.1)) for (int i = 0; i < 3; ++i) { double s = r.logu(1e-6, 1e6); for (int j = 0; j < 3; ++j) m[i][j] = (double)(m[i][j] * s); }
  return m;
}
static void put(M3& m) { for (auto& x : m.a) for (auto& v : x) v = (double)v; }
static bool fin(const double* p, int n) { for (int i = 0; i < n; ++i) if (!std::isfinite(p[i])) return false; return true; }
// |got - want| <= c*eps*bound componentwise
static void cmp(const char* key, M3 const& got, M3 const& want, M3 const& bound, double c, M3 const& A)
{
  LD w = 0; bool bad = false;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
    LD d = std::fabs(got[i][j] - want[i][j]), b = EPS * bound[i][j] + 1e-290L; if (d > c * b || !std::isfinite((double)got[i][j])) bad = true; if (d / b > w) w = d / b;
  }
  ev(); S(key); M(std::string("worst ") + key, (double)w);
  if (bad) V(key, std::string(key) + ": got " + str(got) + " want " + str(want) + " for " + str(A));
}
static M3 symrand(Rng& r, bool pos)
{
  LD e[3]; LD s = r.p(.3) ? pos ? r.logu(1e-3, 1e3) : r.logu(1e-15, 1e15) : 1;
  switch (r.i(0, 6)) {
    case 0: for (auto& x : e) x = r.d(pos ? .1 : -1, 1); break;
    case 1: e[0] = e[1] = r.d(.1, 1); e[2] = r.d(.1, 1); break;
    case 2: e[0] = e[1] = e[2] = r.d(.1, 1); break;
    case 3: { LD p = r.logu(1e-16, 1e-2); e[0] = r.d(.1, 1); e[1] = e[0] * (1 + p); e[2] = r.p(.5) ? e[0] * (1 - p * r.d(0, 2)) : r.d(.1, 1); break; }
    case 4: for (auto& x : e) x = r.logu(pos ? 1e-3 : 1e-6, 1); break;
    case 5: e[0] = r.d(.1, 1); e[1] = pos ? .5 : 0; e[2] = pos ? e[0] : -e[0]; break;
    default: { LD p = r.logu(1e-14, 1e-4); for (auto& x : e) x = 1 + p * r.n(); }
  }
  if (!pos) for (auto& x : e) if (r.p(.3)) x = -x;
  std::swap(e[0], e[r.i(0, 2)]); std::swap(e[1], e[r.i(1, 2)]);
  M3 q = randrot(r), d = zero3(); for (int i = 0; i < 3; ++i) d[i][i] = e[i] * s;
  M3 m = mul(q, mul(d, tr(q))); put(m); for (int i = 0; i < 3; ++i) for (int j = 0; j < i; ++j) m[i][j] = m[j][i];
  return m;
}
int main(int argc, char** argv)
{
  uint64_t seed = atoll(argv[1]), shard = atoll(argv[2]); long N = atol(argv[3]);
  for (long c = 0; c < N; ++c) {
    Rng r(seed * 1000003 + shard, c); note(fmt("shard %llu case %ld", (unsigned long long)shard, c));
    M3 A = randmat(r), B = randmat(r), Sy = symrand(r, false); double a[9], b[9], s[6], o[9], o6[6]; toF(A, a); toF(B, b); toS(Sy, s);
    D(hash(a, sizeof a)); if (c == 0) X(str(A));
    double al = r.n() * (r.p(.2) ? 1e5 : 1);
    auto nanfill = [&] { for (auto& x : o) x = NAN; for (auto& x : o6) x = NAN; };
    M3 Z = zero3();
    // --- algebra
    nanfill(); Mult_Full33_Full33(a, b, o); cmp("product", fromF(o), mul(A, B), mul(ab(A), ab(B)), 4, A);
    nanfill(); Mult_Sym33_Full33(s, b, o); cmp("symmetric times full", fromF(o), mul(Sy, B), mul(ab(Sy), ab(B)), 4, B);
    nanfill(); Mult_Full33_Sym33_ReturnT(a, s, o); cmp("full times symmetric, transposed", fromF(o), tr(mul(A, Sy)), tr(mul(ab(A), ab(Sy))), 4, A);
    nanfill(); Mult_Scalar_Full33_Full33(al, a, b, o); cmp("scaled product", fromF(o), lin(al, mul(A, B), 0, Z), lin(std::fabs(al), mul(ab(A), ab(B)), 0, Z), 5, A);
    nanfill(); Square_Full33T_Full33(a, o6); cmp("AtA", fromS(o6), mul(tr(A), A), mul(tr(ab(A)), ab(A)), 4, A);
    nanfill(); Square_Full33_Full33T(a, o6); cmp("AAt", fromS(o6), mul(A, tr(A)), mul(ab(A), tr(ab(A))), 4, A);
    nanfill(); Rotate_Sym33_Using_Rtranspose_S_R(s, b, o6); cmp("RtSR", fromS(o6), mul(tr(B), mul(Sy, B)), mul(tr(ab(B)), mul(ab(Sy), ab(B))), 8, B);
    nanfill(); Unrotate_Sym33_Using_R_S_Rtranspose(s, b, o6); cmp("RSRt", fromS(o6), mul(B, mul(Sy, tr(B))), mul(ab(B), mul(ab(Sy), tr(ab(B)))), 8, B);
    nanfill(); Mult_Scalar_Full33(al, a, o); cmp("scaling", fromF(o), lin(al, A, 0, Z), lin(std::fabs(al), ab(A), 0, Z), 1, A);
    memcpy(o, a, sizeof a); Mult_Scalar_Full33(al, o, o); cmp("scaling in place", fromF(o), lin(al, A, 0, Z), lin(std::fabs(al), ab(A), 0, Z), 1, A);
    nanfill(); Sum_Full33_Full33(a, b, o); cmp("sum", fromF(o), lin(1, A, 1, B), lin(1, ab(A), 1, ab(B)), 1, A);
    memcpy(o, a, sizeof a); Sum_Full33_Full33(o, b, o); cmp("sum in place", fromF(o), lin(1, A, 1, B), lin(1, ab(A), 1, ab(B)), 1, A);
    nanfill(); Sum_Sym33_Full33(s, b, o); cmp("symmetric plus full", fromF(o), lin(1, Sy, 1, B), lin(1, ab(Sy), 1, ab(B)), 1, B);
    memcpy(o, b, sizeof b); Sum_Sym33_Full33(s, o, o); cmp("symmetric plus full in place", fromF(o), lin(1, Sy, 1, B), lin(1, ab(Sy), 1, ab(B)), 1, B);
    nanfill(); SymPart_Full33(a, o6); cmp("symmetric part", fromS(o6), lin(.5L, A, .5L, tr(A)), lin(1, ab(A), 1, tr(ab(A))), 1, A);
    nanfill(); SkewPart_Full33(a, o); cmp("skew part", fromF(o), lin(.5L, A, -.5L, tr(A)), lin(1, ab(A), 1, tr(ab(A))), 1, A);
    {
      std::stringstream cap; auto* old = std::cout.rdbuf(cap.rdbuf()); double sp[6], sk[9]; SymPart_Full33(a, sp); SkewPart_Full33(a, sk);
      CheckCorrectnessOfSymSkew(a, sp, sk, "x"); size_t n0 = cap.str().size(); int k = r.i(0, 8); sk[k] += 1e-3 * (1 + (double)nrm(A)); CheckCorrectnessOfSymSkew(a, sp, sk, "x"); size_t n1 = cap.str().size(); std::cout.rdbuf(old);
      ev(); S("self-check of parts"); if (n0) V("self-check of parts", "CheckCorrectnessOfSymSkew complains about correct parts of " + str(A)); if (n1 == n0) V("self-check of parts", "CheckCorrectnessOfSymSkew accepts wrong parts of " + str(A));
    }
    nanfill(); SetEqual_Full33(a, o); ev(); if (memcmp(o, a, sizeof a)) V("copy", "SetEqual_Full33 of " + str(A)); SetEqual_Sym33(s, o6); if (memcmp(o6, s, sizeof s)) V("copy", "SetEqual_Sym33 of " + str(Sy)); S("copy");
    nanfill(); Zero_Full33(o); ev(); for (double x : o) if (x != 0) V("zero", "Zero_Full33 leaves a value");
    { double n = Norm_Full33(a); ev(); S("norm"); if (!(std::fabs(n - nrm(A)) <= 8 * EPS * nrm(A))) V("norm", fmt("Norm_Full33 %.17g want %.17Lg for ", n, nrm(A)) + str(A)); n = Norm_Sym33(s); if (!(std::fabs(n - nrm(Sy)) <= 8 * EPS * nrm(Sy))) V("norm", fmt("Norm_Sym33 %.17g want %.17Lg for ", n, nrm(Sy)) + str(Sy)); double z9[9] = {0}; if (Norm_Full33(z9) != 0 || Norm_Sym33(z9) != 0) V("norm", "norm of the zero tensor"); }
    {
      double x[3] = {a[0], a[1], a[2]}, y[3] = {b[0], b[1], b[2]}, z[3]; CrossProduct(x, y, z); ev(); S("cross product");
      for (int i = 0; i < 3; ++i) { int j = (i + 1) % 3, k = (i + 2) % 3; LD w = (LD)x[j] * y[k] - (LD)x[k] * y[j], bd = std::fabs((LD)x[j] * y[k]) + std::fabs((LD)x[k] * y[j]); if (!(std::fabs(z[i] - w) <= 2 * EPS * bd + 1e-290L)) V("cross product", fmt("component %d: %.17g want %.17Lg", i, z[i], w)); }
      double p = r.n(), q = r.p(.2) ? 0 : r.n(); ev();
      if (MultiplySign(p, q) != (q < 0 ? -p : p)) V("sign", fmt("MultiplySign(%g,%g)", p, q)); if (Minimum(p, q) != std::min(p, q)) V("minimum", fmt("Minimum(%g,%g)", p, q));
      if (if_then(p < q, p, q) != (p < q ? p : q) || if_then_else(p < q, p, q) != (p < q ? p : q) || if_then_else_zero(p < q, p) != (p < q ? p : 0)) V("select", fmt("if_then of %g %g", p, q)); S("scalar helpers");
    }
    // --- determinant and inverse
    {
      double d = Determinant_Full33(a); LD w = det3(A), bd = perm3(ab(A)); ev(); S("determinant"); if (!(std::fabs(d - w) <= 8 * EPS * bd + 1e-290L)) V("determinant", fmt("%.17g want %.17Lg for ", d, w) + str(A));
      M3 P = A; if (w < 0) { for (int j = 0; j < 3; ++j) std::swap(P[0][j], P[1][j]); w = -w; }
      if (w > 64 * EPS * bd && w > 1e-200L && w < 1e200L) {
        double p[9], pin[9]; toF(P, p); double dd = Invert_Full33(p, pin); M3 G = fromF(pin), E = adjx(ab(P), 1); for (auto& x : E.a) for (auto& v : x) v = v / w * (1 + bd / w);
        cmp("inverse", G, inv3(P), E, 16, P); if (!(std::fabs(dd - w) <= 8 * EPS * bd)) V("inverse", fmt("returned determinant %.17g want %.17Lg for ", dd, w) + str(P));
        double m[3][3], mi[3][3]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m[i][j] = (double)P[i][j];
        dd = Invert3x3(m, mi); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) G[i][j] = mi[i][j];
        cmp("inverse 3x3", G, inv3(P), E, 16, P); if (!(std::fabs(dd - w) <= 8 * EPS * bd)) V("inverse 3x3", fmt("returned determinant %.17g want %.17Lg for ", dd, w) + str(P));
      }
    }
    // --- eigenvalues
    {
      double e[3], v[3][3]; for (auto& x : v) for (auto& y : x) y = NAN; Eigen_Sym33_NonUnit(s, e[0], e[1], e[2], v[0], v[1], v[2]);
      LD sc = nrm(Sy), er[3]; M3 q; jacobi(Sy, er, q); std::sort(er, er + 3); LD es[3] = {e[0], e[1], e[2]}; std::sort(es, es + 3); ev(); S("eigensystem");
      LD w = 0, res = 0, ort = 0; bool ok = fin(e, 3) && fin(v[0], 9);
      for (int i = 0; i < 3; ++i) w = std::max(w, std::fabs(es[i] - er[i]) / sc);
      LD n[3]; for (int i = 0; i < 3; ++i) { n[i] = std::sqrt((LD)v[i][0] * v[i][0] + (LD)v[i][1] * v[i][1] + (LD)v[i][2] * v[i][2]); if (!(n[i] > 0)) ok = false; }
      if (ok) for (int i = 0; i < 3; ++i) {
        LD t = 0; for (int k = 0; k < 3; ++k) { LD y = -(LD)e[i] * v[i][k]; for (int l = 0; l < 3; ++l) y += Sy[k][l] * v[i][l]; t += y * y; } res = std::max(res, std::sqrt(t) / n[i] / sc);
        for (int j = 0; j < i; ++j) { LD dt = 0; for (int k = 0; k < 3; ++k) dt += (LD)v[i][k] * v[j][k]; ort = std::max(ort, std::fabs(dt) / n[i] / n[j]); }
      }
      M("worst eigenvalue error/eps", (double)(w / EPS)); M("worst eigenvector residual/eps", (double)(res / EPS)); M("worst eigenvector orthogonality/eps", (double)(ort / EPS));
      if (!ok || !(w <= 1e-13L) || !(res <= 1e-12L) || !(ort <= 1e-12L)) V("eigensystem", fmt("eigenvalue error %.2Le residual %.2Le orthogonality %.2Le (%.17g %.17g %.17g) for ", w, res, ort, e[0], e[1], e[2]) + str(Sy));
      double t = r.d(0, 1); if (r.p(.1)) t = r.i(0, 1); double cc = Cos_Of_Acos_Divided_By_3(t); ev(); LD cw = std::cos(std::acos((LD)t) / 3); M("worst cos(acos/3)", std::fabs(cc - (double)cw)); if (!(std::fabs(cc - cw) <= 4e-15L)) V("cos(acos/3)", fmt("%.17g for %.17g want %.17Lg", cc, t, cw));
    }
    // --- polar factors
    {
      M3 Vs = symrand(r, true), R = randrot(r), F = mul(Vs, R); put(F); double f[9]; toF(F, f); LD det = det3(F), n = nrm(F);
      M3 b2 = mul(F, tr(F)); LD e2[3]; M3 q; jacobi(b2, e2, q); std::sort(e2, e2 + 3); LD kap = std::sqrt(e2[2] / e2[0]);
      if (det > 0 && kap < 2e3) {
        M3 Vr = fsym(b2, [](LD x) { return std::sqrt(x); }), Lr = fsym(b2, [](LD x) { return std::log(x) / 2; }), Rr = mul(inv3(Vr), F);
        for (int alg = 0; alg < 2; ++alg) {
          double v[6], rr[9], lv[6]; for (auto& x : v) x = NAN; for (auto& x : rr) x = NAN; for (auto& x : lv) x = NAN;
          if (alg == 0) Polar_Decomp(f, v, rr); else Polar_Left_LogV_Lame(f, v, rr, lv);
          M3 Vg = fromS(v), Rg = fromF(rr); const char* key = alg ? "polar with logarithm" : "polar"; ev(); S(key);
          LD t = 64 * EPS * kap * kap + 1e-14L, e1 = nrm(lin(1, mul(Vg, Rg), -1, F)) / n, eo = nrm(lin(1, mul(Rg, tr(Rg)), -1, eye3())), ev_ = nrm(lin(1, Vg, -1, Vr)) / n, er_ = nrm(lin(1, Rg, -1, Rr));
          LD w = std::max(std::max(e1, eo), std::max(ev_, er_)); M(std::string("worst ") + key + " error/(eps cond^2)", (double)(w / EPS / kap / kap));
          if (!(w <= t) || !(det3(Rg) > 0) || !fin(v, 6) || !fin(rr, 9)) V(key, fmt("VR-F %.2Le RRt-I %.2Le V %.2Le R %.2Le cond %.2Le for ", e1, eo, ev_, er_, kap) + str(F));
          if (alg) { LD el = nrm(lin(1, fromS(lv), -1, Lr)); M("worst logarithm error/(eps cond^2)", (double)(el / EPS / kap / kap)); if (!(el <= t * (1 + nrm(Lr)))) V("logarithm of stretch", fmt("error %.2Le cond %.2Le for ", el, kap) + str(F)); }
          if (n > .1 && n < 10 && kap < 20 && r.p(.2)) {
            std::stringstream cap; auto* old = std::cout.rdbuf(cap.rdbuf()); CheckCorrectnessOfPolarDecomp(f, v, rr, "x"); size_t n0 = cap.str().size(); v[r.i(0, 5)] += 1e-3; CheckCorrectnessOfPolarDecomp(f, v, rr, "x"); size_t n1 = cap.str().size(); std::cout.rdbuf(old);
            ev(); S("self-check of polar factors"); if (n0) V("self-check of polar factors", "complains about correct factors of " + str(F)); if (n1 == n0) V("self-check of polar factors", "accepts wrong factors of " + str(F));
          }
        }
      }
    }
    // --- rotation logarithm
    {
      M3 R; LD gap = 9;
      if (r.p(.4)) { LD x = r.n(), y = r.n(), z = r.n(); if (r.p(.4)) { x = r.i(-1, 1); y = r.i(-1, 1); z = r.i(-1, 1); } LD n = std::sqrt(x * x + y * y + z * z); if (n == 0) { x = n = 1; } LD t = 3.14159265358979323846264338327950288L - (r.p(.3) ? 0 : r.logu(1e-16, 1)); R = rotation(x / n * t, y / n * t, z / n * t); }
      else R = randrot(r);
      put(R); double rr[9], lg[9]; toF(R, rr); for (auto& x : lg) x = NAN; Log_Rotation(rr, lg);
      M3 G = fromF(lg), E; ev(); S("rotation logarithm"); LD skw = nrm(lin(1, G, 1, tr(G)));
      LD x = G[2][1], y = G[0][2], z = G[1][0], th = std::sqrt(x * x + y * y + z * z); bool ok = fin(lg, 9) && skw == 0 && th <= 3.1415926535898L;
      E = rotation(x, y, z); { LD a = (R[2][1] - R[1][2]) / 2, b3 = (R[0][2] - R[2][0]) / 2, c3 = (R[1][0] - R[0][1]) / 2; gap = trace(R) < 0 ? std::sqrt(a * a + b3 * b3 + c3 * c3) : 1; } LD tl = gap < 1e-7L ? 5e-7L : 1e-14L + 64 * EPS / gap; LD er = ok ? nrm(lin(1, E, -1, R)) : 9; M("worst rotation logarithm error/tolerance", (double)(er / tl));
      if (!(er <= tl) || !ok) V("rotation logarithm", fmt("exp(log R)-R = %.2Le, angle %.17Lg for ", er, th) + str(R) + " log " + str(G));
      // a rotation by exactly half a turn (up to rounding)
      LD u[3] = {(LD)r.n(), (LD)r.n(), (LD)r.n()}; if (r.p(.5)) { u[0] = r.i(-1, 1); u[1] = r.i(-1, 1); u[2] = r.i(-1, 1); } LD n = std::sqrt(u[0] * u[0] + u[1] * u[1] + u[2] * u[2]); if (n == 0) { n = u[1] = 1; }
      for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) R[i][j] = 2 * u[i] * u[j] / n / n - (i == j); put(R); toF(R, rr); for (auto& v : lg) v = NAN; Log_Rotation_Pi(rr, lg); G = fromF(lg); ev(); S("rotation logarithm at half a turn");
      x = G[2][1]; y = G[0][2]; z = G[1][0]; th = std::sqrt(x * x + y * y + z * z); er = fin(lg, 9) ? nrm(lin(1, rotation(x, y, z), -1, R)) : 9;
      if (!(er <= 1e-13L) || !(std::fabs(th - 3.14159265358979323846L) < 1e-14L)) V("rotation logarithm at half a turn", fmt("error %.2Le angle %.17Lg for ", er, th) + str(R));
    }
    // --- Baker-Campbell-Hausdorff: x + y + [x,y]/2 + ([x,[x,y]] + [y,[y,x]])/12 - [y,[x,[x,y]]]/24
    {
      auto br = [](M3 const& p, M3 const& q) { return lin(1, mul(p, q), -1, mul(q, p)); };
      M3 x = randmat(r, false), y = randmat(r, false); LD sc = 1 / (1 + nrm(x) + nrm(y)); bool sy = r.p(.5); if (sy) x = symrand(r, false); if (sy) sc = 1 / (1 + nrm(x) + nrm(y)); x = lin(sc, x, 0, x); y = lin(sc, y, 0, y); put(x); put(y); if (sy) for (int i = 0; i < 3; ++i) for (int j = 0; j < i; ++j) x[i][j] = x[j][i];
      M3 xy = br(x, y), yx = br(y, x), w = lin(1, lin(1, x, 1, y), .5L, xy); w = lin(1, w, 1 / 12.0L, lin(1, br(x, xy), 1, br(y, yx))); w = lin(1, w, -1 / 24.0L, br(y, br(x, xy)));
      double xx[9], yy[9]; toF(x, xx); toF(y, yy); nanfill(); BCH(xx, yy, o); M3 one; for (auto& q : one.a) for (auto& v : q) v = 1; cmp("combined logarithms", fromF(o), w, one, 16, x);
      if (sy) { double xs[6]; toS(x, xs); nanfill(); BCH_Sym33_Full33(xs, yy, o); cmp("combined logarithms (symmetric)", fromF(o), w, one, 16, x); }
    }
  }
  return end();
}
