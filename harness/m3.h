// long-double 3x3 reference algebra, and conversions to the library's storage orders
#pragma once
#include "h.h"
#include "nimble_utils.h"
typedef long double LD;
struct M3 { LD a[3][3]; LD* operator[](int i) { return a[i]; } LD const* operator[](int i) const { return a[i]; } };
static const int FI[3][3] = {{K_F_XX, K_F_XY, K_F_XZ}, {K_F_YX, K_F_YY, K_F_YZ}, {K_F_ZX, K_F_ZY, K_F_ZZ}};
static const int SI[3][3] = {{K_S_XX, K_S_XY, K_S_XZ}, {K_S_YX, K_S_YY, K_S_YZ}, {K_S_ZX, K_S_ZY, K_S_ZZ}};
static const double EPS = 2.220446049250313e-16;
inline M3 zero3() { M3 m; for (auto& r : m.a) for (auto& x : r) x = 0; return m; }
inline M3 eye3() { M3 m = zero3(); for (int i = 0; i < 3; ++i) m[i][i] = 1; return m; }
inline M3 fromF(const double* f) { M3 m; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m[i][j] = f[FI[i][j]]; return m; }
inline M3 fromS(const double* f) { M3 m; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m[i][j] = f[SI[i][j]]; return m; }
inline void toF(M3 const& m, double* f) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) f[FI[i][j]] = (double)m[i][j]; }
inline void toS(M3 const& m, double* f) { for (int i = 0; i < 3; ++i) for (int j = i; j < 3; ++j) f[SI[i][j]] = (double)m[i][j]; }
inline M3 mul(M3 const& x, M3 const& y) { M3 m = zero3(); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) m[i][j] += x[i][k] * y[k][j]; return m; }
inline M3 tr(M3 const& x) { M3 m; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m[i][j] = x[j][i]; return m; }
inline M3 ab(M3 x) { for (auto& r : x.a) for (auto& v : r) v = std::fabs(v); return x; }
inline M3 lin(LD p, M3 const& x, LD q, M3 const& y) { M3 m; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m[i][j] = p * x[i][j] + q * y[i][j]; return m; }
inline LD nrm(M3 const& x) { LD s = 0; for (auto& r : x.a) for (auto& v : r) s += v * v; return std::sqrt(s); }
inline LD trace(M3 const& x) { return x[0][0] + x[1][1] + x[2][2]; }
inline LD det3(M3 const& m) { return m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]); }
inline LD perm3(M3 const& m) { return m[0][0] * (m[1][1] * m[2][2] + m[1][2] * m[2][1]) + m[0][1] * (m[1][0] * m[2][2] + m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] + m[1][1] * m[2][0]); }
inline M3 adjx(M3 const& m, int sg)  // adjugate (sg=-1) or its absolute bound (sg=+1, on |m|)
{
  M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
    int a = (j + 1) % 3, b = (j + 2) % 3, c = (i + 1) % 3, d = (i + 2) % 3;
    r[i][j] = m[a][c] * m[b][d] + sg * m[a][d] * m[b][c];
  }
  return r;
}
inline M3 inv3(M3 const& m) { LD d = det3(m); M3 r = adjx(m, -1); for (auto& x : r.a) for (auto& v : x) v /= d; return r; }
inline void jacobi(M3 a, LD* ev, M3& v)  // columns of v are eigenvectors
{
  v = eye3();
  for (int s = 0; s < 60; ++s) {
    LD off = std::fabs(a[0][1]) + std::fabs(a[0][2]) + std::fabs(a[1][2]); if (off == 0) break;
    for (int p = 0; p < 2; ++p) for (int q = p + 1; q < 3; ++q) if (a[p][q] != 0) {
      LD th = (a[q][q] - a[p][p]) / (2 * a[p][q]), t = (th < 0 ? -1 : 1) / (std::fabs(th) + std::sqrt(th * th + 1)), c = 1 / std::sqrt(t * t + 1), sn = t * c;
      M3 j = eye3(); j[p][p] = j[q][q] = c; j[p][q] = sn; j[q][p] = -sn; a = mul(tr(j), mul(a, j)); a[p][q] = a[q][p] = 0; v = mul(v, j);
    }
  }
  for (int i = 0; i < 3; ++i) ev[i] = a[i][i];
}
template <class Fn> inline M3 fsym(M3 const& s, Fn f) { LD e[3]; M3 v; jacobi(s, e, v); M3 d = zero3(); for (int i = 0; i < 3; ++i) d[i][i] = f(e[i]); return mul(v, mul(d, tr(v))); }
inline M3 skew3(LD x, LD y, LD z) { M3 m = zero3(); m[0][1] = -z; m[0][2] = y; m[1][0] = z; m[1][2] = -x; m[2][0] = -y; m[2][1] = x; return m; }
inline M3 rotation(LD x, LD y, LD z)  // Rodrigues
{
  LD t = std::sqrt(x * x + y * y + z * z); M3 k = skew3(x, y, z), k2 = mul(k, k);
  LD a = t < 1e-6L ? 1 - t * t / 6 : std::sin(t) / t, b = t < 1e-6L ? 0.5L - t * t / 24 : (1 - std::cos(t)) / (t * t);
  return lin(1, eye3(), 1, lin(a, k, b, k2));
}
inline M3 randrot(H::Rng& r)
{
  switch (r.i(0, 7)) {
    case 0: return eye3();
    case 1: { int p[3] = {0, 1, 2}; std::vector<int> q(p, p + 3); r.shuffle(q); M3 m = zero3(); for (int i = 0; i < 3; ++i) m[i][q[i]] = r.p(.5) ? 1 : -1; if (det3(m) < 0) for (auto& x : m.a) for (auto& v : x) v = -v; return m; }
    case 2: { LD a[3] = {0, 0, 0}; a[r.i(0, 2)] = r.d(-3.2, 3.2); return rotation(a[0], a[1], a[2]); }
    case 3: { LD s = r.logu(1e-12, 1e-1); return rotation(s * r.n(), s * r.n(), s * r.n()); }
    default: { LD x = r.n(), y = r.n(), z = r.n(), n = std::sqrt(x * x + y * y + z * z), t = r.d(-3.2, 3.2); return rotation(x / n * t, y / n * t, z / n * t); }
  }
}
inline std::string str(M3 const& m) { std::string s = "["; for (auto& r : m.a) for (auto& v : r) s += H::fmt("%.17g ", (double)v); return s + "]"; }
