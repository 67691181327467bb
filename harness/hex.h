// long-double reference for the 8-node hexahedron with the 2x2x2 Gauss rule
#pragma once
#include "m3.h"
typedef std::array<std::array<LD, 3>, 8> Hex8;
static const int HN[8][3] = {{-1, -1, -1}, {1, -1, -1}, {1, 1, -1}, {-1, 1, -1}, {-1, -1, 1}, {1, -1, 1}, {1, 1, 1}, {-1, 1, 1}};
struct HexPt { LD N[8], d[8][3]; };  // at natural coordinates
inline HexPt hexpt(LD r, LD s, LD t)
{
  HexPt p; for (int n = 0; n < 8; ++n) { LD a = 1 + HN[n][0] * r, b = 1 + HN[n][1] * s, c = 1 + HN[n][2] * t; p.N[n] = a * b * c / 8; p.d[n][0] = HN[n][0] * b * c / 8; p.d[n][1] = a * HN[n][1] * c / 8; p.d[n][2] = a * b * HN[n][2] / 8; }
  return p;
}
inline HexPt gauss(int q) { static const LD g = 1 / std::sqrt(3.0L); return hexpt(HN[q][0] * g, HN[q][1] * g, HN[q][2] * g); }
inline M3 jac(Hex8 const& x, HexPt const& p) { M3 j = zero3(); for (int n = 0; n < 8; ++n) for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) j[a][b] += x[n][a] * p.d[n][b]; return j; }
inline LD cmax(Hex8 const& x) { LD m = 0; for (auto& n : x) for (auto v : n) m = std::max(m, std::fabs(v)); return m; }
inline bool valid(Hex8 const& x)  // positive and not too small Jacobian at the Gauss points and the corners
{
  for (int q = 0; q < 16; ++q) { M3 j = jac(x, q < 8 ? gauss(q) : hexpt(HN[q - 8][0], HN[q - 8][1], HN[q - 8][2])); LD n = nrm(j); if (!(det3(j) > 2e-3L * n * n * n)) return false; }
  return true;
}
// relative rounding amplification: coordinates of size X in an element whose Jacobians have inverse norm |J^-1|
inline LD ampl(Hex8 const& x, LD X) { LD m = 0; for (int q = 0; q < 8; ++q) { M3 j = jac(x, gauss(q)), i = inv3(j); m = std::max(m, nrm(i) * (X + nrm(j)) * std::max<LD>(1, nrm(i) * nrm(j) / 3)); } return m; }
inline void grads(Hex8 const& x, int q, LD g[8][3], LD& det) { HexPt p = gauss(q); M3 j = jac(x, p), i = inv3(j); det = det3(j); for (int n = 0; n < 8; ++n) for (int a = 0; a < 3; ++a) { g[n][a] = 0; for (int b = 0; b < 3; ++b) g[n][a] += p.d[n][b] * i[b][a]; } }
inline Hex8 roundd(Hex8 x) { for (auto& n : x) for (auto& v : n) v = (double)v; return x; }
inline Hex8 affine(Hex8 const& x, M3 const& A, LD const* b) { Hex8 y; for (int n = 0; n < 8; ++n) for (int i = 0; i < 3; ++i) { y[n][i] = b[i]; for (int k = 0; k < 3; ++k) y[n][i] += A[i][k] * x[n][k]; } return y; }
inline Hex8 randhex(H::Rng& r)
{
  for (;;) {
    Hex8 x; LD w = r.p(.25) ? 0 : r.d(0, .7), b[3] = {0, 0, 0};
    for (int n = 0; n < 8; ++n) for (int a = 0; a < 3; ++a) x[n][a] = HN[n][a] * .5L + w * (r.d() - .5);
    M3 A = eye3(); int k = r.i(0, 4); LD s = r.p(.3) ? 1 : r.logu(1e-6, 1e6);
    if (k) { for (int i = 0; i < 3; ++i) A[i][i] = k < 3 ? 1 : r.logu(.1, 10); if (k == 2 || k == 4) A[0][1] = r.d(-.8, .8), A[1][2] = r.d(-.8, .8); if (r.p(.7)) A = mul(randrot(r), A); }
    A = lin(s, A, 0, A); if (r.p(.6)) for (auto& v : b) v = r.n() * s * (r.p(.2) ? 1000 : 2);
    x = roundd(affine(x, A, b)); if (valid(x)) return x;
  }
}
inline void flat(Hex8 const& x, double* o) { for (int n = 0; n < 8; ++n) for (int a = 0; a < 3; ++a) o[3 * n + a] = (double)x[n][a]; }
