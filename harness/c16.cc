// C16: the hexahedral element against a long-double isoparametric reference.
#include "hex.h"
#include "mpi.h"
#include <Kokkos_Core.hpp>
#include "nimble_element.h"
#include "nimble_kokkos_defs.h"
using namespace H;
using namespace nimble_kokkos;
static std::string show(const double* p, int n) { std::string s; for (int i = 0; i < n; ++i) s += fmt("%.17g ", p[i]); return s; }
template <class A> static auto sub3(A& v, int e) { return Kokkos::subview(v, e, Kokkos::ALL, Kokkos::ALL); }
static const int RS[6][2] = {{0, 0}, {1, 1}, {2, 2}, {0, 1}, {1, 2}, {2, 0}};
int main(int argc, char** argv)
{
  MPI_Init(&argc, &argv); Kokkos::initialize(argc, argv);
  {
    uint64_t seed = atoll(argv[1]), shard = atoll(argv[2]); long N = atol(argv[3]);
    nimble::HexElement el; nimble::Element* ep = &el;
    if (ep->Dim() != 3 || ep->NumNodesPerElement() != 8 || ep->NumIntegrationPointsPerElement() != 8) V("shape", "dimension, nodes or integration points");
    const double P = 42.25;
    for (long c = 0; c < N; ++c) {
      Rng r(seed * 1000003 + shard, c); note(fmt("shard %llu case %ld", (unsigned long long)shard, c));
      Hex8 x = randhex(r), y; double rc[24], cc[24], dc[24];
      LD G[3][3]; bool linear = false; M3 H0 = eye3();
      for (;;) { // a displacement: none, linear, or general
        int k = r.i(0, 4); LD b[3] = {0, 0, 0}, s = 0, ctr[3] = {0, 0, 0}; for (auto& n : x) for (int a = 0; a < 3; ++a) ctr[a] += n[a] / 8; for (auto& n : x) for (int a = 0; a < 3; ++a) s = std::max(s, std::fabs(n[a] - ctr[a]));
        M3 A = eye3(); y = x; linear = k < 4;
        if (k >= 1) { LD t = r.logu(1e-8, .6); for (auto& w : A.a) for (auto& v : w) v += t * r.n() / 2; if (k == 2) A = randrot(r); if (k == 3) A = mul(randrot(r), A); Hex8 z = x; for (auto& n : z) for (int a = 0; a < 3; ++a) n[a] -= ctr[a]; for (int a = 0; a < 3; ++a) b[a] = ctr[a] + s * r.n(); y = affine(z, A, b); }
        if (k == 4) { LD w = s * r.d(0, .3); for (auto& n : y) for (auto& v : n) v += w * r.n() / 2; }
        for (int n = 0; n < 8; ++n) for (int a = 0; a < 3; ++a) { rc[3 * n + a] = (double)x[n][a]; dc[3 * n + a] = (double)(y[n][a] - x[n][a]); cc[3 * n + a] = rc[3 * n + a] + dc[3 * n + a]; y[n][a] = (LD)rc[3 * n + a] + dc[3 * n + a]; }
        H0 = A; if (valid(y)) break;
      }
      LD X = std::max(cmax(x), cmax(y)), ax = ampl(x, X), ay = ampl(y, X); for (double d : dc) X = std::max(X, std::fabs((LD)d));
      std::string what = "reference " + show(rc, 24) + "displacement " + show(dc, 24); if (c == 0) H::X(what); D(hash(cc, sizeof cc, hash(rc, sizeof rc)));
      if (EPS * (ax + ay) > 1e-9) { S("ill-conditioned hexahedra skipped"); continue; }
      LD tx = 40 * EPS * ax, ty = 40 * EPS * ay; auto near = [&](const char* k, LD got, LD want, LD tol, int i) { ev(); M(std::string("worst error/tolerance, ") + k, (double)(std::fabs(got - want) / (tol ? tol : 1))); if (!(std::fabs(got - want) <= tol)) V(k, fmt("entry %d is %.17Lg, expected %.17Lg, tolerance %.3Lg for ", i, got, want, tol) + what); };
      int ne = r.i(1, 3), e = r.i(0, ne - 1); DeviceVectorNodeGatheredView vr("r", ne), vd("d", ne), vf("f", ne); DeviceScalarNodeGatheredView vm("m", ne); DeviceFullTensorIntPtView vF("F", ne); DeviceSymTensorIntPtView vs("s", ne); DeviceScalarElemView vv("v", ne); DeviceSymTensorElemView vsa("sa", ne); DeviceFullTensorElemView vfa("fa", ne);
      for (int i = 0; i < ne; ++i) for (int n = 0; n < 8; ++n) { vm(i, n) = P; for (int a = 0; a < 3; ++a) { vr(i, n, a) = i == e ? rc[3 * n + a] : 9 * a + n; vd(i, n, a) = i == e ? dc[3 * n + a] : .1; vf(i, n, a) = P; } for (int a = 0; a < 9; ++a) { vF(i, n, a) = P; vfa(i, a) = P; } for (int a = 0; a < 6; ++a) vsa(i, a) = P; vv(i) = P; }
      // lumped mass
      { double rho = r.logu(1e-9, 1e6), m[10]; for (auto& v : m) v = P; LD want[8], tot = 0, sum = 0; for (auto& v : want) v = 0; for (int q = 0; q < 8; ++q) { HexPt p = gauss(q); LD d = det3(jac(x, p)); tot += d; for (int n = 0; n < 8; ++n) want[n] += rho * p.N[n] * d; }
        el.ComputeLumpedMass(rho, rc, m + 1); ep->ComputeLumpedMass(rho, sub3(vr, e), Kokkos::subview(vm, e, Kokkos::ALL)); S("lumped mass"); if (m[0] != P || m[9] != P) V("lumped mass", "writes outside its result");
        for (int n = 0; n < 8; ++n) { near("lumped mass", m[n + 1], want[n], tx * rho * tot, n); near("lumped mass through views", vm(e, n), want[n], tx * rho * tot, n); if (!(m[n + 1] > 0)) V("lumped mass positive", what); sum += m[n + 1]; } near("total mass", sum, rho * tot, tx * rho * tot, 0); }
      // characteristic length
      { LD dm = 1e300L, lo[3], hi[3]; for (int a = 0; a < 3; ++a) { lo[a] = 1e300L; hi[a] = -1e300L; } for (int i = 0; i < 8; ++i) { for (int a = 0; a < 3; ++a) { lo[a] = std::min<LD>(lo[a], cc[3 * i + a]); hi[a] = std::max<LD>(hi[a], cc[3 * i + a]); } for (int j = 0; j < i; ++j) { LD s = 0; for (int a = 0; a < 3; ++a) { LD d = (LD)cc[3 * i + a] - cc[3 * j + a]; s += d * d; } dm = std::min(dm, std::sqrt(s)); } }
        LD w = dm; for (int a = 0; a < 3; ++a) w = std::min(w, hi[a] - lo[a]); S("characteristic length"); S(w < dm ? "characteristic length from the box" : "characteristic length from node distance"); near("characteristic length", el.ComputeCharacteristicLength(cc), w, 8 * EPS * w, 0); }
      // volume and averages
      { int nq = r.i(1, 20); std::vector<double> q(8 * nq), av(nq + 2, P); for (auto& v : q) v = r.n() * 10; double vol = P; el.ComputeVolumeAverage(cc, nq, q.data(), vol, av.data() + 1); LD det[8], tot = 0; for (int i = 0; i < 8; ++i) tot += det[i] = det3(jac(y, gauss(i))); S("volume averages"); if (av[0] != P || av[nq + 1] != P) V("volume average", "writes outside its result");
        near("volume", vol, tot, ty * tot, 0); for (int k = 0; k < nq; ++k) { LD w = 0, mx = 0; for (int i = 0; i < 8; ++i) { w += det[i] / tot * q[nq * i + k]; mx = std::max(mx, (LD)std::fabs(q[nq * i + k])); } near("volume average", av[k + 1], w, 2 * ty * mx, k); }
        ep->ComputeVolume(sub3(vr, e), sub3(vd, e), Kokkos::subview(vv, e)); near("volume through views", vv(e), tot, ty * tot, 0);
        for (int i = 0; i < ne; ++i) for (int p = 0; p < 8; ++p) { for (int k = 0; k < 6; ++k) vs(i, p, k) = r.n(); for (int k = 0; k < 9; ++k) vF(i, p, k) = r.n(); }
        ep->ComputeVolumeAverageSymTensor(sub3(vr, e), sub3(vd, e), sub3(vs, e), Kokkos::subview(vsa, e, Kokkos::ALL)); ep->ComputeVolumeAverageFullTensor(sub3(vr, e), sub3(vd, e), sub3(vF, e), Kokkos::subview(vfa, e, Kokkos::ALL));
        for (int k = 0; k < 9; ++k) { LD w = 0, z = 0; for (int i = 0; i < 8; ++i) { w += det[i] / tot * vF(e, i, k); if (k < 6) z += det[i] / tot * vs(e, i, k); } near("average of a full tensor through views", vfa(e, k), w, 8 * ty, k); if (k < 6) near("average of a symmetric tensor through views", vsa(e, k), z, 8 * ty, k); } }
      // deformation gradients
      { double F[74]; for (auto& v : F) v = P; el.ComputeDeformationGradients(rc, cc, F + 1); S("deformation gradients"); if (linear) S("linear displacement fields"); if (F[0] != P || F[73] != P) V("deformation gradient", "writes outside its result"); ep->ComputeDeformationGradients(sub3(vr, e), sub3(vd, e), sub3(vF, e));
        for (int q = 0; q < 8; ++q) { HexPt p = gauss(q); M3 w = mul(jac(y, p), inv3(jac(x, p))); LD t = tx * (nrm(w) + 3); double wf[9], hf[9]; toF(w, wf); toF(H0, hf); for (int k = 0; k < 9; ++k) { near("deformation gradient", F[1 + 9 * q + k], wf[k], t, 9 * q + k); near("deformation gradient through views", vF(e, q, k), wf[k], t, 9 * q + k); if (linear) near("linear field", F[1 + 9 * q + k], hf[k], 3 * t, 9 * q + k); } } }
      // nodal forces
      { double s[48], f[26]; for (auto& v : f) v = P; LD sc = r.logu(1e-3, 1e9); for (auto& v : s) v = (double)(sc * r.n()); if (r.p(.2)) for (int i = 6; i < 48; ++i) s[i] = s[i - 6]; for (int p = 0; p < 8; ++p) for (int k = 0; k < 6; ++k) vs(e, p, k) = s[6 * p + k];
        el.ComputeNodalForces(cc, s, f + 1); ep->ComputeNodalForces(sub3(vr, e), sub3(vd, e), sub3(vs, e), sub3(vf, e)); S("nodal forces"); if (f[0] != P || f[25] != P) V("nodal force", "writes outside its result");
        LD w[8][3], mag = 0, work = 0; for (auto& a : w) for (auto& v : a) v = 0; M3 L; double vel[24]; for (auto& v : vel) v = r.n();
        for (int q = 0; q < 8; ++q) { LD g[8][3], det; grads(y, q, g, det); M3 sg = fromS(s + 6 * q); for (int n = 0; n < 8; ++n) { LD gn = 0; for (int i = 0; i < 3; ++i) { gn += std::fabs(g[n][i]); for (int j = 0; j < 3; ++j) { w[n][i] -= det * sg[i][j] * g[n][j]; work += det * sg[i][j] * g[n][j] * vel[3 * n + i]; } } mag += gn * nrm(sg) * det; } }
        LD t = ty * mag, tot[3] = {0, 0, 0}, mo[3] = {0, 0, 0}, got = 0, sz = 0; LD ctr[3]; for (int a = 0; a < 3; ++a) ctr[a] = y[0][a]; for (auto& n : y) for (int a = 0; a < 3; ++a) sz = std::max(sz, std::fabs(n[a] - ctr[a]));
        for (int n = 0; n < 8; ++n) { LD fn[3], d[3]; for (int a = 0; a < 3; ++a) { near("nodal force", f[1 + 3 * n + a], w[n][a], t, 3 * n + a); near("nodal force through views", vf(e, n, a), w[n][a], t, 3 * n + a); fn[a] = f[1 + 3 * n + a]; d[a] = y[n][a] - ctr[a]; tot[a] += fn[a]; got -= fn[a] * vel[3 * n + a]; } for (int a = 0; a < 3; ++a) mo[a] += d[(a + 1) % 3] * fn[(a + 2) % 3] - d[(a + 2) % 3] * fn[(a + 1) % 3]; }
        for (int a = 0; a < 3; ++a) { near("force resultant", tot[a], 0, t, a); near("moment resultant", mo[a], 0, 16 * t * sz, a); } near("work of the stress", got, work, 60 * t, 0); }
      // tangent
      if (r.p(.25)) { std::vector<double> Cm(36 * 8), K(578, P); LD cm = 0; for (auto& v : Cm) v = r.n(); bool sym = r.p(.6); for (int q = 0; q < 8; ++q) for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) { if (sym && j < i) Cm[36 * q + 6 * i + j] = Cm[36 * q + 6 * j + i]; } for (double v : Cm) cm = std::max(cm, (LD)std::fabs(v));
        el.ComputeTangent(cc, Cm.data(), K.data() + 1); S("element tangents"); if (K[0] != P || K[577] != P) V("tangent", "writes outside its result"); std::vector<LD> W(576, 0); LD mag = 0;
        for (int q = 0; q < 8; ++q) { LD g[8][3], det, B[6][24]; grads(y, q, g, det); LD gm = 0; for (int k = 0; k < 6; ++k) for (int n = 0; n < 8; ++n) for (int i = 0; i < 3; ++i) { int a = RS[k][0], b = RS[k][1]; B[k][3 * n + i] = k < 3 ? (i == a ? g[n][a] : 0) : i == a ? g[n][b] : i == b ? g[n][a] : 0; gm = std::max(gm, std::fabs(g[n][i])); } mag += det * gm * gm * cm * 9; for (int i = 0; i < 24; ++i) for (int k = 0; k < 6; ++k) if (B[k][i] != 0) for (int l = 0; l < 6; ++l) for (int j = 0; j < 24; ++j) W[24 * i + j] += det * B[k][i] * Cm[36 * q + 6 * k + l] * B[l][j]; }
        for (int i = 0; i < 576; ++i) near("tangent", K[1 + i], W[i], ty * mag, i); for (int i = 0; i < 24; ++i) for (int a = 0; a < 3; ++a) { LD s = 0; for (int n = 0; n < 8; ++n) s += K[1 + 24 * i + 3 * n + a]; near("tangent against rigid translation", s, 0, 4 * ty * mag, i); } if (sym) for (int i = 0; i < 24; ++i) for (int j = 0; j < i; ++j) near("tangent symmetry", K[1 + 24 * i + j], K[1 + 24 * j + i], ty * mag, 24 * i + j); }
      for (int i = 0; i < ne; ++i) if (i != e) { bool ok = vv(i) == P; for (int n = 0; n < 8; ++n) { ok = ok && vm(i, n) == P; for (int a = 0; a < 3; ++a) ok = ok && vf(i, n, a) == P; } ev(); if (!ok) V("other elements", "results of another element were written"); }
    }
    end();
  }
  Kokkos::finalize(); MPI_Finalize(); return 0;
}
