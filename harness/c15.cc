// C15: material laws against their constitutive definitions.
#include "m3.h"
#include <sstream>
#include <iostream>
#include <Kokkos_Core.hpp>
#include "mpi.h"
#include "nimble_data_manager.h"
#include "nimble_material.h"
#include "nimble_material_factory.h"
#include "nimble_kokkos_material_factory.h"
using namespace H;
using namespace nimble;
template <class T> struct Open : T { using T::T; using T::GetStress; };
static std::aligned_storage<sizeof(DataManager), alignof(DataManager)>::type g_dm;
static DataManager& dm() { return reinterpret_cast<DataManager&>(g_dm); }
static const int RS[6][2] = {{0, 0}, {1, 1}, {2, 2}, {0, 1}, {1, 2}, {2, 0}};
static M3 elastic(M3 const& F, LD K, LD mu) { M3 e = lin(.5L, F, .5L, tr(F)); e = lin(1, e, -1, eye3()); return lin(2 * mu, e, (K - 2 * mu / 3) * trace(e), eye3()); }
static M3 neo(M3 const& F, LD K, LD mu)
{
  LD J = det3(F); M3 b = mul(F, tr(F)); LD f = 1 / std::cbrt(J * J), t = trace(b);
  return lin(mu * f / J, lin(1, b, -t / 3, eye3()), K / 2 * (J - 1 / J), eye3());
}
static LD energy(M3 const& F, LD K, LD mu) { LD J = det3(F), t = trace(mul(F, tr(F))) / std::cbrt(J * J); return K / 2 * ((J * J - 1) / 2 - std::log(J)) + mu / 2 * (t - 3); }
static M3 defgrad(Rng& r)
{
  LD e[3]; int k = r.i(0, 9); for (auto& x : e) x = k == 0 ? 1 : k < 4 ? 1 + r.logu(1e-14, 1e-1) * r.n() / 4 : k < 8 ? r.d(.4, 2) : r.logu(.05, 20);
  if (k == 5) e[1] = e[0]; if (k == 6) e[1] = e[2] = e[0]; if (k == 7) e[2] = 1 / (e[0] * e[1]);
  for (auto& x : e) x = std::max(x, .02L);
  M3 q = r.p(.2) ? eye3() : randrot(r), p = r.p(.2) ? eye3() : randrot(r), d = zero3(); for (int i = 0; i < 3; ++i) d[i][i] = e[i];
  M3 F = mul(p, mul(d, q)); if (k == 4) { F = eye3(); F[r.i(0, 2)][r.i(0, 2)] += r.n() * .5; if (det3(F) < .05L) F = eye3(); }
  for (auto& x : F.a) for (auto& v : x) v = (double)v; return F;
}
static std::string num(Rng& r, double v) { const char* f[] = {"%.17g", "%.17e", "%.16E", "%+.17g"}; return fmt(f[r.i(0, 3)], v); }
int main(int argc, char** argv)
{
  MPI_Init(&argc, &argv); Kokkos::initialize(argc, argv);
  {
    uint64_t seed = atoll(argv[1]), shard = atoll(argv[2]); long N = atol(argv[3]);
    for (long c = 0; c < N; ++c) {
      Rng r(seed * 1000003 + shard, c); note(fmt("shard %llu case %ld", (unsigned long long)shard, c));
      bool nh = r.p(.6); double K = r.logu(1e-3, 1e13), mu = K * r.logu(1e-4, 2), rho = r.logu(1e-9, 1e5);
      std::vector<std::string> prm = {"bulk_modulus " + num(r, K), "shear_modulus " + num(r, mu), "density " + num(r, rho)}; r.shuffle(prm);
      std::string txt = nh ? "neohookean" : "elastic"; for (auto& p : prm) txt += std::string(r.i(1, 3), ' ') + p;
      if (c == 0) X(txt);
      nimble::MaterialFactory fa; nimble_kokkos::MaterialFactory fb; fa.parse_and_create(txt, r.i(0, 8)); fb.parse_and_create(txt, r.i(0, 8));
      auto ma = fa.get_material(); auto mb = fb.get_material_host(); Material* md = fb.get_material_device();
      std::map<std::string, double> dp = {{"bulk_modulus", K}, {"shear_modulus", mu}, {"density", rho}}; MaterialParameters mp(nh ? "neohookean" : "elastic", {}, dp);
      Open<ElasticMaterial> oe(mp); Open<NeohookeanMaterial> on(mp); Material* mm[4] = {ma.get(), mb.get(), md, nh ? (Material*)&on : (Material*)&oe};
      for (int k = 0; k < 4; ++k) { ev(); if (mm[k]->GetBulkModulus() != K || mm[k]->GetShearModulus() != mu || mm[k]->GetDensity() != rho) V("parameters", fmt("material %d has K %.17g mu %.17g rho %.17g, asked for ", k, mm[k]->GetBulkModulus(), mm[k]->GetShearModulus(), mm[k]->GetDensity()) + txt); if (mm[k]->NumStateVariables() != 0 || mm[k]->IsNGPLAMEModel()) V("state variables", txt); S("parameters"); }
      if (!(nh ? dynamic_cast<NeohookeanMaterial*>(mm[0]) != 0 : dynamic_cast<ElasticMaterial*>(mm[0]) != 0) || !(nh ? dynamic_cast<NeohookeanMaterial*>(mm[1]) != 0 : dynamic_cast<ElasticMaterial*>(mm[1]) != 0)) V("kind", txt);
      int n = r.p(.1) ? 0 : r.i(1, 24); std::vector<double> F(9 * n + 4, -7.5), F0(9 * n + 4, 3.25), s0(6 * n + 4, 1.5), s(6 * n + 4, 42.25); std::vector<M3> Fm(n);
      for (int p = 0; p < n; ++p) { Fm[p] = defgrad(r); toF(Fm[p], &F[9 * p]); } D(hash(F.data(), 8 * F.size()));
      auto Fk = F; double tm = r.n(), t1 = tm + r.logu(1e-9, 1); std::vector<std::vector<double>> res;
      Material* m = mm[r.i(0, 3)]; m->GetStress(r.i(0, 1000), n, tm, t1, F0.data(), F.data(), s0.data(), s.data(), nullptr, nullptr, dm(), r.p(.5));
      if (F != Fk) V("input changed", txt); for (int k = 0; k < 4; ++k) if (s[6 * n + k] != 42.25) V("overrun", fmt("%d points, stress[%d] changed ", n, 6 * n + k) + txt);
      nimble_kokkos::DeviceFullTensorIntPtView fv("f", std::max(n, 1)), f0("f0", std::max(n, 1)); nimble_kokkos::DeviceSymTensorIntPtView sv("s", std::max(n, 1)), s0v("s0", std::max(n, 1));
      std::string fs = nh ? "neohookean" : "elastic";
      for (int p = 0; p < n; ++p) {
        M3 const& Q = Fm[p]; LD J = det3(Q); M3 b = mul(Q, tr(Q)); LD e[3]; M3 vv; jacobi(b, e, vv); LD lo = std::min(e[0], std::min(e[1], e[2])), hi = std::max(e[0], std::max(e[1], e[2])), k2 = hi / lo;
        M3 want = nh ? neo(Q, K, mu) : elastic(Q, K, mu); LD mag = nh ? K * (J + 1 / J) + mu * trace(b) / std::cbrt(J * J) / J : (K + 2 * mu) * (1 + nrm(Q)), tol = EPS * mag * (nh ? 12 * k2 + 24 : 16);
        M3 got = fromS(&s[6 * p]); LD er = nrm(lin(1, got, -1, want)); ev(); S(fs + " stress"); M("worst " + fs + " error/tolerance", (double)(er / tol));
        if (!(er <= tol)) V(fs + " stress", fmt("error %.3Le tolerance %.3Le J %.5Lg cond^2 %.3Lg for ", er, tol, J, k2) + str(Q) + " " + txt + " got " + str(got) + " want " + str(want));
        // single point through views, and through the common implementation
        int el = r.i(0, n - 1), ip = r.i(0, 7); for (int q = 0; q < 9; ++q) fv(el, ip, q) = F[9 * p + q]; for (int q = 0; q < 6; ++q) for (int i = 0; i < 8; ++i) sv(el, i, q) = 42.25;
        Material::DeviceElemState a0, a1; mm[r.i(0, 3)]->GetStress(tm, t1, Kokkos::subview(f0, el, ip, Kokkos::ALL()), Kokkos::subview(fv, el, ip, Kokkos::ALL()), Kokkos::subview(s0v, el, ip, Kokkos::ALL()), Kokkos::subview(sv, el, ip, Kokkos::ALL()), a0, a1); ev(); S("view interface");
        for (int i = 0; i < 8; ++i) for (int q = 0; q < 6; ++q) { double x = sv(el, i, q); if (i == ip ? !(std::fabs(x - s[6 * p + q]) <= tol) : x != 42.25) V("view interface", fmt("component %d of point %d is %.17g, batch interface gives %.17g ", q, i, x, i == ip ? s[6 * p + q] : 42.25) + txt); }
        double fl[9], sl[8]; for (auto& x : sl) x = 42.25; memcpy(fl, &F[9 * p], sizeof fl); Viewify<1, const double> nv, fw(fl, 9); if (nh) on.GetStress(tm, t1, nv, fw, nv, Viewify<1>(sl, 6)); else oe.GetStress(tm, t1, nv, fw, nv, Viewify<1>(sl, 6)); ev(); S("single point");
        for (int q = 0; q < 8; ++q) if (q < 6 ? !(std::fabs(sl[q] - s[6 * p + q]) <= tol) : sl[q] != 42.25) V("single point", fmt("component %d: %.17g ", q, sl[q]) + txt);
        // frame indifference, isotropy, energy
        if (nh && k2 < 1e4) {
          M3 R = randrot(r); double rf[9], rs[6]; M3 RF = mul(R, Q); toF(RF, rf); m->GetStress(0, 1, tm, t1, F0.data(), rf, s0.data(), rs, nullptr, nullptr, dm(), false); LD e2 = nrm(lin(1, fromS(rs), -1, mul(R, mul(got, tr(R))))); ev(); S("frame indifference"); if (!(e2 <= 3 * tol + 8 * EPS * mag * k2)) V("frame indifference", fmt("error %.3Le tolerance %.3Le for ", e2, 3 * tol) + str(Q) + " R " + str(R));
          toF(R, rf); m->GetStress(0, 1, tm, t1, F0.data(), rf, s0.data(), rs, nullptr, nullptr, dm(), false); ev(); S("rigid rotation"); if (!(nrm(fromS(rs)) <= 60 * EPS * (K + mu))) V("rigid rotation", fmt("stress %.3Le of K for rotation ", nrm(fromS(rs)) / K) + str(R));
          if (r.p(.3)) {
            LD h = 1e-5L; M3 P; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { M3 x = Q, y = Q; LD hh = h * nrm(Q); hh = h * std::sqrt(lo); x[i][j] += hh; y[i][j] -= hh; P[i][j] = (energy(x, K, mu) - energy(y, K, mu)) / (2 * hh); }
            M3 sg = mul(P, tr(Q)); sg = lin(1 / J, sg, 0, sg); LD e3 = nrm(lin(1, got, -1, sg)); ev(); S("energy derivative"); M("worst energy derivative error/magnitude", (double)(e3 / mag)); if (!(e3 <= tol + 1e-7L * mag)) V("energy derivative", fmt("error %.3Le of %.3Le for ", e3, mag) + str(Q));
          }
        }
      }
      // undeformed state and tangent
      { double f[9], z[6] = {9, 9, 9, 9, 9, 9}; toF(eye3(), f); m->GetStress(0, 1, tm, t1, F0.data(), f, s0.data(), z, nullptr, nullptr, dm(), false); ev(); S("undeformed"); for (double x : z) if (!(std::fabs(x) <= 4 * EPS * (K + mu))) V("undeformed", fmt("stress %.3e for K %.3e mu %.3e", x, K, mu)); }
      {
        int k = r.i(0, 9); std::vector<double> t(36 * k + 1, 42.25); mm[r.i(0, 3)]->GetTangent(k, t.data()); if (t[36 * k] != 42.25) V("tangent overrun", txt);
        double e[6], h = nh ? 1e-6 : .25; for (auto& x : e) x = h * r.n() / 4; M3 E; for (int q = 0; q < 6; ++q) E[RS[q][0]][RS[q][1]] = E[RS[q][1]][RS[q][0]] = e[q]; double f[9], z[6]; toF(lin(1, eye3(), 1, E), f); m->GetStress(0, 1, tm, t1, F0.data(), f, s0.data(), z, nullptr, nullptr, dm(), false);
        for (int p = 0; p < k; ++p) for (int i = 0; i < 6; ++i) {
          double w = 0; for (int j = 0; j < 6; ++j) { w += t[36 * p + 6 * i + j] * e[j] * (j < 3 ? 1 : 2); if (t[36 * p + 6 * i + j] != t[36 * p + 6 * j + i]) V("tangent symmetry", txt); }
          ev(); S("tangent"); if (!(std::fabs(w - z[i]) <= (nh ? 1e-4 * h : 1e-13) * (K + mu))) V("tangent", fmt("row %d of point %d gives %.9g, the law gives %.9g at small strain for ", i, p, w, z[i]) + txt);
        }
        if (k) { LD la = (LD)K - 2 * (LD)mu / 3; for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) { LD w = (i < 3 && j < 3 ? la + (i == j ? 2 * mu : 0) : i == j ? mu : 0), x = t[36 * (k - 1) + 6 * i + j]; ev(); if (!(std::fabs(x - w) <= 4 * EPS * (K + 2 * mu))) V("tangent entries", fmt("(%d,%d) %.17Lg want %.17Lg ", i, j, x, w) + txt); } }
      }
      // parameters object
      { MaterialParameters q("NeoHookean", {{"a", "b"}}, dp, 5); std::string nm = "p" + std::to_string(r.i(0, 99)); double v = r.n(); bool was = q.IsParameter(nm.c_str()); q.AddParameter(nm.c_str(), v); q.AddStringParameter("s", "x y"); q.AddParameter("density", -1); ev(); S("parameter objects");
        int th = 0; try { q.GetParameterValue("nope"); } catch (std::invalid_argument&) { ++th; } try { q.GetStringParameterValue("nope"); } catch (std::invalid_argument&) { ++th; }
        if (was || !q.IsParameter(nm.c_str()) || q.GetParameterValue(nm.c_str()) != v || q.GetParameterValue("density") != rho || q.GetNumParameters() != 4 || q.GetNumStringParameters() != 2 || q.GetStringParameterValue("s") != "x y" || q.GetStringParameterValue("a") != "b" || !q.IsStringParameter("a") || q.IsStringParameter("q") || q.IsParameter("a") || th != 2 || q.GetNumMaterialPoints() != 5 || q.GetMaterialName() != "NeoHookean" || q.GetMaterialName(true) != "NEOHOOKEAN" || q.GetParameters().size() != 4 || q.GetStringParameters().size() != 2) V("parameter objects", "accessors of MaterialParameters disagree"); }
      { int th = 0; std::string bad = r.pick(std::vector<std::string>{"elastic bulk_modulus 1.0 shear_modulus 2.0", "neohookean bulk_modulus 1.0 density 2.0", "steel bulk_modulus 1.0 shear_modulus 1.0 density 2.0", "elastic bulk_modulus x shear_modulus 1.0 density 2.0", "elastic bulk_modulus 1.0 shear_modulus 1.0 density 2.0 foo 2.0"});
        try { nimble::MaterialFactory q; q.parse_and_create(bad, 1); } catch (std::exception&) { ++th; } try { nimble_kokkos::MaterialFactory q; q.parse_and_create(bad, 1); } catch (std::exception&) { ++th; } ev(); S("rejected definitions"); if (th != 2) V("rejected definitions", "accepted: " + bad); }
    }
    end();
  }
  Kokkos::finalize(); MPI_Finalize(); return 0;
}
