// C29: assembled tangent stiffness against numerical derivatives of the assembled internal force, and its constrained form.
#include "memmesh.h"
#include <memory>
#include <mpi.h>
#include <Kokkos_Core.hpp>
#include "nimble_block.h"
#include "nimble_boundary_condition_manager.h"
#include "nimble_data_manager.h"
#include "nimble_linear_solver.h"
#include "nimble_material_factory.h"
#include "nimble_mesh_utils.h"
using namespace H;
typedef std::vector<double> VD; typedef std::vector<int> VI;
static std::aligned_storage<sizeof(nimble::DataManager), alignof(nimble::DataManager)>::type g_dm;
static nimble::DataManager& dm() { return reinterpret_cast<nimble::DataManager&>(g_dm); }  // the materials in use do not look at it
static bool same(double a, double b) { return memcmp(&a, &b, 8) == 0; }
struct B { int id; std::shared_ptr<nimble::Block> blk; std::string mat; VI conn, eid; std::vector<std::string> lab; VD en, enp; double K, G; };
struct P { MemMesh m; VD X; std::vector<B> b; };
static void force(P& p, VD const& u, VD& f)
{
  std::fill(f.begin(), f.end(), 0.); VD v(u.size());
  for (auto& b : p.b) b.blk->ComputeInternalForce(p.X.data(), u.data(), v.data(), f.data(), 0, 1, (int)b.eid.size(), b.conn.data(), b.eid.data(), b.lab, b.en, b.enp, dm(), false);
}
template <class M> static void stiffness(P& p, VD const& u, VI const& gid, int n, M& k) { k.SetAllValues(0.); for (auto& b : p.b) b.blk->ComputeTangentStiffnessMatrix(n, p.X.data(), u.data(), (int)b.eid.size(), b.conn.data(), gid.data(), k); }
static void one(Rng& r)
{
  MeshOpt mo; mo.maxn = r.p(.1) ? 3 : 2; mo.nblocks = 2; mo.scale = true; P p; p.m = randmesh(r, mo); int N = (int)p.m.n(), U = 3 * N; if (U > 200 && r.p(.7)) return; note(fmt("%d nodes", N));
  LD am = 0; for (int b : p.m.bids) for (size_t e = 0; e < p.m.conn[b].size() / 8; ++e) { Hex8 h = p.m.hexa(b, (int)e); am = std::max(am, ampl(h, cmax(h))); } if (am > 1e4) { S("ill-conditioned meshes left out"); return; }
  for (int k = 0; k < N; ++k) { p.X.push_back(p.m.x[k]); p.X.push_back(p.m.y[k]); p.X.push_back(p.m.z[k]); }
  double ms = r.p(.3) ? 1 : r.logu(1e-6, 1e12);
  for (int id : p.m.bids) {
    B b; b.id = id; b.K = ms * r.logu(.3, 30); b.G = ms * r.logu(.3, 30); b.mat = fmt("%s density 1.0 bulk_modulus %.17g shear_modulus %.17g", r.p(.5) ? "elastic" : "neohookean", b.K, b.G); b.blk = std::make_shared<nimble::Block>(); nimble::MaterialFactory fa; b.blk->Initialize(b.mat, fa); b.conn = p.m.conn[id]; b.eid = p.m.begid[id];
    std::vector<std::pair<std::string, nimble::Length>> ll; b.blk->GetDataLabelsAndLengths(ll); for (auto& l : ll) for (auto& c : nimble::GetComponentLabels(l.first, l.second, 3)) b.lab.push_back(c);
    b.en.resize(b.lab.size() * b.eid.size()); b.enp = b.en; b.blk->InitializeElementData((int)b.eid.size(), b.eid, b.lab, {}, b.en, b.enp, fa, dm()); p.b.push_back(b);
  }
  VI gid(N); for (int k = 0; k < N; ++k) gid[k] = k; if (r.p(.6)) r.shuffle(gid);
  auto L = [&](int dof) { return 3 * gid[dof / 3] + dof % 3; };  // local unknown -> row
  // nonzero structure
  nimble::GenesisMesh gm; p.m.load(gm); VI ii, jj; nimble::DetermineTangentMatrixNonzeroStructure(gm, gid, ii, jj); ev(2);
  std::set<std::pair<int, int>> have, need; for (size_t k = 0; k < ii.size(); ++k) have.insert({ii[k], jj[k]}); for (auto& b : p.b) for (size_t e = 0; e < b.eid.size(); ++e) for (int a = 0; a < 24; ++a) for (int c = 0; c < 24; ++c) need.insert({L(3 * b.conn[8 * e + a / 3] + a % 3), L(3 * b.conn[8 * e + c / 3] + c % 3)});
  if (have != need || have.size() != ii.size() || jj.size() != ii.size()) V("nonzero structure", fmt("%zu entries, %zu distinct, %zu pairs of unknowns share an element", ii.size(), have.size(), need.size()));
  if (!std::includes(have.begin(), have.end(), need.begin(), need.end())) return;
  nimble::CRSMatrixContainer A; A.AllocateNonzeros(ii, jj); nimble::MatrixContainer D; D.AllocateNonzeros(ii, jj); VD u0(U), f(U);
  stiffness(p, u0, gid, U, A); stiffness(p, u0, gid, U, D); S("meshes assembled"); S("elements", (long)p.m.egid.size()); H::D(hash(p.X.data(), p.X.size() * 8));
  double kmax = 0; for (auto& q : need) kmax = std::max(kmax, fabs(A(q.first, q.second))); if (!(kmax > 0)) { V("zero stiffness", fmt("%d nodes", N)); return; }
  for (int i = 0; i < U; ++i) for (int j = 0; j < U; ++j) { double a = need.count({i, j}) ? A(i, j) : 0, d = D(i, j); ev(); if (!same(a, d) && fabs(a - d) > 1e-13 * kmax) { V("dense and sparse differ", fmt("(%d,%d): %g %g", i, j, a, d)); i = U; break; } }
  double h = 1e-4 * (double)p.m.h, tol = 1e-9 * kmax + 40e-16 * (double)am * kmax / 1e-4 * 2; std::vector<VD> J(U, VD(U)); long bad = 0; double worst = 0;
  VD fp(U), fm(U), fq(U), fn(U);
  for (int j = 0; j < U; ++j) {
    VD u(U); u[j] = h; force(p, u, fp); u[j] = -h; force(p, u, fm); u[j] = 2 * h; force(p, u, fq); u[j] = -2 * h; force(p, u, fn);
    for (int i = 0; i < U; ++i) { double d = -(8 * (fp[i] - fm[i]) - (fq[i] - fn[i])) / (12 * h), k = need.count({L(i), L(j)}) ? A(L(i), L(j)) : 0, e = fabs(d - k); ev(); worst = std::max(worst, e / tol); if (!(e <= tol)) { ++bad; V("derivative of the force", fmt("row %d column %d: stiffness %.9g derivative %.9g (largest entry %g) ", i, j, k, d, kmax) + p.b[0].mat); if (bad > 3) break; } }
    if (bad > 3) break;
  }
  M("difference/allowed", worst); S("derivatives compared", (long)U * U);
  // symmetry, rigid motions, energy; also about a displaced state, where the tangent is that of the displaced shape
  for (int st = 0; st < 2; ++st) {
    VD u(U); if (st) { LD w = r.d(0, .05) * p.m.h; for (auto& v : u) v = (double)(w * (r.d() - .5)); if (r.p(.5)) { M3 R = randrot(r); for (int k = 0; k < N; ++k) for (int a = 0; a < 3; ++a) { LD s = 0; for (int c = 0; c < 3; ++c) s += R[a][c] * p.X[3 * k + c]; u[3 * k + a] += (double)(s - p.X[3 * k + a]); } } stiffness(p, u, gid, U, A); kmax = 0; for (auto& q : need) kmax = std::max(kmax, fabs(A(q.first, q.second))); }
    double t = 1e-11 * (1 + (double)am) * kmax; long ns = 0; for (auto& q : need) { ev(); if (q.first < q.second && !(fabs(A(q.first, q.second) - A(q.second, q.first)) <= t)) { if (!ns++) V("symmetry", fmt("(%d,%d) %.9g %.9g", q.first, q.second, A(q.first, q.second), A(q.second, q.first))); } }
    VD x(U), y(U); for (int k = 0; k < N; ++k) for (int a = 0; a < 3; ++a) x[L(3 * k + a)] = p.X[3 * k + a] + u[3 * k + a];
    double size = 0; for (double v : x) size = std::max(size, fabs(v));
    for (int mode = 0; mode < 6; ++mode) {
      VD v(U); for (int n = 0; n < N; ++n) { if (mode < 3) v[3 * n + mode] = 1; else { int a = (mode + 1) % 3, c = (mode + 2) % 3; v[3 * n + a] = -x[3 * n + c]; v[3 * n + c] = x[3 * n + a]; } }
      A.MatVec(v.data(), y.data()); double m = 0; for (double q : y) m = std::max(m, fabs(q)); ev(); S("rigid motions"); double lim = 30 * t * (mode < 3 ? 1 : size); if (!(m <= lim)) V(mode < 3 ? "rigid translation" : "rigid rotation", fmt("mode %d gives %.3g, largest entry %.3g, allowed %.3g", mode, m, kmax, lim));
    }
    for (int q = 0; q < 3; ++q) { VD v(U); double vv = 0, e = 0; for (auto& w : v) { w = r.n(); vv += w * w; } A.MatVec(v.data(), y.data()); for (int k = 0; k < U; ++k) e += v[k] * y[k]; ev(); if (!(e >= -30 * t * vv)) V("negative energy", fmt("%g", e)); }
  }
  stiffness(p, u0, gid, U, A); kmax = 0; for (auto& q : need) kmax = std::max(kmax, fabs(A(q.first, q.second)));
  // assembly in two parts, each with its own node numbers, gives the same matrix
  {
    nimble::CRSMatrixContainer S2; S2.AllocateNonzeros(ii, jj); S2.SetAllValues(0.); std::vector<std::vector<char>> mine; for (auto& b : p.b) { mine.push_back({}); for (size_t e = 0; e < b.eid.size(); ++e) mine.back().push_back(r.p(.5)); }
    for (int part = 0; part < 2; ++part) {
      VI loc(N, -1), g2; VD X2; std::vector<VI> cn; for (size_t k = 0; k < p.b.size(); ++k) { cn.push_back({}); for (size_t e = 0; e < p.b[k].eid.size(); ++e) if (mine[k][e] == part) for (int a = 0; a < 8; ++a) { int n = p.b[k].conn[8 * e + a]; if (loc[n] < 0) { loc[n] = (int)g2.size(); g2.push_back(gid[n]); for (int c = 0; c < 3; ++c) X2.push_back(p.X[3 * n + c]); } cn.back().push_back(loc[n]); } }
      VD u2(X2.size()); X2.push_back(0); u2.push_back(0); g2.push_back(0); for (size_t k = 0; k < p.b.size(); ++k) { cn[k].push_back(0); p.b[k].blk->ComputeTangentStiffnessMatrix(U, X2.data(), u2.data(), (int)cn[k].size() / 8, cn[k].data(), g2.data(), S2); }
    }
    double w = 0; for (auto& q : need) w = std::max(w, fabs(S2(q.first, q.second) - A(q.first, q.second))); ev((long)need.size()); if (!(w <= 1e-12 * kmax)) V("assembly in parts", fmt("differs by %g of %g", w, kmax)); S("assemblies in parts");
  }
  // constraints
  {
    std::map<int, std::string> nn, sn; std::map<int, VI> ns, ss; int n = r.i(0, 5); VI set_ids; for (int k = 0; k < n; ++k) { int id = r.i(1, 60); if (nn.count(id)) continue; nn[id] = "nodelist_" + std::to_string(id); int c = r.p(.15) ? 0 : r.i(1, std::max(1, N / 2)); for (int q = 0; q < c; ++q) ns[id].push_back(r.i(0, N - 1)); ns[id]; set_ids.push_back(id); } sn[7] = "surface_7"; ss[7] = {};
    std::vector<std::string> bc; std::set<int> con; int m = r.i(0, 6); bool quasi = r.p(.5);
    for (int k = 0; k < m && !set_ids.empty(); ++k) { int id = r.pick(set_ids), c = r.i(0, 2); const char* t[] = {"prescribed_displacement", "prescribed_velocity", "initial_velocity"}; int w = r.i(0, 2); bc.push_back(std::string(t[w]) + " " + nn[id] + " " + "xyz"[c] + (r.p(.5) ? " 0.0" : r.p(.5) ? " 1.5" : " \"x + t\"")); if (w < 2) for (int q : ns[id]) con.insert(3 * gid[q] + c); }
    if (r.p(.2)) { bc.insert(bc.begin() + r.i(0, (int)bc.size()), "prescribed_traction surface_7 x 1.0"); S("with a traction condition"); }
    nimble::BoundaryConditionManager bm; bm.Initialize(nn, ns, sn, ss, bc, 3, quasi ? "quasistatic" : "explicit"); double diag = r.p(.5) ? 1 : kmax * r.logu(.01, 100); std::string all; for (auto& q : bc) all += q + "; ";
    nimble::CRSMatrixContainer C = A; nimble::MatrixContainer E = D; VD rhs(U), r0; for (auto& v : rhs) v = r.n(); r0 = rhs; note("constraints " + all);
    try { bm.ModifyTangentStiffnessMatrixForKinematicBC(U, gid.data(), diag, C); bm.ModifyTangentStiffnessMatrixForKinematicBC(U, gid.data(), diag, E); bm.ModifyRHSForKinematicBC(gid.data(), rhs.data()); } catch (std::exception& e) { V("constraints refused", std::string(e.what()) + " for " + all); return; }
    S("constrained systems"); S("constrained unknowns", (long)con.size());
    for (auto& q : need) { bool c1 = con.count(q.first), c2 = con.count(q.second); double want = c1 || c2 ? (q.first == q.second ? diag : 0) : A(q.first, q.second), wd = c1 || c2 ? (q.first == q.second ? diag : 0) : D(q.first, q.second); ev(2); if (C(q.first, q.second) != want || E(q.first, q.second) != wd) { V("constrained matrix", fmt("(%d,%d) is %g and %g instead of %g; ", q.first, q.second, C(q.first, q.second), E(q.first, q.second), want) + all); break; } }
    for (int k = 0; k < U; ++k) { double want = con.count(k) ? 0 : r0[k]; ev(); if (rhs[k] != want) { V("constrained right-hand side", fmt("entry %d is %g instead of %g; ", k, rhs[k], want) + all); break; } }
  }
}
int main(int argc, char** argv)
{
  MPI_Init(&argc, &argv); Kokkos::initialize(argc, argv);
  { Rng r(strtoull(argv[1], 0, 10), strtoull(argv[2], 0, 10)); int n = atoi(argv[3]); for (int k = 0; k < n; ++k) one(r); }
  int rc = H::end(); Kokkos::finalize(); MPI_Finalize(); return rc;
}
