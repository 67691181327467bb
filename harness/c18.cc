// C18: matrix containers, sparsity patterns, CG and LU.
#include "memmesh.h"
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include "mpi.h"
#include <Kokkos_Core.hpp>
#include "nimble_linear_solver.h"
#include "nimble_mesh_utils.h"
using namespace H;
using namespace nimble;
typedef std::vector<std::vector<LD>> Dn;
static std::set<std::pair<int, int>> pattern(Rng& r, int n, bool sym, bool diag, bool empty)
{
  std::set<std::pair<int, int>> s; std::vector<char> e(n, 0); if (empty) for (int i = 0; i + 1 < n; ++i) e[i] = r.p(.3);
  int k = r.i(0, 3 * n); if (r.p(.15)) k = n * n; for (; k--;) { int i = r.i(0, n - 1), j = r.i(0, n - 1); if (e[i] || (sym && e[j])) continue; s.insert({i, j}); if (sym) s.insert({j, i}); }
  for (int i = 0; i < n; ++i) if (diag && !e[i]) s.insert({i, i}); s.insert({n - 1, r.p(.5) ? n - 1 : (sym ? n - 1 : r.i(0, n - 1))}); return s;
}
static void split(std::set<std::pair<int, int>> const& s, std::vector<int>& I, std::vector<int>& J) { I.clear(); J.clear(); for (auto& p : s) { I.push_back(p.first); J.push_back(p.second); } }
template <class Mt> static void container(Rng& r, const char* nm, bool dense, Mt& A, int n, std::set<std::pair<int, int>> const& s)
{
  std::map<std::pair<int, int>, double> ref; Mt const& Ac = A; std::string key = std::string(nm) + " container";
  double z = r.p(.5) ? 0 : r.n(); A.SetAllValues(z); if (dense) { for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) ref[{i, j}] = z; } else for (auto& p : s) ref[p] = z;
  auto check = [&](const char* op) { ev(); S(std::string(nm) + ": " + op); for (auto& q : ref) if (Ac(q.first.first, q.first.second) != q.second || A(q.first.first, q.first.second) != q.second) { V(key, fmt("after %s entry (%d,%d) of %d rows is %.17g, stored %.17g", op, q.first.first, q.first.second, n, Ac(q.first.first, q.first.second), q.second)); return; } };
  if (A.NumNonzeros() != ref.size()) V(key, fmt("%u entries, expected %zu", A.NumNonzeros(), ref.size())); check("set all");
  std::vector<std::pair<int, int>> keys; for (auto& q : ref) keys.push_back(q.first);
  for (int k = r.i(5, 40); k--;) {
    int op = r.i(0, 9), q = r.i(0, n - 1); double v = r.n(); auto p = keys[r.i(0, (int)keys.size() - 1)];
    if (op < 4) { A(p.first, p.second) = v; ref[p] = v; check("assignment"); }
    else if (op < 7) { A(p.first, p.second) += v; ref[p] += v; check("addition"); }
    else if (op == 7) { if (r.p(.5)) v = 0; A.SetRowValues(q, v); for (auto& w : ref) if (w.first.first == q) w.second = v; check("set row"); }
    else if (op == 8) { if (r.p(.5)) v = 0; A.SetColumnValues(q, v); for (auto& w : ref) if (w.first.second == q) w.second = v; check("set column"); }
    else { for (auto& w : ref) { w.second = r.n(); A(w.first.first, w.first.second) = w.second; } check("fill"); }
  }
}
static Dn spd(Rng& r, int n, std::set<std::pair<int, int>> const& s)  // symmetric, diagonally dominant by a margin
{
  Dn A(n, std::vector<LD>(n, 0)); for (auto& p : s) if (p.first < p.second && s.count({p.second, p.first})) A[p.first][p.second] = A[p.second][p.first] = r.n();
  std::vector<double> sc(n, 1); double spread = r.p(.5) ? 1 : r.logu(1, 1e3); for (auto& v : sc) v = std::exp(std::log(spread) * (r.d() - .5)); double margin = r.logu(.01, 10);
  for (int i = 0; i < n; ++i) { LD o = 0; for (int j = 0; j < n; ++j) if (i != j) o += std::fabs(A[i][j]); A[i][i] = o + margin; } for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A[i][j] = (double)(A[i][j] * sc[i] * sc[j]); return A;
}
int main(int argc, char** argv)
{
  MPI_Init(&argc, &argv); Kokkos::initialize(argc, argv);
  {
    uint64_t seed = atoll(argv[1]), shard = atoll(argv[2]); long N = atol(argv[3]); CGScratchSpace keep;
    for (long c = 0; c < N; ++c) {
      Rng r(seed * 1000003 + shard, c); note(fmt("shard %llu case %ld", (unsigned long long)shard, c));
      // containers
      { bool big = r.p(.015); int n = big ? r.i(13, 400) : r.i(1, 12); bool em = r.p(.3); if (big) S("large containers"); auto s = pattern(r, n, r.p(.5), r.p(.6), em); std::vector<int> I, J; split(s, I, J); D(hash(I.data(), 4 * I.size(), hash(J.data(), 4 * J.size()))); if (em) S("patterns with empty rows");
        CRSMatrixContainer A; MatrixContainer B; if (r.p(.3)) { std::vector<int> I2, J2; split(pattern(r, r.i(1, 12), false, false, false), I2, J2); A.AllocateNonzeros(I2, J2); if (r.p(.5)) A.SetAllValues(3); }
        A.AllocateNonzeros(I, J); B.AllocateNonzeros(I, J); if (A.NumRows() != n) V("rows", fmt("%d of %d", A.NumRows(), n)); container(r, "sparse", false, A, n, s); if (n < 150) container(r, "dense", true, B, n, s);
        { std::vector<double> v(n), w(n + 1, 42.25); for (auto& x : v) x = r.n(); A.MatVec(v.data(), w.data()); ev(); S("products"); if (w[n] != 42.25) V("product", "writes outside its result"); for (int i = 0; i < n; ++i) { LD t = 0, m = 0; for (auto& p : s) if (p.first == i) { LD q = (LD)A(i, p.second) * v[p.second]; t += q; m += std::fabs(q); } if (!(std::fabs(w[i] - t) <= 20 * EPS * m)) V("product", fmt("row %d of %d: %.17g want %.17Lg", i, n, w[i], t)); } }
        CRSMatrixContainer Dg; Dg.AllocateDiagonalMatrix(n); std::set<std::pair<int, int>> ds; for (int i = 0; i < n; ++i) ds.insert({i, i}); if (Dg.NumRows() != n) V("rows", "diagonal"); container(r, "diagonal", false, Dg, n, ds);
        { std::vector<double> v(n), w(n), u(n); for (auto& x : v) x = r.n(); Dg.DiagonalMatrixMatVec(v.data(), w.data()); Dg.MatVec(v.data(), u.data()); for (int i = 0; i < n; ++i) { ev(); if (w[i] != Dg(i, i) * v[i] || u[i] != w[i]) V("diagonal product", fmt("row %d", i)); } }
        { int m = r.p(.1) ? r.i(13, 3000) : r.i(1, 12); std::vector<double> a(m), b(m); LD t = 0, mg = 0; for (int i = 0; i < m; ++i) { a[i] = r.n(); b[i] = r.n(); t += (LD)a[i] * b[i]; mg += std::fabs((LD)a[i] * b[i]); } ev(); S("inner products"); if (!(std::fabs(InnerProduct(m, a.data(), b.data()) - t) <= 20 * EPS * mg) || InnerProduct(a, b) != InnerProduct(m, a.data(), b.data())) V("inner product", "wrong"); } }
      // conjugate gradients
      { int n = r.p(.01) ? r.i(100, 400) : r.p(.2) ? r.i(40, 90) : r.i(1, 25); auto s = pattern(r, n, true, true, false); Dn A = spd(r, n, s); std::vector<int> I, J; split(s, I, J); CRSMatrixContainer K; K.AllocateNonzeros(I, J); K.SetAllValues(0); for (auto& p : s) K(p.first, p.second) = (double)A[p.first][p.second];
        std::vector<double> b(n), x(n, 0); for (auto& v : b) v = r.p(.1) ? 0 : r.n() * std::exp(r.n()); if (r.p(.05)) for (auto& v : b) v = 0; if (r.p(.4)) for (auto& v : x) v = r.n(); auto x0 = x, b0 = b; CGScratchSpace fresh; CGScratchSpace& cs = r.p(.5) ? keep : fresh; int it = -1; double tol = 1e-16; int mx = 1000; bool ok;
        int mode = r.i(0, 5); if (mode == 0) tol = r.logu(1e-20, 1e-4); if (mode == 1) mx = r.i(0, 2 * n); ok = mode < 2 ? CG_SolveSystem(K, b.data(), cs, x.data(), it, tol, mx) : CG_SolveSystem(K, b.data(), cs, x.data(), it);
        ev(); S("conjugate gradient solves"); S(ok ? "conjugate gradient: converged" : "conjugate gradient: gave up"); M("most conjugate gradient iterations", it); if (b != b0) V("conjugate gradient", "changed the right-hand side"); if (it < 0 || it > mx) V("conjugate gradient iterations", fmt("%d of %d", it, mx));
        for (auto& p : s) if (K(p.first, p.second) != (double)A[p.first][p.second]) V("conjugate gradient", "changed the matrix");
        auto res = [&](std::vector<double> const& y, LD& fl) { LD t = 0; fl = 0; for (int i = 0; i < n; ++i) { LD q = b[i], m = std::fabs(q); for (int j = 0; j < n; ++j) { q -= A[i][j] * y[j]; m += std::fabs(A[i][j] * y[j]); } t += q * q / A[i][i]; fl += m * m / A[i][i]; } return t; };
        LD f0, f1, d0 = res(x0, f0), d1 = res(x, f1); LD floor = 1e4L * EPS * EPS * (f0 + f1) * n; bool sat = d1 <= tol * d0 * 1.01L + floor;
        if (ok && !sat) V("conjugate gradient success", fmt("reports success with residual %.3Lg of %.3Lg, tolerance %.3g, %d rows, %d iterations", d1, d0, tol, n, it));
        if (!ok && d1 < tol * d0 * .9L && d1 > 4 * floor) V("conjugate gradient failure", fmt("reports failure although residual %.3Lg of %.3Lg meets %.3g after %d of %d iterations", d1, d0, tol, it, mx));
        if (!ok && mx == 1000) V("conjugate gradient failure", fmt("no convergence in %d iterations for %d rows", it, n));
        // exactly enough iterations
        if (mode > 1 && ok && it > 0) { std::vector<double> y = x0; int i2 = 0; CGScratchSpace f2; bool ok2 = CG_SolveSystem(K, b.data(), f2, y.data(), i2, 1e-16, it); ev(); S("solves with just enough iterations"); if (!ok2) V("conjugate gradient failure", fmt("reports failure although it converged in the %d iterations allowed", it)); if (y != x && &cs == &fresh) V("conjugate gradient repeatability", "second solve differs"); }
        if (r.p(.15) && n > 1) { // no solution: a singular matrix and an incompatible right-hand side
          CRSMatrixContainer Z; std::vector<int> i1{0, 0, 1, 1}, j1{0, 1, 0, 1}; Z.AllocateNonzeros(i1, j1); double q = r.pick(std::vector<double>{1, 2, .5, 4}); Z(0, 0) = Z(1, 1) = q; Z(0, 1) = Z(1, 0) = r.p(.5) ? q : -q; double bb[2] = {r.n(), 0}, xx[2] = {0, 0}; bb[1] = Z(0, 1) > 0 ? -bb[0] : bb[0]; int i3; CGScratchSpace f3; bool k3 = CG_SolveSystem(Z, bb, f3, xx, i3); ev(); S("singular systems"); LD e = 0; for (int i = 0; i < 2; ++i) { LD t = bb[i] - Z(i, 0) * (LD)xx[0] - Z(i, 1) * (LD)xx[1]; e += t * t; } if (k3 && !(e <= 1e-12L * bb[0] * bb[0])) V("conjugate gradient success", fmt("reports success on a system without solution, x = %g %g", xx[0], xx[1])); } }
      // LU
      { int n = r.p(.15) ? r.i(12, 30) : r.i(1, 8); Dn A(n, std::vector<LD>(n)); int k = r.i(0, 3); bool good = false; LD cond = 0; Dn inv;
        for (int tries = 0; !good && tries < 50; ++tries) {
          for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A[i][j] = k == 0 ? r.i(-3, 3) : k == 1 ? (r.p(.4) ? r.n() : 0) : r.n(); if (k == 2) { std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i; r.shuffle(p); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A[i][j] = (double)(A[i][j] * 1e-3 + (p[i] == j ? 2 + r.d() : 0)); } if (k == 3) for (int i = 0; i < n; ++i) { double sc = r.logu(1e-6, 1e6); for (int j = 0; j < n; ++j) A[i][j] = (double)(A[i][j] * sc); }
          // long-double Gauss-Jordan for the inverse of the row-scaled matrix
          Dn B = A; inv.assign(n, std::vector<LD>(n, 0)); std::vector<LD> rs(n); good = true; for (int i = 0; i < n; ++i) { LD b = 0; for (auto v : A[i]) b = std::max(b, std::fabs(v)); if (b == 0) { good = false; break; } rs[i] = b; for (auto& v : B[i]) v /= b; inv[i][i] = 1; } if (!good) continue;
          for (int j = 0; j < n && good; ++j) { int p = j; for (int i = j; i < n; ++i) if (std::fabs(B[i][j]) > std::fabs(B[p][j])) p = i; if (std::fabs(B[p][j]) < 1e-6L) { good = false; break; } std::swap(B[p], B[j]); std::swap(inv[p], inv[j]); LD d = B[j][j]; for (int q = 0; q < n; ++q) { B[j][q] /= d; inv[j][q] /= d; } for (int i = 0; i < n; ++i) if (i != j && B[i][j] != 0) { LD f = B[i][j]; for (int q = 0; q < n; ++q) { B[i][q] -= f * B[j][q]; inv[i][q] -= f * inv[j][q]; } } }
          if (good) { LD a = 0; for (auto& w : inv) { LD t = 0; for (auto v : w) t += std::fabs(v); a = std::max(a, t); } cond = a * n; if (cond > 1e7) good = false; }
        }
        if (good) {
          MatrixContainer Mx; std::vector<int> I, J; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { I.push_back(i); J.push_back(j); } Mx.AllocateNonzeros(I, J); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) Mx(i, j) = (double)A[i][j];
          std::vector<double> x(n + 1, 42.25), b(n); std::vector<LD> xt(n); for (auto& v : xt) v = r.n(); for (int i = 0; i < n; ++i) { LD t = 0; for (int j = 0; j < n; ++j) t += A[i][j] * xt[j]; b[i] = x[i] = (double)t; } std::vector<int> sc(n + 1, -77);
          ev(); S("LU solves"); auto judge = [&](std::vector<double> const& x, std::vector<double> const& b, const char* what) { LD xm = 0; for (int i = 0; i < n; ++i) xm = std::max(xm, std::fabs((LD)x[i])); for (int i = 0; i < n; ++i) { LD t = b[i], m = 0; for (int j = 0; j < n; ++j) { t -= A[i][j] * x[j]; m = std::max(m, std::fabs(A[i][j])); } LD tl = 200 * EPS * n * n * m * xm * (n > 11 ? 50 : 8) + 4 * EPS * std::fabs(b[i]); M("worst LU residual/tolerance", (double)(std::fabs(t) / (tl + 1e-300L))); if (!(std::fabs(t) <= tl)) { V(what, fmt("row %d of %d: residual %.3Lg, tolerance %.3Lg, condition %.3Lg", i, n, t, tl, cond)); break; } } };
          if (r.p(.5)) { ::LU_SolveSystem(n, Mx, x.data(), sc.data()); judge(x, b, "LU solution"); }
          else { ::LU_Decompose(n, Mx, sc.data()); ::LU_Solve(n, Mx, x.data(), sc.data()); judge(x, b, "LU solution"); std::vector<double> y(n), b2(n); for (int i = 0; i < n; ++i) y[i] = b2[i] = r.n(); ::LU_Solve(n, Mx, y.data(), sc.data()); judge(y, b2, "second LU solution"); S("LU re-use of a factorisation"); }
          if (x[n] != 42.25 || sc[n] != -77) V("LU bounds", "writes outside its arguments");
        }
        if (r.p(.02)) { // a singular matrix must be refused
          int m = r.i(2, 6), z = r.i(0, m - 1); std::vector<int> I, J; MatrixContainer Z; for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) { I.push_back(i); J.push_back(j); } Z.AllocateNonzeros(I, J); bool row = r.p(.3); for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) Z(i, j) = (row ? i : j) == z ? 0. : r.n(); bool dup = r.p(.4); if (dup) { std::vector<int> P(m), Q(m); for (int i = 0; i < m; ++i) P[i] = Q[i] = i; r.shuffle(P); r.shuffle(Q); auto two = [&]() { return r.pick(std::vector<double>{1, 2, 4, .5, -1, -2, -.25}); }; for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) Z(P[i], Q[j]) = i == j ? two() : 0; double a = two(), b = two(), f = two(); Z(P[0], Q[0]) = a; Z(P[0], Q[1]) = b; Z(P[1], Q[0]) = a * f; Z(P[1], Q[1]) = b * f; }
          std::string t; for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) t += fmt("%.6g ", Z(i, j)); fflush(stdout); pid_t pid = fork(); if (pid == 0) { int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(nul, 2); signal(SIGABRT, SIG_DFL); std::vector<double> v(m, 1); std::vector<int> sc(m); int rc = 0; try { ::LU_SolveSystem(m, Z, v.data(), sc.data()); for (double q : v) if (!std::isfinite(q)) rc = 7; } catch (...) { rc = 7; } _exit(rc); } int st = 0; waitpid(pid, &st, 0); ev(); S("singular matrices offered to LU"); if (WIFEXITED(st) && WEXITSTATUS(st) == 0) V("LU singular", std::string("solved a matrix with a zero ") + (dup ? "combination of rows: " : row ? "row: " : "column: ") + t); } }
      // sparsity of a mesh
      if (r.p(.3)) { MeshOpt o; o.maxn = 3; o.orphans = true; MemMesh m = randmesh(r, o); GenesisMesh g; m.load(g); int n = (int)m.n(); std::vector<int> ls(n); for (int i = 0; i < n; ++i) ls[i] = i; int k = r.i(0, 3); if (k == 1) r.shuffle(ls); if (k == 2) for (auto& v : ls) v = r.i(0, n - 1);
        std::set<std::pair<int, int>> want; for (auto& b : m.conn) for (size_t e = 0; e < b.second.size() / 8; ++e) for (int p = 0; p < 8; ++p) for (int q = 0; q < 8; ++q) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) want.insert({3 * ls[b.second[8 * e + p]] + i, 3 * ls[b.second[8 * e + q]] + j});
        std::vector<int> I(3, -1), J; DetermineTangentMatrixNonzeroStructure(g, ls, I, J); std::vector<int> wi, wj; split(want, wi, wj); ev(); S("mesh sparsity patterns"); S("pairs in mesh patterns", want.size()); D(hash(I.data(), 4 * I.size())); std::set<std::pair<int, int>> got; for (size_t i = 0; i < std::min(I.size(), J.size()); ++i) got.insert({I[i], J[i]});
        if (got != want || I.size() != want.size() || J.size() != want.size()) V("mesh sparsity", fmt("%zu/%zu entries (%zu distinct), expected %zu for %d nodes", I.size(), J.size(), got.size(), want.size(), n)); else if (I != wi || J != wj) V("mesh sparsity order", "entries are not sorted by row and column");
        CRSMatrixContainer A; A.AllocateNonzeros(I, J); A.SetAllValues(0); long bad = 0; for (size_t i = 0; i < I.size(); ++i) A(I[i], J[i]) = (double)i; for (size_t i = 0; i < I.size(); ++i) bad += A(I[i], J[i]) != (double)i; if (bad) V("sparse container", "entries of a mesh pattern"); }
    }
    end();
  }
  Kokkos::finalize(); MPI_Finalize(); return 0;
}
