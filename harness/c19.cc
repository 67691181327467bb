// C19: reductions of shared nodal values over any distribution of nodes on ranks.
#include "m3.h"
#include <unistd.h>
#include "mpi.h"
#include <Kokkos_Core.hpp>
#include <Tpetra_Core.hpp>
#include "nimble_kokkos_defs.h"
#include "nimble_vector_communicator.h"
#include "nimble_view.h"
using namespace H;
typedef std::vector<std::array<LD, 3>> Field3;
int main(int argc, char** argv)
{
  MPI_Init(&argc, &argv); Kokkos::initialize(argc, argv); int me, np; MPI_Comm_rank(MPI_COMM_WORLD, &me); MPI_Comm_size(MPI_COMM_WORLD, &np); H::rank() = me;
  {
    uint64_t seed = atoll(argv[1]), shard = atoll(argv[2]); long N = atol(argv[3]); auto tcomm = Tpetra::getDefaultComm(); Rng jit(seed * 7919 + me, shard);
    for (long c = 0; c < N; ++c) {
      Rng r(seed * 1000003 + shard, c); if (me == 0) note(fmt("%d ranks shard %llu case %ld", np, (unsigned long long)shard, c));
      // the distribution, the same on every rank
      std::vector<std::vector<int>> ids(np); int kind = r.i(0, 6), tot = r.p(.1) ? r.i(0, 3) : r.p(.015) ? r.i(200, 1500) : r.i(1, 60); bool tp = r.p(.5); std::vector<int> gid; { std::set<int> g; int top = r.p(.5) ? tot * 2 : r.pick(std::vector<int>{4000, 100000000, 700000000}); int base = r.p(.5) ? 0 : 1; while ((int)g.size() < tot) g.insert(r.p(.5) ? base + (int)g.size() : r.i(0, top)); gid.assign(g.begin(), g.end()); }
      for (int g : gid) {
        std::vector<int> own; if (kind == 0) own = {r.i(0, np - 1)}; else if (kind == 1) for (int k = 0; k < np; ++k) own.push_back(k); else if (kind == 2) { int a = r.i(0, np - 1); own = {a}; if (np > 1 && r.p(.6)) { int b = r.i(0, np - 2); own.push_back(b >= a ? b + 1 : b); } } else if (kind == 3) { int a = r.i(0, np - 1); own.push_back(a); if (a + 1 < np && r.p(.5)) own.push_back(a + 1); } else { double q = kind == 4 ? .5 : r.d(); for (int k = 0; k < np; ++k) if (r.p(q)) own.push_back(k); if (own.empty()) own = {r.i(0, np - 1)}; }
        for (int k : own) ids[k].push_back(g); }
      if (r.p(.2) && np > 1) { int e = r.i(0, np - 1); if (!(e == 0 && ids[0].size() == gid.size())) { bool ok = true; for (int g : ids[e]) { int n = 0; for (auto& v : ids) n += std::count(v.begin(), v.end(), g); ok = ok && n > 1; } if (ok) ids[e].clear(); } }
      for (auto& v : ids) if (r.p(.6)) r.shuffle(v);
      std::map<int, std::vector<int>> own; for (int k = 0; k < np; ++k) for (int g : ids[k]) own[g].push_back(k); long shared = 0; for (auto& o : own) shared += o.second.size() > 1; if (me == 0) { uint64_t h = 7; for (auto& v : ids) h = hash(v.data(), 4 * v.size(), h * 31 + 1); D(h); S(tp ? "import/export back end" : "clique back end"); S("shared nodes", shared); std::set<std::vector<int>> q; for (auto& o : own) if (o.second.size() > 1) q.insert(o.second); S("groups of ranks sharing nodes", q.size()); M("largest group of ranks", [&] { size_t m = 0; for (auto& o : own) m = std::max(m, o.second.size()); return m; }()); for (auto& v : ids) if (v.empty()) S("ranks without nodes"); if (c == 0) X(fmt("%d ranks, %d nodes, %ld shared", np, tot, shared)); }
      std::string what = fmt("%d ranks, case %ld, %d nodes (%ld shared), %s", np, c, tot, shared, tp ? "import/export" : "clique");
      auto delay = [&] { if (jit.p(.1)) usleep(jit.i(0, 3000)); };
      std::vector<int> const& mine = ids[me]; int n = (int)mine.size(); std::map<int, int> loc; for (int k = 0; k < n; ++k) loc[mine[k]] = k;
      int dim = tp || r.p(.7) ? 3 : 2; nimble::VectorCommunicator vc(dim, n, tp ? tcomm : Teuchos::RCP<const Teuchos::Comm<int>>()); delay(); vc.Initialize(mine);
      { std::vector<int> l, m; vc.GetPartitionBoundaryNodeLocalIds(l, m); ev(); S("partition boundaries"); std::map<int, int> got; bool ok = l.size() == m.size(); for (size_t k = 0; ok && k < l.size(); ++k) { ok = !got.count(l[k]); got[l[k]] = m[k]; } std::map<int, int> want; for (int k = 0; k < n; ++k) if (own[mine[k]].size() > 1) want[k] = own[mine[k]][0]; if (!ok || got != want) V("partition boundary", fmt("rank %d: %zu nodes reported, %zu shared; ", me, l.size(), want.size()) + what); }
      Field3 st(np * (size_t)std::max(tot, 1)); std::map<int, int> gi; for (int k = 0; k < tot; ++k) gi[gid[k]] = k; auto at = [&](int k, int g) -> std::array<LD, 3>& { return st[(size_t)k * std::max(tot, 1) + gi[g]]; };
      int rounds = r.i(1, 6); bool exact = true; double* keep = nullptr; std::vector<double> buf; int since = 9, lastfs = 0; (void)keep; std::map<int, std::array<LD, 3>> er;  // rounding errors collected since the last refill, per shared node
      for (int q = 0; q < rounds; ++q) {
        int fs = tp ? (r.p(.5) ? 1 : 3) : (r.p(.4) ? 1 : r.p(.3) ? 2 : 3); bool refill = since > 2 || fs != lastfs || r.p(.6); int vk = r.i(0, 3);
        if (refill) { since = 0; lastfs = fs; exact = vk < 2; for (int k = 0; k < np; ++k) for (int g : ids[k]) for (int j = 0; j < fs; ++j) { uint64_t z = hash(&g, 4, seed * 31 + c * 977 + q * 131 + k * 7 + j + 1); Rng w(z); at(k, g)[j] = vk == 0 ? w.i(-1000, 1000) : vk == 1 ? w.i(-100000, 100000) / 1024.0 : vk == 2 ? w.n() : w.p(.3) ? 0. : w.n() * w.logu(1e-12, 1e12); } }
        ++since; Field3 before = st; std::map<int, std::array<LD, 3>> mg; for (auto& o : own) if (o.second.size() > 1) { std::array<LD, 3> s{0, 0, 0}, m{0, 0, 0}; for (int k : o.second) for (int j = 0; j < fs; ++j) { s[j] += at(k, o.first)[j]; m[j] += std::fabs(at(k, o.first)[j]); } for (int k : o.second) at(k, o.first) = s; mg[o.first] = m; auto& e = er[o.first]; for (int j = 0; j < 3; ++j) e[j] = (refill ? 0 : e[j] * o.second.size()) + 4 * (int)o.second.size() * EPS * m[j]; }
        // my storage: the values the library left there (or the initial ones)
        if (refill) { buf.assign((size_t)fs * n + 2, 42.25); for (int k = 0; k < n; ++k) for (int j = 0; j < fs; ++j) buf[1 + fs * k + j] = (double)before[(size_t)me * std::max(tot, 1) + gi[mine[k]]][j]; }
        auto old = buf; int how = r.i(0, 4); delay();
        if (how == 0 || how == 4) { vc.VectorReduction(fs, buf.data() + 1); if (me == 0) S("reductions: pointer"); }
        else if (how == 1) { nimble::Viewify<2> v(buf.data() + 1, {n, fs}, {fs, 1}); vc.VectorReduction(fs, v); if (me == 0) S("reductions: strided view"); }
        else if (how == 2 && fs == 3) { nimble_kokkos::HostVectorNodeView v("v", n); for (int k = 0; k < n; ++k) for (int j = 0; j < 3; ++j) v(k, j) = buf[1 + 3 * k + j]; vc.VectorReduction(fs, v); for (int k = 0; k < n; ++k) for (int j = 0; j < 3; ++j) buf[1 + 3 * k + j] = v(k, j); if (me == 0) S("reductions: node view"); }
        else { auto f = [&](int k, int j) -> double& { if (k < 0 || k >= n || j < 0 || j >= fs) { V("lookup range", what); abort(); } return buf[1 + fs * k + j]; }; vc.VectorReduction(fs, f); if (me == 0) S("reductions: function"); }
        ev(); if (buf[0] != 42.25 || buf[buf.size() - 1] != 42.25) V("bounds", "writes outside the field; " + what);
        for (int k = 0; k < n; ++k) for (int j = 0; j < fs; ++j) {
          LD w = at(me, mine[k])[j]; double g = buf[1 + fs * k + j]; int sz = (int)own[mine[k]].size(); bool bad; if (sz == 1) bad = memcmp(&g, &old[1 + fs * k + j], 8) != 0; else { LD t = exact && since < 3 ? 0 : er[mine[k]][j]; bad = !(std::fabs(g - w) <= t); }
          if (bad) V(sz == 1 ? "unshared value changed" : "sum", fmt("rank %d node %d component %d of %d: %.17g, want %.17Lg, %d ranks, round %d; ", me, mine[k], j, fs, g, w, sz, q) + what);
          at(me, mine[k])[j] = sz > 1 && !exact ? w : w;
        }
      }
      if (dim == 3 && r.p(.1)) { int th = 0; std::vector<double> z(4 * n + 4); if (!tp) { try { vc.VectorReduction(4, z.data()); } catch (std::exception&) { th = 1; } ev(); if (me == 0) S("unsupported field sizes"); if (!th) V("field size 4", "accepted"); } }
    }
    end();
  }
  MPI_Barrier(MPI_COMM_WORLD); Kokkos::finalize(); MPI_Finalize(); return 0;
}
