// random hexahedral meshes built in memory
#pragma once
#include "hex.h"
#include "nimble_genesis_mesh.h"
struct MemMesh {
  std::vector<double> x, y, z; std::vector<int> ngid, egid, bids; std::map<int, std::string> names; std::map<int, std::vector<int>> begid, conn; std::map<int, int> npe;
  int nx = 0, ny = 0, nz = 0; LD h = 1;  // h: smallest spacing
  size_t n() const { return x.size(); }
  void load(nimble::GenesisMesh& m, std::string const& f = "memory.g") const { m.Initialize(f, ngid, x, y, z, egid, bids, names, begid, npe, conn); }
  Hex8 hexa(int b, int e) const { Hex8 o; for (int k = 0; k < 8; ++k) { int q = conn.at(b)[8 * e + k]; o[k] = {x[q], y[q], z[q]}; } return o; }
};
struct MeshOpt { int maxn = 4; int nblocks = 3; double holes = .2; bool orphans = false, shuffle = true, warp = true, rotate_elem = true, scale = true, detached = true; };
// the 24 orientation-preserving renumberings of a hexahedron
inline std::vector<std::array<int, 8>> const& hexrot()
{
  static std::vector<std::array<int, 8>> all; if (!all.empty()) return all;
  std::vector<int> p{0, 1, 2}; do for (int s = 0; s < 8; ++s) {
    M3 m = zero3(); for (int i = 0; i < 3; ++i) m[i][p[i]] = (s >> i & 1) ? -1 : 1; if (det3(m) < 0) continue;
    std::array<int, 8> q; for (int n = 0; n < 8; ++n) { int v[3]; for (int i = 0; i < 3; ++i) v[i] = (int)(m[i][0] * HN[n][0] + m[i][1] * HN[n][1] + m[i][2] * HN[n][2]); for (int k = 0; k < 8; ++k) if (HN[k][0] == v[0] && HN[k][1] == v[1] && HN[k][2] == v[2]) q[n] = k; } all.push_back(q);
  } while (std::next_permutation(p.begin(), p.end()));
  return all;
}
inline MemMesh randmesh(H::Rng& r, MeshOpt o = {})
{
  for (int attempt = 0;; ++attempt) {
    MemMesh m; int N[3] = {r.i(1, o.maxn), r.i(1, o.maxn), r.i(1, o.maxn)}; int nb = r.i(1, o.nblocks), axis = r.i(0, 2);
    m.nx = N[0]; m.ny = N[1]; m.nz = N[2]; LD d[3] = {1, 1, 1}; if (r.p(.6)) for (auto& v : d) v = r.d(.4, 2.5); bool split = o.detached && r.p(.3);  // blocks may be apart from each other
    auto id = [&](int i, int j, int k, int b) { return ((b * (N[0] + 1) + i) * (N[1] + 1) + j) * (N[2] + 1) + k; };
    std::map<int, int> used; std::vector<std::array<LD, 3>> X; std::vector<std::pair<int, std::array<int, 8>>> el;
    std::set<int> ids; while ((int)ids.size() < nb) ids.insert(r.p(.5) ? (int)ids.size() + 1 : r.i(1, 500)); std::vector<int> bl(ids.begin(), ids.end()); r.shuffle(bl);
    for (int i = 0; i < N[0]; ++i) for (int j = 0; j < N[1]; ++j) for (int k = 0; k < N[2]; ++k) {
      if (r.p(o.holes) && !(i + j + k == 0)) continue; int c[3] = {i, j, k}; int b = r.p(.15) ? r.i(0, nb - 1) : c[axis] * nb / N[axis]; std::array<int, 8> e;
      for (int q = 0; q < 8; ++q) { int I = i + (HN[q][0] > 0), J = j + (HN[q][1] > 0), K = k + (HN[q][2] > 0); int g = id(I, J, K, split ? b : 0); auto it = used.find(g); if (it == used.end()) { it = used.emplace(g, (int)X.size()).first; X.push_back({I * d[0] + (split ? b * .01L : 0), J * d[1], K * d[2]}); } e[q] = it->second; }
      if (o.rotate_elem) { auto& t = r.pick(hexrot()); std::array<int, 8> f; for (int q = 0; q < 8; ++q) f[q] = e[t[q]]; e = f; }
      el.push_back({bl[b], e});
    }
    if (o.orphans && r.p(.4)) for (int k = r.i(1, 3); k--;) X.push_back({r.n(), r.n(), r.n()});
    LD hmin = std::min(d[0], std::min(d[1], d[2])); if (o.warp && r.p(.6)) { LD w = r.d(0, .25) * hmin; for (auto& p : X) for (auto& v : p) v += w * (r.d() - .5) * 2 * .8; }
    if (o.scale) { LD s = r.p(.5) ? 1 : r.logu(1e-3, 1e3), t[3] = {0, 0, 0}; M3 R = r.p(.5) ? eye3() : randrot(r); if (r.p(.5)) for (auto& v : t) v = r.n() * 3 * s; for (auto& p : X) { std::array<LD, 3> q; for (int a = 0; a < 3; ++a) q[a] = t[a] + s * (R[a][0] * p[0] + R[a][1] * p[1] + R[a][2] * p[2]); p = q; } hmin *= s; }
    std::vector<int> pm(X.size()); for (size_t k = 0; k < pm.size(); ++k) pm[k] = (int)k; if (o.shuffle && r.p(.7)) r.shuffle(pm); if (o.shuffle && r.p(.7)) r.shuffle(el);
    m.x.resize(X.size()); m.y = m.z = m.x; for (size_t k = 0; k < X.size(); ++k) { m.x[pm[k]] = (double)X[k][0]; m.y[pm[k]] = (double)X[k][1]; m.z[pm[k]] = (double)X[k][2]; } for (size_t k = 0; k < X.size(); ++k) m.ngid.push_back((int)k);
    for (int b : bl) for (auto& e : el) if (e.first == b) for (int q = 0; q < 8; ++q) m.conn[b].push_back(pm[e.second[q]]);
    for (int b : bl) if (m.conn.count(b)) { m.bids.push_back(b); m.names[b] = "block_" + std::to_string(b); m.npe[b] = 8; for (size_t k = 0; k < m.conn[b].size() / 8; ++k) { m.begid[b].push_back((int)m.egid.size()); m.egid.push_back((int)m.egid.size()); } }
    m.h = hmin; bool ok = true; for (int b : m.bids) for (size_t e = 0; e < m.conn[b].size() / 8; ++e) ok = ok && valid(m.hexa(b, (int)e)); if (ok) return m;
  }
}
