// meshes distributed over ranks, and access to the contact manager
#pragma once
#include "memmesh.h"
#include <mpi.h>
#include <Kokkos_Core.hpp>
#include "nimble_contact_manager.h"
#include "nimble_contact_interface.h"
#include "nimble_data_manager.h"
#include "nimble_vector_communicator.h"
struct CM : nimble::ContactManager {
  alignas(64) static char dm[sizeof(nimble::DataManager)];  // never used by what is called here
  CM(std::shared_ptr<nimble::ContactInterface> i = std::make_shared<nimble::ContactInterface>()) : nimble::ContactManager(i, *reinterpret_cast<nimble::DataManager*>(dm)) {}
  using nimble::ContactManager::ApplyDisplacements; using nimble::ContactManager::GetForces; using nimble::ContactManager::ClosestPointProjectionSingle; using nimble::ContactManager::ClosestPointProjection;
  using nimble::ContactManager::BoundingBox; using nimble::ContactManager::BoundingBoxAverageCharacteristicLengthOverAllRanks; using nimble::ContactManager::getContactFace; using nimble::ContactManager::getContactNode; using nimble::ContactManager::ResetContactStatus; using nimble::ContactManager::ZeroContactForce;
  using nimble::ContactManager::node_ids_; using nimble::ContactManager::force_d_; using nimble::ContactManager::coord_d_; using nimble::ContactManager::contact_faces_d_; using nimble::ContactManager::contact_nodes_d_; using nimble::ContactManager::contact_interface;
  void force2(int step) { ComputeContactForce(step, false); }
  template <class F> void enforce(nimble::ContactEntity& n, nimble::ContactEntity& f, double gap, double const* nor, double const* bc, F& out) { EnforceNodeFaceInteraction(n, f, gap, nor, bc, out); }
};
alignas(64) inline char CM::dm[sizeof(nimble::DataManager)];
// the part of a mesh whose elements (in the order of egid) have owner `me`; nodes in random order
inline MemMesh part(MemMesh const& g, std::vector<int> const& owner, int me, H::Rng& r, bool keepblocks)
{
  MemMesh m; m.h = g.h; std::map<int, int> l; std::vector<int> nodes; std::map<int, int> row; int q = 0; for (int b : g.bids) for (int id : g.begid.at(b)) row[id] = q++;
  auto own = [&](int id) { return owner[row.at(id)] == me; };
  for (int b : g.bids) for (size_t e = 0; e < g.begid.at(b).size(); ++e) if (own(g.begid.at(b)[e])) for (int k = 0; k < 8; ++k) { int n = g.conn.at(b)[8 * e + k]; if (!l.count(n)) { l[n] = 1; nodes.push_back(n); } }
  r.shuffle(nodes); for (size_t k = 0; k < nodes.size(); ++k) { l[nodes[k]] = (int)k; m.x.push_back(g.x[nodes[k]]); m.y.push_back(g.y[nodes[k]]); m.z.push_back(g.z[nodes[k]]); m.ngid.push_back(g.ngid[nodes[k]]); }
  for (int b : g.bids) { bool any = false; for (int id : g.begid.at(b)) any = any || own(id); if (!any && !keepblocks) continue; m.bids.push_back(b); m.names[b] = g.names.at(b); m.npe[b] = 8; m.begid[b]; m.conn[b]; for (size_t e = 0; e < g.begid.at(b).size(); ++e) if (own(g.begid.at(b)[e])) { m.begid[b].push_back(g.begid.at(b)[e]); m.egid.push_back(g.begid.at(b)[e]); for (int k = 0; k < 8; ++k) m.conn[b].push_back(l[g.conn.at(b)[8 * e + k]]); } }
  return m;
}
// sparse or shuffled global ids
inline void renumber(MemMesh& m, H::Rng& r)
{
  auto ids = [&](size_t n, int top) { std::vector<int> v; if (r.p(.5)) { int b = r.p(.5) ? 0 : r.i(0, 1000); for (size_t k = 0; k < n; ++k) v.push_back(b + (int)k); } else { std::set<int> s; while (s.size() < n) s.insert(r.i(0, top)); v.assign(s.begin(), s.end()); } if (r.p(.6)) r.shuffle(v); return v; };
  m.ngid = ids(m.n(), r.p(.5) ? (int)m.n() * 3 + 5 : 20000000); auto e = ids(m.egid.size(), r.p(.5) ? (int)m.egid.size() * 3 + 5 : 20000000); size_t q = 0; m.egid.clear(); for (int b : m.bids) for (int& id : m.begid[b]) { id = e[q++]; m.egid.push_back(id); }
}
// owner of every element: random, slabs, or with an empty rank
inline std::vector<int> owners(MemMesh const& m, int np, H::Rng& r)
{
  size_t n = m.egid.size(); std::vector<int> o(n); int kind = r.i(0, 3), skip = r.p(.15) && np > 1 ? r.i(0, np - 1) : -1;
  if (kind == 0) for (auto& v : o) v = r.i(0, np - 1);
  else { std::vector<std::pair<double, int>> key; double d[3] = {r.n(), r.n(), r.n()}; size_t e = 0; for (int b : m.bids) for (size_t k = 0; k < m.conn.at(b).size() / 8; ++k, ++e) { auto h = m.hexa(b, (int)k); LD c = 0; for (int q = 0; q < 8; ++q) for (int i = 0; i < 3; ++i) c += d[i] * h[q][i]; if (kind == 2) c = b * 1e6 + r.d(); key.push_back({(double)c, (int)e}); } std::sort(key.begin(), key.end()); for (size_t k = 0; k < n; ++k) o[key[k].second] = (int)(k * np / n); if (r.p(.5)) { std::vector<int> pm(np); for (int k = 0; k < np; ++k) pm[k] = k; r.shuffle(pm); for (auto& v : o) v = pm[v]; } }
  if (skip >= 0) for (auto& v : o) if (v == skip) v = (skip + 1) % np;
  return o;
}
// the faces of a hexahedron by their nodes, outward, in the order of the face ordinals
static const int HF[6][4] = {{0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {0, 4, 7, 3}, {0, 3, 2, 1}, {4, 5, 6, 7}};
struct OFace { int block, elem, gid, ord; std::array<int, 4> n; };  // n: indices of the whole mesh
inline std::vector<OFace> outside(MemMesh const& g, std::set<int> const& blocks)
{
  std::map<std::array<int, 4>, std::vector<OFace>> f;
  for (int b : g.bids) if (blocks.count(b)) for (size_t e = 0; e < g.begid.at(b).size(); ++e) for (int q = 0; q < 6; ++q) { OFace o{b, (int)e, g.begid.at(b)[e], q, {}}; for (int k = 0; k < 4; ++k) o.n[k] = g.conn.at(b)[8 * e + HF[q][k]]; auto key = o.n; std::sort(key.begin(), key.end()); f[key].push_back(o); }
  std::vector<OFace> out; for (auto& k : f) if (k.second.size() == 1) out.push_back(k.second[0]); return out;
}
