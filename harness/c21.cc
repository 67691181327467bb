// C21: the contact surface against the outside faces of the whole mesh.
#include "cmesh.h"
using namespace H;
typedef std::array<double, 3> P3;
int main(int argc, char** argv)
{
  MPI_Init(&argc, &argv); Kokkos::initialize(argc, argv); int me, np; MPI_Comm_rank(MPI_COMM_WORLD, &me); MPI_Comm_size(MPI_COMM_WORLD, &np); H::rank() = me;
  { std::ios::sync_with_stdio(true); std::cout.setstate(std::ios::failbit);
    uint64_t seed = atoll(argv[1]), shard = atoll(argv[2]); long N = atol(argv[3]);
    for (long c = 0; c < N; ++c) {
      Rng r(seed * 1000003 + shard, c); MeshOpt mo; mo.maxn = r.p(.03) ? 7 : r.i(1, 4); mo.nblocks = r.p(.06) ? 12 : r.i(1, 4); mo.holes = r.p(.5) ? 0 : .3; MemMesh g = randmesh(r, mo); renumber(g, r); auto own = owners(g, np, r);
      std::set<int> pb, sb; int how = r.i(0, 3); for (int b : g.bids) { bool a = r.p(.6); if (how == 0) { pb.insert(b); sb.insert(b); } else if (how == 1) (a ? pb : sb).insert(b); else { if (a) pb.insert(b); if (r.p(.6)) sb.insert(b); } } if (pb.empty()) pb.insert(r.pick(g.bids)); if (sb.empty()) sb.insert(r.pick(g.bids));
      bool keep = r.p(.8); Rng lr(seed + 77 * me, c * 131 + shard); MemMesh loc = part(g, own, me, lr, keep);
      auto list = [&](std::set<int> const& s) { std::vector<int> v; for (int b : s) if (loc.names.count(b)) v.push_back(b); lr.shuffle(v); return v; };
      if (me == 0) { uint64_t h = hash(own.data(), 4 * own.size()); for (int b : g.bids) { h = hash(g.conn[b].data(), 4 * g.conn[b].size(), h); h = h * 3 + pb.count(b) * 2 + sb.count(b); } D(h); }
      std::string what = fmt("%d ranks, case %ld, %zu elements, %zu of %zu blocks primary, %zu secondary", np, c, g.egid.size(), pb.size(), g.bids.size(), sb.size()); if (me == 0) { note(what); if (c == 0) X(what); }
      nimble::GenesisMesh mesh; loc.load(mesh); nimble::VectorCommunicator vc(3, (unsigned)loc.n(), Teuchos::RCP<const Teuchos::Comm<int>>()); vc.Initialize(loc.ngid);
      auto pf = outside(g, pb), sf = outside(g, sb);
      // the static routines on this rank's part alone
      { std::vector<std::vector<int>> f; std::vector<int> id; auto bl = list(pb); nimble::ContactManager::SkinBlocks(mesh, bl, 0, f, id); std::set<int> sl(bl.begin(), bl.end()); auto want = outside(loc, sl); ev(); std::map<std::array<int, 4>, OFace> w; for (auto& o : want) { auto k = o.n; std::sort(k.begin(), k.end()); w[k] = o; } if (f.size() != w.size() || id.size() != f.size()) V("skin", fmt("%zu faces, %zu on the outside; ", f.size(), w.size()) + what); else for (size_t q = 0; q < f.size(); ++q) { std::array<int, 4> k; std::copy_n(f[q].begin(), 4, k.begin()); auto s = k; std::sort(s.begin(), s.end()); auto it = w.find(s); if (it == w.end()) { V("skin", "a face that is not outside; " + what); continue; } if (it->second.n != k) { bool cyc = false; for (int t = 0; t < 4; ++t) { auto z = k; std::rotate(z.begin(), z.begin() + t, z.end()); cyc = cyc || z == it->second.n; } if (!cyc) V("skin orientation", "a face turned inwards or twisted; " + what); } if (id[q] != ((it->second.gid + 1) << 5 | it->second.ord << 2)) V("skin id", fmt("%d for face %d of element %d; ", id[q], it->second.ord, it->second.gid) + what); } }
      CM cm; cm.SetPenaltyParameter(1.); cm.CreateContactEntities(mesh, vc, list(pb), list(sb)); ev();
      if (!cm.ContactEnabled()) V("enabled", "contact is off after set-up");
      // faces of this rank
      std::map<int, OFace const*> mine; std::map<int, int> row; { int q = 0; for (int b : g.bids) for (int id : g.begid.at(b)) row[id] = q++; } long expected = 0; for (auto& o : pf) if (own[row[o.gid]] == me) ++expected; S("outside faces of primary blocks", expected);
      size_t nf = cm.numContactFaces(), nn = cm.numContactNodes(); if ((long)nf != 4 * expected) V("faces", fmt("rank %d has %zu triangles for %ld outside faces; ", me, nf, expected) + what);
      std::map<std::pair<int, int>, OFace> byid; for (auto& o : pf) if (own[row[o.gid]] == me) byid[{o.gid, o.ord}] = o;
      std::vector<int> ids; std::map<std::pair<int, int>, std::map<int, int>> seen; std::map<int, int> g2l; for (size_t k = 0; k < loc.n(); ++k) g2l[loc.ngid[k]] = (int)k; int maxn = 0; for (int id : g.ngid) maxn = std::max(maxn, id);
      for (size_t q = 0; q < nf; ++q) {
        auto const& f = cm.getContactFace(q); ids.push_back(f.contact_entity_global_id()); int id = f.contact_entity_global_id(), tri = id & 3, ord = id >> 2 & 7, el = (id >> 5) - 1 - maxn; auto it = byid.find({el, ord}); ev();
        if (f.entity_type_ != nimble::ContactEntity::TRIANGLE || f.num_nodes_ != 3) V("face entity", "not a triangle; " + what); if (f.local_id() != (int)q) V("local id", fmt("%d of face %zu; ", f.local_id(), q) + what);
        if (it == byid.end()) { V("face id", fmt("triangle id %d stands for face %d of element %d, not an outside face of this rank; ", id, ord, el) + what); continue; }
        auto& o = it->second; seen[{el, ord}][tri]++; P3 a{f.coord_1_x_, f.coord_1_y_, f.coord_1_z_}, b{f.coord_2_x_, f.coord_2_y_, f.coord_2_z_}, m{f.coord_3_x_, f.coord_3_y_, f.coord_3_z_}; auto at = [&](int n) { return P3{g.x[n], g.y[n], g.z[n]}; };
        // triangle t spans the directed edge t of the outward face and its centre, up to a common rotation: found by its nodes
        int e = -1; for (int t = 0; t < 4; ++t) if (a == at(o.n[t]) && b == at(o.n[(t + 1) % 4])) e = t; if (e < 0) { V("triangle", fmt("triangle %d of face %d of element %d does not lie on an edge of the face in outward order; ", tri, ord, el) + what); continue; }
        seen[{el, ord}][100 + e]++; double mag = 0; for (int k = 0; k < 4; ++k) for (double v : at(o.n[k])) mag = std::max(mag, std::fabs(v)); for (int i = 0; i < 3; ++i) { LD s = 0; for (int k = 0; k < 4; ++k) s += at(o.n[k])[i]; if (!(std::fabs(m[i] - s / 4) <= 4 * EPS * mag)) V("centre", fmt("component %d is %.17g, centre of the face %.17Lg; ", i, m[i], s / 4) + what); }
        // orientation against the element itself
        Hex8 h = g.hexa(o.block, o.elem); LD cc[3] = {0, 0, 0}; for (int k = 0; k < 8; ++k) for (int i = 0; i < 3; ++i) cc[i] += h[k][i] / 8; LD u[3], w[3], d[3]; for (int i = 0; i < 3; ++i) { u[i] = (LD)b[i] - a[i]; w[i] = (LD)m[i] - a[i]; d[i] = (LD)m[i] - cc[i]; } if ((u[1] * w[2] - u[2] * w[1]) * d[0] + (u[2] * w[0] - u[0] * w[2]) * d[1] + (u[0] * w[1] - u[1] * w[0]) * d[2] <= 0) V("orientation", fmt("triangle %d of face %d of element %d looks inwards; ", tri, ord, el) + what);
        auto sub = [&](int k) { return k >= 0 && k < (int)cm.node_ids_.size() ? cm.node_ids_[k] : -1; }; auto want = [&](int k, int n) { return sub(k) == g2l[g.ngid[n]]; };
        if (!want(f.node_id_for_node_1_, o.n[e]) || !want(f.node_id_for_node_2_, o.n[(e + 1) % 4])) V("node map", "the triangle's nodes are other mesh nodes than its coordinates; " + what);
        std::set<int> fi{sub(f.node_id_1_for_fictitious_node_), sub(f.node_id_2_for_fictitious_node_), sub(f.node_id_3_for_fictitious_node_), sub(f.node_id_4_for_fictitious_node_)}, wf; for (int k = 0; k < 4; ++k) wf.insert(g2l[g.ngid[o.n[k]]]); if (fi != wf) V("node map", "the centre's nodes are not those of the face; " + what);
        LD len = 0; for (int k = 0; k < 4; ++k) { LD s = 0; for (int i = 0; i < 3; ++i) s += std::pow((LD)at(o.n[k])[i] - at(o.n[(k + 1) % 4])[i], 2); len = std::max(len, std::sqrt(s)); } if (!(std::fabs(f.char_len_ - len) <= 8 * EPS * (len + mag))) V("characteristic length", fmt("%.17g, longest edge %.17Lg; ", f.char_len_, len) + what);
      }
      for (auto& s : seen) for (int t = 0; t < 4; ++t) if (s.second[t] != 1 || s.second[100 + t] != 1) V("four triangles", fmt("face %d of element %d: triangle %d occurs %d times, edge %d times; ", s.first.second, s.first.first, t, s.second[t], s.second[100 + t]) + what);
      // nodes: gathered from all ranks
      std::vector<int> my; for (size_t q = 0; q < nn; ++q) { auto const& n = cm.getContactNode(q); ids.push_back(n.contact_entity_global_id()); int k = n.node_id_for_node_1_; ev(); if (n.entity_type_ != nimble::ContactEntity::NODE || n.num_nodes_ != 1 || k < 0 || k >= (int)cm.node_ids_.size() || n.local_id() != (int)q) { V("node entity", what); continue; } int l = cm.node_ids_[k]; if (l < 0 || l >= (int)loc.n()) { V("node entity", what); continue; } my.push_back(loc.ngid[l]); if (n.coord_1_x_ != loc.x[l] || n.coord_1_y_ != loc.y[l] || n.coord_1_z_ != loc.z[l]) V("node position", what); if (n.contact_entity_global_id() != loc.ngid[l] + 1) V("node id", fmt("%d for node %d; ", n.contact_entity_global_id(), loc.ngid[l]) + what); }
      auto gatherall = [&](std::vector<int> const& v) { std::vector<int> cnt(np), dis(np), all; int n = (int)v.size(); MPI_Allgather(&n, 1, MPI_INT, cnt.data(), 1, MPI_INT, MPI_COMM_WORLD); for (int k = 1; k < np; ++k) dis[k] = dis[k - 1] + cnt[k - 1]; all.resize(dis[np - 1] + cnt[np - 1]); MPI_Allgatherv(v.data(), n, MPI_INT, all.data(), cnt.data(), dis.data(), MPI_INT, MPI_COMM_WORLD); return all; };
      auto an = gatherall(my); std::map<int, int> cnt; for (int k : an) cnt[k]++; std::set<int> wn; for (auto& o : sf) for (int k : o.n) wn.insert(g.ngid[k]);
      if (me == 0) { S("surface nodes of secondary blocks", wn.size()); S("cases"); S("cases in parallel", np > 1); ev(); int miss = 0, dup = 0, extra = 0, ex = -1; for (int k : wn) { if (!cnt.count(k)) { ++miss; ex = k; } else if (cnt[k] > 1) { ++dup; ex = k; } } for (auto& k : cnt) if (!wn.count(k.first)) { ++extra; ex = k.first; } if (miss) V("missing contact nodes", fmt("%d of %zu surface nodes are contact nodes of no rank, e.g. %d; ", miss, wn.size(), ex) + what); if (dup) V("contact nodes of several ranks", fmt("%d of %zu, e.g. %d; ", dup, wn.size(), ex) + what); if (extra) V("contact nodes inside", fmt("%d, e.g. %d; ", extra, ex) + what); }
      auto ai = gatherall(ids); std::set<int> u(ai.begin(), ai.end()); if (me == 0 && u.size() != ai.size()) V("unique ids", fmt("%zu entities have %zu ids; ", ai.size(), u.size()) + what);
      for (size_t q = 0; q < nf + nn; ++q) if ((q < nf ? cm.getContactFace(q) : cm.getContactNode(q - nf)).contact_status()) V("status", "in contact before any search; " + what);
      // host and device copies
      for (size_t q = 0; q < nf; ++q) if (cm.contact_faces_d_(q).contact_entity_global_id() != cm.getContactFace(q).contact_entity_global_id()) V("copies", "host and device faces differ; " + what);
    }
    end();
  }
  MPI_Barrier(MPI_COMM_WORLD); Kokkos::finalize(); MPI_Finalize(); return 0;
}
