// C22: positions, boxes and copies of contact entities under random displacements.
#include "cmesh.h"
using namespace H;
typedef nimble::ContactEntity CE;
static void box(CE const& e, LD infl, double mag, std::string const& what)
{
  LD lo[3], hi[3], ce[3]; LD p[3][3] = {{e.coord_1_x_, e.coord_1_y_, e.coord_1_z_}, {e.coord_2_x_, e.coord_2_y_, e.coord_2_z_}, {e.coord_3_x_, e.coord_3_y_, e.coord_3_z_}}; int n = e.entity_type_ == CE::TRIANGLE ? 3 : 1;
  for (int i = 0; i < 3; ++i) { lo[i] = hi[i] = p[0][i]; ce[i] = 0; for (int k = 0; k < n; ++k) { lo[i] = std::min(lo[i], p[k][i]); hi[i] = std::max(hi[i], p[k][i]); ce[i] += p[k][i] / n; } }
  double l[3] = {e.get_x_min(), e.get_y_min(), e.get_z_min()}, h[3] = {e.get_x_max(), e.get_y_max(), e.get_z_max()}; auto c = e.centroid(); ev(); LD t = 4 * EPS * (mag + infl);
  for (int i = 0; i < 3; ++i) { if (!(l[i] <= lo[i]) || !(h[i] >= hi[i])) V("box", fmt("direction %d: [%.17g, %.17g] does not contain [%.17Lg, %.17Lg]; ", i, l[i], h[i], lo[i], hi[i]) + what); else if (!(std::fabs(l[i] - (lo[i] - infl)) <= t) || !(std::fabs(h[i] - (hi[i] + infl)) <= t)) V("inflation", fmt("direction %d: [%.17g, %.17g] for [%.17Lg, %.17Lg] inflated by %.17Lg; ", i, l[i], h[i], lo[i], hi[i], infl) + what); if (!(std::fabs(c[i] - ce[i]) <= t)) V("centroid", fmt("direction %d: %.17g, want %.17Lg; ", i, c[i], ce[i]) + what); }
}
static bool bits(double a, double b) { return memcmp(&a, &b, 8) == 0; }
static bool samegeo(CE const& a, CE const& b)
{
  return a.entity_type_ == b.entity_type_ && a.num_nodes_ == b.num_nodes_ && bits(a.coord_1_x_, b.coord_1_x_) && bits(a.coord_1_y_, b.coord_1_y_) && bits(a.coord_1_z_, b.coord_1_z_) && bits(a.coord_2_x_, b.coord_2_x_) && bits(a.coord_2_y_, b.coord_2_y_) && bits(a.coord_2_z_, b.coord_2_z_) && bits(a.coord_3_x_, b.coord_3_x_) && bits(a.coord_3_y_, b.coord_3_y_) && bits(a.coord_3_z_, b.coord_3_z_) && bits(a.char_len_, b.char_len_) && bits(a.get_x_min(), b.get_x_min()) && bits(a.get_x_max(), b.get_x_max()) && bits(a.get_y_min(), b.get_y_min()) && bits(a.get_y_max(), b.get_y_max()) && bits(a.get_z_min(), b.get_z_min()) && bits(a.get_z_max(), b.get_z_max());
}
static bool sameid(CE const& a, CE const& b)
{
  auto ca = a.centroid(), cb = b.centroid();
  return a.contact_entity_global_id() == b.contact_entity_global_id() && a.node_id_for_node_1_ == b.node_id_for_node_1_ && a.node_id_for_node_2_ == b.node_id_for_node_2_ && a.node_id_1_for_fictitious_node_ == b.node_id_1_for_fictitious_node_ && a.node_id_2_for_fictitious_node_ == b.node_id_2_for_fictitious_node_ && a.node_id_3_for_fictitious_node_ == b.node_id_3_for_fictitious_node_ && a.node_id_4_for_fictitious_node_ == b.node_id_4_for_fictitious_node_ && bits(ca[0], cb[0]) && bits(ca[1], cb[1]) && bits(ca[2], cb[2]);
}
template <class A> void roundtrip(int n, A src, Rng& r, std::string const& what)
{
  std::vector<char> buf(r.i(0, 50), 'x'); std::vector<CE> keep; for (int k = 0; k < n; ++k) keep.push_back(src[k]);
  nimble::SerializeContactFaces(n, src, buf); std::vector<char> sent(buf.begin(), buf.end()); std::vector<CE> dst(n + 1); dst[n].contact_entity_global_id_ = 4711; for (auto& d : dst) { d.force_1_x_ = 3; }
  nimble::UnserializeContactFaces(n, dst.data(), sent); ev(1 + n); S("entities serialised", n);
  for (int k = 0; k < n; ++k) { if (!samegeo(src[k], keep[k]) || !sameid(src[k], keep[k])) V("serialise", "packing changed a face; " + what); if (!samegeo(dst[k], keep[k])) V("restored geometry", fmt("face %d of %d; ", k, n) + what); if (!sameid(dst[k], keep[k])) V("restored ids", fmt("face %d of %d; ", k, n) + what); if (dst[k].force_1_x_ != 0 || dst[k].force_3_z_ != 0) V("restored force", what); }
  if (dst[n].contact_entity_global_id_ != 4711) V("restore", "writes behind the last face; " + what);
  if (n) { nimble_kokkos::HostContactEntityArrayView v("v", n); nimble::UnserializeContactFaces(n, v, sent); for (int k = 0; k < n; ++k) if (!samegeo(v(k), keep[k]) || !sameid(v(k), keep[k])) V("restored into a view", fmt("face %d of %d; ", k, n) + what); }
}
int main(int argc, char** argv)
{
  MPI_Init(&argc, &argv); Kokkos::initialize(argc, argv); int me, np; MPI_Comm_rank(MPI_COMM_WORLD, &me); MPI_Comm_size(MPI_COMM_WORLD, &np); H::rank() = me;
  { std::cout.setstate(std::ios::failbit); uint64_t seed = atoll(argv[1]), shard = atoll(argv[2]); long N = atol(argv[3]);
    for (long c = 0; c < N; ++c) {
      Rng r(seed * 1000003 + shard, c); MeshOpt mo; mo.maxn = r.p(.03) ? 6 : r.i(1, 3); if (r.p(.06)) mo.nblocks = 9; MemMesh g = randmesh(r, mo); renumber(g, r); auto own = owners(g, np, r); std::set<int> pb, sb; for (int b : g.bids) { if (r.p(.6)) pb.insert(b); if (r.p(.6)) sb.insert(b); } if (pb.empty()) pb.insert(g.bids[0]); if (sb.empty()) sb.insert(g.bids[0]);
      Rng lr(seed + 77 * me, c * 131 + shard); MemMesh loc = part(g, own, me, lr, true); std::string what = fmt("%d ranks, case %ld", np, c); if (me == 0) note(what);
      nimble::GenesisMesh mesh; loc.load(mesh); nimble::VectorCommunicator vc(3, (unsigned)loc.n(), Teuchos::RCP<const Teuchos::Comm<int>>()); vc.Initialize(loc.ngid); CM cm; cm.SetPenaltyParameter(1.); cm.CreateContactEntities(mesh, vc, std::vector<int>(pb.begin(), pb.end()), std::vector<int>(sb.begin(), sb.end()));
      size_t nf = cm.numContactFaces(), nn = cm.numContactNodes(), ns = cm.node_ids_.size(), n = loc.n(); nimble_kokkos::DeviceVectorNodeView d("d", n), F("F", n); int rounds = r.i(2, 5);
      for (int q = 0; q < rounds; ++q) {
        double amp = (double)g.h * lr.pick(std::vector<double>{0, .01, .5, 1, 30}); std::vector<double> u(3 * n); bool rigid = lr.p(.2); double t[3] = {lr.n(), lr.n(), lr.n()}; for (size_t k = 0; k < n; ++k) for (int i = 0; i < 3; ++i) d(k, i) = u[3 * k + i] = amp * (rigid ? t[i] : lr.n());
        cm.ApplyDisplacements(d); S("updates"); for (size_t k = 0; k < 3 * n; ++k) if (!bits(d(k / 3, k % 3), u[k])) V("displacement changed", what);
        auto pos = [&](int k, int i) { int l = cm.node_ids_.at(k); return (LD)(i == 0 ? loc.x : i == 1 ? loc.y : loc.z)[l] + u[3 * l + i]; }; auto mag = [&](int k, int i) { int l = cm.node_ids_.at(k); return std::fabs((i == 0 ? loc.x : i == 1 ? loc.y : loc.z)[l]) + std::fabs(u[3 * l + i]); };
        auto at = [&](const char* kind, double got, LD want, double m) { if (!(std::fabs(got - want) <= 4 * EPS * m)) V(kind, fmt("%.17g, want %.17Lg, round %d; ", got, want, q) + what); };
        for (size_t k = 0; k < nf; ++k) { CE const& e = cm.contact_faces_d_(k); ev(); double mm = 0; double p[3][3] = {{e.coord_1_x_, e.coord_1_y_, e.coord_1_z_}, {e.coord_2_x_, e.coord_2_y_, e.coord_2_z_}, {e.coord_3_x_, e.coord_3_y_, e.coord_3_z_}}; int fi[4] = {e.node_id_1_for_fictitious_node_, e.node_id_2_for_fictitious_node_, e.node_id_3_for_fictitious_node_, e.node_id_4_for_fictitious_node_};
          for (int i = 0; i < 3; ++i) { at("face node 1", p[0][i], pos(e.node_id_for_node_1_, i), mag(e.node_id_for_node_1_, i)); at("face node 2", p[1][i], pos(e.node_id_for_node_2_, i), mag(e.node_id_for_node_2_, i)); LD s = 0; double m = 0; for (int w : fi) { s += pos(w, i); m = std::max(m, mag(w, i)); } at("face centre", p[2][i], s / 4, 2 * m); mm = std::max(mm, m); }
          box(e, (LD)e.inflation_factor * e.char_len_, mm, what); if (e.inflation_factor != .15) V("inflation factor", what); }
        for (size_t k = 0; k < nn; ++k) { CE const& e = cm.contact_nodes_d_(k); ev(); double p[3] = {e.coord_1_x_, e.coord_1_y_, e.coord_1_z_}, mm = 0; for (int i = 0; i < 3; ++i) { at("node", p[i], pos(e.node_id_for_node_1_, i), mag(e.node_id_for_node_1_, i)); mm = std::max(mm, mag(e.node_id_for_node_1_, i)); } box(e, (LD)e.inflation_factor * e.char_len_, mm, what); }
        if (ns) { double b[6]; cm.BoundingBox(b[0], b[1], b[2], b[3], b[4], b[5]); LD lo[3], hi[3]; for (int i = 0; i < 3; ++i) { lo[i] = 1e300L; hi[i] = -1e300L; double m = 0; for (size_t k = 0; k < ns; ++k) { lo[i] = std::min(lo[i], pos((int)k, i)); hi[i] = std::max(hi[i], pos((int)k, i)); m = std::max(m, mag((int)k, i)); } ev(); at("bounding box of all", b[2 * i], lo[i], m); at("bounding box of all", b[2 * i + 1], hi[i], m); } }
        { int have = ns > 0, all = 0; MPI_Allreduce(&have, &all, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD); if (all) { double b[6], l = 0, s = 0; cm.BoundingBox(b[0], b[1], b[2], b[3], b[4], b[5]); for (int i = 0; i < 3; ++i) l = std::max(l, b[2 * i + 1] - b[2 * i]); MPI_Allreduce(&l, &s, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD); double a = cm.BoundingBoxAverageCharacteristicLengthOverAllRanks(); ev(); if (!(std::fabs(a - s / np) <= 1e-14 * s)) V("average length", fmt("%.17g, want %.17g; ", a, s / np) + what); } }
        int m = nf ? lr.i(0, (int)nf) : 0; roundtrip(m, cm.contact_faces_d_, lr, what);
        for (int w = 0; w < 3 && nf; ++w) { CE const& e = cm.contact_faces_d_(lr.i(0, (int)nf - 1)); CE x; e.ExportGeometryInto(x); ev(); if (!samegeo(x, e)) V("exported geometry", what); }
        // forces of the submodel arrive at their mesh nodes
        for (size_t k = 0; k < 3 * ns; ++k) cm.force_d_(k) = lr.n(); for (size_t k = 0; k < n; ++k) for (int i = 0; i < 3; ++i) F(k, i) = -7; cm.GetForces(F); ev(); std::map<int, int> at2; for (size_t k = 0; k < ns; ++k) at2[cm.node_ids_[k]] = (int)k; for (size_t k = 0; k < n; ++k) for (int i = 0; i < 3; ++i) { auto it = at2.find((int)k); double w = it == at2.end() ? -7. : cm.force_d_(3 * it->second + i); if (!bits(F(k, i), w)) V("forces to the mesh", fmt("node %zu component %d: %.17g, want %.17g; ", k, i, F(k, i), w) + what); }
        if (me == 0) { D(hash(u.data(), 8 * u.size(), nf * 31 + nn)); if (c == 0 && q == 0) X(fmt("%d ranks: %zu faces, %zu nodes on rank 0, amplitude %g", np, nf, nn, amp)); }
        if (r.p(.3)) { for (size_t k = 0; k < nf; ++k) if (lr.p(.5)) cm.contact_faces_d_(k).set_contact_status(true); for (size_t k = 0; k < nn; ++k) cm.contact_nodes_d_(k).set_contact_status(true); cm.ResetContactStatus(); ev(); for (size_t k = 0; k < nf; ++k) if (cm.contact_faces_d_(k).contact_status()) V("status", "still set after a reset; " + what); for (size_t k = 0; k < nn; ++k) if (cm.contact_nodes_d_(k).contact_status()) V("status", "still set after a reset; " + what); cm.ZeroContactForce(); for (size_t k = 0; k < 3 * ns; ++k) if (cm.force_d_(k) != 0) V("zero force", what); }
      }
      // entities on their own
      for (int q = 0; q < 40; ++q) { double s = lr.logu(1e-6, 1e6), L = lr.p(.1) ? 0 : s * lr.logu(1e-3, 1e2); int nn2 = lr.i(6, 30); std::vector<double> x(3 * nn2); auto fill = [&] { for (auto& v : x) v = s * lr.n(); }; fill(); int a = lr.i(0, nn2 - 1), b = lr.i(0, nn2 - 1), fi[4]; for (int& f : fi) f = lr.i(0, nn2 - 1); double co[9]; for (int i = 0; i < 9; ++i) co[i] = s * lr.n(); int gid = lr.i(0, INT32_MAX), lid = lr.i(0, 99); double mg = 0; for (double v : co) mg = std::max(mg, std::fabs(v));
        CE t(CE::TRIANGLE, gid, lid, co, L, a, b, fi), nd(CE::NODE, gid, lid, co, L, a); ev(2); box(t, .15L * L, mg, "a single triangle; " + what); box(nd, .15L * L, mg, "a single node; " + what); if (t.local_id() != lid || nd.local_id() != lid || t.contact_entity_global_id() != gid || nd.contact_entity_global_id() != gid) V("entity ids", what); if (CE(CE::TRIANGLE, gid, co, L, a, b, fi).local_id() != -1) V("entity ids", "default local id; " + what);
        for (int w = 0; w < 2; ++w) { fill(); mg = 0; for (double v : x) mg = std::max(mg, std::fabs(v)); if (w) t.SetCoordinates(x.data()); else t.SetCoordinates(x); nd.SetCoordinates(x.data()); box(t, .15L * L, mg, "a moved triangle; " + what); box(nd, .15L * L, mg, "a moved node; " + what); double p[3] = {t.coord_3_x_, t.coord_3_y_, t.coord_3_z_}, p1[3] = {t.coord_1_x_, t.coord_1_y_, t.coord_1_z_}, p2[3] = {t.coord_2_x_, t.coord_2_y_, t.coord_2_z_}, pn[3] = {nd.coord_1_x_, nd.coord_1_y_, nd.coord_1_z_}; for (int i = 0; i < 3; ++i) { LD z = 0; for (int f : fi) z += x[3 * f + i]; if (!(std::fabs(p[i] - z / 4) <= 4 * EPS * mg) || p1[i] != x[3 * a + i] || p2[i] != x[3 * b + i] || pn[i] != x[3 * a + i]) V("single entity", fmt("coordinate %d; ", i) + what); } }
        roundtrip(1, &t, lr, what); }
    }
    end();
  }
  MPI_Barrier(MPI_COMM_WORLD); Kokkos::finalize(); MPI_Finalize(); return 0;
}
