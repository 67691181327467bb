// C24: forces of penalty contact, through the manager's enforcement and through the interface.
#include "cmesh.h"
using namespace H;
typedef nimble::ContactEntity CE; typedef nimble::ContactManager C0;
struct Hit { int node, face, count; double gap, nor[3], cp[3]; };
struct List : nimble::ContactInterface {  // applies a given list of node-face pairs
  std::vector<Hit> hits; int calls = 0; bool viaStruct = false; long nn = -1, nf = -1;
  void DoSearchAndEnforcement(nimble_kokkos::DeviceContactEntityArrayView n, nimble_kokkos::DeviceContactEntityArrayView f, nimble::KokkosPenaltyContactEnforcement e) override
  { ++calls; nn = n.extent(0); nf = f.extent(0); for (auto& h : hits) if (viaStruct) e.EnforceContact(n(h.node), f(h.face), h.count, h.gap, h.nor, h.cp); else EnforceNodeFaceInteraction(n(h.node), f(h.face), h.count, h.gap, h.nor, h.cp); }
};
int main(int argc, char** argv)
{
  MPI_Init(&argc, &argv); Kokkos::initialize(argc, argv);
  { std::cout.setstate(std::ios::failbit); std::cerr.setstate(std::ios::failbit); uint64_t seed = atoll(argv[1]), shard = atoll(argv[2]); long N = atol(argv[3]);
    for (long c = 0; c < N; ++c) {
      Rng r(seed * 1000003 + shard, c); double sc = r.p(.4) ? 1 : r.logu(1e-4, 1e4), penalty = r.logu(1e-3, 1e14); int nq = r.i(1, 4), nk = r.i(1, 5); std::vector<double> x; double off[3]; bool sh = r.p(.5); for (auto& v : off) v = sh ? sc * 3 * r.n() : 0;
      auto add = [&](LD const* p) { for (int i = 0; i < 3; ++i) x.push_back((double)p[i]); return (int)x.size() / 3 - 1; };
      // quadrilaterals, four triangles each, some sharing nodes
      std::vector<std::array<int, 4>> quads; for (int k = 0; k < nq; ++k) { M3 R = randrot(r); LD w = r.p(.3) ? 0 : .3; std::array<int, 4> q; LD P[4][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}}, o[3] = {r.n(), r.n(), r.n()}; LD as = r.logu(.2, 5); for (int j = 0; j < 4; ++j) { LD p[3], y[3]; for (int i = 0; i < 3; ++i) p[i] = P[j][i] * (i ? 1 : as) + w * r.d(-.5, .5); for (int i = 0; i < 3; ++i) { y[i] = off[i]; for (int l = 0; l < 3; ++l) y[i] += sc * R[i][l] * (p[l] + o[l]); } if (k && j < 2 && r.p(.4)) q[j] = quads[k - 1][3 - j]; else q[j] = add(y); } if (std::set<int>(q.begin(), q.end()).size() < 4) { --k; continue; } quads.push_back(q); }
      struct F { int a, b; std::array<int, 4> q; }; std::vector<F> fs; for (auto& q : quads) for (int t = 0; t < 4; ++t) if (r.p(.7) || fs.empty()) fs.push_back({q[t], q[(t + 1) % 4], q});
      auto tri = [&](F const& f, LD P[3][3]) { for (int i = 0; i < 3; ++i) { P[0][i] = x[3 * f.a + i]; P[1][i] = x[3 * f.b + i]; P[2][i] = 0; for (int q : f.q) P[2][i] += x[3 * q + i] / 4.L; } };
      auto cross = [](LD const* a, LD const* b, LD* o) { for (int i = 0; i < 3; ++i) o[i] = a[(i + 1) % 3] * b[(i + 2) % 3] - a[(i + 2) % 3] * b[(i + 1) % 3]; };
      // nodes below (gap < 0), above or at the faces
      std::vector<Hit> hits; std::vector<std::array<LD, 3>> bary; std::vector<int> nodes; LD amp = 1; int pen = 0;
      for (int k = 0; k < nk; ++k) { int f = r.i(0, (int)fs.size() - 1); LD P[3][3], u[3], v[3], n[3]; tri(fs[f], P); for (int i = 0; i < 3; ++i) { u[i] = P[1][i] - P[0][i]; v[i] = P[2][i] - P[0][i]; } cross(u, v, n); LD l = std::sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]), L = std::sqrt(u[0] * u[0] + u[1] * u[1] + u[2] * u[2]) + std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]); if (!(l > .02L * L * L)) continue; amp = std::max(amp, L * L / l);
        LD b1 = r.d(), b2 = r.d(0, 1 - (double)b1); int sp = r.i(0, 9); if (sp == 0) b2 = 0; if (sp == 1) b1 = 0; if (sp == 2) b2 = 1 - b1; if (sp == 3) { b1 = r.i(0, 1); b2 = b1 ? 0 : r.i(0, 1); } std::array<LD, 3> b{1 - b1 - b2, b1, b2}; double g = (r.p(.75) ? -1 : r.p(.3) ? 0 : 1) * (double)L * r.logu(1e-6, .3); Hit h; h.face = f; h.gap = g; h.count = r.p(.5) ? 1 : r.i(1, 4); LD y[3]; for (int i = 0; i < 3; ++i) { LD q = 0; for (int w = 0; w < 3; ++w) q += b[w] * P[w][i]; h.cp[i] = (double)q; h.nor[i] = (double)(n[i] / l); y[i] = q + g * n[i] / l; }
        h.node = (int)nodes.size(); nodes.push_back(add(y)); hits.push_back(h); bary.push_back(b); pen += g < 0; if (r.p(.2) && hits.size() < 8) { hits.push_back(h); bary.push_back(b); pen += g < 0; } }
      if (hits.empty()) { continue; }
      int n = (int)x.size() / 3; std::string what = fmt("case %ld: %d nodes, %zu faces, %zu contacts, %d penetrating, penalty %g", c, n, fs.size(), hits.size(), pen, penalty); note(what);
      nimble_kokkos::DeviceContactEntityArrayView dn("n", nodes.size()), df("f", fs.size()); for (size_t k = 0; k < nodes.size(); ++k) { double p[3] = {0, 0, 0}; dn(k) = CE(CE::NODE, (int)k, p, sc, nodes[k]); dn(k).SetCoordinates(x.data()); } for (size_t k = 0; k < fs.size(); ++k) { double p[9] = {}; int q[4] = {fs[k].q[0], fs[k].q[1], fs[k].q[2], fs[k].q[3]}; df(k) = CE(CE::TRIANGLE, (int)k, p, sc, fs[k].a, fs[k].b, q); df(k).SetCoordinates(x.data()); }
      auto expect = [&](bool onlypen, bool counts, std::vector<LD>& f, std::vector<LD>& s) { f.assign(3 * n, 0); s.assign(3 * n, 0); for (size_t k = 0; k < hits.size(); ++k) { auto& h = hits[k]; if (onlypen && !(h.gap < 0)) continue; LD m = (LD)penalty * h.gap / (counts ? h.count : 1); auto put = [&](int nd, LD w) { for (int i = 0; i < 3; ++i) { f[3 * nd + i] += w * m * h.nor[i]; s[3 * nd + i] += std::fabs(m); } }; put(nodes[h.node], -1); auto& F_ = fs[h.face]; put(F_.a, bary[k][0]); put(F_.b, bary[k][1]); for (int q : F_.q) put(q, bary[k][2] / 4); } };
      LD XM = 0; for (double v : x) XM = std::max(XM, (LD)std::fabs(v)); LD rel = 256 * EPS * amp * amp * (1 + XM / sc);
      auto judge = [&](const char* path, std::function<double(int)> got, std::vector<LD> const& f, std::vector<LD> const& s) { ev(); LD tot = 0, R[3] = {0, 0, 0}, M[3] = {0, 0, 0}; for (auto v : s) tot += v;
        for (int k = 0; k < 3 * n; ++k) { if (!(std::fabs(got(k) - f[k]) <= rel * s[k])) V(std::string(path) + " force", fmt("node %d component %d: %.17g, want %.17Lg; ", k / 3, k % 3, got(k), f[k]) + what); R[k % 3] += got(k); } for (int k = 0; k < n; ++k) { LD p[3], q[3], o[3]; for (int i = 0; i < 3; ++i) { p[i] = x[3 * k + i] - off[i]; q[i] = got(3 * k + i); } cross(p, q, o); for (int i = 0; i < 3; ++i) M[i] += o[i]; }
        for (int i = 0; i < 3; ++i) { if (!(std::fabs(R[i]) <= rel * tot)) V(std::string(path) + " resultant", fmt("direction %d: %.6Lg of forces %.6Lg; ", i, R[i], tot) + what); if (!(std::fabs(M[i]) <= 4 * rel * tot * (XM + sc * 10))) V(std::string(path) + " moment", fmt("about axis %d: %.6Lg of forces %.6Lg; ", i, M[i], tot) + what); } };
      std::vector<LD> f, s;
      {  // through the manager: what is there is added to
        auto li = std::make_shared<List>(); CM cm(li); cm.SetPenaltyParameter(penalty); if (cm.GetPenaltyForceParam() != penalty) V("penalty", what); std::vector<double> pre(3 * n); double big = 0; for (auto& h : hits) big = std::max(big, std::fabs(penalty * h.gap)); bool zero = r.p(.5); for (auto& v : pre) v = zero ? 0 : big * r.d(-1, 1); std::vector<double> w = pre; nimble_kokkos::DeviceScalarNodeView kv("kv", 3 * n); for (int k = 0; k < 3 * n; ++k) kv(k) = pre[k];
        for (auto& h : hits) { CE nd = dn(h.node), fa = df(h.face); LD b[3]; size_t k = &h - hits.data(); double bc[3] = {(double)bary[k][0], (double)bary[k][1], (double)bary[k][2]}; cm.enforce(nd, fa, h.gap, h.nor, bc, w); cm.enforce(nd, fa, h.gap, h.nor, bc, kv); (void)b; }
        expect(false, false, f, s); auto f0 = f; auto s0 = s; if (zero) { judge("manager", [&](int k) { return w[k]; }, f, s); judge("manager view", [&](int k) { return kv(k); }, f, s); } else { ev(); for (int k = 0; k < 3 * n; ++k) if (!(std::fabs(w[k] - (pre[k] + f0[k])) <= rel * (s0[k] + std::fabs(pre[k]))) || !(std::fabs(kv(k) - (pre[k] + f0[k])) <= rel * (s0[k] + std::fabs(pre[k])))) V("manager adds up", fmt("node %d component %d: %.17g and %.17g, want %.17Lg; ", k / 3, k % 3, w[k], kv(k), pre[k] + f0[k]) + what); }
      }
      {  // through the interface: starts from zero, acts on penetration only, shares among several faces
        List li; li.SetUpPenaltyEnforcement(penalty); li.hits = hits; li.viaStruct = r.p(.3); nimble_kokkos::DeviceScalarNodeView kv("kv", 3 * n); expect(true, true, f, s);
        for (int rep = 0; rep < 2; ++rep) { for (int k = 0; k < 3 * n; ++k) if (rep == 0 || r.p(.5)) kv(k) = r.n() * 1e3; li.ComputeContact(dn, df, kv); if (li.calls != rep + 1 || li.nn != (long)nodes.size() || li.nf != (long)fs.size()) V("interface call", what); judge("interface", [&](int k) { return kv(k); }, f, s); }
        // a second penalty and target take over
        nimble_kokkos::DeviceScalarNodeView k2("k2", 3 * n); double p0 = penalty; penalty *= r.d(.1, 10); li.SetUpPenaltyEnforcement(penalty); std::vector<double> old(3 * n); for (int k = 0; k < 3 * n; ++k) old[k] = kv(k); li.ComputeContact(dn, df, k2); expect(true, true, f, s); judge("interface again", [&](int k) { return k2(k); }, f, s); for (int k = 0; k < 3 * n; ++k) if (kv(k) != old[k]) V("interface", "the former target changed; " + what); penalty = p0;
        for (auto& h : li.hits) h.gap = std::fabs(h.gap); li.ComputeContact(dn, df, kv); ev(); for (int k = 0; k < 3 * n; ++k) if (kv(k) != 0) V("force without penetration", fmt("node %d: %g; ", k / 3, kv(k)) + what);
      }
      {  // entity level: distribution over the nodes of a face
        LD P[3][3]; int fi = r.i(0, (int)fs.size() - 1); tri(fs[fi], P); double fo[3] = {r.n(), r.n(), r.n()}; CE e = df(fi); double bc[3] = {r.d(), r.d(), 0}; bc[2] = 1 - bc[0] - bc[1]; e.SetNodalContactForces(fo, bc); double g[3][3] = {{e.force_1_x_, e.force_1_y_, e.force_1_z_}, {e.force_2_x_, e.force_2_y_, e.force_2_z_}, {e.force_3_x_, e.force_3_y_, e.force_3_z_}}; ev(); for (int q = 0; q < 3; ++q) for (int i = 0; i < 3; ++i) if (g[q][i] != bc[q] * fo[i]) V("face shares", what); CE d = dn(0); d.SetNodalContactForces(fo); if (d.force_1_x_ != -fo[0] || d.force_1_y_ != -fo[1] || d.force_1_z_ != -fo[2]) V("node share", what); bool threw = false; try { e.SetNodalContactForces(fo, nullptr); } catch (std::invalid_argument&) { threw = true; } if (!threw) V("missing coordinates accepted", what);
      }
      { CM cm; for (double bad : {0., -1., -1e9}) { cm.SetPenaltyParameter(bad); bool threw = false; try { cm.force2(1); } catch (std::invalid_argument&) { threw = true; } if (!threw) V("penalty", fmt("%g accepted", bad)); } }
      S("contacts", (long)hits.size()); S("penetrating", pen); if (pen) D(hash(x.data(), 8 * x.size())); if (c < 1) X(what);
    }
    end();
  }
  Kokkos::finalize(); MPI_Finalize(); return 0;
}
