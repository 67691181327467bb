// NimbleSM with a brute-force contact search in place of the empty default one.
#include <cstdlib>
#include <iostream>
#include "nimble.h"
#include "nimble_contact_interface.h"
#include "nimble_contact_manager.h"
#include "nimble_block_material_interface_factory_base.h"
#include "nimble_cli.h"
#include "nimble_material_factory.h"
#include "nimble_parser.h"
#include "integrators/integrator_base.h"
struct Brute : nimble::ContactInterface {
  double depth = atof(getenv("VERIF_DEPTH") ? getenv("VERIF_DEPTH") : "0"); long acts = 0;
  ~Brute() { if (getenv("VERIF_DEPTH")) std::cout << "\nVERIF-CONTACTS " << acts << std::endl; }
  void DoSearchAndEnforcement(nimble_kokkos::DeviceContactEntityArrayView nodes, nimble_kokkos::DeviceContactEntityArrayView faces, nimble::KokkosPenaltyContactEnforcement) override
  {
    for (size_t i = 0; i < nodes.extent(0); ++i) nodes(i).set_contact_status(false);
    for (size_t j = 0; j < faces.extent(0); ++j) faces(j).set_contact_status(false);
    struct Hit { size_t f; double gap, n[3], p[3]; };
    for (size_t i = 0; i < nodes.extent(0); ++i) {
      auto& nd = nodes(i); std::vector<Hit> hit; double p[3] = {nd.coord_1_x_, nd.coord_1_y_, nd.coord_1_z_};
      for (size_t j = 0; j < faces.extent(0); ++j) {
        auto& f = faces(j); int id = nd.node_id_for_node_1_; if (id == f.node_id_for_node_1_ || id == f.node_id_for_node_2_ || id == f.node_id_1_for_fictitious_node_ || id == f.node_id_2_for_fictitious_node_ || id == f.node_id_3_for_fictitious_node_ || id == f.node_id_4_for_fictitious_node_) continue;
        double a[3] = {f.coord_1_x_, f.coord_1_y_, f.coord_1_z_}, b[3] = {f.coord_2_x_, f.coord_2_y_, f.coord_2_z_}, c[3] = {f.coord_3_x_, f.coord_3_y_, f.coord_3_z_}, u[3], v[3], w[3]; for (int k = 0; k < 3; ++k) { u[k] = b[k] - a[k]; v[k] = c[k] - a[k]; w[k] = p[k] - a[k]; }
        auto cr = [](double const* x, double const* y, double* o) { for (int k = 0; k < 3; ++k) o[k] = x[(k + 1) % 3] * y[(k + 2) % 3] - x[(k + 2) % 3] * y[(k + 1) % 3]; }; auto dt = [](double const* x, double const* y) { return x[0] * y[0] + x[1] * y[1] + x[2] * y[2]; };
        double n[3], q[3]; cr(u, v, n); double n2 = dt(n, n), l = std::sqrt(n2); cr(u, w, q); double g3 = dt(q, n) / n2; cr(w, v, q); double g2 = dt(q, n) / n2, g1 = 1 - g2 - g3; if (g1 < 0 || g2 < 0 || g3 < 0) continue; double gap = dt(w, n) / l; if (!(gap < 0) || gap < -depth) continue;
        Hit h; h.f = j; h.gap = gap; for (int k = 0; k < 3; ++k) { h.n[k] = n[k] / l; h.p[k] = p[k] - gap * h.n[k]; } hit.push_back(h);
      }
      for (auto& h : hit) { EnforceNodeFaceInteraction(nd, faces(h.f), (int)hit.size(), h.gap, h.n, h.p); ++acts; nd.set_contact_status(true); faces(h.f).set_contact_status(true); }
    }
  }
};
struct App : nimble::NimbleApplication { std::unique_ptr<nimble::ContactInterface> CreateContactInterface() override { return std::unique_ptr<nimble::ContactInterface>(new Brute); } };
int main(int argc, char** argv) { App app; return app.Run(argc, argv); }
