// NimbleSM with a switch for the model data behind the data manager (VERIF_PLAIN) and a probe that
// evaluates it on arbitrary displacement fields (VERIF_PROBE="seed steps amplitude").
#include <mpi.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <limits>
#include "nimble.h"
#include "nimble_block_material_interface_factory_base.h"
#include "nimble_boundary_condition_manager.h"
#include "nimble_cli.h"
#include "nimble_data_manager.h"
#include "nimble_exodus_output.h"
#include "nimble_genesis_mesh.h"
#include "nimble_kokkos_model_data.h"
#include "nimble_material_factory.h"
#include "nimble_model_data.h"
#include "nimble_parser.h"
#include "nimble_utils.h"
#include "nimble_vector_communicator.h"
#include "integrators/integrator_base.h"
#include "integrators/explicit_time_integrator.h"
using namespace nimble;
struct Open : DataManager {
  static std::shared_ptr<ModelDataBase>& md(DataManager& d) { return d.*(&Open::model_data_); }
};
struct OpenP : Parser { static std::string& fields(Parser& p) { return p.*(&OpenP::output_field_string_); } };
static void bad(char const* what, std::string const& s) { std::cout << "\nVERIF-BAD " << what << " " << s << std::endl; }
static double rnd(unsigned long long s, unsigned long long a, unsigned long long b, unsigned long long c)
{ unsigned long long x = s * 0x9E3779B97F4A7C15ull + a * 0xBF58476D1CE4E5B9ull + b * 0x94D049BB133111EBull + c * 0xD6E8FEB86659FD93ull; for (int i = 0; i < 3; ++i) { x ^= x >> 30; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 27; x *= 0x94D049BB133111EBull; x ^= x >> 31; } return (x >> 11) * (1.0 / 9007199254740992.0) * 2 - 1; }
struct Probe : IntegratorBase {
  using IntegratorBase::IntegratorBase;
  template <class V, class W> void same(std::string const& nm, V a, W const* b, int n, int dim)
  { if (a.size()[0] != n || (dim > 1 && a.size().back() != dim)) bad("view", nm + " size"); if (n && a.data() != b) bad("view", nm + " address"); }
  void views(int n, int step)
  {
    auto& d = GetDataManager(); auto m = d.GetModelData(); auto& f = d.GetFieldIDs(); auto kk = std::dynamic_pointer_cast<nimble_kokkos::ModelData>(m); auto pp = std::dynamic_pointer_cast<ModelData>(m);
    struct { char const* n; int id; } V[] = {{"reference_coordinate", f.reference_coordinates}, {"displacement", f.displacement}, {"velocity", f.velocity}, {"acceleration", f.acceleration}, {"internal_force", f.internal_force}, {"external_force", f.external_force}, {"contact_force", f.contact_force}};
    for (auto& v : V) {
      if (m->GetFieldId(v.n) != v.id || m->GetFieldIdChecked(v.n) != v.id) bad("view", std::string(v.n) + " id");
      auto a = m->GetVectorNodeData(v.n), b = m->GetVectorNodeData(v.id);
      same(v.n, b, a.data(), n, 3);
      if (pp) { same(v.n, a, pp->GetNodeData(v.id), n, 3); if (pp->GetField(v.id).label_ != v.n) bad("view", std::string(v.n) + " field"); }
      if (kk && n) { auto h = kk->GetHostVectorNodeData(v.id); auto dv = kk->GetDeviceVectorNodeData(v.id); if ((int)h.extent(0) != n) bad("view", std::string(v.n) + " extent"); int i = step % n, j = step % 3; if (&h(i, j) != &a(i, j)) bad("view", std::string(v.n) + " host entry"); if (&dv(i, j) != &a(i, j)) bad("view", std::string(v.n) + " device entry"); }
      for (int i = 0; i < n; ++i) for (int j = 0; j < 3; ++j) { double keep = a(i, j); a(i, j) = 17. + i + .25 * j; if (b(i, j) != 17. + i + .25 * j) bad("view", std::string(v.n) + " shows another value"); b(i, j) = keep; }
    }
    auto a = m->GetScalarNodeData("lumped_mass"), b = m->GetScalarNodeData(f.lumped_mass); same("lumped_mass", a, b.data(), n, 1);
    if (kk && n) { auto h = kk->GetHostScalarNodeData(f.lumped_mass); if (&h(n - 1) != &a(n - 1)) bad("view", "lumped_mass host entry"); }
    bool thrown = false;
    try { if (m->GetFieldId("no_such_field") < 0) thrown = true; } catch (std::exception const&) { thrown = true; } if (!thrown) bad("view", "id of an unknown field");
  }
  int Integrate() override
  {
    unsigned long long seed; int steps; double amp; sscanf(getenv("VERIF_PROBE"), "%llu %d %lf", &seed, &steps, &amp);
    auto& d = GetDataManager(); auto& md = *d.GetModelData(); auto const& mesh = Mesh(); int n = (int)mesh.GetNumNodes(); int const* g = mesh.GetNodeGlobalIds(); if (d.GetModelData()->GetDimension() != 3) bad("view", "dimension");
    auto u = md.GetVectorNodeData("displacement"), v = md.GetVectorNodeData("velocity"), f = md.GetVectorNodeData("internal_force"), e = md.GetVectorNodeData("external_force"); auto X = md.GetVectorNodeData("reference_coordinate");
    double T = 0; views(n, 0);
    for (int s = 0; s < steps; ++s) {
      for (int i = 0; i < n; ++i) for (int k = 0; k < 3; ++k) { u(i, k) = s ? amp * rnd(seed, g[i] + 1, k + 1, s) : 0; v(i, k) = rnd(seed, g[i] + 1, k + 5, s); f(i, k) = 1e30; if (X(i, k) != (k == 0 ? mesh.GetCoordinatesX() : k == 1 ? mesh.GetCoordinatesY() : mesh.GetCoordinatesZ())[i]) bad("view", "reference coordinates"); }
      md.UpdateWithNewVelocity(d, .5); md.UpdateWithNewDisplacement(d, 1);
      md.ComputeLumpedMass(d); double ct = md.GetCriticalTimeStep(); MPI_Allreduce(MPI_IN_PLACE, &ct, 1, MPI_DOUBLE, MPI_MIN, MPI_COMM_WORLD);
      int times = s % 3 == 2 ? 2 : 1;
      for (int q = 0; q < times; ++q) { md.ComputeExternalForce(d, T, T + 1, true); md.ComputeInternalForce(d, T, T + 1, true, u, f); }
      for (int i = 0; i < n; ++i) for (int k = 0; k < 3; ++k) if (e(i, k) != 0) { bad("external force", "external force not zero"); i = n; break; }
      if (App().Rank() == 0) printf("\nVERIF-DT %d %.17g\n", s, ct), fflush(stdout);
      T += 1; d.WriteOutput(T); md.UpdateStates(d); views(n, s);
    }
    return 0;
  }
};
struct A : NimbleApplication {
  std::shared_ptr<MaterialFactoryBase> plain;
  std::unique_ptr<IntegratorBase> CreateIntegrator(DataManager& d, GenesisMesh& mesh) override
  {
    auto& p = GetParser();
    if (getenv("VERIF_PLAIN")) {
      if (getenv("VERIF_FIELDS")) OpenP::fields(p) = getenv("VERIF_FIELDS");
      auto m = std::make_shared<ModelData>(); int n = (int)mesh.GetNumNodes(), dim = mesh.GetDim(); auto& f = d.GetFieldIDs(); f = FieldIds(); m->SetDimension(dim);
      f.lumped_mass = m->AllocateNodeData(SCALAR, "lumped_mass", n);
      f.reference_coordinates = m->AllocateNodeData(VECTOR, "reference_coordinate", n); f.displacement = m->AllocateNodeData(VECTOR, "displacement", n);
      f.velocity = m->AllocateNodeData(VECTOR, "velocity", n); f.acceleration = m->AllocateNodeData(VECTOR, "acceleration", n); f.internal_force = m->AllocateNodeData(VECTOR, "internal_force", n);
      f.external_force = m->AllocateNodeData(VECTOR, "external_force", n); f.contact_force = m->AllocateNodeData(VECTOR, "contact_force", n);
      m->SetReferenceCoordinates(mesh); Open::md(d) = m; plain = std::make_shared<MaterialFactory>(); m->InitializeBlocks(d, plain);
      d.InitializeOutput(IOFileName(p.ExodusFileName(), "e", "out", Rank(), NumRanks()));
    }
    if (bool(getenv("VERIF_PLAIN")) != bool(std::dynamic_pointer_cast<ModelData>(d.GetModelData()))) bad("switch", "the model data is not the one asked for");
    if (getenv("VERIF_PROBE")) return std::unique_ptr<IntegratorBase>(new Probe(*this, mesh, d));
    return std::unique_ptr<IntegratorBase>(new ExplicitTimeIntegrator(*this, mesh, d));
  }
};
int main(int argc, char** argv) { A a; return a.Run(argc, argv); }
