// NimbleSM with a material of the application's own: rate dependent, with memory and (optionally) state variables.
// VERIF_PLAIN: portable model data behind the data manager; the parameter "memory" is N:LABEL, N state variables called LABEL0, LABEL1 ... (at most 19).
#include <mpi.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include "nimble.h"
#include "nimble_boundary_condition_manager.h"
#include "nimble_block_material_interface_factory_base.h"
#include "nimble_cli.h"
#include "nimble_data_manager.h"
#include "nimble_exodus_output.h"
#include "nimble_genesis_mesh.h"
#include "nimble_kokkos_defs.h"
#include "nimble_kokkos_material_factory.h"
#include "nimble_kokkos_model_data.h"
#include "nimble_material.h"
#include "nimble_material_factory.h"
#include "nimble_model_data.h"
#include "nimble_parser.h"
#include "nimble_utils.h"
#include "nimble_vector_communicator.h"
#include "integrators/integrator_base.h"
#include "integrators/explicit_time_integrator.h"
#include "integrators/quasistatic_time_integrator.h"
using namespace nimble;
static char const* PAR[] = {"tau", "tauq", "span", "alpha", "beta", "gamma", "delta", "q0"};
static int const FR[9] = {K_F_XX, K_F_XY, K_F_XZ, K_F_YX, K_F_YY, K_F_YZ, K_F_ZX, K_F_ZY, K_F_ZZ};
static int const SR[6] = {K_S_XX, K_S_YY, K_S_ZZ, K_S_XY, K_S_YZ, K_S_ZX};
static void complain(char const* s, double v) { std::printf("\nVERIF-BAD material %s %.17g\n", s, v); std::fflush(stdout); }
struct Memory : Material {
  double rho, K, G, p[8]; int ns; char lab[64];
  Memory(MaterialParameters const& m) : rho(m.GetParameterValue("density")), K(m.GetParameterValue("bulk_modulus")), G(m.GetParameterValue("shear_modulus"))
  {
    for (int i = 0; i < 8; ++i) p[i] = m.GetParameterValue(PAR[i]);
    ns = 0; lab[0] = 0; if (m.IsStringParameter("memory")) std::sscanf(m.GetStringParameterValue("memory").c_str(), "%d:%60s", &ns, lab);
  }
  int NumStateVariables() const override { return ns; }
  void GetStateVariableLabel(int i, char l[MaterialParameters::MAX_MAT_MODEL_STR_LEN]) const override { if (i < 0 || i >= ns) complain("label index", i); std::snprintf(l, MaterialParameters::MAX_MAT_MODEL_STR_LEN, "%s%d", lab, i); }
  double GetStateVariableInitialValue(int i) const override { if (i < 0 || i >= ns) complain("initial value index", i); return p[7] * (i + 1); }
  double GetDensity() const override { return rho; }
  double GetBulkModulus() const override { return K; }
  double GetShearModulus() const override { return G; }
  // the law, on plain 3x3 arrays
  void law(double tn, double t, double const* Fn, double const* F, double const* Sn, double* S, double const* Qn, double* Q) const
  {
    double dt = t - tn, d[9], r = std::exp(-dt / p[0]), tr; if (!(dt > 0)) complain("time step", dt);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) d[3 * i + j] = .5 * (F[3 * i + j] - Fn[3 * i + j] + F[3 * j + i] - Fn[3 * j + i]);
    tr = d[0] + d[4] + d[8]; int const a[6] = {0, 4, 8, 1, 5, 6};
    for (int k = 0; k < 6; ++k) S[k] = Sn[k] * r + 2 * G * d[a[k]] + (k < 3 ? (K - 2 * G / 3) * tr : 0);
    if (!Q) return;
    Q[0] = Qn[0] * std::exp(-dt / p[1]) + tr;
    for (int i = 0; i < 3; ++i) Q[1 + i] = Qn[1 + i] + F[3 * i + (i + 1) % 3] - Fn[3 * i + (i + 1) % 3];
    for (int k = 0; k < 6; ++k) Q[4 + k] = Qn[4 + k] + d[a[k]];
    for (int k = 0; k < 9; ++k) Q[10 + k] = Qn[10 + k] + F[k] - Fn[k];
    double w = dt / p[2];
    for (int k = 0; k < 6; ++k) { int i = a[k] / 3, j = a[k] % 3; S[k] += w * (k < 3 ? K * p[3] * Q[0] + G * p[4] * Q[1 + k] : 0) + w * G * (p[5] * Q[4 + k] + p[6] * .5 * (Q[10 + 3 * i + j] + Q[10 + 3 * j + i])); }
  }
  void GetStress(int, int n, double tn, double t, double const* Fn, double const* F, double const* Sn, double* S, double const* Qn, double* Q, DataManager&, bool) override
  {
    if (n != 8) complain("points", n);
    for (int q = 0; q < n; ++q) {
      double a[9], b[9], c[6], e[6], x[19] = {}, y[19]; for (int i = 0; i < 9; ++i) { a[i] = Fn[9 * q + FR[i]]; b[i] = F[9 * q + FR[i]]; } for (int i = 0; i < 6; ++i) c[i] = Sn[6 * q + SR[i]];
      if (ns) for (int i = 0; i < ns; ++i) x[i] = Qn[ns * q + i];
      law(tn, t, a, b, c, e, ns ? x : nullptr, ns ? y : nullptr); for (int i = 0; i < 6; ++i) S[6 * q + SR[i]] = e[i]; if (ns) for (int i = 0; i < ns; ++i) Q[ns * q + i] = y[i];
    }
  }
  void GetStress(double tn, double t, nimble_kokkos::DeviceFullTensorIntPtSingleEntryView const& Fn, nimble_kokkos::DeviceFullTensorIntPtSingleEntryView const& F, nimble_kokkos::DeviceSymTensorIntPtSingleEntryView const& Sn, nimble_kokkos::DeviceSymTensorIntPtSingleEntryView S, DeviceElemState const& Qn, DeviceElemState& Q) const override
  {
    double a[9], b[9], c[6], e[6], x[19] = {}, y[19]; for (int i = 0; i < 9; ++i) { a[i] = Fn(FR[i]); b[i] = F(FR[i]); } for (int i = 0; i < 6; ++i) c[i] = Sn(SR[i]);
    if (ns) {
      if (Qn.scalar.size() != 1 || Q.scalar.size() != 1 || Qn.vec3D.size() != 3 || Q.vec3D.size() != 3 || Qn.sym_tensor.size() != 6 || Q.sym_tensor.size() != 6 || Qn.full_tensor.size() != 9 || Q.full_tensor.size() != 9) { complain("state sizes", 0); std::abort(); }
      x[0] = Qn.scalar(0); for (int i = 0; i < 3; ++i) x[1 + i] = Qn.vec3D(i); for (int i = 0; i < 6; ++i) x[4 + i] = Qn.sym_tensor(i); for (int i = 0; i < 9; ++i) x[10 + i] = Qn.full_tensor(i); for (int i = ns; i < 19; ++i) x[i] = 0;
    }
    law(tn, t, a, b, c, e, ns ? x : nullptr, ns ? y : nullptr); for (int i = 0; i < 6; ++i) S(SR[i]) = e[i];
    if (ns) { Q.scalar(0) = y[0]; for (int i = 0; i < 3; ++i) Q.vec3D(i) = y[1 + i]; for (int i = 0; i < 6; ++i) Q.sym_tensor(i) = y[4 + i]; for (int i = 0; i < 9; ++i) Q.full_tensor(i) = y[10 + i]; }
  }
  void GetTangent(int n, double* T) const override
  {
    for (int q = 0; q < n; ++q) for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) T[36 * q + 6 * i + j] = i == j ? (i < 3 ? K + 4 * G / 3 : G) : (i < 3 && j < 3 ? K - 2 * G / 3 : 0);
  }
 protected:
  void GetStress(double, double, Viewify<1, const double>&, Viewify<1, const double>&, Viewify<1, const double>&, Viewify<1>) const override { complain("stress without state", 0); }
};
template <class B> struct Factory : B {
  Factory() { for (auto q : PAR) B::add_valid_double_parameter_name(q); B::add_valid_string_parameter_name("memory"); }
};
struct Plain : Factory<MaterialFactory> {
  void create() override { if (material_params->GetMaterialName() == "memory") material = std::make_shared<Memory>(*material_params); else MaterialFactory::create(); }
};
struct Device : Factory<nimble_kokkos::MaterialFactory> {
  void create() override
  {
    if (material_params->GetMaterialName() != "memory") { nimble_kokkos::MaterialFactory::create(); return; }
    material = std::make_shared<Memory>(*material_params); auto m = static_cast<Memory*>(Kokkos::kokkos_malloc<>("Material", sizeof(Memory))); new (m) Memory(*material_params); material_device = m;
  }
};
struct Open : DataManager { static std::shared_ptr<ModelDataBase>& md(DataManager& d) { return d.*(&Open::model_data_); } };
struct OpenP : Parser { static std::string& fields(Parser& p) { return p.*(&OpenP::output_field_string_); } };
struct A : NimbleApplication {
  std::shared_ptr<MaterialFactoryBase> plain;
  std::unique_ptr<MaterialFactoryBase> CreateMaterialFactory() override
  {
    if (GetParser().TimeIntegrationScheme() == "quasistatic") return std::unique_ptr<MaterialFactoryBase>(new Plain);
    return std::unique_ptr<MaterialFactoryBase>(new Device);
  }
  std::unique_ptr<IntegratorBase> CreateIntegrator(DataManager& d, GenesisMesh& mesh) override
  {
    auto& p = GetParser();
    if (p.TimeIntegrationScheme() == "quasistatic") return std::unique_ptr<IntegratorBase>(new QuasistaticTimeIntegrator(*this, mesh, d));
    if (!getenv("VERIF_PLAIN")) return std::unique_ptr<IntegratorBase>(new ExplicitTimeIntegrator(*this, mesh, d));
    if (getenv("VERIF_FIELDS")) OpenP::fields(p) = getenv("VERIF_FIELDS");
    auto m = std::make_shared<ModelData>(); int n = (int)mesh.GetNumNodes(), dim = mesh.GetDim(); auto& f = d.GetFieldIDs(); f = FieldIds(); m->SetDimension(dim);
    f.lumped_mass = m->AllocateNodeData(SCALAR, "lumped_mass", n);
    f.reference_coordinates = m->AllocateNodeData(VECTOR, "reference_coordinate", n); f.displacement = m->AllocateNodeData(VECTOR, "displacement", n);
    f.velocity = m->AllocateNodeData(VECTOR, "velocity", n); f.acceleration = m->AllocateNodeData(VECTOR, "acceleration", n); f.internal_force = m->AllocateNodeData(VECTOR, "internal_force", n);
    f.external_force = m->AllocateNodeData(VECTOR, "external_force", n); f.contact_force = m->AllocateNodeData(VECTOR, "contact_force", n);
    m->SetReferenceCoordinates(mesh); Open::md(d) = m; plain = std::make_shared<Plain>(); m->InitializeBlocks(d, plain);
    d.InitializeOutput(IOFileName(p.ExodusFileName(), "e", "out", Rank(), NumRanks()));
    return std::unique_ptr<IntegratorBase>(new ExplicitTimeIntegrator(*this, mesh, d));
  }
};
int main(int argc, char** argv) { A a; return a.Run(argc, argv); }
