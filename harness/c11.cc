// C11: what a deck says is what the parser and material factory hold, however the deck is laid out.
#include "h.h"
#include "nimble_contact_entity.h"
#include "nimble_material.h"
#include "nimble_material_factory.h"
#include "nimble_kokkos_material_factory.h"
#include "nimble_parser.h"
#include "nimble_parser_util.h"
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <Kokkos_Core.hpp>
using namespace H;
namespace nimble { void ParseContactCommand(std::string const&, std::vector<std::string>&, std::vector<std::string>&, double&); }
struct P : nimble::Parser {
  std::string backend() const { return contact_backend_string_; }
  size_t nblocks() const { return model_blocks_.size(); }
  size_t nmats() const { return material_strings_.size(); }
  bool ents() const { return visualize_contact_entities_; }
  bool boxes() const { return visualize_contact_bounding_boxes_; }
};
struct Line { std::string key; std::vector<std::string> tok; int seq; };  // seq: lines of one seq keep their order
struct Mat { std::string key, model; double k, g, rho; };
struct Model {
  std::string mesh = "none", out = "none", scheme = "explicit", contact, backend, visfile = "none";
  bool two = false, timing = false, ve = false, vb = false;
  double tol = 1e-6, t0 = 0, t1 = 0; int maxit = 200, steps = 0, freq = 1;
  std::vector<std::string> pri, sec; double pen = 0;
  std::vector<Mat> mats; std::map<int, int> blocks; std::vector<std::vector<std::string>> bcs; std::vector<std::string> fields;
  std::vector<Line> lines;
};
static std::string num(Rng& r, double v)
{
  switch (r.i(0, 3)) {
    case 0: return fmt("%.17g", v);
    case 1: return fmt("%.17e", v);
    case 2: return fmt("%.17E", v);
    default: return fmt("%+.17g", v);
  }
}
static std::string word(Rng& r, int lo, int hi) { const char* c = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_-"; std::string s; int n = r.i(lo, hi); s += c[r.i(0, 31)]; for (int i = 1; i < n; ++i) s += c[r.i(0, 43)]; return s; }
static std::string fname(Rng& r, const char* e) { std::string s; if (r.p(.2)) s = "/" + word(r, 1, 9) + "/"; else if (r.p(.2)) s = "../"; s += word(r, 1, r.p(.05) ? 300 : 20); if (r.p(.1)) s += ":" + word(r, 1, 3); if (r.p(.15)) s += "." + word(r, 1, 4); return s + e; }
static std::string onoff(Rng& r, bool b) { static const char* t[] = {"true", "TRUE", "True", "yes", "YES", "Yes", "on", "ON", "oN"}; static const char* f[] = {"false", "FALSE", "False", "no", "NO", "No", "off", "OFF", "oFf"}; return (b ? t : f)[r.i(0, 8)]; }
static double val(Rng& r) { double v = r.logu(1e-12, 1e13); return r.p(.2) ? std::floor(v) : v; }
static Model gen(Rng& r)
{
  Model m; auto add = [&](std::string k, std::vector<std::string> t, int seq = -1) { m.lines.push_back({k, t, seq}); };
  double q = r.d(.1, 1);
  if (r.p(q)) { m.mesh = fname(r, ".g"); add("genesis input file", {m.mesh}); }
  if (r.p(q)) { m.out = fname(r, ".e"); add("exodus output file", {m.out}); }
  if (r.p(q)) { m.scheme = r.p(.5) ? "explicit" : "quasistatic"; add("time integration scheme", {m.scheme}); }
  if (r.p(q)) { m.two = r.p(.7); add("use two level mesh decomposition", {onoff(r, m.two)}); }
  if (r.p(q)) { m.timing = r.p(.7); add("write timing data file", {onoff(r, m.timing)}); }
  if (r.p(q)) { m.tol = val(r); add("nonlinear solver relative tolerance", {num(r, m.tol)}); }
  if (r.p(q)) { m.maxit = r.i(0, 1000000); add("nonlinear solver maximum iterations", {fmt("%d", m.maxit)}); }
  if (r.p(q)) { m.t0 = r.d(-2, 2); add("initial time", {num(r, m.t0)}); }
  if (r.p(q)) { m.t1 = val(r); add("final time", {num(r, m.t1)}); }
  if (r.p(q)) { m.steps = r.i(1, 2000000000); add("number of load steps", {fmt("%d", m.steps)}); }
  if (r.p(q)) { m.freq = r.i(1, 100000); add("output frequency", {fmt("%d", m.freq)}); }
  if (r.p(q)) {
    std::vector<std::string> t = {r.p(.7) ? "primary_blocks" : "master_blocks"};
    for (int i = r.i(1, 4); i > 0; --i) { m.pri.push_back("block_" + fmt("%d", r.i(1, 99))); t.push_back(m.pri.back()); }
    t.push_back(r.p(.7) ? "secondary_blocks" : "slave_blocks");
    for (int i = r.i(1, 4); i > 0; --i) { m.sec.push_back(r.p(.5) ? word(r, 1, 8) : "block_" + fmt("%d", r.i(1, 99))); t.push_back(m.sec.back()); }
    m.pen = val(r); t.push_back("penalty_parameter"); t.push_back(num(r, m.pen)); add("contact", t); m.contact = "y";
  }
  if (r.p(q * .5)) { m.backend = word(r, 1, 10); add("contact backend", {m.backend}); }
  if (r.p(q)) {
    m.ve = r.p(.5); m.vb = r.p(.5); m.visfile = fname(r, ".e");
    add("contact visualization", {"visualize_contact_entities", m.ve ? "on" : "off", "visualize_bounding_boxes", m.vb ? "on" : "off", "file_name", m.visfile});
  }
  int nm = r.i(0, 5), nb = nm ? r.i(0, 8) : 0; std::set<std::string> used;
  for (int i = 0; i < nm; ++i) {
    Mat a; do a.key = word(r, 1, r.p(.1) ? 60 : 12); while (!used.insert(a.key).second);
    a.model = r.p(.5) ? "elastic" : "neohookean"; a.k = val(r); a.g = val(r); a.rho = val(r);
    std::vector<std::vector<std::string>> ps = {{"bulk_modulus", num(r, a.k)}, {"shear_modulus", num(r, a.g)}, {"density", num(r, a.rho)}}; r.shuffle(ps);
    std::vector<std::string> t = {a.key, a.model}; for (auto& p : ps) t.insert(t.end(), p.begin(), p.end());
    m.mats.push_back(a); add("material parameters", t);
  }
  for (int i = 0; i < nb; ++i) {
    int id = r.p(.5) ? r.i(1, 12) : r.i(1, 2000000000); if (m.blocks.count(id)) continue; int k = r.i(0, nm - 1); m.blocks[id] = k;
    add("element block", {(r.p(.8) ? "block_" : word(r, 1, 5) + "_") + fmt("%d", id), m.mats[k].key});
  }
  static const std::vector<std::string> ty = {"initial_velocity", "prescribed_velocity", "prescribed_displacement", "prescribed_traction"};
  for (int i = r.i(0, 8); i > 0; --i) {
    std::vector<std::string> t = {r.pick(ty), word(r, 1, 12), std::string(1, "xyz"[r.i(0, 2)])};
    if (r.p(.5)) t.push_back(num(r, r.d(-5, 5)));
    else { static const char* e[] = {"\"sin(t)\"", "\"x + 2*y^2 : 3\"", "\"t < 1 ? 0.5*t : -2\"", "\"exp(-t)*(x+y)*  (z-1)\""}; t.push_back(e[r.i(0, 3)]); }
    if (!m.bcs.empty() && r.p(.25)) t = r.pick(m.bcs);
    m.bcs.push_back(t); add("boundary condition", t, 1);
  }
  if (r.p(.8)) {
    static const std::vector<std::string> f = {"displacement", "velocity", "acceleration", "internal_force", "stress", "deformation_gradient", "volume", "lumped_mass", "ipt01_stress", "ipt08_deformation_gradient"};
    for (int i = r.i(1, r.p(.1) ? 60 : 8); i > 0; --i) m.fields.push_back(r.pick(f));
    add("output fields", m.fields);
  }
  return m;
}
static std::string blanks(Rng& r, int lo, int style) { int n = style == 0 ? lo : r.i(lo, style == 3 ? 40 : 6); std::string s; for (int i = 0; i < n; ++i) s += style >= 2 && r.p(.3) ? '\t' : ' '; return s; }
static std::string comment(Rng& r) { static const char* c[] = {"#", "# genesis input file: wrong.g", "#output frequency: 99", "# ## : :", "#: x", "# \"quoted\" boundary condition: initial_velocity n x 1"}; return c[r.i(0, 5)] + (r.p(.1) ? std::string(r.i(900, 3000), 'c') : std::string()); }
static std::string layout(Rng& r, Model const& m, int style)
{
  // order: random permutation keeping each sequence in order
  std::vector<size_t> idx(m.lines.size()); for (size_t i = 0; i < idx.size(); ++i) idx[i] = i;
  if (style) {
    r.shuffle(idx); std::vector<size_t> pos, ids;
    for (size_t k = 0; k < idx.size(); ++k) if (m.lines[idx[k]].seq == 1) { pos.push_back(k); ids.push_back(idx[k]); }
    std::sort(ids.begin(), ids.end()); for (size_t k = 0; k < pos.size(); ++k) idx[pos[k]] = ids[k];
  }
  std::string s; const char* nl = style == 3 && r.p(.3) ? "\r\n" : "\n";
  auto fill = [&] { while (style && r.p(.35)) { s += blanks(r, 0, style); if (r.p(.6)) s += comment(r); s += nl; } };
  fill();
  for (size_t k = 0; k < idx.size(); ++k) {
    auto& l = m.lines[idx[k]];
    s += blanks(r, 0, style) + l.key + blanks(r, 0, style) + ":" + blanks(r, style ? 0 : 1, style);
    for (size_t j = 0; j < l.tok.size(); ++j) { if (j) s += blanks(r, 1, style); s += l.tok[j]; }
    s += blanks(r, 0, style); if (style && r.p(.2)) s += comment(r);
    if (k + 1 < idx.size() || r.p(.7)) s += nl;
    fill();
  }
  return s;
}
static std::string quote(std::string s) { return s.size() > 700 ? s.substr(0, 700) + "..." : s; }
static std::vector<std::string> split(std::string const& s)
{
  std::vector<std::string> o; std::string c; bool q = false;
  for (char ch : s) { if (ch == '"') q = !q; if (!q && (ch == ' ' || ch == '\t')) { if (!c.empty()) o.push_back(c); c.clear(); } else c += ch; }
  if (!c.empty()) o.push_back(c);
  return o;
}
int main(int argc, char** argv)
{
  Kokkos::initialize(argc, argv);
  {
    uint64_t seed = atoll(argv[1]), shard = atoll(argv[2]); long N = atol(argv[3]);
    std::string fn = fmt("deck.%ld.in", (long)getpid());
    for (long c = 0; c < N; ++c) {
      Rng r(seed * 1000003 + shard, c); Model m = gen(r);
      for (int style = 0; style < 4; ++style) {
        std::string text = layout(r, m, style); { std::ofstream f(fn, std::ios::binary); f << text; }
        note(fmt("shard %llu case %ld style %d", (unsigned long long)shard, c, style)); ev();
        D(hash(text)); if (c == 0 && style == 2) X(quote(text));
        P p; p.SetInputFilename(fn);
        try { p.Initialize(); } catch (std::exception& e) { V(style ? "layout-refused" : "refused", std::string(e.what()) + " for deck: " + quote(text)); continue; }
        S("decks read"); S("lines read", m.lines.size());
        auto bad = [&](std::string what, std::string got, std::string want) { V(what, what + " is '" + got + "', the deck says '" + want + "' (layout " + fmt("%d", style) + "): " + quote(text)); };
        auto es = [&](const char* w, std::string a, std::string b) { S("settings compared"); if (a != b) bad(w, a, b); };
        auto ed = [&](const char* w, double a, double b) { S("settings compared"); if (a != b) bad(w, fmt("%.17g", a), fmt("%.17g", b)); };
        es("genesis input file", p.GenesisFileName(), m.mesh); es("exodus output file", p.ExodusFileName(), m.out); es("time integration scheme", p.TimeIntegrationScheme(), m.scheme);
        ed("two level", p.UseTwoLevelMeshDecomposition(), m.two); ed("timing file", p.WriteTimingDataFile(), m.timing);
        ed("relative tolerance", p.NonlinearSolverRelativeTolerance(), m.tol); ed("maximum iterations", p.NonlinearSolverMaxIterations(), m.maxit);
        ed("initial time", p.InitialTime(), m.t0); ed("final time", p.FinalTime(), m.t1); ed("load steps", p.NumLoadSteps(), m.steps); ed("output frequency", p.OutputFrequency(), m.freq);
        ed("has contact", p.HasContact(), !m.contact.empty()); es("contact backend", p.backend(), m.backend);
        ed("visualize entities", p.ents(), m.ve); ed("visualize boxes", p.boxes(), m.vb); ed("contact visualization", p.ContactVisualization(), m.ve || m.vb); es("visualization file", p.ContactVisualizationFileName(), m.visfile);
        ed("tpetra", p.UseTpetra(), 0); ed("vt", p.UseVT(), 0); ed("uq", p.UseUQ(), 0);
        if (!m.contact.empty()) {
          std::vector<std::string> a, b; double pen = -1;
          try { nimble::ParseContactCommand(p.ContactString(), a, b, pen); } catch (std::exception& e) { V("contact-refused", std::string(e.what()) + ": " + quote(text)); }
          ed("penalty", pen, m.pen); S("contact commands"); if (a != m.pri) bad("primary blocks", fmt("%zu names", a.size()), fmt("%zu names", m.pri.size())); if (b != m.sec) bad("secondary blocks", fmt("%zu names", b.size()), fmt("%zu names", m.sec.size()));
        }
        ed("number of blocks", p.nblocks(), m.blocks.size()); ed("number of materials", p.nmats(), m.mats.size());
        for (auto& b : m.blocks) {
          Mat const& a = m.mats[b.second]; std::string ms;
          try { ms = p.GetModelMaterialParameters(b.first); } catch (std::exception& e) { V("block-material", fmt("block %d: no material (%s): ", b.first, e.what()) + quote(text)); continue; }
          S("block materials"); std::vector<int> same; for (auto& o : m.blocks) if (m.mats[o.second].key == a.key) same.push_back(o.first);
          int bid = p.GetBlockIdFromMaterial(a.key); if (std::find(same.begin(), same.end(), bid) == same.end()) bad("block of material", fmt("%d", bid), fmt("%d", b.first));
          try {
            nimble::MaterialFactory f; f.parse_and_create(ms); auto mt = f.get_material();
            ed("bulk modulus", mt->GetBulkModulus(), a.k); ed("shear modulus", mt->GetShearModulus(), a.g); ed("density", mt->GetDensity(), a.rho);
            es("material model", dynamic_cast<nimble::ElasticMaterial*>(mt.get()) ? "elastic" : dynamic_cast<nimble::NeohookeanMaterial*>(mt.get()) ? "neohookean" : "?", a.model);
            if (c % 8 == 0) {
              nimble_kokkos::MaterialFactory g; g.parse_and_create(ms); auto h = g.get_material_host(); auto d = g.get_material_device();
              ed("bulk modulus (host)", h->GetBulkModulus(), a.k); ed("bulk modulus (device)", d->GetBulkModulus(), a.k); ed("shear modulus (device)", d->GetShearModulus(), a.g); ed("density (device)", d->GetDensity(), a.rho);
              es("device material model", dynamic_cast<nimble::ElasticMaterial*>(d) ? "elastic" : "neohookean", a.model); Kokkos::kokkos_free(d);
            }
            auto mp = f.parse_material_params_string(ms);
            ed("parameter map", mp.size(), 3); ed("map bulk", mp["bulk_modulus"], a.k); ed("map shear", mp["shear_modulus"], a.g); ed("map density", mp["density"], a.rho);
          } catch (std::exception& e) { V("material-refused", std::string(e.what()) + ": " + quote(text)); }
        }
        { int id = r.i(1, 2000000000); if (!m.blocks.count(id)) es("material of a block the deck does not name", p.GetModelMaterialParameters(id), "none"); }
        auto& bs = p.GetBoundaryConditionStrings(); ed("number of boundary conditions", bs.size(), m.bcs.size());
        for (size_t i = 0; i < bs.size() && i < m.bcs.size(); ++i) { S("boundary conditions"); if (split(bs[i]) != m.bcs[i]) { std::string w; for (auto& t : m.bcs[i]) w += t + " "; bad("boundary condition", bs[i], w); } }
        if (m.fields.empty()) { bool th = false; try { p.GetOutputFieldString(); } catch (std::exception&) { th = true; } ed("missing output fields reported", th, true); }
        else if (split(p.GetOutputFieldString()) != m.fields) { std::string w; for (auto& t : m.fields) w += t + " "; bad("output fields", p.GetOutputFieldString(), w); }
      }
    }
    unlink(fn.c_str());
  }
  Kokkos::finalize();
  return end();
}
