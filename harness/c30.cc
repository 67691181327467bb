// C30: labels of fields and components, and the field registries of both model-data implementations.
#include "h.h"
#include <memory>
#include <stdexcept>
#include <mpi.h>
#include <Kokkos_Core.hpp>
#include "nimble_data_utils.h"
#include "nimble_kokkos_model_data.h"
#include "nimble_model_data.h"
#include "nimble_utils.h"
using namespace H;
using nimble::Length;
typedef std::vector<std::string> VS;
static bool same(double a, double b) { return memcmp(&a, &b, 8) == 0; }
// what the labels and the storage order are, from nimble_utils.h (K_S_XX ...) for three dimensions
static VS sfx(Length l, int dim)
{
  VS f3(9), s3(6);
  f3[K_F_XX] = "xx"; f3[K_F_YY] = "yy"; f3[K_F_ZZ] = "zz"; f3[K_F_XY] = "xy"; f3[K_F_YZ] = "yz"; f3[K_F_ZX] = "zx"; f3[K_F_YX] = "yx"; f3[K_F_ZY] = "zy"; f3[K_F_XZ] = "xz";
  s3[K_S_XX] = "xx"; s3[K_S_YY] = "yy"; s3[K_S_ZZ] = "zz"; s3[K_S_XY] = "xy"; s3[K_S_YZ] = "yz"; s3[K_S_ZX] = "zx";
  switch (l) {
    case nimble::SCALAR: return {""};
    case nimble::VECTOR: return dim == 2 ? VS{"x", "y"} : VS{"x", "y", "z"};
    case nimble::SYMMETRIC_TENSOR: return dim == 2 ? VS{"xx", "yy", "xy"} : s3;
    case nimble::FULL_TENSOR: return dim == 2 ? VS{"xx", "yy", "xy", "yx"} : f3;
    default: { VS v; for (int k = 1; k <= (int)l; ++k) v.push_back(std::to_string(k)); return v; }
  }
}
static VS expect(std::string const& b, Length l, int dim) { VS v; for (auto& s : sfx(l, dim)) v.push_back(s.empty() ? b : b + "_" + s); return v; }
static std::string join(VS const& v) { std::string s; for (auto& x : v) s += x + " "; return s; }
static std::vector<Length> all() { std::vector<Length> v; for (int k = 0; k <= (int)nimble::FULL_TENSOR; ++k) v.push_back((Length)k); return v; }
static bool prefixed(std::string const& s) { if (s.compare(0, 3, "ipt")) return false; size_t k = 3; while (k < s.size() && isdigit((unsigned char)s[k])) ++k; return k > 3 && k < s.size() && s[k] == '_'; }
static std::string word(Rng& r)
{
  static const char* C = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789__";
  static const VS fixed = {"stress", "deformation_gradient", "displacement", "volume", "ipt", "iptable", "ipt_stress", "ipt5", "ipts01_a", "x_ipt03_y", "a", "_", "ipt07x", "zipt01_q", "ip", "i", "state_3", "x", "xx"};
  if (r.p(.25)) return r.pick(fixed);
  std::string s; int n = r.p(.05) ? r.i(30, 200) : r.i(1, 12); for (int k = 0; k < n; ++k) s += C[r.i(0, 63)];
  return r.p(.15) ? "ipt" + s : s;
}
template <class F> static std::string thrown(F f) { try { f(); return ""; } catch (std::exception const& e) { return e.what(); } }
static void labels(Rng& r)
{
  int dim = r.i(2, 3); std::string b = word(r); Length l = r.pick(all()); note("labels of " + b);
  VS want = expect(b, l, dim), got = nimble::GetComponentLabels(b, l, dim); int n = nimble::LengthToInt(l, dim); ev(3); S("component label lists");
  std::set<std::string> u(got.begin(), got.end());
  if (u.size() != got.size()) V("labels not distinct", fmt("dimension %d length %d: ", dim, (int)l) + join(got));
  if ((int)got.size() != n || n != (int)want.size()) V("label count", fmt("dimension %d length %d: %zu labels, LengthToInt %d, components %zu", dim, (int)l, got.size(), n, want.size()));
  else if (got != want) V("label order", fmt("dimension %d length %d: got ", dim, (int)l) + join(got) + "instead of " + join(want));
  D(hash(b) * 31 + (int)l * 2 + dim);
  for (int t = 0; t < 3; ++t) {
    int ipt = r.p(.2) ? r.i(0, 1) : r.p(.2) ? r.i(9, 11) : r.p(.1) ? r.i(100, 4000) : r.i(1, 27); char p[40]; snprintf(p, sizeof p, "ipt%02d_", ipt);
    std::string a = nimble::AddIntegrationPointPrefix(b, ipt); ev(5); S("integration-point labels");
    if (a != p + b) V("prefix", "point " + std::to_string(ipt) + " of " + b + " gives " + a);
    std::string rm; auto ex = thrown([&] { rm = nimble::RemoveIntegrationPointPrefix(a); });
    if (!ex.empty() || rm != b) V("prefix removal", a + " gives " + rm + ex);
    if (!nimble::HasIntegrationPointPrefix(a)) V("prefix recognition", a + " has a prefix");
    if (nimble::LabelToIntegrationPointNumber(a) != ipt) V("integration point number", a + fmt(" gives %d", nimble::LabelToIntegrationPointNumber(a)));
    for (size_t k = 0; k < want.size(); ++k) {
      std::string c; ex = thrown([&] { c = nimble::GetComponentLabel(b, l, dim, (int)k, ipt); }); ev();
      std::string w = p + want[k]; if (!ex.empty() || c != w) { V("single component label", fmt("component %zu of length %d dimension %d: ", k, (int)l, dim) + c + ex + " instead of " + w); continue; }
      if (nimble::RemoveIntegrationPointPrefix(c) != want[k] || nimble::LabelToIntegrationPointNumber(c) != ipt) V("component of an integration point", c);
    }
  }
  if (!prefixed(b)) {
    ev(2); S("labels without prefix"); std::string rm; bool h = true; auto ex = thrown([&] { rm = nimble::RemoveIntegrationPointPrefix(b); h = nimble::HasIntegrationPointPrefix(b); });
    if (!ex.empty() || rm != b || h) V("label without prefix", b + " is taken for " + rm + ex);
  }
  for (int bad : {-1, 0, 1, 4}) { if (thrown([&] { nimble::LengthToInt(l, bad); }).empty()) V("bad dimension accepted", std::to_string(bad)); if (thrown([&] { nimble::LengthToInt(nimble::UNDEFINED_LENGTH, dim); }).empty()) V("undefined length accepted", std::to_string(dim)); }
  // lengths of labels
  std::map<int, nimble::Field> m; std::map<std::string, Length> model; int nf = r.i(0, 8);
  for (int k = 0; k < nf; ++k) { std::string w = word(r); if (prefixed(w)) continue; Length q = r.pick(all()); if (model.count(w)) continue; model[w] = q; int np = r.p(.5) ? 1 : r.i(1, 8); for (int i = 1; i <= np; ++i) { nimble::Field f; f.id_ = (int)m.size(); f.label_ = r.p(.5) || np > 1 ? nimble::AddIntegrationPointPrefix(w, i) : w; f.length_ = q; m[f.id_] = f; } }
  for (auto& x : model) { ev(2); S("lengths looked up"); Length a = nimble::UNDEFINED_LENGTH, c = a; auto ex = thrown([&] { a = nimble::LabelToLength(x.first, m, dim); c = nimble::LabelToLength(nimble::AddIntegrationPointPrefix(x.first, r.i(1, 8)), m, dim); }); if (!ex.empty() || a != x.second || c != x.second) V("length of a label", x.first + fmt(" gives %d and %d instead of %d ", (int)a, (int)c, (int)x.second) + ex); }
  std::string no = word(r); while (model.count(no) || prefixed(no)) no = "q" + no; ev(); if (thrown([&] { nimble::LabelToLength(no, m, dim); }).empty()) V("unknown label has a length", no);
}
// distinct base names that are no component or integration-point variants of each other, also ignoring case
static VS names(Rng& r, int n) { VS v; std::set<std::string> u; while ((int)v.size() < n) { std::string w = word(r); if (!v.empty() && r.p(.25)) { w = r.pick(v); if (r.p(.5)) w += "abcQ7"[r.i(0, 4)]; else w[w.size() - 1] = "abcQ7"[r.i(0, 4)]; } if (prefixed(w)) continue; w += r.p(.5) ? "" : "Q"; std::string lo = w; for (auto& c : lo) c = (char)tolower(c); bool ok = u.insert(lo).second; for (auto& o : v) { std::string ol = o; for (auto& c : ol) c = (char)tolower(c); if (lo.compare(0, ol.size() + 1, ol + "_") == 0 || ol.compare(0, lo.size() + 1, lo + "_") == 0) ok = false; } if (ok) v.push_back(w); } return v; }
static void plain(Rng& r)
{
  note("plain registry"); nimble::ModelData md; int dim = r.p(.8) ? 3 : 2; md.SetDimension(dim); VS nm = names(r, r.i(3, 14)); std::vector<Length> nl = all(); nl.erase(nl.begin());  // a field without components is not a field
  struct NF { int id; Length l; int n; std::vector<double> d; }; std::map<std::string, NF> nodes; size_t cut = (size_t)r.i(1, (int)nm.size() - 1); std::map<int, std::string> byid;
  int num = r.i(0, 40), nb = r.i(1, 4); std::map<int, std::vector<std::pair<std::string, Length>>> decl; std::vector<int> bids; while ((int)bids.size() < nb) { int b = r.i(1, 99); if (std::find(bids.begin(), bids.end(), b) == bids.end()) bids.push_back(b); }
  std::map<std::string, std::pair<int, Length>> ids; std::map<std::string, Length> elen; for (size_t k = cut; k < nm.size(); ++k) elen[nm[k]] = r.p(.7) ? r.pick(std::vector<Length>{nimble::SCALAR, nimble::VECTOR, nimble::SYMMETRIC_TENSOR, nimble::FULL_TENSOR}) : r.pick(nl);
  int nip = r.p(.5) ? 8 : r.i(1, 12);
  auto reg = [&](std::string const& lab, Length l, int id, const char* how) { auto it = ids.find(lab); S("registrations"); if (it == ids.end()) { if (byid.count(id)) V("field id shared", lab + " and " + byid[id] + " have the same id"); byid[id] = lab; ids[lab] = {id, l}; } else if (it->second.first != id) V("second registration", std::string(how) + ": " + lab + " becomes another field"); };
  auto verify = [&] {
    for (auto& x : ids) { ev(2); int id = md.GetFieldId(x.first); if (id != x.second.first) { V("field id", x.first + fmt(" is %d, was registered as %d", id, x.second.first)); continue; } auto f = md.GetField(id); if (f.label_ != x.first || f.length_ != x.second.second || f.id_ != id) V("field changed", x.first + " is now " + f.label_); }
    for (auto& x : nodes) {
      auto& f = x.second; size_t len = f.d.size(); double* p = md.GetNodeData(f.id); ev(3); bool ok = true; for (size_t k = 0; k < len; ++k) ok = ok && same(p[k], f.d[k]); if (!ok) V("data changed", "node field " + x.first + " changed when another was registered or written");
      if (len && md.nimble::ModelDataBase::GetFieldIdChecked(x.first) != f.id) V("field id", "checked lookup of " + x.first);
      if (f.l == nimble::SCALAR) { auto v = md.GetScalarNodeData(x.first); if (v.size()[0] != f.n) V("size", "scalar field " + x.first); for (int k = 0; k < f.n && v.size()[0] == f.n; ++k) if (!same(v(k), f.d[k]) || &v(k) != p + k) { V("view", "scalar field " + x.first + " through its view"); break; } }
      if (f.l == nimble::VECTOR && dim == 3) { auto v = md.GetVectorNodeData(x.first); if (v.size()[0] != f.n || v.size()[1] != 3) V("size", "vector field " + x.first); else for (int k = 0; k < 3 * f.n; ++k) if (!same(v(k / 3, k % 3), f.d[k]) || &v(k / 3, k % 3) != p + k) { V("view", "vector field " + x.first + " through its view"); break; } }
    }
    for (int t = 0; t < 3; ++t) { std::string no = word(r) + "~"; ev(); S("unknown names"); if (md.GetFieldId(no) >= 0) V("unknown name found", no); }
  };
  int steps = r.i(4, 30);
  for (int s = 0; s < steps; ++s) {
    if (r.p(.5)) {
      std::string w = nm[r.g() % cut]; auto it = nodes.find(w); Length l = it != nodes.end() ? it->second.l : r.p(.7) ? r.pick(std::vector<Length>{nimble::SCALAR, nimble::VECTOR}) : r.pick(nl);
      int n = r.p(.8) ? num : r.i(0, 30); int id = md.AllocateNodeData(l, w, n); reg(w, l, id, "node field"); std::vector<double> d((size_t)n * sfx(l, dim).size()); double* p = md.GetNodeData(id); for (size_t k = 0; k < d.size(); ++k) { if (p[k] != 0) { V("new field not zero", w); break; } } for (size_t k = 0; k < d.size(); ++k) d[k] = p[k] = r.n(); nodes[w] = {id, l, n, d};
    } else if (cut < nm.size()) {
      std::string w = nm[cut + r.g() % (nm.size() - cut)]; int b = r.pick(bids); bool had = false; for (auto& q : decl[b]) had = had || nimble::RemoveIntegrationPointPrefix(q.first) == w; if (had) continue;
      std::vector<std::pair<std::string, Length>> v; for (int i = 1; i <= nip; ++i) v.push_back({nimble::AddIntegrationPointPrefix(w, i), elen[w]}); md.DeclareElementData(b, v); decl[b].insert(decl[b].end(), v.begin(), v.end());
      for (auto& q : v) reg(q.first, q.second, md.GetFieldId(q.first), "element field");
    } else continue;
    if (r.p(.3)) verify();
  }
  verify(); D(hash(join(nm)) + steps); ev();
  // elements: storage in the order of declaration, every component found under its label
  std::map<int, int> ne; for (auto& b : decl) ne[b.first] = r.p(.1) ? 0 : r.i(1, 7); if (decl.empty()) return;
  for (auto& b : decl) if (b.second.empty()) return;
  md.AllocateElementData(ne); std::map<int, VS> comp;
  for (auto& b : decl) { VS c; for (auto& q : b.second) for (auto& x : expect(q.first, q.second, dim)) c.push_back(x); comp[b.first] = c; if (md.GetElementDataLabels().at(b.first) != c) V("element labels", fmt("block %d", b.first)); auto& d = md.GetElementDataNew(b.first); if (d.size() != c.size() * (size_t)ne[b.first] || md.GetElementDataOld(b.first).size() != d.size()) { V("element data size", fmt("%zu values for %d elements of %zu components", d.size(), ne[b.first], c.size())); return; } for (auto& x : d) x = r.n(); for (auto& x : md.GetElementDataOld(b.first)) x = r.n(); ev(2); S("element blocks"); }
  // requests: node fields whole or by component, single integration points by component
  std::string req; struct W { bool node; std::string lab; NF* f; int c; }; std::vector<W> wn; std::map<int, VS> we; std::set<std::string> used;
  for (auto& x : nodes) { if (!r.p(.5) || x.second.n == 0) continue; auto e = expect(x.first, x.second.l, dim); if (r.p(.5)) { req += " " + x.first; if (x.second.l == nimble::SCALAR) wn.push_back({true, x.first, &x.second, 0}); else for (size_t k = 0; k < e.size(); ++k) wn.push_back({true, e[k], &x.second, (int)k}); } else { int k = r.i(0, (int)e.size() - 1); req += " " + e[k]; wn.push_back({true, e[k], &x.second, k}); } }
  for (auto& b : comp) { int n = r.i(0, 3); for (int t = 0; t < n; ++t) { std::string l = b.second[r.g() % b.second.size()]; if (!used.insert(l).second) continue; req += " " + l; for (auto& q : comp) if (std::find(q.second.begin(), q.second.end(), l) != q.second.end()) we[q.first].push_back(l); } }
  if (!req.empty()) req = req.substr(r.p(.7) ? 1 : 0);
  if (r.p(.3)) { std::string q; for (char c : req) { q += c; if (c == ' ' && r.p(.5)) q += "  "; } req = q + " "; }
  md.SpecifyOutputFields(req); auto& lab = md.GetNodeDataLabelsForOutput(); ev(2); S("output requests", (long)(wn.size() + used.size()));
  VS wl; for (auto& w : wn) wl.push_back(w.lab); if (lab != wl) { V("output labels", "asked for " + req + ": " + join(lab)); return; }
  std::vector<std::vector<double>> o; md.GetNodeDataForOutput(o);
  for (size_t k = 0; k < wn.size(); ++k) { int nc = (int)sfx(wn[k].f->l, dim).size(); bool ok = (int)o[k].size() == wn[k].f->n; for (int i = 0; ok && i < wn[k].f->n; ++i) ok = same(o[k][i], wn[k].f->d[(size_t)i * nc + wn[k].c]); ev(); if (!ok) V("node component output", wn[k].lab); }
  std::map<int, std::vector<std::vector<double>>> eo; md.GetElementDataForOutput(eo);
  for (auto& b : comp) { auto& el = md.GetElementDataLabelsForOutput().at(b.first); if (el != we[b.first]) { V("output labels", fmt("block %d asked for ", b.first) + join(we[b.first]) + "gets " + join(el)); continue; } auto& d = md.GetElementDataNew(b.first); for (size_t k = 0; k < el.size(); ++k) { size_t c = (size_t)(std::find(b.second.begin(), b.second.end(), el[k]) - b.second.begin()); bool ok = eo[b.first][k].size() == (size_t)ne[b.first]; for (int i = 0; ok && i < ne[b.first]; ++i) ok = same(eo[b.first][k][i], d[(size_t)i * b.second.size() + c]); ev(); if (!ok) V("element component output", el[k]); } }
}
// ---- the registry of the performance-portable path; every array is read through all its accessors
struct KF { int id; Length l; int n; std::vector<double> a, b; };  // a: node or element data, or integration points at step n; b: at step n+1
static void kokkos(Rng& r)
{
  note("kokkos registry"); nimble_kokkos::ModelData md; md.SetDimension(3); VS nm = names(r, r.i(3, 10)); std::map<std::string, int> ids; std::map<int, std::string> byid; std::map<std::string, KF> nodes; std::map<std::pair<int, std::string>, KF> el, ip; std::vector<int> bids; int nb = r.i(1, 4); while ((int)bids.size() < nb) { int b = r.i(1, 99); if (std::find(bids.begin(), bids.end(), b) == bids.end()) bids.push_back(b); }
  std::map<int, int> ne; for (int b : bids) ne[b] = r.p(.1) ? 0 : r.i(1, 6); int num = r.p(.1) ? 0 : r.i(1, 30);
  auto reg = [&](std::string const& lab, int id) { S("registrations"); auto it = ids.find(lab); if (it == ids.end()) { if (byid.count(id)) V("field id shared", lab + " and " + byid[id] + " have the same id"); byid[id] = lab; ids[lab] = id; } else if (it->second != id) V("second registration", lab + " becomes another field"); };
  std::set<int> ipblocks;
  auto verify = [&] {
    for (auto& x : ids) { ev(); int id = -7; auto ex = thrown([&] { id = md.GetFieldId(x.first); }); if (id != x.second) V("field id", x.first + fmt(" is %d, was registered as %d ", id, x.second) + ex); }
    VS sc, ve, w1, w2;
    for (auto& x : nodes) {
      auto& f = x.second; ev(4); bool ok = true;
      if (f.l == nimble::SCALAR) { w1.push_back(x.first); auto h = md.GetHostScalarNodeData(f.id); auto d = md.GetDeviceScalarNodeData(f.id); auto v = md.GetScalarNodeData(x.first); auto v2 = md.GetScalarNodeData(f.id); if ((int)h.extent(0) != f.n || (int)d.extent(0) != f.n || v.size()[0] != f.n) { V("size", "scalar field " + x.first); continue; } for (int k = 0; k < f.n; ++k) ok = ok && same(h(k), f.a[k]) && same(d(k), f.a[k]) && same(v(k), f.a[k]) && &v(k) == &h(k) && &v2(k) == &h(k); }
      else { w2.push_back(x.first); auto h = md.GetHostVectorNodeData(f.id); auto d = md.GetDeviceVectorNodeData(f.id); auto v = md.GetVectorNodeData(x.first); auto v2 = md.GetVectorNodeData(f.id); if ((int)h.extent(0) != f.n || (int)d.extent(0) != f.n || v.size()[0] != f.n || v.size()[1] != 3) { V("size", "vector field " + x.first); continue; } for (int k = 0; k < 3 * f.n; ++k) { int i = k / 3, j = k % 3; ok = ok && same(h(i, j), f.a[k]) && same(d(i, j), f.a[k]) && same(v(i, j), f.a[k]) && &v(i, j) == &h(i, j) && &v2(i, j) == &h(i, j); } }
      if (!ok) V("data or view", "node field " + x.first + " differs from what was written, or between its accessors");
    }
    sc = md.GetScalarNodeDataLabels(); ve = md.GetVectorNodeDataLabels(); std::sort(sc.begin(), sc.end()); std::sort(ve.begin(), ve.end()); std::sort(w1.begin(), w1.end()); std::sort(w2.begin(), w2.end()); ev(2); if (sc != w1 || ve != w2) V("field lists", "node fields: " + join(sc) + "| " + join(ve));
    for (auto& x : el) {
      auto& f = x.second; int b = x.first.first; bool ok = true; ev(2);
      if (f.l == nimble::SCALAR) { auto h = md.GetHostScalarElementData(b, f.id); auto d = md.GetDeviceScalarElementData(b, f.id); ok = (int)h.extent(0) == f.n && (int)d.extent(0) == f.n; for (int k = 0; ok && k < f.n; ++k) ok = same(h(k), f.a[k]) && same(d(k), f.a[k]); }
      else if (f.l == nimble::SYMMETRIC_TENSOR) { auto h = md.GetHostSymTensorElementData(b, f.id); auto d = md.GetDeviceSymTensorElementData(b, f.id); ok = (int)h.extent(0) == f.n && (int)d.extent(0) == f.n && h.extent(1) == 6; for (int k = 0; ok && k < 6 * f.n; ++k) ok = same(h(k / 6, k % 6), f.a[k]) && same(d(k / 6, k % 6), f.a[k]); }
      else { auto h = md.GetHostFullTensorElementData(b, f.id); auto d = md.GetDeviceFullTensorElementData(b, f.id); ok = (int)h.extent(0) == f.n && (int)d.extent(0) == f.n && h.extent(1) == 9; for (int k = 0; ok && k < 9 * f.n; ++k) ok = same(h(k / 9, k % 9), f.a[k]) && same(d(k / 9, k % 9), f.a[k]); }
      if (!ok) V("data or view", fmt("element field of block %d: ", b) + x.first.second);
    }
    std::map<int, VS> ls, lf;
    for (auto& x : ip) {
      auto& f = x.second; int b = x.first.first; bool ok = true; ev(4);
      for (auto st : {nimble::STEP_N, nimble::STEP_NP1}) {
        auto& w = st == nimble::STEP_N ? f.a : f.b;
        if (f.l == nimble::SCALAR) { auto d = md.GetDeviceScalarIntegrationPointData(b, f.id, st); ok = ok && (int)d.extent(0) == f.n && d.extent(1) == 8 && d.extent(2) == 1; for (int k = 0; ok && k < 8 * f.n; ++k) ok = same(d(k / 8, k % 8, 0), w[k]); }
        else if (f.l == nimble::VECTOR) { auto d = md.GetDeviceVectorIntegrationPointData(b, f.id, st); ok = ok && (int)d.extent(0) == f.n && d.extent(1) == 8 && d.extent(2) == 3; for (int k = 0; ok && k < 24 * f.n; ++k) ok = same(d(k / 24, k / 3 % 8, k % 3), w[k]); }
        else if (f.l == nimble::SYMMETRIC_TENSOR) { auto h = md.GetHostSymTensorIntegrationPointData(b, f.id, st); auto d = md.GetDeviceSymTensorIntegrationPointData(b, f.id, st); ok = ok && (int)h.extent(0) == f.n && (int)d.extent(0) == f.n && h.extent(1) == 8 && h.extent(2) == 6; for (int k = 0; ok && k < 48 * f.n; ++k) ok = same(h(k / 48, k / 6 % 8, k % 6), w[k]) && same(d(k / 48, k / 6 % 8, k % 6), w[k]); }
        else { auto h = md.GetHostFullTensorIntegrationPointData(b, f.id, st); auto d = md.GetDeviceFullTensorIntegrationPointData(b, f.id, st); ok = ok && (int)h.extent(0) == f.n && (int)d.extent(0) == f.n && h.extent(1) == 8 && h.extent(2) == 9; for (int k = 0; ok && k < 72 * f.n; ++k) ok = same(h(k / 72, k / 9 % 8, k % 9), w[k]) && same(d(k / 72, k / 9 % 8, k % 9), w[k]); }
      }
      if (f.l == nimble::SYMMETRIC_TENSOR || f.l == nimble::FULL_TENSOR) (f.l == nimble::SYMMETRIC_TENSOR ? ls : lf)[b].push_back(x.first.second); if (!ok) V("data or view", fmt("integration-point field of block %d: ", b) + x.first.second);
    }
    for (int b : ipblocks) { auto s = md.GetSymmetricTensorIntegrationPointDataLabels(b), f = md.GetFullTensorIntegrationPointDataLabels(b); for (auto* q : {&s, &f, &ls[b], &lf[b]}) std::sort(q->begin(), q->end()); ev(2); if (s != ls[b] || f != lf[b]) V("field lists", fmt("block %d: ", b) + join(s) + "| " + join(f)); }
    auto gb = md.GetBlockIds(); std::sort(gb.begin(), gb.end()); if (gb != std::vector<int>(ipblocks.begin(), ipblocks.end())) V("block list", fmt("%zu blocks of %zu", gb.size(), ipblocks.size()));
    for (int t = 0; t < 3; ++t) { std::string no = word(r) + "~"; ev(); S("unknown names"); int id = -1; thrown([&] { id = md.GetFieldId(no); }); if (id >= 0) V("unknown name found", no + fmt(" as %d", id)); }
  };
  int steps = r.i(4, 24);
  for (int s = 0; s < steps; ++s) {
    std::string w = r.pick(nm); int b = r.pick(bids), kind = r.i(0, 2);
    if (kind == 0) {
      auto it = nodes.find(w); Length l = it != nodes.end() ? it->second.l : r.p(.5) ? nimble::SCALAR : nimble::VECTOR; int id = md.AllocateNodeData(l, w, num); reg(w, id); KF f{id, l, num, {}, {}}; int c = l == nimble::SCALAR ? 1 : 3; f.a.resize((size_t)num * c); bool z = true;
      bool dev = r.p(.5);
      if (l == nimble::SCALAR) { auto h = md.GetHostScalarNodeData(id); auto d = md.GetDeviceScalarNodeData(id); for (int k = 0; k < num; ++k) { z = z && h(k) == 0; (dev ? d(k) : h(k)) = f.a[k] = r.n(); } if (dev) Kokkos::deep_copy(h, d); else Kokkos::deep_copy(d, h); }
      else { auto v = md.GetVectorNodeData(id); auto h = md.GetHostVectorNodeData(id); auto d = md.GetDeviceVectorNodeData(id); for (int k = 0; k < 3 * num; ++k) { z = z && v(k / 3, k % 3) == 0; (dev ? d(k / 3, k % 3) : v(k / 3, k % 3)) = f.a[k] = r.n(); } if (dev) Kokkos::deep_copy(h, d); else Kokkos::deep_copy(d, h); }
      if (!z) V("new field not zero", w); nodes[w] = f;
    } else if (kind == 1) {
      auto it = el.find({b, w}); Length l = it != el.end() ? it->second.l : r.pick(std::vector<Length>{nimble::SCALAR, nimble::SYMMETRIC_TENSOR, nimble::FULL_TENSOR}); int n = ne[b], id = md.AllocateElementData(b, l, w, n); reg(w, id); KF f{id, l, n, {}, {}}; bool z = true; int c = l == nimble::SCALAR ? 1 : l == nimble::FULL_TENSOR ? 9 : 6; f.a.resize((size_t)n * c); for (auto& x : f.a) x = r.n();
      if (c == 1) { auto h = md.GetHostScalarElementData(b, id); auto d = md.GetDeviceScalarElementData(b, id); for (int k = 0; k < n; ++k) z = z && h(k) == 0 && d(k) == 0; }
      else if (c == 6) { auto h = md.GetHostSymTensorElementData(b, id); auto d = md.GetDeviceSymTensorElementData(b, id); for (int k = 0; k < 6 * n; ++k) z = z && h(k / 6, k % 6) == 0 && d(k / 6, k % 6) == 0; }
      else { auto h = md.GetHostFullTensorElementData(b, id); auto d = md.GetDeviceFullTensorElementData(b, id); for (int k = 0; k < 9 * n; ++k) z = z && h(k / 9, k % 9) == 0 && d(k / 9, k % 9) == 0; }
      if (!z) V("new field not zero", fmt("element field of block %d: ", b) + w);
      if (c == 1) { auto h = md.GetHostScalarElementData(b, id); for (int k = 0; k < n; ++k) h(k) = f.a[k]; Kokkos::deep_copy(md.GetDeviceScalarElementData(b, id), h); }
      else if (c == 6) { auto h = md.GetDeviceSymTensorElementData(b, id); for (int k = 0; k < 6 * n; ++k) h(k / 6, k % 6) = f.a[k]; Kokkos::deep_copy(md.GetHostSymTensorElementData(b, id), h); }
      else { auto h = md.GetDeviceFullTensorElementData(b, id); for (int k = 0; k < 9 * n; ++k) h(k / 9, k % 9) = f.a[k]; Kokkos::deep_copy(md.GetHostFullTensorElementData(b, id), h); }
      el[{b, w}] = f;
    } else {
      auto it = ip.find({b, w}); Length l = it != ip.end() ? it->second.l : r.pick(std::vector<Length>{nimble::SCALAR, nimble::VECTOR, nimble::SYMMETRIC_TENSOR, nimble::FULL_TENSOR}); int c = l == nimble::FULL_TENSOR ? 9 : l == nimble::SYMMETRIC_TENSOR ? 6 : l == nimble::VECTOR ? 3 : 1, n = ne[b]; S("fields at integration points"); std::vector<double> iv; if (r.p(.6)) { iv.resize(c); for (auto& x : iv) x = r.n(); }
      int id = md.AllocateIntegrationPointData(b, l, w, n, iv); reg(w, id); ipblocks.insert(b); KF f{id, l, n, {}, {}}; f.a.resize((size_t)n * 8 * c); f.b.resize(f.a.size()); for (size_t k = 0; k < f.a.size(); ++k) f.a[k] = f.b[k] = iv.empty() ? 0. : iv[k % c];
      ip[{b, w}] = f; if (r.p(.6)) verify();
      if (r.p(.6)) for (auto st : {nimble::STEP_N, nimble::STEP_NP1}) { auto& v = st == nimble::STEP_N ? ip[{b, w}].a : ip[{b, w}].b; if (c == 1) { auto h = md.GetDeviceScalarIntegrationPointData(b, id, st); for (int k = 0; k < 8 * n; ++k) h(k / 8, k % 8, 0) = v[k] = r.n(); } else if (c == 3) { auto h = md.GetDeviceVectorIntegrationPointData(b, id, st); for (int k = 0; k < 24 * n; ++k) h(k / 24, k / 3 % 8, k % 3) = v[k] = r.n(); } else if (c == 6) { auto h = md.GetDeviceSymTensorIntegrationPointData(b, id, st); for (int k = 0; k < 48 * n; ++k) h(k / 48, k / 6 % 8, k % 6) = v[k] = r.n(); Kokkos::deep_copy(md.GetHostSymTensorIntegrationPointData(b, id, st), h); } else { auto h = md.GetDeviceFullTensorIntegrationPointData(b, id, st); for (int k = 0; k < 72 * n; ++k) h(k / 72, k / 9 % 8, k % 9) = v[k] = r.n(); Kokkos::deep_copy(md.GetHostFullTensorIntegrationPointData(b, id, st), h); } }
    }
    if (r.p(.3)) verify();
  }
  verify(); D(hash(join(nm)) + 7 * steps);
  // gathering to and scattering from elements
  if (num < 1) return;
  for (auto& x : nodes) {
    auto& f = x.second; int m = r.i(0, 12), npe = r.p(.7) ? 8 : r.i(1, 8); nimble_kokkos::DeviceElementConnectivityView cn("c", (size_t)m * npe); std::vector<double> s = f.a; for (int k = 0; k < m * npe; ++k) cn(k) = r.i(0, num - 1); S("gathers and scatters"); ev(2); bool ok = true, ok2 = true; double big = 0; for (double v : s) big = std::max(big, fabs(v));
    if (f.l == nimble::SCALAR) {
      nimble_kokkos::DeviceScalarNodeGatheredView g("g", (size_t)m); g = md.GatherScalarNodeData(f.id, m, npe, cn, g); for (int e = 0; e < m; ++e) for (int k = 0; k < npe; ++k) { ok = ok && same(g(e, k), f.a[cn(e * npe + k)]); g(e, k) = r.n(); s[cn(e * npe + k)] += g(e, k); }
      if (r.p(.6)) md.ScatterScalarNodeData(f.id, m, npe, cn, g);
      else { auto z = md.GetDeviceScalarNodeData(f.id); for (int k = 0; k < num; ++k) { s[k] -= f.a[k]; z(k) = 0; } md.ScatterScalarNodeDataUsingKokkosScatterView(f.id, m, npe, cn, g); }
      auto d = md.GetDeviceScalarNodeData(f.id); for (int k = 0; k < num; ++k) { ok2 = ok2 && fabs(d(k) - s[k]) <= 1e-12 * (1 + big) * (1 + m); s[k] = d(k); } Kokkos::deep_copy(md.GetHostScalarNodeData(f.id), d);
    } else {
      nimble_kokkos::DeviceVectorNodeGatheredView g("g", (size_t)m); g = md.GatherVectorNodeData(f.id, m, npe, cn, g); for (int e = 0; e < m; ++e) for (int k = 0; k < npe; ++k) for (int j = 0; j < 3; ++j) { ok = ok && same(g(e, k, j), f.a[3 * cn(e * npe + k) + j]); g(e, k, j) = r.n(); s[3 * cn(e * npe + k) + j] += g(e, k, j); }
      md.ScatterVectorNodeData(f.id, m, npe, cn, g);
      auto d = md.GetDeviceVectorNodeData(f.id); for (int k = 0; k < 3 * num; ++k) { ok2 = ok2 && fabs(d(k / 3, k % 3) - s[k]) <= 1e-12 * (1 + big) * (1 + m); s[k] = d(k / 3, k % 3); } Kokkos::deep_copy(md.GetHostVectorNodeData(f.id), d);
    }
    if (!ok) V("gather", x.first); if (!ok2) V("scatter", x.first); f.a = s;
  }
  verify();
}
int main(int argc, char** argv)
{
  MPI_Init(&argc, &argv); Kokkos::initialize(argc, argv);
  { Rng r(strtoull(argv[1], 0, 10), strtoull(argv[2], 0, 10)); int n = atoi(argv[3]); for (int k = 0; k < n; ++k) { for (int q = 0; q < 12; ++q) labels(r); plain(r); kokkos(r); } }
  int rc = H::end(); Kokkos::finalize(); MPI_Finalize(); return rc;
}
