// C10: dumps everything GenesisMesh says about mesh files (one JSON object per way of reading).
#include "h.h"
#include <fstream>
#include <iostream>
#include <sstream>
#include "nimble_exodus_output.h"
#include "nimble_genesis_mesh.h"
#include "nimble_macros.h"
#include "mpi.h"
#include <Kokkos_Core.hpp>
using namespace nimble;
static std::string js(std::string const& s) { std::string o = "\""; for (unsigned char c : s) { if (c < 32 || c > 126 || c == '"' || c == '\\') o += H::fmt("\\u%04x", c); else o += c; } return o + "\""; }
template <class T> static std::string arr(T const* p, size_t n) { std::ostringstream o; o.precision(17); o << "["; for (size_t i = 0; i < n; ++i) o << (i ? "," : "") << p[i]; o << "]"; return o.str(); }
template <class T> static std::string arr(std::vector<T> const& v) { return arr(v.data(), v.size()); }
static void dump(std::ostream& o, GenesisMesh& m, bool names)
{
  size_t n = m.GetNumNodes(); o << "{\"file\":" << js(m.FileName()) << ",\"valid\":" << m.IsValid() << ",\"dim\":" << m.GetDim() << ",\"n\":" << n << ",\"ne\":" << m.GetNumElements() << ",\"nb\":" << m.GetNumBlocks() << ",\"nab\":" << m.GetNumGlobalBlocks();
  if (n) o << ",\"x\":" << arr(m.GetCoordinatesX(), n) << ",\"y\":" << arr(m.GetCoordinatesY(), n) << ",\"z\":" << arr(m.GetCoordinatesZ(), n) << ",\"ngid\":" << arr(m.GetNodeGlobalIds(), n);
  o << ",\"nngid\":" << m.GetNumNodeGlobalIds() << ",\"maxgid\":" << m.GetMaxNodeGlobalId();
  if (m.GetNumElements()) o << ",\"egid\":" << arr(m.GetElementGlobalIds(), m.GetNumElements());
  o << ",\"bids\":" << arr(m.GetBlockIds()) << ",\"abids\":" << arr(m.GetAllBlockIds()) << ",\"abnames\":[";
  bool c = false; for (int id : m.GetAllBlockIds()) { o << (c ? "," : "") << js(m.GetBlockName(id)); c = true; } o << "],\"blocks\":["; c = false;
  auto nel = m.GetNumElementsInBlock(); auto npe = m.GetNumNodesPerElement(); auto& cm = m.GetConnectivity();
  for (int id : m.GetBlockIds()) {
    std::string nm = m.GetBlockName(id); int k = m.GetNumElementsInBlock(id), q = m.GetNumNodesPerElement(id); std::vector<int> found; m.BlockNamesToOnProcessorBlockIds({nm}, found);
    o << (c ? "," : "") << "{\"id\":" << id << ",\"name\":" << js(nm) << ",\"n\":" << k << ",\"n2\":" << nel.at(id) << ",\"npe\":" << q << ",\"npe2\":" << npe.at(id) << ",\"type\":" << js(m.GetElementType(id)) << ",\"has\":" << m.HasBlock(nm) << ",\"byname\":" << m.GetBlockId(nm) << ",\"onproc\":" << arr(found)
      << ",\"gids\":" << arr(m.GetElementGlobalIdsInBlock(id)) << ",\"conn\":" << arr(m.GetConnectivity(id), (size_t)k * q) << ",\"conn2\":" << arr(cm.at(id)) << "}"; c = true;
  }
  o << "],\"nsize\":[" << nel.size() << "," << npe.size() << "," << cm.size() << "]";
  auto sets = [&](const char* key, int cnt, std::vector<int> ids, std::map<int, std::string> nm, std::map<int, std::vector<int>> mem, std::map<int, std::vector<double>> df) {
    o << ",\"" << key << "\":["; bool c = false; for (int id : ids) { o << (c ? "," : "") << "{\"id\":" << id << ",\"name\":" << js(nm.at(id)) << ",\"m\":" << arr(mem.at(id)) << ",\"df\":" << (df.count(id) ? arr(df.at(id)) : std::string("[]")) << "}"; c = true; }
    o << "],\"" << key << "n\":[" << cnt << "," << nm.size() << "," << mem.size() << "]";
  };
  sets("ns", m.GetNumNodeSets(), m.GetNodeSetIds(), m.GetNodeSetNames(), m.GetNodeSets(), m.GetNodeSetDistributionFactors());
  sets("ss", m.GetNumSideSets(), m.GetSideSetIds(), m.GetSideSetNames(), m.GetSideSets(), m.GetSideSetDistributionFactors());
  double b[6]; m.BoundingBox(b[0], b[1], b[2], b[3], b[4], b[5]); o << ",\"box\":" << arr(b, 6) << ",\"centre\":" << arr(m.BoundingBoxCenter());
  o << ",\"unknown\":" << (m.HasBlock("no such block") ? 1 : 0);
  int thrown = 0; try { m.GetBlockId("no such block"); } catch (std::exception&) { thrown = 1; } std::vector<int> t; try { m.BlockNamesToOnProcessorBlockIds({"no such block"}, t); } catch (std::exception&) { thrown += 2; }
  o << ",\"thrown\":" << thrown << "}\n";
}
int main(int argc, char** argv)
{
  MPI_Init(&argc, &argv); Kokkos::initialize(argc, argv);
  for (int k = 1; k < argc; ++k) {
    std::string f = argv[k]; H::note(f); std::ofstream o(f + ".json");
    GenesisMesh m; m.ReadFile(f); dump(o, m, true);
    std::map<int, std::string> nm; std::map<int, std::vector<int>> gid, conn = m.GetConnectivity(); for (int id : m.GetBlockIds()) { nm[id] = m.GetBlockName(id); gid[id] = m.GetElementGlobalIdsInBlock(id); }
    size_t n = m.GetNumNodes(), e = m.GetNumElements(); auto v = [](auto* p, size_t q) { return std::vector<std::decay_t<decltype(*p)>>(p, p + q); };
    if (n && e) { GenesisMesh m2; m2.Initialize(f, v(m.GetNodeGlobalIds(), n), v(m.GetCoordinatesX(), n), v(m.GetCoordinatesY(), n), v(m.GetCoordinatesZ(), n), v(m.GetElementGlobalIds(), e), m.GetBlockIds(), nm, gid, m.GetNumNodesPerElement(), conn); dump(o, m2, true); } else o << "null\n";
    // text
    if (n && e) {
      ExodusOutput out; out.Initialize(f + ".t", m); std::map<int, std::vector<std::string>> none; for (int id : m.GetBlockIds()) none[id]; out.InitializeDatabaseTextFile(m, {}, {}, none, none);
      GenesisMesh m3; m3.ReadTextFile(f + ".t"); dump(o, m3, true);
    } else o << "null\n";
    // a mesh file of no name
    GenesisMesh m4; m4.ReadFile("none"); GenesisMesh m5; m5.ReadTextFile("none"); o << "{\"none\":" << (m4.IsValid() || m5.IsValid() || m4.GetNumNodes()) << "}\n";
    int thr = 0; GenesisMesh m6; try { m6.ReadTextFile(f + ".missing"); } catch (std::exception&) { thr = 1; } o << "{\"missing\":" << thr << "}\n";
    std::stringstream cap; auto* old = std::cout.rdbuf(cap.rdbuf()); m.Print(true, 3); std::cout.rdbuf(old); o << js(cap.str()) << "\n";
  }
  H::end(); Kokkos::finalize(); MPI_Finalize(); return 0;
}
