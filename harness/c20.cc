// C20: packing of values and the collective helpers of the MPI context.
#include "h.h"
#include <unistd.h>
#include <sstream>
#include <mpi.h>
#include "nimble.mpi.mpicontext.h"
#include "nimble.mpi.reduction_utils.h"
using namespace H;
namespace ser = nimble::serialization;
struct Pod { int a; double b; char c; };
inline bool operator==(Pod const& x, Pod const& y) { return x.a == y.a && x.b == y.b && x.c == y.c; }
static bool same(double a, double b) { return memcmp(&a, &b, 8) == 0; }
// random values
static void gen(Rng& r, int& v, int) { v = r.p(.1) ? INT32_MIN : (int)r.u(); }
static void gen(Rng& r, long& v, int) { v = (long)r.u(); }
static void gen(Rng& r, size_t& v, int) { v = r.u(); }
static void gen(Rng& r, char& v, int) { v = (char)r.u(); }
static void gen(Rng& r, double& v, int) { v = r.p(.1) ? -0. : r.n() * r.logu(1e-30, 1e30); }
static void gen(Rng& r, Pod& v, int) { v.a = (int)r.u(); v.b = r.n(); v.c = (char)r.u(); }
template <class A, class B> void gen(Rng& r, std::pair<A, B>& v, int d);
template <class T, size_t n> void gen(Rng& r, std::array<T, n>& v, int d);
template <class T> void gen(Rng& r, std::vector<T>& v, int d);
template <class A, class B> void gen(Rng& r, std::pair<A, B>& v, int d) { gen(r, v.first, d); gen(r, v.second, d); }
template <class T, size_t n> void gen(Rng& r, std::array<T, n>& v, int d) { for (auto& x : v) gen(r, x, d + 1); }
template <class T> void gen(Rng& r, std::vector<T>& v, int d) { v.resize(r.p(.25) ? 0 : r.i(1, d == 0 ? (r.p(.05) ? 3000 : 20) : 5)); for (auto& x : v) gen(r, x, d + 1); }
// equality, doubles bit for bit
template <class T> struct Eq { static bool f(T const& a, T const& b) { return a == b; } };
template <> struct Eq<double> { static bool f(double a, double b) { return same(a, b); } };
template <class A, class B> struct Eq<std::pair<A, B>> { static bool f(std::pair<A, B> const& a, std::pair<A, B> const& b) { return Eq<A>::f(a.first, b.first) && Eq<B>::f(a.second, b.second); } };
template <class T, size_t n> struct Eq<std::array<T, n>> { static bool f(std::array<T, n> const& a, std::array<T, n> const& b) { for (size_t k = 0; k < n; ++k) if (!Eq<T>::f(a[k], b[k])) return false; return true; } };
template <class T> struct Eq<std::vector<T>> { static bool f(std::vector<T> const& a, std::vector<T> const& b) { if (a.size() != b.size()) return false; for (size_t k = 0; k < a.size(); ++k) if (!Eq<T>::f(a[k], b[k])) return false; return true; } };
template <class T, class D> void packing(Rng& r, const char* tn, bool empty)
{
  T a{}, b{}, c{}; if (!empty) { gen(r, a, 0); gen(r, b, 0); } gen(r, c, 0);  // c: what the destination held before
  note(fmt("packing %s", tn)); S(std::string("type ") + tn); ev(4);
  auto bad = [&](const char* w, std::string m) { V(std::string("pack: ") + w, std::string(tn) + fmt(" into elements of %zu bytes: ", sizeof(D)) + m); };
  size_t na = ser::serial_t<T>::size(a), nb = ser::serial_t<T>::size(b);
  // two values behind each other in a buffer of exactly their size (AddressSanitizer watches its ends)
  { std::unique_ptr<char[]> q(new char[na + nb]); char* p = q.get(); ser::serial_t<T>::pack(a, p); if (p != q.get() + na) bad("size", fmt("wrote %td bytes, size says %zu", p - q.get(), na)); ser::serial_t<T>::pack(b, p); T x = c, y = c; p = q.get(); ser::serial_t<T>::unpack(x, p); if (p != q.get() + na) bad("consumed", fmt("read %td bytes of %zu", p - q.get(), na)); if (!Eq<T>::f(x, a)) bad("value", "first of two values changed"); ser::serial_t<T>::unpack(y, p); if (p != q.get() + na + nb) bad("consumed", "second value"); if (!Eq<T>::f(y, b)) bad("value", "second of two values changed"); }
  { std::vector<D> v(r.i(0, 40)); size_t n = ser::pack(a, v); if (n != na) bad("returned size", fmt("%zu of %zu", n, na)); if (v.size() * sizeof(D) < n) bad("buffer", "too small"); T x = c; ser::unpack(x, v); if (!Eq<T>::f(x, a)) bad("value", "pack then unpack changed the value"); }
  { std::vector<D> v(r.p(.5) ? r.i(1, 40) : r.i(0, 3) * (int)na / 2 + 1); size_t n = ser::pack_avoid_resize(a, v); if (n != na) bad("returned size", fmt("%zu of %zu", n, na)); if (v.size() * sizeof(D) < n) bad("buffer", "too small"); T x = c; ser::unpack(x, v); if (!Eq<T>::f(x, a)) bad("value", "pack_avoid_resize then unpack changed the value"); n = ser::pack_avoid_resize(b, v); if (n != nb) bad("returned size", "second use"); ser::unpack(x, v); if (!Eq<T>::f(x, b)) bad("value", "second use of a buffer changed the value"); }
  H::D(hash(tn, strlen(tn), na * 977 + nb));
}
template <class T> void pk(Rng& r, const char* tn) { bool e = r.p(.15); switch (r.i(0, 2)) { case 0: packing<T, int>(r, tn, e); break; case 1: packing<T, char>(r, tn, e); break; default: packing<T, double>(r, tn, e); } }
typedef std::vector<int> VI; typedef std::pair<int, double> PID; typedef std::pair<char, VI> PCV;
#define TY(...) pk<__VA_ARGS__>(r, #__VA_ARGS__)
static void types(Rng& r)
{
  TY(int); TY(double); TY(size_t); TY(Pod); TY(std::array<double, 3>); TY(std::array<int, 1>); TY(PID); TY(std::pair<char, double>); TY(std::pair<int, Pod>); TY(VI); TY(std::vector<double>); TY(std::vector<char>); TY(std::vector<Pod>);
  TY(std::vector<PID>); TY(std::vector<std::array<double, 3>>); TY(std::vector<VI>); TY(std::vector<std::vector<std::vector<char>>>); TY(std::pair<VI, std::vector<double>>); TY(PCV); TY(std::vector<PCV>); TY(std::array<VI, 4>); TY(std::vector<std::array<VI, 2>>);
  TY(std::pair<PID, VI>); TY(std::vector<std::pair<VI, VI>>); TY(std::array<PCV, 2>); TY(std::vector<std::pair<int, std::vector<std::array<double, 2>>>>); TY(std::array<PID, 3>); TY(std::pair<std::array<VI, 2>, std::vector<std::vector<PID>>>);
  { int x = r.i(-9, 9), y = 0; int const* px = &x; int* py = &y; (void)px; int* qx = &x; VI v; ser::pack(qx, v); ser::unpack(py, v); ev(); if (x != y) V("pack: pointer", "value behind a pointer changed"); }
  { VI a, b; gen(r, a, 0); VI* pa = &a; VI* pb = &b; std::vector<char> v; ser::pack(pa, v); ser::unpack(pb, v); ev(); if (a != b) V("pack: pointer", "vector behind a pointer changed"); }
}
static void group(Rng& r)
{
  std::vector<std::pair<int, double>> l(r.p(.1) ? 0 : r.i(1, 40)); int k = 0, spread = r.i(1, 6); for (auto& x : l) { if (r.p(.5)) k = r.i(0, spread); x = {k, r.n()}; }
  auto g = nimble::GroupConsecutive(l); ev(); S("grouping of runs"); size_t at = 0; bool ok = true; for (size_t q = 0; q < g.size(); ++q) { ok = ok && !g[q].second.empty() && (q == 0 || g[q].first != g[q - 1].first); for (double v : g[q].second) { ok = ok && at < l.size() && l[at].first == g[q].first && same(l[at].second, v); ++at; } } if (!ok || at != l.size()) V("groups", fmt("%zu pairs grouped into %zu groups with %zu values", l.size(), g.size(), at));
}
static std::string str(Rng& r) { std::string s; int n = r.p(.3) ? 0 : r.p(.05) ? 5000 : r.i(1, 30); for (int k = 0; k < n; ++k) s += r.p(.05) ? '\n' : (char)r.i(32, 126); return s; }
template <size_t n> std::array<int, n> arr(Rng& r) { std::array<int, n> a; for (auto& x : a) x = (int)r.u(); return a; }
template <size_t n> void arrays(nimble::mpicontext const& C, Rng& r, std::string const& what)
{
  int me = C.get_rank(), np = C.get_size(); std::vector<std::array<int, n>> all; for (int k = 0; k < np; ++k) all.push_back(arr<n>(r));
  ev(3); if (C.allgather_to_vector(all[me]) != all) V("all-gather of arrays", what);
  if (C.is_root()) { if (C.gather_recieve(all[me]) != all) V("gather of arrays", what); } else C.gather_send(all[me]);
  auto b = C.is_root() ? all[0] : all[me]; C.bcast(b); if (b != all[0]) V("broadcast of arrays", what);
}
int main(int argc, char** argv)
{
  MPI_Init(&argc, &argv); int me0, np0; MPI_Comm_rank(MPI_COMM_WORLD, &me0); MPI_Comm_size(MPI_COMM_WORLD, &np0); H::rank() = me0;
  uint64_t seed = atoll(argv[1]), shard = atoll(argv[2]); long N = atol(argv[3]); Rng jit(seed * 7919 + me0, shard); nimble::mpicontext W(MPI_COMM_WORLD);
  if (W.get_rank() != me0 || W.get_size() != np0 || W.is_root() != (me0 == 0)) V("context", "rank, size or root of the world");
  for (long c = 0; c < N; ++c) {
    { Rng r(seed * 1000003 + shard * 31 + me0, c); types(r); group(r); }
    Rng r(seed * 1000003 + shard, c); int color = 0; std::vector<int> col(np0), key(np0); bool split = r.p(.6); for (int k = 0; k < np0; ++k) { col[k] = r.i(0, 2); key[k] = r.i(0, 1000); } MPI_Comm cm = MPI_COMM_WORLD;
    if (split) { color = 1 + col[me0]; bool dk = r.p(.3); cm = dk ? W.split_by_color(col[me0]) : W.split_by_color(col[me0], key[me0]); std::vector<std::pair<int, int>> o; for (int k = 0; k < np0; ++k) if (col[k] == col[me0]) o.push_back({dk ? k : key[k], k}); std::sort(o.begin(), o.end()); int q, n; MPI_Comm_rank(cm, &q); MPI_Comm_size(cm, &n); ev(); S("communicators split"); if (n != (int)o.size() || o[q].second != me0) V("split", fmt("rank %d is %d of %d", me0, q, n)); if (r.p(.2)) { ev(); if (W.split_by_color() != MPI_COMM_NULL) V("split", "no color, but a communicator"); } }
    nimble::mpicontext C(cm); int me = C.get_rank(), np = C.get_size(), root = 0; r = Rng(seed * 1000003 + shard, (c * 8 + color) * 131 + 7); std::string what = fmt("%d of %d ranks, case %ld", np, np0, c); VI persist;
    auto delay = [&] { if (jit.p(.05)) usleep(jit.i(0, 2000)); };
    int steps = r.i(6, 14);
    for (int st = 0; st < steps; ++st) {
      int kind = r.i(0, 15); root = r.i(0, np - 1); if (me == 0) note(what + fmt(" step %d operation %d", st, kind)); delay();
      auto vi = [&](int big) { VI v(r.p(.3) ? 0 : r.p(.06) ? big : r.i(1, 25)); for (auto& x : v) x = (int)r.u(); return v; };
      std::vector<VI> all; if (kind == 2 || kind == 3 || kind == 12 || kind == 13) for (int k = 0; k < np; ++k) all.push_back(vi(9000));
      bool unequal = false; for (auto& v : all) unequal = unequal || v.size() != all[0].size(); uint64_t h = kind + 100 * np; for (auto& v : all) h = hash(v.data(), 4 * v.size(), h + 1);
      if (kind == 0 || kind == 1) {  // messages between pairs of ranks
        if (np < 2) continue; int a = r.i(0, np - 1), b = (a + r.i(1, np - 1)) % np, tag = r.i(0, 30000), t2 = tag + 1 + r.i(0, 50); VI x = vi(20000), y = vi(900); int fs = r.i(0, 2), fr = r.i(0, 2); h = hash(x.data(), 4 * x.size(), h + a * 64 + b);
        if (me == a) { if (y.size() < 900 && x.size() < 900) { C.send(y, b, t2); C.send(x, b, tag); } else { C.send(x, b, tag); C.send(y, b, t2); } S("messages", 2); }
        if (me == b) { VI g; VI pre(r.i(0, 40), 77); auto p0 = pre; int n; if (fr == 0) { g = pre; n = C.recv(g, a, tag); } else if (fr == 1) { VI q(x.size() + 5, 77); n = C.recv(q.data() + 1, a, tag, (int)x.size() + 3); for (size_t k = 0; k < q.size(); ++k) if ((k == 0 || k > x.size()) && q[k] != 77) V("receive", "writes outside the message; " + what); g.assign(q.begin() + 1, q.begin() + 1 + std::max(0, std::min(n, (int)x.size() + 3))); } else { g = pre; n = C.recv_avoid_resize(g, a, tag); if (g.size() < x.size() || (x.size() <= p0.size() && g.size() != p0.size())) V("receive", "buffer size; " + what); for (size_t k = x.size(); k < g.size() && k < p0.size(); ++k) if (g[k] != 77) V("receive", "changes values behind the message; " + what); g.resize(x.size()); } ev(2); if (n != (int)x.size() || g != x) V("message", fmt("%d of %zu values or wrong values, form %d; ", n, x.size(), fr) + what); VI z; n = C.recv(z, a, t2); if (n != (int)y.size() || z != y) V("message", "second tag; " + what); }
        else { (void)r.i(0, 40); } (void)fs;
      } else if (kind == 4 || kind == 5) {
        if (np < 2) continue; int a = r.i(0, np - 1), b = (a + r.i(1, np - 1)) % np, tag = r.i(0, 30000), form = r.i(0, 1); std::vector<PCV> x; gen(r, x, 0); std::pair<VI, std::vector<double>> y; gen(r, y, 0); h += hash(&tag, 4);
        if (me == a) { if (form) { C.sendpacked(x, b, tag, persist); C.sendpacked(y, b, tag, persist); } else { C.sendpacked(x, b, tag); C.sendpacked(y, b, tag); } S("packed messages", 2); }
        if (me == b) { std::vector<PCV> gx; std::pair<VI, std::vector<double>> gy; gy.first = {1, 2}; C.recvpacked(gx, a, tag, persist); C.recvpacked(gy, a, tag, persist); ev(2); if (!Eq<std::vector<PCV>>::f(gx, x) || !Eq<std::pair<VI, std::vector<double>>>::f(gy, y)) V("packed message", what); }
      } else if (kind == 2) { auto g = C.gather(all[me], root); ev(); if (me == 0) { S("gathers"); S("gathers of unequal lengths", unequal); } if (me == root ? g != all : !g.empty()) V("gather", fmt("root %d; ", root) + what); }
      else if (kind == 3) { auto g = C.scatter(root, me == root ? all : std::vector<VI>()); ev(); if (me == 0) { S("scatters"); S("scatters of unequal lengths", unequal); } if (g != all[me]) V("scatter", fmt("root %d, rank %d; ", root, me) + what); }
      else if (kind == 6) { VI v(np); for (auto& x : v) x = (int)r.u(); ev(); if (C.allgather_to_vector(v[me]) != v) V("all-gather", what); if (C.is_root()) { if (C.gather_recieve(v[me]) != v) V("gather of integers", what); } else C.gather_send(v[me]); int b = me == 0 ? v[0] : v[me]; C.bcast(b); if (b != v[0]) V("broadcast", what); h += v[0]; if (me == 0) S("integer collectives", 3); }
      else if (kind == 7) { std::vector<size_t> v(np); for (auto& x : v) x = r.u(); ev(); if (C.allgather_to_vector(v[me]) != v) V("all-gather of sizes", what); h += v[0]; if (me == 0) S("size collectives"); }
      else if (kind == 8) { arrays<1>(C, r, what); arrays<3>(C, r, what); arrays<17>(C, r, what); if (me == 0) S("array collectives", 9); h += r.u(); }
      else if (kind == 9) { int n = r.i(0, 30); VI v(n * np); for (auto& x : v) x = (int)r.u(); VI m(v.begin() + n * me, v.begin() + n * (me + 1)); ev(); if (C.is_root()) { if (C.gather_recieve(m.data(), n) != v) V("gather of blocks", what); } else C.gather_send(m.data(), n); h = hash(v.data(), 4 * v.size(), h); if (me == 0) S("block gathers"); }
      else if (kind == 10) { std::vector<std::string> s; std::string w; for (int k = 0; k < np; ++k) { s.push_back(str(r)); w += s.back(); } ev(); auto g = C.catenate_gatherv(s[me]); if (g != (me == 0 ? w : "")) V("concatenation", what); std::ostringstream o; if (r.p(.5)) { C.print(s[me], o); if (o.str() != (me == 0 ? w : "")) V("print", what); } else { C.println(s[me], o); std::string wl; for (auto& x : s) wl += x + "\n"; if (o.str() != (me == 0 ? wl : "")) V("println", what); } h += hash(w); if (me == 0) S("concatenations", 2); }
      else if (kind == 11) { std::vector<std::string> s; auto st1 = str(r), se = str(r), en = str(r); std::string w = st1; for (int k = 0; k < np; ++k) { s.push_back(str(r)); w += (k ? se : "") + s.back(); } w += en; ev(); auto g = C.catenate_gatherv_format(s[me], st1, se, en); if (g != (me == 0 ? w : "")) V("formatted concatenation", what); std::ostringstream o, o2; C.print_formatted(s[me], st1, se, en, o); if (o.str() != (me == 0 ? w : "")) V("formatted print", what); C.print_if_root(s[me], o2).println_if_root(s[me], o2); if (o2.str() != (me == 0 ? s[0] + s[0] + "\n" : "")) V("print on root", what); h += hash(w); if (me == 0) S("concatenations", 2); }
      else if (kind == 12) { VI cnt, dis; int at = r.i(0, 3); for (auto& v : all) { cnt.push_back((int)v.size()); dis.push_back(at); at += (int)v.size() + r.i(0, 3); } VI want(at, 55); for (int k = 0; k < np; ++k) std::copy(all[k].begin(), all[k].end(), want.begin() + dis[k]); ev(); if (C.is_root()) { VI g(at, 55); C.gatherv_recieve(all[me], g, cnt, dis); if (g != want) V("gatherv", what); } else C.gatherv_send(all[me]); if (me == 0) S("gatherv"); }
      else if (kind == 13) { VI cnt, dis; int at = r.i(0, 3); for (auto& v : all) { cnt.push_back((int)v.size()); dis.push_back(at); at += (int)v.size() + r.i(0, 3); } VI src(at, 55); for (int k = 0; k < np; ++k) std::copy(all[k].begin(), all[k].end(), src.begin() + dis[k]); VI g(all[me].size(), 3); ev(); if (C.is_root()) C.scatterv_send(src, cnt, dis, g); else C.scatterv_recieve(g); if (g != all[me]) V("scatterv", what); if (me == 0) S("scatterv"); }
      else if (kind == 14) {
        int top = r.p(.5) ? 40 : 1000000000; size_t mx = 0; std::vector<VI> id(np); for (auto& v : id) { v.resize(r.p(.2) ? 0 : r.i(1, 40)); for (auto& x : v) x = r.p(.2) ? -r.i(0, top) : r.i(0, top); mx = std::max(mx, v.size()); }
        auto got = nimble::PackIDSpace(id[me], (int)mx + r.i(0, 3), C); auto every = C.gather(got, 0); ev(); if (me == 0) { S("id spaces packed"); bool ok = every.size() == id.size(); std::map<int, int> f, g; for (int k = 0; ok && k < np; ++k) { ok = every[k].size() == id[k].size(); for (size_t q = 0; ok && q < id[k].size(); ++q) { auto a = f.emplace(id[k][q], every[k][q]), b = g.emplace(every[k][q], id[k][q]); ok = a.first->second == every[k][q] && b.first->second == id[k][q]; } } if (ok && !g.empty()) ok = g.begin()->first == 0 && g.rbegin()->first == (int)g.size() - 1; if (!ok) V("packed ids", what); }
      } else { int lo = r.p(.3) ? -1000 : 0; std::vector<VI> id(np); int m = INT32_MIN; bool any = true; for (auto& v : id) { v.resize(r.i(1, 30)); for (auto& x : v) { x = r.i(lo, lo < 0 ? -1 : 1000000); m = std::max(m, x); } } (void)any; ev(2); if (nimble::GetMaximumNodeId(id[me], C) != m) V("largest id", what); auto n = nimble::GetNumberOfNodesAssignedToEachRank(id[me], C); for (int k = 0; k < np; ++k) if (n[k] != (int)id[k].size()) V("counts of all ranks", what); if (me == 0) S("id statistics", 2); }
      if (me == 0) D(h);
    }
    if (split) MPI_Comm_free(&cm);
  }
  end(); MPI_Barrier(MPI_COMM_WORLD); MPI_Finalize(); return 0;
}
