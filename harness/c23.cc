// C23: closest-point projection onto triangles against a long-double reference by Voronoi regions.
#include "cmesh.h"
using namespace H;
typedef nimble::ContactEntity CE; typedef nimble::ContactManager C0; typedef std::array<LD, 3> P3;
static P3 operator-(P3 a, P3 b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
static P3 operator+(P3 a, P3 b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
static P3 operator*(LD s, P3 a) { return {s * a[0], s * a[1], s * a[2]}; }
static LD dot(P3 a, P3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static P3 cr(P3 a, P3 b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static LD len(P3 a) { return std::sqrt(dot(a, a)); }
struct T { P3 v[3], p; };
struct R { P3 cp, n; LD b[3], gap, amp; int region; };  // region: 0 face, 1-3 edges, 4-6 vertices
static R ref(T const& t)
{
  R r; P3 u = t.v[1] - t.v[0], v = t.v[2] - t.v[0], w = t.p - t.v[0], n = cr(u, v); LD n2 = dot(n, n); r.b[2] = dot(cr(u, w), n) / n2; r.b[1] = dot(cr(w, v), n) / n2; r.b[0] = 1 - r.b[1] - r.b[2]; r.n = (1 / std::sqrt(n2)) * n; r.gap = dot(w, r.n);
  LD L = std::max(len(u), std::max(len(v), len(t.v[2] - t.v[1]))); r.amp = L * L / std::sqrt(n2);
  if (r.b[0] >= 0 && r.b[1] >= 0 && r.b[2] >= 0) { r.region = 0; r.cp = r.b[0] * t.v[0] + r.b[1] * t.v[1] + r.b[2] * t.v[2]; return r; }
  LD best = -1; for (int e = 0; e < 3; ++e) { P3 a = t.v[e], d = t.v[(e + 1) % 3] - a; LD s = dot(t.p - a, d) / dot(d, d); int reg = s <= 0 ? 4 + e : s >= 1 ? 4 + (e + 1) % 3 : 1 + e; s = std::min<LD>(1, std::max<LD>(0, s)); P3 q = a + s * d; LD D = len(t.p - q); if (best < 0 || D < best) { best = D; r.cp = q; r.region = reg; } }
  return r;
}
static CE tri(T const& t, double cl) { double c[9]; for (int k = 0; k < 3; ++k) for (int i = 0; i < 3; ++i) c[3 * k + i] = (double)t.v[k][i]; int f[4] = {0, 0, 0, 0}; return CE(CE::TRIANGLE, 1, c, cl, 0, 0, f); }
static CE nod(T const& t) { double c[3] = {(double)t.p[0], (double)t.p[1], (double)t.p[2]}; return CE(CE::NODE, 1, c, 1., 0); }
static std::string show(T const& t) { std::string s = "triangle"; for (auto& v : t.v) s += fmt(" (%.17Lg, %.17Lg, %.17Lg)", v[0], v[1], v[2]); return s + fmt(", node (%.17Lg, %.17Lg, %.17Lg)", t.p[0], t.p[1], t.p[2]); }
static CM* cm;
static void one(T const& t, Rng& r, bool exact)
{
  R q = ref(t); LD mag = 0, L = 0; for (int k = 0; k < 3; ++k) L = std::max(L, len(t.v[k] - t.v[(k + 1) % 3])); for (int i = 0; i < 3; ++i) { for (auto& v : t.v) mag = std::max(mag, std::fabs(v[i])); mag = std::max(mag, std::fabs(t.p[i])); }
  LD W = len(t.p - t.v[0]) + L, ts = 32 * (LD)EPS * (mag + q.amp * q.amp * W), tb = ts / L * q.amp, D = len(t.p - q.cp); std::string what = show(t); note(what);
  LD bm = std::min(q.b[0], std::min(q.b[1], q.b[2]));
  auto P = [](CE::vertex const& v) { return P3{v.coords_[0], v.coords_[1], v.coords_[2]}; };
  S(q.region == 0 ? "face" : q.region < 4 ? "edge" : "vertex"); if (std::fabs(bm) < 1e-12) S("on the boundary line");
  double ucl = (double)(L * r.logu(1e-2, 1e2)); if (q.gap < 0 && r.p(.3)) ucl = (double)(-q.gap * r.d(.5, 1.5)); CE e = tri(t, ucl), nd = nod(t);
  // true closest point
  for (int k = 0; k < 3; ++k) {
    double tol = k < 2 ? 1e-16 : 1e-8; CE::vertex cp; cp.coords_[0] = cp.coords_[1] = cp.coords_[2] = NAN; C0::PROJECTION_TYPE pt = C0::UNKNOWN; ev();
    if (k == 0) { CE ns[3] = {nd, nd, nd}, es[3] = {e, e, e}; ns[0].coord_1_x_ += 1; CE::vertex cs[3]; C0::PROJECTION_TYPE ps[3] = {C0::UNKNOWN, C0::UNKNOWN, C0::UNKNOWN}; cs[2].coords_[0] = 77; cm->ClosestPointProjection(ns, es, cs, ps, 2); cp = cs[1]; pt = ps[1]; if (cs[2].coords_[0] != 77 || ps[2] != C0::UNKNOWN) V("list", "writes behind the requested number; " + what); }
    else cm->ClosestPointProjectionSingle(nd, e, &cp, &pt, tol);
    P3 g = P(cp); LD d = len(t.p - g), slack = ts + (LD)tol * L; if (!(d <= D + slack + 8 * EPS * D)) { V("not the closest point", fmt("distance %.17Lg, want %.17Lg, region %d; ", d, D, q.region) + what); continue; }
    // inside the triangle: barycentric coordinates of the result
    T z = t; z.p = g; R b = ref(z); if (!(std::fabs(b.gap) <= slack) || !(std::min(b.b[0], std::min(b.b[1], b.b[2])) >= -tb - tol)) V("outside the triangle", fmt("(%.17Lg, %.17Lg, %.17Lg), barycentric %.3Lg %.3Lg %.3Lg, off the plane by %.3Lg; ", g[0], g[1], g[2], b.b[0], b.b[1], b.b[2], b.gap) + what);
    LD ptol = slack + (q.region ? 8 * std::sqrt((LD)EPS) * D + std::sqrt(2 * D * slack) : 0); if (!(len(g - q.cp) <= ptol)) V("position", fmt("(%.17Lg, %.17Lg, %.17Lg), want (%.17Lg, %.17Lg, %.17Lg); ", g[0], g[1], g[2], q.cp[0], q.cp[1], q.cp[2]) + what);
    if (exact) { bool face = q.region == 0 && bm > 0; if (bm >= 0 && len(g - q.cp) != 0) V("exact position", what); if (pt != (face ? C0::FACE : C0::NODE_OR_EDGE)) V("exact classification", fmt("%d for %s; ", (int)pt, face ? "the inside" : "edge, vertex or outside") + what); }
    else if (bm > tb + tol) { if (pt != C0::FACE) V("classification", fmt("%d inside the face; ", (int)pt) + what); } else if (bm < -tb - tol) { if (pt != C0::NODE_OR_EDGE) V("classification", fmt("%d outside the face; ", (int)pt) + what); } else if (pt != C0::FACE && pt != C0::NODE_OR_EDGE) V("classification", "no answer; " + what);
  }
  // projection onto the face only
  for (int k = 0; k < 2; ++k) {
    double tol = k ? r.pick(std::vector<double>{1e-12, 1e-6, 1e-3, .1}) : 1e-8; CE::vertex cp; C0::PROJECTION_TYPE pt = C0::NODE_OR_EDGE; double gap = NAN, no[3] = {NAN, NAN, NAN}, g2 = NAN, n2[3] = {NAN, NAN, NAN}, bc[3] = {NAN, NAN, NAN}; bool in = r.p(.5); ev(2);
    if (k) { C0::SimpleClosestPointProjectionSingle(nd, e, &pt, &cp, gap, no, tol); C0::Projection(nd, e, in, g2, n2, bc, tol); } else { C0::SimpleClosestPointProjectionSingle(nd, e, &pt, &cp, gap, no); C0::Projection(nd, e, in, g2, n2, bc); }
    bool sure = bm > -tol + tb, out = bm < -tol - tb || std::max(q.b[0], std::max(q.b[1], q.b[2])) > 1 + tol + tb; if (std::max(q.b[0], std::max(q.b[1], q.b[2])) > 1 + tol - tb) sure = false;
    if (exact && bm >= 0) sure = true;
    if (sure || (pt == C0::FACE && !out)) {
      if (pt != C0::FACE) V("misses the face", what);
      else { P3 g = P(cp), w = q.b[0] * t.v[0] + q.b[1] * t.v[1] + q.b[2] * t.v[2]; if (!(len(g - w) <= ts)) V("projected point", fmt("(%.17Lg, %.17Lg, %.17Lg), want (%.17Lg, %.17Lg, %.17Lg); ", g[0], g[1], g[2], w[0], w[1], w[2]) + what); if (!(std::fabs(gap - q.gap) <= ts)) V("gap", fmt("%.17g, want %.17Lg; ", gap, q.gap) + what); for (int i = 0; i < 3; ++i) if (!(std::fabs(no[i] - q.n[i]) <= tb + 16 * EPS * q.amp)) V("normal", fmt("component %d: %.17g, want %.17Lg; ", i, no[i], q.n[i]) + what); }
    }
    if (out && pt != C0::UNKNOWN) V("hits the face", fmt("type %d, tolerance %g; ", (int)pt, tol) + what);
    if (sure) {
      if (!(std::fabs(g2 - q.gap) <= ts)) V("gap of the projection", fmt("%.17g, want %.17Lg; ", g2, q.gap) + what); for (int i = 0; i < 3; ++i) { if (!(std::fabs(n2[i] - q.n[i]) <= tb + 16 * EPS * q.amp)) V("normal of the projection", fmt("component %d: %.17g, want %.17Lg; ", i, n2[i], q.n[i]) + what); if (!(std::fabs(bc[i] - q.b[i]) <= tb)) V("barycentric coordinates", fmt("%d: %.17g, want %.17Lg; ", i, bc[i], q.b[i]) + what); }
      if (!(std::fabs((LD)bc[0] + bc[1] + bc[2] - 1) <= 4 * EPS)) V("barycentric sum", what);
      LD cl = ucl; if (q.gap < -ts && q.gap > -cl + ts) { S("penetrating"); if (!in) V("inside", fmt("false at a gap of %.17Lg and length %.17Lg; ", q.gap, cl) + what); } else if (q.gap > ts || (exact && q.gap == 0) || q.gap < -cl - ts) { S("not penetrating"); if (in) V("inside", fmt("true at a gap of %.17Lg and length %.17Lg; ", q.gap, cl) + what); }
    }
    if (out && in) V("inside", "true beside the face; " + what);
  }
}
static double rd(LD x) { return (double)x; }
int main(int argc, char** argv)
{
  MPI_Init(&argc, &argv); Kokkos::initialize(argc, argv);
  { std::cout.setstate(std::ios::failbit); uint64_t seed = atoll(argv[1]), shard = atoll(argv[2]); long N = atol(argv[3]); CM c; cm = &c;
    for (long k = 0; k < N; ++k) {
      Rng r(seed * 1000003 + shard, k); T t; bool exact = r.p(.2);
      if (exact) {  // every operation is exact: right triangles along the axes with legs that are powers of two
        LD a = std::ldexp(1.L, r.i(-8, 8)), b = a * std::ldexp(1.L, r.i(-4, 4)); int ax[3] = {0, 1, 2}; { std::vector<int> v{0, 1, 2}; r.shuffle(v); for (int i = 0; i < 3; ++i) ax[i] = v[i]; } P3 o; for (auto& x : o) x = r.p(.5) ? 0 : std::ldexp((LD)r.i(-64, 64), -3) * a; int sx = r.p(.5) ? 1 : -1, sy = r.p(.5) ? 1 : -1; std::vector<P3> v(3, o); v[1][ax[0]] += sx * a; v[2][ax[1]] += sy * b; r.shuffle(v); for (int i = 0; i < 3; ++i) t.v[i] = v[i];
        int kind = r.i(0, 4); LD f = r.i(0, 16) / 16.L, g = kind == 0 ? 0 : r.i(0, 16) / 16.L; LD al, be; if (kind == 0) { al = f; be = 0; } else if (kind == 1) { al = f; be = 1 - f; } else if (kind == 2) { al = 0; be = g; } else { al = f; be = g * (kind == 3 ? 1 : -1); } if (kind == 3 && al + be > 1) { al /= 2; be /= 2; } if (kind == 4) { al = r.i(0, 16) / 16.L; be = -r.i(1, 16) / 16.L; }
        t.p = o; t.p[ax[0]] += sx * a * al; t.p[ax[1]] += sy * b * be; t.p[ax[2]] += r.p(.3) ? 0 : a * r.i(-8, 8) / 4.L; if (kind == 4) exact = true;
      } else {
        int sh = r.i(0, 4); LD v[3][3]; if (sh == 0) for (auto& x : v) for (auto& y : x) y = r.n(); else { double h = sh == 1 ? .866 : sh == 2 ? r.logu(1e-3, 1) : r.logu(.05, 20), x = sh == 1 ? .5 : sh == 2 ? r.d(0, 1) : r.d(-3, 4); LD z[3][3] = {{0, 0, 0}, {1, 0, 0}, {x, h, 0}}; memcpy(v, z, sizeof v); }
        T l; for (int i = 0; i < 3; ++i) l.v[i] = {v[i][0], v[i][1], v[i][2]}; LD L = 0; for (int i = 0; i < 3; ++i) L = std::max(L, len(l.v[i] - l.v[(i + 1) % 3])); P3 n = cr(l.v[1] - l.v[0], l.v[2] - l.v[0]); LD nn = len(n); if (!(nn > 2e-4L * L * L)) { --N; if (N < 1) N = 1; continue; } n = (1 / nn) * n;
        LD b[3]; int kind = r.i(0, 6); double e = r.d(); switch (kind) { case 0: b[1] = r.d(); b[2] = r.d(0, 1 - (double)b[1]); break; case 1: b[1] = r.d(-2, 3); b[2] = r.d(-2, 3); break; case 2: b[1] = e; b[2] = 0; break; case 3: b[1] = 0; b[2] = e; break; case 4: b[1] = e; b[2] = 1 - e; break; case 5: b[1] = r.i(0, 1); b[2] = b[1] ? 0 : r.i(0, 1); break; default: { double z = r.pick(std::vector<double>{1e-15, 1e-12, 1e-9, 1e-6, 1e-3}); b[1] = e; b[2] = r.p(.5) ? z : -z; } } b[0] = 1 - b[1] - b[2];
        LD h = r.p(.15) ? 0 : (r.p(.5) ? 1 : -1) * L * r.logu(1e-6, 1e2); if (r.p(.1)) h = (r.p(.5) ? 1 : -1) * L * r.logu(1e-12, 1); l.p = h * n; for (int i = 0; i < 3; ++i) l.p = l.p + b[i] * l.v[i];
        M3 Q; { double q[4], s = 0; for (auto& x : q) { x = r.n(); s += x * x; } s = std::sqrt(s); for (auto& x : q) x /= s; LD w = q[0], x = q[1], y = q[2], z = q[3]; LD m[3][3] = {{1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)}, {2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)}, {2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)}}; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) Q[i][j] = r.i(0, 3) < 0 ? (i == j) : m[i][j]; } if (r.p(.2)) Q = eye3();
        LD sc = r.p(.3) ? 1 : r.p(.7) ? r.logu(1e-6, 1e6) : r.logu(1e-20, 1e20), off[3]; double os = r.p(.4) ? 0 : r.logu(1e-2, 1e5); for (auto& x : off) x = sc * os * r.n();
        auto mv = [&](P3 p) { P3 y; for (int i = 0; i < 3; ++i) y[i] = rd(sc * (Q[i][0] * p[0] + Q[i][1] * p[1] + Q[i][2] * p[2]) + off[i]); return y; }; int pm[3] = {0, 1, 2}; { std::vector<int> p{0, 1, 2}; r.shuffle(p); for (int i = 0; i < 3; ++i) pm[i] = p[i]; } for (int i = 0; i < 3; ++i) t.v[i] = mv(l.v[pm[i]]); t.p = mv(l.p);
        P3 m = cr(t.v[1] - t.v[0], t.v[2] - t.v[0]); LD LL = 0; for (int i = 0; i < 3; ++i) LL = std::max(LL, len(t.v[i] - t.v[(i + 1) % 3])); if (!(len(m) > 2e-4L * LL * LL)) continue;
      }
      one(t, r, exact); D(hash(t.v, sizeof t.v, hash(&t.p, sizeof t.p))); if (k < 1) X(show(t));
      // any vertex ordering: the same point, the normal turns with the order
      { T z = t; std::swap(z.v[0], z.v[1]); one(z, r, exact); z = t; std::rotate(z.v, z.v + 1, z.v + 3); one(z, r, exact); }
      // helpers
      { double a[3], b[3], p[3]; for (int i = 0; i < 3; ++i) { a[i] = (double)t.v[0][i]; b[i] = (double)t.v[1][i]; p[i] = (double)t.p[i]; } P3 d = t.v[1] - t.v[0], w = t.p - t.v[0]; LD s = dot(w, d) / dot(d, d), L = len(d), sl = 16 * EPS * (len(w) / L + 1); double tt = nimble::PointEdgeClosestPointFindT(a, b, p); ev(3); if (!(std::fabs(tt - s) <= sl)) V("edge parameter", fmt("%.17g, want %.17Lg; ", tt, s) + show(t)); double q = r.d(-1, 2); P3 f = t.v[0] + (LD)q * d - t.p; LD mag = 0; for (int i = 0; i < 3; ++i) mag = std::max(mag, std::max(std::fabs(t.v[0][i]), std::fabs(t.p[i]))) + std::fabs(d[i]); LD want = dot(f, f), er = 16 * EPS * mag; double got = nimble::PointEdgeClosestPointFindDistanceSquared(a, b, p, q); if (!(std::fabs(got - want) <= 16 * EPS * want + 4 * er * len(f) + 4 * er * er)) V("distance to an edge point", fmt("%.17g, want %.17Lg; ", got, want) + show(t)); P3 n = cr(t.v[1] - t.v[0], t.v[2] - t.v[0]); LD A = len(n) / 2, LL = std::max(len(d), len(t.v[2] - t.v[0])); double ar = nimble::TriangleArea((double)t.v[0][0], (double)t.v[0][1], (double)t.v[0][2], (double)t.v[1][0], (double)t.v[1][1], (double)t.v[1][2], (double)t.v[2][0], (double)t.v[2][1], (double)t.v[2][2]); if (!(std::fabs(ar - A) <= 16 * EPS * LL * LL)) V("triangle area", fmt("%.17g, want %.17Lg; ", ar, A) + show(t)); }
    }
    end();
  }
  Kokkos::finalize(); MPI_Finalize(); return 0;
}
