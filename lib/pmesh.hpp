// Plain meshes, generators and independent checkers (no code of the library is used here).
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

typedef std::array<double, 3> V3;
inline V3 operator-(const V3 &a, const V3 &b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
inline V3 operator+(const V3 &a, const V3 &b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
inline V3 operator*(double s, const V3 &a) { return {s * a[0], s * a[1], s * a[2]}; }
inline double dot(const V3 &a, const V3 &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline V3 cross(const V3 &a, const V3 &b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
inline double norm(const V3 &a) { return std::sqrt(dot(a, a)); }
inline double dist(const V3 &a, const V3 &b) { return norm(a - b); }

struct Vtx { V3 x{{0, 0, 0}}; int ref = 0; bool corner = false, req = false; };
template <int N> struct El { std::array<int, N> v{}; int ref = 0; bool req = false, ridge = false; };
typedef El<2> Edg; typedef El<3> Tri; typedef El<4> Tet; typedef El<4> Qua; typedef El<6> Pri;

template <size_t N> std::array<int, N> sorted(std::array<int, N> a) { std::sort(a.begin(), a.end()); return a; }
inline std::array<int, 2> key(int a, int b) { return a < b ? std::array<int, 2>{{a, b}} : std::array<int, 2>{{b, a}}; }

struct PM {
  int dim = 3;
  std::vector<Vtx> p; // 1-based: p[0] unused
  std::vector<Tet> te; std::vector<Pri> pr; std::vector<Tri> tr; std::vector<Qua> qu; std::vector<Edg> ed;
  PM(int d = 3) : dim(d), p(1) {}
  int np() const { return (int)p.size() - 1; }
  int addv(V3 x, int ref = 0) { Vtx v; v.x = x; v.ref = ref; p.push_back(v); return np(); }
  const V3 &X(int i) const { return p[i].x; }
  double vol(const Tet &t) const { return dot(cross(X(t.v[1]) - X(t.v[0]), X(t.v[2]) - X(t.v[0])), X(t.v[3]) - X(t.v[0])) / 6; }
  V3 nrm(const Tri &t) const { return cross(X(t.v[1]) - X(t.v[0]), X(t.v[2]) - X(t.v[0])); }
  double area2(const Tri &t) const { return 0.5 * nrm(t)[2]; }
  double area(const Tri &t) const { return 0.5 * norm(nrm(t)); }
};

static const int FACE[4][3] = {{1, 2, 3}, {0, 3, 2}, {0, 1, 3}, {0, 2, 1}}; // outward for a positive tetrahedron

inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) { char b[600]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }

// ---------------------------------------------------------------------------------------------- generators
// boundary / interface triangles of the tets, with a reference given by rf(outward normal, centre, ref1, ref2(-1 if none))
typedef std::function<int(const V3 &n, const V3 &c, int r1, int r2)> FRef;
inline int axisref(const V3 &n, const V3 &, int, int r2) { // one reference per axis direction; interfaces 10
  if (r2 >= 0) return 10;
  int a = 0; for (int i = 1; i < 3; i++) if (std::fabs(n[i]) > std::fabs(n[a])) a = i;
  return 1 + 2 * a + (n[a] > 0);
}
inline void boundary(PM &m, FRef rf = axisref) {
  std::map<std::array<int, 3>, std::pair<int, int>> f; // first tet/face
  std::map<std::array<int, 3>, int> cnt;
  for (size_t k = 0; k < m.te.size(); k++) for (int i = 0; i < 4; i++) {
    std::array<int, 3> a = sorted(std::array<int, 3>{{m.te[k].v[FACE[i][0]], m.te[k].v[FACE[i][1]], m.te[k].v[FACE[i][2]]}});
    auto it = f.find(a);
    if (it == f.end()) { f[a] = {(int)k, i}; cnt[a] = -1; } else cnt[a] = (int)k;
  }
  m.tr.clear();
  std::set<std::array<int, 3>> pf; // triangular faces of prisms do not make boundary
  for (auto &q : m.pr) { pf.insert(sorted(std::array<int, 3>{{q.v[0], q.v[1], q.v[2]}})); pf.insert(sorted(std::array<int, 3>{{q.v[3], q.v[4], q.v[5]}})); }
  for (auto &x : f) {
    int k = x.second.first, i = x.second.second, o = cnt[x.first];
    if (o >= 0 && m.te[k].ref == m.te[o].ref) continue;
    Tri t; for (int j = 0; j < 3; j++) t.v[j] = m.te[k].v[FACE[i][j]];
    V3 n = m.nrm(t), c = (1. / 3) * (m.X(t.v[0]) + m.X(t.v[1]) + m.X(t.v[2]));
    t.ref = rf(n, c, m.te[k].ref, o >= 0 ? m.te[o].ref : -1);
    m.tr.push_back(t);
  }
}
inline void orient(PM &m) { for (auto &t : m.te) if (m.vol(t) < 0) std::swap(t.v[2], t.v[3]); }

// Kuhn grid: nx*ny*nz cubes of 6 tets; cell(i,j,k) < 0 = hole, else the reference; mp maps [0,nx]x[0,ny]x[0,nz] to space
inline PM grid(int nx, int ny, int nz, std::function<int(int, int, int)> cell = nullptr, std::function<V3(double, double, double)> mp = nullptr, FRef rf = axisref) {
  PM m; std::map<int, int> id; // compact numbering
  auto V = [&](int i, int j, int k) {
    int g = (k * (ny + 1) + j) * (nx + 1) + i; auto it = id.find(g); if (it != id.end()) return it->second;
    V3 x = mp ? mp(i, j, k) : V3{{(double)i / nx, (double)j / nx, (double)k / nx}};
    return id[g] = m.addv(x);
  };
  static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  for (int k = 0; k < nz; k++) for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) {
    int r = cell ? cell(i, j, k) : 1; if (r < 0) continue;
    for (auto &q : P) {
      int c[3] = {i, j, k}; Tet t; t.ref = r; t.v[0] = V(c[0], c[1], c[2]);
      for (int s = 0; s < 3; s++) { c[q[s]]++; t.v[s + 1] = V(c[0], c[1], c[2]); }
      m.te.push_back(t);
    }
  }
  orient(m); boundary(m, rf); return m;
}
inline PM cube5() { // 5 tets
  PM m; for (int i = 0; i < 8; i++) m.addv({{(double)(i & 1), (double)(i >> 1 & 1), (double)(i >> 2)}});
  int T[5][4] = {{1, 2, 3, 5}, {4, 3, 2, 8}, {6, 5, 8, 2}, {7, 8, 5, 3}, {2, 3, 5, 8}};
  for (auto &q : T) { Tet t; for (int i = 0; i < 4; i++) t.v[i] = q[i]; t.ref = 1; m.te.push_back(t); }
  orient(m); boundary(m); return m;
}
inline PM tetra1() {
  PM m; m.addv({{0, 0, 0}}); m.addv({{1, 0, 0}}); m.addv({{0, 1, 0}}); m.addv({{0, 0, 1}});
  Tet t; t.v = {{1, 2, 3, 4}}; t.ref = 1; m.te.push_back(t);
  boundary(m, [](const V3 &n, const V3 &, int, int) { return n[0] < -.1 ? 1 : n[1] < -.1 ? 2 : n[2] < -.1 ? 3 : 4; }); return m;
}
inline PM tetra2(int r2 = 2) { // two tets sharing a face
  PM m = tetra1(); m.addv({{1, 1, 1}}); Tet t; t.v = {{2, 3, 4, 5}}; t.ref = r2; m.te.push_back(t);
  orient(m); boundary(m, [](const V3 &n, const V3 &c, int, int b) { return b >= 0 ? 10 : 1 + (n[0] > 0) + 2 * (n[1] > 0) + 4 * (n[2] > 0) + (c[0] > .5 ? 20 : 0); }); return m;
}
inline PM octa() { // 8 tets around the origin
  PM m; int o = m.addv({{0, 0, 0}});
  int a[6]; double s[6][3] = {{1, 0, 0}, {-1, 0, 0}, {0, 1, 0}, {0, -1, 0}, {0, 0, 1}, {0, 0, -1}};
  for (int i = 0; i < 6; i++) a[i] = m.addv({{s[i][0], s[i][1], s[i][2]}});
  for (int x = 0; x < 2; x++) for (int y = 2; y < 4; y++) for (int z = 4; z < 6; z++) { Tet t; t.v = {{o, a[x], a[y], a[z]}}; t.ref = 1; m.te.push_back(t); }
  orient(m); boundary(m, [](const V3 &, const V3 &, int, int) { return 1; }); return m;
}
// cube grid mapped onto the ball
inline V3 toball(double x, double y, double z) { // [-1,1]^3 -> unit ball
  double a = std::max(std::fabs(x), std::max(std::fabs(y), std::fabs(z))), n = std::sqrt(x * x + y * y + z * z);
  if (n < 1e-12) return {{0, 0, 0}};
  return {{x * a / n, y * a / n, z * a / n}};
}
inline PM ball(int n, std::function<int(int, int, int)> cell = nullptr) {
  return grid(n, n, n, cell, [n](double i, double j, double k) { return toball(2 * i / n - 1, 2 * j / n - 1, 2 * k / n - 1); },
              [](const V3 &, const V3 &, int, int b) { return b >= 0 ? 10 : 1; });
}
// 2D grid of triangles
inline void edges2d(PM &m, std::function<int(const V3 &, const V3 &, int, int)> rf = nullptr) { // boundary / interface edges
  std::map<std::array<int, 2>, std::array<int, 4>> e; // a b tri1 tri2
  for (size_t k = 0; k < m.tr.size(); k++) for (int i = 0; i < 3; i++) {
    int a = m.tr[k].v[i], b = m.tr[k].v[(i + 1) % 3]; auto it = e.find(key(a, b));
    if (it == e.end()) e[key(a, b)] = {{a, b, (int)k, -1}}; else it->second[3] = (int)k;
  }
  m.ed.clear();
  for (auto &x : e) {
    int r1 = m.tr[x.second[2]].ref, r2 = x.second[3] >= 0 ? m.tr[x.second[3]].ref : -1; if (r1 == r2) continue;
    Edg d; d.v = {{x.second[0], x.second[1]}}; V3 A = m.X(d.v[0]), B = m.X(d.v[1]), t = B - A;
    d.ref = rf ? rf(t, 0.5 * (A + B), r1, r2) : r2 >= 0 ? 10 : std::fabs(t[0]) > std::fabs(t[1]) ? (t[0] > 0 ? 1 : 3) : (t[1] > 0 ? 2 : 4);
    m.ed.push_back(d);
  }
}
inline PM grid2(int nx, int ny, std::function<int(int, int)> cell = nullptr, std::function<V3(double, double)> mp = nullptr) {
  PM m(2); std::map<int, int> id;
  auto V = [&](int i, int j) { int g = j * (nx + 1) + i; auto it = id.find(g); if (it != id.end()) return it->second; return id[g] = m.addv(mp ? mp(i, j) : V3{{(double)i / nx, (double)j / nx, 0}}); };
  for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) {
    int r = cell ? cell(i, j) : 1; if (r < 0) continue;
    Tri t; t.ref = r; bool alt = (i + j) & 1;
    int a = V(i, j), b = V(i + 1, j), c = V(i + 1, j + 1), d = V(i, j + 1);
    if (!alt) { t.v = {{a, b, c}}; m.tr.push_back(t); t.v = {{a, c, d}}; m.tr.push_back(t); }
    else { t.v = {{a, b, d}}; m.tr.push_back(t); t.v = {{b, c, d}}; m.tr.push_back(t); }
  }
  edges2d(m); return m;
}
// surface of a volume mesh (keeps the triangle references)
inline PM surface_of(const PM &v) {
  PM m(3); std::vector<int> id(v.p.size(), 0);
  for (auto &t : v.tr) { Tri s = t; for (int &x : s.v) { if (!id[x]) { m.p.push_back(v.p[x]); id[x] = m.np(); } x = id[x]; } m.tr.push_back(s); }
  for (auto &e : v.ed) if (id[e.v[0]] && id[e.v[1]]) { Edg s = e; for (int &x : s.v) x = id[x]; m.ed.push_back(s); }
  return m;
}
// a 2D mesh as a surface in space
inline PM lift(const PM &a, std::function<V3(const V3 &)> f) { PM m = a; m.dim = 3; for (size_t i = 1; i < m.p.size(); i++) m.p[i].x = f(m.p[i].x); return m; }
inline void compact(PM &m) { // drop vertices that nothing uses
  std::vector<int> id(m.p.size(), 0); std::vector<Vtx> q(1);
  auto go = [&](int &x) { if (!id[x]) { q.push_back(m.p[x]); id[x] = (int)q.size() - 1; } x = id[x]; };
  for (auto &t : m.te) for (int &x : t.v) go(x);
  for (auto &t : m.pr) for (int &x : t.v) go(x);
  for (auto &t : m.tr) for (int &x : t.v) go(x);
  for (auto &t : m.qu) for (int &x : t.v) go(x);
  for (auto &t : m.ed) for (int &x : t.v) go(x);
  m.p = q;
}

// ------------------------------------------------------------------------------------------------ measures
inline double ptseg(const V3 &p, const V3 &a, const V3 &b) {
  V3 d = b - a; double l = dot(d, d), t = l > 0 ? dot(p - a, d) / l : 0; t = t < 0 ? 0 : t > 1 ? 1 : t; return dist(p, a + t * d);
}
inline double pttri(const V3 &p, const V3 &a, const V3 &b, const V3 &c) {
  V3 n = cross(b - a, c - a); double l = dot(n, n);
  if (l > 0) {
    double u = dot(cross(c - b, p - b), n) / l, v = dot(cross(a - c, p - c), n) / l, w = dot(cross(b - a, p - a), n) / l;
    if (u >= 0 && v >= 0 && w >= 0) return std::fabs(dot(p - a, n)) / std::sqrt(l);
  }
  return std::min(ptseg(p, a, b), std::min(ptseg(p, b, c), ptseg(p, c, a)));
}
inline double dist_to_tris(const PM &m, const V3 &x, int ref = -1) {
  double d = 1e300; for (auto &t : m.tr) if (ref < 0 || t.ref == ref) d = std::min(d, pttri(x, m.X(t.v[0]), m.X(t.v[1]), m.X(t.v[2]))); return d;
}
inline double dist_to_edges(const PM &m, const V3 &x, std::function<bool(const Edg &)> f = nullptr) {
  double d = 1e300; for (auto &t : m.ed) if (!f || f(t)) d = std::min(d, ptseg(x, m.X(t.v[0]), m.X(t.v[1]))); return d;
}
inline std::map<int, double> vol_by_ref(const PM &m) { std::map<int, double> r; for (auto &t : m.te) r[t.ref] += m.vol(t); return r; }
inline std::map<int, double> area_by_ref(const PM &m) { std::map<int, double> r; for (auto &t : m.tr) r[t.ref] += m.dim == 2 ? m.area2(t) : m.area(t); return r; }
inline std::map<int, double> len_by_ref(const PM &m) { std::map<int, double> r; for (auto &t : m.ed) r[t.ref] += dist(m.X(t.v[0]), m.X(t.v[1])); return r; }
inline double bbox(const PM &m) { double lo[3] = {1e300, 1e300, 1e300}, hi[3] = {-1e300, -1e300, -1e300}, s = 0; for (int i = 1; i <= m.np(); i++) for (int j = 0; j < 3; j++) { lo[j] = std::min(lo[j], m.p[i].x[j]); hi[j] = std::max(hi[j], m.p[i].x[j]); } for (int j = 0; j < 3; j++) s = std::max(s, hi[j] - lo[j]); return s; }

inline std::string cmp_measure(const char *what, const std::map<int, double> &a, const std::map<int, double> &b, double rel, double abs_) {
  for (auto &x : a) { auto it = b.find(x.first); double v = it == b.end() ? 0 : it->second; if (std::fabs(v - x.second) > rel * std::fabs(x.second) + abs_) return fmt("%s of reference %d: %.6g before, %.6g after", what, x.first, x.second, v); }
  for (auto &x : b) if (!a.count(x.first) && std::fabs(x.second) > abs_) return fmt("%s: reference %d appeared", what, x.first);
  return "";
}

// ------------------------------------------------------------------------------------------------ checkers
// every checker returns "" or "class|detail"
inline std::string chk_indices(const PM &m, bool orphans_ok = false) {
  int n = m.np(); std::vector<char> used(n + 1, 0); std::string e;
  auto one = [&](const int *v, int k, const char *w, size_t i) {
    for (int a = 0; a < k; a++) {
      if (v[a] < 1 || v[a] > n) { e = fmt("index|%s %zu has vertex %d out of 1..%d", w, i + 1, v[a], n); return; }
      for (int b = 0; b < a; b++) if (v[a] == v[b]) { e = fmt("index|%s %zu repeats vertex %d", w, i + 1, v[a]); return; }
    }
  };
#define LOOP(c, w, k, mark) for (size_t i = 0; i < m.c.size() && e.empty(); i++) { one(m.c[i].v.data(), k, w, i); if (e.empty() && mark) for (int j = 0; j < k; j++) used[m.c[i].v[j]] = 1; }
  LOOP(te, "tetrahedron", 4, 1) LOOP(pr, "prism", 6, 1) LOOP(tr, "triangle", 3, 1) LOOP(qu, "quadrilateral", 4, 1) LOOP(ed, "edge", 2, 0)
#undef LOOP
  if (!e.empty()) return e;
  for (int i = 1; i <= n; i++) {
    for (int j = 0; j < 3; j++) if (!std::isfinite(m.p[i].x[j])) return fmt("coord|vertex %d has a non finite coordinate", i);
    if (!used[i] && !orphans_ok) return fmt("orphan|vertex %d belongs to no element", i);
  }
  return "";
}
// conforming, positively oriented tetrahedral mesh; every boundary and interface face exactly once in the triangles
struct Chk3 { bool opnbdy = false, orphans_ok = false, triangles = true; double minvol = 0; bool iface_tria = true; };
inline std::string chk_tetmesh(const PM &m, Chk3 o = Chk3()) {
  std::string e = chk_indices(m, o.orphans_ok); if (!e.empty()) return e;
  struct F { int n = 0, t[2] = {-1, -1}; int sgn[2] = {0, 0}; bool prism = false; };
  std::map<std::array<int, 3>, F> f; std::set<std::array<int, 4>> seen;
  auto par = [](const std::array<int, 3> &a) { return ((a[0] > a[1]) + (a[0] > a[2]) + (a[1] > a[2])) & 1 ? -1 : 1; };
  for (size_t k = 0; k < m.te.size(); k++) {
    double v = m.vol(m.te[k]);
    if (!(v > o.minvol)) return fmt("volume|tetrahedron %zu has volume %.3g", k + 1, v);
    if (!seen.insert(sorted(m.te[k].v)).second) return fmt("duplicate|tetrahedron %zu appears twice", k + 1);
    for (int i = 0; i < 4; i++) {
      std::array<int, 3> a{{m.te[k].v[FACE[i][0]], m.te[k].v[FACE[i][1]], m.te[k].v[FACE[i][2]]}};
      F &x = f[sorted(a)]; if (x.n >= 2) return fmt("conformity|face %d %d %d belongs to more than two tetrahedra", a[0], a[1], a[2]);
      x.t[x.n] = (int)k; x.sgn[x.n] = par(a); x.n++;
    }
  }
  for (auto &q : m.pr) for (int s = 0; s < 2; s++) { auto it = f.find(sorted(std::array<int, 3>{{q.v[3 * s], q.v[3 * s + 1], q.v[3 * s + 2]}})); if (it != f.end()) it->second.prism = true; }
  for (auto &x : f) if (x.second.n == 2 && x.second.sgn[0] == x.second.sgn[1]) return fmt("conformity|tetrahedra %d and %d lie on the same side of their common face", x.second.t[0] + 1, x.second.t[1] + 1);
  if (!o.triangles) return "";
  std::map<std::array<int, 3>, int> tc;
  for (size_t k = 0; k < m.tr.size(); k++) {
    auto a = sorted(m.tr[k].v); if (tc[a]++) return fmt("triangle|triangle %zu (%d %d %d) appears twice", k + 1, a[0], a[1], a[2]);
    auto it = f.find(a);
    bool onpr = false; if (it == f.end()) for (auto &q : m.pr) for (int s = 0; s < 2; s++) if (sorted(std::array<int, 3>{{q.v[3 * s], q.v[3 * s + 1], q.v[3 * s + 2]}}) == a) onpr = true;
    if (it == f.end() && !onpr) return fmt("triangle|triangle %zu (%d %d %d) is not a face of the mesh", k + 1, a[0], a[1], a[2]);
    if (it != f.end() && it->second.n == 2 && m.te[it->second.t[0]].ref == m.te[it->second.t[1]].ref && !o.opnbdy && !m.tr[k].req) return fmt("triangle|triangle %zu (%d %d %d) is inside a single domain", k + 1, a[0], a[1], a[2]);
  }
  for (auto &x : f) {
    bool b = (x.second.n == 1 && !x.second.prism) || (o.iface_tria && x.second.n == 2 && m.te[x.second.t[0]].ref != m.te[x.second.t[1]].ref);
    if (b && !tc.count(x.first)) return fmt("triangle|boundary face %d %d %d has no triangle", x.first[0], x.first[1], x.first[2]);
  }
  // edges of the mesh
  std::set<std::array<int, 2>> me, el;
  for (auto &t : m.te) for (int a = 0; a < 4; a++) for (int b = 0; b < a; b++) me.insert(key(t.v[a], t.v[b]));
  for (auto &q : m.pr) for (int a = 0; a < 6; a++) for (int b = 0; b < a; b++) me.insert(key(q.v[a], q.v[b]));
  for (size_t k = 0; k < m.ed.size(); k++) {
    auto a = key(m.ed[k].v[0], m.ed[k].v[1]); if (!el.insert(a).second) return fmt("edge|edge %zu (%d %d) appears twice", k + 1, a[0], a[1]);
    if (!me.count(a)) return fmt("edge|edge %zu (%d %d) is not an edge of an element", k + 1, a[0], a[1]);
  }
  return "";
}
// conforming, positively oriented planar triangulation; boundary and interface edges exactly once
inline std::string chk_trimesh2(const PM &m, bool opn = false, bool need_edges = true) {
  std::string e = chk_indices(m); if (!e.empty()) return e;
  std::map<std::array<int, 2>, std::array<int, 2>> f; std::map<std::array<int, 2>, int> dir, cnt; std::set<std::array<int, 3>> seen;
  for (size_t k = 0; k < m.tr.size(); k++) {
    if (!(m.area2(m.tr[k]) > 0)) return fmt("area|triangle %zu has area %.3g", k + 1, m.area2(m.tr[k]));
    if (!seen.insert(sorted(m.tr[k].v)).second) return fmt("duplicate|triangle %zu appears twice", k + 1);
    for (int i = 0; i < 3; i++) {
      int a = m.tr[k].v[i], b = m.tr[k].v[(i + 1) % 3]; auto q = key(a, b);
      if (dir.count({{a, b}})) return fmt("conformity|edge %d %d has two triangles on the same side", a, b);
      dir[{{a, b}}] = 1; auto &x = f[q]; if (!cnt[q]) x = {{(int)k, -1}}; else x[1] = (int)k; cnt[q]++;
    }
  }
  std::set<std::array<int, 2>> qe; for (auto &q : m.qu) for (int i = 0; i < 4; i++) qe.insert(key(q.v[i], q.v[(i + 1) % 4]));
  std::set<std::array<int, 2>> el;
  for (size_t k = 0; k < m.ed.size(); k++) {
    auto a = key(m.ed[k].v[0], m.ed[k].v[1]); if (!el.insert(a).second) return fmt("edge|edge %zu (%d %d) appears twice", k + 1, a[0], a[1]);
    auto it = f.find(a); if (it == f.end()) { if (qe.count(a)) continue; return fmt("edge|edge %zu (%d %d) is not an edge of a triangle", k + 1, a[0], a[1]); }
    if (cnt[a] == 2 && m.tr[it->second[0]].ref == m.tr[it->second[1]].ref && !opn && !m.ed[k].req) return fmt("edge|edge %zu (%d %d) is inside a single domain", k + 1, a[0], a[1]);
  }
  if (need_edges) for (auto &x : f) {
    bool b = (cnt[x.first] == 1 && !qe.count(x.first)) || (cnt[x.first] == 2 && m.tr[x.second[0]].ref != m.tr[x.second[1]].ref);
    if (b && !el.count(x.first)) return fmt("edge|boundary edge %d %d is not in the edges", x.first[0], x.first[1]);
  }
  return "";
}
// topology of a triangulated surface
struct Topo { int comps = 0, euler = 0, loops = 0, nonmanifold = 0, badorient = 0, openedges = 0; bool operator==(const Topo &o) const { return comps == o.comps && euler == o.euler && loops == o.loops && (nonmanifold > 0) == (o.nonmanifold > 0); } };
inline Topo topo(const PM &m) {
  Topo T; std::map<std::array<int, 2>, int> c; std::map<std::array<int, 2>, int> d; std::vector<int> uf(m.p.size()), used(m.p.size(), 0), uo(m.p.size()); for (size_t i = 0; i < uf.size(); i++) uf[i] = uo[i] = (int)i;
  std::function<int(std::vector<int> &, int)> fd = [&](std::vector<int> &u, int x) { while (u[x] != x) x = u[x] = u[u[x]]; return x; };
  for (auto &t : m.tr) for (int i = 0; i < 3; i++) { int a = t.v[i], b = t.v[(i + 1) % 3]; c[key(a, b)]++; d[{{a, b}}]++; used[a] = 1; uf[fd(uf, a)] = fd(uf, b); }
  int nv = 0; for (size_t i = 1; i < uf.size(); i++) if (used[i]) { nv++; if (fd(uf, (int)i) == (int)i) T.comps++; }
  std::set<int> on;
  for (auto &x : c) {
    if (x.second > 2) T.nonmanifold++;
    if (x.second == 1) { T.openedges++; uo[fd(uo, x.first[0])] = fd(uo, x.first[1]); on.insert(x.first[0]); on.insert(x.first[1]); }
    if (x.second == 2 && d[x.first] != 1) T.badorient++;
  }
  for (int i : on) if (fd(uo, i) == i) T.loops++;
  T.euler = nv - (int)c.size() + (int)m.tr.size();
  return T;
}
inline std::string chk_surface(const PM &m) {
  std::string e = chk_indices(m); if (!e.empty()) return e;
  std::set<std::array<int, 3>> seen; std::set<std::array<int, 2>> me, el;
  for (size_t k = 0; k < m.tr.size(); k++) {
    if (!(m.area(m.tr[k]) > 0)) return fmt("area|triangle %zu is degenerate", k + 1);
    if (!seen.insert(sorted(m.tr[k].v)).second) return fmt("duplicate|triangle %zu appears twice", k + 1);
    for (int i = 0; i < 3; i++) me.insert(key(m.tr[k].v[i], m.tr[k].v[(i + 1) % 3]));
  }
  for (size_t k = 0; k < m.ed.size(); k++) {
    auto a = key(m.ed[k].v[0], m.ed[k].v[1]); if (!el.insert(a).second) return fmt("edge|edge %zu (%d %d) appears twice", k + 1, a[0], a[1]);
    if (!me.count(a)) return fmt("edge|edge %zu (%d %d) is not an edge of a triangle", k + 1, a[0], a[1]);
  }
  return "";
}
// number of connected components of the tetrahedra / triangles of each reference (through faces / edges)
inline std::map<int, int> comps_by_ref(const PM &m) {
  std::map<int, int> r; bool d3 = !m.te.empty(); size_t n = d3 ? m.te.size() : m.tr.size(); std::vector<int> u(n); for (size_t i = 0; i < n; i++) u[i] = (int)i;
  std::function<int(int)> fd = [&](int x) { while (u[x] != x) x = u[x] = u[u[x]]; return x; };
  if (d3) { std::map<std::array<int, 3>, int> f; for (size_t k = 0; k < n; k++) for (int i = 0; i < 4; i++) { auto a = sorted(std::array<int, 3>{{m.te[k].v[FACE[i][0]], m.te[k].v[FACE[i][1]], m.te[k].v[FACE[i][2]]}}); auto it = f.find(a); if (it == f.end()) f[a] = (int)k; else if (m.te[it->second].ref == m.te[k].ref) u[fd((int)k)] = fd(it->second); } }
  else { std::map<std::array<int, 2>, int> f; for (size_t k = 0; k < n; k++) for (int i = 0; i < 3; i++) { auto a = key(m.tr[k].v[i], m.tr[k].v[(i + 1) % 3]); auto it = f.find(a); if (it == f.end()) f[a] = (int)k; else if (m.tr[it->second].ref == m.tr[k].ref) u[fd((int)k)] = fd(it->second); } }
  for (size_t k = 0; k < n; k++) if (fd((int)k) == (int)k) r[d3 ? m.te[k].ref : m.tr[k].ref]++;
  return r;
}
// vertex of b at exactly the position of x (0 = none)
inline int find_at(const PM &b, const V3 &x, double tol) { int best = 0; double bd = tol; for (int i = 1; i <= b.np(); i++) { double d = dist(b.X(i), x); if (d <= bd) { bd = d; best = i; } } return best; }

inline uint64_t hash_mesh(const PM &m) {
  uint64_t h = 1469598103934665603ull; auto add = [&](const void *p, size_t n) { const unsigned char *c = (const unsigned char *)p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; } };
  for (int i = 1; i <= m.np(); i++) { add(m.p[i].x.data(), 24); add(&m.p[i].ref, 4); int f = m.p[i].corner + 2 * m.p[i].req; add(&f, 4); }
#define H(c) for (auto &t : m.c) { add(t.v.data(), sizeof t.v); add(&t.ref, 4); int f = t.req + 2 * t.ridge; add(&f, 4); }
  H(te) H(pr) H(tr) H(qu) H(ed)
#undef H
  return h;
}
inline std::string dims(const PM &m) { return fmt("np=%d ne=%zu nt=%zu na=%zu", m.np(), m.te.size(), m.tr.size(), m.ed.size()); }
