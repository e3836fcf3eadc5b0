// Level-set discretisation (C08: volume, C09: planar, C10: surfaces and boundary parts).
#include "jobs.hpp"
#include <memory>

struct Mat { int ref, split, rin, rex; };
struct LJob { char mod = '3'; PM in; std::vector<double> f; double ls = 0; bool surf = false, cut = true, flat = true; std::vector<std::pair<P, double>> pars; std::vector<Mat> mats; std::vector<int> base; Sols met; int isoref = 10; double rmc = 0; bool keep = false, big = false; double ptol = 0; double ftol = 2e-3; bool usemet = false; std::string names; int twice = 0; std::map<int, int> parent; /* references left by a previous discretisation, with the material they come from */
  double par(P p, double d) const { for (auto &x : pars) if (x.first == p) d = x.second; return d; } };
struct Cell { int n; std::array<int, 4> v; int ref; };
static std::vector<Cell> cells(const LJob &j, const PM &m) {
  std::vector<Cell> c;
  if (j.mod == '3' && !j.surf) for (auto &t : m.te) c.push_back({4, {{t.v[0], t.v[1], t.v[2], t.v[3]}}, t.ref});
  else if (j.mod == '2' && j.surf) for (auto &e : m.ed) c.push_back({2, {{e.v[0], e.v[1], 0, 0}}, e.ref});
  else for (auto &t : m.tr) c.push_back({3, {{t.v[0], t.v[1], t.v[2], 0}}, t.ref});
  if (&m == &j.in && !j.parent.empty()) for (auto &x : c) { auto it = j.parent.find(x.ref); if (it != j.parent.end()) x.ref = it->second; }
  return c;
}
static double meas(const PM &m, const Cell &c) { auto &v = c.v; if (c.n == 4) { V3 a = m.X(v[1]) - m.X(v[0]), b = m.X(v[2]) - m.X(v[0]), d = m.X(v[3]) - m.X(v[0]); return std::fabs(dot(cross(a, b), d)) / 6; } if (c.n == 3) return norm(cross(m.X(v[1]) - m.X(v[0]), m.X(v[2]) - m.X(v[0]))) / 2; return dist(m.X(v[0]), m.X(v[1])); }
// part of a simplex where the linear function is negative
static double negfrac(std::vector<double> f) {
  int n = (int)f.size(), k = 0; std::sort(f.begin(), f.end()); for (double x : f) k += x < 0; if (!k) return 0; if (k == n) return 1;
  if (k == 1) { double p = 1; for (int i = 1; i < n; i++) p *= f[0] / (f[0] - f[i]); return p; }
  if (k == n - 1) { double p = 1; for (int i = 0; i < n - 1; i++) p *= f[n - 1] / (f[n - 1] - f[i]); return 1 - p; }
  // two negative among four: prism in barycentric coordinates
  typedef std::array<double, 4> B; auto cut = [&](int a, int b) { B r{{0, 0, 0, 0}}; double s = f[a] / (f[a] - f[b]); r[a] = 1 - s; r[b] = s; return r; };
  B a{{1, 0, 0, 0}}, b{{0, 1, 0, 0}}, ac = cut(0, 2), ad = cut(0, 3), bc = cut(1, 2), bd = cut(1, 3);
  auto det4 = [](B p, B q, B r, B s) { double m[4][4]; for (int i = 0; i < 4; i++) { m[0][i] = p[i]; m[1][i] = q[i]; m[2][i] = r[i]; m[3][i] = s[i]; } double d = 1; for (int i = 0; i < 4; i++) { int p2 = i; for (int q2 = i; q2 < 4; q2++) if (std::fabs(m[q2][i]) > std::fabs(m[p2][i])) p2 = q2; if (m[p2][i] == 0) return 0.; if (p2 != i) { std::swap(m[p2], m[i]); d = -d; } d *= m[i][i]; for (int q2 = i + 1; q2 < 4; q2++) { double t = m[q2][i] / m[i][i]; for (int c = i; c < 4; c++) m[q2][c] -= t * m[i][c]; } } return std::fabs(d); };
  return det4(a, ac, ad, b) + det4(ac, ad, b, bc) + det4(ad, b, bc, bd);
}
static double minheight(const PM &m, const Cell &c) { double a = meas(m, c), h = 0; for (int i = 0; i < c.n; i++) for (int k = 0; k < i; k++) h = std::max(h, dist(m.X(c.v[i]), m.X(c.v[k]))); return c.n == 2 ? h : c.n == 3 ? 2 * a / h : 6 * a / (h * h); }
// value of the piecewise linear function at a point (nearest cell), with the distance to that cell
struct Loc1 { const LJob &j; std::vector<Cell> C; explicit Loc1(const LJob &q) : j(q), C(cells(q, q.in)) {}
  double at(const V3 &x) const {
    double best = 1e300, val = 0;
    for (auto &c : C) {
      const V3 &a = j.in.X(c.v[0]); int n = c.n - 1; double G[3][4] = {{0}}; V3 e[3]; for (int i = 0; i < n; i++) e[i] = j.in.X(c.v[i + 1]) - a;
      for (int i = 0; i < n; i++) { for (int k = 0; k < n; k++) G[i][k] = dot(e[i], e[k]); G[i][3] = dot(e[i], x - a); }
      for (int i = 0; i < n; i++) { int p = i; for (int q = i; q < n; q++) if (std::fabs(G[q][i]) > std::fabs(G[p][i])) p = q; if (G[p][i] == 0) break; std::swap(G[p], G[i]); for (int q = 0; q < n; q++) if (q != i) { double t = G[q][i] / G[i][i]; for (int k = i; k < 4; k++) if (k < n || k == 3) G[q][k] -= t * G[i][k]; } }
      double l[4]; l[0] = 1; for (int i = 0; i < n; i++) { l[i + 1] = G[i][3] / G[i][i]; l[0] -= l[i + 1]; }
      double s = 0; for (int i = 0; i <= n; i++) { l[i] = std::max(0., l[i]); s += l[i]; } V3 y{{0, 0, 0}}; double v = 0; for (int i = 0; i <= n; i++) { y = y + (l[i] / s) * j.in.X(c.v[i]); v += l[i] / s * (j.f[c.v[i] - 1] - j.ls); }
      double d = dist(x, y); if (d < best) { best = d; val = v; if (d < 1e-12) break; }
    }
    return val;
  }
};
static const Mat *mat(const LJob &j, int ref) { for (auto &m : j.mats) if (m.ref == ref) return &m; return 0; }
static bool splits(const LJob &j, int ref, int &rin, int &rex) { rin = 3; rex = 2; if (j.keep) return false; if (j.mats.empty()) return true; auto *m = mat(j, ref); if (!m || !m->split) return false; rin = m->rin; rex = m->rex; return true; }
// small components (and negative ones touching no base reference) change side: the field after this step
static std::vector<double> cleaned(const LJob &j) {
  std::vector<double> f; for (double x : j.f) f.push_back(std::fabs(x - j.ls) < 1e-6 ? 0 : x - j.ls); if (j.rmc <= 0) return f;
  auto C = cells(j, j.in); double tot = 0; for (auto &c : C) tot += meas(j.in, c);
  for (int s = 1; s >= -1; s -= 2) {
    int n = j.in.np(); std::vector<int> id(n + 1); for (int i = 1; i <= n; i++) id[i] = i; std::function<int(int)> root = [&](int a) { while (id[a] != a) a = id[a] = id[id[a]]; return a; };
    for (auto &c : C) { int first = 0; for (int i = 0; i < c.n; i++) if (s * f[c.v[i] - 1] > 0) { if (!first) first = c.v[i]; else id[root(c.v[i])] = root(first); } }
    std::map<int, double> vol; std::set<int> based;
    for (auto &c : C) { std::vector<double> g; int a = 0; for (int i = 0; i < c.n; i++) { g.push_back(s * -f[c.v[i] - 1]); if (s * f[c.v[i] - 1] > 0) a = c.v[i]; } if (a) vol[root(a)] += negfrac(g) * meas(j.in, c); }
    if (s < 0 && !j.base.empty()) { auto mark = [&](int ref, const int *v, int n) { for (int b : j.base) if (b == ref) for (int i = 0; i < n; i++) if (f[v[i] - 1] < 0) based.insert(root(v[i])); }; if (j.mod == '3') for (auto &t : j.in.tr) mark(t.ref, t.v.data(), 3); else for (auto &e : j.in.ed) mark(e.ref, e.v.data(), 2); }
    for (auto &x : vol) if (x.second < j.rmc * tot || (s < 0 && !j.base.empty() && !based.count(x.first))) for (int i = 1; i <= n; i++) if (s * f[i - 1] > 0 && root(i) == x.first) f[i - 1] = -s * 1e-4;
  }
  return f;
}
// measure of the smallest part of one sign, relative to the whole
static double smallest(const LJob &j, int s) {
  std::vector<double> f; for (double x : j.f) f.push_back(std::fabs(x - j.ls) < 1e-6 ? 0 : x - j.ls); int n = j.in.np(); std::vector<int> id(n + 1); for (int i = 1; i <= n; i++) id[i] = i;
  std::function<int(int)> root = [&](int a) { while (id[a] != a) a = id[a] = id[id[a]]; return a; }; auto C = cells(j, j.in); double tot = 0; std::map<int, double> vol;
  for (auto &c : C) { int first = 0; tot += meas(j.in, c); for (int i = 0; i < c.n; i++) if (s * f[c.v[i] - 1] > 0) { if (!first) first = c.v[i]; else id[root(c.v[i])] = root(first); } }
  for (auto &c : C) { std::vector<double> g; int a = 0; for (int i = 0; i < c.n; i++) { g.push_back(s * -f[c.v[i] - 1]); if (s * f[c.v[i] - 1] > 0) a = c.v[i]; } if (a) vol[root(a)] += negfrac(g) * meas(j.in, c); }
  double m = 1; for (auto &x : vol) m = std::min(m, x.second / tot); return m;
}
static std::map<int, double> expected(const LJob &j, bool &ambiguous) {
  std::map<int, double> r; ambiguous = false; auto F = cleaned(j);
  for (auto &c : cells(j, j.in)) { double a = meas(j.in, c); int rin, rex; if (!splits(j, c.ref, rin, rex)) { r[c.ref] += a; continue; } std::vector<double> f; bool allz = true; for (int i = 0; i < c.n; i++) { double x = F[c.v[i] - 1]; if (x != 0) allz = false; f.push_back(x); } if (allz) ambiguous = true; double q = negfrac(f); r[rin] += q * a; r[rex] += (1 - q) * a; }
  for (auto it = r.begin(); it != r.end();) if (it->second < 1e-13) it = r.erase(it); else ++it;
  return r;
}
static std::map<int, double> bymeas(const LJob &j, const PM &m) { std::map<int, double> r; for (auto &c : cells(j, m)) r[c.ref] += meas(m, c); return r; }
typedef std::vector<int> VK;
static std::map<VK, std::vector<int>> facets(const std::vector<Cell> &C) { std::map<VK, std::vector<int>> f; for (auto &c : C) for (int i = 0; i < c.n; i++) { VK k; for (int q = 0; q < c.n; q++) if (q != i) k.push_back(c.v[q]); std::sort(k.begin(), k.end()); f[k].push_back(c.ref); } return f; }
// outer boundary measures by reference
static std::map<int, double> outer(const LJob &j, const PM &m) {
  std::map<int, double> r; LJob q; q.mod = j.mod; std::map<VK, int> cnt; if (j.surf || j.mod == 's') return r;
  auto F = facets(cells(q, m)); if (j.mod == '3') { for (auto &t : m.tr) { VK k(t.v.begin(), t.v.end()); std::sort(k.begin(), k.end()); auto it = F.find(k); if (it != F.end() && it->second.size() == 1) r[t.ref] += m.area(t); } } else for (auto &e : m.ed) { VK k(e.v.begin(), e.v.end()); std::sort(k.begin(), k.end()); auto it = F.find(k); if (it != F.end() && it->second.size() == 1) r[e.ref] += dist(m.X(e.v[0]), m.X(e.v[1])); }
  return r;
}
static std::string mstr(const std::map<int, double> &a) { std::string s; for (auto &x : a) s += fmt(" %d:%.6g", x.first, x.second); return s; }
static std::string cmpm(const char *what, const std::map<int, double> &a, const std::map<int, double> &b, double tol) { std::set<int> k; for (auto &x : a) k.insert(x.first); for (auto &x : b) k.insert(x.first); for (int i : k) { double u = a.count(i) ? a.at(i) : 0, v = b.count(i) ? b.at(i) : 0; if (std::fabs(u - v) > tol) return fmt("%s: expected%s, got%s", what, mstr(a).c_str(), mstr(b).c_str()); } return ""; }

static bool flatedge(const LJob &j) { for (auto &c : cells(j, j.in)) for (int i = 0; i < c.n; i++) for (int k = 0; k < i; k++) if (std::fabs(j.f[c.v[i] - 1] - j.ls) < 1e-6 && std::fabs(j.f[c.v[k] - 1] - j.ls) < 1e-6) return true; return false; }
static std::string judge(const LJob &j, const PM &o) {
  std::string e; double L = bbox(j.in);
  // ---- valid mesh
  if (j.mod == '3') { Chk3 k; k.opnbdy = j.par(P_opnbdy, 0) > 0; e = chk_tetmesh(o, k); } else if (j.mod == '2') e = chk_trimesh2(o, j.par(P_opnbdy, 0) > 0, !j.surf); else e = chk_surface(o);
  if (!e.empty()) return e;
  // ---- measures of the parts
  bool amb; auto want = expected(j, amb), got = bymeas(j, o); double tot = 0; for (auto &x : want) tot += x.second; double mt = (j.ptol > 0 ? j.ptol : j.cut ? 3e-3 : .08) * tot + 1e-12;
  if (j.cut && !amb) { if (!(e = cmpm("parts|measure of the parts", want, got, mt)).empty()) return e; for (auto &x : got) if (!want.count(x.first) && x.second > mt) return fmt("parts|reference %d is not expected", x.first); }
  for (auto &x : got) { bool known = want.count(x.first); for (auto &c : cells(j, j.in)) { int a, b; if (splits(j, c.ref, a, b)) known |= x.first == a || x.first == b; else known |= x.first == c.ref; } if (!known) return fmt("parts|unknown reference %d", x.first); }
  { double g = 0; for (auto &x : got) g += x.second; if (std::fabs(g - tot) > (j.flat || (j.cut && j.mod != 's') ? (j.mod == 's' && !j.cut ? 3e-3 : 1e-5) : .08) * tot) return fmt("parts|the whole measure goes from %.8g to %.8g", tot, g); }
  if (!j.cut && !amb) if (!(e = cmpm("parts|measure of the parts", want, got, mt)).empty()) return e;
  // ---- outer boundary keeps its references
  if (j.flat && !flatedge(j)) { auto a = outer(j, j.in), b = outer(j, o); if (!(e = cmpm("boundary|outer boundary", a, b, 1e-6 * (1 + L * L))).empty()) return e; }
  if (j.surf && j.mod == '3') { if (!(e = cmp_measure("volume|volume", vol_by_ref(j.in), vol_by_ref(o), j.flat ? 1e-7 : .2, 1e-9)).empty()) return e; }
  if (j.surf && j.mod == '2') { if (!(e = cmp_measure("area|area", area_by_ref(j.in), area_by_ref(o), j.flat ? 1e-7 : .2, 1e-9)).empty()) return e; }
  // ---- the interface entities are exactly the facets between an inner and an outer part
  Loc1 loc(j); std::set<int> rin, rex; for (auto &c : cells(j, j.in)) { int a, b; if (splits(j, c.ref, a, b)) { rin.insert(a); rex.insert(b); } }
  auto O = cells(j, o); auto F = facets(O); std::set<VK> iso;
  if (j.mod == '3' && !j.surf) { for (auto &t : o.tr) if (t.ref == j.isoref) { VK k(t.v.begin(), t.v.end()); std::sort(k.begin(), k.end()); iso.insert(k); } }
  else if (!(j.mod == '2' && j.surf)) { for (auto &t : o.ed) if (t.ref == j.isoref) { VK k(t.v.begin(), t.v.end()); std::sort(k.begin(), k.end()); iso.insert(k); } }
  else for (int i = 1; i <= o.np(); i++) if (o.p[i].ref == j.isoref) iso.insert(VK{i});
  auto pair_of = [&](int a, int b) { if (j.keep) return false; if (j.mats.empty()) return (a == 2 && b == 3) || (a == 3 && b == 2); for (auto &m : j.mats) if (m.split && ((a == m.rin && b == m.rex) || (b == m.rin && a == m.rex))) return true; return false; };
  auto anyiso = [&](int a, int b) { return j.keep || (rin.count(a) && rex.count(b)) || (rin.count(b) && rex.count(a)); };
  auto zeroent = [&](const VK &k) { for (int v : k) { bool z = false; for (int i = 1; i <= j.in.np() && !z; i++) z = std::fabs(j.f[i - 1] - j.ls) < 1e-6 && dist(j.in.X(i), o.X(v)) < 1e-6; if (!z) return false; } return true; }; // on boundaries, input vertices with value zero belong to the interface
  std::map<VK, int> ridges; int niso = 0; double worst = 0, lw = 0;
  for (auto &x : F) { bool sep = x.second.size() == 2 && pair_of(x.second[0], x.second[1]); if (sep && !iso.count(x.first)) return fmt("interface|a facet between references %d and %d is not listed with the interface reference", x.second[0], x.second[1]); niso += sep; }
  for (auto &k : iso) { auto it = F.find(k); if (it == F.end() && j.surf && zeroent(k)) continue; if (it == F.end()) return "interface|an interface entity is no facet of the mesh"; if (!(it->second.size() == 1 && (j.surf || zeroent(k))) && (it->second.size() != 2 || !anyiso(it->second[0], it->second[1]))) if (!(j.surf && zeroent(k))) return fmt("interface|an interface entity does not separate the two sides (%zu cells, references %d %d)", it->second.size(), it->second[0], it->second.size() > 1 ? it->second[1] : -1);
    if (k.size() == 3) for (int i = 0; i < 3; i++) { VK q; for (int c = 0; c < 3; c++) if (c != i) q.push_back(k[c]); if (++ridges[q] > 2) return "manifold|three interface triangles share an edge"; }
    if (j.rmc <= 0) for (int v : k) { double f = std::fabs(loc.at(o.X(v))); worst = std::max(worst, f); } }
  if (worst > j.ftol) return fmt("interface|a vertex of the interface has level-set value %.4g", worst);
  // ---- signs inside
  if (j.keep) for (auto &c : O) { double lo = 0, hi = 0; for (int i = 0; i < c.n; i++) { double f = loc.at(o.X(c.v[i])); lo = std::min(lo, f); hi = std::max(hi, f); } if (lo < -j.ftol && hi > j.ftol) return fmt("sign|the interface crosses a cell (values %.4g to %.4g)", lo, hi); }
  if (j.rmc <= 0) for (auto &c : O) { bool in = rin.count(c.ref) && !rex.count(c.ref), out = rex.count(c.ref) && !rin.count(c.ref); if (!in && !out) continue; V3 g{{0, 0, 0}}; for (int i = 0; i < c.n; i++) g = g + (1. / c.n) * o.X(c.v[i]); double f = loc.at(g); if ((in && f > j.ftol) || (out && f < -j.ftol)) return fmt("sign|a cell of reference %d has level-set value %.4g at its centre", c.ref, f); }
  return "";
}
// a vertex with value zero around which the sign changes more than twice: the interface itself is not a manifold there
static bool saddle(const LJob &j) { if (j.mod == '3' || j.surf) return false; std::map<int, int> ch; for (auto &c : cells(j, j.in)) for (int i = 0; i < c.n; i++) if (std::fabs(j.f[c.v[i] - 1] - j.ls) < 1e-6) { double a = j.f[c.v[(i + 1) % 3] - 1] - j.ls, b = j.f[c.v[(i + 2) % 3] - 1] - j.ls; if (a * b < 0) ch[c.v[i]]++; } for (auto &x : ch) if (x.second > 2) return true; return false; }
static bool runls(const LJob &j, Rec &r, PM &o) {
  H h(j.mod, j.big ? 200 : 40); if (!h.m) { r.fail("api|no handle"); return false; }
  h.set(j.surf ? P_isosurf : P_iso, 1); if (j.keep) h.set(P_keepref, 1); if (j.isoref != 10) h.set(P_isoref, j.isoref); if (j.rmc > 0) h.set(P_rmc, j.rmc); if (j.ls != 0) h.set(P_ls, j.ls); for (auto &p : j.pars) if (h.set(p.first, p.second) != 1) { r.fail("api|parameter refused"); return false; }
  if (j.cut) { h.set(P_noinsert, 1); h.set(P_noswap, 1); h.set(P_nomove, 1); }
  if (!j.mats.empty()) { h.set(P_nmat, j.mats.size()); for (auto &m : j.mats) if (h.multimat(m.ref, m.split ? MMG5_MMAT_Split : MMG5_MMAT_NoSplit, m.rin, m.rex) != 1) { r.fail("api|material refused"); return false; } }
  if (!j.base.empty()) { h.set(P_nbr, j.base.size()); for (int b : j.base) h.lsbase(b); }
  if (!h.put(j.in)) { r.fail("api|the mesh is refused"); return false; }
  Sols s; s.v = j.f; if (h.setsol(h.ls, s) != 1 || (j.usemet && h.setsol(h.met, j.met) != 1)) { r.fail("api|the fields are refused"); return false; }
  if (const char *d = getenv("MC_DUMP")) { h.saveMesh((std::string(d) + ".in.mesh").c_str()); h.saveSol(h.ls, (std::string(d) + ".in.sol").c_str()); }
  int ret = h.lsdisc(j.usemet); snprintf(r.note, sizeof r.note, "ret %d", ret);
  if (ret != MMG5_SUCCESS && ret != MMG5_STRONGFAILURE && ret != MMG5_LOWFAILURE) { r.fail("refused|level-set discretisation returns the unknown status %d", ret); return false; }
  if (ret != MMG5_SUCCESS && (flatedge(j) || saddle(j))) { r.nontrivial = false; snprintf(r.note, sizeof r.note, "refused: isolated zero edges"); return false; } // zero on both ends of an edge: the interface may be non-manifold
  if (ret != MMG5_SUCCESS) { r.fail("refused|level-set discretisation returns %d", ret); return false; }
  if (!h.get(o)) { r.fail("api|the result cannot be read"); return false; }
  if (const char *d = getenv("MC_DUMP")) h.saveMesh((std::string(d) + ".out.mesh").c_str());
  r.obs(hash_mesh(o)); r.trans(o.te.size() + o.tr.size()); r.nontrivial = true; snprintf(r.note, sizeof r.note, "ret %d %s", ret, dims(o).c_str()); h.free(); return true;
}
// ----------------------------------------------------------------------------- sign patterns on small meshes
static PM small(char mod, int g) {
  if (mod == '3') { PM m = g == 0 ? tetra1() : g == 1 ? tetra2(1) : g == 2 ? cube5() : g == 3 ? grid(1, 1, 1) : tetra2(2); if (m.tr.empty()) boundary(m); return m; }
  if (mod == '2') return g == 0 ? grid2(1, 1) : g == 1 ? grid2(2, 1) : g == 2 ? grid2(2, 2) : grid2(2, 2, [](int i, int) { return i ? 2 : 1; });
  if (g == 0) { PM m = tetra1(); if (m.tr.empty()) boundary(m); PM s = surface_of(m); compact(s); return s; }
  PM b = g == 1 ? grid2(2, 1) : g == 2 ? grid2(2, 2) : PM(); if (g == 3) { PM m = grid(1, 1, 1); PM s = surface_of(m); compact(s); return s; } PM s = lift(b, [](const V3 &x) { return V3{{x[0], x[1], .0}}; }); return s;
}
static const double AMP[5] = {1, -1, 0, -.3, 1e-8};
static Scenario signs(const char *name, char mod, bool surf, bool cut, int ng, int bq, int bt) {
  Scenario s; s.name = name; s.rule = "every assignment of level-set values from {1, -1, 0, -0.3, 1e-8} to the vertices of each small mesh, at most `bound` of them away from the base value"; s.bound_quick = bq; s.bound_thorough = bt; s.leaf_timeout = 30;
  s.body = [=](Chooser &ch) -> Exec {
    LJob j; j.mod = mod; j.surf = surf; j.cut = cut; int g = ch.choose("mesh", ng); j.in = small(mod, g); int b = ch.choose("base", 2); ch.labels.back() = b ? "base-" : "base+"; int sh = ch.choose("shift", 2); j.ls = sh ? .5 : 0; int np = j.in.np(); bool change = false, allz = true;
    for (int i = 0; i < np; i++) { int k = ch.dev("v", 5); double x = AMP[k]; if (b) x = -x; if (b && k == 2) x = 0; j.f.push_back(x + j.ls); if (k) change = true; if (std::fabs(x) > 1e-6) allz = false; } (void)change; if (allz) return nullptr;
    if (surf || cut) j.pars.push_back({P_angle, 1}); j.ftol = cut ? 5e-3 : .25; if (!cut) j.pars.push_back({P_hsiz, .4});
    if (surf) for (auto &c : cells(j, j.in)) { bool z = true; for (int i = 0; i < c.n; i++) z &= std::fabs(j.f[c.v[i] - 1] - j.ls) < 1e-6; if (z) return nullptr; } // documented as undetermined
    return [j](Rec &r) { PM o(j.in.dim); if (!runls(j, r, o)) return; std::string e = judge(j, o); if (!e.empty()) r.fail("%s", e.c_str()); };
  };
  return s;
}
// ----------------------------------------------------------------------------- level-set functions x options
static double FN(int k, const V3 &x) { // domains are [0,1]^d (or parts of it); signed distances
  auto sph = [&](double a, double b, double c, double r) { return dist(x, V3{{a, b, c}}) - r; };
  switch (k) { case 0: return x[0] - .37; case 1: return (x[0] + x[1] + x[2]) / std::sqrt(3.) - .75; case 2: return sph(.5, .5, .5, .33); case 3: return std::min(sph(.25, .25, .25, .22), sph(.75, .74, .74, .23)); case 4: return -sph(0, 0, 0, .7); case 5: return std::fabs(x[1] - .52) - .24; case 6: return std::min(sph(.5, .5, .5, .3), x[0] - .12); default: return x[2] + .3 * x[0] - .5 * x[1] - .22; }
}
static const char *FNN[8] = {"plane", "diagonal", "sphere", "two", "corner", "slab", "ball+wall", "tilted"};
static PM fgeo(char mod, int g, bool two) {
  auto two3 = [=](int i, int, int) { return two && i > 0 ? 2 : 1; }; auto two2 = [=](int i, int) { return two && i > 1 ? 2 : 1; };
  if (mod == '3') { PM m = g == 0 ? grid(3, 3, 3, two3) : grid(4, 3, 3, two3); for (auto &t : m.tr) if (t.ref == 10) t.ref = 33; return m; }
  PM b = g == 0 ? grid2(4, 4, two2) : grid2(6, 5, two2); for (auto &e : b.ed) if (e.ref == 10) e.ref = 33;
  if (mod == '2') return b;
  return g == 0 ? lift(b, [](const V3 &x) { return V3{{x[0], x[1], .5}}; }) : lift(b, [](const V3 &x) { return V3{{x[0], .5 - .5 * std::cos(M_PI * x[1]), .5 * std::sin(M_PI * x[1])}}; });
}
static void setf(LJob &j, int k) { j.f.clear(); for (int i = 1; i <= j.in.np(); i++) j.f.push_back(FN(k, j.in.X(i)) + j.ls); }
static Scenario funcs(const char *name, char mod, bool surf, int ng, int bq, int bt, int twice, std::vector<int> fns = {0, 1, 2, 3, 4, 5, 6, 7}) {
  Scenario s; s.name = name; s.rule = twice ? "every pair of level-set functions, the second applied to the result of the first" : "every level-set function on every geometry, at most `bound` options away from the defaults (level, interface reference, materials split or kept, small-component removal, base references, sizes, metric, frozen surface, open boundaries, no remeshing)";
  s.bound_quick = bq; s.bound_thorough = bt; s.leaf_timeout = 60;
  s.body = [=](Chooser &ch) -> Exec {
    LJob j; j.mod = mod; j.surf = surf; int g = ch.choose("geo", ng), k = fns[ch.choose("fn", (int)fns.size())]; ch.labels.back() = FNN[k]; int k2 = twice ? ch.choose("then", 8) : 0; if (twice) ch.labels.back() = std::string("then ") + FNN[k2];
    bool curved = mod == 's' && g == 1; j.big = true; j.flat = !curved;
    j.ls = ch.dev("ls", 3) * .25; int mat = ch.dev("materials", 6); bool two = mat > 0; j.in = fgeo(mod, g, two || ch.dev("two", 2)); setf(j, k);
    int iso = ch.dev("isoref", 2); if (iso) { j.isoref = 7; }
    int rm = ch.dev("rmc", 8); if (rm == 1) j.rmc = .04; if (rm == 2) { j.rmc = 1e-5; j.base = {1}; } if (rm == 3) j.rmc = .3; if (rm > 3) j.rmc = smallest(j, rm < 6 ? 1 : -1) * (rm % 2 ? 1.06 : .94);
    if (mod == '3') j.pars.push_back({P_hausd, .03});
    int sz = ch.dev("size", 5); if (sz == 1) j.pars.push_back({P_hsiz, mod == '3' ? .22 : .17}); if (sz == 2) j.pars.push_back({P_hausd, mod == '3' ? .012 : .002}); if (sz == 3) { j.pars.push_back({P_hmax, .3}); j.pars.push_back({P_hgrad, 1.1}); } if (sz == 4) { j.usemet = true; for (int i = 0; i < j.in.np(); i++) j.met.v.push_back(.22); }
    int op = ch.dev("mode", 6); j.cut = op == 1; if (op == 2) { if (mod == 's') { if (surf) return nullptr; j.keep = true; } else j.pars.push_back({P_nosurf, 1}); } if (op == 3) { if (mod == 's') return nullptr; j.pars.push_back({P_opnbdy, 1}); } if (op == 4) j.pars.push_back({P_anisosize, 1}); if (op == 5) j.pars.push_back({P_nreg, 1});
    if (surf && rm) return nullptr; if (j.keep && (mat || twice || rm)) return nullptr; if (surf && mat) { /* materials are boundary references */ }
    auto M = [&](int ref, int split, int a, int b) { j.mats.push_back({ref, split, a, b}); };
    if (mat) { std::set<int> refs; for (auto &c : cells(j, j.in)) refs.insert(c.ref); int q = 0; for (int r : refs) { bool sp = mat <= 2 || (mat == 3 ? q != 0 : mat == 4 ? q == 0 : false); int a = mat == 1 ? 20 + 2 * q : 20, b = mat == 1 ? 21 + 2 * q : 21; if (mat == 5) sp = q == 0; if (sp) M(r, 1, mat == 5 ? r : a, b); else M(r, 0, 0, 0); q++; } }
    if (twice && (op == 3 || mat == 2 || rm || (mod == 's' && k2 == k) || (surf && mat))) return nullptr; if (twice && mat) { std::map<std::pair<int, int>, int> n; for (auto &m : j.mats) if (m.split && n[{m.rin, 0}]++) return nullptr; } // on surfaces, the same field again is zero all along the old interface, border vertices included
    for (auto &c : cells(j, j.in)) { bool z = true; for (int i = 0; i < c.n; i++) z &= std::fabs(j.f[c.v[i] - 1] - j.ls) < 1e-6; if (z) return nullptr; }
    double hausd = j.par(P_hausd, .01); j.ptol = j.cut ? 3e-3 : .035 + 2 * hausd; j.ftol = j.cut ? 5e-3 : .06; if (curved) { j.ptol += .05; j.ftol += .05; }
    return [=](Rec &r) { PM o(j.in.dim); if (!runls(j, r, o)) return; std::string e = judge(j, o); if (!e.empty()) { r.fail("%s", e.c_str()); return; } if (!twice) return;
      LJob q = j; q.in = o; for (auto &m : j.mats) if (m.split) q.parent[m.rin] = q.parent[m.rex] = m.ref; q.in.dim = j.in.dim; q.usemet = false; q.met = Sols(); setf(q, k2); PM o2(j.in.dim); if (!runls(q, r, o2)) return; q.ptol += .03; q.ftol += .03; e = judge(q, o2); if (!e.empty()) r.fail("again: %s", e.c_str()); };
  };
  return s;
}
static std::vector<Scenario> C08(bool) { return {signs("signs-cut", '3', false, true, 5, 2, 4), signs("signs-remesh", '3', false, false, 5, 1, 3), funcs("funcs", '3', false, 1, 1, 2, 0), funcs("funcs-pairs", '3', false, 1, 2, 3, 0, {7}), funcs("again", '3', false, 1, 0, 1, 1, {0, 2, 5, 7})}; }
static std::vector<Scenario> C09(bool) { return {signs("signs-cut", '2', false, true, 4, 2, 5), signs("signs-remesh", '2', false, false, 4, 2, 4), signs("bdy-cut", '2', true, true, 4, 2, 5), funcs("funcs", '2', false, 2, 3, 5, 0), funcs("again", '2', false, 2, 1, 2, 1), funcs("bdy-funcs", '2', true, 2, 2, 4, 0)}; }
static std::vector<Scenario> C10(bool) { return {signs("signs-cut", 's', false, true, 4, 2, 5), signs("signs-remesh", 's', false, false, 4, 2, 4), signs("bdy3-cut", '3', true, true, 5, 2, 4), funcs("funcs", 's', false, 2, 1, 4, 0), funcs("funcs-pairs", 's', false, 2, 2, 3, 0, {2, 4}), funcs("again", 's', false, 2, 0, 2, 1), funcs("bdy3-funcs", '3', true, 1, 1, 3, 0)}; }
int main(int argc, char **argv) { return driver(argc, argv, {{"C08", C08}, {"C09", C09}, {"C10", C10}}); }
