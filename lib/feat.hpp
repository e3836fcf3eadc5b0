// Features: everything a user can add to a remeshing job (flags on entities, options, sizes), and the oracles.
#pragma once
#include "geo.hpp"
#include "mc.hpp"

struct Loc { int typ, ref; double hmin, hmax, hausd; };
struct Job {
  char mod = '3'; const Geo *g = 0; PM in; std::vector<std::pair<P, double>> pars; std::function<Sols(const PM &)> met; bool hasmet = false; std::vector<Loc> loc;
  bool notria = false, opn = false, noangle = false, tweaked = false; // notria: boundary entities stripped from what is given to the library (kept in `in`)
  double hmin = 0, hmax = 0, hsiz = 0, hausd = .01, hgrad = 1.3;
  std::string names; std::set<std::string> groups;
  double par(P p, double d) const { for (auto &x : pars) if (x.first == p) d = x.second; return d; } // the last call wins
};
struct Feature { std::string name, group; const char *mods; std::function<bool(Job &)> apply; };

// ----------------------------------------------------------------------------------------------- selectors
struct Surf { // boundary graph of a 3D / surface mesh: edge -> triangles
  std::map<std::array<int, 2>, std::vector<int>> e; const PM &m;
  explicit Surf(const PM &m_) : m(m_) { for (size_t k = 0; k < m.tr.size(); k++) for (int i = 0; i < 3; i++) e[key(m.tr[k].v[i], m.tr[k].v[(i + 1) % 3])].push_back((int)k); }
  V3 un(int k) const { V3 n = m.nrm(m.tr[k]); double l = norm(n); return l > 0 ? (1 / l) * n : n; }
  // angle between the two triangles once consistently oriented (degrees), -1 when not manifold
  double angle(const std::array<int, 2> &a) const {
    auto it = e.find(a); if (it == e.end() || it->second.size() != 2) return -1;
    int k = it->second[0], l = it->second[1]; double s = 1;
    auto dir = [&](int t) { for (int i = 0; i < 3; i++) if (m.tr[t].v[i] == a[0] && m.tr[t].v[(i + 1) % 3] == a[1]) return 1; return -1; };
    if (dir(k) == dir(l)) s = -1;
    return std::acos(std::min(1., std::max(-1., s * dot(un(k), un(l))))) * 180 / M_PI;
  }
  bool special(const std::array<int, 2> &a) const { auto it = e.find(a); if (it == e.end()) return false; if (it->second.size() != 2) return true; return angle(a) > 45 || m.tr[it->second[0]].ref != m.tr[it->second[1]].ref; }
};
inline int smooth_vertex(const PM &m, char mod) { // boundary vertex where nothing special meets
  std::vector<int> sp(m.p.size(), 0), on(m.p.size(), 0);
  if (mod == '2') {
    std::map<int, std::vector<V3>> d; for (auto &e : m.ed) { V3 t = m.X(e.v[1]) - m.X(e.v[0]); t = (1 / norm(t)) * t; for (int v : e.v) d[v].push_back(t); }
    for (auto &x : d) if (x.second.size() == 2 && std::fabs(dot(x.second[0], x.second[1])) > .9) return x.first;
    return m.ed.empty() ? 0 : m.ed[0].v[0];
  }
  Surf s(m);
  for (auto &x : s.e) { bool b = s.special(x.first) || s.angle(x.first) > 30; for (int v : x.first) { on[v] = 1; if (b) sp[v] = 1; } }
  for (int i = 1; i <= m.np(); i++) if (on[i] && !sp[i]) return i;
  for (int i = m.np(); i >= 1; i--) if (on[i]) return i;
  return 0;
}
inline int interior_vertex(const PM &m, char mod) {
  std::vector<int> on(m.p.size(), 0);
  if (mod == '2') for (auto &e : m.ed) for (int v : e.v) on[v] = 1;
  if (mod == '3') for (auto &t : m.tr) for (int v : t.v) on[v] = 1;
  if (mod == 's') { Surf s(m); for (auto &x : s.e) if (s.special(x.first)) for (int v : x.first) on[v] = 1; }
  for (int i = m.np(); i >= 1; i--) if (!on[i]) return i;
  return 0;
}
inline std::array<int, 2> smooth_edge(const PM &m, char mod, int nth = 0) { // edge inside a smooth patch / inside a 2D domain
  if (mod == '2') { std::set<std::array<int, 2>> b; for (auto &e : m.ed) b.insert(key(e.v[0], e.v[1])); for (auto &t : m.tr) for (int i = 0; i < 3; i++) { auto k = key(t.v[i], t.v[(i + 1) % 3]); if (!b.count(k) && nth-- == 0) return k; } return {{0, 0}}; }
  Surf s(m); for (auto &x : s.e) if (!s.special(x.first) && s.angle(x.first) < 30 && nth-- == 0) return x.first; return {{0, 0}};
}
inline std::array<int, 2> sharp_edge(const PM &m, char mod, int nth = 0) {
  if (mod == '2') { if (m.ed.empty()) return {{0, 0}}; auto &e = m.ed[std::min<size_t>(nth, m.ed.size() - 1)]; return {{e.v[0], e.v[1]}}; }
  Surf s(m); for (auto &x : s.e) if (s.special(x.first) && nth-- == 0) return x.first; return {{0, 0}};
}
inline Edg *edge_of(PM &m, std::array<int, 2> a, int ref) { // existing or new
  for (auto &e : m.ed) if (key(e.v[0], e.v[1]) == key(a[0], a[1])) return &e;
  Edg e; e.v = a; e.ref = ref; m.ed.push_back(e); return &m.ed.back();
}
inline int smooth_tri(const PM &m, char mod, int nth = 0) { // triangle index that touches a smooth vertex (or the first)
  int v = smooth_vertex(m, mod); for (size_t k = 0; k < m.tr.size(); k++) for (int x : m.tr[k].v) if (x == v && nth-- == 0) return (int)k; return m.tr.empty() ? -1 : 0;
}

// ------------------------------------------------------------------------------------------------ features
inline void add(std::vector<Feature> &F, const char *n, const char *g, const char *mods, std::function<bool(Job &)> f) { F.push_back({n, g, mods, f}); }
inline std::vector<Feature> feats_entity(char mod) {
  std::vector<Feature> A, F;
  add(A, "reqv-smooth", "", "32s", [](Job &j) { int v = smooth_vertex(j.in, j.mod); if (!v) return false; j.in.p[v].req = true; if (j.in.p[v].ref < 100000) j.in.p[v].ref = 31; return true; });
  add(A, "reqv-inside", "", "32s", [](Job &j) { int v = interior_vertex(j.in, j.mod); if (!v || j.in.p[v].req) return false; j.in.p[v].req = true; if (j.in.p[v].ref < 100000) j.in.p[v].ref = 32; return true; });
  add(A, "reqv-sharp", "", "32s", [](Job &j) { auto a = sharp_edge(j.in, j.mod, 3); if (!a[0]) a = sharp_edge(j.in, j.mod); if (!a[0] || j.in.p[a[0]].req) return false; j.in.p[a[0]].req = true; return true; });
  add(A, "corner-smooth", "", "32s", [](Job &j) { int v = smooth_vertex(j.in, j.mod); if (!v) return false; j.in.p[v].corner = true; return true; });
  add(A, "reqe-smooth", "", "32s", [](Job &j) { auto a = smooth_edge(j.in, j.mod); if (!a[0]) return false; Edg *e = edge_of(j.in, a, 77); e->req = true; return true; });
  add(A, "reqe-smooth2", "", "32s", [](Job &j) { auto a = smooth_edge(j.in, j.mod, 3); if (!a[0]) return false; Edg *e = edge_of(j.in, a, 76); e->req = true; return true; });
  add(A, "reqe-sharp", "", "32s", [](Job &j) { auto a = sharp_edge(j.in, j.mod, 1); if (!a[0]) return false; Edg *e = edge_of(j.in, a, 75); e->req = true; return true; });
  add(A, "ridge-smooth", "", "3s", [](Job &j) { auto a = smooth_edge(j.in, j.mod, 1); if (!a[0]) return false; Edg *e = edge_of(j.in, a, 78); e->ridge = true; return true; });
  add(A, "refe-smooth", "", "3s", [](Job &j) { auto a = smooth_edge(j.in, j.mod, 2); if (!a[0]) return false; edge_of(j.in, a, 79); return true; });
  add(A, "refe-sharp", "", "3s", [](Job &j) { auto a = sharp_edge(j.in, j.mod, 2); if (!a[0]) return false; edge_of(j.in, a, 80); return true; });
  add(A, "reqt-one", "", "32s", [](Job &j) { int k = smooth_tri(j.in, j.mod); if (k < 0) return false; j.in.tr[k].req = true; return true; });
  add(A, "reqt-patch", "", "32s", [](Job &j) { if (j.in.tr.empty()) return false; int r = j.in.tr[0].ref, n = 0; for (auto &t : j.in.tr) if (t.ref == r && n < 8) { t.req = true; n++; } return true; });
  add(A, "reqt-all", "", "32s", [](Job &j) { for (auto &t : j.in.tr) t.req = true; return true; });
  add(A, "reqk-one", "", "3", [](Job &j) { j.in.te[j.in.te.size() / 2].req = true; return true; });
  add(A, "reqk-two", "", "3", [](Job &j) { if (j.in.te.size() < 3) return false; j.in.te[0].req = j.in.te.back().req = true; return true; });
  add(A, "patchref", "", "3s", [](Job &j) { int k = smooth_tri(j.in, j.mod, 1); if (k < 0) return false; j.in.tr[k].ref = 55; return true; });
  add(A, "vrefs", "", "32s", [](Job &j) { for (int i = 1; i <= j.in.np(); i++) j.in.p[i].ref = 100 + i % 5; return true; });
  add(A, "refs-big", "refs", "32s", [](Job &j) { for (auto &t : j.in.te) t.ref = t.ref * 1000 + 7; for (auto &t : j.in.tr) t.ref = t.ref * 500 + 3; for (auto &t : j.in.ed) t.ref = t.ref * 300 + 1; return true; });
  add(A, "refs-zero", "refs", "32s", [](Job &j) { if (j.mod == '3') for (auto &t : j.in.te) t.ref--; if (j.mod != '2') { for (auto &t : j.in.tr) t.ref--; } else { for (auto &t : j.in.tr) t.ref--; for (auto &e : j.in.ed) if (!e.req) e.ref = 0; } return true; });
  add(A, "noboundary", "", "32", [](Job &j) { j.notria = true; return true; });
  add(A, "flip", "", "32", [](Job &j) { int i = 0; if (j.mod == '3') { for (auto &t : j.in.te) if (i++ % 3 == 0) std::swap(t.v[1], t.v[2]); } else for (auto &t : j.in.tr) if (i++ % 3 == 0) std::swap(t.v[1], t.v[2]); return true; });
  add(A, "fliptria", "", "3", [](Job &j) { int i = 0; for (auto &t : j.in.tr) if (i++ % 2 == 0) std::swap(t.v[1], t.v[2]); return true; });
  add(A, "unused", "", "32s", [](Job &j) { V3 c = j.in.X(1); for (int k = 0; k < 3; k++) { V3 x = c; x[0] += .1 * k; j.in.addv(x, 9); } return true; });
  add(A, "sheet", "", "3", [](Job &j) { // an internal triangle sheet that must be kept; the user marks its corners
    if (!strcmp(j.g->name, "cube48")) return false; // (no planar sheet there)
    Surf s(j.in); std::set<std::array<int, 3>> b; for (auto &t : j.in.tr) b.insert(sorted(t.v));
    std::map<std::array<int, 3>, std::pair<int, Tri>> f; V3 n0{{0, 0, 1}};
    for (auto &t : j.in.te) for (int i = 0; i < 4; i++) { Tri q; q.ref = 60; for (int k = 0; k < 3; k++) q.v[k] = t.v[FACE[i][k]]; auto a = sorted(q.v); if (b.count(a)) continue; f[a] = {0, q}; }
    int n = 0; V3 p0, nn;
    for (auto &x : f) { Tri q = x.second.second; V3 u = j.in.nrm(q); u = (1 / norm(u)) * u; V3 c = j.in.X(q.v[0]); if (!n) { p0 = c; nn = u; } else if (std::fabs(std::fabs(dot(u, nn)) - 1) > 1e-6 || std::fabs(dot(c - p0, nn)) > 1e-6) continue; if (n < 2) { j.in.tr.push_back(q); n++; for (int w : q.v) j.in.p[w].corner = true; } }
    if (!n) return false; j.opn = true; j.pars.push_back({P_opnbdy, 1}); return true; });
  add(A, "linerefs", "", "3s", [](Job &j) { // one reference per straight feature line
    Surf s(j.in); std::vector<std::array<int, 2>> L; std::map<int, std::vector<int>> at;
    for (auto &x : s.e) if (s.special(x.first)) { for (int v : x.first) at[v].push_back((int)L.size()); L.push_back(x.first); }
    std::vector<int> u(L.size()); for (size_t i = 0; i < u.size(); i++) u[i] = (int)i; auto fd = [&](int x) { while (u[x] != x) x = u[x]; return x; };
    for (auto &x : at) if (x.second.size() == 2 && !j.in.p[x.first].req) { V3 d[2]; for (int k = 0; k < 2; k++) { auto &e = L[x.second[k]]; d[k] = j.in.X(e[0]) - j.in.X(e[1]); d[k] = (1 / norm(d[k])) * d[k]; } if (std::fabs(dot(d[0], d[1])) > .7) u[fd(x.second[0])] = fd(x.second[1]); }
    if (L.empty()) return false; std::map<int, int> id;
    for (size_t i = 0; i < L.size(); i++) { int f = fd((int)i); if (!id.count(f)) { int n = 200 + (int)id.size(); id[f] = n; } Edg *e = edge_of(j.in, L[i], id[f]); if (!e->req) e->ref = id[f]; }
    return true; });
  add(A, "dupedge", "", "32s", [](Job &j) { auto a = sharp_edge(j.in, j.mod, 2); if (!a[0]) return false; Edg e; e.v = a; e.ref = 81; edge_of(j.in, a, 81); return true; });
  for (auto &f : A) if (strchr(f.mods, mod)) F.push_back(f);
  return F;
}
inline std::vector<Feature> feats_option(char mod) {
  std::vector<Feature> A, F;
  auto par = [&](const char *n, const char *g, const char *mods, P p, double v) { add(A, n, g, mods, [p, v](Job &j) { j.pars.push_back({p, v}); return true; }); };
  par("noinsert", "", "32s", P_noinsert, 1); par("noswap", "", "32s", P_noswap, 1); par("nomove", "", "32s", P_nomove, 1); par("nosurf", "", "32", P_nosurf, 1);
  add(A, "dangle60", "ang", "3s", [](Job &j) { Surf s(j.in); for (auto &x : s.e) { double a = s.angle(x.first); if (a > 44 && a < 62) return false; } j.pars.push_back({P_dangle, 60}); return true; });
  add(A, "dangle30", "ang", "3s", [](Job &j) { j.pars.push_back({P_dangle, 30}); return true; });
  par("nreg", "", "32s", P_nreg, 1);
  add(A, "xreg", "", "32s", [](Job &j) { j.pars.push_back({P_xreg, 1}); j.tweaked = true; return true; });
  par("hgrad-off", "hgrad", "32s", P_hgrad, -1); par("hgrad-1.1", "hgrad", "32s", P_hgrad, 1.1); par("hgrad-2.5", "hgrad", "32s", P_hgrad, 2.5);
  par("hgradreq", "", "32s", P_hgradreq, 1.5); par("nosizreq", "", "32s", P_nosizreq, 1);
  par("hausd-big", "hausd", "32s", P_hausd, .1); par("hausd-small", "hausd", "32s", P_hausd, .003);
  par("nofem", "", "32", P_nofem, 1); par("optimLES", "LES", "3", P_optimles, 1); par("opnbdy", "opn", "32", P_opnbdy, 1); par("octree8", "", "3", P_octree, 8); par("norenum", "", "3s", P_renum, 0);
  par("hmin", "", "32s", P_hmin, .15); par("hmax", "", "32s", P_hmax, .6); par("3dmedit", "", "2", P_3dmedit, 1);
  add(A, "locparam", "", "3s", [](Job &j) { int r = j.in.tr[0].ref; j.loc.push_back({MMG5_Triangle, r, .1, .3, .005}); return true; });
  add(A, "loctet", "", "3", [](Job &j) { int r = j.in.te[0].ref; j.loc.push_back({MMG5_Tetrahedron, r, .1, .35, .01}); return true; });
  add(A, "loctria2", "", "2", [](Job &j) { int r = j.in.tr[0].ref; j.loc.push_back({MMG5_Triangle, r, .1, .3, .005}); return true; });
  add(A, "locedge2", "", "2", [](Job &j) { int r = j.in.ed[0].ref; j.loc.push_back({MMG5_Edg, r, .05, .2, .005}); return true; });
  for (auto &f : A) if (strchr(f.mods, mod)) F.push_back(f);
  return F;
}
inline std::vector<Feature> feats_size(char mod) {
  std::vector<Feature> A, F;
  add(A, "hsiz.7", "size", "32s", [](Job &j) { j.pars.push_back({P_hsiz, .7}); j.hsiz = .7; return true; });
  add(A, "hsiz.35", "size", "32s", [](Job &j) { j.pars.push_back({P_hsiz, .35}); j.hsiz = .35; return true; });
  add(A, "hsiz.22", "size", "32s", [](Job &j) { j.pars.push_back({P_hsiz, .22}); j.hsiz = .22; return true; });
  add(A, "optim", "size", "32s", [](Job &j) { j.pars.push_back({P_optim, 1}); return true; });
  add(A, "hmax.4", "size", "32s", [](Job &j) { j.pars.push_back({P_hmax, .4}); return true; });
  add(A, "anisosize", "size", "32s", [](Job &j) { j.pars.push_back({P_anisosize, 1}); j.pars.push_back({P_hmax, .5}); return true; });
  add(A, "isolin", "size", "32s", [](Job &j) { j.met = [](const PM &m) { return iso_field(m, [](const V3 &x) { return .3 + .15 * std::fabs(x[0]); }); }; j.hasmet = true; return true; });
  add(A, "isopeak", "size", "32s", [](Job &j) { j.met = [](const PM &m) { return iso_field(m, [](const V3 &x) { return .15 + .4 * std::min(1., norm(x - V3{{.5, .5, 0}})); }); }; j.hasmet = true; return true; });
  add(A, "anidiag", "size", "32s", [](Job &j) { j.met = [](const PM &m) { return aniso_field(m, [](const V3 &) { return diag(.25, .6, 1); }); }; j.hasmet = true; return true; });
  add(A, "anirot", "size", "32s", [](Job &j) { j.met = [](const PM &m) { return aniso_field(m, [](const V3 &) { return rot(.6, .3, .8, .4); }); }; j.hasmet = true; return true; });
  add(A, "anivar", "size", "32s", [](Job &j) { j.met = [](const PM &m) { return aniso_field(m, [](const V3 &x) { return rot(x[0], .25 + .1 * std::fabs(x[1]), .6, .5); }); }; j.hasmet = true; return true; });
  for (auto &f : A) if (strchr(f.mods, mod)) F.push_back(f);
  return F;
}
inline std::vector<Feature> operator+(std::vector<Feature> a, const std::vector<Feature> &b) { a.insert(a.end(), b.begin(), b.end()); return a; }

// chooses a subset of the features (each one costs a deviation); false: the combination does not apply
inline bool pick_features(mc::Chooser &c, const std::vector<Feature> &F, Job &j, int slots = 6) {
  int from = 0; bool ok = true;
  for (int s = 0; s < slots; s++) {
    int k = c.dev("f", (int)F.size() - from + 1);
    if (!k) break;
    const Feature &f = F[from + k - 1]; from += k;
    c.labels.back() = f.name;
    if (!f.group.empty() && !j.groups.insert(f.group).second) ok = false;
    if (ok) { j.names += (j.names.empty() ? "" : "+") + f.name; ok = f.apply(j); }
  }
  return ok;
}

// --------------------------------------------------------------------------------------------------- running
inline bool feed(H &h, const Job &j) {
  PM a = j.in;
  if (j.notria) { if (j.mod == '3') { std::vector<Tri> t; for (auto &x : a.tr) if (x.req || x.ref == 60) t.push_back(x); a.tr = t; } else { std::vector<Edg> t; for (auto &x : a.ed) if (x.req) t.push_back(x); a.ed = t; } }
  for (auto &p : j.pars) if (h.set(p.first, p.second) != 1) return false;
  if (!j.loc.empty()) { if (h.set(P_nlocal, (double)j.loc.size()) != 1) return false; for (auto &l : j.loc) if (h.local(l.typ, l.ref, l.hmin, l.hmax, l.hausd) != 1) return false; }
  // Set_tetrahedron / Set_triangle reorient and say so with a negative return: accepted by the caller below
  if (!h.put(a)) return false;
  if (j.hasmet && h.setsol(h.met, j.met(j.in)) != 1) return false;
  return true;
}

// ---------------------------------------------------------------------------------------------------- oracles
inline double tolx(const PM &m) { return 1e-7 * bbox(m); }
inline std::string valid(const Job &j, const PM &out) {
  if (j.mod == '3') { Chk3 o; o.opnbdy = j.opn || j.par(P_opnbdy, 0) > 0; return chk_tetmesh(out, o); }
  if (j.mod == '2') return chk_trimesh2(out, j.par(P_opnbdy, 0) > 0 || j.opn);
  return chk_surface(out);
}
