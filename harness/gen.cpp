// Planar mesh generation from edges (C11) and selection of one subdomain (C12).
#include "jobs.hpp"

// ------------------------------------------------------------------------------------------ C11
struct Plan { PM base{2}, in{2}; std::vector<int> face; int nf = 0; std::vector<double> area; std::vector<std::array<int, 2>> wall; std::vector<int> wref; };
// faces cut out of a base triangulation by a subset of its edges
static void faces(Plan &p) {
  std::map<std::array<int, 2>, std::vector<int>> adj; for (size_t k = 0; k < p.base.tr.size(); k++) for (int i = 0; i < 3; i++) adj[key(p.base.tr[k].v[i], p.base.tr[k].v[(i + 1) % 3])].push_back((int)k);
  std::set<std::array<int, 2>> W(p.wall.begin(), p.wall.end()); p.face.assign(p.base.tr.size(), -1); std::vector<int> st;
  auto flood = [&](int f) { while (st.size()) { int k = st.back(); st.pop_back(); for (int i = 0; i < 3; i++) { auto e = key(p.base.tr[k].v[i], p.base.tr[k].v[(i + 1) % 3]); if (W.count(e)) continue; for (int q : adj[e]) if (p.face[q] < 0) { p.face[q] = f; st.push_back(q); } } } };
  for (auto &x : adj) if (x.second.size() == 1 && !W.count(x.first) && p.face[x.second[0]] < 0) { p.face[x.second[0]] = 0; st.push_back(x.second[0]); flood(0); }
  p.nf = 0; p.area.assign(1, 0);
  for (size_t k = 0; k < p.face.size(); k++) if (p.face[k] < 0) { p.face[k] = ++p.nf; st.push_back((int)k); flood(p.nf); p.area.push_back(0); }
  for (size_t k = 0; k < p.face.size(); k++) p.area[p.face[k]] += p.base.area2(p.base.tr[k]);
}
static int where(const Plan &p, const V3 &x) { // face that holds a point (0: outside)
  for (size_t k = 0; k < p.base.tr.size(); k++) { auto &t = p.base.tr[k]; bool in = true; for (int i = 0; i < 3 && in; i++) { V3 a = p.base.X(t.v[i]), b = p.base.X(t.v[(i + 1) % 3]); in = (b[0] - a[0]) * (x[1] - a[1]) - (b[1] - a[1]) * (x[0] - a[0]) >= -1e-12 * dot(b - a, b - a); } if (in) return p.face[k]; }
  return 0;
}
struct GOpt { std::vector<std::pair<P, double>> pars; std::function<Sols(const PM &)> met; bool opn = false, req = false; int nsd = 0; double par(P p, double d) const { for (auto &x : pars) if (x.first == p) d = x.second; return d; } };
static void generate(const Plan &p, const GOpt &g, Rec &r) {
  H h('2'); for (auto &x : g.pars) if (h.set(x.first, x.second) != 1) { r.fail("api|option refused"); return; }
  if (!h.put(p.in)) { r.fail("api|the library refuses the input"); return; }
  if (g.met && h.setsol(h.met, g.met(p.in)) != 1) { r.fail("api|metric refused"); return; }
  int ret = h.meshgen(); PM o; snprintf(r.note, sizeof r.note, "ret %d", ret);
  if (ret != MMG5_SUCCESS) { r.fail("refused|mesh generation returns %d", ret); return; }
  if (!h.get(o)) { r.fail("api|the result cannot be read back"); return; }
  if (const char *d = getenv("MC_DUMP")) h.saveMesh((std::string(d) + ".out.mesh").c_str());
  h.free(); r.obs(hash_mesh(o)); r.trans(o.tr.size()); r.nontrivial = p.nf > 0; snprintf(r.note, sizeof r.note, "regions %d: %s", p.nf, dims(o).c_str());
  std::vector<char> us(o.p.size(), 0); for (auto &t : o.tr) for (int v : t.v) us[v] = 1; for (int i = 1; i <= o.np(); i++) if (!us[i] && !find_at(p.in, o.X(i), 1e-9 * bbox(p.base))) { r.fail("orphan|a new vertex belongs to no triangle"); return; }
  std::string e = chk_trimesh2(o, true); if (e.compare(0, 6, "orphan") == 0) { PM q = o; compact(q); e = chk_trimesh2(q, true); } if (!e.empty()) { r.fail("%s", e.c_str()); return; }
  double L = bbox(p.base), tol = 1e-6 * L;
  if (!p.nf) return; // nothing is enclosed: the points are triangulated
  std::map<int, int> f2r, r2f; std::map<int, double> a;
  for (auto &t : o.tr) {
    V3 c = (1. / 3) * (o.X(t.v[0]) + o.X(t.v[1]) + o.X(t.v[2])); int f = where(p, c);
    if (!f) { r.fail("outside|a triangle lies outside of the regions enclosed by the edges"); return; }
    if (f2r.count(f) && f2r[f] != t.ref) { r.fail("ref|one region gets the references %d and %d", f2r[f], t.ref); return; } if (r2f.count(t.ref) && r2f[t.ref] != f) { r.fail("ref|two regions share the reference %d", t.ref); return; }
    f2r[f] = t.ref; r2f[t.ref] = f; a[f] += o.area2(t);
  }
  int kept = 0;
  for (int f = 1; f <= p.nf; f++) { if (g.nsd) { if (!f2r.count(f)) continue; kept++; if (f2r[f] != g.nsd) { r.fail("nsd|region with reference %d is kept instead of %d", f2r[f], g.nsd); return; } } if (std::fabs(a[f] - p.area[f]) > 1e-7 * L * L) { r.fail("area|region of area %.9g is meshed with area %.9g", p.area[f], a[f]); return; } }
  if (g.nsd && kept != 1) { r.fail("nsd|%d regions kept", kept); return; }
  // edges
  std::map<std::array<int, 2>, std::vector<int>> adj; for (size_t k = 0; k < p.base.tr.size(); k++) for (int i = 0; i < 3; i++) adj[key(p.base.tr[k].v[i], p.base.tr[k].v[(i + 1) % 3])].push_back(p.face[k]);
  auto bk = [&](const Edg &x) { return key(find_at(p.base, p.in.X(x.v[0]), 1e-9 * L), find_at(p.base, p.in.X(x.v[1]), 1e-9 * L)); };
  for (auto &x : o.ed) { V3 mid = .5 * (o.X(x.v[0]) + o.X(x.v[1])); if (x.req && x.ref == 0) continue; for (const V3 &q : {o.X(x.v[0]), mid, o.X(x.v[1])}) { double d = dist_to_edges(p.in, q, [&](const Edg &f) { return f.ref == x.ref; }); if (d > tol) { r.fail("drift|an edge of reference %d is at distance %.3g of the given edges of this reference", x.ref, d); return; } } }
  for (auto &x : p.in.ed) {
    auto F = adj[bk(x)]; if (F.size() == 1) F.push_back(0); bool touch = false; for (int f : F) touch |= f > 0 && (!g.nsd || f2r.count(f)); if (!touch) continue;
    bool sep = F[0] != F[1]; if (!sep && !g.opn && !x.req) continue;
    V3 A = p.in.X(x.v[0]), B = p.in.X(x.v[1]); for (double s : {.1, .37, .5, .81}) { V3 q = (1 - s) * A + s * B; double d = dist_to_edges(o, q, [&](const Edg &f) { return f.ref == x.ref; }); if (d > tol) { r.fail("lost|the edge %d %d of reference %d is not covered by edges of the mesh (%.3g)", x.v[0], x.v[1], x.ref, d); return; } }
    if (x.req || g.par(P_nosurf, 0) > 0) { int i = find_at(o, A, tol), j = find_at(o, B, tol); bool ok = false; for (auto &q : o.ed) if (i && j && key(q.v[0], q.v[1]) == key(i, j) && (q.req || !x.req)) ok = true; if (!ok) { r.fail("required|the required edge %d %d is not an edge of the mesh", x.v[0], x.v[1]); return; } }
  }
  for (int i = 1; i <= p.in.np(); i++) if (p.in.p[i].req) { int f = where(p, p.in.X(i)); bool on = false; for (auto &x : p.in.ed) if (x.v[0] == i || x.v[1] == i) { auto F = adj[bk(x)]; if (F.size() == 1) F.push_back(0); for (int q : F) on |= q && (!g.nsd || f2r.count(q)); } if (!on && !(f && (!g.nsd || f2r.count(f)))) continue; int k = find_at(o, p.in.X(i), tol); if (!k || !o.p[k].req || o.p[k].ref != p.in.p[i].ref) { r.fail("required|required vertex %d is gone, changed or not reported as such", i); return; } }
  if (g.par(P_noinsert, 0) > 0 && o.np() > p.in.np()) { r.fail("noinsert|%d vertices given, %d in the mesh", p.in.np(), o.np()); return; }
  double hs = g.par(P_hsiz, 0);
  if (hs > 0 && g.par(P_noinsert, 0) <= 0 && g.par(P_nosurf, 0) <= 0) { // sizes are reached
    bool any = false; for (auto &x : p.in.ed) any |= x.req; for (int i = 1; i <= p.in.np(); i++) any |= p.in.p[i].req; if (!any) { double S = 0; std::set<std::array<int, 2>> E; for (auto &t : o.tr) for (int i = 0; i < 3; i++) if (E.insert(key(t.v[i], t.v[(i + 1) % 3])).second) S += dist(o.X(t.v[i]), o.X(t.v[(i + 1) % 3])); double m = S / E.size(), lmin = 1e9; for (auto &x : p.in.ed) lmin = std::min(lmin, dist(p.in.X(x.v[0]), p.in.X(x.v[1]))); if (m > 1.7 * hs) { r.fail("size|mean edge length %.3g for a prescribed size %.3g", m, hs); return; } }
  }
}
static PM lattice(int n, int m, bool jit) { PM b = grid2(n, m, nullptr, [=](double x, double y) { x /= n; y /= m; return V3{{jit ? x + .13 * std::sin(M_PI * x) * std::cos(1 + x) : x, jit ? y - .11 * std::sin(M_PI * y) * std::cos(y) : y, 0}}; }); b.ed.clear(); return b; }
static std::vector<std::array<int, 2>> edges_of(const PM &b, bool diag) { std::set<std::array<int, 2>> s; std::vector<std::array<int, 2>> r; for (auto &t : b.tr) for (int i = 0; i < 3; i++) s.insert(key(t.v[i], t.v[(i + 1) % 3])); PM q = b; double lo = 1e9; (void)lo; for (auto &e : s) { V3 d = b.X(e[0]) - b.X(e[1]); bool dg = std::fabs(d[0]) > .25 && std::fabs(d[1]) > .25; if (!dg || diag) r.push_back(e); } return r; }
// lines that turn by less than the detection angle are curves for the library: their vertices are given as corners
static void corners(PM &m, bool noangle) {
  std::map<int, std::vector<V3>> d; for (auto &e : m.ed) for (int k = 0; k < 2; k++) { V3 t = m.X(e.v[1 - k]) - m.X(e.v[k]); d[e.v[k]].push_back((1 / norm(t)) * t); }
  for (auto &x : d) for (size_t i = 0; i < x.second.size(); i++) for (size_t k = 0; k < i; k++) { double a = std::acos(std::max(-1., std::min(1., -dot(x.second[i], x.second[k])))) * 180 / M_PI; if (a > 1e-3 && (noangle || a < 55)) m.p[x.first].corner = true; }
}
static void build(Plan &p) { p.in = PM(2); p.in.p = p.base.p; for (size_t i = 0; i < p.wall.size(); i++) { Edg e; e.v = p.wall[i]; e.ref = p.wref[i]; p.in.ed.push_back(e); } faces(p); }
static Scenario pslg(const char *name, bool diag, bool jit, bool opts) {
  Scenario s; s.name = name; s.rule = "every subset of the edges of a small triangulation as the given edges"; s.leaf_timeout = 30; s.bound_quick = s.bound_thorough = 0;
  s.body = [=](Chooser &ch) -> Exec {
    Plan p; p.base = lattice(2, 2, jit); auto E = edges_of(p.base, diag); int n = (int)E.size(); for (int i = 0; i < n; i++) if (ch.choose("e", 2)) { p.wall.push_back(E[i]); p.wref.push_back(1 + i % 5); }
    int o = opts ? ch.choose("opt", 3) : 0; if (p.wall.empty()) return nullptr; build(p);
    GOpt g; g.opn = false; if (o == 1) g.pars.push_back({P_hsiz, .3}); if (o == 2) { g.pars.push_back({P_noinsert, 1}); g.pars.push_back({P_opnbdy, 1}); g.opn = true; }
    corners(p.in, false);
    return [=](Rec &r) { generate(p, g, r); };
  };
  return s;
}
static void cycles(std::vector<std::vector<int>> &out, int n) { // simple cycles of the (n+1)x(n+1) lattice, smallest vertex first
  int w = n + 1, N = w * w; std::vector<int> path; std::vector<char> on(N, 0); int s = 0;
  std::function<void(int)> go = [&](int v) { int x = v % w, y = v / w; for (int d = 0; d < 4; d++) { int a = x + (d == 0) - (d == 1), b = y + (d == 2) - (d == 3); if (a < 0 || b < 0 || a >= w || b >= w) continue; int u = b * w + a; if (u == s && path.size() > 3 && path[1] < path.back()) out.push_back(path); if (u <= s || on[u]) continue; on[u] = 1; path.push_back(u); go(u); path.pop_back(); on[u] = 0; } };
  for (s = 0; s < N; s++) { path = {s}; on.assign(N, 0); on[s] = 1; go(s); }
}
static Scenario polygons(const char *name, int bq, int bt, bool extra) {
  Scenario s; s.name = name; s.rule = "every simple polygon along the lines of a 4x4 lattice x what lies inside x sizes x further deviations (orientation and order of the edges, references, required edges, required and isolated vertices, position, options, kept subdomain)"; s.leaf_timeout = 30; s.bound_quick = bq; s.bound_thorough = bt;
  s.body = [=](Chooser &ch) -> Exec {
    static std::vector<std::vector<int>> C; if (C.empty()) cycles(C, 3);
    Plan p; p.base = lattice(3, 3, true); std::map<std::array<int, 2>, int> at; // lattice vertex -> mesh vertex
    auto V = [&](int q) { int x = q % 4, y = q / 4; V3 want; static PM id = grid2(3, 3, nullptr, [](double a, double b) { return V3{{a, b, 0}}; }); return find_at(id, {{(double)x, (double)y, 0}}, 1e-9); };
    std::vector<int> sel; if (extra) for (size_t i = 0; i < C.size(); i += 17) sel.push_back((int)i); else for (size_t i = 0; i < C.size(); i++) sel.push_back((int)i);
    int c = sel[ch.choose("cycle", (int)sel.size())]; std::set<std::array<int, 2>> W; auto &cy = C[c]; for (size_t i = 0; i < cy.size(); i++) { auto e = key(V(cy[i]), V(cy[(i + 1) % cy.size()])); W.insert(e); p.wall.push_back(e); p.wref.push_back(1 + (int)i * 3 / (int)cy.size()); }
    if (int k = ch.dev("inner", 4)) { auto E = edges_of(p.base, true); int q = 0; for (auto &e : E) { if (W.count(e)) continue; q++; if (k == 1 ? q % 2 == 0 : k == 2 ? q % 5 == 1 : true) { p.wall.push_back(e); p.wref.push_back(7); } } }
    build(p); GOpt g; int np = p.in.np();
    int sz = ch.dev("size", 8); if (sz == 1) g.pars.push_back({P_hsiz, .15}); if (sz == 2) g.pars.push_back({P_hsiz, .5}); if (sz == 3) g.pars.push_back({P_optim, 1}); if (sz == 4) g.met = [](const PM &m) { return iso_field(m, [](const V3 &x) { return .1 + .2 * x[0] * x[0]; }); }; if (sz == 5) g.met = [](const PM &m) { return aniso_field(m, [](const V3 &x) { return rot(.5, .3, .1, 1); }); }; if (sz == 6) g.pars.push_back({P_hmax, .2}); if (sz == 7) { g.pars.push_back({P_hmin, .2}); g.pars.push_back({P_hmax, .4}); }
    int op = ch.dev("opt", 9); if (op == 1) g.pars.push_back({P_noinsert, 1}); if (op == 2) g.pars.push_back({P_noswap, 1}); if (op == 3) g.pars.push_back({P_nomove, 1}); if (op == 4) g.pars.push_back({P_nosurf, 1}); if (op == 5) { g.pars.push_back({P_opnbdy, 1}); g.opn = true; } if (op == 6) g.pars.push_back({P_angle, 0}); if (op == 7) g.pars.push_back({P_hgrad, 1.1}); if (op == 8) g.pars.push_back({P_3dmedit, 1});
    if (int k = ch.dev("eorder", 3)) { int i = 0; for (auto &e : p.in.ed) if (k == 1 || i++ % 2) std::swap(e.v[0], e.v[1]); if (k == 2) std::reverse(p.in.ed.begin(), p.in.ed.end()); }
    if (int k = ch.dev("eref", 3)) { int i = 0; for (auto &e : p.in.ed) e.ref = k == 1 ? 0 : 100 + i++; }
    if (int k = ch.dev("ereq", 4)) { int i = 0; for (auto &e : p.in.ed) { e.req = k == 1 ? i == 0 : k == 2 ? i % 2 : true; i++; } }
    if (int k = ch.dev("vreq", 4)) { for (int i = 1; i <= np; i++) p.in.p[i].req = k == 1 ? i == 6 : k == 2 ? i % 2 : true; if (k == 1) p.in.p[6].ref = 9; }
    if (int k = ch.dev("vert", 3)) { if (k == 1) { std::map<int, int> mp; PM q(2); for (int i = np; i >= 1; i--) { q.p.push_back(p.in.p[i]); mp[i] = (int)q.p.size() - 1; } q.ed = p.in.ed; for (auto &e : q.ed) for (int &v : e.v) v = mp[v]; PM b(2); b.p = q.p; b.tr = p.base.tr; for (auto &t : b.tr) for (int &v : t.v) v = mp[v]; p.in = q; p.base = b; } else compact(p.in); }
    if (int k = ch.dev("place", 4)) for (PM *m : {&p.in, &p.base}) for (int i = 1; i <= m->np(); i++) { V3 &x = m->p[i].x; double a = x[0], b = x[1]; if (k == 1) x = {{a * .8 - b * .6, a * .6 + b * .8, 0}}; if (k == 2) x = {{a - 1000, b + 500, 0}}; if (k == 3) x = {{a * 3, b * .5, 0}}; }
    faces(p);
    g.nsd = ch.dev("nsd", 3); if (g.nsd) g.nsd = g.nsd == 1 ? 2 : 3; if (g.nsd) { if (g.nsd - 1 > p.nf) return nullptr; g.pars.push_back({P_nsd, (double)g.nsd}); }
    corners(p.in, op == 6);
    return [=](Rec &r) { generate(p, g, r); };
  };
  return s;
}
static std::vector<Scenario> C11(bool thorough) {
  std::vector<Scenario> R = {pslg("edge-subsets", false, true, true), polygons("polygons", 1, 1, false), polygons("polygons+2", 2, 2, true)};
  if (thorough) R.push_back(pslg("edge-subsets-diagonals", true, true, false));
  return R;
}

// ------------------------------------------------------------------------------------------ C12
static PM restricted(const Job &j, int nsd) {
  PM m = j.in, o = m; o.te.clear(); o.tr.clear(); o.ed.clear();
  if (j.mod == '3') { std::map<std::array<int, 3>, int> f; for (auto &t : m.te) if (t.ref == nsd) { o.te.push_back(t); for (int i = 0; i < 4; i++) { std::array<int, 3> a; for (int k = 0; k < 3; k++) a[k] = t.v[FACE[i][k]]; f[sorted(a)]++; } } for (auto &t : m.tr) { auto it = f.find(sorted(t.v)); if (it != f.end() && it->second == 1) o.tr.push_back(t); } }
  else { std::map<std::array<int, 2>, int> f; for (auto &t : m.tr) if (t.ref == nsd) { o.tr.push_back(t); for (int i = 0; i < 3; i++) f[key(t.v[i], t.v[(i + 1) % 3])]++; } for (auto &t : m.ed) { auto it = f.find(key(t.v[0], t.v[1])); if (it != f.end() && (it->second == 1 || j.mod == 's')) o.ed.push_back(t); } }
  return o;
}
static std::string o_nsd(const Job &j, const Out &o) {
  int nsd = (int)j.par(P_nsd, 0); Job k = j; k.in = restricted(j, nsd); k.pars.push_back({P_angle, 0}); k.pars.push_back({P_nsd, 0});
  for (auto &t : o.m.te) if (t.ref != nsd) return fmt("nsd|a tetrahedron of reference %d is kept", t.ref);
  if (j.mod != '3') for (auto &t : o.m.tr) if (t.ref != nsd) return fmt("nsd|a triangle of reference %d is kept", t.ref);
  if (o.m.te.empty() && o.m.tr.empty()) return "nsd|nothing is kept";
  std::vector<char> used(o.m.p.size(), 0); for (auto &t : o.m.te) for (int v : t.v) used[v] = 1; for (auto &t : o.m.tr) for (int v : t.v) used[v] = 1; for (int i = 1; i <= o.m.np(); i++) if (!used[i]) return "nsd|a vertex of the removed part is kept";
  std::string e; { Out q = o; if (!(e = o_valid(k, q)).empty()) return e; }
  std::vector<char> uin(k.in.p.size(), 0); for (auto &t : k.in.te) for (int v : t.v) uin[v] = 1; for (auto &t : k.in.tr) for (int v : t.v) uin[v] = 1; for (int i = 1; i <= k.in.np(); i++) if (!uin[i]) { k.in.p[i].corner = k.in.p[i].req = false; }
  if (!(e = domain(k, o.m)).empty()) return e;
  return required(k, o.m);
}
static std::vector<Scenario> C12(bool) {
  std::vector<Scenario> R; static std::string nm[3];
  for (char mod : {'3', '2', 's'}) {
    std::vector<const char *> G = mod == '3' ? std::vector<const char *>{"tets2diff", "bimat", "quadmat", "ballmat", "touch", "inclusion", "twoparts", "nested"} : mod == '2' ? std::vector<const char *>{"bimat2", "quadmat2", "checker", "inclusion2", "twoparts2", "discmat2", "nested2"} : std::vector<const char *>{"s_cube", "s_cube48", "s_bimat", "s_planemat", "s_tjunction", "s_twoparts", "s_cavity"};
    std::vector<Feature> F; for (auto &f : feats_entity(mod) + feats_option(mod) + feats_size(mod)) { static const std::set<std::string> no = {"refs-big", "refs-zero", "patchref", "sheet", "unused", "linerefs", "dupedge", "opnbdy", "xreg"}; if (mod == 's' && f.name == "patchref") continue; if (!no.count(f.name)) F.push_back(f); }
    std::vector<Feature> K; for (int r = 1; r <= 5; r++) K.push_back({"nsd" + std::to_string(r), "", "32s", [r](Job &j) { bool any = false, all = true; if (j.mod == '3') for (auto &t : j.in.te) (t.ref == r ? any : all) = t.ref == r; else for (auto &t : j.in.tr) (t.ref == r ? any : all) = t.ref == r; if (!any || all) return false; j.pars.push_back({P_nsd, (double)r}); return true; }});
    Cfg c{mod, gl(mod, G), {none(), pickf(feats_size(mod), {"hsiz.22"})[0], pickf(feats_size(mod), {"anirot"})[0]}, F, o_nsd, K};
    int q = mod == '3' ? 0 : mod == '2' ? 1 : 2; nm[q] = std::string("subdomain-") + mod;
    R.push_back(scen(nm[q].c_str(), "every geometry with several subdomains x every subdomain to keep x sizes x at most `bound` further features", c, mod == '3' ? 0 : 1, mod == '3' ? 1 : 2));
    if (mod == '3') { Cfg d = c; d.geos = gl(mod, {"quadmat"}); d.base = {pickf(feats_size(mod), {"hsiz.22"})[0]}; R.push_back(scen("subdomain-3+1", "every subdomain to keep x at most `bound` further features", d, 1, 2)); }
  }
  Scenario l; l.name = "subdomain-ls"; l.rule = "level-set discretisation keeping one side, against the same run keeping both: module x function x side x level x options"; l.bound_quick = 1; l.bound_thorough = 2; l.leaf_timeout = 60;
  l.body = [](Chooser &ch) -> Exec {
    char mod = "32s"[ch.choose("module", 3)]; int f = ch.choose("function", 5), side = 2 + ch.choose("side", 2);
    std::vector<std::pair<P, double>> pars{{P_iso, 1}}; if (mod == 's') pars.push_back({P_angle, 1});
    if (int k = ch.dev("size", 3)) pars.push_back({P_hsiz, k == 1 ? .2 : .45}); if (ch.dev("level", 2)) pars.push_back({P_ls, .07});
    if (int k = ch.dev("opt", 5)) pars.push_back({k == 1 ? P_noinsert : k == 2 ? P_nomove : k == 3 ? P_noswap : P_hgrad, k == 4 ? -1. : 1.}); 
    return [=](Rec &r) {
      PM in = mod == '3' ? grid(2, 2, 2, nullptr, [](double a, double b, double c) { return V3{{a / 2, b / 2, c / 2}}; }) : mod == '2' ? grid2(5, 5, nullptr, [](double a, double b) { return V3{{a / 5, b / 5, 0}}; }) : lift(grid2(5, 5, nullptr, [](double a, double b) { return V3{{a / 5, b / 5, 0}}; }), [](const V3 &x) { return V3{{x[0], x[1], 0}}; });
      for (auto &t : in.te) t.ref = 0; if (mod != '3') for (auto &t : in.tr) t.ref = 0; if (mod == '3') boundary(in); if (mod == '2') edges2d(in);
      auto F = [&](const V3 &x) { return f == 0 ? x[0] - .43 : f == 1 ? dist(x, {{.5, .5, mod == '3' ? .5 : 0}}) - .31 : f == 2 ? x[0] + .7 * x[1] - .83 : f == 3 ? std::fabs(x[0] - .52) - .23 : .33 - dist(x, {{0, 0, 0}}); };
      auto go = [&](int nsd, PM &o) { H h(mod); for (auto &p : pars) if (h.set(p.first, p.second) != 1) return false; if (nsd) h.set(P_nsd, nsd); if (!h.put(in)) return false; if (h.setsol(h.ls, iso_field(in, F)) != 1) return false; bool ok = h.lsdisc() == MMG5_SUCCESS && h.get(o); h.free(); return ok; };
      PM a, b; if (!go(0, a)) { r.fail("refused|level-set discretisation fails"); return; }
      auto M = [&](const PM &m) { return mod == '3' ? vol_by_ref(m) : area_by_ref(m); }; if (!M(a).count(side)) return; r.nontrivial = 1;
      if (!go(side, b)) { r.fail("refused|level-set discretisation fails when one side is kept"); return; }
      r.obs(hash_mesh(b)); auto q = M(b); if (q.size() != 1 || !q.count(side)) { r.fail("nsd|the kept part holds other references than %d", side); return; }
      if (std::fabs(q[side] - M(a)[side]) > (f == 1 || f == 4 ? 2e-2 : 1e-4) * M(a)[side]) { r.fail("nsd|the side measures %.9g alone and %.9g with the other one", q[side], M(a)[side]); return; }
      std::string e = mod == '3' ? chk_tetmesh(b, Chk3()) : mod == '2' ? chk_trimesh2(b) : chk_surface(b); if (!e.empty()) r.fail("%s", e.c_str());
    };
  };
  R.push_back(l);
  return R;
}
int main(int argc, char **argv) { return driver(argc, argv, {{"C11", C11}, {"C12", C12}}); }
