// Sizes: what the user asks for drives the mesh, and the returned size map is well formed (C07).
#include "jobs.hpp"
#include <deque>

struct Sym { double a[6]; }; // m11 m12 m13 m22 m23 m33
static Sym sym(const Sols &s, int i, int dim) { // i from 1
  Sym r; if (s.type == MMG5_Scalar) { double h = s.v[i - 1], q = 1 / (h * h); r = {{q, 0, 0, q, 0, dim == 3 ? q : 1}}; return r; }
  const double *v = &s.v[(size_t)(i - 1) * (dim == 3 ? 6 : 3)]; if (dim == 3) r = {{v[0], v[1], v[2], v[3], v[4], v[5]}}; else r = {{v[0], v[1], 0, v[2], 0, 1}}; return r;
}
static double quad(const Sym &s, const V3 &u) { return s.a[0] * u[0] * u[0] + s.a[3] * u[1] * u[1] + s.a[5] * u[2] * u[2] + 2 * (s.a[1] * u[0] * u[1] + s.a[2] * u[0] * u[2] + s.a[4] * u[1] * u[2]); }
static void eig(const Sym &s, int dim, double &lo, double &hi) { // Jacobi
  double A[3][3] = {{s.a[0], s.a[1], s.a[2]}, {s.a[1], s.a[3], s.a[4]}, {s.a[2], s.a[4], s.a[5]}};
  for (int it = 0; it < 60; it++) for (int p = 0; p < 3; p++) for (int q = p + 1; q < 3; q++) { if (std::fabs(A[p][q]) < 1e-300) continue; double th = .5 * std::atan2(2 * A[p][q], A[q][q] - A[p][p]), c = cos(th), n = sin(th);
        for (int k = 0; k < 3; k++) { double x = A[k][p], y = A[k][q]; A[k][p] = c * x - n * y; A[k][q] = n * x + c * y; } for (int k = 0; k < 3; k++) { double x = A[p][k], y = A[q][k]; A[p][k] = c * x - n * y; A[q][k] = n * x + c * y; } }
  lo = 1e300; hi = -1e300; for (int k = 0; k < dim; k++) { lo = std::min(lo, A[k][k]); hi = std::max(hi, A[k][k]); }
}
typedef std::set<std::array<int, 2>> ES;
static ES edges_of(const PM &m) { ES e; for (auto &t : m.te) for (int a = 0; a < 4; a++) for (int b = 0; b < a; b++) e.insert(key(t.v[a], t.v[b])); for (auto &t : m.tr) for (int i = 0; i < 3; i++) e.insert(key(t.v[i], t.v[(i + 1) % 3])); return e; }
struct Lens { double q9 = 0, mx = 0, mean = 0, lo = 1e300; long n = 0; };
static Lens lens(const PM &m, const Sols &met) { Lens L; std::vector<double> v; for (auto &e : edges_of(m)) { V3 u = m.X(e[0]) - m.X(e[1]); double l = .5 * (std::sqrt(quad(sym(met, e[0], m.dim), u)) + std::sqrt(quad(sym(met, e[1], m.dim), u))); L.mx = std::max(L.mx, l); L.lo = std::min(L.lo, l); L.mean += l; L.n++; v.push_back(l); } L.mean /= L.n; std::sort(v.begin(), v.end()); L.q9 = v[v.size() * 95 / 100]; return L; }
// number of unit elements the size map asks for
static double wanted(const PM &m, const Sols &met) {
  double w = 0; auto det = [&](int i) { Sym s = sym(met, i, m.dim); const double *a = s.a; return a[0] * (a[3] * a[5] - a[4] * a[4]) - a[1] * (a[1] * a[5] - a[4] * a[2]) + a[2] * (a[1] * a[4] - a[3] * a[2]); };
  if (!m.te.empty()) for (auto &t : m.te) { double d = 0; for (int v : t.v) d += std::sqrt(det(v)) / 4; w += m.vol(t) * d / 0.11785; }
  else for (auto &t : m.tr) { double d = 0; for (int v : t.v) { if (m.dim == 2) d += std::sqrt(det(v)) / 3; else { V3 n = m.nrm(t); n = (1 / norm(n)) * n; V3 u = m.X(t.v[1]) - m.X(t.v[0]); u = (1 / norm(u)) * u; V3 z = cross(n, u); Sym s = sym(met, v, 3); double a = quad(s, u), b = quad(s, z), c = .25 * (quad(s, u + z) - quad(s, u - z)); d += std::sqrt(std::max(0., a * b - c * c)) / 3; } } w += m.area(t) * d / 0.433; }
  return w;
}
static bool anyreq(const Job &j) { bool r = false; for (auto &p : j.in.p) r |= p.req; for (auto &e : j.in.ed) r |= e.req; for (auto &e : j.in.tr) r |= e.req; for (auto &e : j.in.te) r |= e.req; return r; }

// entities that keep their size whatever is asked for
static bool frozen(const Job &j) { return anyreq(j) || j.par(P_nosurf, 0) > 0 || !strcmp(j.g->name, "touchhole") || !strcmp(j.g->name, "s_touchhole"); }
// what any output size map satisfies
static std::string wellformed(const Job &j, const Out &o) {
  const PM &m = o.m; if (!o.hasmet) return "metric|no size map comes back";
  if ((int)o.met.v.size() != m.np() * o.met.nc(m.dim)) return "metric|the size map does not have one entry per vertex";
  for (double x : o.met.v) if (!std::isfinite(x)) return "metric|non finite size";
  double hmin = j.par(P_hmin, 0), hmax = j.par(P_hmax, 1e30); for (auto &l : j.loc) { hmin = std::min(hmin, l.hmin); }
  double lmax = 0; for (auto &l : j.loc) lmax = std::max(lmax, l.hmax); (void)lmax;
  for (int i = 1; i <= m.np(); i++) { double lo, hi; eig(sym(o.met, i, m.dim), m.dim, lo, hi); if (!(lo > 0)) return fmt("metric|the tensor at vertex %d is not positive definite (%g)", i, lo);
    if (j.par(P_nosizreq, 0) > 0 || frozen(j)) continue;
    double h1 = 1 / std::sqrt(hi), h2 = 1 / std::sqrt(lo);
    double th = o.met.type == MMG5_Tensor ? .05 : 1e-4; if (h1 < hmin * (1 - th)) return fmt("hmin|size %.5g at vertex %d is under hmin %.5g", h1, i, hmin);
    if (h2 > hmax * (1 + th)) return fmt("hmax|size %.5g at vertex %d is over hmax %.5g", h2, i, hmax); }
  if (j.par(P_anisosize, 0) > 0 && o.met.type != MMG5_Tensor) return "anisosize|the size map is not a tensor field";
  if (j.hsiz > 0 && !frozen(j) && j.g->flat && j.loc.empty()) { if (o.met.type != MMG5_Scalar) { for (int i = 1; i <= m.np(); i++) { double lo, hi; eig(sym(o.met, i, m.dim), m.dim, lo, hi); if (std::fabs(1 / std::sqrt(lo) - j.hsiz) > 1e-4 * j.hsiz || std::fabs(1 / std::sqrt(hi) - j.hsiz) > 1e-4 * j.hsiz) return fmt("hsiz|sizes %.5g %.5g at a vertex instead of %.5g", 1 / std::sqrt(hi), 1 / std::sqrt(lo), j.hsiz); } }
    else for (double x : o.met.v) if (std::fabs(x - j.hsiz) > 1e-4 * j.hsiz) return fmt("hsiz|size %.5g at a vertex instead of %.5g", x, j.hsiz); }
  return "";
}
static std::string unit(const Job &j, const Out &o) { // the mesh follows the returned size map
  if (frozen(j) || j.par(P_noinsert, 0) > 0 || j.par(P_noswap, 0) > 0 || j.par(P_nosurf, 0) > 0 || j.par(P_optimles, 0) > 0) return "";
  const PM &m = o.m; Lens L = lens(m, o.met); double w = wanted(m, o.met); size_t ne = m.te.size() ? m.te.size() : m.tr.size(), n0 = j.in.te.size() ? j.in.te.size() : j.in.tr.size(); (void)n0;
  if (getenv("MC_STAT")) fprintf(stderr, "STAT %c %s %s max %.2f q95 %.2f mean %.2f min %.2f ne %zu wanted %.0f\n", j.mod, j.g->name, j.names.c_str(), L.mx, L.q9, L.mean, L.lo, ne, w);
  bool tiny = !strcmp(j.g->name, "tets2diff") || !strcmp(j.g->name, "tria1") || !strcmp(j.g->name, "strip2"); // hardly any room to move in
  if (j.par(P_hgrad, 1) < 0 || j.par(P_hgrad, 1) > 2 || (tiny && o.met.type == MMG5_Tensor)) return ""; // sizes may vary faster than a mesh can follow
  if (L.mx > (tiny ? 9 : 6.5) || (L.q9 > 2.6 && m.np() > 12)) return fmt("long|an edge has length %.2f in the returned size map, 95 %% are under %.2f", L.mx, L.q9);
  if (L.mean > 1.9) return fmt("long|the edges have a mean length of %.2f in the returned size map", L.mean);
  if (L.mean < .4 && w > 2 * n0 && !tiny) return fmt("short|the edges have a mean length of %.2f in the returned size map", L.mean);
  double cap = 4 * w + 8 * std::pow(w, m.te.size() ? .67 : .5) + 40 + 2 * n0; if (ne > cap) return fmt("many|%zu elements for a size map that asks for about %.0f", ne, w);
  if (ne < .2 * w - 4) return fmt("few|%zu elements for a size map that asks for about %.0f", ne, w);
  return "";
}
static std::string o_size(const Job &j, const Out &o) { std::string e = wellformed(j, o); if (e.empty()) e = unit(j, o); return e; }
// the returned map is the one that was given (flat geometry, slopes under the gradation)
static std::string o_given(const Job &j, const Out &o) {
  std::string e = o_size(j, o); if (!e.empty()) return e;
  Sols w = j.met(o.m); double hmin = j.par(P_hmin, 0), hmax = j.par(P_hmax, 1e30), worst = 0;
  bool hgo = j.par(P_hgrad, 1) < 0;
  if (w.type != o.met.type) return "given|the type of the size map changed";
  // vertices that move keep (or interpolate) their size, corners take an isotropic one: most vertices must agree, and none may be far above
  std::vector<double> er; double up = 0, dn = 0; std::vector<char> spec(o.m.p.size(), 0); for (auto &e : o.m.ed) for (int v : e.v) spec[v] = 1; if (j.mod == '3') for (auto &t : o.m.tr) for (int v : t.v) spec[v] = 1;
  for (int i = 1; i <= o.m.np(); i++) { double lo, hi; Sym a = sym(o.met, i, o.m.dim), b = sym(w, i, o.m.dim); eig(b, o.m.dim, lo, hi); double hs = 1 / std::sqrt(hi), e1 = 0;
    for (int d = 0; d < (o.m.dim == 3 ? 7 : 4); d++) { static const double D[7][3] = {{1, 0, 0}, {0, 1, 0}, {.7, .7, 0}, {.7, -.7, 0}, {0, 0, 1}, {.6, 0, .8}, {0, .6, -.8}}; V3 u = {{D[d][0], D[d][1], D[d][2]}};
      double x = 1 / std::sqrt(quad(a, u) / dot(u, u)), y = 1 / std::sqrt(quad(b, u) / dot(u, u)); y = std::min(hmax, std::max(hmin, y)); e1 = std::max(e1, std::fabs(x - y) / y); up = std::max(up, x / y); dn = std::max(dn, hs / x); }
    if (!spec[i]) er.push_back(e1); }
  if (er.empty()) er.push_back(0); std::sort(er.begin(), er.end()); worst = er[er.size() / 2];
  if (getenv("MC_STAT")) fprintf(stderr, "GIVEN %c %s %s median %.3f q90 %.3f max %.3f up %.3f down %.3f np %d n %zu\n", j.mod, j.g->name, j.names.c_str(), worst, er[er.size() * 9 / 10], er.back(), up, dn, o.m.np(), er.size());
  if (getenv("MC_STAT")) for (int i = 1; i <= o.m.np(); i++) { Sym a = sym(o.met, i, o.m.dim); fprintf(stderr, "V %d (%.3f %.3f %.3f) spec %d sizes %.3f %.3f %.3f off %.2f %.2f %.2f\n", i, o.m.X(i)[0], o.m.X(i)[1], o.m.X(i)[2], spec[i], 1/sqrt(a.a[0]), 1/sqrt(a.a[3]), 1/sqrt(a.a[5]), a.a[1], a.a[2], a.a[4]); }
  if (!strcmp(j.g->name, "touchhole") || !strcmp(j.g->name, "s_touchhole")) return "";
  if (w.type == MMG5_Scalar) { if (worst > .15 || er.back() > .4) return fmt("given|sizes differ from the ones asked for by %.0f %% (half of the vertices) and %.0f %% (worst)", 100 * worst, 100 * er.back()); if (up > 1.35 || dn > 1.45) return fmt("given|sizes between %.2f and %.2f times the ones asked for", 1 / dn, up); }
  else { if (up > 1.9) return fmt("given|a size is %.2f times the one asked for", up); if (dn > 3.4) return fmt("given|a size is %.2f times smaller than the smallest one asked for", dn);
    if (hgo && (j.mod == '2' || !strcmp(j.g->name, "cube48")) && er.size() > 3 && worst > .35) return fmt("given|sizes differ from the ones asked for by %.0f %% for half of the vertices", 100 * worst); }
  return "";
}
// ------------------------------------------------------------------------------------------- gradation
static Feature jump(double small, double big, bool an) { return {fmt("jump%s%g-%g", an ? "A" : "", small, big), "size", "32s", [=](Job &j) { j.hasmet = true; double x0 = 0; for (int i = 1; i <= j.in.np(); i++) x0 = std::min(x0, j.in.X(i)[0]);
  if (an) j.met = [=](const PM &m) { return aniso_field(m, [=](const V3 &x) { double h = x[0] < x0 + 1e-9 ? small : big; return diag(h, h * 1.2, h); }); }; else j.met = [=](const PM &m) { return iso_field(m, [=](const V3 &x) { return x[0] < x0 + 1e-9 ? small : big; }); }; return true; }}; }
static std::string o_grad(const Job &j, const Out &o) {
  std::string e = o_size(j, o); if (!e.empty()) return e;
  double hg = j.par(P_hgrad, 1.3), mx = 0; std::vector<double> g; // vertices move with their size: the slopes hold for most edges only
  for (auto &a : edges_of(o.m)) { V3 u = o.m.X(a[0]) - o.m.X(a[1]); double l = norm(u), h1 = l / std::sqrt(quad(sym(o.met, a[0], o.m.dim), u)), h2 = l / std::sqrt(quad(sym(o.met, a[1], o.m.dim), u)); mx = std::max(mx, std::max(h1, h2)); g.push_back(std::fabs(h1 - h2) / l); }
  std::sort(g.begin(), g.end()); double q = g[g.size() * 85 / 100];
  if (getenv("MC_STAT")) fprintf(stderr, "GRAD %c %s %s q %.3f (log %.3f) max %.3g\n", j.mod, j.g->name, j.names.c_str(), q, hg > 0 ? std::log(hg) : -1, mx);
  if (hg > 0 && q > 2.2 * std::log(hg) + .1) return fmt("gradation|sizes vary by %.3f per unit length along many edges, log(hgrad) = %.3f", q, std::log(hg));
  if (hg < 0 && mx < .7 * (j.names.find("0.8") != std::string::npos ? .8 : .5)) return fmt("gradation|the largest size is %.3f although no gradation was asked for", mx);
  return "";
}
// ------------------------------------------------------------------------------- hausdorff on known curves
static std::string o_hausd(const Job &j, const Out &o) { // unit disc / ball: output boundary within the Hausdorff distance of the circle
  double h = j.par(P_hausd, .01), hmin = j.par(P_hmin, 0), w = 0, out = 0; const PM &m = o.m;
  if (j.mod == '2') { for (auto &e : m.ed) { V3 c = .5 * (m.X(e.v[0]) + m.X(e.v[1])); if (e.ref == 10) continue; w = std::max(w, 1 - norm(c)); for (int v : e.v) out = std::max(out, std::fabs(1 - norm(m.X(v)))); } }
  else for (auto &t : m.tr) { if (t.ref == 10) continue; V3 c = (1. / 3) * (m.X(t.v[0]) + m.X(t.v[1]) + m.X(t.v[2])); w = std::max(w, 1 - norm(c)); for (int v : t.v) out = std::max(out, std::fabs(1 - norm(m.X(v)))); }
  if (getenv("MC_STAT")) fprintf(stderr, "HAUSD %c %s %s hausd %g: sagitta %.4f, vertices off by %.4f nt %zu\n", j.mod, j.g->name, j.names.c_str(), h, w, out, m.tr.size());
  (void)hmin; std::string e = wellformed(j, o); if (!e.empty() || !strcmp(j.g->name, "ball48")) return e;
  if (j.mod == '2') { if (w > 1.9 * h + .002) return fmt("hausd|a boundary edge is %.4f away from the circle, hausd is %g", w, h); if (out > std::max(.02, 1.5 * h)) return fmt("hausd|a boundary vertex is %.4f away from the circle", out); }
  else { double cap = 1.5 * 4 * M_PI / (.433 * 8 * h / 9); if (w > 1.6 * h + .018) return fmt("hausd|a triangle is %.4f away from the sphere, hausd is %g", w, h); if (out > .03) return fmt("hausd|a vertex is %.4f away from the sphere", out); if (m.tr.size() > cap) return fmt("hausd|%zu triangles, %.0f are enough for hausd %g", m.tr.size(), cap, h); }
  return "";
}
// ------------------------------------------------------------------------------------- local parameters
static std::string o_local(const Job &j, const Out &o) { // sizes inside the domains of the local parameters, and outside of them
  std::string e = wellformed(j, o); if (!e.empty()) return e; const PM &m = o.m;
  for (auto &l : j.loc) {
    std::vector<char> in(m.p.size(), 0), out(m.p.size(), 0);
    auto mark = [&](int ref, const int *v, int n) { for (int k = 0; k < n; k++) (ref == l.ref ? in : out)[v[k]] = 1; };
    if (l.typ == MMG5_Tetrahedron) for (auto &t : m.te) mark(t.ref, t.v.data(), 4);
    else if (l.typ == MMG5_Triangle) { for (auto &t : m.tr) mark(t.ref, t.v.data(), 3); }
    else for (auto &t : m.ed) mark(t.ref, t.v.data(), 2);
    double small = 1e30; std::vector<double> B; std::vector<char> bd(m.p.size(), 0); for (auto &t : m.ed) for (int v : t.v) bd[v] = 1; if (l.typ == MMG5_Tetrahedron) for (auto &t : m.tr) for (int v : t.v) bd[v] = 1;
    for (int i = 1; i <= m.np(); i++) if (in[i] && !out[i]) { double lo, hi; eig(sym(o.met, i, m.dim), m.dim, lo, hi); double h1 = 1 / std::sqrt(hi), h2 = 1 / std::sqrt(lo); B.push_back(h2); if (!bd[i]) small = std::min(small, h1); }
    if (B.empty()) continue; std::sort(B.begin(), B.end()); double big = B[B.size() / 2], mx = B.back();
    if (getenv("MC_STAT")) fprintf(stderr, "LOCAL %c %s %s ask %g %g in %.3f q75 %.3f max %.3f (%zu of %d)\n", j.mod, j.g->name, j.names.c_str(), l.hmin, l.hmax, small, big, mx, B.size(), m.np());
    if (j.mod == '3' && l.typ == MMG5_Triangle) { // the sizes of a patch are driven by its inner vertices (those of its border obey the neighbours too)
      std::vector<char> a(j.in.p.size(), 0), b(j.in.p.size(), 0); for (auto &t : j.in.tr) for (int v : t.v) (t.ref == l.ref ? a : b)[v] = 1; Surf sf(j.in); for (auto &x : sf.e) if (sf.special(x.first) || sf.angle(x.first) > 30) for (int v : x.first) b[v] = 1; bool inner = false; for (int i = 1; i <= j.in.np(); i++) inner |= a[i] && !b[i]; if (!inner || B.size() < 5) continue; }
    if (!strcmp(j.g->name, "touchhole")) continue;
    if (B.size() > 4 && mx > l.hmax * 1.8) return fmt("local|size %.4g on the entities of reference %d whose local hmax is %g", mx, l.ref, l.hmax);
    if (big > l.hmax * 1.25) return fmt("local|size %.4g on the entities of reference %d whose local hmax is %g", big, l.ref, l.hmax);
    if (j.g->flat && small < l.hmin * .94 && j.loc.size() == 1 && !j.hasmet) return fmt("local|size %.4g on the entities of reference %d whose local hmin is %g", small, l.ref, l.hmin);
  }
  return "";
}
static Feature locf(const char *n, int typ, double hm, double hM, double hd) { return {n, "", "32s", [=](Job &j) { int ref = typ == MMG5_Tetrahedron ? j.in.te[0].ref : typ == MMG5_Triangle ? j.in.tr[0].ref : j.in.ed[0].ref; j.loc.push_back({typ, ref, hm, hM, hd}); return true; }}; }
static Feature locl(const char *n, int typ, double hm, double hM, double hd) { return {n, "", "32s", [=](Job &j) { int ref = typ == MMG5_Tetrahedron ? j.in.te.back().ref : typ == MMG5_Triangle ? j.in.tr.back().ref : j.in.ed.back().ref; for (auto &l : j.loc) if (l.ref == ref) return false; j.loc.push_back({typ, ref, hm, hM, hd}); return true; }}; }
static std::vector<Feature> P1(std::vector<Feature> a) { return a; }
static std::vector<Scenario> C07(bool) {
  std::vector<Scenario> R;
  for (char mod : {'3', '2', 's'}) {
    auto O = feats_option(mod), E = feats_entity(mod), S = feats_size(mod); std::vector<Feature> X;
    for (auto &f : O) { static const std::set<std::string> no = {"xreg", "opnbdy"}; if (!no.count(f.name)) X.push_back(f); }
    std::vector<Feature> size = S; size.insert(size.begin(), none());
    Cfg a{mod, gall(mod), size, X, o_size, {}};
    static std::deque<std::string> nm; auto N = [&](const char *s) { nm.push_back(std::string(s) + mod); return nm.back().c_str(); };
    R.push_back(scen(N("size-"), "every geometry x every way to give sizes x at most `bound` further options", a, mod == '2' ? 1 : 0, 1));
    std::vector<int> flat; for (size_t i = 0; i < geos(mod).size(); i++) if (geos(mod)[i].flat) flat.push_back((int)i);
    std::vector<Feature> Y = pickf(O, {"hgrad-1.1", "hgrad-2.5", "nreg", "octree8", "norenum", "nofem", "hausd-small", "nosizreq", "hmax", "hmin"});
    Cfg g{mod, flat, pickf(S, {"isolin", "anidiag", "anirot", "anivar"}), Y, o_given, {none(), pickf(O, {"hgrad-off"})[0]}};
    R.push_back(scen(N("given-"), "every flat geometry x every size map x options: the map that comes back is the one that was given", g, mod == '3' ? 0 : 1, 1));
    Cfg h{mod, gl(mod, mod == '3' ? std::vector<const char *>{"cube48", "plate", "bimat"} : mod == '2' ? std::vector<const char *>{"square32", "strip2", "nested2", "bimat2"} : std::vector<const char *>{"s_cube48", "s_plane", "s_bimat"}), {jump(.08, .8, false), jump(.08, .8, true), jump(.15, .5, false)}, pickf(O, {"hgrad-1.1", "hgrad-2.5", "hgrad-off", "nofem", "nreg"}), o_grad, {}};
    R.push_back(scen(N("gradation-"), "size maps with a jump x gradation values", h, 1, 2));
    Cfg c{mod, gl(mod, mod == '3' ? std::vector<const char *>{"ball48", "ballmat"} : mod == '2' ? std::vector<const char *>{"disc2", "discmat2"} : std::vector<const char *>{"s_ball"}), {none()}, pickf(O, {"hausd-big", "hausd-small", "hgrad-off", "anisosize", "nreg"}), o_hausd, {}};
    R.push_back(scen(N("hausdorff-"), "curved geometries x Hausdorff values", c, 1, 2));
    std::vector<Feature> L; if (mod == '3') L.push_back(locf("tet.1-.3", MMG5_Tetrahedron, .1, .3, .01)); L.push_back(locf("tria.1-.25", MMG5_Triangle, .1, .25, .01)); L.push_back(locf("tria.3-.6", MMG5_Triangle, .3, .6, .05)); if (mod == '2') L.push_back(locf("edge.05-.15", MMG5_Edg, .05, .15, .01));
    std::vector<Feature> M = pickf(O, {"hgrad-1.1", "hgrad-off", "hausd-small", "nreg", "anisosize"}) + pickf(S, {"hmax.4", "isolin", "isopeak"}) + std::vector<Feature>{locl("also-tria.12-.3", MMG5_Triangle, .12, .3, .02)}; if (mod == '3') M.push_back(locl("also-tet.12-.3", MMG5_Tetrahedron, .12, .3, .02));
    Cfg l{mod, gall(mod), L, M, o_local, {}};
    R.push_back(scen(N("local-"), "every geometry x local size parameters on a reference x options and further local parameters", l, 1, 2));
  }
  return R;
}
int main(int argc, char **argv) { return driver(argc, argv, {{"C07", C07}}); }
