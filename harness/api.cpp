// Histories of API calls against a reference model (C13).
#include <memory>
#include "jobs.hpp"

static const char UNK = 2; // flag whose value is not specified
static const int UREF = -77777; // reference that is not specified
static void keepref(int &r, bool given, int v) { if (given) r = v; else if (r) r = UREF; } // references left out
struct MV { double x[3]; int ref; char corner, req; double n[3] = {0, 0, 0}; bool hasn = false; };
template <int N> struct ME { std::array<int, N> v; int ref; char req, ridge; };
struct Model { // what the library must remember
  bool sized = false; std::vector<MV> p; std::vector<ME<4>> te, qu; std::vector<ME<3>> tr; std::vector<ME<2>> ed; std::vector<ME<6>> pr;
  int cp = 0, cte = 0, ctr = 0, ced = 0, cqu = 0, cpr = 0; // read cursors (number of entities read)
  int st = 0, snp = 0, cs = 0; std::vector<double> sv; // solution: type (0: not set), entries
};
struct W : H {
  Model d;
  explicit W(char c) : H(c, 40) {}
  int nc() const { return d.st == MMG5_Scalar ? 1 : d.st == MMG5_Vector ? dim() : dim() == 2 ? 3 : 6; }
  std::string size(int np, int ne, int npr, int nt, int nq, int na) {
    int rc = BY(MMG3D_Set_meshSize(m, np, ne, npr, nt, nq, na), MMG2D_Set_meshSize(m, np, nt, nq, na), MMGS_Set_meshSize(m, np, nt, na)); if (rc != 1) return "Set_meshSize fails";
    d = Model(); /* the solution must be sized again */ d.sized = true; d.p.resize(np); if (mod == '3') d.te.resize(ne), d.pr.resize(npr); d.tr.resize(nt); if (mod != 's') d.qu.resize(nq); d.ed.resize(na);
    for (auto &x : d.p) x = MV{{0, 0, 0}, 0, 0, 0}; auto z = [](auto &v) { for (auto &x : v) { x.v.fill(0); x.ref = 0; x.req = x.ridge = 0; } }; d.cp = np, d.cte = d.te.size(), d.ctr = d.tr.size(), d.ced = d.ed.size(), d.cqu = d.qu.size(), d.cpr = d.pr.size(); z(d.te); z(d.pr); z(d.tr); z(d.qu); z(d.ed); return "";
  }
};
#define W3 w.mod == '3'
static std::string rc_is(int rc, int want, const char *what) { return rc == want ? "" : fmt("status|%s returns %d instead of %d", what, rc, want); }
static double det(const Model &d, const std::array<int, 4> &v) { double a[3][3]; for (int k = 0; k < 3; k++) for (int i = 0; i < 3; i++) a[k][i] = d.p[v[k + 1] - 1].x[i] - d.p[v[0] - 1].x[i]; return a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]); }
static double det2(const Model &d, const std::array<int, 3> &v) { auto &a = d.p[v[0] - 1], &b = d.p[v[1] - 1], &c = d.p[v[2] - 1]; return (b.x[0] - a.x[0]) * (c.x[1] - a.x[1]) - (b.x[1] - a.x[1]) * (c.x[0] - a.x[0]); }
// ------------------------------------------------------------------------------------------------- base data
static const double XA[6][3] = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, 1, 1}, {.25, .125, 2}}, XB[6][3] = {{-.5, .25, .125}, {1.5, -.25, .5}, {.125, 1.5, .25}, {.0625, .25, 1.5}, {1.25, 1.5, 1.75}, {.5, -.75, 3}};
static const int TE[2][2][4] = {{{1, 2, 3, 4}, {2, 3, 4, 5}}, {{1, 2, 4, 3}, {2, 3, 5, 4}}}; // the second ones come in the other orientation
static const int TR[2][3][3] = {{{1, 2, 3}, {2, 3, 4}, {3, 4, 5}}, {{2, 1, 3}, {4, 3, 2}, {1, 4, 5}}};
static const int ED[2][3][2] = {{{1, 2}, {2, 3}, {4, 5}}, {{2, 1}, {3, 5}, {1, 4}}};
static const int QU[2][2][4] = {{{1, 2, 3, 4}, {2, 3, 4, 5}}, {{4, 3, 2, 1}, {1, 2, 4, 5}}};
static const int PR[2][2][6] = {{{1, 2, 3, 4, 5, 6}, {2, 3, 4, 5, 6, 1}}, {{6, 5, 4, 3, 2, 1}, {1, 3, 2, 4, 6, 5}}};
static int np_of(char mod) { return mod == '3' ? 6 : 5; }
static void orient(W &w, ME<4> &t) { if (det(w.d, t.v) < 0) std::swap(t.v[2], t.v[3]); }
static void orient2(W &w, ME<3> &t) { if (w.mod == '2' && det2(w.d, t.v) < 0) std::swap(t.v[1], t.v[2]); }

typedef std::function<std::string(W &)> Fn;
struct Op { std::string name; Fn f; };
static std::string setv(W &w, int i, const double X[6][3], int ref) { // i from 0
  int rc = BY_(w, MMG3D_Set_vertex(w.m, X[i][0], X[i][1], X[i][2], ref, i + 1), MMG2D_Set_vertex(w.m, X[i][0], X[i][1], ref, i + 1), MMGS_Set_vertex(w.m, X[i][0], X[i][1], X[i][2], ref, i + 1));
  bool ok = w.d.sized && i < (int)w.d.p.size(); std::string e = rc_is(rc, ok, "Set_vertex"); if (!e.empty() || !ok) return e;
  auto &v = w.d.p[i]; memcpy(v.x, X[i], sizeof v.x); if (w.mod == '2') v.x[2] = 0; v.ref = ref; v.corner = v.req = 0; return "";
}
static std::string sett(W &w, int i, int alt, int ref) {
  std::array<int, 3> v{{TR[alt][i][0], TR[alt][i][1], TR[alt][i][2]}}; if (w.mod == '2' && i < (int)w.d.tr.size() && (*std::max_element(v.begin(), v.end()) > (int)w.d.p.size() || std::fabs(det2(w.d, v)) < 1e-9)) return ""; int rc = BY_(w, MMG3D_Set_triangle(w.m, v[0], v[1], v[2], ref, i + 1), MMG2D_Set_triangle(w.m, v[0], v[1], v[2], ref, i + 1), MMGS_Set_triangle(w.m, v[0], v[1], v[2], ref, i + 1));
  bool ok = w.d.sized && i < (int)w.d.tr.size(); std::string e = rc_is(rc, ok, "Set_triangle"); if (!e.empty() || !ok) return e;
  auto &t = w.d.tr[i]; if (t.req == 1) t.req = UNK; t.v = v; t.ref = ref; orient2(w, t); return "";
}
static std::string sete(W &w, int i, int alt, int ref) {
  std::array<int, 2> v{{ED[alt][i][0], ED[alt][i][1]}}; int rc = BY_(w, MMG3D_Set_edge(w.m, v[0], v[1], ref, i + 1), MMG2D_Set_edge(w.m, v[0], v[1], ref, i + 1), MMGS_Set_edge(w.m, v[0], v[1], ref, i + 1));
  bool ok = w.d.sized && i < (int)w.d.ed.size(); std::string e = rc_is(rc, ok, "Set_edge"); if (!e.empty() || !ok) return e;
  auto &t = w.d.ed[i]; if (t.req == 1) t.req = UNK; if (t.ridge == 1) t.ridge = UNK; t.v = v; t.ref = ref; return "";
}
static std::string setk(W &w, int i, int alt, int ref) {
  std::array<int, 4> v; for (int k = 0; k < 4; k++) v[k] = TE[alt][i][k]; if (i < (int)w.d.te.size() && (*std::max_element(v.begin(), v.end()) > (int)w.d.p.size() || std::fabs(det(w.d, v)) < 1e-9)) return ""; int rc = MMG3D_Set_tetrahedron(w.m, v[0], v[1], v[2], v[3], ref, i + 1);
  bool ok = w.d.sized && i < (int)w.d.te.size(); std::string e = rc_is(rc, ok, "Set_tetrahedron"); if (!e.empty() || !ok) return e;
  auto &t = w.d.te[i]; if (t.req == 1) t.req = UNK; t.v = v; t.ref = std::abs(ref); orient(w, t); return "";
}
static std::string setq(W &w, int i, int alt, int ref) {
  std::array<int, 4> v; for (int k = 0; k < 4; k++) v[k] = QU[alt][i][k]; int rc = w.mod == '3' ? MMG3D_Set_quadrilateral(w.m, v[0], v[1], v[2], v[3], ref, i + 1) : MMG2D_Set_quadrilateral(w.m, v[0], v[1], v[2], v[3], ref, i + 1);
  bool ok = w.d.sized && i < (int)w.d.qu.size(); std::string e = rc_is(rc, ok, "Set_quadrilateral"); if (!e.empty() || !ok) return e; auto &t = w.d.qu[i]; t.v = v; t.ref = ref; return "";
}
static std::string setp(W &w, int i, int alt, int ref) {
  std::array<int, 6> v; for (int k = 0; k < 6; k++) v[k] = PR[alt][i][k]; int rc = MMG3D_Set_prism(w.m, v[0], v[1], v[2], v[3], v[4], v[5], ref, i + 1);
  bool ok = w.d.sized && i < (int)w.d.pr.size(); std::string e = rc_is(rc, ok, "Set_prism"); if (!e.empty() || !ok) return e; auto &t = w.d.pr[i]; t.v = v; t.ref = ref; return "";
}
// chunks; refs may be NULL (0 everywhere)
static std::string chunk(W &w, char what, int alt, bool refs) {
  int n = what == 'v' ? w.d.p.size() : what == 't' ? w.d.tr.size() : what == 'e' ? w.d.ed.size() : what == 'k' ? w.d.te.size() : what == 'q' ? w.d.qu.size() : w.d.pr.size();
  std::vector<MMG5_int> I, R; std::vector<double> X; for (int i = 0; i < n; i++) R.push_back(refs ? 50 + 10 * alt + i : 0); MMG5_int *r = refs ? R.data() : NULL; std::string e; int rc = 0;
  if (what == 't' && w.mod == '2') for (int i = 0; i < n; i++) { std::array<int, 3> v{{TR[alt][i][0], TR[alt][i][1], TR[alt][i][2]}}; if (*std::max_element(v.begin(), v.end()) > (int)w.d.p.size() || std::fabs(det2(w.d, v)) < 1e-9) return ""; }
  if (what == 'k') for (int i = 0; i < n; i++) { std::array<int, 4> v; for (int k = 0; k < 4; k++) v[k] = TE[alt][i][k]; if (*std::max_element(v.begin(), v.end()) > (int)w.d.p.size() || std::fabs(det(w.d, v)) < 1e-9) return ""; }
  if (what == 'v') { for (int i = 0; i < n; i++) for (int k = 0; k < w.dim(); k++) X.push_back((alt ? XB : XA)[i][k]); rc = BY_(w, MMG3D_Set_vertices(w.m, X.data(), r), MMG2D_Set_vertices(w.m, X.data(), r), MMGS_Set_vertices(w.m, X.data(), r)); e = rc_is(rc, 1, "Set_vertices");
    for (int i = 0; i < n; i++) { auto &v = w.d.p[i]; memcpy(v.x, (alt ? XB : XA)[i], sizeof v.x); if (w.mod == '2') v.x[2] = 0; keepref(v.ref, refs, R[i]); v.corner = v.req = 0; } }
  if (what == 't') { for (int i = 0; i < n; i++) for (int k = 0; k < 3; k++) I.push_back(TR[alt][i][k]); rc = BY_(w, MMG3D_Set_triangles(w.m, I.data(), r), MMG2D_Set_triangles(w.m, I.data(), r), MMGS_Set_triangles(w.m, I.data(), r)); e = rc_is(rc, 1, "Set_triangles");
    for (int i = 0; i < n; i++) { auto &t = w.d.tr[i]; if (t.req == 1) t.req = UNK; for (int k = 0; k < 3; k++) t.v[k] = TR[alt][i][k]; keepref(t.ref, refs, R[i]); orient2(w, t); } }
  if (what == 'e') { for (int i = 0; i < n; i++) for (int k = 0; k < 2; k++) I.push_back(ED[alt][i][k]); rc = BY_(w, MMG3D_Set_edges(w.m, I.data(), r), MMG2D_Set_edges(w.m, I.data(), r), MMGS_Set_edges(w.m, I.data(), r)); e = rc_is(rc, 1, "Set_edges");
    for (int i = 0; i < n; i++) { auto &t = w.d.ed[i]; if (t.req == 1) t.req = UNK; if (t.ridge == 1) t.ridge = UNK; for (int k = 0; k < 2; k++) t.v[k] = ED[alt][i][k]; keepref(t.ref, refs, R[i]); } }
  if (what == 'k') { for (int i = 0; i < n; i++) for (int k = 0; k < 4; k++) I.push_back(TE[alt][i][k]); rc = MMG3D_Set_tetrahedra(w.m, I.data(), r); e = rc_is(rc, 1, "Set_tetrahedra"); for (int i = 0; i < n; i++) { auto &t = w.d.te[i]; if (t.req == 1) t.req = UNK; for (int k = 0; k < 4; k++) t.v[k] = TE[alt][i][k]; keepref(t.ref, refs, R[i]); orient(w, t); } }
  if (what == 'q') { for (int i = 0; i < n; i++) for (int k = 0; k < 4; k++) I.push_back(QU[alt][i][k]); rc = w.mod == '3' ? MMG3D_Set_quadrilaterals(w.m, I.data(), r) : MMG2D_Set_quadrilaterals(w.m, I.data(), r); e = rc_is(rc, 1, "Set_quadrilaterals"); for (int i = 0; i < n; i++) { auto &t = w.d.qu[i]; for (int k = 0; k < 4; k++) t.v[k] = QU[alt][i][k]; keepref(t.ref, refs, R[i]); } }
  if (what == 'p') { for (int i = 0; i < n; i++) for (int k = 0; k < 6; k++) I.push_back(PR[alt][i][k]); rc = MMG3D_Set_prisms(w.m, I.data(), r); e = rc_is(rc, 1, "Set_prisms"); for (int i = 0; i < n; i++) { auto &t = w.d.pr[i]; for (int k = 0; k < 6; k++) t.v[k] = PR[alt][i][k]; keepref(t.ref, refs, R[i]); } }
  return e;
}
// ------------------------------------------------------------------------------------------------ solutions
static double sval(int seed, int i, int c) { return 1.5 + seed * 10 + i + .0625 * c; }
static std::string solsize(W &w, int type) {
  int np = w.d.p.size(); int rc = BY_(w, MMG3D_Set_solSize(w.m, w.met, MMG5_Vertex, np, type), MMG2D_Set_solSize(w.m, w.met, MMG5_Vertex, np, type), MMGS_Set_solSize(w.m, w.met, MMG5_Vertex, np, type));
  bool ok = w.d.sized; std::string e = ok ? rc_is(rc, 1, "Set_solSize") : ""; if (!e.empty() || !ok) return e; w.d.st = type; w.d.snp = np; w.d.cs = 0; w.d.sv.assign(np * w.nc(), NAN); return ""; // entries are unspecified until set
}
static std::string sol1(W &w, int i, int seed) {
  if (!w.d.st || !w.d.snp) return ""; double v[6]; for (int c = 0; c < 6; c++) v[c] = sval(seed, i, c); int t = w.d.st, p = i + 1, rc;
  if (t == MMG5_Scalar) rc = BY_(w, MMG3D_Set_scalarSol(w.met, v[0], p), MMG2D_Set_scalarSol(w.met, v[0], p), MMGS_Set_scalarSol(w.met, v[0], p));
  else if (t == MMG5_Vector) rc = BY_(w, MMG3D_Set_vectorSol(w.met, v[0], v[1], v[2], p), MMG2D_Set_vectorSol(w.met, v[0], v[1], p), MMGS_Set_vectorSol(w.met, v[0], v[1], v[2], p));
  else rc = BY_(w, MMG3D_Set_tensorSol(w.met, v[0], v[1], v[2], v[3], v[4], v[5], p), MMG2D_Set_tensorSol(w.met, v[0], v[1], v[2], p), MMGS_Set_tensorSol(w.met, v[0], v[1], v[2], v[3], v[4], v[5], p));
  bool ok = i >= 0 && i < w.d.snp; std::string e = i < 0 && w.mod == '2' ? "" : rc_is(rc, ok, "setting one entry of the solution"); if (!e.empty() || !ok) return e; for (int c = 0; c < w.nc(); c++) w.d.sv[i * w.nc() + c] = v[c]; return "";
}
static std::string solall(W &w, int seed) {
  if (!w.d.st || !w.d.snp) return ""; std::vector<double> v; for (int i = 0; i < w.d.snp; i++) for (int c = 0; c < w.nc(); c++) v.push_back(sval(seed, i, c)); int t = w.d.st, rc;
  if (t == MMG5_Scalar) rc = BY_(w, MMG3D_Set_scalarSols(w.met, v.data()), MMG2D_Set_scalarSols(w.met, v.data()), MMGS_Set_scalarSols(w.met, v.data()));
  else if (t == MMG5_Vector) rc = BY_(w, MMG3D_Set_vectorSols(w.met, v.data()), MMG2D_Set_vectorSols(w.met, v.data()), MMGS_Set_vectorSols(w.met, v.data()));
  else rc = BY_(w, MMG3D_Set_tensorSols(w.met, v.data()), MMG2D_Set_tensorSols(w.met, v.data()), MMGS_Set_tensorSols(w.met, v.data()));
  std::string e = rc_is(rc, 1, "setting the whole solution"); w.d.sv = v; return e;
}
static bool same(double a, double b) { return std::isnan(b) || a == b; }
static std::string getsol1(W &w) {
  if (!w.d.st || !w.d.snp) return ""; double v[6]; int t = w.d.st, rc;
  if (t == MMG5_Scalar) rc = BY_(w, MMG3D_Get_scalarSol(w.met, v), MMG2D_Get_scalarSol(w.met, v), MMGS_Get_scalarSol(w.met, v));
  else if (t == MMG5_Vector) rc = BY_(w, MMG3D_Get_vectorSol(w.met, v, v + 1, v + 2), MMG2D_Get_vectorSol(w.met, v, v + 1), MMGS_Get_vectorSol(w.met, v, v + 1, v + 2));
  else rc = BY_(w, MMG3D_Get_tensorSol(w.met, v, v + 1, v + 2, v + 3, v + 4, v + 5), MMG2D_Get_tensorSol(w.met, v, v + 1, v + 2), MMGS_Get_tensorSol(w.met, v, v + 1, v + 2, v + 3, v + 4, v + 5));
  std::string e = rc_is(rc, 1, "reading one entry of the solution"); if (!e.empty()) return e; int i = w.d.cs % w.d.snp; w.d.cs = i + 1;
  for (int c = 0; c < w.nc(); c++) if (!same(v[c], w.d.sv[i * w.nc() + c])) return fmt("solution|component %d of entry %d is %g instead of %g", c, i + 1, v[c], w.d.sv[i * w.nc() + c]); return "";
}
static std::string getsolall(W &w) {
  if (!w.d.st || !w.d.snp) return ""; std::vector<double> v(w.d.sv.size() + 1); int t = w.d.st, rc;
  int te, ty; MMG5_int np; if (w.mod == 's') w.d.cs = 0; rc = BY_(w, MMG3D_Get_solSize(w.m, w.met, &te, &np, &ty), MMG2D_Get_solSize(w.m, w.met, &te, &np, &ty), MMGS_Get_solSize(w.m, w.met, &te, &np, &ty));
  if (rc != 1 || te != MMG5_Vertex || np != w.d.snp || ty != t) return fmt("solution|size %d type %d instead of %d %d", (int)np, ty, w.d.snp, t);
  if (t == MMG5_Scalar) rc = BY_(w, MMG3D_Get_scalarSols(w.met, v.data()), MMG2D_Get_scalarSols(w.met, v.data()), MMGS_Get_scalarSols(w.met, v.data()));
  else if (t == MMG5_Vector) rc = BY_(w, MMG3D_Get_vectorSols(w.met, v.data()), MMG2D_Get_vectorSols(w.met, v.data()), MMGS_Get_vectorSols(w.met, v.data()));
  else rc = BY_(w, MMG3D_Get_tensorSols(w.met, v.data()), MMG2D_Get_tensorSols(w.met, v.data()), MMGS_Get_tensorSols(w.met, v.data()));
  if (rc != 1) return "solution|the whole solution cannot be read"; for (size_t k = 0; k < w.d.sv.size(); k++) if (!same(v[k], w.d.sv[k])) return fmt("solution|value %zu of the array is %g instead of %g", k, v[k], w.d.sv[k]); return "";
}
// -------------------------------------------------------------------------------------------------- reading
static std::string cmpv(W &w, int i, double *x, MMG5_int ref, int c, int r, const char *by) { auto &v = w.d.p[i]; for (int k = 0; k < w.dim(); k++) if (x[k] != v.x[k]) return fmt("vertex|%s: coordinate %d of vertex %d is %g instead of %g", by, k, i + 1, x[k], v.x[k]);
  if (v.ref != UREF && ref != v.ref) return fmt("vertex|%s: reference of vertex %d is %d instead of %d", by, i + 1, (int)ref, v.ref); if ((c != 0) != v.corner) return fmt("vertex|%s: vertex %d corner flag %d instead of %d", by, i + 1, c, v.corner); if ((r != 0) != v.req) return fmt("vertex|%s: vertex %d required flag %d instead of %d", by, i + 1, r, v.req); return ""; }
template <int N> static std::string cmpe(const ME<N> &t, int i, const MMG5_int *v, MMG5_int ref, int r, int g, const char *by) { for (int k = 0; k < N; k++) if (v[k] != t.v[k]) return fmt("entity|%s: vertex %d of entity %d is %d instead of %d", by, k, i + 1, (int)v[k], t.v[k]);
  if (t.ref != UREF && ref != t.ref) return fmt("entity|%s: reference of entity %d is %d instead of %d", by, i + 1, (int)ref, t.ref); if (t.req != UNK && r >= 0 && (r != 0) != t.req) return fmt("entity|%s: required flag of entity %d is %d instead of %d", by, i + 1, r, t.req); if (t.ridge != UNK && g >= 0 && (g != 0) != t.ridge) return fmt("entity|%s: ridge flag of entity %d is %d instead of %d", by, i + 1, g, t.ridge); return ""; }
static bool holes(W &w) { if (w.mod == '2') for (auto &e : w.d.ed) if (!e.v[0]) return true; return false; } // edges that were never set are not counted in 2D
static std::string get1(W &w, char what) { // the next entity of a kind
  MMG5_int v[6], ref = -7; int r = 0, g = 0, c = 0, rc; double x[3];
#define NEXT(cur, vec) if (w.d.vec.empty()) return ""; int i = w.d.cur % (int)w.d.vec.size(); w.d.cur = i + 1;
  if (what == 'v') { NEXT(cp, p) rc = BY_(w, MMG3D_Get_vertex(w.m, x, x + 1, x + 2, &ref, &c, &r), MMG2D_Get_vertex(w.m, x, x + 1, &ref, &c, &r), MMGS_Get_vertex(w.m, x, x + 1, x + 2, &ref, &c, &r)); if (rc != 1) return "status|Get_vertex fails"; return cmpv(w, i, x, ref, c, r, "Get_vertex"); }
  if (what == 't') { NEXT(ctr, tr) rc = BY_(w, MMG3D_Get_triangle(w.m, v, v + 1, v + 2, &ref, &r), MMG2D_Get_triangle(w.m, v, v + 1, v + 2, &ref, &r), MMGS_Get_triangle(w.m, v, v + 1, v + 2, &ref, &r)); if (rc != 1) return "status|Get_triangle fails"; return cmpe(w.d.tr[i], i, v, ref, r, -1, "Get_triangle"); }
  if (what == 'e') { if (holes(w)) return ""; NEXT(ced, ed) rc = BY_(w, MMG3D_Get_edge(w.m, v, v + 1, &ref, &g, &r), MMG2D_Get_edge(w.m, v, v + 1, &ref, &g, &r), MMGS_Get_edge(w.m, v, v + 1, &ref, &g, &r)); if (rc != 1) return "status|Get_edge fails"; return cmpe(w.d.ed[i], i, v, ref, r, g, "Get_edge"); }
  if (what == 'k') { NEXT(cte, te) rc = MMG3D_Get_tetrahedron(w.m, v, v + 1, v + 2, v + 3, &ref, &r); if (rc != 1) return "status|Get_tetrahedron fails"; return cmpe(w.d.te[i], i, v, ref, r, -1, "Get_tetrahedron"); }
  if (what == 'q') { NEXT(cqu, qu) rc = w.mod == '3' ? MMG3D_Get_quadrilateral(w.m, v, v + 1, v + 2, v + 3, &ref, &r) : MMG2D_Get_quadrilateral(w.m, v, v + 1, v + 2, v + 3, &ref, &r); if (rc != 1) return "status|Get_quadrilateral fails"; return cmpe(w.d.qu[i], i, v, ref, r, -1, "Get_quadrilateral"); }
  if (what == 'p') { NEXT(cpr, pr) rc = MMG3D_Get_prism(w.m, v, v + 1, v + 2, v + 3, v + 4, v + 5, &ref, &r); if (rc != 1) return "status|Get_prism fails"; return cmpe(w.d.pr[i], i, v, ref, r, -1, "Get_prism"); }
  return "";
}
static std::string getidx(W &w, int i) { if (i >= (int)w.d.p.size()) return ""; double x[3]; MMG5_int ref; int c, r; int rc = BY_(w, MMG3D_GetByIdx_vertex(w.m, x, x + 1, x + 2, &ref, &c, &r, i + 1), MMG2D_GetByIdx_vertex(w.m, x, x + 1, &ref, &c, &r, i + 1), MMGS_GetByIdx_vertex(w.m, x, x + 1, x + 2, &ref, &c, &r, i + 1)); if (rc != 1) return "status|GetByIdx_vertex fails"; return cmpv(w, i, x, ref, c, r, "GetByIdx_vertex"); }
static std::string getall(W &w) {
  if (!w.d.sized) return ""; std::string e; Model &d = w.d; bool ho = holes(w); MMG5_int np, ne = 0, npr = 0, nt, nq = 0, na;
  BY_(w, MMG3D_Get_meshSize(w.m, &np, &ne, &npr, &nt, &nq, &na), MMG2D_Get_meshSize(w.m, &np, &nt, &nq, &na), MMGS_Get_meshSize(w.m, &np, &nt, &na));
  if (np != (int)d.p.size() || ne != (int)d.te.size() || npr != (int)d.pr.size() || nt != (int)d.tr.size() || nq != (int)d.qu.size() || (!ho && na != (int)d.ed.size())) return "size|Get_meshSize does not give back the sizes that were set";
  for (char c : {'v', 't', 'e', 'k', 'q', 'p'}) { if (c == 'e' && ho) continue; int n = c == 'v' ? np : c == 't' ? nt : c == 'e' ? na : c == 'k' ? ne : c == 'q' ? nq : npr; for (int i = 0; i < n; i++) if (!(e = get1(w, c)).empty()) return e; }
  for (int i = 0; i < np; i++) { if (!(e = getidx(w, i)).empty()) return e; if (w.mod != '2' && d.p[i].hasn) { double n[3]; w.mod == '3' ? MMG3D_Get_normalAtVertex(w.m, i + 1, n, n + 1, n + 2) : MMGS_Get_normalAtVertex(w.m, i + 1, n, n + 1, n + 2); for (int k = 0; k < 3; k++) if (n[k] != d.p[i].n[k]) return fmt("normal|normal at vertex %d is not the one that was set", i + 1); } }
  { std::vector<double> x(3 * np + 3); std::vector<MMG5_int> rf(np + 1); std::vector<int> c(np + 1), r(np + 1); if (BY_(w, MMG3D_Get_vertices(w.m, x.data(), rf.data(), c.data(), r.data()), MMG2D_Get_vertices(w.m, x.data(), rf.data(), c.data(), r.data()), MMGS_Get_vertices(w.m, x.data(), rf.data(), c.data(), r.data())) != 1) return "status|Get_vertices fails"; for (int i = 0; i < np; i++) if (!(e = cmpv(w, i, &x[w.dim() * i], rf[i], c[i], r[i], "Get_vertices")).empty()) return e; }
#define ARR(vec, N, call, nm) if (!d.vec.empty() && !(ho && N == 2)) { int n = d.vec.size(); std::vector<MMG5_int> v(N * n + 6), rf(n + 1); std::vector<int> r(n + 1), g(n + 1, -1); if ((call) != 1) return "status|" nm " fails"; for (int i = 0; i < n; i++) if (!(e = cmpe(d.vec[i], i, &v[N * i], rf[i], r[i], g[i], nm)).empty()) return e; }
  ARR(tr, 3, BY_(w, MMG3D_Get_triangles(w.m, v.data(), rf.data(), r.data()), MMG2D_Get_triangles(w.m, v.data(), rf.data(), r.data()), MMGS_Get_triangles(w.m, v.data(), rf.data(), r.data())), "Get_triangles")
  ARR(ed, 2, BY_(w, MMG3D_Get_edges(w.m, v.data(), rf.data(), g.data(), r.data()), MMG2D_Get_edges(w.m, v.data(), rf.data(), g.data(), r.data()), MMGS_Get_edges(w.m, v.data(), rf.data(), g.data(), r.data())), "Get_edges")
  ARR(te, 4, MMG3D_Get_tetrahedra(w.m, v.data(), rf.data(), r.data()), "Get_tetrahedra")
  ARR(pr, 6, MMG3D_Get_prisms(w.m, v.data(), rf.data(), r.data()), "Get_prisms")
  ARR(qu, 4, w.mod == '3' ? MMG3D_Get_quadrilaterals(w.m, v.data(), rf.data(), r.data()) : MMG2D_Get_quadrilaterals(w.m, v.data(), rf.data(), r.data()), "Get_quadrilaterals")
  for (int i = 0; i < d.snp; i++) if (!(e = getsol1(w)).empty()) return e;
  return getsolall(w);
}
// ----------------------------------------------------------------------------------------------- operations
static std::vector<Op> ops(char mod, bool few) {
  std::vector<Op> o; auto A = [&](const char *n, Fn f) { o.push_back({n, f}); };
#define FLAG(nm, f3, f2, fs, vec, fld, idx, val) A(nm, [](W &w) -> std::string { if ((int)w.d.vec.size() <= idx) return ""; int rc = BY_(w, f3(w.m, idx + 1), f2(w.m, idx + 1), fs(w.m, idx + 1)); w.d.vec[idx].fld = val; return rc_is(rc, 1, nm); });
#define FLAG3(nm, f3, vec, fld, idx, val) A(nm, [](W &w) -> std::string { if ((int)w.d.vec.size() <= idx) return ""; int rc = f3(w.m, idx + 1); w.d.vec[idx].fld = val; return rc_is(rc, 1, nm); });
  A("v1=B", [](W &w) { return setv(w, 0, XB, 21); }); A("t1=B", [](W &w) { return sett(w, 0, 1, 31); }); A("e1=B", [](W &w) { return sete(w, 0, 1, 41); });
  FLAG("corner v1", MMG3D_Set_corner, MMG2D_Set_corner, MMGS_Set_corner, p, corner, 0, 1) FLAG("nocorner v1", MMG3D_Unset_corner, MMG2D_Unset_corner, MMGS_Unset_corner, p, corner, 0, 0)
  FLAG("req v1", MMG3D_Set_requiredVertex, MMG2D_Set_requiredVertex, MMGS_Set_requiredVertex, p, req, 0, 1) FLAG("noreq v1", MMG3D_Unset_requiredVertex, MMG2D_Unset_requiredVertex, MMGS_Unset_requiredVertex, p, req, 0, 0)
  FLAG("req t1", MMG3D_Set_requiredTriangle, MMG2D_Set_requiredTriangle, MMGS_Set_requiredTriangle, tr, req, 0, 1) FLAG("noreq t1", MMG3D_Unset_requiredTriangle, MMG2D_Unset_requiredTriangle, MMGS_Unset_requiredTriangle, tr, req, 0, 0)
  FLAG("req e1", MMG3D_Set_requiredEdge, MMG2D_Set_requiredEdge, MMGS_Set_requiredEdge, ed, req, 0, 1) FLAG("noreq e1", MMG3D_Unset_requiredEdge, MMG2D_Unset_requiredEdge, MMGS_Unset_requiredEdge, ed, req, 0, 0)
  if (mod != '2') { A("ridge e1", [](W &w) -> std::string { if (w.d.ed.empty()) return ""; int rc = w.mod == '3' ? MMG3D_Set_ridge(w.m, 1) : MMGS_Set_ridge(w.m, 1); w.d.ed[0].ridge = 1; return rc_is(rc, 1, "Set_ridge"); }); A("noridge e1", [](W &w) -> std::string { if (w.d.ed.empty()) return ""; int rc = w.mod == '3' ? MMG3D_Unset_ridge(w.m, 1) : MMGS_Unset_ridge(w.m, 1); w.d.ed[0].ridge = 0; return rc_is(rc, 1, "Unset_ridge"); }); }
  A("get v", [](W &w) { return get1(w, 'v'); }); A("get t", [](W &w) { return get1(w, 't'); }); A("get e", [](W &w) { return get1(w, 'e'); });
  A("sol scalar", [](W &w) { return solsize(w, MMG5_Scalar); }); 
  A("s2=1", [](W &w) { return sol1(w, 1, 1); }); A("s=2", [](W &w) { return solall(w, 2); }); A("get s", getsol1);
  if (few) return o;
  A("v3=B", [](W &w) { return setv(w, 2, XB, -4); }); A("sol tensor", [](W &w) { return solsize(w, MMG5_Tensor); });
  if (mod != 's') A("get q", [](W &w) { return get1(w, 'q'); });
  if (mod == '3') { A("get k", [](W &w) { return get1(w, 'k'); }); A("get p", [](W &w) { return get1(w, 'p'); }); }
  if (mod != '2') { A("normal v2", [](W &w) -> std::string { if (w.d.p.size() < 2) return ""; int rc = w.mod == '3' ? MMG3D_Set_normalAtVertex(w.m, 2, .6, 0, .8) : MMGS_Set_normalAtVertex(w.m, 2, .6, 0, .8); double n[3] = {.6, 0, .8}; memcpy(w.d.p[1].n, n, sizeof n); w.d.p[1].hasn = true; return rc_is(rc, 1, "Set_normalAtVertex"); }); }
  A("sol vector", [](W &w) { return solsize(w, MMG5_Vector); }); A("s-last=3", [](W &w) { return sol1(w, w.d.snp - 1, 3); }); A("s-over", [](W &w) { return sol1(w, w.d.snp, 4); }); A("s-under", [](W &w) { return sol1(w, -1, 4); });
  A("v-last=B", [](W &w) { return w.d.p.empty() ? "" : setv(w, (int)w.d.p.size() - 1, XB, 22); }); A("t-last=B", [](W &w) { return w.d.tr.empty() ? "" : sett(w, (int)w.d.tr.size() - 1, 1, 32); }); A("e-last=B", [](W &w) { return w.d.ed.empty() ? "" : sete(w, (int)w.d.ed.size() - 1, 1, 42); });
  A("v-over", [](W &w) { int n = (int)w.d.p.size(); if (n > 5) return std::string(); return setv(w, n, XB, 5); });
  A("t-over", [](W &w) { int rc = BY_(w, MMG3D_Set_triangle(w.m, 1, 2, 3, 5, w.d.tr.size() + 1), MMG2D_Set_triangle(w.m, 1, 2, 3, 5, w.d.tr.size() + 1), MMGS_Set_triangle(w.m, 1, 2, 3, 5, w.d.tr.size() + 1)); return rc_is(rc, 0, "Set_triangle beyond the end"); });
  A("e-over", [](W &w) { int rc = BY_(w, MMG3D_Set_edge(w.m, 1, 2, 5, w.d.ed.size() + 1), MMG2D_Set_edge(w.m, 1, 2, 5, w.d.ed.size() + 1), MMGS_Set_edge(w.m, 1, 2, 5, w.d.ed.size() + 1)); return rc_is(rc, 0, "Set_edge beyond the end"); });
  for (char c : {'v', 't', 'e', 'k', 'q', 'p'}) { if ((c == 'k' || c == 'p') && mod != '3') continue; if (c == 'q' && mod == 's') continue; for (int alt = 0; alt < 2; alt++) for (int r = 0; r < 2; r++) { if (alt == 0 && r == 0) continue; A(fmt("all %c=%c%s", c, "AB"[alt], r ? "" : " noref").c_str(), [c, alt, r](W &w) { return w.d.sized ? chunk(w, c, alt, r) : ""; }); } }
  FLAG("corner v-3", MMG3D_Set_corner, MMG2D_Set_corner, MMGS_Set_corner, p, corner, 2, 1) FLAG("req v3", MMG3D_Set_requiredVertex, MMG2D_Set_requiredVertex, MMGS_Set_requiredVertex, p, req, 2, 1) FLAG("req t2", MMG3D_Set_requiredTriangle, MMG2D_Set_requiredTriangle, MMGS_Set_requiredTriangle, tr, req, 1, 1) FLAG("req e3", MMG3D_Set_requiredEdge, MMG2D_Set_requiredEdge, MMGS_Set_requiredEdge, ed, req, 2, 1)
  A("resize", [](W &w) { return w.size(4, 1, 1, 2, 1, 2); }); A("resize0", [](W &w) { return w.size(5, 2, 0, 3, 0, 0); });
  A("get s all", getsolall); A("get v2", [](W &w) { return getidx(w, 1); });
  if (mod != 's') A("q2=B", [](W &w) { return setq(w, 1, 1, 51); });
  if (mod == '3') {
    A("k1=B", [](W &w) { return setk(w, 0, 1, 61); }); A("k2=B", [](W &w) { return setk(w, 1, 1, -62); }); A("p2=B", [](W &w) { return setp(w, 1, 1, 71); });
    A("k-over", [](W &w) { int rc = MMG3D_Set_tetrahedron(w.m, 1, 2, 3, 4, 5, w.d.te.size() + 1); return rc_is(rc, 0, "Set_tetrahedron beyond the end"); });
    FLAG3("req k1", MMG3D_Set_requiredTetrahedron, te, req, 0, 1) FLAG3("req k2", MMG3D_Set_requiredTetrahedron, te, req, 1, 1) FLAG3("noreq k1", MMG3D_Unset_requiredTetrahedron, te, req, 0, 0)
    A("req ks", [](W &w) -> std::string { if (w.d.te.size() < 2) return ""; MMG5_int x[2] = {2, 1}; int rc = MMG3D_Set_requiredTetrahedra(w.m, x, 2); w.d.te[0].req = w.d.te[1].req = 1; return rc_is(rc, 1, "Set_requiredTetrahedra"); }); A("noreq ks", [](W &w) -> std::string { if (w.d.te.size() < 2) return ""; MMG5_int x[1] = {2}; int rc = MMG3D_Unset_requiredTetrahedra(w.m, x, 1); w.d.te[1].req = 0; return rc_is(rc, 1, "Unset_requiredTetrahedra"); });
    A("req ts", [](W &w) -> std::string { if (w.d.tr.size() < 3) return ""; MMG5_int x[2] = {3, 1}; int rc = MMG3D_Set_requiredTriangles(w.m, x, 2); w.d.tr[0].req = w.d.tr[2].req = 1; return rc_is(rc, 1, "Set_requiredTriangles"); }); A("noreq ts", [](W &w) -> std::string { if (w.d.tr.size() < 3) return ""; MMG5_int x[2] = {1, 2}; int rc = MMG3D_Unset_requiredTriangles(w.m, x, 2); w.d.tr[0].req = w.d.tr[1].req = 0; return rc_is(rc, 1, "Unset_requiredTriangles"); });
    A("par t1", [](W &w) -> std::string { if (w.d.tr.empty()) return ""; return rc_is(MMG3D_Set_parallelTriangle(w.m, 1), 1, "Set_parallelTriangle"); }); A("nopar t1", [](W &w) -> std::string { if (w.d.tr.empty()) return ""; return rc_is(MMG3D_Unset_parallelTriangle(w.m, 1), 1, "Unset_parallelTriangle"); });
    A("par ts", [](W &w) -> std::string { if (w.d.tr.size() < 2) return ""; MMG5_int x[2] = {2, 1}; return rc_is(MMG3D_Set_parallelTriangles(w.m, x, 2), 1, "Set_parallelTriangles"); }); A("nopar ts", [](W &w) -> std::string { if (w.d.tr.size() < 2) return ""; MMG5_int x[2] = {2, 1}; return rc_is(MMG3D_Unset_parallelTriangles(w.m, x, 2), 1, "Unset_parallelTriangles"); });
    A("add v", [](W &w) -> std::string { if (!w.d.sized) return ""; MMG5_int k = MMG3D_Add_vertex(w.m, 3, 4, 5, 77); w.d.p.push_back(MV{{3, 4, 5}, 77, 0, 0}); w.d.st = w.d.snp = 0; /* the solution must be sized again */ return k == (int)w.d.p.size() ? "" : fmt("add|Add_vertex returns %d instead of %zu", (int)k, w.d.p.size()); });
    A("add k", [](W &w) -> std::string { if (!w.d.sized || w.d.p.size() < 4) return ""; ME<4> t; t.v = {{1, 2, 3, 4}}; t.ref = 88; t.req = t.ridge = 0; double v = det(w.d, t.v); if (std::fabs(v) < 1e-6) return ""; int k = MMG3D_Add_tetrahedron(w.m, 1, 2, 3, 4, 88); if (v < 0) { std::swap(t.v[2], t.v[3]); if (k != -(int)w.d.te.size() - 1) return fmt("add|Add_tetrahedron returns %d for an element of negative volume", k); } else if (k != (int)w.d.te.size() + 1) return fmt("add|Add_tetrahedron returns %d", k); w.d.te.push_back(t); return ""; });
  }
  return o;
}
static std::string fill(W &w, int how) {
  std::string e; if (how == 2) return ""; int np = np_of(w.mod); if (!(e = w.size(np, 2, 2, 3, 2, 3)).empty()) return e;
  const char *K = w.mod == '3' ? "vkptqe" : w.mod == '2' ? "vtqe" : "vte";
  for (const char *c = K; *c; c++) { if (how == 1) e = chunk(w, *c, 0, true); else { int n = *c == 'v' ? np : *c == 't' || *c == 'e' ? 3 : 2; for (int i = 0; i < n && e.empty(); i++) e = *c == 'v' ? setv(w, i, XA, 1 + i) : *c == 't' ? sett(w, i, 0, 10 + i) : *c == 'e' ? sete(w, i, 0, 20 + i) : *c == 'k' ? setk(w, i, 0, 30 + i) : *c == 'q' ? setq(w, i, 0, 40 + i) : setp(w, i, 0, 50 + i); } if (!e.empty()) return e; }
  return "";
}
static Scenario hist(const char *name, char mod, bool few, int handles, int dq, int dt, bool thorough) {
  Scenario s; s.name = name; s.rule = handles == 1 ? "every sequence of API calls of the given length from every starting state; everything is read back and compared with the model" : "every sequence of API calls of the given length on two handles alive together"; s.bound_quick = dq; s.bound_thorough = dt; s.leaf_timeout = 20; int depth = thorough ? dt : dq;
  s.body = [=](Chooser &ch) -> Exec {
    auto O = std::make_shared<std::vector<Op>>(ops(mod, few)); int start = ch.choose("start", few && !thorough ? (handles == 1 ? 1 : 2) : handles == 1 ? 3 : 2); ch.labels.back() = start == 0 ? "one by one" : start == 1 ? "arrays" : "empty";
    std::vector<std::pair<int, int>> q; for (int k = 0; k < depth; k++) { int hd = handles == 1 ? 0 : ch.choose("handle", handles); int b = ch.choose("op", (int)O->size()); ch.labels.back() = (*O)[b].name; q.push_back({hd, b}); }
    return [=](Rec &r) {
      std::vector<std::unique_ptr<W>> w; for (int h = 0; h < handles; h++) { w.emplace_back(new W(mod)); if (!w[h]->m) { r.fail("api|no handle"); return; } std::string e = fill(*w[h], h ? 1 - start : start); if (!e.empty()) { r.fail("%s", e.c_str()); return; } }
      uint64_t hsh = 7; for (auto &x : q) { hsh = hsh * 31 + x.second * 2 + x.first; std::string e = (*O)[x.second].f(*w[x.first]); if (!e.empty()) { r.fail("%s (after %s)", e.c_str(), (*O)[x.second].name.c_str()); return; } }
      for (auto &x : w) { std::string e = getall(*x); if (!e.empty()) { r.fail("%s", e.c_str()); return; } e = getall(*x); if (!e.empty()) { r.fail("second reading: %s", e.c_str()); return; } }
      r.obs(hsh); r.trans(q.size()); r.nontrivial = true; for (auto &x : w) x->free();
    };
  };
  return s;
}
// several fields at the vertices: every list of types x every way to fill it x every order of reading
static Scenario sols(const char *name, char mod, int lenq, int lent, bool th) {
  Scenario s; s.name = name; s.rule = "every list of field types up to the given length, filled entry by entry or by arrays, in every order, with one entry changed afterwards, read back in both ways"; s.bound_quick = lenq; s.bound_thorough = lent; s.leaf_timeout = 20; int maxn = th ? lent : lenq;
  s.body = [=](Chooser &ch) -> Exec {
    int n = 1 + ch.choose("fields", maxn); std::vector<int> ty; for (int i = 0; i < n; i++) { int t = ch.choose("type", 3); ch.labels.back() = t == 0 ? "scalar" : t == 1 ? "vector" : "tensor"; ty.push_back(t == 0 ? MMG5_Scalar : t == 1 ? MMG5_Vector : MMG5_Tensor); }
    int how = ch.choose("fill", 3); ch.labels.back() = how == 0 ? "entries" : how == 1 ? "arrays" : "entries backwards"; int chg = ch.choose("change", n + 1); int pos = chg ? 1 + ch.choose("entry", 7) : 0; // 6, 7: beyond the end and zero
    int how2 = chg ? ch.choose("change-by", 2) : 0;
    return [=](Rec &r) {
      W w(mod); int np = 5; std::string e = w.size(np, 1, 0, 1, 0, 0); if (e.empty()) e = chunk(w, 'v', 0, true); if (!e.empty()) { r.fail("%s", e.c_str()); return; }
      MMG5_pSol S = NULL; std::vector<int> T = ty; if (BY_(w, MMG3D_Set_solsAtVerticesSize(w.m, &S, n, np, T.data()), MMG2D_Set_solsAtVerticesSize(w.m, &S, n, np, T.data()), MMGS_Set_solsAtVerticesSize(w.m, &S, n, np, T.data())) != 1) { r.fail("sols|the fields cannot be sized"); return; }
      auto nc = [&](int i) { return ty[i] == MMG5_Scalar ? 1 : ty[i] == MMG5_Vector ? w.dim() : w.dim() == 2 ? 3 : 6; };
      std::vector<std::vector<double>> ref(n); for (int i = 0; i < n; i++) for (int k = 0; k < np; k++) for (int c = 0; c < nc(i); c++) ref[i].push_back(sval(i, k, c));
#define SETI(i, v, p) BY_(w, MMG3D_Set_ithSol_inSolsAtVertices(S, i, v, p), MMG2D_Set_ithSol_inSolsAtVertices(S, i, v, p), MMGS_Set_ithSol_inSolsAtVertices(S, i, v, p))
#define SETA(i, v) BY_(w, MMG3D_Set_ithSols_inSolsAtVertices(S, i, v), MMG2D_Set_ithSols_inSolsAtVertices(S, i, v), MMGS_Set_ithSols_inSolsAtVertices(S, i, v))
      for (int q = 0; q < n; q++) { int i = how == 2 ? n - 1 - q : q; if (how == 1) { if (SETA(i + 1, ref[i].data()) != 1) { r.fail("sols|field %d cannot be set", i + 1); return; } } else for (int k = 0; k < np; k++) { int kk = how == 2 ? np - 1 - k : k; if (SETI(i + 1, &ref[i][kk * nc(i)], kk + 1) != 1) { r.fail("sols|entry %d of field %d cannot be set", kk + 1, i + 1); return; } } }
      if (chg) { int i = chg - 1; if (how2 == 0) { int p = pos == 7 ? 0 : pos; bool ok = p >= 1 && p <= np; double v[6] = {-1, -2, -3, -4, -5, -6}; int rc = SETI(i + 1, v, p); if (rc != ok && !(p == 0 && mod == '2')) { r.fail("sols|setting entry %d of %d returns %d", p, np, rc); return; } if (ok) for (int c = 0; c < nc(i); c++) ref[i][(p - 1) * nc(i) + c] = v[c]; }
        else { for (auto &x : ref[i]) x = 100 - x; if (SETA(i + 1, ref[i].data()) != 1) { r.fail("sols|field %d cannot be set again", i + 1); return; } } }
      int gn = -1, gt[16]; MMG5_int gp = -1; int rc = BY_(w, MMG3D_Get_solsAtVerticesSize(w.m, &S, &gn, &gp, gt), MMG2D_Get_solsAtVerticesSize(w.m, &S, &gn, &gp, gt), MMGS_Get_solsAtVerticesSize(w.m, &S, &gn, &gp, gt)); if (rc != 1 || gn != n || gp != np) { r.fail("sols|sizes read back are %d %d instead of %d %d", gn, (int)gp, n, np); return; } for (int i = 0; i < n; i++) if (gt[i] != ty[i]) { r.fail("sols|type of field %d is %d instead of %d", i + 1, gt[i], ty[i]); return; }
      for (int pass = 0; pass < 2; pass++) for (int i = n; i >= 1; i--) {
        for (int k : {3, 5, 1, 4, 2}) { double v[6]; rc = BY_(w, MMG3D_Get_ithSol_inSolsAtVertices(S, i, v, k), MMG2D_Get_ithSol_inSolsAtVertices(S, i, v, k), MMGS_Get_ithSol_inSolsAtVertices(S, i, v, k)); if (rc != 1) { r.fail("sols|entry %d of field %d cannot be read", k, i); return; } for (int c = 0; c < nc(i - 1); c++) if (v[c] != ref[i - 1][(k - 1) * nc(i - 1) + c]) { r.fail("sols|component %d of entry %d of field %d is %g instead of %g", c, k, i, v[c], ref[i - 1][(k - 1) * nc(i - 1) + c]); return; } }
        std::vector<double> v(np * 6 + 6, -99.); rc = BY_(w, MMG3D_Get_ithSols_inSolsAtVertices(S, i, v.data()), MMG2D_Get_ithSols_inSolsAtVertices(S, i, v.data()), MMGS_Get_ithSols_inSolsAtVertices(S, i, v.data())); if (rc != 1) { r.fail("sols|field %d cannot be read", i); return; } for (size_t q = 0; q < ref[i - 1].size(); q++) if (v[q] != ref[i - 1][q]) { r.fail("sols|value %zu of field %d is %g instead of %g", q, i, v[q], ref[i - 1][q]); return; } if (v[ref[i - 1].size()] != -99.) { r.fail("sols|more values than announced are read for field %d", i); return; }
      }
      e = getall(w); if (!e.empty()) { r.fail("%s", e.c_str()); return; } r.trans(n * np); r.nontrivial = true; BY_(w, MMG3D_Free_allSols(w.m, &S), MMG2D_Free_allSols(w.m, &S), MMGS_Free_allSols(w.m, &S)); w.free();
    };
  };
  return s;
}
static std::vector<Scenario> C13(bool th) {
  return {hist("history-3", '3', false, 1, 2, 3, th), hist("history-2", '2', false, 1, 2, 3, th), hist("history-s", 's', false, 1, 2, 3, th), hist("deep-3", '3', true, 1, 3, 4, th), hist("deep-2", '2', true, 1, 3, 4, th), hist("deep-s", 's', true, 1, 3, 4, th),
          sols("fields-3", '3', 3, 4, th), sols("fields-2", '2', 3, 4, th), sols("fields-s", 's', 3, 4, th),
          hist("handles-3", '3', true, 2, 2, 3, th), hist("handles-2", '2', true, 2, 2, 3, th), hist("handles-s", 's', true, 2, 2, 3, th)};
}
int main(int argc, char **argv) { return driver(argc, argv, {{"C13", C13}}); }
