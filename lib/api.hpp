// One handle class over the three public APIs (mod = '3', '2', 's').
#pragma once
#include "pmesh.hpp"
extern "C" {
#include "mmg/mmg3d/libmmg3d.h"
#include "mmg/mmg2d/libmmg2d.h"
#include "mmg/mmgs/libmmgs.h"
}

enum P { P_verbose, P_mem, P_debug, P_angle, P_iso, P_isosurf, P_opnbdy, P_lag, P_optim, P_noinsert, P_noswap, P_nomove, P_nosurf, P_nreg, P_xreg, P_nsd, P_nlocal, P_nbr, P_nmat,
         P_anisosize, P_nosizreq, P_nofem, P_isoref, P_keepref, P_optimles, P_renum, P_octree, P_3dmedit,
         P_dangle, P_hmin, P_hmax, P_hsiz, P_hausd, P_hgrad, P_hgradreq, P_ls, P_dxreg, P_rmc, P_N };

inline int pid(char mod, P p) {
#define A(x, y3, y2, ys) case x: return mod == '3' ? y3 : mod == '2' ? y2 : ys;
#define B(x, s) A(x, MMG3D_##s, MMG2D_##s, MMGS_##s)
  switch (p) {
    B(P_verbose, IPARAM_verbose) B(P_mem, IPARAM_mem) B(P_debug, IPARAM_debug) B(P_angle, IPARAM_angle) B(P_iso, IPARAM_iso) B(P_isosurf, IPARAM_isosurf)
    A(P_opnbdy, MMG3D_IPARAM_opnbdy, MMG2D_IPARAM_opnbdy, -1) A(P_lag, MMG3D_IPARAM_lag, MMG2D_IPARAM_lag, -1) B(P_optim, IPARAM_optim) B(P_noinsert, IPARAM_noinsert) B(P_noswap, IPARAM_noswap) B(P_nomove, IPARAM_nomove)
    A(P_nosurf, MMG3D_IPARAM_nosurf, MMG2D_IPARAM_nosurf, -1) B(P_nreg, IPARAM_nreg) B(P_xreg, IPARAM_xreg) B(P_nsd, IPARAM_numsubdomain) B(P_nlocal, IPARAM_numberOfLocalParam) B(P_nbr, IPARAM_numberOfLSBaseReferences) B(P_nmat, IPARAM_numberOfMat)
    B(P_anisosize, IPARAM_anisosize) B(P_nosizreq, IPARAM_nosizreq) A(P_nofem, MMG3D_IPARAM_nofem, MMG2D_IPARAM_nofem, -1) B(P_isoref, IPARAM_isoref) A(P_keepref, -1, -1, MMGS_IPARAM_keepRef) A(P_optimles, MMG3D_IPARAM_optimLES, -1, -1)
    A(P_renum, MMG3D_IPARAM_renum, -1, MMGS_IPARAM_renum) A(P_octree, MMG3D_IPARAM_octree, -1, -1) A(P_3dmedit, -1, MMG2D_IPARAM_3dMedit, -1)
    B(P_dangle, DPARAM_angleDetection) B(P_hmin, DPARAM_hmin) B(P_hmax, DPARAM_hmax) B(P_hsiz, DPARAM_hsiz) B(P_hausd, DPARAM_hausd) B(P_hgrad, DPARAM_hgrad) B(P_hgradreq, DPARAM_hgradreq) B(P_ls, DPARAM_ls) B(P_dxreg, DPARAM_xreg) B(P_rmc, DPARAM_rmc)
    default: return -1;
  }
#undef A
#undef B
}
inline bool is_d(P p) { return p >= P_dangle; }
#define BY(f3, f2, fs) (mod == '3' ? (f3) : mod == '2' ? (f2) : (fs))
#define BY_(w, f3, f2, fs) ((w).mod == '3' ? (f3) : (w).mod == '2' ? (f2) : (fs))

struct Sols { // values of a field at the vertices, API order of components
  int type = MMG5_Scalar; std::vector<double> v; // v.size() = np * ncomp
  int nc(int dim) const { return type == MMG5_Scalar ? 1 : type == MMG5_Vector ? dim : dim == 2 ? 3 : 6; }
};

struct H {
  char mod; MMG5_pMesh m = 0; MMG5_pSol met = 0, ls = 0, disp = 0;
  explicit H(char mod_, int mem = 64, bool verbose = false) : mod(mod_) {
    if (mod == '3') MMG3D_Init_mesh(MMG5_ARG_start, MMG5_ARG_ppMesh, &m, MMG5_ARG_ppMet, &met, MMG5_ARG_ppLs, &ls, MMG5_ARG_end);
    else if (mod == '2') MMG2D_Init_mesh(MMG5_ARG_start, MMG5_ARG_ppMesh, &m, MMG5_ARG_ppMet, &met, MMG5_ARG_ppLs, &ls, MMG5_ARG_end);
    else MMGS_Init_mesh(MMG5_ARG_start, MMG5_ARG_ppMesh, &m, MMG5_ARG_ppMet, &met, MMG5_ARG_ppLs, &ls, MMG5_ARG_end);
    if (m) { set(P_verbose, verbose ? 5 : -1); if (mem > 0) set(P_mem, mem); }
  }
  void free() {
    if (mod == '3') MMG3D_Free_all(MMG5_ARG_start, MMG5_ARG_ppMesh, &m, MMG5_ARG_ppMet, &met, MMG5_ARG_ppLs, &ls, MMG5_ARG_end);
    else if (mod == '2') MMG2D_Free_all(MMG5_ARG_start, MMG5_ARG_ppMesh, &m, MMG5_ARG_ppMet, &met, MMG5_ARG_ppLs, &ls, MMG5_ARG_end);
    else MMGS_Free_all(MMG5_ARG_start, MMG5_ARG_ppMesh, &m, MMG5_ARG_ppMet, &met, MMG5_ARG_ppLs, &ls, MMG5_ARG_end);
    m = 0;
  }
  int dim() const { return mod == '2' ? 2 : 3; }
  int set(P p, double v) {
    int id = pid(mod, p); if (id < 0) return -1;
    if (is_d(p)) return BY(MMG3D_Set_dparameter(m, met, id, v), MMG2D_Set_dparameter(m, met, id, v), MMGS_Set_dparameter(m, met, id, v));
    return BY(MMG3D_Set_iparameter(m, met, id, (MMG5_int)v), MMG2D_Set_iparameter(m, met, id, (MMG5_int)v), MMGS_Set_iparameter(m, met, id, (MMG5_int)v));
  }
  int local(int typ, int ref, double a, double b, double c) { return BY(MMG3D_Set_localParameter(m, met, typ, ref, a, b, c), MMG2D_Set_localParameter(m, met, typ, ref, a, b, c), MMGS_Set_localParameter(m, met, typ, ref, a, b, c)); }
  int multimat(int ref, int split, int rin, int rex) { return BY(MMG3D_Set_multiMat(m, met, ref, split, rin, rex), MMG2D_Set_multiMat(m, met, ref, split, rin, rex), MMGS_Set_multiMat(m, met, ref, split, rin, rex)); }
  int lsbase(int br) { return BY(MMG3D_Set_lsBaseReference(m, met, br), MMG2D_Set_lsBaseReference(m, met, br), MMGS_Set_lsBaseReference(m, met, br)); }

  bool put(const PM &a) { // entity by entity
    int np = a.np(), nt = (int)a.tr.size(), na = (int)a.ed.size(), ne = (int)a.te.size(), nq = (int)a.qu.size(), npr = (int)a.pr.size();
    if (BY(MMG3D_Set_meshSize(m, np, ne, npr, nt, nq, na), MMG2D_Set_meshSize(m, np, nt, nq, na), MMGS_Set_meshSize(m, np, nt, na)) != 1) return false;
    bool ok = true;
    for (int i = 1; i <= np; i++) {
      const Vtx &v = a.p[i];
      ok &= BY(MMG3D_Set_vertex(m, v.x[0], v.x[1], v.x[2], v.ref, i), MMG2D_Set_vertex(m, v.x[0], v.x[1], v.ref, i), MMGS_Set_vertex(m, v.x[0], v.x[1], v.x[2], v.ref, i)) == 1;
      if (v.corner) ok &= BY(MMG3D_Set_corner(m, i), MMG2D_Set_corner(m, i), MMGS_Set_corner(m, i)) == 1;
      if (v.req) ok &= BY(MMG3D_Set_requiredVertex(m, i), MMG2D_Set_requiredVertex(m, i), MMGS_Set_requiredVertex(m, i)) == 1;
    }
    for (int i = 0; i < ne; i++) { auto &t = a.te[i]; ok &= MMG3D_Set_tetrahedron(m, t.v[0], t.v[1], t.v[2], t.v[3], t.ref, i + 1) == 1; if (t.req) ok &= MMG3D_Set_requiredTetrahedron(m, i + 1) == 1; }
    for (int i = 0; i < npr; i++) { auto &t = a.pr[i]; ok &= MMG3D_Set_prism(m, t.v[0], t.v[1], t.v[2], t.v[3], t.v[4], t.v[5], t.ref, i + 1) == 1; }
    for (int i = 0; i < nt; i++) {
      auto &t = a.tr[i];
      ok &= BY(MMG3D_Set_triangle(m, t.v[0], t.v[1], t.v[2], t.ref, i + 1), MMG2D_Set_triangle(m, t.v[0], t.v[1], t.v[2], t.ref, i + 1), MMGS_Set_triangle(m, t.v[0], t.v[1], t.v[2], t.ref, i + 1)) == 1;
      if (t.req) ok &= BY(MMG3D_Set_requiredTriangle(m, i + 1), MMG2D_Set_requiredTriangle(m, i + 1), MMGS_Set_requiredTriangle(m, i + 1)) == 1;
    }
    for (int i = 0; i < nq; i++) { auto &t = a.qu[i]; ok &= (mod == '3' ? MMG3D_Set_quadrilateral(m, t.v[0], t.v[1], t.v[2], t.v[3], t.ref, i + 1) : MMG2D_Set_quadrilateral(m, t.v[0], t.v[1], t.v[2], t.v[3], t.ref, i + 1)) == 1; }
    for (int i = 0; i < na; i++) {
      auto &t = a.ed[i];
      ok &= BY(MMG3D_Set_edge(m, t.v[0], t.v[1], t.ref, i + 1), MMG2D_Set_edge(m, t.v[0], t.v[1], t.ref, i + 1), MMGS_Set_edge(m, t.v[0], t.v[1], t.ref, i + 1)) == 1;
      if (t.req) ok &= BY(MMG3D_Set_requiredEdge(m, i + 1), MMG2D_Set_requiredEdge(m, i + 1), MMGS_Set_requiredEdge(m, i + 1)) == 1;
      if (t.ridge && mod != '2') ok &= (mod == '3' ? MMG3D_Set_ridge(m, i + 1) : MMGS_Set_ridge(m, i + 1)) == 1;
    }
    return ok;
  }
  bool get(PM &a) {
    a = PM(dim()); MMG5_int np = 0, ne = 0, npr = 0, nt = 0, nq = 0, na = 0; bool ok = true;
    ok &= BY(MMG3D_Get_meshSize(m, &np, &ne, &npr, &nt, &nq, &na), MMG2D_Get_meshSize(m, &np, &nt, &nq, &na), MMGS_Get_meshSize(m, &np, &nt, &na)) == 1;
    for (int i = 1; i <= np; i++) {
      Vtx v; int c = 0, r = 0; MMG5_int ref = 0;
      ok &= BY(MMG3D_Get_vertex(m, &v.x[0], &v.x[1], &v.x[2], &ref, &c, &r), MMG2D_Get_vertex(m, &v.x[0], &v.x[1], &ref, &c, &r), MMGS_Get_vertex(m, &v.x[0], &v.x[1], &v.x[2], &ref, &c, &r)) == 1;
      v.ref = ref; v.corner = c; v.req = r; a.p.push_back(v);
    }
    for (int i = 0; i < ne; i++) { Tet t; MMG5_int v[4], ref = 0; int r = 0; ok &= MMG3D_Get_tetrahedron(m, v, v + 1, v + 2, v + 3, &ref, &r) == 1; for (int j = 0; j < 4; j++) t.v[j] = v[j]; t.ref = ref; t.req = r; a.te.push_back(t); }
    for (int i = 0; i < npr; i++) { Pri t; MMG5_int v[6], ref = 0; int r = 0; ok &= MMG3D_Get_prism(m, v, v + 1, v + 2, v + 3, v + 4, v + 5, &ref, &r) == 1; for (int j = 0; j < 6; j++) t.v[j] = v[j]; t.ref = ref; t.req = r; a.pr.push_back(t); }
    for (int i = 0; i < nt; i++) {
      Tri t; MMG5_int v[3], ref = 0; int r = 0;
      ok &= BY(MMG3D_Get_triangle(m, v, v + 1, v + 2, &ref, &r), MMG2D_Get_triangle(m, v, v + 1, v + 2, &ref, &r), MMGS_Get_triangle(m, v, v + 1, v + 2, &ref, &r)) == 1;
      for (int j = 0; j < 3; j++) t.v[j] = v[j]; t.ref = ref; t.req = r; a.tr.push_back(t);
    }
    for (int i = 0; i < nq; i++) {
      Qua t; MMG5_int v[4], ref = 0; int r = 0;
      ok &= (mod == '3' ? MMG3D_Get_quadrilateral(m, v, v + 1, v + 2, v + 3, &ref, &r) : MMG2D_Get_quadrilateral(m, v, v + 1, v + 2, v + 3, &ref, &r)) == 1;
      for (int j = 0; j < 4; j++) t.v[j] = v[j]; t.ref = ref; t.req = r; a.qu.push_back(t);
    }
    for (int i = 0; i < na; i++) {
      Edg t; MMG5_int v[2], ref = 0; int r = 0, g = 0;
      ok &= BY(MMG3D_Get_edge(m, v, v + 1, &ref, &g, &r), MMG2D_Get_edge(m, v, v + 1, &ref, &g, &r), MMGS_Get_edge(m, v, v + 1, &ref, &g, &r)) == 1;
      t.v[0] = v[0]; t.v[1] = v[1]; t.ref = ref; t.req = r; t.ridge = g; a.ed.push_back(t);
    }
    return ok;
  }
  int setsol(MMG5_pSol s, const Sols &f) {
    MMG5_int np = (MMG5_int)(f.v.size() / f.nc(dim()));
    if (BY(MMG3D_Set_solSize(m, s, MMG5_Vertex, np, f.type), MMG2D_Set_solSize(m, s, MMG5_Vertex, np, f.type), MMGS_Set_solSize(m, s, MMG5_Vertex, np, f.type)) != 1) return 0;
    bool ok = true; const double *v = f.v.data();
    for (MMG5_int i = 1; i <= np; i++, v += f.nc(dim())) {
      if (f.type == MMG5_Scalar) ok &= BY(MMG3D_Set_scalarSol(s, v[0], i), MMG2D_Set_scalarSol(s, v[0], i), MMGS_Set_scalarSol(s, v[0], i)) == 1;
      else if (f.type == MMG5_Vector) ok &= BY(MMG3D_Set_vectorSol(s, v[0], v[1], v[2], i), MMG2D_Set_vectorSol(s, v[0], v[1], i), MMGS_Set_vectorSol(s, v[0], v[1], v[2], i)) == 1;
      else ok &= BY(MMG3D_Set_tensorSol(s, v[0], v[1], v[2], v[3], v[4], v[5], i), MMG2D_Set_tensorSol(s, v[0], v[1], v[2], i), MMGS_Set_tensorSol(s, v[0], v[1], v[2], v[3], v[4], v[5], i)) == 1;
    }
    return ok;
  }
  bool getsol(MMG5_pSol s, Sols &f) {
    int te = 0, ty = 0; MMG5_int np = 0; f = Sols();
    if (BY(MMG3D_Get_solSize(m, s, &te, &np, &ty), MMG2D_Get_solSize(m, s, &te, &np, &ty), MMGS_Get_solSize(m, s, &te, &np, &ty)) != 1) return false;
    f.type = ty; if (ty < MMG5_Scalar || ty > MMG5_Tensor) return np == 0; bool ok = true; int n = f.nc(dim()); f.v.resize((size_t)np * n); double *v = f.v.data();
    for (MMG5_int i = 1; i <= np; i++, v += n) {
      if (ty == MMG5_Scalar) ok &= BY(MMG3D_Get_scalarSol(s, v), MMG2D_Get_scalarSol(s, v), MMGS_Get_scalarSol(s, v)) == 1;
      else if (ty == MMG5_Vector) ok &= BY(MMG3D_Get_vectorSol(s, v, v + 1, v + 2), MMG2D_Get_vectorSol(s, v, v + 1), MMGS_Get_vectorSol(s, v, v + 1, v + 2)) == 1;
      else ok &= BY(MMG3D_Get_tensorSol(s, v, v + 1, v + 2, v + 3, v + 4, v + 5), MMG2D_Get_tensorSol(s, v, v + 1, v + 2), MMGS_Get_tensorSol(s, v, v + 1, v + 2, v + 3, v + 4, v + 5)) == 1;
    }
    return ok;
  }
  int check() { return BY(MMG3D_Chk_meshData(m, met), MMG2D_Chk_meshData(m, met), MMGS_Chk_meshData(m, met)); }
  int remesh() { return BY(MMG3D_mmg3dlib(m, met), MMG2D_mmg2dlib(m, met), MMGS_mmgslib(m, met)); }
  int meshgen() { return MMG2D_mmg2dmesh(m, met); }
  int lsdisc(bool withmet = false) { MMG5_pSol x = withmet ? met : 0; return BY(MMG3D_mmg3dls(m, ls, x), MMG2D_mmg2dls(m, ls, x), MMGS_mmgsls(m, ls, x)); }
  int loadMesh(const char *f) { return BY(MMG3D_loadMesh(m, f), MMG2D_loadMesh(m, f), MMGS_loadMesh(m, f)); }
  int saveMesh(const char *f) { return BY(MMG3D_saveMesh(m, f), MMG2D_saveMesh(m, f), MMGS_saveMesh(m, f)); }
  int loadSol(MMG5_pSol s, const char *f) { return BY(MMG3D_loadSol(m, s, f), MMG2D_loadSol(m, s, f), MMGS_loadSol(m, s, f)); }
  int saveSol(MMG5_pSol s, const char *f) { return BY(MMG3D_saveSol(m, s, f), MMG2D_saveSol(m, s, f), MMGS_saveSol(m, s, f)); }
  int loadGeneric(const char *f, bool withls = true) { return BY(MMG3D_loadGenericMesh(m, met, withls ? ls : 0, f), MMG2D_loadGenericMesh(m, met, withls ? ls : 0, f), MMGS_loadGenericMesh(m, met, withls ? ls : 0, f)); }
  int saveGeneric(const char *f, MMG5_pSol s) { return BY(MMG3D_saveGenericMesh(m, s, f), MMG2D_saveGenericMesh(m, s, f), MMGS_saveGenericMesh(m, s, f)); }
};

inline Sols iso_field(const PM &m, std::function<double(const V3 &)> h) { Sols s; for (int i = 1; i <= m.np(); i++) s.v.push_back(h(m.X(i))); return s; }
inline Sols aniso_field(const PM &m, std::function<std::array<double, 6>(const V3 &)> h) { // 3D: m11 m12 m13 m22 m23 m33 ; 2D uses m11 m12 m22
  Sols s; s.type = MMG5_Tensor;
  for (int i = 1; i <= m.np(); i++) { auto a = h(m.X(i)); if (m.dim == 3) s.v.insert(s.v.end(), a.begin(), a.end()); else { s.v.push_back(a[0]); s.v.push_back(a[1]); s.v.push_back(a[3]); } }
  return s;
}
inline std::array<double, 6> diag(double hx, double hy, double hz) { return {{1 / (hx * hx), 0, 0, 1 / (hy * hy), 0, 1 / (hz * hz)}}; }
// rotated: sizes h1 along (c,s,0), h2 along (-s,c,0), h3 along z
inline std::array<double, 6> rot(double th, double h1, double h2, double h3) {
  double c = std::cos(th), s = std::sin(th), a = 1 / (h1 * h1), b = 1 / (h2 * h2);
  return {{a * c * c + b * s * s, (a - b) * c * s, 0, a * s * s + b * c * c, 0, 1 / (h3 * h3)}};
}
