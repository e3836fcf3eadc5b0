// VTK files (C24): own ASCII legacy / XML files are loaded, saved ones are parsed (legacy) and loaded again.
#include "ioc.hpp"
static const int VT[5] = {3, 5, 9, 10, 13};
struct Cells { std::vector<std::vector<int>> v; std::vector<int> ty, ref; };
static Cells cells(const PM &m, bool poly) {
  Cells c; auto add = [&](auto &o, int ty, int n) { for (auto &t : o) { std::vector<int> w; for (int i = 0; i < n; i++) w.push_back(t.v[i] - 1); c.v.push_back(w); c.ty.push_back(ty); c.ref.push_back(t.ref); } };
  add(m.ed, 3, 2); add(m.tr, 5, 3); add(m.qu, 9, 4); if (!poly) { add(m.te, 10, 4); add(m.pr, 13, 6); } return c;
}
struct VStyle { int fmt = 0; bool noref = false, mixed = false, verts = false; }; // 0 legacy, 1 vtu, 2 vtp
static void vtk_write(const std::string &fn, const PM &m, const std::vector<Field> &F, const VStyle &s) {
  Cells c = cells(m, s.fmt == 2); std::string o; auto comp = [&](const Sols &f) { return f.type == MMG5_Scalar ? 1 : f.type == MMG5_Vector ? m.dim : m.dim * m.dim; };
  auto tuple = [&](const Sols &f, int i) { int n = f.nc(m.dim); const double *v = &f.v[(i - 1) * n]; std::vector<double> w; if (f.type != MMG5_Tensor) w.assign(v, v + n); else if (m.dim == 2) w = {v[0], v[1], v[1], v[2]}; else w = {v[0], v[1], v[2], v[1], v[3], v[4], v[2], v[4], v[5]}; return w; };
  if (s.verts) for (int i = m.np(); i >= 1; i -= 2) { c.v.push_back({i - 1}); c.ty.push_back(1); c.ref.push_back(m.p[i].ref); }
  if (s.mixed) { Cells d; std::vector<size_t> q; for (size_t i = 0; i < c.v.size(); i++) q.push_back(i); std::stable_sort(q.begin(), q.end(), [&](size_t a, size_t b) { return a % 2 < b % 2; }); std::map<int, std::vector<size_t>> by; for (size_t i = 0; i < c.v.size(); i++) by[c.ty[i]].push_back(i); bool any = true; for (size_t k = 0; any; k++) { any = false; for (auto &z : by) if (k < z.second.size()) { size_t i = z.second[k]; d.v.push_back(c.v[i]); d.ty.push_back(c.ty[i]); d.ref.push_back(c.ref[i]); any = true; } } c = d; }
  size_t nc = c.v.size(), tot = 0; for (auto &w : c.v) tot += w.size();
  if (s.fmt == 0) {
    o += fmt("# vtk DataFile Version 3.0\ntitle\nASCII\nDATASET UNSTRUCTURED_GRID\nPOINTS %d double\n", m.np()); for (int i = 1; i <= m.np(); i++) o += fmt("%.17g %.17g %.17g\n", m.X(i)[0], m.X(i)[1], m.dim == 3 ? m.X(i)[2] : 0.);
    o += fmt("CELLS %zu %zu\n", nc, tot + nc); for (auto &w : c.v) { o += fmt("%zu", w.size()); for (int x : w) o += fmt(" %d", x); o += "\n"; } o += fmt("CELL_TYPES %zu\n", nc); for (int t : c.ty) o += fmt("%d\n", t);
    if (!s.noref) { o += fmt("CELL_DATA %zu\nFIELD FieldData 1\nmedit:ref 1 %zu int\n", nc, nc); for (int t : c.ref) o += fmt("%d\n", t); }
    if (!s.noref || !F.empty()) { o += fmt("POINT_DATA %d\nFIELD FieldData %d\n", m.np(), (int)F.size() + !s.noref); if (!s.noref) { o += fmt("medit:ref 1 %d int\n", m.np()); for (int i = 1; i <= m.np(); i++) o += fmt("%d\n", m.p[i].ref); } for (auto &f : F) { o += fmt("%s %d %d double\n", f.name.c_str(), comp(f.f), m.np()); for (int i = 1; i <= m.np(); i++) { for (double x : tuple(f.f, i)) o += fmt("%.17g ", x); o += "\n"; } } }
  } else {
    bool pd = s.fmt == 2; const char *T = pd ? "PolyData" : "UnstructuredGrid"; o += fmt("<?xml version=\"1.0\"?>\n<VTKFile type=\"%s\" version=\"0.1\" byte_order=\"LittleEndian\">\n<%s>\n", T, T);
    size_t nl = m.ed.size(), npo = nc - nl; if (pd) o += fmt("<Piece NumberOfPoints=\"%d\" NumberOfVerts=\"0\" NumberOfLines=\"%zu\" NumberOfStrips=\"0\" NumberOfPolys=\"%zu\">\n", m.np(), nl, npo); else o += fmt("<Piece NumberOfPoints=\"%d\" NumberOfCells=\"%zu\">\n", m.np(), nc);
    auto A = [&](const char *ty, const std::string &n, int k, const std::string &d) { o += fmt("<DataArray type=\"%s\" Name=\"%s\" NumberOfComponents=\"%d\" format=\"ascii\">\n", ty, n.c_str(), k) + d + "\n</DataArray>\n"; }; std::string d;
    o += "<PointData>\n"; if (!s.noref) { d = ""; for (int i = 1; i <= m.np(); i++) d += fmt("%d ", m.p[i].ref); A("Int32", "medit:ref", 1, d); } for (auto &f : F) { d = ""; for (int i = 1; i <= m.np(); i++) for (double x : tuple(f.f, i)) d += fmt("%.17g ", x); A("Float64", f.name, comp(f.f), d); } o += "</PointData>\n";
    o += "<CellData>\n"; if (!s.noref) { d = ""; for (int t : c.ref) d += fmt("%d ", t); A("Int32", "medit:ref", 1, d); } o += "</CellData>\n";
    d = ""; for (int i = 1; i <= m.np(); i++) d += fmt("%.17g %.17g %.17g\n", m.X(i)[0], m.X(i)[1], m.dim == 3 ? m.X(i)[2] : 0.); o += "<Points>\n"; A("Float64", "Points", 3, d); o += "</Points>\n";
    auto conn = [&](size_t a, size_t b) { std::string x, y; size_t k = 0; for (size_t i = a; i < b; i++) { for (int v : c.v[i]) x += fmt("%d ", v); k += c.v[i].size(); y += fmt("%zu ", k); } A("Int64", "connectivity", 1, x); A("Int64", "offsets", 1, y); };
    if (pd) { o += "<Lines>\n"; conn(0, nl); o += "</Lines>\n<Polys>\n"; conn(nl, nc); o += "</Polys>\n"; } else { o += "<Cells>\n"; conn(0, nc); d = ""; for (int t : c.ty) d += fmt("%d ", t); A("UInt8", "types", 1, d); o += "</Cells>\n"; }
    o += fmt("</Piece>\n</%s>\n</VTKFile>\n", T);
  }
  spit(fn, o);
}
// legacy ASCII, version 3 or 5
static std::string vtk_read(const std::string &fn, PM &m, std::vector<Field> &F) {
  Bytes b; if (!slurp(fn, b)) return "the file is not there"; std::istringstream in(std::string(b.begin(), b.end())); std::string l, w; int dim = m.dim; m = PM(dim); F.clear(); std::getline(in, l); if (l.find("# vtk DataFile Version") != 0) return "no header"; std::getline(in, l); std::getline(in, l); if (l.find("ASCII") != 0) return "not ASCII";
  std::vector<long> off, con; std::vector<int> ty, cr, pr; int np = 0; size_t nc = 0; bool pt = false, cd = false;
  while (in >> w) {
    if (w == "DATASET") { in >> w; if (w != "UNSTRUCTURED_GRID") return "dataset " + w; }
    else if (w == "POINTS") { in >> np >> w; for (int i = 0; i < np; i++) { double x[3]; for (double &q : x) if (!(in >> w)) return "points"; else q = strtod(w.c_str(), 0); m.addv({{x[0], x[1], x[2]}}); } }
    else if (w == "CELLS") { size_t a, q; in >> a >> q; in >> w; if (w != "OFFSETS") return "old cells"; in >> w; off.resize(a); for (auto &x : off) in >> x; in >> w >> w; con.resize(q); for (auto &x : con) in >> x; if (!in || a < 1 || off.back() != (long)q) return "cells"; nc = a - 1; }
    else if (w == "CELL_TYPES") { size_t a; in >> a; if (a != nc) return "cell types"; ty.resize(a); for (auto &x : ty) in >> x; }
    else if (w == "CELL_DATA") { size_t a; in >> a; if (a != nc) return "cell data"; cd = true; pt = false; } else if (w == "POINT_DATA") { int a; in >> a; if (a != np) return "point data"; pt = true; cd = false; }
    else if (w == "FIELD") { int n; in >> w >> n; for (int i = 0; i < n; i++) { std::string nm, t; int k, c; in >> nm >> k >> c >> t; std::vector<double> v((size_t)k * c); for (double &x : v) { if (!(in >> w)) return "field"; x = strtod(w.c_str(), 0); } std::string mt; std::streampos ps = in.tellg(); if (in >> mt && mt == "METADATA") { std::getline(in, l); while (std::getline(in, l) && !l.empty()) {} } else { in.clear(); in.seekg(ps); }
        if (nm.find("medit") == 0) { if (k != 1) return "reference with several components"; for (double x : v) (cd ? cr : pr).push_back((int)x); } else if (pt) { Field f; f.name = nm; f.f.type = k == 1 ? MMG5_Scalar : k == dim ? MMG5_Vector : MMG5_Tensor; for (int q = 0; q < c; q++) { double *z = &v[(size_t)q * k]; if (k <= dim) f.f.v.insert(f.f.v.end(), z, z + k); else if (dim == 2) { if (z[1] != z[2]) return "tensor not symmetric"; for (int a : {0, 1, 3}) f.f.v.push_back(z[a]); } else { if (z[1] != z[3] || z[2] != z[6] || z[5] != z[7]) return "tensor not symmetric"; for (int a : {0, 1, 2, 4, 5, 8}) f.f.v.push_back(z[a]); } } F.push_back(f); } } }
    else if (w == "METADATA") { std::getline(in, l); while (std::getline(in, l) && !l.empty()) {} }
    else return "unknown word " + w.substr(0, 20);
  }
  for (size_t i = 0; i < pr.size() && i < (size_t)np; i++) m.p[i + 1].ref = pr[i]; if (ty.size() != nc) return "no cell types";
  for (size_t i = 0; i < nc; i++) { long *q = &con[off[i]]; int n = (int)(off[i + 1] - off[i]), ref = cr.empty() ? 0 : cr[i]; for (int a = 0; a < n; a++) if (q[a] < 0 || q[a] >= np) return "vertex out of range"; auto put = [&](auto &o, int k) { typename std::decay<decltype(o)>::type::value_type t; if (n != k) return false; for (int a = 0; a < k; a++) t.v[a] = (int)q[a] + 1; t.ref = ref; o.push_back(t); return true; };
    bool ok = ty[i] == 3 ? put(m.ed, 2) : ty[i] == 5 ? put(m.tr, 3) : ty[i] == 9 ? put(m.qu, 4) : ty[i] == 10 ? put(m.te, 4) : ty[i] == 13 ? put(m.pr, 6) : false; if (!ok) return fmt("cell of type %d with %d vertices", ty[i], n); }
  return "";
}
static int vload(H &h, const std::string &fn, int f, MMG5_pSol *all, bool both) {
  MMG5_pSol a = both ? h.met : 0, b = both ? h.ls : h.met;  const char *c = fn.c_str(); if (all) { return f == 0 ? BY_(h, MMG3D_loadVtkMesh_and_allData(h.m, all, c), MMG2D_loadVtkMesh_and_allData(h.m, all, c), MMGS_loadVtkMesh_and_allData(h.m, all, c)) : f == 1 ? BY_(h, MMG3D_loadVtuMesh_and_allData(h.m, all, c), MMG2D_loadVtuMesh_and_allData(h.m, all, c), MMGS_loadVtuMesh_and_allData(h.m, all, c)) : BY_(h, 0, MMG2D_loadVtpMesh_and_allData(h.m, all, c), MMGS_loadVtpMesh_and_allData(h.m, all, c)); }
  return f == 0 ? BY_(h, MMG3D_loadVtkMesh(h.m, a, b, c), MMG2D_loadVtkMesh(h.m, a, b, c), MMGS_loadVtkMesh(h.m, a, b, c)) : f == 1 ? BY_(h, MMG3D_loadVtuMesh(h.m, a, b, c), MMG2D_loadVtuMesh(h.m, a, b, c), MMGS_loadVtuMesh(h.m, a, b, c)) : BY_(h, 0, MMG2D_loadVtpMesh(h.m, a, b, c), MMGS_loadVtpMesh(h.m, a, b, c));
}
static int vsave(H &h, const std::string &fn, int f, MMG5_pSol *all) {
  const char *c = fn.c_str(); if (all) { return f == 0 ? BY_(h, MMG3D_saveVtkMesh_and_allData(h.m, all, c), MMG2D_saveVtkMesh_and_allData(h.m, all, c), MMGS_saveVtkMesh_and_allData(h.m, all, c)) : f == 1 ? BY_(h, MMG3D_saveVtuMesh_and_allData(h.m, all, c), MMG2D_saveVtuMesh_and_allData(h.m, all, c), MMGS_saveVtuMesh_and_allData(h.m, all, c)) : BY_(h, 0, MMG2D_saveVtpMesh_and_allData(h.m, all, c), MMGS_saveVtpMesh_and_allData(h.m, all, c)); }
  return f == 0 ? BY_(h, MMG3D_saveVtkMesh(h.m, h.met, c), MMG2D_saveVtkMesh(h.m, h.met, c), MMGS_saveVtkMesh(h.m, h.met, c)) : f == 1 ? BY_(h, MMG3D_saveVtuMesh(h.m, h.met, c), MMG2D_saveVtuMesh(h.m, h.met, c), MMGS_saveVtuMesh(h.m, h.met, c)) : BY_(h, 0, MMG2D_saveVtpMesh(h.m, h.met, c), MMGS_saveVtpMesh(h.m, h.met, c));
}
static double scale(const PM &m) { double s = 0; for (int i = 1; i <= m.np(); i++) s = std::max(s, norm(m.X(i))); return s; }
static std::string vcmp(const PM &a, const PM &b, double tol) { if (a.np() == b.np()) { PM c = b; for (int i = 1; i <= a.np(); i++) for (int j = 0; j < a.dim; j++) if (std::fabs(a.X(i)[j] - b.X(i)[j]) <= tol * scale(a)) c.p[i].x[j] = a.X(i)[j]; return cmp(a, c, tol, false); } return cmp(a, b, tol, false); }
static Scenario vtk(const char *name, char mod, int bq, int bt) {
  Scenario s; s.name = name; s.rule = "every kind of entity, reference, coordinate range and list of fields (at most `bound` deviations) x input and output formats; files are written by independent code, legacy output is read by independent code, all output is loaded again"; s.bound_quick = bq; s.bound_thorough = bt; s.leaf_timeout = 60;
  s.body = [=](Chooser &ch) -> Exec {
    Content c(mod == '2' ? 2 : 3); content(ch, mod, c, false); int nf = mod == '3' ? 2 : 3; VStyle st; st.fmt = ch.choose("in", nf); int of = ch.choose("out", nf), sty = ch.dev("style", 5), fields = ch.dev("fields", 7), val = ch.dev("values", 3); st.noref = sty == 1; st.verts = sty >= 3 && st.fmt < 2; st.mixed = (sty == 2 || sty == 4) && st.fmt != 2;
    if (st.fmt == 2 || of == 2) if (!c.m.qu.empty()) c.m.qu.clear();
    return [=](Rec &r) {
      if (mod == '2' && c.m.tr.empty()) return; Clean D; static const char *ext[] = {"vtk", "vtu", "vtp"}; std::string e, f0 = D(std::string("in.") + ext[st.fmt]), f1 = D(std::string("out.") + ext[of]); bool all = fields >= 4; PM want = c.m; want.ed = c.m.ed; if (st.noref) { for (auto &q : want.p) q.ref = 0; for (auto &q : want.ed) q.ref = 0; for (auto &q : want.tr) q.ref = 0; for (auto &q : want.qu) q.ref = 0; for (auto &q : want.te) q.ref = 0; for (auto &q : want.pr) q.ref = 0; }
      std::vector<int> ty; if (fields == 1) ty = {1}; if (fields == 2) ty = {3}; if (fields == 3) ty = {1, 1}; if (fields == 4) ty = {1}; if (fields == 5) ty = {2}; if (fields == 6) ty = {1, 2, 1}; auto S = mkfields(ty, c.m.np(), c.m.dim, val); std::vector<Field> F; for (size_t i = 0; i < S.size(); i++) F.push_back({all ? fmt("field%zu", i) : i ? "dist:ls" : "size:metric", S[i]});
      vtk_write(f0, c.m, F, st); H h(mod, 60); MMG5_pSol arr[1] = {0}; r.trans(3); bool both = F.size() == 2 && !all; int rc = vload(h, f0, st.fmt, all ? arr : 0, both); if (rc != 1) { r.fail("load|the loader returns %d", rc); return; }
      PM g(c.m.dim); if (!h.get(g)) { r.fail("load|the mesh cannot be read back"); return; } if (!(e = what("load", vcmp(want, g, 1e-14))).empty()) { r.fail("%s", e.c_str()); return; }
      std::vector<Sols> G; auto got = [&](H &x, MMG5_pSol *a, std::vector<Sols> &o) { if (all) return allsols(x, a[0], c.m.dim, o); o.assign(F.size(), Sols()); if (F.size() > 0 && !x.getsol(x.met, o[0])) return false; if (F.size() > 1 && !x.getsol(x.ls, o[1])) return false; return true; };
      if (!got(h, arr, G)) { r.fail("load|the fields cannot be read back"); return; } if (!(e = what("load", cmp_sols(S, G, 1e-14, c.m.dim))).empty()) { r.fail("%s", e.c_str()); return; }
      if (vsave(h, f1, of, all ? arr : 0) != 1) { r.fail("save|the writer fails"); return; } std::vector<Sols> S1 = S; if (!all && S1.size() > 1) S1.resize(1); 
      if (of == 0) { PM w(c.m.dim); std::vector<Field> W; if (!(e = vtk_read(f1, w, W)).empty()) { r.fail("save|the file cannot be read: %s", e.c_str()); return; } if (!(e = what("saved", vcmp(want, w, 6e-6))).empty() || !(e = what("saved", cmp_sols(S1, strip(W), 1e-5, c.m.dim))).empty()) { r.fail("%s", e.c_str()); return; } }
      H k(mod, 60); MMG5_pSol arr2[1] = {0}; if ((rc = vload(k, f1, of, all ? arr2 : 0, false)) != 1) { r.fail("reload|the loader returns %d", rc); return; } if (!k.get(g)) { r.fail("reload|cannot be read back"); return; } if (!(e = what("reload", vcmp(want, g, of ? 1e-6 : 6e-6))).empty()) { r.fail("%s", e.c_str()); return; }
      std::vector<Field> F1 = F; bool ok = true; if (!all && F.size() > 1) { Sols o; G.clear(); ok = k.getsol(k.met, o); G.push_back(o); } else ok = got(k, arr2, G); if (!ok) { r.fail("reload|the fields cannot be read back"); return; } if (!(e = what("reload", cmp_sols(S1, G, of == 0 ? 1e-5 : 1e-14, c.m.dim))).empty()) { r.fail("%s", e.c_str()); return; }
      r.obs(hash_mesh(g)); r.obs(fields * 9 + st.fmt * 3 + of); r.nontrivial = 1;
    };
  };
  return s;
}
static std::vector<Scenario> C24(bool) { return {vtk("vtk-3", '3', 1, 2), vtk("vtk-s", 's', 1, 2), vtk("vtk-2", '2', 1, 2)}; }
int main(int argc, char **argv) { return driver(argc, argv, {{"C24", C24}}); }
