// Independent readers and writers of the file formats (Medit ASCII / binary meshes and solutions, Gmsh 2.2, tetgen / triangle).
#pragma once
#include <fstream>
#include <sstream>
#include "api.hpp"
namespace io {
struct Content { PM m; std::map<int, V3> nrm; std::vector<std::pair<std::string, Sols>> sols; explicit Content(int d = 3) : m(d) {} };
typedef std::vector<unsigned char> Bytes;
inline bool slurp(const std::string &fn, Bytes &b) { std::ifstream f(fn, std::ios::binary); if (!f) return false; b.assign(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>()); return true; }
inline void spit(const std::string &fn, const std::string &s) { std::ofstream f(fn, std::ios::binary); f << s; }
inline bool exists(const std::string &fn) { std::ifstream f(fn); return (bool)f; }
// ---------------------------------------------------------------- Medit
struct Sec { std::string name; int code, ni; }; // sections made of ni integers
static const Sec SECS[] = {{"Edges", 5, 3}, {"Triangles", 6, 4}, {"Quadrilaterals", 7, 5}, {"Tetrahedra", 8, 5}, {"Prisms", 9, 7}, {"Corners", 13, 1}, {"Ridges", 14, 1}, {"RequiredVertices", 15, 1}, {"RequiredEdges", 16, 1},
  {"RequiredTriangles", 17, 1}, {"RequiredQuadrilaterals", 18, 1}, {"RequiredTetrahedra", 12, 1}, {"NormalAtVertices", 20, 2}, {"TangentAtVertices", 61, 2}};
struct Raw { int dim = 0, ver = 0; std::vector<std::array<double, 4>> vert; std::map<std::string, std::vector<int>> ints; std::map<std::string, int> seen; std::vector<double> normals, tangents; };
template <class T> void unswap(T &x) { unsigned char *c = (unsigned char *)&x; std::reverse(c, c + sizeof(T)); }
inline std::string raw_bin(const Bytes &b, Raw &r) {
  size_t p = 0; auto I = [&](int &x) { if (p + 4 > b.size()) return false; memcpy(&x, &b[p], 4); p += 4; return true; }; auto D = [&](double &x) { if (r.ver == 1) { float f; if (p + 4 > b.size()) return false; memcpy(&f, &b[p], 4); p += 4; x = f; return true; } if (p + 8 > b.size()) return false; memcpy(&x, &b[p], 8); p += 8; return true; };
  int k, pos, n; if (!I(k) || k != 1 || !I(r.ver)) return "no binary Medit header";
  while (I(k) && k != 54) {
    if (!I(pos)) return "truncated"; 
    if (k == 3) { if (!I(r.dim)) return "truncated"; }
    else {
      if (!I(n) || n < 0) return "truncated";
      if (k == 4) { r.seen["Vertices"]++; for (int i = 0; i < n; i++) { std::array<double, 4> v{{0, 0, 0, 0}}; for (int j = 0; j < r.dim; j++) if (!D(v[j])) return "truncated vertices"; int q; if (!I(q)) return "truncated vertices"; v[3] = q; r.vert.push_back(v); } }
      else if (k == 60 || k == 59) { auto &w = k == 60 ? r.normals : r.tangents; r.seen[k == 60 ? "Normals" : "Tangents"]++; for (int i = 0; i < n * r.dim; i++) { double x; if (!D(x)) return "truncated normals"; w.push_back(x); } }
      else { const Sec *s = 0; for (auto &x : SECS) if (x.code == k) s = &x; if (!s) return fmt("unknown binary keyword %d", k); r.seen[s->name]++; auto &w = r.ints[s->name]; for (int i = 0; i < n * s->ni; i++) { int q; if (!I(q)) return "truncated " + s->name; w.push_back(q); } }
    }
    if ((size_t)pos != p) return fmt("keyword %d announces its end at byte %d, it is at %zu", k, pos, p);
  }
  return k == 54 ? "" : "no End keyword";
}
inline std::string raw_ascii(const Bytes &b, Raw &r) {
  std::vector<std::string> t; std::string w; bool com = false; for (unsigned char c : b) { if (c == '#') com = true; if (c == '\n') com = false; if (com) continue; if (isspace(c)) { if (!w.empty()) t.push_back(w); w.clear(); } else w += c; } if (!w.empty()) t.push_back(w);
  size_t i = 0; bool bad = false, end = false; auto N = [&]() { if (i >= t.size()) { bad = true; return 0.; } char *e; double x = strtod(t[i].c_str(), &e); if (*e) bad = true; i++; return x; };
  while (i < t.size() && !bad) {
    std::string k = t[i++];
    if (k == "End") { end = true; break; }
    if (k == "MeshVersionFormatted") r.ver = (int)N(); else if (k == "Dimension") r.dim = (int)N();
    else if (k == "Vertices") { r.seen[k]++; int n = (int)N(); for (int q = 0; q < n && !bad; q++) { std::array<double, 4> v{{0, 0, 0, 0}}; for (int j = 0; j < r.dim; j++) v[j] = N(); v[3] = N(); r.vert.push_back(v); } }
    else if (k == "Normals" || k == "Tangents") { r.seen[k]++; int n = (int)N(); for (int q = 0; q < n * r.dim && !bad; q++) (k == "Normals" ? r.normals : r.tangents).push_back(N()); }
    else { const Sec *s = 0; for (auto &x : SECS) if (x.name == k) s = &x; if (!s) return "unknown keyword " + k; r.seen[k]++; int n = (int)N(); auto &o = r.ints[k]; for (int q = 0; q < n * s->ni && !bad; q++) { double x = N(); if (x != std::floor(x)) bad = true; o.push_back((int)x); } }
  }
  if (bad) return fmt("unexpected token near word %zu", i);
  return end ? "" : "no End keyword";
}
inline std::string read_medit(const std::string &fn, Content &c) {
  Bytes b; if (!slurp(fn, b)) return "the file is not there"; Raw r; bool bin = fn.size() > 6 && fn.substr(fn.size() - 6) == ".meshb"; std::string e = bin ? raw_bin(b, r) : raw_ascii(b, r); if (!e.empty()) return e;
  for (auto &x : r.seen) if (x.second > 1) return "section " + x.first + " is written twice";
  c = Content(r.dim); int np = (int)r.vert.size(); for (auto &v : r.vert) c.m.addv({{v[0], v[1], v[2]}}, (int)v[3]);
  auto els = [&](const char *k, auto &o, int n) { auto &w = r.ints[k]; for (size_t i = 0; i + n < w.size() + 0; i += n + 1) { typename std::decay<decltype(o)>::type::value_type t; for (int j = 0; j < n; j++) t.v[j] = w[i + j]; t.ref = w[i + n]; o.push_back(t); } };
  els("Edges", c.m.ed, 2); els("Triangles", c.m.tr, 3); els("Quadrilaterals", c.m.qu, 4); els("Tetrahedra", c.m.te, 4); els("Prisms", c.m.pr, 6);
  auto flag = [&](const char *k, size_t n, std::function<void(int)> f) { std::set<int> s; for (int i : r.ints[k]) { if (i < 1 || (size_t)i > n) return fmt("%s names entity %d of %zu", k, i, n); if (!s.insert(i).second) return fmt("%s names entity %d twice", k, i); f(i); } return std::string(); };
  if (!(e = flag("Corners", np, [&](int i) { c.m.p[i].corner = true; })).empty()) return e; if (!(e = flag("RequiredVertices", np, [&](int i) { c.m.p[i].req = true; })).empty()) return e;
  if (!(e = flag("Ridges", c.m.ed.size(), [&](int i) { c.m.ed[i - 1].ridge = true; })).empty()) return e; if (!(e = flag("RequiredEdges", c.m.ed.size(), [&](int i) { c.m.ed[i - 1].req = true; })).empty()) return e;
  if (!(e = flag("RequiredTriangles", c.m.tr.size(), [&](int i) { c.m.tr[i - 1].req = true; })).empty()) return e; if (!(e = flag("RequiredQuadrilaterals", c.m.qu.size(), [&](int i) { c.m.qu[i - 1].req = true; })).empty()) return e;
  if (!(e = flag("RequiredTetrahedra", c.m.te.size(), [&](int i) { c.m.te[i - 1].req = true; })).empty()) return e;
  for (auto what : {"NormalAtVertices", "TangentAtVertices"}) {
    auto &w = r.ints[what]; auto &val = what[0] == 'N' ? r.normals : r.tangents; int nn = (int)val.size() / std::max(1, r.dim);
    for (size_t i = 0; i + 1 < w.size(); i += 2) { if (w[i] < 1 || w[i] > np || w[i + 1] < 1 || w[i + 1] > nn) return fmt("%s refers to vertex %d, vector %d of %d", what, w[i], w[i + 1], nn); double l = 0; V3 q{{0, 0, 0}}; for (int j = 0; j < r.dim; j++) { q[j] = val[(w[i + 1] - 1) * r.dim + j]; l += q[j] * q[j]; } if (l != 0 && std::fabs(l - 1) > 1e-6) return fmt("%s: vector of length %g", what, std::sqrt(l)); if (what[0] == 'N') c.nrm[w[i]] = q; }
  }
  return "";
}
struct Style { bool bin = false, swap = false; int ver = 2; int order = 0; bool comments = false, noend = false; };
inline void write_medit(const std::string &fn, const Content &c, const Style &s) {
  const PM &m = c.m; std::map<std::string, std::vector<int>> I;
  auto els = [&](const char *k, auto &o) { for (auto &t : o) { for (int v : t.v) I[k].push_back(v); I[k].push_back(t.ref); } }; els("Edges", m.ed); els("Triangles", m.tr); els("Quadrilaterals", m.qu); els("Tetrahedra", m.te); els("Prisms", m.pr);
  for (int i = 1; i <= m.np(); i++) { if (m.p[i].corner) I["Corners"].push_back(i); if (m.p[i].req) I["RequiredVertices"].push_back(i); }
  auto rq = [&](const char *k, auto &o) { for (size_t i = 0; i < o.size(); i++) if (o[i].req) I[k].push_back((int)i + 1); }; rq("RequiredEdges", m.ed); rq("RequiredTriangles", m.tr); rq("RequiredQuadrilaterals", m.qu); rq("RequiredTetrahedra", m.te);
  for (size_t i = 0; i < m.ed.size(); i++) if (m.ed[i].ridge) I["Ridges"].push_back((int)i + 1);
  { int k = 0; for (auto &x : c.nrm) { I["NormalAtVertices"].push_back(x.first); I["NormalAtVertices"].push_back(++k); } }
  std::vector<std::string> names = {"Vertices"}; for (auto &x : SECS) if (!I[x.name].empty()) names.push_back(x.name); if (!c.nrm.empty()) names.push_back("Normals");
  if (s.order == 1) std::reverse(names.begin(), names.end()); if (s.order == 2) std::rotate(names.begin(), names.begin() + names.size() / 2, names.end());
  std::string o; auto pi = [&](int x) { if (s.swap) unswap(x); o.append((char *)&x, 4); }; auto pd = [&](double x) { if (s.ver == 1) { float f = (float)x; if (s.swap) unswap(f); o.append((char *)&f, 4); } else { if (s.swap) unswap(x); o.append((char *)&x, 8); } };
  int rs = s.ver == 1 ? 4 : 8;
  if (s.bin) { pi(1); pi(s.ver); pi(3); pi(20); pi(m.dim); } else { if (s.comments) o += "# a comment\n"; o += fmt(s.comments ? "MeshVersionFormatted\n%d\n# version Triangles\n\nDimension\n\n%d\n" : "MeshVersionFormatted %d\nDimension %d\n", s.ver, m.dim); }
  for (auto &k : names) {
    if (!s.bin) { if (s.comments) o += "\n#-- Vertices 3 --\n\t" + k + "  \n"; else o += k + "\n"; }
    if (k == "Vertices") { if (s.bin) { pi(4); pi((int)o.size() + 8 + m.np() * (m.dim * rs + 4)); pi(m.np()); } else o += fmt("%d\n", m.np());
      for (int i = 1; i <= m.np(); i++) { for (int j = 0; j < m.dim; j++) if (s.bin) pd(m.X(i)[j]); else o += fmt("%.17g ", m.X(i)[j]); if (s.bin) pi(m.p[i].ref); else o += fmt("%d\n", m.p[i].ref); } }
    else if (k == "Normals") { int n = (int)c.nrm.size(); if (s.bin) { pi(60); pi((int)o.size() + 8 + n * m.dim * rs); pi(n); } else o += fmt("%d\n", n); for (auto &x : c.nrm) for (int j = 0; j < m.dim; j++) if (s.bin) pd(x.second[j]); else o += fmt("%.17g%c", x.second[j], j == m.dim - 1 ? '\n' : ' '); }
    else { const Sec *q = 0; for (auto &x : SECS) if (x.name == k) q = &x; auto &w = I[k]; int n = (int)w.size() / q->ni; if (s.bin) { pi(q->code); pi((int)o.size() + 8 + 4 * (int)w.size()); pi(n); } else o += fmt("%d\n", n); for (size_t i = 0; i < w.size(); i++) if (s.bin) pi(w[i]); else o += fmt("%d%c", w[i], (int)(i % q->ni) == q->ni - 1 ? '\n' : ' '); }
  }
  if (s.bin) { if (!s.noend) { pi(54); pi(0); } } else if (!s.noend) o += "\nEnd\n"; spit(fn, o);
}
// solutions: the file stores tensors as m11 m12 m22 (m13 m23 m33), the API as m11 m12 m13 m22 m23 m33
inline std::vector<int> perm(int type, int dim) { if (type == MMG5_Scalar) return {0}; if (type == MMG5_Vector) return dim == 2 ? std::vector<int>{0, 1} : std::vector<int>{0, 1, 2}; return dim == 2 ? std::vector<int>{0, 1, 2} : std::vector<int>{0, 1, 3, 2, 4, 5}; }
inline void write_sol(const std::string &fn, const std::vector<Sols> &S, int np, int dim, const Style &s) {
  std::string o; auto pi = [&](int x) { if (s.swap) unswap(x); o.append((char *)&x, 4); }; auto pd = [&](double x) { if (s.ver == 1) { float f = (float)x; if (s.swap) unswap(f); o.append((char *)&f, 4); } else { if (s.swap) unswap(x); o.append((char *)&x, 8); } };
  int nv = 0; for (auto &f : S) nv += f.nc(dim); int rs = s.ver == 1 ? 4 : 8;
  if (s.bin) { pi(1); pi(s.ver); pi(3); pi(20); pi(dim); pi(62); pi((int)o.size() + 4 + 4 + 4 * (1 + (int)S.size()) + rs * nv * np); pi(np); pi((int)S.size()); for (auto &f : S) pi(f.type); }
  else { o += fmt("MeshVersionFormatted %d\n", s.ver);  o += fmt("Dimension %d\n", dim); o += fmt("%sSolAtVertices\n%d\n%d", s.comments ? "\n\n" : "", np, (int)S.size()); for (auto &f : S) o += fmt(" %d", f.type); o += "\n"; }
  for (int i = 0; i < np; i++) { for (auto &f : S) { auto q = perm(f.type, dim); for (int a : q) if (s.bin) pd(f.v[i * q.size() + a]); else o += fmt("%.17g ", f.v[i * q.size() + a]); } if (!s.bin) o += "\n"; }
  if (s.bin) { pi(54); pi(0); } else if (!s.noend) o += "End\n"; spit(fn, o);
}
inline std::string read_sol(const std::string &fn, std::vector<Sols> &S, int &np, int dim) {
  Bytes b; if (!slurp(fn, b)) return "the file is not there"; S.clear(); bool bin = fn.size() > 5 && fn.substr(fn.size() - 5) == ".solb"; np = -1; std::vector<double> val; int d = 0;
  if (bin) {
    size_t p = 0; int ver = 2; auto I = [&](int &x) { if (p + 4 > b.size()) return false; memcpy(&x, &b[p], 4); p += 4; return true; }; int k, pos, n; if (!I(k) || k != 1 || !I(ver)) return "no binary header";
    while (I(k) && k != 54) { if (!I(pos)) return "truncated"; if (k == 3) { if (!I(d)) return "truncated"; } else if (k == 62) { if (!I(np) || !I(n)) return "truncated"; int nv = 0; for (int i = 0; i < n; i++) { Sols f; if (!I(f.type) || f.type < 1 || f.type > 3) return "bad type"; nv += f.nc(dim); S.push_back(f); } for (int i = 0; i < np * nv; i++) { double x; if (ver == 1) { float g; if (p + 4 > b.size()) return "truncated values"; memcpy(&g, &b[p], 4); p += 4; x = g; } else { if (p + 8 > b.size()) return "truncated values"; memcpy(&x, &b[p], 8); p += 8; } val.push_back(x); } } else if (k == 64 || k == 66) { int ne; if (!I(ne) || !I(n)) return "truncated"; if (n) return "unexpected values at elements"; } else return fmt("unknown keyword %d", k); if ((size_t)pos != p) return fmt("keyword %d announces its end at byte %d, it is at %zu", k, pos, p); }
    if (k != 54) return "no End keyword";
  } else {
    std::string t(b.begin(), b.end()); std::istringstream in(t); std::string k; bool end = false; int v;
    while (in >> k) { if (k == "End") { end = true; break; } if (k == "MeshVersionFormatted") in >> v; else if (k == "Dimension") in >> d; else if (k == "SolAtTetrahedra" || k == "SolAtTriangles") { int ne = 0, n = -1; in >> ne >> n; if (n) return "unexpected values at elements"; } else if (k == "SolAtVertices") { int n; in >> np >> n; int nv = 0; for (int i = 0; i < n; i++) { Sols f; in >> f.type; if (!in || f.type < 1 || f.type > 3) return "bad type"; nv += f.nc(dim); S.push_back(f); } for (int i = 0; i < np * nv; i++) { std::string w; in >> w; char *e; val.push_back(strtod(w.c_str(), &e)); if (w.empty() || *e) return "bad value " + w; } } else return "unknown keyword " + k; }
    if (!end) return "no End keyword";
  }
  if (d != dim) return fmt("dimension %d", d); if (np < 0) return "no SolAtVertices"; size_t z = 0; for (int i = 0; i < np; i++) for (auto &f : S) { auto q = perm(f.type, dim); size_t at = f.v.size(); f.v.resize(at + q.size()); for (size_t a = 0; a < q.size(); a++) f.v[at + q[a]] = val[z++]; }
  return "";
}
// ---------------------------------------------------------------- Gmsh 2.2
struct Field { std::string name; Sols f; };
struct MshStyle { bool bin = false, swap = false, points = true, blocks = false, shuffle = false; int ver = 8, tags = 2; };
inline void write_msh(const std::string &fn, const PM &m, const std::vector<Field> &F, const MshStyle &s) {
  std::string o; auto pi = [&](int x) { if (s.swap) unswap(x); o.append((char *)&x, 4); }; auto pd = [&](double x) { if (s.ver == 4) { float f = (float)x; if (s.swap) unswap(f); o.append((char *)&f, 4); } else { if (s.swap) unswap(x); o.append((char *)&x, 8); } };
  o += fmt("$MeshFormat\n2.2 %d %d\n", (int)s.bin, s.ver); if (s.bin) { pi(1); o += "\n"; } o += "$EndMeshFormat\n"; o += fmt("$Nodes\n%d\n", m.np());
  std::vector<int> ord; for (int i = 1; i <= m.np(); i++) ord.push_back(i); if (s.shuffle) std::reverse(ord.begin(), ord.end());
  for (int i : ord) { double x[3] = {m.X(i)[0], m.X(i)[1], m.dim == 3 ? m.X(i)[2] : 0.}; if (s.bin) { pi(i); for (double q : x) pd(q); } else o += fmt("%d %.17g %.17g %.17g\n", i, x[0], x[1], x[2]); }
  if (s.bin) o += "\n"; o += "$EndNodes\n";
  struct E { int ty, ref; std::vector<int> v; }; std::vector<E> L; if (s.points) for (int i = 1; i <= m.np(); i++) L.push_back({15, m.p[i].ref, {i}});
  for (auto &t : m.ed) L.push_back({1, t.ref, {t.v[0], t.v[1]}}); for (auto &t : m.tr) L.push_back({2, t.ref, {t.v[0], t.v[1], t.v[2]}}); for (auto &t : m.qu) L.push_back({3, t.ref, {t.v[0], t.v[1], t.v[2], t.v[3]}});
  for (auto &t : m.te) L.push_back({4, t.ref, {t.v[0], t.v[1], t.v[2], t.v[3]}}); for (auto &t : m.pr) L.push_back({6, t.ref, {t.v[0], t.v[1], t.v[2], t.v[3], t.v[4], t.v[5]}});
  if (s.shuffle) { std::vector<E> A, B; std::map<int, std::vector<E>> by; for (auto &e : L) by[e.ty].push_back(e); bool any = true; for (size_t k = 0; any; k++) { any = false; for (auto &q : by) if (k < q.second.size()) { A.push_back(q.second[k]); any = true; } } L = A; }
  o += fmt("$Elements\n%d\n", (int)L.size());
  for (size_t i = 0; i < L.size();) {
    size_t j = i + 1; if (s.bin && s.blocks) while (j < L.size() && L[j].ty == L[i].ty) j++; if (s.bin) { pi(L[i].ty); pi((int)(j - i)); pi(s.tags); }
    for (; i < j; i++) { if (s.bin) { pi((int)i + 1); for (int t = 0; t < s.tags; t++) pi(t == 0 ? L[i].ref : 33); for (int v : L[i].v) pi(v); } else { o += fmt("%zu %d %d", i + 1, L[i].ty, s.tags); for (int t = 0; t < s.tags; t++) o += fmt(" %d", t == 0 ? L[i].ref : 33); for (int v : L[i].v) o += fmt(" %d", v); o += "\n"; } }
  }
  if (s.bin) o += "\n"; o += "$EndElements\n";
  for (auto &q : F) {
    int ty = q.f.type == MMG5_Scalar ? 1 : q.f.type == MMG5_Vector ? 3 : 9; o += fmt("$NodeData\n1\n\"%s\"\n1\n0.0\n3\n0\n%d\n%d\n", q.name.c_str(), ty, m.np()); int n = q.f.nc(m.dim);
    for (int k : ord) { const double *v = &q.f.v[(k - 1) * n]; std::vector<double> w(ty, 0.); if (ty == 9 && m.dim == 3) { double z[9] = {v[0], v[1], v[2], v[1], v[3], v[4], v[2], v[4], v[5]}; w.assign(z, z + 9); } else if (ty == 9) { double z[9] = {v[0], v[1], 0, v[1], v[2], 0, 0, 0, 1}; w.assign(z, z + 9); } else for (int i = 0; i < n; i++) w[i] = v[i];
      if (s.bin) { pi(k); for (double x : w) pd(x); } else { o += fmt("%d", k); for (double x : w) o += fmt(" %.17g", x); o += "\n"; } }
    if (s.bin) o += "\n"; o += "$EndNodeData\n";
  }
  spit(fn, o);
}
inline std::string read_msh(const std::string &fn, PM &m, std::vector<Field> &F) {
  Bytes b; if (!slurp(fn, b)) return "the file is not there"; size_t p = 0; F.clear(); int dim = m.dim; m = PM(dim);
  auto word = [&]() { while (p < b.size() && isspace(b[p])) p++; std::string w; while (p < b.size() && !isspace(b[p])) w += b[p++]; return w; }; auto num = [&](double &x) { std::string w = word(); char *e; if (w.empty()) return false; x = strtod(w.c_str(), &e); return !*e; };
  auto inum = [&](int &x) { double d; if (!num(d) || d != std::floor(d)) return false; x = (int)d; return true; }; auto line = [&]() { while (p < b.size() && b[p] != '\n') p++; p++; };
  bool bin = false; int bi = 0, sz = 0; auto I = [&](int &x) { if (!bin) return inum(x); if (p + 4 > b.size()) return false; memcpy(&x, &b[p], 4); p += 4; return true; }; auto D = [&](double &x) { if (!bin) return num(x); if (p + 8 > b.size()) return false; memcpy(&x, &b[p], 8); p += 8; return true; };
  std::map<std::string, int> seen; int np = 0;
  while (true) {
    std::string k = word(); if (k.empty()) break; if (k[0] != '$') return "unexpected word " + k.substr(0, 20); std::string end = "$End" + k.substr(1); if (k != "$NodeData" && seen[k]++) return k + " appears twice";
    if (k == "$MeshFormat") { double v; if (!num(v) || std::fabs(v - 2.2) > 1e-9 || !inum(bi) || !inum(sz) || sz != 8) return "bad format line"; if (bi) { line(); int one; bin = true; if (!I(one) || one != 1) return "no endianness mark"; bin = false; } }
    else if (k == "$Nodes") { if (!inum(np)) return "no number of nodes"; line(); bin = bi; for (int i = 1; i <= np; i++) { int q; double x[3]; if (!I(q) || !D(x[0]) || !D(x[1]) || !D(x[2])) return fmt("node %d cannot be read", i); if (q != i) return fmt("node %d is numbered %d", i, q); if (dim == 2 && x[2] != 0) return "a planar node has a height"; m.addv({{x[0], x[1], x[2]}}); } bin = false; }
    else if (k == "$Elements") {
      int n; if (!inum(n)) return "no number of elements"; line(); bin = bi; std::set<int> ids;
      for (int i = 0; i < n;) { int ty, cnt = 1, tg, id; if (bi) { if (!I(ty) || !I(cnt) || !I(tg)) return "truncated block"; if (!cnt) { if (n) continue; return "empty block"; } } else if (!I(id) || !I(ty) || !I(tg)) return fmt("element %d cannot be read", i + 1);
        if (tg < 2) return fmt("element with %d tags", tg); int nv = ty == 15 ? 1 : ty == 1 ? 2 : ty == 2 ? 3 : ty == 3 || ty == 4 ? 4 : ty == 6 ? 6 : 0; if (!nv) return fmt("element type %d", ty);
        for (int c = 0; c < cnt; c++, i++) { if (bi && !I(id)) return "truncated"; if (!ids.insert(id).second) return fmt("element number %d is used twice", id); int t, ref = 0, v[6]; for (int a = 0; a < tg; a++) { if (!I(t)) return "truncated tags"; if (a == 0) ref = t; } for (int a = 0; a < nv; a++) { if (!I(v[a])) return "truncated element"; if (v[a] < 1 || v[a] > np) return fmt("element %d refers to node %d", id, v[a]); }
          if (ty == 15) m.p[v[0]].ref = ref; if (ty == 1) { Edg e; e.v = {{v[0], v[1]}}; e.ref = ref; m.ed.push_back(e); } if (ty == 2) { Tri e; e.v = {{v[0], v[1], v[2]}}; e.ref = ref; m.tr.push_back(e); } if (ty == 3) { Qua e; e.v = {{v[0], v[1], v[2], v[3]}}; e.ref = ref; m.qu.push_back(e); } if (ty == 4) { Tet e; e.v = {{v[0], v[1], v[2], v[3]}}; e.ref = ref; m.te.push_back(e); } if (ty == 6) { Pri e; for (int a = 0; a < 6; a++) e.v[a] = v[a]; e.ref = ref; m.pr.push_back(e); } } }
      bin = false;
    } else if (k == "$NodeData") {
      Field q; int n, ty, cnt; if (!inum(n) || n != 1) return "string tags"; line(); while (p < b.size() && b[p] != '\n') q.name += b[p++]; double d; if (!inum(n) || n != 1 || !num(d)) return "real tags"; if (!inum(n) || n != 3 || !inum(n) || !inum(ty) || !inum(cnt)) return "integer tags"; if (cnt != np) return fmt("field with %d entries for %d nodes", cnt, np); line(); bin = bi;
      if (ty != 1 && ty != 3 && ty != 9) return fmt("field with %d components", ty); q.f.type = ty == 1 ? MMG5_Scalar : ty == 3 ? MMG5_Vector : MMG5_Tensor;
      for (int i = 1; i <= np; i++) { double w[9]; if (!I(n)) return "truncated field"; if (n != i) return fmt("value %d is for node %d", i, n); for (int a = 0; a < ty; a++) if (!D(w[a])) return "truncated field"; if (ty == 1) q.f.v.push_back(w[0]); else if (ty == 3) { q.f.v.push_back(w[0]); q.f.v.push_back(w[1]); if (dim == 3) q.f.v.push_back(w[2]); else if (w[2] != 0) return "a planar vector has a height"; } else { if (w[1] != w[3] || w[2] != w[6] || w[5] != w[7]) return "tensor not symmetric"; if (dim == 3) for (int a : {0, 1, 2, 4, 5, 8}) q.f.v.push_back(w[a]); else { for (int a : {0, 1, 4}) q.f.v.push_back(w[a]); } } }
      bin = false; F.push_back(q);
    } else return "unknown section " + k;
    if (word() != end) return "no " + end;
  }
  for (auto k : {"$MeshFormat", "$Nodes", "$Elements"}) if (!seen[k]) return std::string("no ") + k; return "";
}
// ---------------------------------------------------------------- comparison
inline bool near(double a, double b, double tol) { return std::fabs(a - b) <= tol * std::max(std::fabs(a), std::fabs(b)); }
template <class V> std::string cmp_els(const char *k, const V &a, const V &b, bool flags = true) {
  if (a.size() != b.size()) return fmt("%s|%zu instead of %zu", k, b.size(), a.size());
  for (size_t i = 0; i < a.size(); i++) { if (a[i].v != b[i].v) return fmt("%s|vertices of number %zu differ", k, i + 1); if (a[i].ref != b[i].ref) return fmt("%s|reference of number %zu: %d instead of %d", k, i + 1, b[i].ref, a[i].ref); if (flags && (a[i].req != b[i].req || a[i].ridge != b[i].ridge)) return fmt("%s|flags of number %zu: %d%d instead of %d%d", k, i + 1, b[i].req, b[i].ridge, a[i].req, a[i].ridge); }
  return "";
}
inline std::string cmp(const PM &a, const PM &b, double tol, bool flags = true) {
  if (a.np() != b.np()) return fmt("vertices|%d instead of %d", b.np(), a.np()); std::string e;
  for (int i = 1; i <= a.np(); i++) { for (int j = 0; j < a.dim; j++) if (!near(a.X(i)[j], b.X(i)[j], tol)) return fmt("vertices|coordinate %d of %d: %.17g instead of %.17g", j, i, b.X(i)[j], a.X(i)[j]); if (a.p[i].ref != b.p[i].ref) return fmt("vertices|reference of %d: %d instead of %d", i, b.p[i].ref, a.p[i].ref); if (flags && (a.p[i].corner != b.p[i].corner || a.p[i].req != b.p[i].req)) return fmt("vertices|flags of %d: corner %d required %d instead of %d %d", i, b.p[i].corner, b.p[i].req, a.p[i].corner, a.p[i].req); }
  if (!(e = cmp_els("tetrahedra", a.te, b.te, flags)).empty() || !(e = cmp_els("prisms", a.pr, b.pr, false)).empty() || !(e = cmp_els("triangles", a.tr, b.tr, flags)).empty() || !(e = cmp_els("quadrilaterals", a.qu, b.qu, flags)).empty() || !(e = cmp_els("edges", a.ed, b.ed, flags)).empty()) return e;
  return "";
}
inline std::string cmp_sols(const std::vector<Sols> &a, const std::vector<Sols> &b, double tol, int dim) {
  if (a.size() != b.size()) return fmt("fields|%zu instead of %zu", b.size(), a.size());
  for (size_t k = 0; k < a.size(); k++) { if (a[k].type != b[k].type || a[k].v.size() != b[k].v.size()) return fmt("fields|field %zu: type %d with %zu values instead of type %d with %zu", k + 1, b[k].type, b[k].v.size(), a[k].type, a[k].v.size()); for (size_t i = 0; i < a[k].v.size(); i++) if (!near(a[k].v[i], b[k].v[i], tol)) return fmt("fields|field %zu, value %zu: %.17g instead of %.17g", k + 1, i, b[k].v[i], a[k].v[i]); }
  (void)dim; return "";
}
} // namespace io
