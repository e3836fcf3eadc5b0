// Contents to be written to files, and helpers shared by the file harnesses.
#pragma once
#include "jobs.hpp"
#include "io.hpp"
#include <dirent.h>
#include <sys/stat.h>
using namespace io;
static std::string dir() { std::string d = errfile() + ".d"; mkdir(d.c_str(), 0700); return d; }
struct Clean { std::string d; Clean() : d(dir()) { if (DIR *q = opendir(d.c_str())) { while (dirent *e = readdir(q)) if (e->d_name[0] != '.') unlink((d + "/" + e->d_name).c_str()); closedir(q); } } std::string operator()(const std::string &f) const { return d + "/" + f; } };
// contents: entities of all kinds, chosen one deviation at a time
static void content(Chooser &ch, char mod, Content &c, bool rich) {
  int g = ch.choose("geo", mod == '3' ? 4 : 3); PM m(mod == '2' ? 2 : 3);
  if (mod == '3') { m = g == 0 ? tetra2(2) : g == 1 ? cube5() : g == 2 ? grid(2, 1, 1, [](int i, int, int) { return 1 + i; }) : octa(); if (g != 0) { m.ed.clear(); } }
  else if (mod == '2') { m = g == 0 ? grid2(1, 1) : g == 1 ? grid2(3, 2, [](int i, int) { return 1 + (i == 1); }) : grid2(2, 2); }
  else { PM v = g == 0 ? tetra1() : g == 1 ? cube5() : grid(2, 1, 1); m = surface_of(v); }
  int co = ch.dev("coords", 5); for (int i = 1; i <= m.np(); i++) for (int j = 0; j < m.dim; j++) { double &x = m.p[i].x[j]; if (co == 1) x = x * 1e10 / 3 + 1; if (co == 2) x = (x - .3) * 1e-9 / 7; if (co == 3) x = -x * M_PI + .1 * i * (j == 2 ? .1 : 0); if (co == 4) x = x / 3 + 1e6; } if (co == 3 && mod == '3') orient(m); if (co == 3 && mod == '2') {}
  if (co == 3 && mod == '3') {} 
  int nt = (int)m.tr.size(), ne = (int)m.te.size();
  auto R = [&](int k, int i) { return k == 1 ? 7 : k == 2 ? i % 5 : k == 3 ? 2147483647 - i : k == 4 ? (i == 1 ? 3 : 0) : 100000 + 17 * i; };
  if (int k = ch.dev("vref", 6)) for (int i = 1; i <= m.np(); i++) m.p[i].ref = R(k, i);
  if (int k = ch.dev("vtag", 6)) { int l = m.np(); if (k & 1) m.p[1].corner = true; if (k == 2 || k == 3) m.p[l].req = true; if (k == 3) m.p[1].req = true; if (k == 4) for (int i = 1; i <= l; i++) m.p[i].corner = m.p[i].req = true; if (k == 5) for (int i = 1; i <= l; i += 2) m.p[i].req = true; }
  if (int k = ch.dev("edges", 7)) {
    m.ed.clear(); std::set<std::array<int, 2>> S; int q = 0; for (auto &t : m.tr) for (int j = 0; j < 3; j++) { auto e = key(t.v[j], t.v[(j + 1) % 3]); if (S.insert(e).second) { Edg x; x.v = e; if (k == 6) std::swap(x.v[0], x.v[1]); x.ref = k == 1 ? 0 : k == 2 ? ++q : k == 3 ? 2147483647 : ++q % 3; if (k == 4 || k == 5) { x.req = q % 2; x.ridge = mod != '2' && q % 3 == 0; } if (k == 5) { x.req = !x.req; x.ridge = mod != '2' && !x.ridge; } m.ed.push_back(x); } }
    if (k == 3) m.ed.resize(1);
  }
  if (mod == '3' ? ch.dev("notria", 2) : 0) { m.tr.clear(); nt = 0; }
  if (int k = ch.dev("tref", 6)) for (int i = 0; i < nt; i++) m.tr[i].ref = R(k, i + 1);
  if (int k = ch.dev("treq", 4)) for (int i = 0; i < nt; i++) m.tr[i].req = k == 1 ? i == 0 : k == 2 ? i == nt - 1 : true;
  if (mod == '3') {
    if (int k = ch.dev("teref", 6)) for (int i = 0; i < ne; i++) m.te[i].ref = R(k, i + 1);
    if (int k = ch.dev("tereq", 3)) for (int i = 0; i < ne; i++) m.te[i].req = k == 1 ? i == ne - 1 : true;
    if (int k = ch.dev("prism", 3)) { int n = m.np(); for (int a = 0; a < k; a++) { Pri q; for (int j = 0; j < 6; j++) q.v[j] = m.addv({{3. + 2 * a + (j % 3 == 1), (double)(j % 3 == 2), (double)(j / 3)}}); q.ref = 4 + a; m.pr.push_back(q); } (void)n; }
  }
  if (mod != 's') if (int k = ch.dev("quad", 4)) { for (int a = 0; a < (k == 3 ? 2 : 1); a++) { Qua q; if (a) q.v = {{4, 3, 2, 1}}; else q.v = {{1, 2, 4, 3}}; q.ref = 8 + a; q.req = k == 2 || (k == 3 && a == 1); m.qu.push_back(q); } }
  if (rich && mod != '2') if (int k = ch.dev("normals", 3)) for (int i = 1; i <= m.np(); i++) if (k == 2 || i % 2) { V3 n = {{1. * i, 2, -1}}; c.nrm[i] = (1 / norm(n)) * n; }
  c.m = m;
}
static std::string what(const char *stage, const std::string &e) { return e.empty() ? e : std::string(stage) + "|" + e; }
static std::vector<Sols> mkfields(const std::vector<int> &types, int np, int dim, int val) {
  std::vector<Sols> S; int q = 0; for (int t : types) { Sols f; f.type = t; for (int i = 0; i < np * f.nc(dim); i++) { q++; f.v.push_back(val == 0 ? q / 7. : val == 1 ? (q % 2 ? -1e12 : 1e-12) * q / 3 : val == 2 ? 1e-30 / 3 * q : q % 3 ? 0. : -q); } S.push_back(f); } return S;
}
static bool allsols(H &x, MMG5_pSol sol, int dim, std::vector<Sols> &o) { int ns = 0, types[MMG5_NSOLS_MAX]; MMG5_int q = 0; if (BY_(x, MMG3D_Get_solsAtVerticesSize(x.m, &sol, &ns, &q, types), MMG2D_Get_solsAtVerticesSize(x.m, &sol, &ns, &q, types), MMGS_Get_solsAtVerticesSize(x.m, &sol, &ns, &q, types)) != 1) return false; o.clear(); for (int i = 0; i < ns; i++) { Sols f; f.type = types[i]; if (f.type > 3) return false; f.v.resize((size_t)q * f.nc(dim)); if (BY_(x, MMG3D_Get_ithSols_inSolsAtVertices(sol, i + 1, f.v.data()), MMG2D_Get_ithSols_inSolsAtVertices(sol, i + 1, f.v.data()), MMGS_Get_ithSols_inSolsAtVertices(sol, i + 1, f.v.data())) != 1) return false; o.push_back(f); } return true; }
static std::vector<Sols> strip(const std::vector<Field> &F) { std::vector<Sols> s; for (auto &x : F) s.push_back(x.f); return s; }
