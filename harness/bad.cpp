// Damaged files (C20): reading them never crashes; what is accepted is consistent.
#include "jobs.hpp"
#include "ioc.hpp"
using namespace io;
static Content sample(char mod, int k) {
  Content c(mod == '2' ? 2 : 3); PM m(mod == '2' ? 2 : 3);
  if (mod == '3') m = k ? cube5() : tetra2(2); else if (mod == '2') m = k ? grid2(2, 1, [](int i, int) { return 1 + i; }) : grid2(1, 1); else m = surface_of(k ? cube5() : tetra1());
  m.p[1].corner = true; m.p[2].req = true; m.p[3].ref = 4; m.tr[0].req = true; if (m.te.size()) m.te[0].req = true; if (m.ed.empty()) m.ed.push_back({}), m.ed[0].v = {{m.tr[0].v[0], m.tr[0].v[1]}}, m.ed[0].ref = 3; m.ed[0].req = true; if (mod != '2') { m.ed[0].ridge = true; c.nrm[1] = {{0, 0, 1}}; }
  if (k && mod == '3') { int n = m.np(); for (int i = 0; i < 6; i++) m.addv({{3. + (i % 3 == 1), (double)(i % 3 == 2), (double)(i / 3)}}); Pri q; for (int i = 0; i < 6; i++) q.v[i] = n + 1 + i; q.ref = 5; m.pr.push_back(q); Qua u; u.v = {{n + 1, n + 2, n + 5, n + 4}}; u.ref = 6; m.qu.push_back(u); }
  c.m = m; return c;
}
static const char *FN[] = {"mesh.mesh", "mesh.meshb", "field.sol", "field.sol", "mesh.msh", "mesh.mshb"}; static const char *WHAT[] = {"mesh", "meshb", "sol", "solb", "msh", "mshb"};
static std::string produce(char mod, int f, int k, Clean &D) {
  Content c = sample(mod, k); std::string fn = D(FN[f]); Style s; s.bin = f == 1 || f == 3; int dim = c.m.dim; std::vector<Sols> S; Sols a; a.type = k ? MMG5_Tensor : MMG5_Scalar; for (int i = 0; i < c.m.np() * a.nc(dim); i++) a.v.push_back(a.type == MMG5_Scalar ? .1 * (i + 1) : (i % a.nc(dim) == 0 || (dim == 2 ? i % 3 == 2 : i % 6 == 3 || i % 6 == 5)) ? 2. + i : .01); S.push_back(a);
  if (f < 2) write_medit(fn, c, s); else if (f < 4) write_sol(fn, S, c.m.np(), dim, s); else { MshStyle t; t.bin = f == 5; std::vector<Field> F; Field q; q.name = "x:metric"; q.f = a; F.push_back(q); write_msh(fn, c.m, F, t); }
  Bytes b; slurp(fn, b); return std::string(b.begin(), b.end());
}
static std::string consistent(H &h) { // indices of what was accepted
  MMG5_int np = 0, ne = 0, npr = 0, nt = 0, nq = 0, na = 0; if (BY_(h, MMG3D_Get_meshSize(h.m, &np, &ne, &npr, &nt, &nq, &na), MMG2D_Get_meshSize(h.m, &np, &nt, &nq, &na), MMGS_Get_meshSize(h.m, &np, &nt, &na)) != 1) return "accepted|the sizes cannot be read";
  PM a; if (!h.get(a)) return "accepted|the mesh cannot be read back";
  auto bad = [&](auto &o, const char *w) -> std::string { for (auto &t : o) { for (int v : t.v) if (v < 1 || v > np) return fmt("accepted|%s with vertex %d of %d", w, v, (int)np); } return ""; };
  std::string e = bad(a.te, "tetrahedron"); if (e.empty()) e = bad(a.tr, "triangle"); if (e.empty()) e = bad(a.ed, "edge"); if (e.empty()) e = bad(a.qu, "quadrilateral"); if (e.empty()) e = bad(a.pr, "prism"); return e;
}
static const char *TOK[] = {"0", "-1", "1", "2147483647", "99999999999", "x", "1e999", "nan", "", "7 7", "Vertices", "3.5"}; static const int NTOK = 12;
static const int WORD[] = {0, -1, 1, 0x7fffffff, 1000000, 20, 54, -2147483647 - 1}; static const int NWORD = 8;
static std::vector<std::pair<size_t, size_t>> tokens(const std::string &s) { std::vector<std::pair<size_t, size_t>> r; size_t i = 0; while (i < s.size()) { while (i < s.size() && isspace((unsigned char)s[i])) i++; size_t b = i; while (i < s.size() && !isspace((unsigned char)s[i])) i++; if (i > b) r.push_back({b, i}); } return r; }
static Scenario bad(const char *name, int op) {
  Scenario s; s.name = name; s.leaf_timeout = 20; s.rule = op == 0 ? "every file cut after every byte" : op == 1 ? "every token of every text file replaced by every value of the alphabet" : "every 4-byte word of every binary file replaced by every value of the alphabet";
  s.body = [=](Chooser &ch) -> Exec {
    char mod = "32s"[ch.choose("module", 3)]; int f = op == 0 ? ch.choose("format", 6) : op == 1 ? 2 * ch.choose("format", 3) : 1 + 2 * ch.choose("format", 3); ch.labels.back() = WHAT[f]; int k = ch.choose("sample", 2);
    static std::map<int, std::string> cache; int id = (mod * 10 + f) * 2 + k; if (!cache.count(id)) { Clean D; cache[id] = produce(mod, f, k, D); }
    std::string t = cache[id];
    if (op == 0) { int c = ch.choose("cut", (int)t.size()); t.resize(c); }
    else if (op == 1) { auto T = tokens(t); int c = ch.choose("token", (int)T.size()); ch.labels.back() = "token:" + t.substr(T[c].first, T[c].second - T[c].first); int v = ch.choose("by", NTOK); ch.labels.back() = std::string("by:") + TOK[v]; t = t.substr(0, T[c].first) + TOK[v] + t.substr(T[c].second); }
    else { int c = ch.choose("word", (int)t.size() / 4); int v = ch.choose("by", NWORD); memcpy(&t[4 * c], &WORD[v], 4); }
    return [=](Rec &r) {
      Clean D; H h(mod, 60); r.nontrivial = 1; r.trans();
      Content c = sample(mod, k); int rc, before = 0; for (int i = 3; i < 200; i++) before += fcntl(i, F_GETFD) != -1;
      if (f < 2) { spit(D(FN[f]), t); rc = h.loadMesh(D(FN[f]).c_str()); }
      else if (f < 4) { if (!h.put(c.m)) { r.fail("harness|put"); return; } spit(D(FN[f]), t); rc = h.loadSol(h.met, D(FN[f]).c_str()); }
      else { spit(D(FN[f]), t); rc = mod == '3' ? MMG3D_loadMshMesh(h.m, h.met, D(FN[f]).c_str()) : mod == '2' ? MMG2D_loadMshMesh(h.m, h.met, D(FN[f]).c_str()) : MMGS_loadMshMesh(h.m, h.met, D(FN[f]).c_str()); }
      r.obs(rc + 5); r.obs(f * 3 + (mod == '3' ? 0 : mod == '2' ? 1 : 2)); r.obs(h.m->np); r.obs((int)t.size()); snprintf(r.note, sizeof r.note, "returns %d", rc);
      if (rc > 1 || rc < -1) { r.fail("code|the reader returns %d", rc); return; }
      if (rc == 1) { std::string e = consistent(h); if (!e.empty()) { r.fail("%s", e.c_str()); return; } Sols S; if (h.met->np) { if (!h.getsol(h.met, S)) { r.fail("accepted|the field cannot be read back"); return; } } }
      h.free();
      int after = 0; for (int i = 3; i < 200; i++) after += fcntl(i, F_GETFD) != -1; if (after != before) r.fail("open|the file is left open after it was %s", rc == 1 ? "read" : "refused");
    };
  };
  return s;
}
static std::vector<Scenario> C20(bool) { return {bad("cut", 0)}; }
static int vsave(H &h, const char *c, int f) { return f == 0 ? BY_(h, MMG3D_saveVtkMesh(h.m, h.met, c), MMG2D_saveVtkMesh(h.m, h.met, c), MMGS_saveVtkMesh(h.m, h.met, c)) : f == 1 ? BY_(h, MMG3D_saveVtuMesh(h.m, h.met, c), MMG2D_saveVtuMesh(h.m, h.met, c), MMGS_saveVtuMesh(h.m, h.met, c)) : BY_(h, 0, MMG2D_saveVtpMesh(h.m, h.met, c), MMGS_saveVtpMesh(h.m, h.met, c)); }
static int vload(H &h, const char *c, int f) { MMG5_pSol a = h.met, b = h.ls; return f == 0 ? BY_(h, MMG3D_loadVtkMesh(h.m, a, b, c), MMG2D_loadVtkMesh(h.m, a, b, c), MMGS_loadVtkMesh(h.m, a, b, c)) : f == 1 ? BY_(h, MMG3D_loadVtuMesh(h.m, a, b, c), MMG2D_loadVtuMesh(h.m, a, b, c), MMGS_loadVtuMesh(h.m, a, b, c)) : BY_(h, 0, MMG2D_loadVtpMesh(h.m, a, b, c), MMGS_loadVtpMesh(h.m, a, b, c)); }
static Scenario badvtk() {
  Scenario s; s.name = "cut-vtk"; s.leaf_timeout = 20; s.rule = "every VTK file cut after every byte";
  s.body = [=](Chooser &ch) -> Exec {
    char mod = "32s"[ch.choose("module", 3)]; int f = ch.choose("format", mod == '3' ? 2 : 3); const char *EXT[] = {"m.vtk", "m.vtu", "m.vtp"}; ch.labels.back() = EXT[f];
    static std::map<int, std::string> cache; int id = mod * 10 + f; if (!cache.count(id)) { Clean D; H h(mod, 60); Content c = sample(mod, 1); h.put(c.m); Sols a; for (int i = 0; i < c.m.np(); i++) a.v.push_back(.1 * (i + 1)); h.setsol(h.met, a); vsave(h, D(EXT[f]).c_str(), f); h.free(); Bytes b; slurp(D(EXT[f]), b); cache[id] = std::string(b.begin(), b.end()); }
    std::string t = cache[id]; if (t.empty()) return nullptr; int c = ch.choose("cut", (int)t.size()); t.resize(c);
    return [=](Rec &r) {
      Clean D; H h(mod, 60); r.nontrivial = 1; r.trans(); spit(D(EXT[f]), t); int rc = vload(h, D(EXT[f]).c_str(), f); r.obs(rc + 5); r.obs(f * 3 + (mod == '3' ? 0 : mod == '2' ? 1 : 2)); r.obs(h.m->np); r.obs((int)t.size()); snprintf(r.note, sizeof r.note, "returns %d", rc);
      if (rc > 1 || rc < -1) { r.fail("code|the reader returns %d", rc); return; }
      if (rc == 1) { std::string e = consistent(h); if (!e.empty()) { r.fail("%s", e.c_str()); return; } }
      h.free();
    };
  };
  return s;
}
static std::vector<Scenario> C20v(bool) { return {badvtk()}; }
int main(int argc, char **argv) { return driver(argc, argv, {{"C20", C20}, {"C20v", C20v}}); }
