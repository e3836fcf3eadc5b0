// Files: what is written is what was in memory, what is read is what is in the file (C22 Medit, C23 Gmsh, C24 VTK, C25 tetgen / triangle).
#include "jobs.hpp"
#include "ioc.hpp"
using namespace io;
static std::string getnormals(H &h, Content &c, const std::map<int, V3> &want, double tol) { if (h.mod == '2') return ""; (void)c; for (auto &x : want) { double a, b, d; int rc = h.mod == '3' ? MMG3D_Get_normalAtVertex(h.m, x.first, &a, &b, &d) : MMGS_Get_normalAtVertex(h.m, x.first, &a, &b, &d); if (rc != 1) return fmt("normals|the normal at vertex %d cannot be read", x.first); V3 n = {{a, b, d}}; if (dist(n, x.second) > tol) return fmt("normals|the normal at vertex %d is %g %g %g instead of %g %g %g", x.first, a, b, d, x.second[0], x.second[1], x.second[2]); } return ""; }
static bool put_normals(H &h, const Content &c) { bool ok = true; if (h.mod != '2') for (auto &x : c.nrm) ok &= (h.mod == '3' ? MMG3D_Set_normalAtVertex(h.m, x.first, x.second[0], x.second[1], x.second[2]) : MMGS_Set_normalAtVertex(h.m, x.first, x.second[0], x.second[1], x.second[2])) == 1; return ok; }
// own file -> load -> compare ; save -> own reader -> compare ; load again -> compare
static Scenario medit(const char *name, char mod, bool fromfile, int bq, int bt) {
  Scenario s; s.name = name; s.rule = "every kind of entity, reference, tag and coordinate range (at most `bound` deviations) x file flavours; files are written and read by independent code"; s.bound_quick = bq; s.bound_thorough = bt;
  s.body = [=](Chooser &ch) -> Exec {
    Content c(mod == '2' ? 2 : 3); content(ch, mod, c, fromfile || true); Style st; int fl = fromfile ? ch.choose("flavour", 8) : 0; st.bin = fl == 1 || fl == 4 || fl == 5; st.swap = fl == 4 || fl == 6; if (fl == 6) { st.bin = true; st.ver = 1; } if (fl == 5 || fl == 7) st.ver = 1; if (fl == 2) { st.comments = true; st.order = 1; } if (fl == 3) { st.order = 2; st.noend = true; }
    int out = ch.choose("out", 2); int nm = ch.dev("name", 3); bool tie = st.ver == 1 && fl != 0;
    if (!fromfile) for (auto &q : c.m.qu) q.req = false;
    return [=](Rec &r) {
      Clean D; std::string f0 = D(st.bin ? "in.meshb" : "in.mesh"), f1 = D(out ? "out.meshb" : "out.mesh"), e; double t0 = tie ? 1e-6 : 1e-14, t1 = out ? (st.bin || !fromfile ? 0 : 0) : 1e-14; (void)t1;
      H h(mod, 40); r.trans(3);
      if (fromfile) { write_medit(f0, c, st); int rc = h.loadMesh(nm == 1 ? D("in").c_str() : f0.c_str()); if (rc != 1) { r.fail("load|loadMesh returns %d", rc); return; } }
      else { if (!h.put(c.m) || !put_normals(h, c)) { r.fail("harness|the mesh cannot be set"); return; } }
      Content want = c;
      Content g(c.m.dim);
      if (fromfile) { if (!h.get(g.m)) { r.fail("load|the mesh cannot be read back"); return; } e = what("load", cmp(want.m, g.m, t0)); if (e.empty()) e = what("load", getnormals(h, g, want.nrm, 1e-5)); if (!e.empty()) { r.fail("%s", e.c_str()); return; } }
      if (nm == 2 ? h.saveGeneric(f1.c_str(), h.met) != 1 : h.saveMesh(nm == 1 && out ? D("out").c_str() : f1.c_str()) != 1) { r.fail("save|saveMesh fails"); return; }
      Content w(c.m.dim); e = read_medit(f1, w); if (!e.empty()) { r.fail("save|the file cannot be read: %s", e.c_str()); return; }
      e = what("saved", cmp(want.m, w.m, tie ? 1e-6 : 1e-14)); if (!e.empty()) { r.fail("%s", e.c_str()); return; }
      H k(mod, 40); int rc = nm == 2 ? k.loadGeneric(f1.c_str()) : k.loadMesh(f1.c_str()); if (rc != 1) { r.fail("reload|loadMesh returns %d", rc); return; }
      if (!k.get(g.m)) { r.fail("reload|the mesh cannot be read back"); return; } e = what("reload", cmp(want.m, g.m, tie ? 1e-6 : 1e-14)); if (!e.empty()) { r.fail("%s", e.c_str()); return; }
      r.obs(hash_mesh(g.m)); r.nontrivial = 1; h.free(); k.free();
    };
  };
  return s;
}
// the result of a remeshing run: same file contents as what the API returns
static Scenario remeshed(const char *name, char mod, int bq, int bt) {
  Scenario s; s.name = name; s.rule = "every geometry, remeshed with at most `bound` options, saved in each format and read by independent code and by the library"; s.bound_quick = bq; s.bound_thorough = bt; s.leaf_timeout = 60;
  s.body = [=](Chooser &ch) -> Exec {
    auto G = geos(mod); int g = ch.choose("geo", (int)G.size()); ch.labels.back() = G[g].name; int out = ch.choose("out", 2); int sz = ch.dev("size", 4), req = ch.dev("req", 4), ani = sz == 3;
    return [=](Rec &r) {
      Clean D; auto G2 = geos(mod); PM in = G2[g].f(); if (req == 1 && !in.tr.empty()) in.tr[0].req = true; if (req == 2) in.p[1].req = true; if (req == 3 && !in.ed.empty()) in.ed[0].req = true;
      H h(mod, 100); if (!h.put(in)) { r.fail("harness|cannot set"); return; } if (sz == 1) h.set(P_hsiz, .3); if (sz == 2) h.set(P_hausd, .002); if (ani) { h.set(P_anisosize, 1); h.set(P_hmax, .4); } h.set(P_hgrad, 1.5);
      if (h.remesh() != 0) { r.fail("remesh|fails"); return; }
      Content g1(in.dim), w(in.dim); Sols s1; if (!h.get(g1.m) || !h.getsol(h.met, s1)) { r.fail("get|fails"); return; } if (mod == '2') for (auto &e : g1.m.ed) e.ridge = false; // ridges of 2D meshes are not stored in files
     
      std::string f1 = D(out ? "o.meshb" : "o.mesh"), fs = D(out ? "o.solb" : "o.sol"), e;
      if (h.saveMesh(f1.c_str()) != 1) { r.fail("save|saveMesh fails"); return; } if (!s1.v.empty() && h.saveSol(h.met, fs.c_str()) != 1) { r.fail("save|saveSol fails"); return; }
      e = read_medit(f1, w); if (!e.empty()) { r.fail("save|the file cannot be read: %s", e.c_str()); return; } r.trans(w.m.np());
      if (!(e = what("saved", cmp(g1.m, w.m, 1e-14))).empty()) { r.fail("%s", e.c_str()); return; }
      for (auto &x : w.nrm) if (norm(x.second) != 0 && std::fabs(norm(x.second) - 1) > 1e-6) { r.fail("saved|normal of length %g", norm(x.second)); return; }
      if (!s1.v.empty()) { std::vector<Sols> S; int np; if (!(e = read_sol(fs, S, np, in.dim)).empty()) { r.fail("save|the solution cannot be read: %s", e.c_str()); return; } if (!(e = what("saved", cmp_sols({s1}, S, 1e-14, in.dim))).empty()) { r.fail("%s", e.c_str()); return; } }
      H k(mod, 100); if (k.loadMesh(f1.c_str()) != 1) { r.fail("reload|fails"); return; } Content g2(in.dim); if (!k.get(g2.m)) { r.fail("reload|cannot be read back"); return; } if (mod == '2') for (auto &e : g2.m.ed) e.ridge = false; if (!(e = what("reload", cmp(g1.m, g2.m, 1e-14))).empty()) { r.fail("%s", e.c_str()); return; }
      if (!s1.v.empty()) { if (k.loadSol(k.met, fs.c_str()) != 1) { r.fail("reload|loadSol fails"); return; } Sols s2; if (!k.getsol(k.met, s2)) { r.fail("reload|the solution cannot be read back"); return; } if (!(e = what("reload", cmp_sols({s1}, {s2}, 1e-14, in.dim))).empty()) { r.fail("%s", e.c_str()); return; } }
      if (!(e = what("reload", getnormals(k, g2, w.nrm, 1e-5))).empty()) { r.fail("%s", e.c_str()); return; }
      r.obs(hash_mesh(g1.m)); r.nontrivial = 1; h.free(); k.free();
    };
  };
  return s;
}
// solution files
static Scenario solfiles(const char *name, char mod, int bq, int bt) {
  Scenario s; s.name = name; s.rule = "every list of up to three fields of every type x values x file flavours, as a metric or as a list of fields"; s.bound_quick = bq; s.bound_thorough = bt;
  s.body = [=](Chooser &ch) -> Exec {
    int n = 1 + ch.choose("fields", 3); std::vector<int> ty; for (int i = 0; i < n; i++) ty.push_back(1 + ch.choose("type", 3)); int val = ch.dev("values", 4), out = ch.choose("out", 2), fl = ch.dev("flavour", 6), single = n == 1 ? ch.choose("single", 2) : 0, geo = ch.dev("geo", 2), extra = ch.dev("name", 3);
    return [=](Rec &r) {
      Clean D; PM m = mod == '3' ? (geo ? cube5() : tetra1()) : mod == '2' ? grid2(1 + geo, 1) : surface_of(geo ? cube5() : tetra1()); int dim = m.dim, np = m.np(); auto S = mkfields(ty, np, dim, val); Style st; st.bin = fl == 1 || fl == 3 || fl == 5; st.swap = fl == 3; st.ver = fl == 4 || fl == 5 ? 1 : 2; st.comments = fl == 2;
      if (st.ver == 1 && val == 2) return; double tol = st.ver == 1 ? 1e-6 : 1e-14; std::string e, f0 = D(st.bin ? "in.solb" : "in.sol"), f1 = D(out ? "o.solb" : "o.sol"); write_sol(f0, S, np, dim, st); H h(mod, 40); h.put(m); r.trans(3); std::vector<Sols> G(n); int np2 = 0;
      auto list = [&](H &x, const char *fn, MMG5_pSol &sol, bool load) { if (load) return BY_(x, MMG3D_loadAllSols(x.m, &sol, fn), MMG2D_loadAllSols(x.m, &sol, fn), MMGS_loadAllSols(x.m, &sol, fn)); return BY_(x, MMG3D_saveAllSols(x.m, &sol, fn), MMG2D_saveAllSols(x.m, &sol, fn), MMGS_saveAllSols(x.m, &sol, fn)); };
      auto getall = [&](H &x, MMG5_pSol sol, std::vector<Sols> &o) { int ns = 0, types[MMG5_NSOLS_MAX]; MMG5_int q = 0; if (BY_(x, MMG3D_Get_solsAtVerticesSize(x.m, &sol, &ns, &q, types), MMG2D_Get_solsAtVerticesSize(x.m, &sol, &ns, &q, types), MMGS_Get_solsAtVerticesSize(x.m, &sol, &ns, &q, types)) != 1) return false; o.clear(); for (int i = 0; i < ns; i++) { Sols f; f.type = types[i]; f.v.resize((size_t)q * f.nc(dim)); if (BY_(x, MMG3D_Get_ithSols_inSolsAtVertices(sol, i + 1, f.v.data()), MMG2D_Get_ithSols_inSolsAtVertices(sol, i + 1, f.v.data()), MMGS_Get_ithSols_inSolsAtVertices(sol, i + 1, f.v.data())) != 1) return false; o.push_back(f); } return true; };
      std::string nm = extra == 1 ? D(st.bin ? "in.meshb" : "in.mesh") : f0;
      if (single) {
        if (ty[0] == 2) return; // vectors are no metric
        if (h.loadSol(h.met, nm.c_str()) != 1) { r.fail("load|loadSol fails"); return; } if (!h.getsol(h.met, G[0])) { r.fail("load|the field cannot be read back"); return; }
        if (!(e = what("load", cmp_sols(S, G, tol, dim))).empty()) { r.fail("%s", e.c_str()); return; } if (h.saveSol(h.met, f1.c_str()) != 1) { r.fail("save|saveSol fails"); return; }
      } else {
        MMG5_pSol sol = 0; if (list(h, nm.c_str(), sol, true) != 1) { r.fail("load|loadAllSols fails"); return; } if (!getall(h, sol, G)) { r.fail("load|the fields cannot be read back"); return; } if (!(e = what("load", cmp_sols(S, G, tol, dim))).empty()) { r.fail("%s", e.c_str()); return; } if (list(h, f1.c_str(), sol, false) != 1) { r.fail("save|saveAllSols fails"); return; }
      }
      if (!(e = read_sol(f1, G, np2, dim)).empty()) { r.fail("save|the file cannot be read: %s", e.c_str()); return; } if (np2 != np) { r.fail("save|%d entries for %d vertices", np2, np); return; } if (!(e = what("saved", cmp_sols(S, G, tol, dim))).empty()) { r.fail("%s", e.c_str()); return; }
      H k(mod, 40); k.put(m); G.assign(n, Sols()); if (single) { if (k.loadSol(k.met, f1.c_str()) != 1 || !k.getsol(k.met, G[0])) { r.fail("reload|loadSol fails"); return; } } else { MMG5_pSol sol = 0; if (list(k, f1.c_str(), sol, true) != 1 || !getall(k, sol, G)) { r.fail("reload|loadAllSols fails"); return; } }
      if (!(e = what("reload", cmp_sols(S, G, tol, dim))).empty()) { r.fail("%s", e.c_str()); return; } for (auto &x : S) r.obs((uint64_t)x.type * 31 + x.v.size()); r.obs(fl * 100 + out * 10 + val); r.nontrivial = 1;
    };
  };
  return s;
}
// ---------------------------------------------------------------- Gmsh
static int msh_load(H &h, const std::string &f, std::vector<Field> *F, MMG5_pSol *sol) { const char *c = f.c_str(); (void)F; if (sol) return BY_(h, MMG3D_loadMshMesh_and_allData(h.m, sol, c), MMG2D_loadMshMesh_and_allData(h.m, sol, c), MMGS_loadMshMesh_and_allData(h.m, sol, c)); return BY_(h, MMG3D_loadMshMesh(h.m, h.met, c), MMG2D_loadMshMesh(h.m, h.met, c), MMGS_loadMshMesh(h.m, h.met, c)); }
static int msh_save(H &h, const std::string &f, MMG5_pSol *sol) { const char *c = f.c_str(); if (sol) return BY_(h, MMG3D_saveMshMesh_and_allData(h.m, sol, c), MMG2D_saveMshMesh_and_allData(h.m, sol, c), MMGS_saveMshMesh_and_allData(h.m, sol, c)); return BY_(h, MMG3D_saveMshMesh(h.m, h.met, c), MMG2D_saveMshMesh(h.m, h.met, c), MMGS_saveMshMesh(h.m, h.met, c)); }
static Scenario gmsh(const char *name, char mod, int bq, int bt) {
  Scenario s; s.name = name; s.rule = "every kind of entity, reference, coordinate range and list of fields (at most `bound` deviations) x file flavours; files are written and read by independent code"; s.bound_quick = bq; s.bound_thorough = bt;
  s.body = [=](Chooser &ch) -> Exec {
    Content c(mod == '2' ? 2 : 3); content(ch, mod, c, false); int fl = ch.choose("flavour", 8); MshStyle st; st.bin = fl == 1 || fl == 3 || fl == 5 || fl == 6; st.swap = fl == 3; st.blocks = fl == 5 || fl == 3; st.points = fl != 2 && fl != 6; st.shuffle = fl == 4; if (fl == 7 || fl == 6) st.tags = 4; 
    int ff = ch.dev("fields", 6), fields = (ff + (fl == 0 || fl == 3 ? 1 : fl == 1 ? 4 : fl == 5 ? 5 : 2)) % 6, out = ch.choose("out", 2), val = ch.dev("values", 3), ver = ch.dev("float", 2); if (ver) st.ver = 4;
    return [=](Rec &r) {
      Clean D; std::vector<int> ty; bool all = fields >= 3; if (fields == 1) ty = {1}; if (fields == 2) ty = {3}; if (fields == 3) ty = {1}; if (fields == 4) ty = {2, 1}; if (fields == 5) ty = {1, 2, 1}; auto S = mkfields(ty, c.m.np(), c.m.dim, val); std::vector<Field> F; for (size_t i = 0; i < S.size(); i++) { F.push_back({all ? fmt("field%zu", i) : "size:metric", S[i]}); }
      if (ver && val == 2) return; PM want = c.m; if (!st.points) for (int i = 1; i <= want.np(); i++) want.p[i].ref = 0; if (mod == '2' || mod == '3') {} double t0 = ver ? 1e-6 : 1e-14; std::string e, f0 = D(st.bin ? "in.mshb" : "in.msh"), f1 = D(out ? "out.mshb" : "out.msh");
      write_msh(f0, c.m, F, st); H h(mod, 40); MMG5_pSol sol = 0; r.trans(3); int rc = msh_load(h, f0, 0, all ? &sol : 0); if (rc != 1) { r.fail("load|loadMshMesh returns %d", rc); return; }
      PM g(c.m.dim); if (!h.get(g)) { r.fail("load|the mesh cannot be read back"); return; } if (!(e = what("load", cmp(want, g, t0, false))).empty()) { r.fail("%s", e.c_str()); return; }
      std::vector<Sols> G; auto got = [&](H &x, MMG5_pSol q) { if (all) return allsols(x, q, c.m.dim, G); G.assign(F.size(), Sols()); return F.empty() || x.getsol(x.met, G[0]); };
      if (!got(h, sol)) { r.fail("load|the fields cannot be read back"); return; } if (!(e = what("load", cmp_sols(S, G, t0, c.m.dim))).empty()) { r.fail("%s", e.c_str()); return; }
      if (msh_save(h, f1, all ? &sol : 0) != 1) { r.fail("save|saveMshMesh fails"); return; } PM w(c.m.dim); std::vector<Field> W; if (!(e = read_msh(f1, w, W)).empty()) { r.fail("save|the file cannot be read: %s", e.c_str()); return; }
      if (!(e = what("saved", cmp(want, w, t0, false))).empty() || !(e = what("saved", cmp_sols(S, strip(W), out ? t0 : 1e-5, c.m.dim))).empty()) { r.fail("%s", e.c_str()); return; }
      for (size_t i = 0; i < F.size(); i++) if (W[i].name.find(all ? fmt("field%zu", i) : ":metric") == std::string::npos) { r.fail("saved|the field %s is written as %s", F[i].name.c_str(), W[i].name.c_str()); return; }
      H k(mod, 40); sol = 0; if (msh_load(k, f1, 0, all ? &sol : 0) != 1) { r.fail("reload|loadMshMesh fails"); return; } if (!k.get(g) || !got(k, sol)) { r.fail("reload|cannot be read back"); return; } if (!(e = what("reload", cmp(want, g, t0, false))).empty() || !(e = what("reload", cmp_sols(S, G, out ? t0 : 1e-5, c.m.dim))).empty()) { r.fail("%s", e.c_str()); return; }
      r.obs(hash_mesh(g)); r.obs(fields * 8 + fl); r.nontrivial = 1;
    };
  };
  return s;
}
static std::vector<Scenario> C23(bool) { return {gmsh("gmsh-3", '3', 1, 2), gmsh("gmsh-s", 's', 1, 2), gmsh("gmsh-2", '2', 1, 2)}; }
static std::vector<Scenario> C22(bool) {
  std::vector<Scenario> v; for (char mod : {'3', 's', '2'}) { std::string n(1, mod); v.push_back(medit(("file-" + n).c_str(), mod, true, 1, 2)); v.push_back(medit(("api-" + n).c_str(), mod, false, 1, 2)); v.push_back(remeshed(("remeshed-" + n).c_str(), mod, 1, 2)); v.push_back(solfiles(("fields-" + n).c_str(), mod, 1, 2)); } return v;
}
int main(int argc, char **argv) { return driver(argc, argv, {{"C22", C22}, {"C23", C23}}); }
