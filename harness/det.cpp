// Results depend on the input alone (C16); a handle can be used again (C17).
#include "jobs.hpp"
#include <malloc.h>

// ------------------------------------------------------------------------------------------ C16
static long faketime = 0;
extern "C" time_t time(time_t *t) { time_t v = (time_t)(1700000000 + faketime); if (t) *t = v; return v; }
extern "C" clock_t clock() { return (clock_t)(faketime * 1000); }
struct Task { std::string name; std::function<bool(H &)> prepare; std::function<int(H &)> go; char mod; };
struct Res { int ret = -9; PM m; Sols met, ls; uint64_t h() const { uint64_t x = mix(hash_mesh(m), (uint64_t)ret); for (const Sols *s : {&met, &ls}) { x = mix(x, s->v.size()); for (double d : s->v) { uint64_t b; memcpy(&b, &d, 8); x = mix(x, b); } } return x; } };
static bool readall(H &h, Res &o) { if (!h.get(o.m)) return false; for (int i = 1; i <= o.m.np(); i++) for (double &x : o.m.p[i].x) if (x == 0) x = 0; if (h.met->np == o.m.np()) h.getsol(h.met, o.met); return true; }
static bool perform(const Task &t, Res &o, int mem = 64, bool verbose = false) { H h(t.mod, mem, verbose); if (!t.prepare(h)) { h.free(); return false; } o.ret = t.go(h); bool ok = readall(h, o); h.free(); return ok; }
__attribute__((noinline)) static void stain(unsigned char c) { volatile unsigned char b[2000000]; for (size_t i = 0; i < sizeof b; i++) b[i] = c; }
static void heapstain(unsigned char c) { std::vector<void *> v; for (size_t s : {24, 40, 72, 136, 264, 1032, 4104, 20000, 100000, 130000}) for (int k = 0; k < 60; k++) { void *p = malloc(s); memset(p, c, s); v.push_back(p); } for (void *p : v) free(p); }
static Task remesh_task(const Job &j) { return {j.names, [j](H &h) { return feed(h, j); }, [](H &h) { return h.remesh(); }, j.mod}; }
static Task ls_task(char mod, int f, int opt) {
  PM in = mod == '3' ? grid(2, 2, 2, nullptr, [](double a, double b, double c) { return V3{{a / 2, b / 2, c / 2}}; }) : grid2(4, 4, nullptr, [](double a, double b) { return V3{{a / 4, b / 4, 0}}; });
  if (mod == 's') in = lift(in, [](const V3 &x) { return V3{{x[0], x[1], 0}}; });
  auto F = [f](const V3 &x) { return f == 0 ? x[0] - .43 : f == 1 ? dist(x, {{.5, .5, .45}}) - .41 : f == 2 ? x[0] + .7 * x[1] - .83 : std::fabs(x[0] - .52) - .23; };
  return {"ls", [=](H &h) { if (h.set(opt == 3 && mod == '3' ? P_isosurf : P_iso, 1) != 1) return false; if (opt == 1) h.set(P_hsiz, .3); if (opt == 2) h.set(P_rmc, .1); if (opt == 4) h.set(P_noinsert, 1); return h.put(in) && h.setsol(h.ls, iso_field(in, F)) == 1; }, [](H &h) { return h.lsdisc(); }, mod};
}

static Task gen_task2(int k, int opt) { // long edges among points
  PM in(2); int n = 7; std::map<std::array<int, 2>, int> id; for (int j = 0; j <= n; j++) for (int i = 0; i <= n; i++) { bool b = !i || !j || i == n || j == n; double w = b ? 0 : .03; in.addv({{i / (double)n + w * std::sin(5. * i + 3. * j + k), j / (double)n + w * std::cos(4. * i - 7. * j + k), 0}}); id[{{i, j}}] = in.np(); }
  auto E = [&](int a, int b, int r) { Edg e; e.v[0] = a; e.v[1] = b; e.ref = r; in.ed.push_back(e); };
  for (int i = 0; i < n; i++) { E(id[{{i, 0}}], id[{{i + 1, 0}}], 1); E(id[{{n, i}}], id[{{n, i + 1}}], 1); E(id[{{i + 1, n}}], id[{{i, n}}], 1); E(id[{{0, i + 1}}], id[{{0, i}}], 1); }
  if (k % 3 == 0) { E(id[{{0, 2}}], id[{{n, 5}}], 2); E(id[{{0, 4}}], id[{{4, n}}], 3); } else if (k % 3 == 1) { E(id[{{2, 0}}], id[{{3, n}}], 2); E(id[{{5, 0}}], id[{{4, n}}], 3); } else { E(id[{{0, 1}}], id[{{n, 6}}], 2); E(id[{{1, 0}}], id[{{n, 3}}], 2); E(id[{{0, 3}}], id[{{5, n}}], 2); }
  return {"meshgen", [=](H &h) { if (opt == 1) h.set(P_hsiz, .15); if (opt == 2) h.set(P_noinsert, 1); if (opt == 3) h.set(P_opnbdy, 1); return h.put(in); }, [](H &h) { return h.meshgen(); }, '2'};
}
static Task gen_task(int k, int opt) { if (k >= 9) return gen_task2(k - 9, opt); // edges for the mesh generator
  PM b = grid2(3, 3, nullptr, [](double x, double y) { return V3{{x / 3 + .05 * std::sin(3 * y), y / 3 - .04 * std::sin(2 * x), 0}}; }); PM in(2); in.p = b.p; std::set<std::array<int, 2>> S; int q = 0;
  for (auto &t : b.tr) for (int i = 0; i < 3; i++) if (S.insert(key(t.v[i], t.v[(i + 1) % 3])).second) { bool out = false; for (auto &e : b.ed) out |= key(e.v[0], e.v[1]) == key(t.v[i], t.v[(i + 1) % 3]); q++; if (out || (k && q % (1 + k) == 0)) { Edg e; e.v[0] = t.v[i]; e.v[1] = t.v[(i + 1) % 3]; e.ref = out ? 1 : 2; in.ed.push_back(e); } }
  return {"meshgen", [=](H &h) { if (opt == 1) h.set(P_hsiz, .15); if (opt == 2) h.set(P_noinsert, 1); if (opt == 3) h.set(P_opnbdy, 1); return h.put(in); }, [](H &h) { return h.meshgen(); }, '2'};
}
static void same(const Task &t, Rec &r) {
  Res a; stain(0); if (!perform(t, a)) { r.fail("api|the input is refused"); return; } r.obs(a.h()); r.nontrivial = a.ret == 0; snprintf(r.note, sizeof r.note, "ret %d %s", a.ret, dims(a.m).c_str()); r.trans(a.m.te.size() + a.m.tr.size());
  auto cmp = [&](const char *w, const Res &b) { if (b.h() == a.h()) return true; int n = 0; for (int i = 1; i <= std::min(a.m.np(), b.m.np()); i++) n += a.m.p[i].x != b.m.p[i].x; r.fail("differs|%s: ret %d %s / ret %d %s, %d vertices moved, metric %s", w, a.ret, dims(a.m).c_str(), b.ret, dims(b.m).c_str(), n, a.met.v == b.met.v ? "same" : "differs"); return false; };
  auto others = [&] { for (char o : {'3', '2', 's'}) { Res c; Job j; j.mod = o; j.g = &geos(o)[gidx(o, o == '3' ? "tets2diff" : o == '2' ? "bimat2" : "s_bimat")]; j.in = j.g->f(); for (auto &f : pickf(feats_size(o) + feats_option(o), {"anirot", "dangle30", "nreg", "hausd-big", "hgradreq"})) f.apply(j); perform(remesh_task(j), c); } };
  auto both = [&](Res &b, int mem, bool verb) { Job j; j.mod = t.mod; j.g = &geos(t.mod)[0]; j.in = j.g->f(); for (auto &f : pickf(feats_size(t.mod), {"isopeak"})) f.apply(j); H h(t.mod), g(t.mod, mem, verb); if (!feed(h, j) || !t.prepare(g)) { r.fail("api|two handles at a time: the input is refused"); return false; } h.remesh(); b.ret = t.go(g); readall(g, b); g.free(); h.free(); return true; };
  auto shift = [&] { faketime += 86400 * 37 + 11; srand(4242); for (int i = 0; i < 1234; i++) rand(); };
  auto one = [&] {
    { Res b; mallopt(M_PERTURB, 0xa5); perform(t, b); mallopt(M_PERTURB, 0); if (!cmp("other contents of fresh memory", b)) return; }
    { Res b; heapstain(0x3f); stain(0x3f); perform(t, b); if (!cmp("other contents of memory", b)) return; }
    { Res b; stain(0xff); heapstain(0xff); shift(); perform(t, b); if (!cmp("another time of day", b)) return; }
    { Res b; others(); perform(t, b); if (!cmp("after runs on other meshes", b)) return; }
    { Res b; if (!both(b, 64, false)) return; if (!cmp("with another handle in use", b)) return; }
    { Res b; perform(t, b, 400); if (!cmp("with more memory allowed", b)) return; }
    { Res b; perform(t, b, 64, true); if (!cmp("with messages printed", b)) return; }
  };
  { Res b, c; perform(t, b); mallopt(M_PERTURB, 0xa5); others(); heapstain(0x3f); stain(0xff); shift(); if (!both(c, 400, true)) return; mallopt(M_PERTURB, 0); if (b.h() == a.h() && c.h() == a.h()) return; Res d = c; // something shows: find out what
    c = b; if (!cmp("the same run again", c)) return; one(); cmp("another history, time and memory contents", d); }
}
static std::vector<Scenario> C16(bool) {
  std::vector<Scenario> R; static std::string nm[3];
  for (char mod : {'3', '2', 's'}) {
    std::vector<const char *> G = mod == '3' ? std::vector<const char *>{"cube48", "bimat", "ball48", "ell", "tets2diff"} : mod == '2' ? std::vector<const char *>{"quadmat2", "discmat2", "inclusion2", "ring2"} : std::vector<const char *>{"s_bimat", "s_ball", "s_tjunction"};
    std::vector<std::string> have; for (auto &g : geos(mod)) have.push_back(g.name); std::vector<const char *> G2; for (auto g : G) if (std::find(have.begin(), have.end(), g) != have.end()) G2.push_back(g);
    std::vector<Feature> F = feats_entity(mod) + feats_option(mod) + feats_size(mod), S = pickf(feats_size(mod), {"hsiz.35", "isopeak", "anivar", "optim"}); S.insert(S.begin(), none()); if (mod == '3') S.erase(S.begin() + 2); if (mod == 's') { S.erase(S.begin() + 4); S.erase(S.begin() + 1); }
    Scenario s; int k = mod == '3' ? 0 : mod == '2' ? 1 : 2; nm[k] = std::string("same-") + mod; s.name = nm[k]; s.rule = "geometry x size x at most `bound` features; each run is repeated after every perturbation of what is not its input"; s.bound_quick = mod == '3' ? 0 : 1; s.bound_thorough = mod == '3' ? 1 : 2; s.leaf_timeout = 120;
    s.body = [=](Chooser &ch) -> Exec {
      Job j; j.mod = mod; const char *g = G2[ch.choose("geo", (int)G2.size())]; j.g = &geos(mod)[gidx(mod, g)]; j.in = j.g->f(); ch.labels.back() = std::string("geo:") + g; int q = ch.choose("size", (int)S.size()); ch.labels.back() = S[q].name; if (!S[q].group.empty()) j.groups.insert(S[q].group); j.names = S[q].name; bool ok = S[q].apply(j); if (!pick_features(ch, F, j)) ok = false; if (!ok) return nullptr;
      if (j.par(P_optimles, 0) > 0 && j.names.find("ani") != std::string::npos) return nullptr;
      return [j](Rec &r) { same(remesh_task(j), r); };
    };
    R.push_back(s);
    if (mod == '3') { Scenario e = s; e.name = "same-3+1"; e.bound_quick = 1; e.body = [=](Chooser &ch) -> Exec { Job j; j.mod = '3'; const char *g = "bimat"; j.g = &geos('3')[gidx('3', g)]; j.in = j.g->f(); j.names = "hsiz.35"; int q = ch.choose("size", 2); auto Z = pickf(feats_size('3'), {"hsiz.35", "anirot"}); j.groups.insert("size"); ch.labels.back() = Z[q].name; bool ok = Z[q].apply(j); j.names = Z[q].name; if (!pick_features(ch, F, j) || !ok) return nullptr; if (j.par(P_optimles, 0) > 0 && j.names.find("ani") != std::string::npos) return nullptr; return [j](Rec &r) { same(remesh_task(j), r); }; }; R.push_back(e); }
  }
  Scenario l; l.name = "same-ls"; l.rule = "module x level-set function x option, repeated after every perturbation"; l.leaf_timeout = 60; l.body = [](Chooser &ch) -> Exec { char mod = "32s"[ch.choose("module", 3)]; int f = ch.choose("function", 4), o = ch.choose("opt", 5); return [=](Rec &r) { same(ls_task(mod, f, o), r); }; }; R.push_back(l);
  Scenario g; g.name = "same-meshgen"; g.rule = "arrangement of edges x option, repeated after every perturbation"; g.leaf_timeout = 60; g.body = [](Chooser &ch) -> Exec { int k = ch.choose("edges", 21), o = ch.choose("opt", 4); return [=](Rec &r) { same(gen_task(k, o), r); }; }; R.push_back(g);
  return R;
}

// ------------------------------------------------------------------------------------------ C17
static const char *OPN[] = {"again", "isomet", "anisomet", "hsiz", "optim", "noinsert", "reset-mesh", "hausd", "file"};
static bool dropmet(H &h, const Job &j, const PM &a, bool first) { if (first) return true; h.free(); H g(j.mod, 128); for (auto &p : j.pars) g.set(p.first, p.second); h = g; return h.put(a); } // a metric can only be forgotten with its handle
static Scenario chain(const char *name, char mod, std::vector<const char *> G, std::vector<Feature> first, std::vector<Feature> F, int len, int lent, bool thorough, int bq, int bt) {
  Scenario s; s.name = name; s.rule = "geometry x entity tags x every sequence of library calls of the given length on one handle; the mesh is checked after each call"; s.bound_quick = bq; s.bound_thorough = bt; s.leaf_timeout = 90; int L = thorough ? lent : len;
  s.body = [=](Chooser &ch) -> Exec {
    Job j; j.mod = mod; int g = ch.choose("geo", (int)G.size()); j.g = &geos(mod)[gidx(mod, G[g])]; j.in = j.g->f(); ch.labels.back() = G[g]; bool ok = true;
    if (first.size()) { int k = ch.choose("tag", (int)first.size()); ch.labels.back() = first[k].name; ok = first[k].apply(j); }
    if (F.size() && !pick_features(ch, F, j)) ok = false;
    std::vector<int> ops; for (int i = 0; i < L; i++) { ops.push_back(ch.choose("op", 9)); ch.labels.back() = OPN[ops[i]]; } if (!ok) return nullptr; for (int o : ops) if (o == 2 && j.par(P_optimles, 0) > 0) return nullptr;
    return [=](Rec &r) {
      H h(mod, 128); if (!feed(h, j)) { r.fail("api|the library refuses the input"); return; } Out o; o.m = j.in; r.nontrivial = 1;
      for (int i = 0; i < L; i++) {
        int op = ops[i]; h.set(P_hsiz, 0); h.set(P_optim, 0); h.set(P_noinsert, 0); bool ok = true; double nv = o.m.np();
        PM a = o.m; // what the handle holds
        auto F = [](const V3 &x) { return .25 + .2 * std::fabs(x[0]); };
        if (op == 1) ok = h.setsol(h.met, iso_field(a, F)) == 1;
        if (op == 2) ok = h.setsol(h.met, aniso_field(a, [](const V3 &) { return rot(.4, .3, .6, .5); })) == 1;
        if (op == 3) ok = dropmet(h, j, a, !i) && h.set(P_hsiz, .35) == 1; if (op == 4) ok = dropmet(h, j, a, !i) && h.set(P_optim, 1) == 1; if (op == 5) h.set(P_noinsert, 1); if (op == 7) h.set(P_hausd, .05);
        if (op == 6) { Sols m; bool has = i && h.getsol(h.met, m) && !m.v.empty(); ok = h.put(a); if (ok && has) ok = h.setsol(h.met, m) == 1; }
        if (op == 8) { std::string f = errfile() + ".again.mesh"; Sols m; bool has = i && h.getsol(h.met, m) && !m.v.empty(); ok = h.saveMesh(f.c_str()) == 1; if (has) ok = ok && h.saveSol(h.met, (errfile() + ".again.sol").c_str()) == 1; H g(mod, 128); for (auto &p : j.pars) g.set(p.first, p.second); ok = ok && g.loadMesh(f.c_str()) == 1; if (has) ok = ok && g.loadSol(g.met, (errfile() + ".again.sol").c_str()) == 1; h.free(); h = g; }
        if (!ok) { r.fail("api|call %d (%s): preparation fails", i + 1, OPN[op]); return; }
        int ret = h.remesh(); if (ret != MMG5_SUCCESS) { r.fail("refused|call %d (%s) returns %d", i + 1, OPN[op], ret); return; }
        if (!h.get(o.m)) { r.fail("api|call %d (%s): the mesh cannot be read", i + 1, OPN[op]); return; } o.hasmet = h.getsol(h.met, o.met) && !o.met.v.empty(); r.state(hash_mesh(o.m)); r.trans();
        if (op == 5 && o.m.np() > nv) { r.fail("noinsert|call %d: %d vertices become %d", i + 1, (int)nv, o.m.np()); return; }
        if (!o.hasmet) { r.fail("nomet|call %d (%s): no sizes are returned", i + 1, OPN[op]); return; } for (double v : o.met.v) if (!std::isfinite(v)) { r.fail("met|call %d (%s): a size is not a number", i + 1, OPN[op]); return; }
        std::string e = o_surf(j, o); if (!e.empty()) { r.fail("%s (after call %d, %s)", e.c_str(), i + 1, OPN[op]); return; }
      }
      r.obs(hash_mesh(o.m)); snprintf(r.note, sizeof r.note, "%s", dims(o.m).c_str()); h.free();
    };
  };
  return s;
}
static std::vector<Scenario> C17(bool t) {
  auto P3 = pickf(feats_entity('3'), {"reqv-smooth", "reqe-sharp", "reqt-one", "reqk-one"}), P2 = pickf(feats_entity('2'), {"reqv-inside", "reqe-smooth", "reqt-one"}), Ps = pickf(feats_entity('s'), {"reqv-smooth", "reqe-sharp", "reqt-one"}); P3.insert(P3.begin(), none()); P2.insert(P2.begin(), none()); Ps.insert(Ps.begin(), none());
  return {chain("chain-3", '3', {"cube48", "bimat"}, {none(), P3[3]}, {}, 2, 3, t, 0, 0), chain("chain-3-tags", '3', {"cube5", "tets2diff"}, P3, feats_option('3'), 1, 2, t, 1, 1), chain("chain-2", '2', {"quadmat2", "discmat2"}, P2, {}, 3, 4, t, 0, 0), chain("chain-s", 's', {"s_bimat", "s_ball"}, Ps, {}, 2, 3, t, 0, 0)};
}
int main(int argc, char **argv) { return driver(argc, argv, {{"C16", C16}, {"C17", C17}}); }
