// Remeshing jobs: geometry x size x features, and the oracles on what comes out.
#pragma once
#include <cstdarg>
#include "feat.hpp"
using namespace mc;

struct Out { int ret = -1; PM m; Sols met; bool hasmet = false; };
static bool run(const Job &j, Rec &r, Out &o) {
  H h(j.mod);
  if (!h.m) { r.fail("api|no handle"); return false; }
  if (!feed(h, j)) { r.fail("api|the library refuses the input (%s)", j.names.c_str()); return false; }
  if (h.check() != 1) { r.fail("api|Chk_meshData refuses the input (%s)", j.names.c_str()); return false; }
  if (const char *d = getenv("MC_DUMP")) h.saveMesh((std::string(d) + ".in.mesh").c_str());
  o.ret = h.remesh();
  snprintf(r.note, sizeof r.note, "ret %d", o.ret);
  if (o.ret == MMG5_STRONGFAILURE) { r.fail("refused|remeshing returns MMG5_STRONGFAILURE on a valid input"); return false; }
  if (o.ret != MMG5_SUCCESS) { r.fail("refused|remeshing returns %d on a valid input", o.ret); return false; }
  if (!h.get(o.m)) { r.fail("api|the result cannot be read back"); return false; }
  if (const char *d = getenv("MC_DUMP")) h.saveMesh((std::string(d) + ".out.mesh").c_str());
  o.hasmet = h.getsol(h.met, o.met) && !o.met.v.empty();
  snprintf(r.note, sizeof r.note, "ret %d %s", o.ret, dims(o.m).c_str());
  r.obs(hash_mesh(o.m)); r.trans(o.m.te.size() + o.m.tr.size());
  r.nontrivial = hash_mesh(o.m) != hash_mesh(j.in);
  h.free();
  return true;
}

// ------------------------------------------------------------------------------------------------- domain
static std::string on_ref(const PM &in, const PM &out, const Job &j, double tol) { // every output boundary entity lies on the input entities of its reference
  if (j.mod == '2') {
    for (auto &e : out.ed) { if (e.req && (e.ref == 0 || (e.ref >= 70 && e.ref < 90))) continue; V3 mid = 0.5 * (out.X(e.v[0]) + out.X(e.v[1])); int ref = e.ref; double d = 0;
      for (const V3 &x : {out.X(e.v[0]), mid, out.X(e.v[1])}) d = std::max(d, dist_to_edges(in, x, [&](const Edg &f) { return j.notria || f.ref == ref; }));
      if (d > tol) return fmt("drift|an edge of reference %d is at distance %.3g of the input edges of this reference", ref, d); }
    return "";
  }
  for (auto &t : out.tr) {
    V3 c = (1. / 3) * (out.X(t.v[0]) + out.X(t.v[1]) + out.X(t.v[2])); double d = 0;
    for (const V3 &x : {out.X(t.v[0]), out.X(t.v[1]), out.X(t.v[2]), c}) d = std::max(d, dist_to_tris(in, x, j.notria ? -1 : t.ref));
    if (d > tol) return fmt("drift|a triangle of reference %d is at distance %.3g of the input triangles of this reference", t.ref, d);
  }
  return "";
}
static std::string covered(const PM &in, const PM &out, const Job &j, double tol) {
  if (j.mod == '2') {
    for (auto &e : in.ed) { V3 mid = 0.5 * (in.X(e.v[0]) + in.X(e.v[1])); for (const V3 &x : {in.X(e.v[0]), mid, in.X(e.v[1])}) { double d = dist_to_edges(out, x, [&](const Edg &f) { return j.notria || f.ref == e.ref; }); if (d > tol) return fmt("lost|an input edge of reference %d is at distance %.3g of the output edges of this reference", e.ref, d); } }
    return "";
  }
  for (auto &t : in.tr) { V3 c = (1. / 3) * (in.X(t.v[0]) + in.X(t.v[1]) + in.X(t.v[2])); for (const V3 &x : {in.X(t.v[0]), in.X(t.v[1]), in.X(t.v[2]), c}) { double d = dist_to_tris(out, x, j.notria ? -1 : t.ref); if (d > tol) return fmt("lost|an input triangle of reference %d is at distance %.3g of the output triangles of this reference", t.ref, d); } }
  return "";
}
static std::map<int, double> sum1(const std::map<int, double> &a) { double s = 0; for (auto &x : a) s += x.second; return {{0, s}}; }
static std::string domain(const Job &j, const PM &out) {
  PM in = j.in; std::string e; bool flat = j.g->flat && !j.tweaked;
  for (auto &t : in.te) if (in.vol(t) < 0) std::swap(t.v[2], t.v[3]); // "flip" feature
  if (j.mod == '2') for (auto &t : in.tr) if (in.area2(t) < 0) std::swap(t.v[1], t.v[2]);
  if (!j.g->flat && (j.par(P_nosizreq, 0) > 0 || j.par(P_hgrad, 1) < 0)) { // the size at required entities is imposed around them and takes precedence over hausd
    bool any = false; for (int i = 1; i <= in.np(); i++) any |= in.p[i].req; for (auto &x : in.ed) any |= x.req; for (auto &x : in.tr) any |= x.req; for (auto &x : in.te) any |= x.req;
    if (any) return "";
  }
  double L = bbox(in), hausd = std::max(j.par(P_hausd, .01), .01);
  // the surface of a curved domain is rebuilt: it may leave the input polyhedron by the sagitta of the input
  double tol = flat ? 1e-6 * L : .12 * L + hausd, rel = flat ? 1e-7 : .3, ab = 1e-12 + (flat ? 0 : .05);
  if (j.mod == '3') { if (!(e = cmp_measure("volume|volume", vol_by_ref(in), vol_by_ref(out), rel, ab)).empty()) return e; }
  auto a0 = area_by_ref(in), a1 = area_by_ref(out); if (j.notria && j.mod == '3') { a0 = sum1(a0); a1 = sum1(a1); }
  if (!(e = cmp_measure("area|area", a0, a1, rel, ab)).empty()) return e;
  if (j.g->flat || !j.tweaked) { // (the regularisation smooths a coarse curved surface)
    if (!(e = on_ref(in, out, j, tol)).empty()) return e;
    if (!(e = covered(in, out, j, tol)).empty()) return e;
  }
  if (j.mod != '2') {
    // user edges (reference lines, ridges, required edges) keep reference and length
    if (flat) {
      std::map<int, double> l0, l1; for (auto &x : len_by_ref(in)) if ((x.first >= 70 && x.first < 80) || x.first >= 200) l0[x.first] = x.second;
      for (auto &x : len_by_ref(out)) if (l0.count(x.first)) l1[x.first] = x.second;
      if (!(e = cmp_measure("edges|length of the edges", l0, l1, 1e-6, 1e-9)).empty()) return e;
    }
    if (flat && j.par(P_angle, 1) > 0) { // ridges and corners
      double lim = j.par(P_dangle, 45); Surf s(in); std::map<int, int> deg; std::set<std::array<int, 2>> ue;
      for (auto &x : in.ed) ue.insert(key(x.v[0], x.v[1]));
      PM R(3), A(3); R.p = A.p = in.p;
      for (auto &x : s.e) { double an = s.angle(x.first); bool sharp = an > lim; Edg q; q.v = x.first;
        if (sharp) { R.ed.push_back(q); deg[x.first[0]]++; deg[x.first[1]]++; }
        if (sharp || an < 0 || s.special(x.first) || ue.count(x.first)) A.ed.push_back(q); }
      for (auto &q : R.ed) { V3 mid = 0.5 * (in.X(q.v[0]) + in.X(q.v[1])); if (dist_to_edges(out, mid, [](const Edg &f) { return f.ridge; }) > 1e-6 * L) return fmt("ridge|the sharp edge at (%g %g %g) is not an output ridge", mid[0], mid[1], mid[2]); }
      bool reqs = false; for (auto &t : in.tr) reqs |= t.req; for (auto &t : in.te) reqs |= t.req;
      if (!reqs) for (auto &q : out.ed) if (q.ridge) { V3 mid = 0.5 * (out.X(q.v[0]) + out.X(q.v[1])); if (dist_to_edges(A, mid) > 1e-6 * L) return fmt("ridge|an output ridge at (%g %g %g) lies on no input feature line", mid[0], mid[1], mid[2]); }
      for (auto &d : deg) if (d.second >= 3) { int k = find_at(out, in.X(d.first), 1e-6 * L); if (!k) return fmt("corner|the corner at (%g %g %g) has moved", in.X(d.first)[0], in.X(d.first)[1], in.X(d.first)[2]);
        if (!out.p[k].corner && !out.p[k].req) return fmt("corner|the corner at (%g %g %g) is not reported as a corner", in.X(d.first)[0], in.X(d.first)[1], in.X(d.first)[2]);
        if (out.p[k].ref != in.p[d.first].ref) return fmt("corner|the corner at (%g %g %g) changed reference %d -> %d", in.X(d.first)[0], in.X(d.first)[1], in.X(d.first)[2], in.p[d.first].ref, out.p[k].ref); }
    }
  }
  for (int i = 1; i <= in.np(); i++) if (in.p[i].corner) { int k = find_at(out, in.X(i), 1e-6 * L); if (!k) return fmt("corner|corner vertex %d set by the user has moved", i); if (!out.p[k].corner) return fmt("corner|corner vertex %d lost its flag", i); }
  // topology
  if (j.mod != 's') { auto c0 = comps_by_ref(in), c1 = comps_by_ref(out); if (c0 != c1) return "topology|the number of connected parts of a subdomain changed"; }
  if (j.mod != '2') { PM i2 = in; if (!(topo(i2) == topo(out))) { Topo a = topo(i2), b = topo(out); 
      if (!(a.comps == b.comps && a.euler == b.euler && a.loops == b.loops && (a.nonmanifold > 0) == (b.nonmanifold > 0))) return fmt("topology|boundary: components %d -> %d, Euler %d -> %d, loops %d -> %d", a.comps, b.comps, a.euler, b.euler, a.loops, b.loops); } }
  return "";
}

// ----------------------------------------------------------------------------------------------- required
static std::string required(const Job &j, const PM &out) {
  const PM &in = j.in; double tol = 1e-8 * bbox(in); std::map<std::array<int, 2>, const Edg *> oe; std::map<std::array<int, 3>, const Tri *> ot; std::map<std::array<int, 4>, const Tet *> ok; std::set<std::array<int, 2>> me;
  for (auto &e : out.ed) oe[key(e.v[0], e.v[1])] = &e;
  for (auto &t : out.tr) { ot[sorted(t.v)] = &t; for (int i = 0; i < 3; i++) me.insert(key(t.v[i], t.v[(i + 1) % 3])); }
  for (auto &t : out.te) { ok[sorted(t.v)] = &t; for (int a = 0; a < 4; a++) for (int b = 0; b < a; b++) me.insert(key(t.v[a], t.v[b])); }
  std::vector<int> at(in.p.size(), -1); auto V = [&](int i) { if (at[i] < 0) at[i] = find_at(out, in.X(i), tol); return at[i]; };
  for (int i = 1; i <= in.np(); i++) if (in.p[i].req) {
    int k = V(i); if (!k) return fmt("vertex|required vertex %d is gone", i);
    if (!out.p[k].req) return fmt("vertex|required vertex %d is no longer reported as required", i);
    if (out.p[k].ref != in.p[i].ref) return fmt("vertex|required vertex %d changed reference %d -> %d", i, in.p[i].ref, out.p[k].ref);
  }
  for (auto &e : in.ed) if (e.req) {
    int a = V(e.v[0]), b = V(e.v[1]); if (!a || !b) return fmt("edge|an end of required edge %d %d moved", e.v[0], e.v[1]);
    if (!me.count(key(a, b))) return fmt("edge|required edge %d %d is gone", e.v[0], e.v[1]);
    auto it = oe.find(key(a, b)); if (it == oe.end()) return fmt("edge|required edge %d %d is not listed in the output", e.v[0], e.v[1]);
    if (!it->second->req) return fmt("edge|required edge %d %d is no longer reported as required", e.v[0], e.v[1]);
    if (it->second->ref != e.ref) return fmt("edge|required edge %d %d changed reference %d -> %d", e.v[0], e.v[1], e.ref, it->second->ref);
  }
  for (auto &t : in.tr) if (t.req) {
    std::array<int, 3> a{{V(t.v[0]), V(t.v[1]), V(t.v[2])}}; if (!a[0] || !a[1] || !a[2]) return fmt("triangle|a vertex of required triangle %d %d %d moved", t.v[0], t.v[1], t.v[2]);
    auto it = ot.find(sorted(a)); if (it == ot.end()) return fmt("triangle|required triangle %d %d %d is gone", t.v[0], t.v[1], t.v[2]);
    if (!it->second->req) return fmt("triangle|required triangle %d %d %d is no longer reported as required", t.v[0], t.v[1], t.v[2]);
    if (it->second->ref != t.ref) return fmt("triangle|required triangle changed reference %d -> %d", t.ref, it->second->ref);
  }
  for (auto &t : in.te) if (t.req) {
    std::array<int, 4> a{{V(t.v[0]), V(t.v[1]), V(t.v[2]), V(t.v[3])}}; if (!a[0] || !a[1] || !a[2] || !a[3]) return "tetra|a vertex of a required tetrahedron moved";
    auto it = ok.find(sorted(a)); if (it == ok.end()) return "tetra|a required tetrahedron is gone";
    if (!it->second->req) return "tetra|a required tetrahedron is no longer reported as required";
    if (it->second->ref != t.ref) return fmt("tetra|required tetrahedron changed reference %d -> %d", t.ref, it->second->ref);
  }
  return "";
}
// nothing that the user did not ask for becomes required
static std::string notrequired(const Job &j, const PM &out) {
  bool any = false; for (auto &p : j.in.p) any |= p.req; for (auto &e : j.in.ed) any |= e.req; for (auto &t : j.in.tr) any |= t.req; for (auto &t : j.in.te) any |= t.req;
  if (any || j.par(P_nosurf, 0) > 0) return "";
  if (!strcmp(j.g->name, "touchhole") || !strcmp(j.g->name, "s_touchhole")) return ""; // the edge along which the domain is pinched is frozen by the library
  for (auto &t : out.tr) if (t.req) return "spurious|an output triangle is required although nothing was";
  for (auto &t : out.te) if (t.req) return "spurious|an output tetrahedron is required although nothing was";
  for (auto &t : out.ed) if (t.req) return "spurious|an output edge is required although nothing was";
  return "";
}

// --------------------------------------------------------------------------------------------- jobs
typedef std::function<std::string(const Job &, const Out &)> Oracle;
struct Cfg { char mod; std::vector<int> geos; std::vector<Feature> base, feats; Oracle oracle; std::vector<Feature> must; };
static int gidx(char mod, const char *n) { auto &g = geos(mod); for (size_t i = 0; i < g.size(); i++) if (!strcmp(g[i].name, n)) return (int)i; fprintf(stderr, "no geometry %s\n", n); exit(3); }
static std::vector<int> gl(char mod, std::vector<const char *> n) { std::vector<int> r; for (auto x : n) r.push_back(gidx(mod, x)); return r; }
static std::vector<int> gall(char mod) { std::vector<int> r; for (size_t i = 0; i < geos(mod).size(); i++) r.push_back((int)i); return r; }
static std::vector<Feature> pickf(const std::vector<Feature> &F, std::vector<const char *> n) { std::vector<Feature> r; for (auto x : n) for (auto &f : F) if (f.name == x) r.push_back(f); return r; }
static Feature none() { return {"default", "", "32s", [](Job &) { return true; }}; }

static Scenario scen(const char *name, const char *rule, Cfg c, int bq, int bt) {
  Scenario s; s.name = name; s.rule = rule; s.bound_quick = bq; s.bound_thorough = bt; s.leaf_timeout = 60;
  s.body = [c](Chooser &ch) -> Exec {
    Job j; j.mod = c.mod; int g = c.geos[ch.choose("geo", (int)c.geos.size())]; j.g = &geos(c.mod)[g]; j.in = j.g->f(); ch.labels.back() = std::string("geo:") + j.g->name;
    bool ok = true;
    auto one = [&](const std::vector<Feature> &F, const char *w) { if (F.empty()) return; int b = ch.choose(w, (int)F.size()); ch.labels.back() = F[b].name; if (!F[b].group.empty() && !j.groups.insert(F[b].group).second) ok = false; if (F[b].name != "default") j.names += (j.names.empty() ? "" : "+") + F[b].name; if (ok) ok = F[b].apply(j); };
    one(c.must, "must"); one(c.base, "size");
    if (ok) ok = pick_features(ch, c.feats, j); else { int from = 0; for (int q = 0; q < 1; q++) if (!ch.dev("f", 1)) break; (void)from; }
    if (!ok) return nullptr;
    if (j.par(P_hsiz, 0) > 0 && (j.par(P_hsiz, 0) > j.par(P_hmax, 1e9) || j.par(P_hsiz, 0) < j.par(P_hmin, 0))) return nullptr; // documented as refused
    if (j.par(P_optimles, 0) > 0 && j.names.find("ani") != std::string::npos) return nullptr; // documented as unavailable
    return [c, j](Rec &r) {
      Out o; if (!run(j, r, o)) return;
      std::string e = c.oracle(j, o); if (!e.empty()) r.fail("%s", e.c_str());
    };
  };
  return s;
}
static std::string o_valid(const Job &j, const Out &o) {
  std::string e = valid(j, o.m); if (!e.empty()) return e;
  if (o.hasmet && (int)o.met.v.size() != o.m.np() * o.met.nc(o.m.dim)) return "metric|the size map does not have one entry per vertex";
  for (double x : o.met.v) if (!std::isfinite(x)) return "metric|the size map holds a non finite value";
  if (o.met.type == MMG5_Scalar) for (double x : o.met.v) if (!(x > 0)) return fmt("metric|size %g at a vertex", x);
  return "";
}
static std::string o_domain(const Job &j, const Out &o) { return domain(j, o.m); }
static std::string o_req(const Job &j, const Out &o) { std::string e = required(j, o.m); return e.empty() ? notrequired(j, o.m) : e; }
static std::string o_surf(const Job &j, const Out &o) { std::string e = o_valid(j, o); if (e.empty()) e = domain(j, o.m); if (e.empty()) e = o_req(j, o); return e; }


