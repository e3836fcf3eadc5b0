// Options that restrict what remeshing may do (C06).
#include "jobs.hpp"

// Vertices carry a mark in their reference so that they can be recognised in the output.
static const int MARK = 100000;
static bool marks(Job &j) { for (int i = 1; i <= j.in.np(); i++) j.in.p[i].ref = MARK + i; return true; }
static bool has(const Job &j, P p) { return j.par(p, 0) > 0; }
template <int N> static std::multiset<std::array<int, N>> sets(const std::vector<El<N>> &v, const std::vector<int> *mp = 0) {
  std::multiset<std::array<int, N>> s; for (auto &t : v) { auto a = t.v; if (mp) for (int &x : a) x = (*mp)[x]; s.insert(sorted(a)); } return s;
}
static std::string o_opt(const Job &j, const Out &o) {
  const PM &in = j.in, &out = o.m; double tol = 1e-9 * bbox(in);
  std::vector<char> used(in.p.size(), 0); for (auto &t : in.te) for (int v : t.v) used[v] = 1; for (auto &t : in.tr) for (int v : t.v) used[v] = 1;
  int nused = 0; for (int i = 1; i <= in.np(); i++) nused += used[i];
  std::vector<int> to(out.p.size(), 0); std::vector<int> cnt(in.p.size(), 0); // output vertex -> input vertex
  for (int i = 1; i <= out.np(); i++) if (out.p[i].ref > MARK && out.p[i].ref <= MARK + in.np()) to[i] = out.p[i].ref - MARK, cnt[to[i]]++;
  bool surf = j.mod == 's';
  if (has(j, P_nomove)) {
    for (int i = 1; i <= out.np(); i++) if (to[i] && cnt[to[i]] == 1) {
      if (dist(out.X(i), in.X(to[i])) > tol) return fmt("nomove|vertex %d has moved by %.3g", to[i], dist(out.X(i), in.X(to[i])));
    }
  }
  if (has(j, P_noinsert)) {
    if (out.np() > nused) return fmt("noinsert|%d vertices in use before, %d after", nused, out.np());
    for (int i = 1; i <= out.np(); i++) if (!to[i]) return fmt("noinsert|an output vertex is none of the input ones");
    if (out.np() < nused) return fmt("noinsert|%d vertices in use before, %d after", nused, out.np());
    if (has(j, P_noswap)) {
      if (j.mod == '3' && sets<4>(out.te, &to) != sets<4>(in.te)) return "noswap|the tetrahedra changed although nothing may be inserted nor swapped";
      if (sets<3>(out.tr, &to) != sets<3>(in.tr)) return "noswap|the triangles changed although nothing may be inserted nor swapped";
    }
  }
  if (has(j, P_nosurf) && j.mod == '3') {
    std::map<std::array<int, 3>, int> a; for (auto &t : in.tr) a[sorted(t.v)] = t.ref;
    if (out.tr.size() != in.tr.size()) return fmt("nosurf|%zu boundary triangles before, %zu after", in.tr.size(), out.tr.size());
    for (auto &t : out.tr) { std::array<int, 3> s; for (int i = 0; i < 3; i++) s[i] = to[t.v[i]]; auto it = a.find(sorted(s)); if (it == a.end()) return "nosurf|an output boundary triangle is none of the input ones"; if (it->second != t.ref) return fmt("nosurf|a boundary triangle changed reference %d -> %d", it->second, t.ref);
      for (int v : t.v) if (dist(out.X(v), in.X(to[v])) > tol) return "nosurf|a boundary vertex has moved"; }
    for (auto &t : out.tr) if (t.req && !j.names.size()) return "nosurf|boundary triangles come back as required";
  }
  if (has(j, P_nosurf) && j.mod == '2') {
    std::map<std::array<int, 2>, int> a; for (auto &t : in.ed) a[key(t.v[0], t.v[1])] = t.ref;
    size_t n = 0; for (auto &t : out.ed) n += !(t.req && !a.count(key(to[t.v[0]], to[t.v[1]]))); // (edges of required triangles are listed too)
    if (n != in.ed.size()) return fmt("nosurf|%zu boundary edges before, %zu after", in.ed.size(), n);
    for (auto &t : out.ed) { if (t.req && !a.count(key(to[t.v[0]], to[t.v[1]]))) continue; auto it = a.find(key(to[t.v[0]], to[t.v[1]])); if (it == a.end()) return "nosurf|an output boundary edge is none of the input ones"; if (it->second != t.ref) return fmt("nosurf|a boundary edge changed reference %d -> %d", it->second, t.ref);
      for (int v : t.v) if (dist(out.X(v), in.X(to[v])) > tol) return "nosurf|a boundary vertex has moved"; }
  }
  (void)surf;
  return "";
}
static std::vector<Feature> restr(char mod) { // every non empty subset of the restrictions
  std::vector<Feature> F; static const P ps[4] = {P_noinsert, P_noswap, P_nomove, P_nosurf}; static const char *ns[4] = {"noinsert", "noswap", "nomove", "nosurf"};
  for (int b = 1; b < (mod == 's' ? 8 : 16); b++) { if (b == 2) continue; // noswap alone cannot be judged from outside
    std::string n; for (int k = 0; k < 4; k++) if (b >> k & 1) n += std::string(n.empty() ? "" : "-") + ns[k];
    F.push_back({n, "", "32s", [b](Job &j) { for (int k = 0; k < 4; k++) if (b >> k & 1) j.pars.push_back({ps[k], 1}); return marks(j); }}); }
  return F;
}
static std::vector<Scenario> C06(bool) {
  std::vector<Scenario> R;
  for (char mod : {'3', '2', 's'}) {
    std::vector<Feature> X, all = feats_option(mod) + pickf(feats_entity(mod), {"reqv-smooth", "reqe-smooth", "reqt-one", "reqk-one", "corner-smooth", "ridge-smooth", "unused", "flip", "patchref"}) ;
    for (auto &f : all) { static const std::set<std::string> no = {"noinsert", "noswap", "nomove", "nosurf", "xreg", "opnbdy", "3dmedit"}; if (!no.count(f.name)) X.push_back(f); }
    if (mod == '3') { Cfg d{mod, gl(mod, {"cube48", "bimat"}), {pickf(feats_size(mod), {"hsiz.22"})[0]}, X, o_opt, restr(mod)}; R.push_back(scen("restrict-3+1", "every subset of the restricting options x further options or tags", d, 1, 2)); }
    if (mod == 's') { Cfg d{mod, gl(mod, {"s_cube48", "s_bimat", "s_ball", "s_saddle", "s_planemat"}), {none(), pickf(feats_size(mod), {"hsiz.22"})[0], pickf(feats_size(mod), {"anirot"})[0]}, X, o_opt, restr(mod)}; R.push_back(scen("restrict-s+1", "every subset of the restricting options x further options or tags", d, 1, 2)); }
    Cfg c{mod, gall(mod), {none(), pickf(feats_size(mod), {"hsiz.7"})[0], pickf(feats_size(mod), {"hsiz.22"})[0], pickf(feats_size(mod), {"isopeak"})[0], pickf(feats_size(mod), {"anirot"})[0], pickf(feats_size(mod), {"optim"})[0]}, X, o_opt, restr(mod)};
    static std::string nm[3]; int k = mod == '3' ? 0 : mod == '2' ? 1 : 2; nm[k] = std::string("restrict-") + mod;
    R.push_back(scen(nm[k].c_str(), "every subset of the restricting options x every geometry x every base size x at most `bound` further options or tags", c, mod == '2' ? 1 : 0, mod == '2' ? 2 : 1));
  }
  return R;
}
int main(int argc, char **argv) { return driver(argc, argv, {{"C06", C06}}); }
