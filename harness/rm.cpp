// Remeshing jobs: geometry x size x features, all three modules (C01 .. C05).
#include "jobs.hpp"

static const char *RULE = "every geometry of the list x every base size x every subset of at most `bound` features (flags on vertices, edges, triangles, tetrahedra, references, options, sizes)";
static std::vector<Scenario> C01(bool) {
  std::vector<Feature> all = feats_entity('3') + feats_option('3') + feats_size('3'), S = feats_size('3');
  Cfg a{'3', gall('3'), {none(), pickf(S, {"hsiz.35"})[0]}, all, o_valid, {}};
  Cfg b{'3', gl('3', {"cube48", "bimat"}), {pickf(S, {"hsiz.35"})[0]}, all, o_valid, {}};
  return {scen("valid-all", RULE, a, 1, 2), scen("valid-pairs", RULE, b, 2, 2)};
}
static std::vector<Scenario> C02(bool) {
  std::vector<Feature> all = feats_entity('3') + feats_option('3') + feats_size('3'), S = feats_size('3');
  Cfg a{'3', gall('3'), {none(), pickf(S, {"hsiz.35"})[0]}, all, o_domain, {}};
  Cfg b{'3', gl('3', {"quadmat", "ell"}), {pickf(S, {"hsiz.35"})[0]}, all, o_domain, {}};
  return {scen("domain-all", RULE, a, 1, 2), scen("domain-pairs", RULE, b, 2, 2)};
}
static std::vector<Feature> reqs(char mod) { return pickf(feats_entity(mod), {"reqv-smooth", "reqv-inside", "reqv-sharp", "reqe-smooth", "reqe-smooth2", "reqe-sharp", "reqt-one", "reqt-patch", "reqt-all", "reqk-one", "reqk-two"}); }
static std::vector<Scenario> C03(bool) {
  std::vector<Feature> all = feats_entity('3') + feats_option('3') + feats_size('3'), S = feats_size('3');
  Cfg a{'3', gl('3', {"cube48", "bimat", "touch", "cavity", "ball48", "cyl", "ell", "plate", "tets2diff"}), {none(), pickf(S, {"hsiz.22"})[0], pickf(S, {"anirot"})[0]}, all, o_req, reqs('3')};
  Cfg b{'3', gl('3', {"bimat"}), {pickf(S, {"hsiz.22"})[0]}, all, o_req, reqs('3')};
  Cfg c{'3', gl('3', {"ball48"}), {pickf(S, {"anirot"})[0]}, feats_option('3'), o_req, reqs('3')};
  Cfg n{'3', gall('3'), {none(), pickf(S, {"hsiz.22"})[0]}, {}, o_req, {none()}};
  const char *R = "every required feature x every geometry x every base size x every subset of at most `bound` further features";
  return {scen("required", R, a, 0, 1), scen("required+1", R, b, 1, 2), scen("required-curved+1", R, c, 1, 2), scen("nothing-required", RULE, n, 0, 0)};
}
static std::vector<Scenario> C04(bool) {
  std::vector<Feature> all = feats_entity('s') + feats_option('s') + feats_size('s'), S = feats_size('s');
  Cfg a{'s', gall('s'), {none(), pickf(S, {"hsiz.22"})[0], pickf(S, {"anirot"})[0]}, all, o_surf, {}};
  Cfg b{'s', gl('s', {"s_bimat"}), {pickf(S, {"hsiz.22"})[0]}, all, o_surf, {}};
  return {scen("surface", RULE, a, 1, 2), scen("surface-pairs", RULE, b, 2, 3)};
}
static std::vector<Scenario> C05(bool) {
  std::vector<Feature> all = feats_entity('2') + feats_option('2') + feats_size('2'), S = feats_size('2');
  Cfg a{'2', gall('2'), {none(), pickf(S, {"hsiz.22"})[0], pickf(S, {"anirot"})[0]}, all, o_surf, {}};
  return {scen("planar", RULE, a, 2, 3)};
}
int main(int argc, char **argv) { return driver(argc, argv, {{"C01", C01}, {"C02", C02}, {"C03", C03}, {"C04", C04}, {"C05", C05}}); }
