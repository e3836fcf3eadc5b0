// The geometries and size fields the scenarios draw from.
#pragma once
#include "api.hpp"

struct Geo { const char *name; std::function<PM()> f; bool flat; };
inline V3 jit(V3 x, double a) { // fixed smooth deformation that keeps the boundary of the unit cube
  double s = std::sin(M_PI * x[0]) * std::sin(M_PI * x[1]) * std::sin(M_PI * x[2]);
  return {{x[0] + a * s, x[1] - .7 * a * s, x[2] + .5 * a * s}};
}
inline V3 todisc(double u, double v) { double a = std::max(std::fabs(u), std::fabs(v)), n = std::sqrt(u * u + v * v); if (n > 0) { u *= a / n; v *= a / n; } return {{u, v, 0}}; }
inline std::vector<Geo> &geos3() {
  static std::vector<Geo> g = {
    {"tet", [] { return tetra1(); }, true},
    {"tets2same", [] { return tetra2(1); }, true},
    {"tets2diff", [] { return tetra2(2); }, true},
    {"cube5", [] { return cube5(); }, true},
    {"cube6", [] { return grid(1, 1, 1); }, true},
    {"cube48", [] { return grid(2, 2, 2, nullptr, [](double x, double y, double z) { return jit({{x / 2, y / 2, z / 2}}, .15); }); }, true},
    {"bimat", [] { return grid(2, 2, 2, [](int i, int, int) { return i ? 2 : 1; }); }, true},
    {"quadmat", [] { return grid(2, 2, 1, [](int i, int j, int) { return 1 + i + 2 * j; }); }, true},
    {"ell", [] { return grid(2, 2, 1, [](int i, int j, int) { return i && j ? -1 : 1; }); }, true},
    {"octa", [] { return octa(); }, true},
    {"ball48", [] { return ball(2); }, false},
    {"ballmat", [] { return ball(4, [](int i, int j, int k) { return (i == 1 || i == 2) && (j == 1 || j == 2) && (k == 1 || k == 2) ? 2 : 1; }); }, false},
    {"ring", [] { return grid(3, 3, 1, [](int i, int j, int) { return i == 1 && j == 1 ? -1 : 1; }); }, true},
    {"touch", [] { return grid(2, 2, 1, [](int i, int j, int) { return i == j ? 1 : 2; }); }, true}, // materials that meet along one edge
    {"touchhole", [] { return grid(2, 2, 1, [](int i, int j, int) { return i == j ? 1 : -1; }); }, true}, // domain pinched along one edge
    {"cavity", [] { return grid(3, 3, 3, [](int i, int j, int k) { return i == 1 && j == 1 && k == 1 ? -1 : 1; }); }, true},
    {"inclusion", [] { return grid(3, 3, 3, [](int i, int j, int k) { return i == 1 && j == 1 && k == 1 ? 2 : 1; }); }, true},
    {"plate", [] { return grid(4, 4, 1); }, true},
    {"cyl", [] { return grid(4, 4, 1, nullptr, [](double x, double y, double z) { V3 d = todisc(x / 2 - 1, y / 2 - 1); d[2] = z; return d; },
                        [](const V3 &n, const V3 &, int, int b) { return b >= 0 ? 10 : n[2] > .9 * norm(n) ? 2 : n[2] < -.9 * norm(n) ? 3 : 1; }); }, false},
    {"twoparts", [] { return grid(3, 1, 1, [](int i, int, int) { return i == 1 ? -1 : i + 1; }); }, true}, // two disconnected parts
    {"nested", [] { return grid(4, 4, 1, [](int i, int j, int) { return (i == 1 || i == 2) && (j == 1 || j == 2) ? 3 : 5; }); }, true},
  };
  return g;
}

inline PM disc2(int n, std::function<int(int, int)> cell = nullptr) { return grid2(n, n, cell, [n](double x, double y) { return todisc(2 * x / n - 1, 2 * y / n - 1); }); }
inline std::vector<Geo> &geos2() {
  static std::vector<Geo> g = {
    {"tria1", [] { PM m(2); m.addv({{0, 0, 0}}); m.addv({{1, 0, 0}}); m.addv({{0, 1, 0}}); Tri t; t.v = {{1, 2, 3}}; t.ref = 1; m.tr.push_back(t); edges2d(m, [](const V3 &d, const V3 &, int, int) { return d[1] == 0 ? 1 : d[0] == 0 ? 3 : 2; }); return m; }, true},
    {"square2", [] { return grid2(1, 1); }, true},
    {"square32", [] { return grid2(4, 4, nullptr, [](double x, double y) { x /= 4; y /= 4; double s = std::sin(M_PI * x) * std::sin(M_PI * y); return V3{{x + .1 * s, y - .07 * s, 0}}; }); }, true},
    {"bimat2", [] { return grid2(2, 2, [](int i, int) { return i ? 2 : 1; }); }, true},
    {"quadmat2", [] { return grid2(2, 2, [](int i, int j) { return 1 + i + 2 * j; }); }, true},
    {"checker", [] { return grid2(2, 2, [](int i, int j) { return i == j ? 1 : 2; }); }, true}, // materials meeting at a vertex
    {"ell2", [] { return grid2(2, 2, [](int i, int j) { return i && j ? -1 : 1; }); }, true},
    {"hole2", [] { return grid2(3, 3, [](int i, int j) { return i == 1 && j == 1 ? -1 : 1; }); }, true},
    {"inclusion2", [] { return grid2(3, 3, [](int i, int j) { return i == 1 && j == 1 ? 2 : 1; }); }, true},
    {"touch2", [] { return grid2(2, 2, [](int i, int j) { return i == j ? 1 : -1; }); }, true}, // pinched at a vertex
    {"twoparts2", [] { return grid2(3, 1, [](int i, int) { return i == 1 ? -1 : i + 1; }); }, true},
    {"strip2", [] { return grid2(8, 1); }, true},
    {"disc2", [] { return disc2(4); }, false},
    {"discmat2", [] { return disc2(4, [](int i, int j) { return (i == 1 || i == 2) && (j == 1 || j == 2) ? 4 : 1; }); }, false},
    {"nested2", [] { return grid2(6, 6, [](int i, int j) { int a = std::min(std::min(i, 5 - i), std::min(j, 5 - j)); return a == 0 ? 1 : a == 1 ? 2 : 3; }); }, true},
  };
  return g;
}
// triangulated torus
inline PM torus(int n, int k, double R, double r) {
  PM m(3); for (int i = 0; i < n; i++) for (int j = 0; j < k; j++) { double a = 2 * M_PI * i / n, b = 2 * M_PI * j / k; m.addv({{(R + r * cos(b)) * cos(a), (R + r * cos(b)) * sin(a), r * sin(b)}}); }
  auto V = [&](int i, int j) { return (i % n) * k + (j % k) + 1; };
  for (int i = 0; i < n; i++) for (int j = 0; j < k; j++) { Tri t; t.ref = 1; t.v = {{V(i, j), V(i + 1, j), V(i + 1, j + 1)}}; m.tr.push_back(t); t.v = {{V(i, j), V(i + 1, j + 1), V(i, j + 1)}}; m.tr.push_back(t); }
  return m;
}
inline PM gsurf(const char *name) { for (auto &g : geos3()) if (!strcmp(g.name, name)) return surface_of(g.f()); return PM(); }
inline std::vector<Geo> &geosS() {
  static std::vector<Geo> g = {
    {"s_tet", [] { return gsurf("tet"); }, true},
    {"s_cube", [] { return gsurf("cube6"); }, true},
    {"s_cube48", [] { return gsurf("cube48"); }, true},
    {"s_ell", [] { return gsurf("ell"); }, true},
    {"s_bimat", [] { return gsurf("bimat"); }, true}, // non manifold: box with an inner wall
    {"s_ring", [] { return gsurf("ring"); }, true},
    {"s_octa", [] { return gsurf("octa"); }, true},
    {"s_ball", [] { PM v = ball(4); return surface_of(v); }, false},
    {"s_cyl", [] { return gsurf("cyl"); }, false},
    {"s_cavity", [] { return gsurf("cavity"); }, true}, // two closed components
    {"s_touchhole", [] { return gsurf("touchhole"); }, true}, // four faces on one edge
    {"s_torus", [] { return torus(14, 10, 1, .4); }, false},
    {"s_plane", [] { return lift(grid2(3, 3), [](const V3 &x) { return x; }); }, true}, // open
    {"s_planemat", [] { return lift(grid2(3, 3, [](int i, int j) { return i == 1 && j == 1 ? 2 : 1; }), [](const V3 &x) { return V3{{x[0], .6 * x[1], .8 * x[1]}}; }); }, true},
    {"s_planehole", [] { return lift(grid2(3, 3, [](int i, int j) { return i == 1 && j == 1 ? -1 : 1; }), [](const V3 &x) { return x; }); }, true},
    {"s_fold", [] { return lift(grid2(4, 2), [](const V3 &x) { return V3{{x[0] < .5 ? x[0] : .5, x[1], x[0] < .5 ? 0 : x[0] - .5}}; }); }, true}, // open, one ridge
    {"s_saddle", [] { return lift(grid2(4, 4), [](const V3 &x) { double u = x[0] - .5, v = x[1] - .5; return V3{{x[0], x[1], .5 * (u * u - v * v)}}; }); }, false},
    {"s_tjunction", [] { PM a = lift(grid2(2, 2), [](const V3 &x) { return x; }); // three sheets on one line
                         a.ed.clear(); int n0 = a.np(); for (int k = 1; k < 3; k++) for (int j = 0; j < 3; j++) a.addv({{.5, j * .5, k * .5}});
                         int base[3]; for (int j = 0; j < 3; j++) base[j] = find_at(a, {{.5, j * .5, 0}}, 1e-9);
                         auto V = [&](int j, int k) { return k ? n0 + (k - 1) * 3 + j + 1 : base[j]; };
                         for (int k = 0; k < 2; k++) for (int j = 0; j < 2; j++) { Tri t; t.ref = 3; t.v = {{V(j, k), V(j + 1, k), V(j + 1, k + 1)}}; a.tr.push_back(t); t.v = {{V(j, k), V(j + 1, k + 1), V(j, k + 1)}}; a.tr.push_back(t); }
                         return a; }, true},
    {"s_twoparts", [] { return gsurf("twoparts"); }, true},
  };
  return g;
}
inline std::vector<Geo> &geos(char mod) { return mod == '3' ? geos3() : mod == '2' ? geos2() : geosS(); }
