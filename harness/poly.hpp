// Generators of convex polyhedra and exact (double) mass properties.
#ifndef VF_POLY_HPP
#define VF_POLY_HPP
#include "geo.hpp"
struct Poly { std::vector<D3> v; std::vector<std::vector<uint32_t>> f; const char *kind = ""; };
inline D3 poly_normal(const Poly &p, size_t f) { auto &x = p.f[f]; D3 n; for (size_t i = 1; i + 1 < x.size(); ++i) n = n + dcross(p.v[x[i]] - p.v[x[0]], p.v[x[i + 1]] - p.v[x[0]]); return dnorm(n); }
// Faces counter-clockwise seen from outside.
inline Poly rnd_poly(vf::rng &r, bool affine = true) {
    Poly p; int k = (int)r.below(6);
    auto ring = [&](int n, double y, double s) { double ph = r.uni(0, 1); for (int i = 0; i < n; ++i) { double a = 2 * M_PI * (i + ph) / n; p.v.push_back({s * std::cos(a), y, s * std::sin(a)}); } };
    if (k == 0) { p.kind = "box"; for (int i = 0; i < 8; ++i) p.v.push_back({i & 1 ? 1.0 : -1.0, i & 2 ? 1.0 : -1.0, i & 4 ? 1.0 : -1.0}); p.f = {{0, 4, 6, 2}, {1, 3, 7, 5}, {0, 1, 5, 4}, {2, 6, 7, 3}, {0, 2, 3, 1}, {4, 5, 7, 6}}; }
    else if (k == 1) { p.kind = "prism"; int n = r.range(3, 9); double ph = r.uni(0, 1), t = r.chance(0.5) ? 1 : r.uni(0.3, 1.6); for (int s = 0; s < 2; ++s) for (int i = 0; i < n; ++i) { double a = 2 * M_PI * (i + ph) / n, q = s ? t : 1; p.v.push_back({q * std::cos(a), s ? 1.0 : -1.0, q * std::sin(a)}); }
        std::vector<uint32_t> b, u; for (int i = 0; i < n; ++i) { b.push_back(i); u.push_back(2 * n - 1 - i); } p.f.push_back(b); p.f.push_back(u); for (int i = 0; i < n; ++i) { uint32_t j = (i + 1) % n; p.f.push_back({(uint32_t)i, (uint32_t)(n + i), n + j, j}); } }
    else if (k == 2) { p.kind = "pyramid"; int n = r.range(3, 8); ring(n, -0.5, 1); p.v.push_back({r.uni(-0.5, 0.5), 1, r.uni(-0.5, 0.5)}); std::vector<uint32_t> b; for (int i = 0; i < n; ++i) b.push_back(i); p.f.push_back(b); for (int i = 0; i < n; ++i) p.f.push_back({(uint32_t)((i + 1) % n), (uint32_t)i, (uint32_t)n}); }
    else if (k == 3) { p.kind = "bipyramid"; int n = r.range(3, 7); ring(n, 0, 1); p.v.push_back({0, r.uni(0.5, 1.5), 0}); p.v.push_back({0, -r.uni(0.5, 1.5), 0}); for (uint32_t i = 0; i < (uint32_t)n; ++i) { uint32_t j = (i + 1) % n; p.f.push_back({j, i, (uint32_t)n}); p.f.push_back({i, j, (uint32_t)n + 1}); } }
    else if (k == 4) { p.kind = "tetrahedron"; p.v = {{1, 1, 1}, {-1, -1, 1}, {-1, 1, -1}, {1, -1, -1}}; p.f = {{0, 2, 1}, {0, 1, 3}, {0, 3, 2}, {1, 2, 3}}; }
    else { p.kind = "hull"; int n = r.range(5, 14); for (int i = 0; i < n;) { D3 d{r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)}; double l = dlen(d); if (l < 0.1 || l > 1) continue; d = d / l; bool close = false; for (auto &o : p.v) close = close || ddist(o, d) < 0.25; if (close) { if (r.chance(0.02)) { ++i; } continue; } p.v.push_back(d); ++i; }
        size_t m = p.v.size(); for (uint32_t a = 0; a < m; ++a) for (uint32_t b = a + 1; b < m; ++b) for (uint32_t d = b + 1; d < m; ++d) { D3 nn = dcross(p.v[b] - p.v[a], p.v[d] - p.v[a]); bool pos = true, neg = true; for (uint32_t e = 0; e < m; ++e) if (e != a && e != b && e != d) { double s = ddot(nn, p.v[e] - p.v[a]); if (s > 0) neg = false; else pos = false; } if (neg) p.f.push_back({a, b, d}); else if (pos) p.f.push_back({a, d, b}); } }
    if (affine) { D3 s{r.uni(0.4, 1.4), r.uni(0.4, 1.4), r.uni(0.4, 1.4)}; DQ q1(rnd_quat(r)), q2(rnd_quat(r)); D3 s2{r.uni(0.6, 1.2), r.uni(0.6, 1.2), r.uni(0.6, 1.2)}; for (auto &x : p.v) { x = D3{x.x * s.x, x.y * s.y, x.z * s.z}; x = drot(q1, x); x = D3{x.x * s2.x, x.y * s2.y, x.z * s2.z}; x = drot(q2, x); } }
    // relabel the vertices and rotate the start of every face
    std::vector<uint32_t> perm(p.v.size()); for (uint32_t i = 0; i < perm.size(); ++i) perm[i] = i; r.shuffle(perm); std::vector<D3> nv(p.v.size()); for (size_t i = 0; i < perm.size(); ++i) nv[perm[i]] = p.v[i]; p.v = nv;
    for (auto &f : p.f) { for (auto &i : f) i = perm[i]; std::rotate(f.begin(), f.begin() + r.below(f.size()), f.end()); }
    r.shuffle(p.f);
    return p;
}
struct MassProps { double vol = 0; D3 c; double I[3][3] = {}; }; // inertia about the centroid per unit mass
inline MassProps poly_mass(const Poly &p) {
    MassProps m; D3 o; for (auto &v : p.v) o = o + v; o = o / (double)p.v.size(); double C[3][3] = {}; D3 s;
    for (auto &f : p.f) for (size_t i = 1; i + 1 < f.size(); ++i) { D3 t[3] = {p.v[f[0]] - o, p.v[f[i]] - o, p.v[f[i + 1]] - o}; double det = ddot(t[0], dcross(t[1], t[2])); m.vol += det / 6; s = s + (t[0] + t[1] + t[2]) * (det / 24);
        for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) { double q = 0; for (int x = 0; x < 3; ++x) for (int y = 0; y < 3; ++y) q += t[x][a] * t[y][b] * (x == y ? 2 : 1); C[a][b] += det * q / 120; } }
    D3 d = s / m.vol; m.c = o + d; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) C[a][b] = C[a][b] / m.vol - d[a] * d[b];
    double tr = C[0][0] + C[1][1] + C[2][2]; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) m.I[a][b] = (a == b ? tr : 0) - C[a][b];
    return m;
}
#endif
