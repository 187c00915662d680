// Convex shapes as support functions and exact signed distances, in double.
#ifndef VF_CONVEX_HPP
#define VF_CONVEX_HPP
#include "poly.hpp"
#include <memory>
#include "edyn/shapes/shapes.hpp"
#include "edyn/shapes/convex_mesh.hpp"
enum SK { K_SPHERE, K_CYL, K_CAP, K_BOX, K_POLY, K_NUM };
static const char *kShapeName[] = {"sphere", "cylinder", "capsule", "box", "polyhedron"};
struct Conv { // a placed convex shape
    int kind = 0; double r = 0, h = 0; int ax = 0; D3 he; std::shared_ptr<edyn::convex_mesh> mesh; std::shared_ptr<edyn::rotated_mesh> rot; Poly poly; std::vector<D3> fn; // face normals of poly
    edyn::vector3 pos; edyn::quaternion orn; D3 p; DQ q;
    void place(edyn::vector3 a, edyn::quaternion b) { pos = a; orn = b; p = a; q = b; if (mesh) rot = std::make_shared<edyn::rotated_mesh>(edyn::make_rotated_mesh(*mesh, orn)); }
    D3 suppL(D3 d) const { switch (kind) { case K_SPHERE: return dnorm(d) * r; case K_CAP: { D3 a; a.at(ax) = d[ax] >= 0 ? h : -h; return a + dnorm(d) * r; }
        case K_CYL: { D3 a, o = d; o.at(ax) = 0; double l = dlen(o); a = l > 1e-14 ? o * (r / l) : D3(); a.at(ax) = d[ax] >= 0 ? h : -h; return a; }
        case K_BOX: return {d.x >= 0 ? he.x : -he.x, d.y >= 0 ? he.y : -he.y, d.z >= 0 ? he.z : -he.z};
        default: { double b = -1e300; D3 v; for (auto &x : poly.v) { double s = ddot(x, d); if (s > b) { b = s; v = x; } } return v; } } }
    D3 supp(D3 d) const { return dto_world(suppL(drot(dconj(q), d)), p, q); }
    double h_(D3 d) const { return ddot(supp(d), d); }
    // signed distance of a world point to the surface (negative inside)
    double sd(D3 w) const { D3 x = dto_object(w, p, q); switch (kind) { case K_SPHERE: return dlen(x) - r; case K_CAP: { D3 a; a.at(ax) = std::max(-h, std::min(h, x[ax])); return ddist(x, a) - r; }
        case K_CYL: { D3 o = x; o.at(ax) = 0; double dr = dlen(o) - r, dz = std::abs(x[ax]) - h; if (dr <= 0 && dz <= 0) return std::max(dr, dz); return std::hypot(std::max(0.0, dr), std::max(0.0, dz)); }
        case K_BOX: { D3 e{std::abs(x.x) - he.x, std::abs(x.y) - he.y, std::abs(x.z) - he.z}; double m = std::max(e.x, std::max(e.y, e.z)); if (m <= 0) return m; return dlen({std::max(0.0, e.x), std::max(0.0, e.y), std::max(0.0, e.z)}); }
        default: { double m = -1e300; for (size_t f = 0; f < poly.f.size(); ++f) m = std::max(m, ddot(x - poly.v[poly.f[f][0]], fn[f])); if (m <= 0) return m; double best = 1e300; for (size_t f = 0; f < poly.f.size(); ++f) { auto &F = poly.f[f]; D3 o = poly.v[F[0]]; double d = ddot(x - o, fn[f]); D3 y = x - fn[f] * d; bool in = true; for (size_t i = 0; i < F.size(); ++i) { D3 a = poly.v[F[i]], b = poly.v[F[(i + 1) % F.size()]]; if (ddot(dcross(fn[f], b - a), y - a) < 0) in = false; best = std::min(best, ref_point_segment(x, a, b)); } if (in) best = std::min(best, std::abs(d)); } return best; } } }
    double size() const { switch (kind) { case K_SPHERE: return r; case K_CAP: return r + h; case K_CYL: return std::hypot(r, h); case K_BOX: return dlen(he); default: { double m = 0; for (auto &v : poly.v) m = std::max(m, dlen(v)); return m; } } }
    double inner() const { switch (kind) { case K_SPHERE: case K_CAP: return r; case K_CYL: return std::min(r, h); case K_BOX: return std::min(he.x, std::min(he.y, he.z)); default: { double m = 1e300; for (size_t f = 0; f < poly.f.size(); ++f) m = std::min(m, ddot(poly.v[poly.f[f][0]], fn[f])); return m; } } }
    template<class F> void with(F f) const { using namespace edyn; switch (kind) { case K_SPHERE: f(sphere_shape{(scalar)r}); break; case K_CYL: f(cylinder_shape{(scalar)r, (scalar)h, (coordinate_axis)ax}); break; case K_CAP: f(capsule_shape{(scalar)r, (scalar)h, (coordinate_axis)ax}); break; case K_BOX: f(box_shape{he.v()}); break; default: { polyhedron_shape s(mesh); s.rotated = rot.get(); f(s); } } }
    std::vector<D3> face_normals() const { std::vector<D3> o; if (kind == K_BOX) for (int i = 0; i < 3; ++i) o.push_back(drot(q, axis_dir((edyn::coordinate_axis)i))); else if (kind == K_POLY) for (auto &n : fn) o.push_back(drot(q, n)); else if (kind == K_CYL || kind == K_CAP) o.push_back(drot(q, axis_dir((edyn::coordinate_axis)ax))); return o; }
    std::vector<D3> edge_dirs() const { std::vector<D3> o; if (kind == K_BOX || kind == K_CYL || kind == K_CAP) return face_normals(); if (kind == K_POLY) for (auto &F : poly.f) for (size_t i = 0; i < F.size(); ++i) { uint32_t a = F[i], b = F[(i + 1) % F.size()]; if (a < b) o.push_back(drot(q, dnorm(poly.v[b] - poly.v[a]))); } return o; }
};
// narrowest face; the narrow phase welds features closer than a millimetre, so
// solids with sliver faces are not valid collision shapes
inline double face_width(const Poly &p) { double w = 1e300; for (auto &F : p.f) for (size_t i = 0; i < F.size(); ++i) { D3 a = p.v[F[i]], b = p.v[F[(i + 1) % F.size()]], d = dnorm(b - a); double m = 0; for (auto k : F) { D3 x = p.v[k] - a; m = std::max(m, dlen(x - d * ddot(x, d))); } w = std::min(w, m); } return w; }
inline Conv rnd_conv(vf::rng &r, int kind, double S) {
    Conv c; c.kind = kind; c.r = (edyn::scalar)(S * r.uni(0.2, 1)); c.h = (edyn::scalar)(S * r.uni(0.2, 1)); c.ax = (int)r.below(3); c.he = D3(D3(S * r.uni(0.2, 1), S * r.uni(0.2, 1), S * r.uni(0.2, 1)).v());
    if (kind == K_POLY) { Poly p; double s; do { p = rnd_poly(r); s = S * r.uni(0.4, 1); } while (face_width(p) * s < 0.006); auto m = std::make_shared<edyn::convex_mesh>(); for (auto &v : p.v) m->vertices.push_back((v * s).v()); for (auto &f : p.f) { m->faces.push_back((uint32_t)m->indices.size()); m->faces.push_back((uint32_t)f.size()); for (auto i : f) m->indices.push_back(i); } m->initialize(); c.mesh = m; c.poly = p; c.poly.v.clear(); for (auto &v : m->vertices) c.poly.v.push_back(v); for (size_t f = 0; f < p.f.size(); ++f) c.fn.push_back(poly_normal(c.poly, f)); }
    return c;
}
// separation along n: positive iff n separates A (ahead) from B (behind)
inline double sep(const Conv &a, const Conv &b, D3 n) { return -a.h_(-n) - b.h_(n); }
// lower bound of the signed distance max_n sep(n): candidates, samples and local ascent
inline double sep_max(const Conv &a, const Conv &b, vf::rng &r, D3 *best_n = nullptr, int samples = 150) {
    D3 bn{1, 0, 0}; double best = -1e300; std::vector<std::pair<double, D3>> top;
    auto tryd = [&](D3 n) { double l = dlen(n); if (l < 1e-9) return; n = n / l; for (int s = 0; s < 2; ++s, n = -n) { double v = sep(a, b, n); top.push_back({v, n}); if (v > best) { best = v; bn = n; } } };
    tryd(a.p - b.p); auto fa = a.face_normals(), fb = b.face_normals(); for (auto &n : fa) tryd(n); for (auto &n : fb) tryd(n); auto ea = a.edge_dirs(), eb = b.edge_dirs(); if (ea.size() * eb.size() <= 400) for (auto &x : ea) for (auto &y : eb) tryd(dcross(x, y));
    for (int i = 0; i < samples; ++i) { D3 d{r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)}; tryd(d); }
    std::sort(top.begin(), top.end(), [](auto &x, auto &y) { return x.first > y.first; });
    for (size_t k = 0; k < std::min<size_t>(3, top.size()); ++k) { D3 n = top[k].second; double v = top[k].first; double st = 0.2; for (int it = 0; st > 1e-7 && it < 3000; ++it) { D3 t1 = dnorm(std::abs(n.x) < 0.6 ? dcross(n, {1, 0, 0}) : dcross(n, {0, 1, 0})), t2 = dcross(n, t1); bool up = false; for (int i = 0; i < 8; ++i) { double an = i * M_PI / 4; D3 m = dnorm(n + (t1 * std::cos(an) + t2 * std::sin(an)) * st); double w = sep(a, b, m); if (w > v + 1e-12) { v = w; n = m; up = true; break; } } if (!up) st *= 0.5; } if (v > best) { best = v; bn = n; } }
    if (best_n) *best_n = bn; return best;
}
#endif
