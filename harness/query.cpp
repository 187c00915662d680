// Raycasts and AABB queries against the whole world, versus brute force.
#include "world.hpp"
#include "edyn/collision/raycast.hpp"
using namespace edyn;
// First intersection of the segment with a convex set given by its signed
// distance f, which is convex along the segment.
struct Hit { bool hit = false, sure = true; double t = 0; };
template<class F> static Hit first_hit(F f, double tol) {
    double lo = 0, hi = 1; for (int i = 0; i < 200; ++i) { double a = lo + (hi - lo) / 3, b = hi - (hi - lo) / 3; if (f(a) < f(b)) hi = b; else lo = a; }
    double tm = (lo + hi) / 2; for (double e : {0.0, 1.0}) if (f(e) < f(tm)) tm = e;
    Hit h; double m = f(tm); if (m > tol) return h; if (m > -tol) { h.sure = false; return h; } h.hit = true;
    if (f(0) <= 0) { h.t = 0; return h; } lo = 0; hi = tm; for (int i = 0; i < 100; ++i) { double c = (lo + hi) / 2; (f(c) > 0 ? lo : hi) = c; } h.t = hi; return h;
}
static const double TOL = kDouble ? 1e-6 : 3e-3;
struct Obj { ent e = entt::null; std::vector<Conv> parts; std::shared_ptr<triangle_mesh> mesh; bool plane = false; D3 pn; double pc = 0; };
static double sd_obj(const Obj &o, D3 p, bool outer) { double m = 1e300; (void)outer; if (o.plane) return std::abs(ddot(p, o.pn) - o.pc); if (o.mesh) { for (size_t i = 0; i < o.mesh->num_triangles(); ++i) { auto v = o.mesh->get_triangle_vertices(i); D3 a = v[0], b = v[1], c = v[2], n = dnorm(dcross(b - a, c - a)); double d = ddot(p - a, n); D3 q = p - n * d; bool in = ddot(dcross(b - a, q - a), n) >= 0 && ddot(dcross(c - b, q - b), n) >= 0 && ddot(dcross(a - c, q - c), n) >= 0; double x = in ? std::abs(d) : std::min({ref_point_segment(p, a, b), ref_point_segment(p, b, c), ref_point_segment(p, c, a)}); m = std::min(m, x); } return m; } for (auto &c : o.parts) m = std::min(m, c.sd(p)); return m; }
// does the segment certainly hit / certainly miss; earliest certain hit
static Hit cast_obj(const Obj &o, D3 p0, D3 p1, double tol) {
    Hit best; auto take = [&](Hit h) { if (!h.sure) best.sure = false; if (h.hit && (!best.hit || h.t < best.t)) { best.hit = true; best.t = h.t; } };
    if (o.plane) { double a = ddot(p0, o.pn) - o.pc, b = ddot(p1, o.pn) - o.pc; Hit h; if (std::abs(a) < tol || std::abs(b) < tol) h.sure = false; else if ((a > 0) != (b > 0)) { h.hit = true; h.t = a / (a - b); } take(h); return best; }
    if (o.mesh) { for (size_t i = 0; i < o.mesh->num_triangles(); ++i) { auto v = o.mesh->get_triangle_vertices(i); D3 a = v[0], b = v[1], c = v[2], n = dnorm(dcross(b - a, c - a)); double x = ddot(p0 - a, n), y = ddot(p1 - a, n); Hit h; if (std::min(std::abs(x), std::abs(y)) < tol) { h.sure = false; take(h); continue; } if ((x > 0) == (y > 0)) continue; double t = x / (x - y); D3 q = dlerp(p0, p1, t); double e = std::min({ddot(dcross(b - a, q - a), n) / ddist(a, b), ddot(dcross(c - b, q - b), n) / ddist(b, c), ddot(dcross(a - c, q - c), n) / ddist(c, a)}); if (std::abs(e) < tol * 3) h.sure = false; else if (e > 0) { h.hit = true; h.t = t; } take(h); } return best; }
    for (auto &c : o.parts) take(first_hit([&](double t) { return c.sd(dlerp(p0, p1, t)); }, tol)); return best;
}
static bool normal_ok(const Obj &o, D3 p, D3 n, double tol) { if (std::abs(dlen(n) - 1) > 1e-3) return false; if (o.plane) return ddist(n, o.pn) < 1e-3; if (o.mesh) { for (size_t i = 0; i < o.mesh->num_triangles(); ++i) if (ddist(n, D3(o.mesh->get_triangle_normal(i))) < 1e-3) return true; return false; }
    for (auto &c : o.parts) if (std::abs(c.sd(p)) < tol && c.h_(n) - ddot(p, n) < tol * 4 + (c.kind == K_SPHERE || c.kind == K_CAP || c.kind == K_CYL ? tol : 0)) return true; return false; }
static std::string desc(const Obj &o) { if (getenv("VF_TR") && !o.parts.empty()) { auto &c = o.parts[0]; printf("[%s r=%.9g h=%.9g ax=%d pos=" F3 " orn=" F4 "]\n", kShapeName[c.kind], c.r, c.h, c.ax, P3(c.p), P4(c.q)); } if (o.plane) return "plane"; if (o.mesh) return "mesh"; return o.parts.size() > 1 ? "compound" : kShapeName[o.parts[0].kind]; }
static Obj add_obj(vf::rng &r, entt::registry &g, double box) {
    Obj o; rigidbody_def d; int k = (int)r.below(8); d.mass = 1; d.kind = r.chance(0.5) ? rigidbody_kind::rb_dynamic : r.chance(0.5) ? rigidbody_kind::rb_static : rigidbody_kind::rb_kinematic; d.position = rnd_vec(r, box); d.orientation = rnd_quat(r);
    if (k < 5) { Conv c = rnd_conv(r, k, 0.8); c.place(d.position, d.orientation); c.with([&](auto s) { if constexpr (std::is_same_v<decltype(s), polyhedron_shape>) s.rotated = nullptr; d.shape = s; }); o.parts.push_back(c); }
    else if (k < 7) { compound_shape cs; int n = 2 + (int)r.below(3); for (int i = 0; i < n; ++i) { Conv c = rnd_conv(r, (int)r.below(5), 0.5); vector3 p = rnd_vec(r, 0.6); quaternion q = rnd_quat(r); c.with([&](auto s) { if constexpr (std::is_same_v<decltype(s), polyhedron_shape>) s.rotated = nullptr; cs.add_shape(s, p, q); }); c.place((vector3)to_world_space(p, d.position, d.orientation), d.orientation * q); o.parts.push_back(c); } cs.finish(); d.shape = cs; if (d.kind == rigidbody_kind::rb_dynamic) d.inertia = matrix3x3_identity; }
    else { d.kind = rigidbody_kind::rb_static; d.position = vector3_zero; d.orientation = quaternion_identity; if (r.chance(0.5)) { o.mesh = grid_mesh(r, 2 + (int)r.below(5), 1.0, r.uni(0.1, 0.8)); d.shape = mesh_shape{o.mesh}; } else { o.plane = true; o.pn = rnd_unitD(r); o.pc = (scalar)r.uni(-box, box); plane_shape ps{o.pn.v(), (scalar)o.pc}; o.pn = D3(ps.normal); d.shape = ps; } }
    if (r.chance(0.25) && d.kind == rigidbody_kind::rb_dynamic) d.center_of_mass = rnd_vec(r, 0.2);
    o.e = make_rigidbody(g, d); return o;
}
VF_SECTION(raycast, 300, 6000) {
    auto &r = c.r; World w; set_gravity(w.reg, vector3_zero); set_paused(w.reg, true); auto &g = w.reg; double box = r.uni(0.5, 4); std::vector<Obj> objs; int n = 1 + (int)r.below(r.chance(0.5) ? 2 : 12); for (int i = 0; i < n; ++i) objs.push_back(add_obj(r, g, box)); set_paused(g, false); edyn::update(g, w.t + 1e-5); 
    for (int k = 0; k < 12; ++k) {
        auto &tgt = objs[r.below(objs.size())]; D3 a = rnd_vec(r, box * 2), b = r.chance(0.3) ? D3(rnd_vec(r, box * 2)) : (tgt.parts.empty() ? D3(rnd_vec(r, box)) : tgt.parts[0].p + D3(rnd_vec(r, 0.4))); if (r.chance(0.3)) b = a + (b - a) * r.uni(0.2, 1.5); if (r.chance(0.15) && !tgt.parts.empty()) { D3 ax = drot(tgt.parts[0].q, axis_dir((coordinate_axis)r.below(3))); a = tgt.parts[0].p + ax * r.uni(1, 4) * r.sign() + D3(rnd_vec(r, 0.3)); b = a - ax * ddot(a - tgt.parts[0].p, ax) * r.uni(0.3, 2); } else if (r.chance(0.1)) { b = a; b.at((int)r.below(3)) += r.sign() * r.uni(0.5, 4); }
        vector3 p0 = a.v(), p1 = b.v(); a = D3(p0); b = D3(p1); double L = ddist(a, b); if (L < 0.05) continue;
        std::vector<ent> ign; for (auto &o : objs) if (r.chance(0.1)) ign.push_back(o.e);
        bool inside = false; double t_cert = 2; const Obj *first = nullptr; bool any_unsure = false; for (auto &o : objs) { if (std::find(ign.begin(), ign.end(), o.e) != ign.end()) continue; if (!o.plane && !o.mesh && sd_obj(o, a, true) < TOL) { inside = true; break; } Hit h = cast_obj(o, a, b, TOL); if (!h.sure) any_unsure = true; if (h.hit && h.t < t_cert) { t_cert = h.t; first = &o; } } if (inside) { c.event("starts-inside"); continue; }
        auto res = raycast(g, p0, p1, ign); c.event("raycasts");
        if (res.entity == entt::null) { if (first && t_cert < 1 - TOL / L) c.fail("missed", "segment " F3 " - " F3 " passes through a %s at %g but nothing was hit", P3(a), P3(b), desc(*first).c_str(), t_cert); else c.event("misses"); continue; }
        const Obj *o = nullptr; for (auto &x : objs) if (x.e == res.entity) o = &x; if (!o) { c.fail("entity", "hit reports an entity which is not a body"); continue; }
        if (std::find(ign.begin(), ign.end(), o->e) != ign.end()) { c.fail("ignored", "a %s that was to be ignored was hit", desc(*o).c_str()); continue; } std::string de = desc(*o); double t = res.fraction;
        if (!(t >= -1e-6 && t <= 1 + 1e-6)) { c.fail("fraction", "%s hit at %g, which is not in the segment " F3 " - " F3, de.c_str(), t, P3(a), P3(b)); continue; }
        D3 p = dlerp(a, b, t); double sd = sd_obj(*o, p, true); if (!(std::abs(sd) < TOL * 2)) { c.fail("surface", "hit at %g of segment " F3 " - " F3 " is %g away from the surface of the %s", t, P3(a), P3(b), sd, de.c_str()); continue; }
        if (t > t_cert + 4 * TOL / L) { D3 q = dlerp(a, b, t_cert); if (o != first || std::abs(sd_obj(*o, dlerp(q, p, 0.5), true)) > 3 * TOL) { c.fail("first", "hit %s at %g of segment " F3 " - " F3 " but a %s is hit at %g", de.c_str(), t, P3(a), P3(b), desc(*first).c_str(), t_cert); continue; } }
        if (!normal_ok(*o, p, D3(res.normal), TOL * 3)) c.fail("normal", "normal " F3 " at " F3 " is not that of the %s", P3(res.normal), P3(p), de.c_str()); if (!o->plane && !o->mesh && ddot(D3(res.normal), b - a) / L > 0.05 + TOL * 10) c.fail("normal-side", "normal of %s points along the ray", de.c_str());
        c.event("hits"); c.event(("hit-" + de).c_str()); (void)any_unsure; c.hit(vf::mix((uint64_t)(t * 1e9)) ^ vf::hash_bytes(&p0, sizeof p0, 7));
    }
}
VF_SECTION(query_aabb, 200, 4000) {
    auto &r = c.r; World w; auto &g = w.reg; set_gravity(g, r.chance(0.5) ? vector3_zero : gravity_earth); double box = r.uni(0.5, 5); std::vector<ent> es; int n = 1 + (int)r.below(25);
    for (int i = 0; i < n; ++i) { rigidbody_def d; d.mass = 1; d.kind = r.chance(0.6) ? rigidbody_kind::rb_dynamic : r.chance(0.5) ? rigidbody_kind::rb_static : rigidbody_kind::rb_kinematic; d.position = rnd_vec(r, box); d.orientation = rnd_quat(r); d.linvel = rnd_vec(r, 2); d.shape = rnd_shape(r, 0.5, false); es.push_back(make_rigidbody(g, d)); } w.step(1 + (int)r.below(8)); w.step(); size_t ni = g.view<island>().size(); std::map<uint32_t, uint32_t> isl0; for (auto e : es) if (is_proc(g, e)) isl0[(uint32_t)e] = (uint32_t)g.get<island_resident>(e).island_entity; w.step(2); bool same = g.view<island>().size() == ni; for (auto &p : isl0) if ((uint32_t)g.get<island_resident>((ent)p.first).island_entity != p.second) same = false; if (r.chance(0.3)) for (int i = 0; i < 3 && es.size() > 2; ++i) { g.destroy(es.back()); es.pop_back(); }
    for (int k = 0; k < 10; ++k) { D3 ce = rnd_vec(r, box * 1.2), he{r.uni(0, box), r.uni(0, box), r.uni(0, box)}; AABB q{(ce - he).v(), (ce + he).v()}; std::multiset<uint32_t> pr, np, is; query_procedural_aabb(g, q, [&](ent e) { pr.insert((uint32_t)e); }); query_non_procedural_aabb(g, q, [&](ent e) { np.insert((uint32_t)e); }); query_island_aabb(g, q, [&](ent e) { is.insert((uint32_t)e); });
        auto dist = [](const AABB &a, const AABB &b) { double m = -1e300; for (int i = 0; i < 3; ++i) m = std::max({m, (double)a.min[i] - b.max[i], (double)b.min[i] - a.max[i]}); return m; };
        std::set<uint32_t> ipr; for (auto e : es) { auto &a = g.get<AABB>(e); bool proc = is_proc(g, e); auto cnt = (proc ? pr : np).count((uint32_t)e); double d = dist(a, q); double mv = 1e-5; if (auto *v = g.try_get<linvel>(e)) mv += 2 * w.dt * (dlen(D3(*v)) + dlen(D3(g.get<angvel>(e))) + 1); if ((proc ? np : pr).count((uint32_t)e)) c.fail("query-kind", "a body of the other kind is in the result"); if (d < -mv && cnt != 1) c.fail("query-missed", "body inside the queried region appears %zu times in the result", cnt); if (cnt > 1) c.fail("query-twice", "body reported %zu times", cnt); if (d > 1.0 && cnt) c.fail("query-far", "body %g away from the queried region is in the result", d); if (proc && d < -mv && same) ipr.insert((uint32_t)g.get<island_resident>(e).island_entity); c.event(d < 0 ? "inside" : "outside"); }
        for (auto e : pr) if (!g.valid((ent)e) || std::find(es.begin(), es.end(), (ent)e) == es.end()) c.fail("query-dead", "an entity which is not a body is in the result"); for (auto i : ipr) if (!is.count(i)) c.fail("query-island", "island of a body inside the queried region is not in the result"); c.hit(hv(q.min.x, q.max.y)); }
}
