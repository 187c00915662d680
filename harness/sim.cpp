// Whole-engine monitors (sequential execution).
#include "world.hpp"
using namespace edyn;
[[maybe_unused]] static double rpick(vf::rng &r, std::initializer_list<double> l) { return *(l.begin() + r.below(l.size())); }
#if VF_PART == 1
// random edits and steps: structure always consistent
struct Scene { std::vector<ent> bodies, cons; };
static ent rnd_body(vf::rng &r, entt::registry &g, double box) {
    rigidbody_def d; double k = r.unit(); d.kind = k < 0.7 ? rigidbody_kind::rb_dynamic : k < 0.85 ? rigidbody_kind::rb_kinematic : rigidbody_kind::rb_static; d.position = rnd_vec(r, box); d.position.y += (scalar)(box + 0.5); d.orientation = rnd_quat(r); d.linvel = rnd_vec(r, 1); d.angvel = rnd_vec(r, 1); d.mass = (scalar)r.uni(0.1, 10); if (r.chance(0.9)) d.shape = rnd_shape(r, 0.5); else d.inertia = matrix3x3_identity * (scalar)r.uni(0.1, 2); if (r.chance(0.1)) d.material.reset(); else { d.material->restitution = (scalar)(r.chance(0.3) ? r.uni(0, 1) : 0); d.material->friction = (scalar)r.uni(0, 1); if (r.chance(0.15)) { d.material->roll_friction = (scalar)0.01; d.material->spin_friction = (scalar)0.01; } if (r.chance(0.1)) { d.material->stiffness = 5000; d.material->damping = 100; } } if (r.chance(0.1) && d.kind == rigidbody_kind::rb_dynamic) d.center_of_mass = rnd_vec(r, 0.1); d.sleeping_disabled = r.chance(0.1); d.presentation = r.chance(0.8); if (r.chance(0.15)) { d.collision_group = 1ull << r.below(3); d.collision_mask = r.below(8); } return make_rigidbody(g, d);
}
VF_SECTION(structure, 60, 1200) {
    auto &r = c.r; World w(1.0 / 60, execution_mode::sequential); auto &g = w.reg; Scene s; double box = r.uni(0.5, 3); if (r.chance(0.8)) make_floor(g); uint64_t h = 0; int ops = 20 + (int)r.below(40); if (r.chance(0.3)) set_gravity(g, vector3_zero);
    auto any = [&](auto pred) -> ent { for (int i = 0; i < 20 && !s.bodies.empty(); ++i) { ent e = s.bodies[r.below(s.bodies.size())]; if (pred(e)) return e; } return entt::null; };
    auto dyn = [&](ent e) { return g.all_of<dynamic_tag>(e); };
    for (int i = 0; i < ops; ++i) {
        int op = (int)r.below(13); h = vf::mix(h * 31 + op); vf::note("op %d of step %d", op, i);
        if (op <= 3 || s.bodies.size() < 2) { if (s.bodies.size() < 25) s.bodies.push_back(rnd_body(r, g, box)); }
        else if (op == 4) { ent a = any(dyn), b = any([&](ent e) { return e != a; }); if (a != entt::null && b != entt::null) { int k = (int)r.below(6); ent e; if (k == 0) e = make_constraint<point_constraint>(g, a, b, [&](auto &x) { x.pivot = {rnd_vec(r, 0.5), rnd_vec(r, 0.5)}; }); else if (k == 1) e = make_constraint<distance_constraint>(g, a, b, [&](auto &x) { x.pivot = {vector3_zero, vector3_zero}; x.distance = (scalar)r.uni(0.5, 2); }); else if (k == 2) e = make_constraint<soft_distance_constraint>(g, a, b, [&](auto &x) { x.pivot = {vector3_zero, vector3_zero}; x.distance = 1; x.stiffness = 100; x.damping = 1; }); else if (k == 3) e = make_constraint<hinge_constraint>(g, a, b, [&](auto &x) { x.pivot = {vector3_zero, vector3_zero}; x.set_axes({1, 0, 0}, {0, 1, 0}); }); else if (k == 4) e = make_constraint<null_constraint>(g, a, b); else e = make_constraint<generic_constraint>(g, a, b, [&](auto &x) { x.pivot = {vector3_zero, vector3_zero}; for (auto &l : x.linear_dofs) { l.limit_enabled = r.chance(0.5); l.offset_min = -1; l.offset_max = 1; } for (auto &l : x.angular_dofs) l.limit_enabled = false; }); s.cons.push_back(e); if (r.chance(0.5)) exclude_collision(g, a, b); } }
        else if (op == 5 && !s.cons.empty()) { size_t k = r.below(s.cons.size()); ent e = s.cons[k]; s.cons.erase(s.cons.begin() + k); if (r.chance(0.7)) g.destroy(e); else { clear_constraint(g, e); if (r.chance(0.5)) g.destroy(e); } }
        else if (op == 6) { size_t k = r.below(s.bodies.size()); ent e = s.bodies[k]; s.bodies.erase(s.bodies.begin() + k); bool keep = false; if (r.chance(0.3)) { clear_rigidbody(g, e); keep = r.chance(0.5); } if (!keep) g.destroy(e); s.cons.erase(std::remove_if(s.cons.begin(), s.cons.end(), [&](ent x) { return !g.valid(x) || !g.all_of<graph_edge>(x); }), s.cons.end()); }
        else if (op == 7) { ent a = any([](ent) { return true; }); rigidbody_set_shape(g, a, r.chance(0.2) ? std::optional<shapes_variant_t>{} : std::optional<shapes_variant_t>{rnd_shape(r, 0.5)}); }
        else if (op == 8) { ent a = any(dyn); if (a != entt::null) { rigidbody_apply_impulse(g, a, rnd_vec(r, 2), rnd_vec(r, 0.3)); wake_up_entity(g, a); } }
        else if (op == 9) { ent a = any([&](ent e) { return g.all_of<kinematic_tag>(e); }); if (a != entt::null) { set_kinematic_position(g, a, (w.pos(a) + D3(rnd_vec(r, 0.05))).v(), (scalar)w.dt); wake_up_entity(g, a); } }
        else if (op == 10) { ent a = any([](ent) { return true; }); if (r.chance(0.5) && g.all_of<material>(a)) set_rigidbody_friction(g, a, (scalar)r.uni(0, 1)); else if (dyn(a)) set_center_of_mass(g, a, rnd_vec(r, 0.1)); }
        else if (op == 11) { ent a = any([](ent) { return true; }), b = any([&](ent e) { return e != a; }); if (a != entt::null && b != entt::null && a != b) { if (r.chance(0.7)) { if (!g.all_of<collision_exclusion>(a) || g.get<collision_exclusion>(a).num_entities() < 6) if (!g.all_of<collision_exclusion>(b) || g.get<collision_exclusion>(b).num_entities() < 6) exclude_collision(g, a, b); } else if (g.all_of<collision_exclusion>(a)) clear_collision_exclusion(g, a); } }
        if (op == 12) { ent a = any([&](ent e) { return g.any_of<dynamic_tag, kinematic_tag>(e); }); if (a != entt::null) { bool to_kin = dyn(a); if (to_kin) { std::vector<ent> dead; visit_edges(g, a, [&](ent e) { if (!g.any_of<contact_manifold, contact_point>(e)) { for (ent b : s.bodies) if (b != a && !is_proc(g, b)) { bool touches = false; visit_edges(g, b, [&](ent x) { if (x == e) touches = true; }); if (touches) { dead.push_back(e); break; } } } }); for (ent e : dead) { g.destroy(e); s.cons.erase(std::find(s.cons.begin(), s.cons.end(), e)); } } else { set_rigidbody_mass(g, a, 1); set_rigidbody_inertia(g, a, matrix3x3_identity); } rigidbody_set_kind(g, a, to_kin ? rigidbody_kind::rb_kinematic : rigidbody_kind::rb_dynamic); c.event("kind-changes"); } }
        int n = r.chance(0.6) ? 1 + (int)r.below(3) : r.chance(0.03) ? 150 : 0; for (int k = 0; k < n; ++k) { w.step(); if (k < 3 || k == n - 1) { check_structure(c, g, "after update"); } }
    }
    w.step(); check_structure(c, g, "at the end"); c.hit(h);
}
#endif
#if VF_PART == 2
// motion of bodies
static ent body(entt::registry &g, rigidbody_kind k, shapes_variant_t sh, D3 p, DQ q, double m, D3 v = {}, D3 w = {}, double fr = 0.5, double re = 0) { rigidbody_def d; d.kind = k; d.shape = sh; d.position = p.v(); d.orientation = {(scalar)q.x, (scalar)q.y, (scalar)q.z, (scalar)q.w}; d.mass = (scalar)m; d.linvel = v.v(); d.angvel = w.v(); d.material->friction = (scalar)fr; d.material->restitution = (scalar)re; return make_rigidbody(g, d); }
VF_SECTION(free_flight, 150, 3000) { // semi-implicit integration, no interaction
    auto &r = c.r; World w(1.0 / rpick(r, {30, 60, 120, 240})); auto &g = w.reg; D3 gr = r.chance(0.5) ? D3(gravity_earth) : D3(rnd_vec(r, 20)); bool grav_after = r.chance(0.3); if (!grav_after) set_gravity(g, gr.v()); struct B { ent e; D3 p, v, w, gr; DQ q; bool kin, stat, com; }; std::vector<B> bs; int n = 1 + (int)r.below(6);
    if (grav_after) gr = D3(gravity_earth);
    for (int i = 0; i < n; ++i) { B b; double k = r.unit(); b.kin = k < 0.2; b.stat = k > 0.85; b.p = D3(rnd_vec(r, 1)) + D3(i * 100.0, 0, 0); b.p = D3(b.p.v()); b.v = b.stat ? D3() : D3(rnd_vec(r, 10)); b.w = b.stat ? D3() : D3(rnd_vec(r, 5)); b.q = rnd_quat(r); b.com = false; rigidbody_def d; d.kind = b.kin ? rigidbody_kind::rb_kinematic : b.stat ? rigidbody_kind::rb_static : rigidbody_kind::rb_dynamic; d.position = b.p.v(); d.orientation = {(scalar)b.q.x, (scalar)b.q.y, (scalar)b.q.z, (scalar)b.q.w}; d.linvel = b.v.v(); d.angvel = b.w.v(); d.mass = (scalar)r.uni(0.1, 50); if (r.chance(0.8)) d.shape = rnd_shape(r, 1, true); else d.inertia = matrix3x3_identity; if (r.chance(0.3)) d.gravity = rnd_vec(r, 5); b.gr = b.kin || b.stat ? D3() : d.gravity ? D3(*d.gravity) : gr; b.e = make_rigidbody(g, d); if (b.kin) { b.v = D3(); b.w = D3(); } bs.push_back(b); }
    int steps = 5 + (int)r.below(60); double dt = (scalar)w.dt; for (auto &b : bs) if (b.kin) { b.v = D3(g.get<linvel>(b.e)); }
    w.step(steps); double T = steps * dt;
    for (auto &b : bs) { D3 p = w.pos(b.e); if (!finite(p)) { c.fail("finite", "position is not finite"); continue; } if (b.stat || b.kin) { if (ddist(p, b.p) != 0) c.fail(b.stat ? "static-moves" : "kinematic-moves", "%s body moved by %g in %d steps", b.stat ? "static" : "kinematic", ddist(p, b.p), steps); c.event("unmoved"); continue; }
        D3 v = w.vel(b.e), ev = b.v + b.gr * T, ep = b.p + b.v * T + b.gr * (dt * dt * steps * (steps + 1) / 2); double tv = (kDouble ? 1e-9 : 2e-4) * (1 + dlen(ev) + dlen(b.gr) * T), tp = (kDouble ? 1e-8 : 5e-4) * (1 + dlen(ep) * 0.2 + dlen(ev) * T); if (ddist(v, ev) > tv) c.fail("velocity", "after %d steps of %g velocity is " F3 ", expected " F3, steps, dt, P3(v), P3(ev)); if (ddist(p, ep) > tp) c.fail("position", "after %d steps of %g position is " F3 ", expected " F3 " (tolerance %g)", steps, dt, P3(p), P3(ep), tp); c.event("flights"); }
    c.hit(hv(bs[0].p.x, bs[0].v.x, steps));
}
VF_SECTION(spin_flight, 100, 2000) { // orientation follows the angular velocity; sphere keeps it
    auto &r = c.r; World w(1.0 / 60); auto &g = w.reg; set_gravity(g, vector3_zero); D3 om = rnd_vec(r, 3); om = D3(om.v()); DQ q = rnd_quat(r); ent e = body(g, rigidbody_kind::rb_dynamic, sphere_shape{(scalar)0.5}, {}, q, r.uni(0.5, 5), {}, om); int n = 1 + (int)r.below(60); w.step(n); D3 o2 = w.ang(e); if (ddist(om, o2) > 1e-4 * (1 + dlen(om))) c.fail("angvel", "angular velocity of a free sphere went from " F3 " to " F3, P3(om), P3(o2)); double T = n * (double)(scalar)w.dt, ang = dlen(om) * T; D3 ax = dnorm(om); for (D3 v : {D3(1, 0, 0), D3(0, 1, 0), D3(0, 0, 1)}) { D3 x = drot(q, v); D3 exp = x * std::cos(ang) + dcross(ax, x) * std::sin(ang) + ax * (ddot(ax, x) * (1 - std::cos(ang))); D3 got = drot(w.orn(e), v); if (ddist(exp, got) > 2e-3 * (1 + ang)) { c.fail("rotation", "after rotating by %g rad the axis is " F3 ", expected " F3, ang, P3(got), P3(exp)); break; } } c.event("spins"); c.hit(hv(om.x, om.y, n));
}
VF_SECTION(momentum, 200, 4000) { // collisions among dynamic bodies conserve linear momentum and do not create energy
    auto &r = c.r; World w(1.0 / rpick(r, {60, 120})); auto &g = w.reg; set_gravity(g, vector3_zero); if (r.chance(0.3)) set_solver_velocity_iterations(g, 20); int n = 2 + (int)r.below(8); double box = 0.4 + 0.25 * n; std::vector<ent> es; bool cons = r.chance(0.3);
    for (int i = 0; i < n; ++i) { D3 p = rnd_vec(r, box); Conv k = rnd_conv(r, (int)r.below(5), 0.5); shapes_variant_t sh; k.with([&](auto s) { if constexpr (std::is_same_v<decltype(s), polyhedron_shape>) s.rotated = nullptr; sh = s; }); es.push_back(body(g, rigidbody_kind::rb_dynamic, sh, p, rnd_quat(r), r.uni(0.5, 5), D3(rnd_vec(r, 1)) - p * 0.7, rnd_vec(r, 1), r.uni(0, 1), r.chance(0.5) ? 0 : r.uni(0, 1))); }
    if (cons) for (int i = 0; i + 1 < n; i += 2) make_constraint<point_constraint>(g, es[i], es[i + 1], [&](auto &x) { D3 m = (w.pos(es[i]) + w.pos(es[i + 1])) * 0.5; x.pivot = {dto_object(m, w.pos(es[i]), w.orn(es[i])).v(), dto_object(m, w.pos(es[i + 1]), w.orn(es[i + 1])).v()}; });
    auto P = [&] { D3 s; for (auto e : es) s = s + w.vel(e) * (double)g.get<mass>(e); return s; }; auto M = [&] { double s = 0; for (auto e : es) s += dlen(w.vel(e)) * (double)g.get<mass>(e); return s; };
    D3 p0 = P(); double m0 = M(); long contacts = 0; int steps = 20 + (int)r.below(80); for (int i = 0; i < steps; ++i) { w.step(); contacts += (long)g.view<contact_point>().size(); D3 p1 = P(); double sc = std::max(m0, M()); if (!finite(p1)) { c.fail("finite", "momentum is not finite after %d steps", i); return; } bool asleep = false; for (auto e : es) asleep |= g.all_of<sleeping_tag>(e); if (asleep) break; if (ddist(p0, p1) > (kDouble ? 1e-9 : 1e-4) * (1 + sc) * (1 + i * 0.05)) { c.fail("momentum", "total linear momentum went from " F3 " to " F3 " in %d steps", P3(p0), P3(p1), i + 1); return; } }
    c.event("contacts", contacts); c.event(contacts ? "collided" : "missed"); if (contacts) c.hit(hv(p0.x, m0, steps));
}
VF_SECTION(bounce, 120, 2400) { // restitution and friction of a sphere against the floor
    auto &r = c.r; World w(1.0 / 240); auto &g = w.reg; double e = rpick(r, {0.0, 0.2, 0.5, 0.8, 1.0}), R = r.uni(0.2, 1), m = r.uni(0.1, 10), mu = r.uni(0, 1); rigidbody_def f; f.kind = rigidbody_kind::rb_static; f.shape = plane_shape{{0, 1, 0}, 0}; f.material->restitution = (scalar)e; f.material->friction = (scalar)mu; make_rigidbody(g, f); set_gravity(g, vector3_zero); double vy = r.uni(1, 8), vx = r.uni(-3, 3); ent b = body(g, rigidbody_kind::rb_dynamic, sphere_shape{(scalar)R}, {0, R + r.uni(0.05, 0.3), 0}, {}, m, {vx, -vy, 0}, {}, mu, e);
    w.step(150); D3 v = w.vel(b), p = w.pos(b); double ev = vy * e; if (std::abs(v.y - ev) > 0.02 * vy + 0.01) c.fail("restitution", "sphere hit the floor at %g m/s with restitution %g and left at %g", vy, e, v.y); if (std::abs(v.z) > 1e-3) c.fail("restitution", "sphere deflected sideways by %g", v.z); double dvx = std::abs(v.x - vx), maxf = mu * vy * (1 + e); if (dvx > maxf * 1.02 + 0.01) c.fail("friction-limit", "tangential velocity changed by %g, more than friction allows (%g)", dvx, maxf); if (std::abs(v.x) > std::abs(vx) + 1e-3 || v.x * vx < -1e-3) c.fail("friction-sign", "friction sped the sphere up: %g to %g", vx, v.x);
    double need = std::abs(vx) * 2 / 7; if (maxf > need * 1.3 + 0.05) { double slip = v.x + D3(w.ang(b)).z * R; if (std::abs(slip) > 0.05 * std::abs(vx) + 0.02) c.fail("friction-stick", "friction %g is enough to stop slipping, yet slip velocity is %g (from %g)", mu, slip, vx); } else if (maxf < need * 0.7 && std::abs(dvx - maxf) > 0.05 * maxf + 0.02) c.fail("friction-slide", "sliding contact changed the tangential velocity by %g, expected %g", dvx, maxf); if (p.y < R - 0.1) c.fail("penetration", "sphere of radius %g ended at height %g", R, p.y); c.event("bounces"); c.hit(hv(e, R, vx, vy));
}
VF_SECTION(rest, 60, 1200) { // bodies released above the floor come to rest on it and sleep
    auto &r = c.r; World w(1.0 / 60); auto &g = w.reg; bool mesh = r.chance(0.3); if (mesh) { rigidbody_def d; d.kind = rigidbody_kind::rb_static; d.shape = mesh_shape{grid_mesh(r, 6, 2.0, 0)}; d.material->restitution = 0; make_rigidbody(g, d); } else make_floor(g); std::vector<std::pair<ent, Conv>> es; int n = 1 + (int)r.below(3);
    for (int i = 0; i < n; ++i) { Conv k = rnd_conv(r, (int)r.below(5), 0.6); shapes_variant_t sh; k.with([&](auto s) { if constexpr (std::is_same_v<decltype(s), polyhedron_shape>) s.rotated = nullptr; sh = s; }); D3 p{(i - 1) * 2.5, k.size() + r.uni(0.02, 0.5), r.uni(-1, 1)}; ent e = body(g, rigidbody_kind::rb_dynamic, sh, p, rnd_quat(r), r.uni(0.5, 5), {}, {}, 0.7, 0); es.push_back({e, k}); }
    for (int i = 0; i < 8; ++i) { w.step(30); for (auto &p : es) { auto k = p.second; k.place(g.get<position>(p.first), g.get<orientation>(p.first)); double low = -k.h_({0, -1, 0}); if (!std::isfinite(low)) { c.fail("finite", "%s is not finite", kShapeName[k.kind]); return; } if (low < (i < 6 ? -0.35 : -0.06) && (!mesh || k.kind == K_SPHERE || k.kind == K_CAP)) { c.fail("penetration", "%s sank %g into the %s", kShapeName[k.kind], -low, mesh ? "mesh" : "floor"); return; } if (mesh && k.kind != K_SPHERE && k.kind != K_CAP) { c.event("on-mesh"); continue; } if (i > 2 && low > 0.6) { c.fail("fall", "%s hovers %g above the floor", kShapeName[k.kind], low); return; } double sp = dlen(w.vel(p.first)); if (i > 2 && sp > 3) { c.fail("energy", "%s resting on the floor moves at %g m/s", kShapeName[k.kind], sp); return; } c.event(g.all_of<sleeping_tag>(p.first) ? "asleep" : "awake"); } }
    c.hit(hv(c.idx, n));
}
#endif
#if VF_PART == 3
// time keeping of the sequential stepper
static long g_pre, g_post;
VF_SECTION(time, 400, 8000) {
    auto &r = c.r; double dt = 1.0 / rpick(r, {10, 30, 60, 100, 240}); double t0 = r.chance(0.5) ? 0 : r.uni(0, 1e6); World w(dt, execution_mode::sequential, 0, t0); auto &g = w.reg; dt = (scalar)dt; set_gravity(g, vector3_zero); unsigned maxs = 1 + (unsigned)r.below(20); set_max_steps_per_update(g, maxs); g_pre = g_post = 0; set_pre_step_callback(g, [](entt::registry &) { g_pre++; }); set_post_step_callback(g, [](entt::registry &) { g_post++; });
    rigidbody_def d; d.mass = 1; d.inertia = matrix3x3_identity; d.linvel = rnd_vec(r, 1); d.sleeping_disabled = true; ent e = make_rigidbody(g, d); D3 v = D3(d.linvel); double t = t0, run = 0; bool paused = false, capped = false; long expected_single = 0; uint64_t h = 0; double sim = 0; long base = 0; (void)base;
    int n = 10 + (int)r.below(60); for (int i = 0; i < n; ++i) {
        int op = (int)r.below(12); h = vf::mix(h * 13 + op);
        if (op == 0) { bool np = !paused; set_paused(g, np); if (paused != np) { run = 0; sim = 0; base = g_pre; if (np == false) {} } paused = np; if (is_paused(g) != np) c.fail("paused", "is_paused does not report the state that was set"); if (!paused) { g_pre -= 0; run = -1; } continue; }
        if (op == 1 && paused) { long a = g_pre; D3 p = w.pos(e); step_simulation(g, t); if (g_pre != a + 1 || g_post != g_pre) c.fail("single-step", "step_simulation ran %ld steps", g_pre - a); if (ddist(w.pos(e), p + v * dt) > 1e-4 + dlen(p) * 1e-5) c.fail("single-step", "step_simulation did not advance by one time step"); expected_single++; c.event("single-steps"); continue; }
        double el = r.chance(0.1) ? 0 : r.chance(0.15) ? dt : r.chance(0.1) ? dt * maxs * r.uni(1, 5) : dt * r.uni(0, 2.2); t += el; long a = g_pre; D3 pa = w.pos(e); edyn::update(g, t); long s = g_pre - a; if (g_post != g_pre) c.fail("callbacks", "%ld pre-step and %ld post-step callbacks", g_pre, g_post);
        if (paused) { if (s) c.fail("paused-steps", "%ld steps while paused", s); if (ddist(pa, w.pos(e)) != 0) c.fail("paused-steps", "body moved while paused"); c.event("paused-updates"); continue; }
        if (s > (long)maxs) c.fail("max-steps", "%ld steps in one update, the limit is %u", s, maxs);
        if (run < 0) { if (s > 0) c.fail("resume", "%ld steps in the update after resuming", s); run = 0; sim = 0; base = g_pre; c.event("resumes"); continue; }
        // `run`: time to be simulated and not simulated yet
        run += el; double lo = std::floor(run / dt - 1e-6), hi = std::floor(run / dt + 1e-6); bool ok = (s >= std::min<double>(lo, maxs) && s <= std::min<double>(hi, maxs)); if (!ok) c.fail("step-count", "update after %g s (time step %g, %g s outstanding) ran %ld steps", el, dt, run, s); if (hi != lo && lo >= maxs) break; double adv = (hi != lo && s != lo) ? hi : lo; if (s < (long)maxs) adv = s; run -= adv * dt; if (run < -dt * 0.5) run = 0;
        if (ddist(w.pos(e), pa + v * (dt * s)) > (kDouble ? 1e-7 : 1e-4) * (1 + dlen(pa) * 0.1) * (s + 1)) c.fail("step-motion", "%ld steps moved the body by %g, expected %g", s, ddist(w.pos(e), pa), dlen(v) * dt * s);
        D3 pp = D3(vector3(g.get<present_position>(e))); double lag = run - dt; D3 ex = w.pos(e) + v * lag; if (s < (long)maxs && ddist(pp, ex) > 2e-3 * (1 + dlen(v)) * dt + 1e-4 + 1e-5 * dlen(ex) + 3e-9 * t) c.fail("presentation", "presentation is " F3 ", expected " F3 " (%g s after the simulation)", P3(pp), P3(ex), lag); c.event("updates"); c.event("steps", s); (void)capped; (void)sim;
    }
    (void)expected_single; c.hit(h);
}
#endif
#if VF_PART == 4
// joints: how far they are from being satisfied after every step
#include <cstdlib>
struct Pair { ent a, b; D3 J; };
static double bodyI(entt::registry &g, ent e) { return 1.0 / (double)g.get<inertia_inv>(e).row[0].x; }
static ent jbody(vf::rng &r, entt::registry &g, rigidbody_kind k, D3 p, DQ q, D3 v, D3 w) { rigidbody_def d; d.kind = k; d.position = p.v(); d.orientation = {(scalar)q.x, (scalar)q.y, (scalar)q.z, (scalar)q.w}; d.mass = (scalar)r.logu(0.3, 3); double s = r.uni(0.1, 0.5) * d.mass; d.inertia = matrix3x3{vector3{(scalar)(s * r.uni(0.8, 1.2)), 0, 0}, vector3{0, (scalar)(s * r.uni(0.8, 1.2)), 0}, vector3{0, 0, (scalar)(s * r.uni(0.8, 1.2))}}; if (k == rigidbody_kind::rb_dynamic) { d.linvel = v.v(); d.angvel = w.v(); } d.sleeping_disabled = true; return make_rigidbody(g, d); }
static D3 worldp(entt::registry &g, ent e, vector3 piv) { return dto_world(D3(piv), D3(g.all_of<origin>(e) ? vector3(g.get<origin>(e)) : vector3(g.get<position>(e))), DQ(g.get<orientation>(e))); }
static D3 worldd(entt::registry &g, ent e, D3 d) { return drot(DQ(g.get<orientation>(e)), d); }
static matrix3x3 frame_of(vf::rng &r, DQ q) { D3 x = drot(q, {1, 0, 0}), y = drot(q, {0, 1, 0}), z = drot(q, {0, 0, 1}); (void)r; return matrix3x3_columns(x.v(), y.v(), z.v()); }
static DQ dmul(DQ a, DQ b) { return {a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y, a.w * b.y + a.y * b.w + a.z * b.x - a.x * b.z, a.w * b.z + a.z * b.w + a.x * b.y - a.y * b.x, a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z}; }
static const char *kJ[] = {"point", "distance", "hinge", "cvjoint", "cone", "generic"};
VF_SECTION(joints, 240, 4800) {
    auto &r = c.r; World w(1.0 / rpick(r, {60, 120})); auto &g = w.reg; if (r.chance(0.3)) set_gravity(g, r.chance(0.5) ? vector3_zero : rnd_vec(r, 10)); int kind = (int)r.below(6); bool stat = r.chance(0.6), swap = r.chance(0.5); bool com = r.chance(0.25);
    D3 anchor = D3(rnd_vec(r, 3)); DQ q0 = rnd_quat(r), q1 = rnd_quat(r); D3 r0 = D3(rnd_vec(r, 0.7)), r1 = D3(rnd_vec(r, 0.7)); double sp = r.uni(0, 2);
    // the joint holds at first: frames coincide at the anchor
    ent a = jbody(r, g, stat ? rigidbody_kind::rb_static : rigidbody_kind::rb_dynamic, anchor + r0, q0, {}, {}), b = jbody(r, g, rigidbody_kind::rb_dynamic, anchor + r1, q1, D3(rnd_vec(r, sp)), D3(rnd_vec(r, sp)));
    if (com) { set_center_of_mass(g, b, rnd_vec(r, 0.2)); if (!stat) set_center_of_mass(g, a, rnd_vec(r, 0.2)); }
    DQ fq = rnd_quat(r); DQ qa = g.get<orientation>(a), qb = g.get<orientation>(b); D3 oa = worldp(g, a, vector3_zero), ob = worldp(g, b, vector3_zero); (void)swap;
    vector3 pa = dto_object(anchor, oa, qa).v(), pb = dto_object(anchor, ob, qb).v(); matrix3x3 fa = frame_of(r, dmul(dconj(qa), fq)), fb = frame_of(r, dmul(dconj(qb), fq)); ent e = entt::null; double dist = 0; bool lim = r.chance(0.5); double lo = -r.uni(0.2, 1.2), hi = r.uni(0.2, 1.2); double loff[3] = {}, hoff[3] = {}; bool afree[3] = {}; D3 cdir; std::array<scalar, 2> span{(scalar)r.uni(0.3, 1.5), (scalar)r.uni(0.3, 1.5)};
    switch (kind) {
    case 0: e = make_constraint<point_constraint>(g, a, b, [&](auto &x) { x.pivot = {pa, pb}; if (r.chance(0.3)) x.friction_torque = (scalar)r.uni(0.01, 0.1); }); break;
    case 1: { vector3 p2 = (D3(pb) + D3(rnd_vec(r, 1))).v(); dist = ddist(worldp(g, a, pa), worldp(g, b, p2)); if (dist < 0.2) { c.event("skipped"); return; } pb = p2; e = make_constraint<distance_constraint>(g, a, b, [&](auto &x) { x.pivot = {pa, pb}; x.distance = (scalar)dist; }); break; }
    case 2: e = make_constraint<hinge_constraint>(g, a, b, [&](auto &x) { x.pivot = {pa, pb}; x.frame = {fa, fb}; if (lim) { x.angle_min = (scalar)lo; x.angle_max = (scalar)hi; x.limit_restitution = (scalar)rpick(r, {0, 0.5}); } if (r.chance(0.2)) { x.torque = (scalar)r.uni(0, 0.3); } }); break;
    case 3: e = make_constraint<cvjoint_constraint>(g, a, b, [&](auto &x) { x.pivot = {pa, pb}; x.frame = {fa, fb}; if (lim) { x.twist_min = (scalar)lo; x.twist_max = (scalar)hi; } else { x.twist_min = x.twist_max = 0; } if (r.chance(0.2)) x.bend_friction_torque = (scalar)r.uni(0, 0.1); x.bend_stiffness = (scalar)r.uni(0.5, 3); x.rest_direction = vector3_x; }); break;
    case 4: { cdir = D3(1, 0, 0); D3 tip = anchor + drot(fq, cdir) * r.uni(0.3, 0.8); pb = dto_object(tip, ob, qb).v(); make_constraint<point_constraint>(g, a, b, [&](auto &x) { D3 m = anchor; x.pivot = {pa, dto_object(m, ob, qb).v()}; }); e = make_constraint<cone_constraint>(g, a, b, [&](auto &x) { x.pivot = {pa, pb}; x.frame = fa; x.span_tan = span; x.restitution = 0; }); break; }
    default: for (int i = 0; i < 3; ++i) { if (r.chance(0.4)) { loff[i] = -r.uni(0, 0.5); hoff[i] = r.uni(0.05, 0.5); } } if (r.chance(0.5)) afree[r.below(3)] = true; e = make_constraint<generic_constraint>(g, a, b, [&](auto &x) { x.pivot = {pa, pb}; x.frame = {fa, fb}; for (int i = 0; i < 3; ++i) { x.linear_dofs[i].offset_min = (scalar)loff[i]; x.linear_dofs[i].offset_max = (scalar)hoff[i]; x.angular_dofs[i].limit_enabled = !afree[i]; } }); break;
    }
    vf::note("%s lim=%d stat=%d com=%d", kJ[kind], lim, stat, com); (void)e; int steps = 60 + (int)r.below(120); double maxe[4] = {};
    for (int i = 0; i < steps; ++i) {
        w.step(); D3 A = worldp(g, a, pa), B = worldp(g, b, pb); double er[4] = {}; if (!finite(B)) { c.fail("finite", "%s joint: position is not finite", kJ[kind]); return; }
        D3 xa = worldd(g, a, D3(fa.column(0))), ya = worldd(g, a, D3(fa.column(1))), za = worldd(g, a, D3(fa.column(2))), xb = worldd(g, b, D3(fb.column(0))), yb = worldd(g, b, D3(fb.column(1))), zb = worldd(g, b, D3(fb.column(2)));
        switch (kind) {
        case 0: er[0] = ddist(A, B); break; case 1: er[0] = std::abs(ddist(A, B) - dist); break;
        case 2: { er[0] = ddist(A, B); er[1] = ddist(xa, xb); double an = std::atan2(ddot(yb, za), ddot(yb, ya)); if (lim) er[2] = std::max({0.0, lo - an, an - hi}); break; }
        case 3: { er[0] = ddist(A, B); if (ddot(xa, xb) < -0.9) { c.event("cv-folded"); return; } D3 ax = dcross(xb, xa); double k = 1 / (1 + ddot(xa, xb)); auto arc = [&](D3 v) { return v * ddot(xa, xb) + dcross(ax, v) + ax * (ddot(ax, v) * k); }; D3 y = arc(yb); double an = std::atan2(ddot(y, za), ddot(y, ya)); er[2] = lim ? std::max({0.0, lo - an, an - hi}) : std::abs(an); break; }
        case 4: { D3 d = B - A; double x = ddot(d, xa), y = ddot(d, ya) / span[0], z = ddot(d, za) / span[1]; double ex = (std::hypot(y, z) - x); er[0] = std::max(0.0, ex); break; }
        default: { D3 d = B - A; D3 ax[3] = {xa, ya, za}; for (int k = 0; k < 3; ++k) { double o = ddot(d, ax[k]); er[0] = std::max(er[0], std::max(loff[k] - o, o - hoff[k])); } if (!afree[0] && !afree[1] && !afree[2]) er[1] = std::max({ddist(xa, xb), ddist(ya, yb), ddist(za, zb)}); break; }
        }
        for (int k = 0; k < 4; ++k) maxe[k] += er[k] / steps;
    }
    static const double lim_[6][3] = {{0.04, 0, 0}, {0.35, 0, 0}, {0.04, 0.05, 0.005}, {0.5, 0, 1}, {0.04, 0, 0}, {0.08, 0.1, 0}}; static const char *what[3] = {"position", "axis", "angle"};
    for (int k = 0; k < 3; ++k) if (lim_[kind][k] > 0 && !(maxe[k] <= lim_[kind][k])) c.fail((std::string("joint-") + kJ[kind]).c_str(), "%s joint is violated by %g on average (%s) over %d steps (limits=%d, static=%d, centre of mass=%d)", kJ[kind], maxe[k], what[k], steps, lim, stat, com);
    c.event(kJ[kind]); c.hit(hv(anchor.x, pa.x, pb.y, kind));
}
VF_SECTION(attraction, 200, 4000) { // gravity between two bodies
    auto &r = c.r; World w(1.0 / 60); auto &g = w.reg; set_gravity(g, vector3_zero); D3 p0 = rnd_vec(r, 5), p1 = p0 + rnd_unitD(r) * r.uni(5, 10); ent e[2]; double m[2]; for (int i = 0; i < 2; ++i) { rigidbody_def d; d.mass = (scalar)r.logu(1e9, 1e11); m[i] = d.mass; d.inertia = matrix3x3_identity; d.inertia->row[0].x = 1; d.position = (i ? p1 : p0).v(); d.linvel = rnd_vec(r, 0.2); d.sleeping_disabled = true; e[i] = make_rigidbody(g, d); }
    make_constraint<gravity_constraint>(g, e[0], e[1]); int n = 1 + (int)r.below(20); for (int i = 0; i < n; ++i) { D3 a = w.pos(e[0]), b = w.pos(e[1]), va = w.vel(e[0]), vb = w.vel(e[1]); double l = ddist(a, b); if (l < 1) break; w.step(); D3 u = (b - a) / l; double G = 6.674e-11, ka = G * m[1] / (l * l) * w.dt, kb = G * m[0] / (l * l) * w.dt; D3 da = w.vel(e[0]) - va, db = w.vel(e[1]) - vb; double tol = 1e-3 * (ka + kb) + 2e-6; if (ddist(da, u * ka) > tol || ddist(db, u * -kb) > tol) { c.fail("attraction", "bodies of mass %g and %g at distance %g: velocities changed by " F3 " and " F3 ", expected %g and %g along " F3, m[0], m[1], l, P3(da), P3(db), ka, -kb, P3(u)); break; } c.event("attractions"); }
    c.hit(hv(m[0], m[1], p0.x));
}
VF_SECTION(spring, 300, 6000) { // springs along a line between a static and a dynamic body
    auto &r = c.r; World w(1.0 / rpick(r, {60, 120, 240})); auto &g = w.reg; set_gravity(g, vector3_zero); D3 u = rnd_unitD(r), p0 = rnd_vec(r, 3); p0 = D3(p0.v()); double L = r.uni(0.5, 2), rest = L * r.uni(0.5, 1.5), m = r.logu(0.3, 5), k = r.uni(1, 40) * m, v0 = r.uni(-1, 1); bool flip = r.chance(0.5), second = r.chance(0.5);
    rigidbody_def d; d.kind = second ? rigidbody_kind::rb_dynamic : rigidbody_kind::rb_static; double m1 = r.logu(0.3, 5); d.mass = (scalar)m1; d.inertia = matrix3x3_identity; d.position = p0.v(); d.sleeping_disabled = true; ent a = make_rigidbody(g, d); d.kind = rigidbody_kind::rb_dynamic; d.mass = (scalar)m; d.position = (p0 + u * L).v(); d.linvel = (u * v0).v(); ent b = make_rigidbody(g, d); double im1 = second ? 1 / m1 : 0;
    double damp = r.chance(0.4) ? r.uni(0.1, 3) * m : 0; make_constraint<soft_distance_constraint>(g, flip ? b : a, flip ? a : b, [&](auto &x) { x.pivot = {vector3_zero, vector3_zero}; x.distance = (scalar)rest; x.stiffness = (scalar)k; x.damping = (scalar)damp; });
    int n = 1 + (int)r.below(40); for (int i = 0; i < n; ++i) { D3 pa = w.pos(a), pb = w.pos(b), va = w.vel(a), vb = w.vel(b); double l = ddist(pa, pb); if (l < 0.1) { c.event("collapsed"); break; } D3 x = (pb - pa) / l; double rel = ddot(vb - va, x); w.step(); double f = k * (rest - l) * w.dt; // damping acts after the spring, up to its limit
        double lim = damp * std::abs(rel) * w.dt, dv = f / m; D3 d1 = w.vel(b) - vb, d0 = w.vel(a) - va; double tol = 0.02 * std::abs(dv) + 1e-4 + 1e-4 * dlen(vb) + lim * 1.02 / m; if (std::abs(ddot(d1, x) - dv) > tol || dlen(d1 - x * ddot(d1, x)) > 1e-3 * (1 + dlen(d1))) { c.fail("spring-force", "spring of stiffness %g stretched by %g moved a body of mass %g by " F3 " along " F3 " in a step, expected %g (damping limit %g)", k, l - rest, m, P3(d1), P3(x), dv, lim / m); break; }
        if (dlen(d0 * 1.0 + d1 * (m * im1)) > 0.01 * dlen(d1) * m * im1 + 1e-4) { c.fail("spring-reaction", "the ends of a spring got different impulses"); break; } if (damp > 0) { double nr = ddot(w.vel(b) - w.vel(a), x), un = rel + f / m + f * im1, dd = nr - un; if (dd * un > 1e-4) { c.fail("spring-damping", "damping sped up the ends of a spring (%g -> %g)", un, nr); break; } if (std::abs(un) > 0.01 + lim * (1 / m + im1) * 1.1 && std::abs(std::abs(dd) - lim * (1 / m + im1)) > 0.05 * std::abs(lim) * (1 / m + im1) + 3e-4) { c.fail("spring-damping", "damping %g changed a relative speed of %g by %g", damp, rel, dd); break; } c.event("damped"); } c.event("springs"); }
    c.hit(hv(L, m, k, v0));
}
VF_SECTION(hinge_torque, 300, 6000) { // friction, motor and limits of a hinge about a fixed axis
    auto &r = c.r; World w(1.0 / rpick(r, {60, 120})); auto &g = w.reg; set_gravity(g, vector3_zero); D3 ax = rnd_unitD(r); ax = dnorm(D3(ax.v())); double I = r.logu(0.1, 3), w0 = r.uni(-3, 3); D3 p = rnd_vec(r, 2);
    rigidbody_def d; d.kind = rigidbody_kind::rb_static; d.position = D3(p).v(); d.orientation = rnd_quat(r); d.mass = 1; d.inertia = matrix3x3_identity; ent a = make_rigidbody(g, d); d.kind = rigidbody_kind::rb_dynamic; d.mass = 1; d.inertia = matrix3x3{vector3{(scalar)I, 0, 0}, vector3{0, (scalar)I, 0}, vector3{0, 0, (scalar)I}}; d.angvel = (ax * w0).v(); d.orientation = rnd_quat(r); d.sleeping_disabled = true; ent b = make_rigidbody(g, d); bool flip = r.chance(0.5);
    double torque = r.uni(0.05, 2), speed = r.chance(0.5) ? 0 : r.uni(-3, 3), damp = r.chance(0.3) ? r.uni(0.1, 1) : 0; ent A = flip ? b : a, B = flip ? a : b; D3 la = drot(dconj(w.orn(A)), ax), lb = drot(dconj(w.orn(B)), ax);
    make_constraint<hinge_constraint>(g, A, B, [&](auto &x) { x.pivot = {vector3_zero, vector3_zero}; x.set_axes(la.v(), lb.v()); x.torque = (scalar)torque; x.speed = (scalar)speed; x.damping = (scalar)damp; });
    double target = NAN; int n = 20 + (int)r.below(60); for (int i = 0; i < n; ++i) { double o = ddot(w.ang(b), ax); w.step(); D3 wn = w.ang(b); double o1 = ddot(wn, ax); if (dlen(wn - ax * o1) > 5e-3 * (1 + std::abs(o1))) { c.fail("hinge-axis", "angular velocity leaves the axis of a hinge by %g", dlen(wn - ax * o1)); break; } double lim = (torque + damp * std::abs(o)) * w.dt / I; if (std::abs(o1 - o) > lim * 1.01 + 1e-4) { c.fail("hinge-torque", "hinge with torque %g and damping %g changed the speed of inertia %g by %g in a step, limit %g", torque, damp, I, o1 - o, lim); break; } target = o1; c.event("hinge-steps"); }
    double T = n * w.dt * torque / I; double goal = std::abs(target) - std::abs(speed); if (T > std::abs(w0) + std::abs(speed) + 0.2 && std::abs(goal) > 0.05) c.fail("hinge-speed", "hinge motor of speed %g and torque %g left inertia %g at speed %g", speed, torque, I, target); c.hit(hv(I, w0, torque, speed));
}
VF_SECTION(joint_fuzz, 200, 4000) { // every parameter of every joint: finite, no sanitizer report
    auto &r = c.r; World w(1.0 / 60); auto &g = w.reg; int n = 2 + (int)r.below(4); std::vector<ent> es; for (int i = 0; i < n; ++i) es.push_back(jbody(r, g, i == 0 && r.chance(0.5) ? rigidbody_kind::rb_static : rigidbody_kind::rb_dynamic, D3(rnd_vec(r, 1)), rnd_quat(r), D3(rnd_vec(r, r.chance(0.5) ? 0 : 1)), D3(rnd_vec(r, r.chance(0.5) ? 0 : 1)))); std::vector<ent> js; auto P = [&] { return r.chance(0.5) ? scalar(0) : (scalar)r.uni(0.01, 1); }; uint64_t h = 0;
    auto add = [&](int i) { ent a = es[i], b = es[i + 1]; int k = (int)r.below(7); h = vf::mix(h * 7 + k); auto V = [&] { return r.chance(0.2) ? vector3_zero : rnd_vec(r, 0.5); }; matrix3x3 fa = frame_of(r, rnd_quat(r)), fb = frame_of(r, rnd_quat(r)); scalar lo = -P(), hi = P(); ent e = entt::null;
        if (k == 0) e = make_constraint<point_constraint>(g, a, b, [&](auto &x) { x.pivot = {V(), V()}; x.friction_torque = P(); }); else if (k == 1) e = make_constraint<distance_constraint>(g, a, b, [&](auto &x) { x.pivot = {V(), V()}; x.distance = P(); }); else if (k == 2) e = make_constraint<soft_distance_constraint>(g, a, b, [&](auto &x) { x.pivot = {V(), V()}; x.distance = P(); x.stiffness = P() * 20; x.damping = P(); });
        else if (k == 3) e = make_constraint<hinge_constraint>(g, a, b, [&](auto &x) { x.pivot = {V(), V()}; x.frame = {fa, fb}; x.angle_min = lo; x.angle_max = hi; x.limit_restitution = P(); x.bump_stop_angle = P() * (scalar)0.3; x.bump_stop_stiffness = P(); x.torque = P(); x.speed = P(); x.rest_angle = P(); x.stiffness = P(); x.damping = P(); x.reset_angle(g.get<orientation>(a), g.get<orientation>(b)); });
        else if (k == 4) e = make_constraint<cvjoint_constraint>(g, a, b, [&](auto &x) { x.pivot = {V(), V()}; x.frame = {fa, fb}; x.twist_min = lo; x.twist_max = hi; x.twist_restitution = P(); x.twist_bump_stop_angle = P() * (scalar)0.3; x.twist_bump_stop_stiffness = P(); x.twist_friction_torque = P(); x.twist_rest_angle = P(); x.twist_stiffness = P(); x.twist_damping = P(); x.rest_direction = rnd_unit(r); x.bend_stiffness = P(); x.bend_friction_torque = P(); x.bend_damping = P(); x.reset_angle(g.get<orientation>(a), g.get<orientation>(b)); });
        else if (k == 5) e = make_constraint<cone_constraint>(g, a, b, [&](auto &x) { x.pivot = {V(), V()}; x.frame = fa; x.span_tan = {(scalar)r.uni(0.1, 2), (scalar)r.uni(0.1, 2)}; x.restitution = P(); x.bump_stop_stiffness = P(); x.bump_stop_length = P(); });
        else e = make_constraint<generic_constraint>(g, a, b, [&](auto &x) { x.pivot = {V(), V()}; x.frame = {fa, fb}; for (int i = 0; i < 3; ++i) { auto &l = x.linear_dofs[i]; l.limit_enabled = r.chance(0.5); l.offset_min = -P(); l.offset_max = P(); l.limit_restitution = P(); l.bump_stop_length = P() * (scalar)0.3; l.bump_stop_stiffness = P(); l.friction_force = P(); l.rest_offset = P(); l.spring_stiffness = P(); l.damping = P(); auto &m = x.angular_dofs[i]; m.limit_enabled = r.chance(0.5); m.angle_min = -P(); m.angle_max = P(); m.limit_restitution = P(); m.bump_stop_angle = P() * (scalar)0.3; m.bump_stop_stiffness = P(); m.friction_torque = P(); m.rest_angle = P(); m.spring_stiffness = P(); m.damping = P(); } }); js.push_back(e); };
    for (int i = 0; i + 1 < n; ++i) add(i); int steps = 30 + (int)r.below(60); for (int i = 0; i < steps; ++i) { w.step(); if (r.chance(0.05) && !js.empty()) { size_t k = r.below(js.size()); g.destroy(js[k]); js.erase(js.begin() + k); } for (auto e : es) { D3 p = w.pos(e), v = w.vel(e); if (!finite(p) || !finite(v)) { c.fail("finite", "body in a joint is at " F3 " with velocity " F3, P3(p), P3(v)); return; } } c.event("fuzz-steps"); }
    c.hit(h ^ hv(c.idx));
}
#endif
#if VF_PART == 5 || VF_PART == 7
static long g_step_no; // advanced by the pre-step callback
struct Events { // what a user sees through the signals of the registry
    vf::ctx &c; entt::registry &g; std::map<uint32_t, int> live; long created = 0, started = 0, destroyed = 0; std::map<uint32_t, vector3> first; std::map<uint32_t, long> born; std::set<uint32_t> orphan; bool async = false;
    Events(vf::ctx &c_, entt::registry &g_) : c(c_), g(g_) { g.on_construct<contact_point>().connect<&Events::made>(*this); g.on_destroy<contact_point>().connect<&Events::gone>(*this); g.on_construct<contact_started_tag>().connect<&Events::start>(*this); }
    ~Events() { g.on_construct<contact_point>().disconnect<&Events::made>(*this); g.on_destroy<contact_point>().disconnect<&Events::gone>(*this); g.on_construct<contact_started_tag>().disconnect<&Events::start>(*this); }
    void made(entt::registry &, ent e) { ++created; if (!live.emplace((uint32_t)e, 0).second) c.fail("event-created", "contact point %u is announced twice", (uint32_t)e); born[(uint32_t)e] = g_step_no; if (!g.all_of<contact_point_list>(e) || !g.valid(g.get<contact_point_list>(e).parent) || !g.all_of<contact_manifold>(g.get<contact_point_list>(e).parent)) { if (async) orphan.insert((uint32_t)e); else c.fail("event-created", "a new contact point has no manifold"); } if (auto *i = g.try_get<contact_point_impulse>(e); i && !async) if (i->normal_impulse != 0 || i->friction_impulse[0] != 0 || i->friction_impulse[1] != 0) c.fail("event-created", "a new contact point already has an impulse"); }
    void start(entt::registry &, ent e) { ++started; auto it = live.find((uint32_t)e); if (it == live.end()) { c.fail("event-started", "contact %u started but was never announced", (uint32_t)e); return; } if (it->second++) c.fail("event-started", "contact %u started twice", (uint32_t)e); if (born[(uint32_t)e] != g_step_no) c.fail("event-started", "contact %u starts %ld steps after it was created", (uint32_t)e, g_step_no - born[(uint32_t)e]); if (auto *i = g.try_get<contact_point_impulse>(e)) first[(uint32_t)e] = {i->normal_impulse, i->friction_impulse[0], i->friction_impulse[1]}; }
    void gone(entt::registry &, ent e) { ++destroyed; orphan.erase((uint32_t)e); if (!live.erase((uint32_t)e)) c.fail("event-destroyed", "contact point %u ends but was never announced", (uint32_t)e); }
    void check(const char *when) { size_t n = 0; if (!orphan.empty()) c.fail("event-created", "%s: %zu contact points were announced without a manifold and never ended", when, orphan.size()); for (auto e : g.view<contact_point>()) { ++n; auto it = live.find((uint32_t)e); if (it == live.end()) { c.fail("event-created", "%s: contact point %u was never announced", when, (uint32_t)e); return; } if (!async && it->second != 1) { c.fail("event-started", "%s: contact %u has not started after the step that created it", when, (uint32_t)e); return; } if (!async && !g.all_of<contact_started_tag>(e)) c.fail("event-started", "%s: contact %u lost its tag", when, (uint32_t)e);
            if (auto f = first.find((uint32_t)e); f != first.end()) if (auto *i = g.try_get<contact_point_impulse>(e); i && !async && born[(uint32_t)e] == g_step_no) { if (f->second.x != i->normal_impulse || f->second.y != i->friction_impulse[0] || f->second.z != i->friction_impulse[1]) c.fail("event-impulse", "%s: contact %u started with impulse %g, the first step applied %g", when, (uint32_t)e, (double)f->second.x, (double)i->normal_impulse); c.event(i->normal_impulse > 0 ? "started_pushing" : "started_idle"); } }
        if (n != live.size()) c.fail("event-destroyed", "%s: %zu contact points exist, %zu were announced and did not end", when, n, live.size()); }
};
#endif
#if VF_PART == 5
// which pairs get a contact manifold, and the collision events a user observes
static bool box_near(const AABB &a, const AABB &b, double d) { D3 l(a.min), h(a.max), m(b.min), k(b.max); for (int i = 0; i < 3; ++i) if (l.at(i) - d > k.at(i) || m.at(i) - d > h.at(i)) return false; return true; }
struct Snap { std::map<uint32_t, AABB> box; std::set<uint32_t> awake, off; std::map<std::pair<uint32_t, uint32_t>, std::pair<uint32_t, bool>> man; long steps = 0; };
static Snap g_snap; static void take(entt::registry &g) { long n = g_snap.steps; g_snap = {}; g_snap.steps = n + 1; g_step_no = n + 1; for (auto [e, b] : g.view<rigidbody_tag, AABB>().each()) { g_snap.box[(uint32_t)e] = b; if (is_proc(g, e) && !g.any_of<sleeping_tag, disabled_tag>(e)) g_snap.awake.insert((uint32_t)e); if (g.all_of<disabled_tag>(e)) g_snap.off.insert((uint32_t)e); } for (auto [e, m] : g.view<contact_manifold>().each()) g_snap.man[std::minmax((uint32_t)m.body[0], (uint32_t)m.body[1])] = {(uint32_t)e, g.any_of<sleeping_tag, disabled_tag>(e)}; }
struct Filter { uint64_t group = ~0ull, mask = ~0ull; };
static bool parity(const entt::registry &, ent a, ent b) { return a != b && ((entt::to_integral(a) + entt::to_integral(b)) & 1); }
VF_SECTION(pairs, 120, 2400) {
    auto &r = c.r; bool mt = r.chance(0.35); World w(1.0 / 60, mt ? execution_mode::sequential_multithreaded : execution_mode::sequential, mt ? 1 + r.below(4) : 0); auto &g = w.reg; g_snap = {}; g_step_no = 0; set_pre_step_callback(g, &take); Events ev(c, g); double box = r.uni(0.8, 3); if (r.chance(0.5)) make_floor(g); if (r.chance(0.5)) set_gravity(g, vector3_zero); uint64_t h = 0; bool custom = r.chance(0.15); if (custom) set_should_collide(g, &parity);
    std::vector<ent> bs; std::map<uint32_t, Filter> fil; std::set<std::pair<uint32_t, uint32_t>> ex; auto key = [](ent a, ent b) { return std::make_pair(std::min((uint32_t)a, (uint32_t)b), std::max((uint32_t)a, (uint32_t)b)); }; auto nex = [&](ent a) { int n = 0; for (auto &p : ex) n += p.first == (uint32_t)a || p.second == (uint32_t)a; return n; };
    auto collides = [&](uint32_t a, uint32_t b) { if (custom) return parity(g, ent(a), ent(b)); Filter x, y; if (fil.count(a)) x = fil[a]; if (fil.count(b)) y = fil[b]; return (x.group & y.mask) && (y.group & x.mask) && !ex.count(std::minmax(a, b)); };
    auto make = [&] { rigidbody_def d; double k = r.unit(); d.kind = k < 0.7 ? rigidbody_kind::rb_dynamic : k < 0.85 ? rigidbody_kind::rb_kinematic : rigidbody_kind::rb_static; d.position = rnd_vec(r, box); d.position.y += (scalar)(box + 0.5); d.orientation = rnd_quat(r); d.linvel = rnd_vec(r, r.chance(0.2) ? 6 : 1); d.angvel = rnd_vec(r, 1); d.mass = (scalar)r.uni(0.5, 5); d.shape = rnd_shape(r, 0.5); if (r.chance(0.1)) d.material.reset(); else { d.material->restitution = (scalar)(r.chance(0.3) ? r.unit() : 0); if (r.chance(0.1)) d.material->spin_friction = d.material->roll_friction = (scalar)0.01; } d.sleeping_disabled = r.chance(0.3); Filter f; if (r.chance(0.3)) { f.group = r.chance(0.5) ? 1ull << r.below(64) : r.next(); f.mask = r.chance(0.3) ? r.next() : ~(1ull << r.below(64)); if (r.chance(0.5)) { f.group = 1ull << r.below(3); f.mask = r.below(8); } d.collision_group = f.group; d.collision_mask = f.mask; } ent e = make_rigidbody(g, d); if (f.group != ~0ull || f.mask != ~0ull) fil[(uint32_t)e] = f; bs.push_back(e); };
    int n0 = r.chance(0.4) ? 20 + (int)r.below(30) : 2 + (int)r.below(12); for (int i = 0; i < n0; ++i) make(); int ops = 15 + (int)r.below(25);
    for (int i = 0; i < ops; ++i) {
        int op = (int)r.below(9); h = vf::mix(h * 31 + op); vf::note("op %d of step %d", op, i); ent a = bs.empty() ? ent(entt::null) : bs[r.below(bs.size())], b = bs.empty() ? ent(entt::null) : bs[r.below(bs.size())];
        if (op == 0 || bs.size() < 2) { if (bs.size() < 60) make(); }
        else if (op == 1 && a != b) { if (nex(a) < 15 && nex(b) < 15) { exclude_collision(g, a, b); ex.insert(key(a, b)); c.event("exclusions"); } }
        else if (op == 2 && !ex.empty()) { auto it = ex.begin(); std::advance(it, r.below(ex.size())); ent x = ent(it->first), y = ent(it->second); if (r.chance(0.5)) { if (r.chance(0.5)) std::swap(x, y); remove_collision_exclusion(g, x, y); ex.erase(it); } else { if (r.chance(0.5)) std::swap(x, y); clear_collision_exclusion(g, x); for (auto q = ex.begin(); q != ex.end();) if (q->first == (uint32_t)x || q->second == (uint32_t)x) q = ex.erase(q); else ++q; } c.event("inclusions"); }
        else if (op == 3 && r.chance(0.5)) { bs.erase(std::find(bs.begin(), bs.end(), a)); fil.erase((uint32_t)a); for (auto q = ex.begin(); q != ex.end();) if (q->first == (uint32_t)a || q->second == (uint32_t)a) q = ex.erase(q); else ++q; g.destroy(a); }
        else if (op == 4) { Filter f; f.group = 1ull << r.below(3); f.mask = r.chance(0.5) ? ~0ull : r.below(8); g.emplace_or_replace<collision_filter>(a, f.group, f.mask); fil[(uint32_t)a] = f; }
        else if (op == 5 && g.all_of<kinematic_tag>(a)) { set_kinematic_position(g, a, (w.pos(a) + D3(rnd_vec(r, 0.5))).v(), (scalar)w.dt); wake_up_entity(g, a); }
        else if (op == 6 && g.all_of<dynamic_tag>(a)) { rigidbody_apply_impulse(g, a, rnd_vec(r, 10), rnd_vec(r, 0.3)); wake_up_entity(g, a); }
        int n = r.chance(0.05) ? 40 : 1 + (int)r.below(3); for (int k = 0; k < n; ++k) {
            long s0 = g_snap.steps; w.step(); if (g_snap.steps != s0 + 1) { if (g_snap.steps > s0 + 1) c.event("double_steps"); continue; }
            ev.check("after update"); auto &sn = g_snap; std::map<std::pair<uint32_t, uint32_t>, uint32_t> now; const double T = (double)contact_breaking_threshold;
            for (auto [e, m] : g.view<contact_manifold>().each()) { auto p = std::make_pair(std::min((uint32_t)m.body[0], (uint32_t)m.body[1]), std::max((uint32_t)m.body[0], (uint32_t)m.body[1])); now[p] = (uint32_t)e; bool was = sn.man.count(p) && sn.man[p].first == (uint32_t)e; if (!was) { if (!collides(p.first, p.second)) c.fail("pair-filtered", "bodies %u and %u must not collide but got a manifold", p.first, p.second); if (!box_near(sn.box.at(p.first), sn.box.at(p.second), T * 1.01 + 1e-4)) c.fail("pair-apart", "bodies %u and %u got a manifold while their bounding boxes are apart", p.first, p.second); c.event("new_manifolds"); } else if (!sn.man[p].second && !box_near(sn.box.at(p.first), sn.box.at(p.second), T * 1.31 + 1e-4)) c.fail("pair-stale", "bodies %u and %u keep a manifold although their bounding boxes came apart", p.first, p.second); }
            for (auto a : sn.awake) for (auto &q : sn.box) { uint32_t b = q.first; if (b == a || sn.off.count(b)) continue; auto p = std::make_pair(std::min(a, b), std::max(a, b)); bool col = collides(a, b), near = box_near(sn.box[a], q.second, T * 0.99 - 1e-4); if (near) c.event(col ? "near" : "near_filtered"); if (col && near && !now.count(p)) { c.fail("pair-missed", "%s: bodies %u and %u overlap and may collide but have no manifold", mt ? "multi-threaded" : "sequential", a, b); return; } if (near && sn.man.count(p) && now.count(p) && sn.man[p].first != now[p]) c.fail("pair-replaced", "the manifold of bodies %u and %u was replaced while they touch", a, b); }
            if (k == 0) check_structure(c, g, "after update");
        }
    }
    while (!bs.empty() && r.chance(0.9)) { g.destroy(bs.back()); bs.pop_back(); } size_t n = 0; for (auto e : g.view<contact_point>()) { (void)e; ++n; } if (n != ev.live.size()) c.fail("event-destroyed", "after destroying bodies %zu contact points exist, %zu were announced and did not end", n, ev.live.size());
    if (ev.created - ev.destroyed != (long)n) c.fail("event-count", "%ld created, %ld destroyed, %zu left", ev.created, ev.destroyed, n); c.event("points_created", ev.created); c.event("points_started", ev.started); c.event("points_destroyed", ev.destroyed); c.event(mt ? "multithreaded" : "sequential"); c.hit(h); c.sample("%s, %d bodies, %zu exclusions: %ld contact points created, %ld started, %ld destroyed", mt ? "multi-threaded" : "sequential", (int)bs.size(), ex.size(), ev.created, ev.started, ev.destroyed);
}
#endif
#if VF_PART == 6
// the same scene stepped twice: sequentially and with worker threads, or sequentially both times
static void scene(vf::rng r, World &w, std::vector<ent> &bs, std::vector<ent> &cs) {
    auto &g = w.reg; int n = r.chance(0.5) ? 25 + (int)r.below(60) : 3 + (int)r.below(20); double box = 0.25 * std::cbrt((double)n) * r.uni(0.7, 2.5); if (r.chance(0.8)) make_floor(g); if (r.chance(0.3)) set_gravity(g, vector3_zero); if (r.chance(0.3)) set_solver_velocity_iterations(g, 1 + (unsigned)r.below(15)); if (r.chance(0.3)) set_solver_position_iterations(g, (unsigned)r.below(6));
    if (r.chance(0.2)) { rigidbody_def d; d.kind = rigidbody_kind::rb_static; d.shape = mesh_shape{grid_mesh(r, 6, 1.0, 0.1)}; make_rigidbody(g, d); }
    for (int i = 0; i < n; ++i) { rigidbody_def d; double k = r.unit(); d.kind = k < 0.85 ? rigidbody_kind::rb_dynamic : k < 0.95 ? rigidbody_kind::rb_kinematic : rigidbody_kind::rb_static; d.position = rnd_vec(r, box); d.position.y += (scalar)(box + 0.3); d.orientation = rnd_quat(r); d.linvel = rnd_vec(r, 2); d.angvel = rnd_vec(r, 2); d.mass = (scalar)r.uni(0.5, 5); d.shape = rnd_shape(r, 0.5); if (r.chance(0.1)) d.material.reset(); else { d.material->restitution = (scalar)(r.chance(0.3) ? r.unit() : 0); if (r.chance(0.2)) d.material->spin_friction = d.material->roll_friction = (scalar)0.01; if (r.chance(0.1)) { d.material->stiffness = 5000; d.material->damping = 100; } } bs.push_back(make_rigidbody(g, d)); }
    int m = (int)r.below(n); for (int i = 0; i < m; ++i) { ent a = bs[r.below(n)], b = bs[r.below(n)]; if (a == b || !g.all_of<dynamic_tag>(a)) continue; int k = (int)r.below(5); if (k == 0) cs.push_back(make_constraint<point_constraint>(g, a, b, [&](auto &x) { x.pivot = {rnd_vec(r, 0.3), rnd_vec(r, 0.3)}; x.friction_torque = (scalar)(r.chance(0.3) ? 0.1 : 0); })); else if (k == 1) cs.push_back(make_constraint<distance_constraint>(g, a, b, [&](auto &x) { x.pivot = {vector3_zero, vector3_zero}; x.distance = (scalar)r.uni(0.5, 2); })); else if (k == 2) cs.push_back(make_constraint<soft_distance_constraint>(g, a, b, [&](auto &x) { x.pivot = {vector3_zero, vector3_zero}; x.distance = 1; x.stiffness = 100; x.damping = 1; })); else if (k == 3) cs.push_back(make_constraint<hinge_constraint>(g, a, b, [&](auto &x) { x.pivot = {rnd_vec(r, 0.3), rnd_vec(r, 0.3)}; x.set_axes({1, 0, 0}, {0, 1, 0}); })); else cs.push_back(make_constraint<cvjoint_constraint>(g, a, b, [&](auto &x) { x.pivot = {rnd_vec(r, 0.3), rnd_vec(r, 0.3)}; })); if (r.chance(0.5)) exclude_collision(g, a, b); }
}
VF_SECTION(twice, 60, 1200) {
    auto &r = c.r; vf::rng r2 = r; r.next(); bool mt = r.chance(0.75); size_t workers = 1 + r.below(7); double dt = 1.0 / rpick(r, {30, 60, 120}); World b(dt, mt ? execution_mode::sequential_multithreaded : execution_mode::sequential, mt ? workers : 0), a(dt, execution_mode::sequential); /* the first one decides how many threads there are */ std::vector<std::unique_ptr<char[]>> junk; std::vector<ent> ba, bb, ca, cb; scene(r2, a, ba, ca); if (!mt) for (int i = 0; i < 500; ++i) { junk.push_back(std::make_unique<char[]>(8 + r.below(4000))); if (r.chance(0.5)) junk.pop_back(); } scene(r2, b, bb, cb);
    int steps = 1 + (int)r.below(20); long cons = 0; double worst = 0;
    for (int s = 0; s < steps; ++s) {
        a.step(); b.step(); size_t pa = a.reg.view<contact_point>().size(), pb = b.reg.view<contact_point>().size(); if (pa != pb) { if (mt && worst > 0) { c.event("diverged"); return; } c.fail(mt ? "mt-contacts" : "rerun-contacts", "step %d: %zu contact points sequentially, %zu %s", s, pa, pb, mt ? "with threads" : "the second time"); return; } cons = std::max(cons, (long)pa);
        for (size_t i = 0; i < ba.size(); ++i) { double d = ddist(a.pos(ba[i]), b.pos(bb[i])) + ddist(a.vel(ba[i]), b.vel(bb[i])) + ddist(a.ang(ba[i]), b.ang(bb[i])); worst = std::max(worst, d); if (!(d <= (mt && s < 3 ? 0.02 : 0))) { if (mt && worst < 1e-3 * std::pow(4, s)) { c.event("diverged"); return; } c.fail(mt ? "mt-motion" : "rerun-motion", "step %d of %zu bodies, %zu joints: body %zu differs by %g %s", s, ba.size(), ca.size(), i, d, mt ? "between sequential and multi-threaded execution" : "from the same scene simulated before"); return; } }
        std::set<std::pair<size_t, size_t>> ma, mb; auto idx = [](std::vector<ent> &v, ent e) { return (size_t)(std::find(v.begin(), v.end(), e) - v.begin()); }; for (auto [e, m] : a.reg.view<contact_manifold>().each()) { (void)e; ma.insert(std::minmax({idx(ba, m.body[0]), idx(ba, m.body[1])})); } for (auto [e, m] : b.reg.view<contact_manifold>().each()) { (void)e; mb.insert(std::minmax({idx(bb, m.body[0]), idx(bb, m.body[1])})); } if (ma != mb) { if (mt && worst > 0) { c.event("diverged"); return; } c.fail(mt ? "mt-manifolds" : "rerun-manifolds", "step %d: %zu and %zu manifolds that differ", s, ma.size(), mb.size()); return; }
    }
    check_structure(c, b.reg, "multi-threaded"); c.event(mt ? "multithreaded" : "sequential"); c.event("steps", steps); c.event("max_points", cons); if (cons > 128) c.event("over_128_points"); c.hit(hv(ba.size(), steps, cons, c.idx)); c.sample("%zu bodies, %zu joints, %d steps, %zu workers, up to %ld contact points: worst difference %g", ba.size(), ca.size(), steps, workers, cons, worst);
}
#endif
#if VF_PART == 7
// asynchronous execution: the simulation runs in its own thread on its own registry
#include "edyn/collision/raycast.hpp"
#include "edyn/collision/query_aabb.hpp"
#include "edyn/replication/register_external.hpp"
#include "edyn/simulation/stepper_async.hpp"
#include <atomic>
#include <mutex>
#include <thread>
struct user_key { int v; };
struct Body { D3 p, v, w; DQ q; bool sleeping, boxed; int kind, shape; D3 grav, com; double fr; AABB box; };
struct Copy { std::map<int, Body> b; std::multiset<std::tuple<int, int, int>> cons; std::map<std::pair<int, int>, int> man; size_t points = 0, islands = 0; };
static int key_of(entt::registry &g, ent e) { auto *k = g.valid(e) ? g.try_get<user_key>(e) : nullptr; return k ? k->v : -1; }
struct Want { D3 com; double fr; int kind; };
static Copy copy_of(entt::registry &g) {
    Copy k; for (auto e : g.view<rigidbody_tag>()) { Body b; b.p = D3(g.get<position>(e)); b.q = g.get<orientation>(e); if (auto *x = g.try_get<linvel>(e)) b.v = D3(*x); if (auto *x = g.try_get<angvel>(e)) b.w = D3(*x); b.sleeping = g.all_of<sleeping_tag>(e); b.kind = g.all_of<dynamic_tag>(e) + 2 * g.all_of<kinematic_tag>(e) + 4 * g.all_of<static_tag>(e); b.shape = g.all_of<shape_index>(e) ? (int)g.get<shape_index>(e).value : -1; if (auto *x = g.try_get<gravity>(e)) b.grav = D3(*x); if (auto *x = g.try_get<center_of_mass>(e)) b.com = D3(*x); if (auto *x = g.try_get<AABB>(e)) b.box = *x, b.boxed = true; else b.boxed = false; b.fr = g.all_of<material>(e) ? (double)g.get<material>(e).friction : -1; k.b[key_of(g, e)] = b; }
    int t = 0; std::apply([&](auto... c) { auto one = [&](auto c) { using T = decltype(c); ++t; if constexpr (!std::is_same_v<T, contact_constraint> && !std::is_same_v<T, contact_extras_constraint>) for (auto [e, x] : g.view<T>().each()) { (void)e; k.cons.insert({t, key_of(g, x.body[0]), key_of(g, x.body[1])}); } }; (one(c), ...); }, constraints_tuple);
    for (auto [e, m, st] : g.view<contact_manifold, contact_manifold_state>().each()) { (void)e; k.man[std::minmax({key_of(g, m.body[0]), key_of(g, m.body[1])})] = st.num_points; } k.points = g.view<contact_point>().size(); for (auto e : g.view<island_tag>()) { (void)e; k.islands++; } return k;
}
static std::array<ent, 2> joint_ends(entt::registry &g, ent x) { std::array<ent, 2> o{entt::null, entt::null}; std::apply([&](auto... c) { auto one = [&](auto c) { using T = decltype(c); if (auto *p = g.try_get<T>(x)) o = {p->body[0], p->body[1]}; }; (one(c), ...); }, constraints_tuple); return o; }
static std::mutex g_mx; static Copy g_copy; static std::atomic<long> g_steps; static std::atomic<bool> g_want; static std::atomic<int> g_rays;
static void post(entt::registry &w) { ++g_steps; if (g_want) { auto l = std::lock_guard(g_mx); g_copy = copy_of(w); } }
static void ray_back(raycast_id_type, const raycast_result &, vector3, vector3) { ++g_rays; }
struct Ray { raycast_id_type id; int done; ent e; }; static std::vector<Ray> g_asked;
static void ray_ans(raycast_id_type id, const raycast_result &res, vector3, vector3) { for (auto &x : g_asked) if (x.id == id) { ++x.done; x.e = res.entity; } }
static query_aabb_result g_found; static std::atomic<int> g_queries; static void query_back(query_aabb_id_type, const query_aabb_result &q) { g_found = q; ++g_queries; }
VF_SECTION(async, 24, 480) {
    auto &r = c.r; auto t0 = std::chrono::steady_clock::now(); double dt = 1.0 / rpick(r, {200, 500}); World w(dt, execution_mode::asynchronous, 1 + r.below(3), edyn::performance_time()); auto &g = w.reg; register_external_components<user_key>(g); g_steps = 0; g_want = false; g_asked.clear(); g_step_no = 0; set_post_step_callback(g, &post); Events ev(c, g); ev.async = true; int next = 1; std::map<int, ent> bs; std::map<int, Want> want; std::vector<ent> cs; uint64_t h = 0; bool paused = false;
    auto up = [&] { edyn::update(g); }; auto barrier = [&] { int n = g_rays; up(); raycast_async(g, {0, 1000, 0}, {0, 999, 0}, raycast_delegate_type{entt::connect_arg<&ray_back>}); auto t = std::chrono::steady_clock::now(); while (g_rays == n) { up(); std::this_thread::sleep_for(std::chrono::microseconds(200)); if (std::chrono::steady_clock::now() - t > std::chrono::seconds(60)) { c.fail("async-stuck", "the simulation thread does not answer"); return false; } } up(); return true; }; // rays that meet nothing are answered before others asked for earlier
    auto answered = [&] { auto t = std::chrono::steady_clock::now(); for (;;) { bool all = true; for (auto &q : g_asked) all &= q.done > 0; if (all) return true; if (std::chrono::steady_clock::now() - t > std::chrono::seconds(60)) return false; up(); std::this_thread::sleep_for(std::chrono::microseconds(200)); } };
    double box = r.uni(0.8, 3); auto floor_ = make_floor(g); g.emplace<user_key>(floor_, 0); bs[0] = floor_; want[0] = {D3{}, g.all_of<material>(floor_) ? (double)g.get<material>(floor_).friction : -1, 4};
    auto make = [&] { rigidbody_def d; double k = r.unit(); d.kind = k < 0.75 ? rigidbody_kind::rb_dynamic : k < 0.9 ? rigidbody_kind::rb_kinematic : rigidbody_kind::rb_static; d.position = rnd_vec(r, box); d.position.y += (scalar)(box + 0.5); d.orientation = rnd_quat(r); d.linvel = rnd_vec(r, 1); d.angvel = rnd_vec(r, 1); d.mass = (scalar)r.uni(0.5, 5); if (r.chance(0.9)) d.shape = rnd_shape(r, 0.5); else d.inertia = matrix3x3_identity; if (r.chance(0.1)) d.material.reset(); else d.material->restitution = (scalar)(r.chance(0.3) ? r.unit() : 0); d.sleeping_disabled = r.chance(0.3); if (r.chance(0.1) && d.kind == rigidbody_kind::rb_dynamic) d.center_of_mass = rnd_vec(r, 0.1); ent e = make_rigidbody(g, d); g.emplace<user_key>(e, next); want[next] = {d.center_of_mass ? D3(*d.center_of_mass) : D3{}, d.material ? (double)d.material->friction : -1, d.kind == rigidbody_kind::rb_dynamic ? 1 : d.kind == rigidbody_kind::rb_kinematic ? 2 : 4}; bs[next++] = e; };
    auto any = [&](auto pred) -> ent { for (int i = 0; i < 20; ++i) { auto it = bs.begin(); std::advance(it, r.below(bs.size())); if (pred(it->second)) return it->second; } return entt::null; }; auto dyn = [&](ent e) { return g.all_of<dynamic_tag>(e); };
    int n0 = 2 + (int)r.below(15); for (int i = 0; i < n0; ++i) make(); int ops = 10 + (int)r.below(25);
    for (int i = 0; i < ops; ++i) {
        int op = (int)r.below(16); h = vf::mix(h * 31 + op); vf::note("op %d of step %d", op, i); if (getenv("VF_TRACE")) fprintf(stderr, "op %d paused %d steps %ld\n", op, paused, (long)g_steps);
        if (op <= 1 || op == 14) { if (bs.size() < 30) make(); }
        else if (op == 2) { ent a = any([&](ent e) { return e != floor_; }); if (a != entt::null) { bs.erase(key_of(g, a)); g.destroy(a); cs.erase(std::remove_if(cs.begin(), cs.end(), [&](ent x) { return !g.valid(x); }), cs.end()); c.event("destroyed"); } }
        else if (op == 3) { ent a = any(dyn), b = any([&](ent e) { return e != a; }); if (a != entt::null && b != entt::null) { int k = (int)r.below(3); if (k == 0) cs.push_back(make_constraint<point_constraint>(g, a, b, [&](auto &x) { x.pivot = {rnd_vec(r, 0.5), rnd_vec(r, 0.5)}; })); else if (k == 1) cs.push_back(make_constraint<soft_distance_constraint>(g, a, b, [&](auto &x) { x.pivot = {vector3_zero, vector3_zero}; x.distance = 1; x.stiffness = 100; x.damping = 1; })); else cs.push_back(make_constraint<hinge_constraint>(g, a, b, [&](auto &x) { x.pivot = {vector3_zero, vector3_zero}; x.set_axes({1, 0, 0}, {0, 1, 0}); })); if (r.chance(0.4)) exclude_collision(g, a, b); c.event("joints"); } }
        else if (op == 4) { if (!cs.empty()) { size_t k = r.below(cs.size()); g.destroy(cs[k]); cs.erase(cs.begin() + k); } }
        else if (op == 5) { ent a = any(dyn); if (a != entt::null) { rigidbody_apply_impulse(g, a, rnd_vec(r, 2), rnd_vec(r, 0.2)); g.patch<linvel>(a); g.patch<angvel>(a); } }
        else if (op == 6) { ent a = any(dyn); if (a != entt::null) { g.replace<position>(a, position{rnd_vec(r, box) + vector3_y * (scalar)(box + 0.5)}); if (r.chance(0.5)) g.replace<orientation>(a, orientation{rnd_quat(r)}); if (g.all_of<center_of_mass>(a)) rigidbody_update_origin(g, a); } }
        else if (op == 7) { ent a = any([&](ent e) { return g.all_of<material>(e); }); if (a != entt::null) { scalar f = (scalar)r.unit(); set_rigidbody_friction(g, a, f); want[key_of(g, a)].fr = f; } }
        else if (op == 8) { ent a = any(dyn); if (a != entt::null) rigidbody_set_shape(g, a, rnd_shape(r, 0.5, false)); }
        else if (op == 9) { ent a = any([](ent) { return true; }); wake_up_entity(g, a); }
        else if (op == 10) { ent a = any(dyn); if (a != entt::null) g_asked.push_back({0, 0, entt::null}), g_asked.back().id = raycast_async(g, {(scalar)r.uni(-box, box), 20, (scalar)r.uni(-box, box)}, {(scalar)r.uni(-box, box), -1, (scalar)r.uni(-box, box)}, raycast_delegate_type{entt::connect_arg<&ray_ans>}); }
        else if (op == 11) { paused = !paused; set_paused(g, paused); }
        else if (op == 12) { ent a = any(dyn); if (a != entt::null) { auto x = rnd_vec(r, 0.1); set_center_of_mass(g, a, x); want[key_of(g, a)].com = D3(x); } }
        else if (op == 13) { // destroy while the results of a step are on their way
            if (!paused) set_paused(g, true); paused = true; if (!barrier()) return; int n = 1 + (int)r.below(4); for (int k = 0; k < n; ++k) { long s0 = g_steps; step_simulation(g); auto t = std::chrono::steady_clock::now(); while (g_steps == s0) { std::this_thread::sleep_for(std::chrono::microseconds(100)); if (std::chrono::steady_clock::now() - t > std::chrono::seconds(60)) { c.fail("async-stuck", "a single step is not taken"); return; } } } std::this_thread::sleep_for(std::chrono::milliseconds(1));
            int m = 1 + (int)r.below(3); for (int k = 0; k < m; ++k) { ent a = any([&](ent e) { return e != floor_; }); if (a != entt::null && r.chance(0.8)) { bs.erase(key_of(g, a)); g.destroy(a); c.event("destroyed_in_flight"); } else if (!cs.empty()) { size_t j = r.below(cs.size()); if (g.valid(cs[j])) g.destroy(cs[j]); cs.erase(cs.begin() + j); } cs.erase(std::remove_if(cs.begin(), cs.end(), [&](ent x) { return !g.valid(x); }), cs.end()); } if (r.chance(0.7)) { set_paused(g, false); paused = false; } }
        else if (op == 15) { ent a = any([&](ent e) { return e != floor_ && g.all_of<mass>(e) && (double)g.get<mass>(e) < 1e6; }); bool joined = false; if (a != entt::null) for (auto x : cs) { auto ends = joint_ends(g, x); joined |= ends[0] == a || ends[1] == a; } if (a != entt::null && !joined) { int k = (int)r.below(3); rigidbody_set_kind(g, a, k == 0 ? rigidbody_kind::rb_dynamic : k == 1 ? rigidbody_kind::rb_kinematic : rigidbody_kind::rb_static); want[key_of(g, a)].kind = 1 << k; c.event("kind_changes"); } }
        int n = (int)r.below(4); for (int k = 0; k < n; ++k) { up(); if (r.chance(0.6)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(6000))); }
        if (i == ops - 1 || r.chance(0.15)) { // checkpoint: both registries must agree
            if (!paused) set_paused(g, true); paused = true; if (!barrier()) return; long s0 = g_steps; g_want = true; step_simulation(g); if (!barrier()) return; g_want = false; if (g_steps != s0 + 1) c.fail("async-single-step", "%ld steps instead of one while paused", g_steps - s0); if (!barrier()) return; if (g_steps != s0 + 1) c.fail("async-paused", "the simulation goes on while paused");
            Copy m = copy_of(g), k; { auto l = std::lock_guard(g_mx); k = g_copy; } c.event("checkpoints");
            if (m.b.size() != bs.size()) c.fail("async-bodies", "%zu bodies, %zu were created", m.b.size(), bs.size()); for (auto &x : m.b) if (!k.b.count(x.first)) { c.fail("async-bodies", "body %d is not simulated", x.first); return; } for (auto &x : k.b) if (!m.b.count(x.first)) { c.fail("async-bodies", "body %d was destroyed but is still simulated", x.first); return; }
            for (auto &[id, x] : m.b) { auto &y = k.b[id]; double d = ddist(x.p, y.p) + ddist(x.v, y.v) + ddist(x.w, y.w) + std::abs(x.q.x - y.q.x) + std::abs(x.q.y - y.q.y) + std::abs(x.q.z - y.q.z) + std::abs(x.q.w - y.q.w); if (!(d <= (x.kind == 1 ? 0 : 1e-5))) { c.fail("async-motion", "body %d (kind %d) differs by %g from the simulation (%g %g %g)", id, x.kind, d, ddist(x.p, y.p), ddist(x.v, y.v), ddist(x.w, y.w)); } if (x.sleeping != y.sleeping) c.fail("async-sleep", "body %d sleeping=%d, in the simulation %d", id, x.sleeping, y.sleeping); if (x.kind != y.kind || x.shape != y.shape || x.fr != y.fr || ddist(x.grav, y.grav) != 0 || ddist(x.com, y.com) != 0) c.fail("async-component", "body %d: kind %d/%d shape %d/%d friction %g/%g com differs %d", id, x.kind, y.kind, x.shape, y.shape, x.fr, y.fr, ddist(x.com, y.com) != 0); if (want.count(id)) { auto &q = want[id]; if (x.kind != q.kind || (double)(scalar)x.fr != (double)(scalar)q.fr || !(ddist(x.com, q.com) <= 1e-6)) c.fail("async-intent", "body %d: kind %d, friction %g, centre of mass off by %g, asked for kind %d and friction %g", id, x.kind, x.fr, ddist(x.com, q.com), q.kind, q.fr); } c.event("bodies"); }
            if (m.cons != k.cons) c.fail("async-joints", "%zu joints, %zu in the simulation", m.cons.size(), k.cons.size()); if (m.man != k.man) { std::string o; for (auto &q : m.man) if (!k.man.count(q.first)) o += vf::fmt(" only here %d-%d", q.first.first, q.first.second); else if (k.man[q.first] != q.second) o += vf::fmt(" %d-%d has %d and %d points", q.first.first, q.first.second, q.second, k.man[q.first]); for (auto &q : k.man) if (!m.man.count(q.first)) o += vf::fmt(" only there %d-%d", q.first.first, q.first.second); c.fail("async-contacts", "%zu manifolds, %zu in the simulation:%s", m.man.size(), k.man.size(), o.c_str()); } if (m.points != k.points) c.fail("async-contacts", "%zu contact points, %zu in the simulation", m.points, k.points); if (m.islands != k.islands) c.fail("async-islands", "%zu islands, %zu in the simulation", m.islands, k.islands); c.event("manifolds", (long)m.man.size()); c.event("points", (long)m.points); ev.check("at a checkpoint"); if (!answered()) c.fail("async-raycast", "a raycast was never answered"); for (auto &q : g_asked) if (q.done > 1) c.fail("async-raycast", "a raycast was answered %d times", q.done); else { if (q.e != entt::null && !g.valid(q.e)) c.event("ray_stale"); c.event("rays"); } g_asked.clear();
            { // queries answered by the simulation thread while nothing moves
                step_simulation(g); if (!barrier()) return; m = copy_of(g); // the trees now hold the boxes of the step before, those in k
                D3 o{r.uni(-box, box), r.uni(-0.5, 2 * box), r.uni(-box, box)}; double q = r.uni(0.1, box); AABB a{vector3{scalar(o.x - q), scalar(o.y - q), scalar(o.z - q)}, vector3{scalar(o.x + q), scalar(o.y + q), scalar(o.z + q)}}; int n = g_queries; query_aabb_async(g, a, query_aabb_delegate_type{entt::connect_arg<&query_back>}, true, true, true); if (!barrier()) return; if (g_queries != n + 1) c.fail("async-query", "%d answers to one query", g_queries - n); std::set<ent> in(g_found.procedural_entities.begin(), g_found.procedural_entities.end()); for (auto e : g_found.non_procedural_entities) if (!in.insert(e).second) c.fail("async-query", "a body is both procedural and not"); if (in.size() != g_found.procedural_entities.size() + g_found.non_procedural_entities.size()) c.fail("async-query", "a body is reported twice");
                for (auto e : in) if (!g.valid(e) || !g.all_of<rigidbody_tag>(e)) c.fail("async-query", "the answer holds something that is no body"); for (auto &[id, e] : bs) if (auto *b = k.b[id].boxed ? &k.b[id].box : nullptr) { auto lag = vector3_one * scalar(1e-4); bool hit = intersect(AABB{b->min + lag, b->max - lag}, a); c.event(hit ? "query_in" : "query_out"); if (hit && !in.count(e)) c.fail("async-query", "body %d (kind %d, sleeping %d) lies in the box and is not reported", id, m.b[id].kind, m.b[id].sleeping); } for (auto e : g_found.procedural_entities) if (!g.all_of<procedural_tag>(e)) c.fail("async-query", "a body that is not procedural is reported as such"); for (auto e : g_found.non_procedural_entities) if (g.all_of<procedural_tag>(e)) c.fail("async-query", "a procedural body is reported as not");
                ent t = any([&](ent e) { int id = key_of(g, e); return e != floor_ && g.any_of<sphere_shape, box_shape, capsule_shape, cylinder_shape>(e) && k.b.count(id) && ddist(k.b[id].p, m.b[id].p) < 0.01; }); if (t != entt::null) { auto pos = get_rigidbody_origin(g, t); std::vector<ent> ign; std::set<ent> seen; for (int tries = 0; tries < 40; ++tries) { g_asked.push_back({0, 0, entt::null}); g_asked.back().id = raycast_async(g, pos + vector3_y * scalar(30), pos, raycast_delegate_type{entt::connect_arg<&ray_ans>}, ign); if (!barrier()) return; bool ok = answered(); auto q = g_asked.back(); g_asked.pop_back(); if (!ok) { c.fail("async-raycast", "a raycast was not answered"); break; } if (q.e == entt::null) { auto bb = k.b[key_of(g, t)].box; auto &pp = g.get<position>(t); c.fail("async-raycast", "a ray that ends inside body %d (kind %d, sleeping %d) at %g %g %g misses it; its box is %g..%g %g..%g %g..%g", key_of(g, t), m.b[key_of(g, t)].kind, g.all_of<sleeping_tag>(t), (double)pp.x, (double)pp.y, (double)pp.z, (double)bb.min.x, (double)bb.max.x, (double)bb.min.y, (double)bb.max.y, (double)bb.min.z, (double)bb.max.z); break; } if (!seen.insert(q.e).second) { c.fail("async-raycast", "an ignored body is hit"); break; } c.event("rays_checked"); if (q.e == t) break; ign.push_back(q.e); } }
            }
            if (r.chance(0.8)) { set_paused(g, false); paused = false; }
        }
    }
    double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); if (g_steps * dt > el + 0.1) c.fail("async-ahead", "%ld steps of %g s in %g s", (long)g_steps, dt, el); c.event("steps", g_steps); c.hit(h); c.sample("%zu bodies, %zu joints, %d operations, %ld steps in %g s", bs.size(), cs.size(), ops, (long)g_steps, el);
}
#endif
