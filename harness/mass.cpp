// VF_PART 1: volume, centroid, inertia and bounding boxes of every shape.
// VF_PART 2: convex meshes (topology, rotation cache) and OBJ loading.
#include "poly.hpp"
#include <fstream>
#include <sstream>
#include <unistd.h>
#include "edyn/math/shape_volume.hpp"
#include "edyn/dynamics/moment_of_inertia.hpp"
#include "edyn/util/aabb_util.hpp"
#include "edyn/util/shape_util.hpp"
#include "edyn/util/shape_io.hpp"
#include "edyn/sys/update_rotated_meshes.hpp"
#include "edyn/config/constants.hpp"
using namespace edyn;
static convex_mesh mk_mesh(const Poly &p) { convex_mesh m; for (auto &v : p.v) m.vertices.push_back(v.v()); for (auto &f : p.f) { m.faces.push_back((uint32_t)m.indices.size()); m.faces.push_back((uint32_t)f.size()); for (auto i : f) m.indices.push_back(i); } return m; }
static Poly as_held(const convex_mesh &m) { Poly p; for (auto &v : m.vertices) p.v.push_back(v); for (size_t i = 0; i < m.faces.size(); i += 2) { std::vector<uint32_t> f; for (uint32_t j = 0; j < m.faces[i + 1]; ++j) f.push_back(m.indices[m.faces[i] + j]); p.f.push_back(f); } return p; }
static double radius_of(const Poly &p) { double R = 0; for (auto &v : p.v) R = std::max(R, dlen(v)); return R; }
static void scale_poly(Poly &p, double s, D3 o) { for (auto &v : p.v) v = v * s + o; }
static uint64_t hpoly(const Poly &p) { uint64_t h = 7; for (auto &v : p.v) h = vf::hash_bytes(&v, sizeof v, h); return h; }

#if VF_PART == 1
static D3 ref_cyl(double m, double L, double r, int ax) { double a = m * r * r / 2, t = m * (3 * r * r + L * L) / 12; D3 d{t, t, t}; d.at(ax) = a; return d; }
static D3 ref_cap(double m, double L, double r, int ax) { double vc = M_PI * r * r * L, vs = 4.0 / 3 * M_PI * r * r * r, mc = m * vc / (vc + vs), ms = m * vs / (vc + vs); D3 cy = ref_cyl(mc, L, r, 0); double a = cy.x + 0.4 * ms * r * r, t = cy.y + ms * (0.4 * r * r + L * L / 4 + 3 * L * r / 8); D3 d{t, t, t}; d.at(ax) = a; return d; }
static bool near3(const matrix3x3 &m, const double (&I)[3][3], double tol) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (!(std::abs((double)m[i][j] - I[i][j]) <= tol)) return false; return true; }
static bool relok(double a, double b, double k = 16) { return std::abs(a - b) <= k * kEps * std::max(std::abs(a), std::abs(b)); }

VF_SECTION(primitive_mass, 20000, 400000) {
    auto &r = c.r; double S = r.logu(0.01, 30), rad = S * r.uni(0.2, 1), hl = S * r.logu(0.05, 5), m = r.logu(1e-2, 1e4); scalar R = (scalar)rad, H = (scalar)hl, M = (scalar)m; rad = R; hl = H; m = M; auto ax = rnd_axis(r); int a = (int)ax;
    vector3 he{(scalar)(S * r.uni(0.05, 2)), (scalar)(S * r.uni(0.05, 2)), (scalar)(S * r.uni(0.05, 2))};
    double vs = 4.0 / 3 * M_PI * rad * rad * rad, vc = M_PI * rad * rad * 2 * hl, vb = 8.0 * he.x * he.y * he.z;
    auto ck = [&](const char *key, double got, double want) { if (!relok(got, want, 64)) c.fail(key, "%s: %.9g, exact %.9g (radius %g half length %g)", key, got, want, rad, hl); };
    ck("volume-sphere", shape_volume(sphere_shape{R}), vs); ck("volume-cylinder", shape_volume(cylinder_shape{R, H, ax}), vc); ck("volume-capsule", shape_volume(capsule_shape{R, H, ax}), vs + vc); ck("volume-box", shape_volume(box_shape{he}), vb);
    ck("volume-sphere", sphere_volume(R), vs); ck("volume-cylinder", cylinder_volume(R, H), vc / 2); ck("volume-box", box_volume(he), vb / 8);
    auto ckm = [&](const char *key, const matrix3x3 &I, D3 d) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double w = i == j ? d[i] : 0; if (i == j ? !relok(I[i][j], w, 64) : I[i][j] != 0) c.fail(key, "%s: I[%d][%d] = %.9g, exact %.9g (mass %g radius %g length %g axis %d)", key, i, j, (double)I[i][j], w, m, rad, 2 * hl, a); } };
    double is = 0.4 * m * rad * rad; D3 ib{m / 3 * ((double)he.y * he.y + (double)he.z * he.z), m / 3 * ((double)he.z * he.z + (double)he.x * he.x), m / 3 * ((double)he.x * he.x + (double)he.y * he.y)};
    ckm("inertia-sphere", moment_of_inertia(sphere_shape{R}, M), {is, is, is}); ckm("inertia-box", moment_of_inertia(box_shape{he}, M), ib); ckm("inertia-cylinder", moment_of_inertia(cylinder_shape{R, H, ax}, M), ref_cyl(m, 2 * hl, rad, a)); ckm("inertia-capsule", moment_of_inertia(capsule_shape{R, H, ax}, M), ref_cap(m, 2 * hl, rad, a));
    shapes_variant_t var = capsule_shape{R, H, ax}; ckm("inertia-variant", moment_of_inertia(var, M), ref_cap(m, 2 * hl, rad, a));
    ck("inertia-hollow-sphere", moment_of_inertia_hollow_sphere(M, R), 2.0 / 3 * m * rad * rad);
    scalar ri = (scalar)(rad * r.uni(0.1, 0.95)); double rr = (double)ri * ri + rad * rad; auto hc = moment_of_inertia_hollow_cylinder(M, H, ri, R, ax); for (int i = 0; i < 3; ++i) ck("inertia-hollow-cylinder", hc[i], i == a ? m * rr / 2 : m * (3 * rr + hl * hl) / 12);
    // parallel axis theorem
    vector3 o = rnd_vec(r, S); auto sh = shift_moment_of_inertia(moment_of_inertia(box_shape{he}, M), M, o); D3 d(o); double sc = dlen2(d) * m + ib.x + ib.y; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double w = (i == j ? ib[i] + m * dlen2(d) : 0) - m * d[i] * d[j]; if (std::abs(sh[i][j] - w) > 32 * kEps * sc) c.fail("inertia-shift", "I[%d][%d] = %.9g, exact %.9g", i, j, (double)sh[i][j], w); }
    c.event("shapes", 5); c.hit(hv(R, H, he, M)); c.sample("capsule r=%g len=%g m=%g axis %d: inertia = closed form", rad, 2 * hl, m, a);
}

VF_SECTION(polyhedron_mass, 12000, 200000) {
    auto &r = c.r; Poly p = rnd_poly(r); double S = r.logu(0.05, 10); D3 off; if (r.chance(0.5)) off = rnd_unitD(r) * (S * r.uni(0, 3)); scale_poly(p, S, off);
    auto m = mk_mesh(p); p = as_held(m); auto ref = poly_mass(p); double R = radius_of(p), n = (double)m.indices.size(); double tv = 32 * kEps * n * R * R * R, tc = tv * R / ref.vol; scalar M = (scalar)r.logu(0.01, 1000);
    double vol = mesh_volume(m); if (!(std::abs(vol - ref.vol) <= tv)) c.fail("volume-mesh", "%s: volume %.9g, exact %.9g (tolerance %g)", p.kind, vol, ref.vol, tv);
    D3 ce = mesh_centroid(m.vertices, m.indices, m.faces); if (!(ddist(ce, ref.c) <= tc)) c.fail("centroid-mesh", "%s: centroid " F3 ", exact " F3, p.kind, P3(ce), P3(ref.c));
    // inertia is taken about the origin; shapes keep their centroid there
    auto I = moment_of_inertia_polyhedron(M, m.vertices, m.indices, m.faces); double w[3][3]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) w[i][j] = (double)M * (ref.I[i][j] + (i == j ? dlen2(ref.c) : 0) - ref.c[i] * ref.c[j]);
    double ti = (double)M * tc * R * 4; if (!near3(I, w, ti)) c.fail("inertia-polyhedron", "%s: [%.6g %.6g %.6g; %.6g %.6g; %.6g], exact [%.6g %.6g %.6g; %.6g %.6g; %.6g]", p.kind, (double)I[0][0], (double)I[0][1], (double)I[0][2], (double)I[1][1], (double)I[1][2], (double)I[2][2], w[0][0], w[0][1], w[0][2], w[1][1], w[1][2], w[2][2]);
    polyhedron_shape sh(std::make_shared<convex_mesh>(m)); if (shape_volume(sh) != (scalar)vol) c.fail("volume-polyhedron", "shape and mesh volumes differ"); auto I2 = moment_of_inertia(sh, M); for (int i = 0; i < 3; ++i) if (I2[i] != I[i]) c.fail("inertia-polyhedron", "overloads differ");
    sh.mesh->shift_to_centroid(); D3 c2 = mesh_centroid(sh.mesh->vertices, sh.mesh->indices, sh.mesh->faces); if (dlen(c2) > tc * 3) c.fail("centroid-shift", "centroid " F3 " after shift_to_centroid", P3(c2)); for (size_t i = 0; i < p.v.size(); ++i) if (ddist(D3(sh.mesh->vertices[i]) + ref.c, p.v[i]) > tc * 2) c.fail("centroid-shift", "vertex %zu moved inconsistently", i);
    c.event("polyhedra"); c.hit(hpoly(p)); c.sample("%s of %zu faces: volume %.6g == %.6g", p.kind, p.f.size(), vol, ref.vol);
}

static compound_shape::shapes_variant_t rnd_child(vf::rng &r, double S, std::vector<D3> &cloud, double &inflate, MassProps &mp, int &kind) {
    kind = (int)r.below(5); cloud.clear(); inflate = 0; mp = {}; scalar R = (scalar)(S * r.uni(0.1, 1)), H = (scalar)(S * r.uni(0.1, 1)); auto ax = rnd_axis(r); auto diag = [&](D3 d) { for (int i = 0; i < 3; ++i) mp.I[i][i] = d[i]; };
    switch (kind) {
    case 0: diag(D3(1, 1, 1) * (0.4 * R * R)); mp.vol = 4.0 / 3 * M_PI * R * R * R; cloud = {D3()}; inflate = R; return sphere_shape{R};
    case 1: diag(ref_cyl(1, 2 * H, R, (int)ax)); mp.vol = M_PI * R * R * 2 * H; for (int k = 0; k < 720; ++k) for (int s = -1; s <= 1; s += 2) { D3 d; d.at((int)ax) = s * (double)H; d.at(((int)ax + 1) % 3) = R * std::cos(k * M_PI / 360); d.at(((int)ax + 2) % 3) = R * std::sin(k * M_PI / 360); cloud.push_back(d); } return cylinder_shape{R, H, ax};
    case 2: diag(ref_cap(1, 2 * H, R, (int)ax)); mp.vol = M_PI * R * R * 2 * H + 4.0 / 3 * M_PI * R * R * R; cloud = {axis_dir(ax) * (double)H, axis_dir(ax) * -(double)H}; inflate = R; return capsule_shape{R, H, ax};
    case 3: { vector3 he{R, H, (scalar)(S * r.uni(0.1, 1))}; D3 h(he); diag({(h.y * h.y + h.z * h.z) / 3, (h.z * h.z + h.x * h.x) / 3, (h.x * h.x + h.y * h.y) / 3}); mp.vol = 8 * h.x * h.y * h.z; for (int m = 0; m < 8; ++m) cloud.push_back({m & 1 ? h.x : -h.x, m & 2 ? h.y : -h.y, m & 4 ? h.z : -h.z}); return box_shape{he}; }
    default: { Poly p = rnd_poly(r); scale_poly(p, S * r.uni(0.3, 1), D3()); auto m = std::make_shared<convex_mesh>(mk_mesh(p)); m->initialize(); p = as_held(*m); mp = poly_mass(p); cloud = p.v; return polyhedron_shape(m); } }
}
struct Box3 { D3 lo{1e30, 1e30, 1e30}, hi{-1e30, -1e30, -1e30}; void add(D3 p, double inf) { for (int i = 0; i < 3; ++i) { lo.at(i) = std::min(lo[i], p[i] - inf); hi.at(i) = std::max(hi[i], p[i] + inf); } } };

VF_SECTION(compound_mass_and_bounds, 4000, 60000) {
    auto &r = c.r; compound_shape cs; int n = r.range(1, 6); double S = r.logu(0.05, 10), vol = 0, Io[3][3] = {}; std::vector<MassProps> mps; std::vector<D3> ps; std::vector<DQ> qs; std::vector<std::vector<D3>> clouds; std::vector<double> infl; double ext = 0;
    for (int i = 0; i < n; ++i) { std::vector<D3> cl; double inf; MassProps mp; int kind; auto sh = rnd_child(r, S, cl, inf, mp, kind); vector3 p = rnd_vec(r, 2 * S); quaternion q = rnd_quat(r); std::visit([&](auto &&s) { cs.add_shape(s, p, q); }, sh); mps.push_back(mp); ps.push_back(p); qs.push_back(q); clouds.push_back(cl); infl.push_back(inf); vol += mp.vol; }
    cs.finish(); double V = shape_volume(cs); if (std::abs(V - vol) > 4e3 * kEps * vol) c.fail("volume-compound", "%.9g, sum of the parts %.9g", V, vol);
    scalar M = (scalar)r.logu(0.1, 100); for (int k = 0; k < n; ++k) { double mk = (double)M * mps[k].vol / vol; D3 e[3]; for (int i = 0; i < 3; ++i) e[i] = drot(qs[k], axis_dir((coordinate_axis)i)); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double s = 0; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) s += e[a][i] * mps[k].I[a][b] * e[b][j]; Io[i][j] += mk * (s + (i == j ? dlen2(ps[k]) : 0) - ps[k][i] * ps[k][j]); } ext = std::max(ext, dlen(ps[k]) + 2 * S); }
    auto I = moment_of_inertia(cs, M); if (!near3(I, Io, (double)M * ext * ext * (kDouble ? 1e-10 : 4e-4))) c.fail("inertia-compound", "%d parts: [%.6g %.6g %.6g; %.6g %.6g; %.6g], exact [%.6g %.6g %.6g; %.6g %.6g; %.6g]", n, (double)I[0][0], (double)I[0][1], (double)I[0][2], (double)I[1][1], (double)I[1][2], (double)I[2][2], Io[0][0], Io[0][1], Io[0][2], Io[1][1], Io[1][2], Io[2][2]);
    // bounds: every child box encloses its shape tightly; the whole box encloses all
    double tol = kTol * ext; vector3 pos = rnd_vec(r, S * 4); quaternion orn = rnd_quat(r); auto wb = shape_aabb(cs, pos, orn); Box3 all, ub;
    for (int k = 0; k < n; ++k) { Box3 b; for (auto &x : clouds[k]) { b.add(dto_world(x, ps[k], qs[k]), infl[k]); all.add(dto_world(dto_world(x, ps[k], qs[k]), pos, orn), infl[k]); } auto &nb = cs.nodes[k].aabb; double slack = clouds[k].size() > 500 ? 4e-5 * S : 0; if (ddist(nb.min, b.lo) > tol + slack || ddist(nb.max, b.hi) > tol + slack) c.fail("compound-node-aabb", "child %d box [" F3 ", " F3 "], exact [" F3 ", " F3 "]", k, P3(nb.min), P3(nb.max), P3(b.lo), P3(b.hi));
        for (int m = 0; m < 8; ++m) ub.add(dto_world({m & 1 ? (double)nb.max.x : nb.min.x, m & 2 ? (double)nb.max.y : nb.min.y, m & 4 ? (double)nb.max.z : nb.min.z}, pos, orn), 0); }
    double t2 = tol + kTol * dlen(D3(pos)); for (int i = 0; i < 3; ++i) { if (wb.min[i] > all.lo[i] + t2 || wb.max[i] < all.hi[i] - t2) c.fail("compound-aabb", "the box does not contain the shape on axis %d: [%g, %g] vs [%g, %g]", i, (double)wb.min[i], (double)wb.max[i], all.lo[i], all.hi[i]); if (wb.min[i] < ub.lo[i] - t2 || wb.max[i] > ub.hi[i] + t2) c.fail("compound-aabb-loose", "the box exceeds the boxes of its children on axis %d", i); }
    // visitation: exactly the children whose boxes intersect
    D3 qc = rnd_unitD(r) * (S * r.uni(0, 2)); double qh = S * r.logu(0.05, 1.5); AABB q{(qc - D3(1, 1, 1) * qh).v(), (qc + D3(1, 1, 1) * qh).v()}; std::multiset<int> got; cs.visit(q, [&](auto &&, auto id) { got.insert((int)id); }); for (int k = 0; k < n; ++k) { bool in = intersect(cs.nodes[k].aabb, q); if (got.count(k) != (in ? 1u : 0u)) c.fail("compound-visit", "child %d visited %zu times, intersects=%d", k, got.count(k), (int)in); }
    c.event("compounds"); c.event("children", n); c.hit(hv(V, M, pos, orn)); c.sample("%d children, volume %.6g", n, V);
}

VF_SECTION(shape_bounds, 15000, 300000) {
    auto &r = c.r; double S = r.logu(0.05, 10); std::vector<D3> cl; double inf; MassProps mp; int kind; auto sh = rnd_child(r, S, cl, inf, mp, kind); vector3 pos = rnd_vec(r, 5 * S); quaternion q = rnd_quat(r); AABB b; std::visit([&](auto &&s) { b = shape_aabb(s, pos, q); AABB b2 = shape_aabb(shapes_variant_t(s), pos, q); if (b2.min != b.min || b2.max != b.max) c.fail("aabb-variant", "overloads differ"); }, sh);
    Box3 e; for (auto &x : cl) e.add(dto_world(x, pos, q), inf); double tol = kTol * S * 4, slack = kind == 1 ? 4e-5 * S : 0; for (int i = 0; i < 3; ++i) { if (b.min[i] > e.lo[i] + tol || b.max[i] < e.hi[i] - tol) c.fail("aabb-contains", "shape kind %d sticks out of its box on axis %d: [%g, %g] vs [%g, %g]", kind, i, (double)b.min[i], (double)b.max[i], e.lo[i], e.hi[i]); if (b.min[i] < e.lo[i] - tol - slack || b.max[i] > e.hi[i] + tol + slack) c.fail("aabb-tight", "box of shape kind %d is loose on axis %d: [%g, %g] vs [%g, %g]", kind, i, (double)b.min[i], (double)b.max[i], e.lo[i], e.hi[i]); }
    // boxes of boxes, world and object space
    vector3 lo = rnd_vec(r, S), hi = lo + vector3{(scalar)(S * r.uni(0, 2)), (scalar)(S * r.uni(0, 2)), (scalar)(S * r.uni(0, 2))}; AABB a{lo, hi}; auto w = aabb_to_world_space(a, pos, q), o = aabb_to_object_space(a, pos, q); Box3 ew, eo; for (int m = 0; m < 8; ++m) { D3 v{m & 1 ? (double)hi.x : lo.x, m & 2 ? (double)hi.y : lo.y, m & 4 ? (double)hi.z : lo.z}; ew.add(dto_world(v, pos, q), 0); eo.add(dto_object(v, pos, q), 0); }
    if (ddist(w.min, ew.lo) > tol * 3 || ddist(w.max, ew.hi) > tol * 3) c.fail("aabb-to-world", "[" F3 ", " F3 "], exact [" F3 ", " F3 "]", P3(w.min), P3(w.max), P3(ew.lo), P3(ew.hi)); if (ddist(o.min, eo.lo) > tol * 3 || ddist(o.max, eo.hi) > tol * 3) c.fail("aabb-to-object", "[" F3 ", " F3 "], exact [" F3 ", " F3 "]", P3(o.min), P3(o.max), P3(eo.lo), P3(eo.hi));
    std::vector<vector3> pts; int n = r.range(1, 20); for (int i = 0; i < n; ++i) pts.push_back(rnd_vec(r, S)); auto pc = point_cloud_aabb(pts), pw = point_cloud_aabb(pts, pos, q), pi = point_cloud_aabb(pts.begin(), pts.end()); Box3 e1, e2; for (auto &x : pts) { e1.add(x, 0); e2.add(dto_world(x, pos, q), 0); } if (ddist(pc.min, e1.lo) > 0 || ddist(pc.max, e1.hi) > 0 || pi.min != pc.min || pi.max != pc.max) c.fail("aabb-cloud", "point cloud box"); if (ddist(pw.min, e2.lo) > tol * 2 || ddist(pw.max, e2.hi) > tol * 2) c.fail("aabb-cloud-world", "transformed point cloud box");
    // a plane's box covers the whole half space (up to the world bound)
    D3 nn = rnd_unitD(r); plane_shape pl{nn.v(), (scalar)r.uni(-10, 10)}; auto pb = shape_aabb(pl, pos, q); for (int k = 0; k < 4; ++k) { D3 x = rnd_unitD(r) * r.uni(0, 5000); double d = ddot(x, nn) - pl.constant; if (d > 0) x = x - nn * d; if (x.x < pb.min.x - 0.01 || x.y < pb.min.y - 0.01 || x.z < pb.min.z - 0.01 || x.x > pb.max.x + 0.01 || x.y > pb.max.y + 0.01 || x.z > pb.max.z + 0.01) c.fail("aabb-plane", "point " F3 " of the half space is outside of the plane's box", P3(x)); }
    const char *names[] = {"sphere", "cylinder", "capsule", "box", "polyhedron"}; c.event(names[kind]); c.hit(hv(pos, q, lo, hi)); c.sample("%s at " F3 ": box tight within %g", names[kind], P3(pos), tol);
}
#endif

#if VF_PART == 2
static void check_mesh(vf::ctx &c, const convex_mesh &m, const char *when) {
    Poly p = as_held(m); size_t nf = p.f.size(); double R = std::max(1e-6, radius_of(p)); double tn = kDouble && strcmp(when, "loaded") ? 1e-6 : 5e-3;
    if (m.num_faces() != nf || m.normals.size() != nf) { c.fail("mesh-counts", "%s: %zu normals for %zu faces", when, m.normals.size(), nf); return; }
    for (size_t i = 0; i < nf; ++i) { if (ddist(m.normals[i], poly_normal(p, i)) > tn) c.fail("mesh-normal", "%s: normal " F3 " of face %zu, exact " F3, when, P3(m.normals[i]), i, P3(poly_normal(p, i))); if (m.face_vertex_count(i) != p.f[i].size() || m.first_vertex_index(i) != p.f[i][0]) c.fail("mesh-face-access", "face %zu", i); for (size_t j = 0; j < p.f[i].size(); ++j) if (m.face_vertex_index(i, j) != p.f[i][j]) c.fail("mesh-face-access", "face %zu vertex %zu", i, j); }
    std::map<std::pair<uint32_t, uint32_t>, std::vector<uint32_t>> ef; std::vector<std::multiset<uint32_t>> nb(p.v.size()); for (uint32_t i = 0; i < nf; ++i) for (size_t j = 0; j < p.f[i].size(); ++j) { uint32_t a = p.f[i][j], b = p.f[i][(j + 1) % p.f[i].size()]; ef[{std::min(a, b), std::max(a, b)}].push_back(i); }
    for (auto &e : ef) { nb[e.first.first].insert(e.first.second); nb[e.first.second].insert(e.first.first); }
    if (m.num_edges() != ef.size()) c.fail("mesh-edges", "%s: %zu edges, exact %zu", when, m.num_edges(), ef.size());
    if (p.v.size() + nf != ef.size() + 2) c.fail("gen", "not a closed polyhedron"); std::set<std::pair<uint32_t, uint32_t>> seen;
    if (m.edge_vertices.size() != m.edges.size() || m.edge_normals.size() != m.edges.size() || m.edge_faces.size() != m.edges.size()) { c.fail("mesh-edge-arrays", "%s: %zu edges, %zu vertices, %zu normals, %zu faces", when, m.edges.size() / 2, m.edge_vertices.size(), m.edge_normals.size(), m.edge_faces.size()); return; }
    for (size_t e = 0; e < m.num_edges(); ++e) { auto v = m.get_edge_vertices(e); auto k = std::make_pair(std::min(v[0], v[1]), std::max(v[0], v[1])); auto it = ef.find(k); if (it == ef.end() || !seen.insert(k).second) { c.fail("mesh-edges", "%s: edge %zu (%u, %u) is not an edge, or twice", when, e, v[0], v[1]); continue; } auto fs = m.get_edge_faces(e); std::set<uint32_t> a(fs.begin(), fs.end()), b(it->second.begin(), it->second.end()); if (a != b) c.fail("mesh-edge-faces", "%s: edge %zu lies on faces %u and %u", when, e, fs[0], fs[1]);
        auto g = m.get_edge(e); if (g[0] != m.vertices[v[0]] || g[1] != m.vertices[v[1]]) c.fail("mesh-edge-vertices", "%s: edge %zu", when, e); if (m.get_edge_direction(e) != m.vertices[v[1]] - m.vertices[v[0]]) c.fail("mesh-edge-direction", "edge %zu", e);
        if (a == b) { auto n = m.get_edge_face_normals(e); for (int s = 0; s < 2; ++s) if (n[s] != m.normals[fs[s]] || m.edge_normals[e * 2 + s] != m.normals[fs[s]]) c.fail("mesh-edge-normals", "%s: edge %zu side %d", when, e, s); if (ddot(dcross(n[0], n[1]), D3(g[1]) - D3(g[0])) < -1e-4 * R) c.fail("mesh-edge-orientation", "%s: normals of edge %zu are not ordered along the edge", when, e); } }
    if (m.neighbors_start.size() != p.v.size() + 1) c.fail("mesh-neighbors", "%s: neighbors_start has %zu entries for %zu vertices", when, m.neighbors_start.size(), p.v.size());
    else for (size_t v = 0; v < p.v.size(); ++v) { uint32_t a = m.neighbors_start[v], b = m.neighbors_start[v + 1]; if (a > b || b > m.neighbor_indices.size()) { c.fail("mesh-neighbors", "%s: range [%u, %u)", when, a, b); continue; } std::multiset<uint32_t> s(m.neighbor_indices.begin() + a, m.neighbor_indices.begin() + b); if (s != nb[v]) c.fail("mesh-neighbors", "%s: vertex %zu has %zu neighbours, exact %zu", when, v, s.size(), nb[v].size()); }
    // relevant faces and edges: representatives of all directions, without duplicates
    double tr = convex_mesh_relevant_direction_tolerance; if (m.relevant_normals.size() != m.relevant_faces.size()) c.fail("mesh-relevant", "%s: %zu normals for %zu faces", when, m.relevant_normals.size(), m.relevant_faces.size());
    else { for (size_t i = 0; i < m.relevant_faces.size(); ++i) { if (m.relevant_faces[i] >= nf) { c.fail("mesh-relevant", "index"); continue; } if (m.relevant_normals[i] != m.normals[m.relevant_faces[i]]) c.fail("mesh-relevant", "%s: normal %zu", when, i); for (size_t j = 0; j < i; ++j) if (ddot(m.relevant_normals[i], m.relevant_normals[j]) > 1 - tr + 1e-5) c.fail("mesh-relevant-duplicate", "%s: relevant faces %zu and %zu share a normal", when, j, i); }
        for (size_t f = 0; f < nf; ++f) { bool ok = false; for (auto &n : m.relevant_normals) ok = ok || ddot(n, m.normals[f]) >= 1 - tr - 1e-5; if (!ok) c.fail("mesh-relevant-missing", "%s: no representative of the normal of face %zu", when, f); } }
    for (size_t i = 0; i < m.relevant_edges.size(); ++i) { if (m.relevant_edges[i] >= m.num_edges()) { c.fail("mesh-relevant", "edge index"); return; } for (size_t j = 0; j < i; ++j) if (std::abs(ddot(dnorm(m.get_edge_direction(m.relevant_edges[i])), dnorm(m.get_edge_direction(m.relevant_edges[j])))) > 1 - tr + 1e-5) c.fail("mesh-relevant-duplicate", "%s: relevant edges %zu and %zu are parallel", when, j, i); }
    for (size_t e = 0; e < m.num_edges(); ++e) { bool ok = false; for (auto i : m.relevant_edges) ok = ok || std::abs(ddot(dnorm(m.get_edge_direction(i)), dnorm(m.get_edge_direction(e)))) >= 1 - tr - 1e-5; if (!ok) c.fail("mesh-relevant-missing", "%s: no representative of the direction of edge %zu", when, e); }
    c.event("edges", m.num_edges()); c.event("faces", nf);
}

VF_SECTION(convex_topology, 6000, 100000) {
    auto &r = c.r; Poly p = rnd_poly(r); double S = r.logu(0.1, 3); D3 off; if (r.chance(0.5)) off = rnd_unitD(r) * (S * r.uni(0, 2)); scale_poly(p, S, off); auto m = mk_mesh(p); m.initialize(); check_mesh(c, m, "initialized"); if (!m.validate()) c.fail("mesh-validate", "a convex %s is rejected", p.kind);
    D3 ce = poly_mass(as_held(m)).c; if (dlen(ce) > kTol * S * 2) c.fail("mesh-centroid", "centroid " F3 " after initialize", P3(ce));
    quaternion q = rnd_quat(r); auto rm = make_rotated_mesh(m, q); auto ck = [&](const convex_mesh &mm, const rotated_mesh &x, const quaternion &o, const char *w) { auto cmp = [&](const std::vector<vector3> &a, const std::vector<vector3> &b, const char *n) { if (a.size() != b.size()) { c.fail("rotated-mesh", "%s: %zu %s, mesh has %zu", w, b.size(), n, a.size()); return; } for (size_t i = 0; i < a.size(); ++i) if (ddist(drot(o, a[i]), b[i]) > kTol * std::max(1.0, S)) c.fail("rotated-mesh", "%s: %s %zu is " F3 ", exact " F3, w, n, i, P3(b[i]), P3(drot(o, a[i]))); }; cmp(mm.vertices, x.vertices, "vertices"); cmp(mm.normals, x.normals, "normals"); cmp(mm.relevant_normals, x.relevant_normals, "relevant normals"); cmp(mm.edge_vertices, x.edge_vertices, "edge vertices"); cmp(mm.edge_normals, x.edge_normals, "edge normals"); };
    ck(m, rm, q, "made"); quaternion q2 = rnd_quat(r); update_rotated_mesh(rm, m, q2); ck(m, rm, q2, "updated"); for (size_t e = 0; e < m.num_edges(); ++e) { auto g = m.get_rotated_edge(rm, e); auto v = m.get_edge_vertices(e); if (ddist(g[0], drot(q2, m.vertices[v[0]])) > kTol * std::max(1.0, S) || ddist(g[1], drot(q2, m.vertices[v[1]])) > kTol * std::max(1.0, S)) c.fail("rotated-edge", "edge %zu", e); if (m.get_rotated_edge_direction(rm, e) != g[1] - g[0]) c.fail("rotated-edge", "direction of edge %zu", e); }
    // walking along edges finds the extreme vertex
    for (int k = 0; k < 8; ++k) { D3 d = rnd_unitD(r); double best = -1e30; for (auto &v : m.vertices) best = std::max(best, ddot(v, d)); double got = polyhedron_support_projection(m.vertices, m.neighbors_start, m.neighbor_indices, d.v()); if (std::abs(got - best) > kTol * S) c.fail("mesh-support-walk", "projection %g, maximum %g", got, best); }
    // the calculated properties are a function of vertices, indices and faces
    if (r.chance(0.5)) { m.update_calculated_properties(); check_mesh(c, m, "updated again"); } else { Poly p2 = rnd_poly(r); auto m2 = mk_mesh(p2); m.vertices = m2.vertices; m.indices = m2.indices; m.faces = m2.faces; m.initialize(); check_mesh(c, m, "reinitialized"); }
    c.hit(hpoly(p)); c.sample("%s: %zu vertices, %zu edges, %zu faces", p.kind, m.vertices.size(), m.num_edges(), m.num_faces());
}

VF_SECTION(convex_rejects_concave, 1500, 20000) {
    auto &r = c.r; Poly p = rnd_poly(r); auto m = mk_mesh(p); m.shift_to_centroid(); m.update_calculated_properties(); D3 mid; for (auto &v : m.vertices) mid = mid + v; size_t i = r.below(m.vertices.size());
    // push one vertex well outside of the plane of a face that has 4+ vertices, or well inside the solid
    D3 v(m.vertices[i]); m.vertices[i] = (v * -r.uni(0.3, 0.8)).v(); m.calculate_normals(); Poly h = as_held(m); bool bad = false; for (size_t f = 0; f < h.f.size(); ++f) for (auto &x : h.v) if (ddot(x - h.v[h.f[f][0]], D3(m.normals[f])) > 0.02) bad = true; if (!bad) return; c.event("dented"); if (m.validate()) c.fail("mesh-validate-dented", "a dented %s passes validation", p.kind); c.hit(hpoly(h)); c.sample("%s with vertex %zu pushed inside is rejected", p.kind, i);
}

struct ObjFile { std::string text; std::vector<Poly> objs; std::vector<std::string> names; std::vector<std::vector<D3>> colors; };
static ObjFile rnd_obj(vf::rng &r, bool closed, bool tri_only) {
    ObjFile o; int n = r.range(1, 4); uint32_t base = 1; char b[256]; bool crlf = r.chance(0.2); auto line = [&](const std::string &s) { o.text += s; o.text += crlf ? "\r\n" : "\n"; }; if (r.chance(0.5)) line("# exported mesh"); if (r.chance(0.3)) line("mtllib scene.mtl"); bool named = n > 1 || r.chance(0.6); bool col = r.chance(0.4);
    for (int k = 0; k < n; ++k) { Poly p = rnd_poly(r); scale_poly(p, r.logu(0.2, 2), rnd_unitD(r) * r.uni(0, 3)); std::string name = "Obj." + std::to_string(k); if (named) line("o " + name); o.names.push_back(named ? name : ""); std::vector<D3> cols;
        for (auto &v : p.v) { D3 q; const char *fmt = r.chance(0.5) ? "v %.6f %.6f %.6f" : "v %.9g %.9g %.9g"; snprintf(b, sizeof b, fmt, v.x, v.y, v.z); double x, y, z; sscanf(b, "v %lf %lf %lf", &x, &y, &z); v = D3{(double)(scalar)x, (double)(scalar)y, (double)(scalar)z}; std::string s = b; if (col) { q = {r.range(0, 255) / 256.0, r.range(0, 255) / 256.0, r.range(0, 255) / 256.0}; snprintf(b, sizeof b, " %.8f %.8f %.8f", q.x, q.y, q.z); s += b; cols.push_back(q); } line(s); }
        if (r.chance(0.5)) line("vt 0.5 0.25"); if (r.chance(0.5)) line("vn 0.0 1.0 0.0"); if (r.chance(0.5)) line("s off"); if (r.chance(0.3)) line("usemtl Material"); if (r.chance(0.2)) line(""); int style = (int)r.below(4);
        for (auto &f : p.f) { std::string s = "f"; for (auto i : f) { uint32_t id = base + i; snprintf(b, sizeof b, style == 0 ? " %u" : style == 1 ? " %u/1" : style == 2 ? " %u//1" : " %u/1/1", id); s += b; } line(s); }
        base += (uint32_t)p.v.size(); o.objs.push_back(p); o.colors.push_back(cols); if (!named) break; }
    (void)closed; (void)tri_only; return o;
}
struct TmpFile { char path[64]; TmpFile(const std::string &s) { snprintf(path, sizeof path, "/tmp/vf_obj_%d_XXXXXX", getpid()); int fd = mkstemp(path); if (fd >= 0) { ssize_t k = write(fd, s.data(), s.size()); (void)k; close(fd); } } ~TmpFile() { unlink(path); } };
static std::string trim(const std::string &s) { size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t\r"); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }

VF_SECTION(obj_loading, 4000, 60000) {
    auto &r = c.r; auto o = rnd_obj(r, true, false); vector3 pos = r.chance(0.3) ? vector3_zero : rnd_vec(r, 3), scale = vector3_one; quaternion orn = r.chance(0.3) ? quaternion_identity : rnd_quat(r); if (!r.chance(0.3)) scale = {(scalar)r.uni(0.3, 2), (scalar)r.uni(0.3, 2), (scalar)r.uni(0.3, 2)};
    auto want = [&](D3 v) { return D3(pos) + drot(orn, {v.x * scale.x, v.y * scale.y, v.z * scale.z}); }; double tol = kTol * 8; bool file = r.chance(0.25); TmpFile tf(file ? o.text : ""); size_t nv = 0, nidx = 0;
    std::vector<obj_mesh> ms; if (file) { if (!load_meshes_from_obj(tf.path, ms, pos, orn, scale)) c.fail("obj-open", "readable file refused"); } else { std::stringstream ss(o.text); load_meshes_from_obj(ss, ms, pos, orn, scale); }
    if (ms.size() != o.objs.size()) c.fail("obj-count", "%zu meshes, file has %zu", ms.size(), o.objs.size());
    else for (size_t k = 0; k < ms.size(); ++k) { auto &m = ms[k]; auto &p = o.objs[k]; if (trim(m.name) != o.names[k]) c.fail("obj-name", "mesh %zu is named '%s', file says '%s'", k, m.name.c_str(), o.names[k].c_str()); if (m.vertices.size() != p.v.size()) { c.fail("obj-vertices", "mesh %zu has %zu vertices, file has %zu", k, m.vertices.size(), p.v.size()); continue; } for (size_t i = 0; i < p.v.size(); ++i) if (ddist(m.vertices[i], want(p.v[i])) > tol) c.fail("obj-transform", "vertex %zu of mesh %zu: " F3 ", exact " F3 " (scale, then rotation, then translation)", i, k, P3(m.vertices[i]), P3(want(p.v[i]))); if (m.colors.size() != o.colors[k].size()) c.fail("obj-colors", "mesh %zu has %zu colours, file has %zu", k, m.colors.size(), o.colors[k].size()); else for (size_t i = 0; i < m.colors.size(); ++i) if (ddist(m.colors[i], o.colors[k][i]) > 1e-6) c.fail("obj-colors", "colour %zu", i);
            if (m.faces.size() != 2 * p.f.size()) { c.fail("obj-faces", "mesh %zu has %zu faces, file has %zu", k, m.faces.size() / 2, p.f.size()); continue; } for (size_t f = 0; f < p.f.size(); ++f) { bool ok = m.faces[2 * f + 1] == p.f[f].size() && m.faces[2 * f] + m.faces[2 * f + 1] <= m.indices.size(); for (size_t j = 0; ok && j < p.f[f].size(); ++j) ok = m.indices[m.faces[2 * f] + j] == p.f[f][j]; if (!ok) c.fail("obj-faces", "face %zu of mesh %zu differs from the file", f, k); } }
    // one triangle soup: fans of every polygon, in order
    std::vector<vector3> vs, cs; std::vector<uint32_t> is; bool wc = r.chance(0.7); if (file) { if (!load_tri_mesh_from_obj(tf.path, vs, is, wc ? &cs : nullptr, pos, orn, scale)) c.fail("obj-open", "readable file refused"); } else { std::stringstream ss(o.text); load_tri_mesh_from_obj(ss, vs, is, wc ? &cs : nullptr, pos, orn, scale); }
    std::vector<D3> av, ac; std::vector<std::vector<uint32_t>> af; for (size_t k = 0; k < o.objs.size(); ++k) { for (auto &f : o.objs[k].f) { auto g = f; for (auto &i : g) i += (uint32_t)av.size(); af.push_back(g); nidx += 3 * (f.size() - 2); } for (auto &v : o.objs[k].v) av.push_back(want(v)); for (auto &q : o.colors[k]) ac.push_back(q); }
    if (vs.size() != av.size()) c.fail("obj-tri-vertices", "%zu vertices, file has %zu", vs.size(), av.size()); else for (size_t i = 0; i < av.size(); ++i) if (ddist(vs[i], av[i]) > tol) c.fail("obj-tri-transform", "vertex %zu", i);
    if (wc ? cs.size() != ac.size() : !cs.empty()) c.fail("obj-tri-colors", "%zu colours, file has %zu", cs.size(), ac.size()); else if (wc) for (size_t i = 0; i < cs.size(); ++i) if (ddist(cs[i], ac[i]) > 1e-6) c.fail("obj-tri-colors", "colour %zu", i);
    if (is.size() != nidx) c.fail("obj-tri-indices", "%zu indices, exact %zu", is.size(), nidx);
    else { size_t at = 0; for (auto &f : af) { // triangles of this polygon tile it with the same orientation
            std::map<std::pair<uint32_t, uint32_t>, int> ed; bool ok = true; for (size_t t = 0; t < f.size() - 2; ++t, at += 3) for (int s = 0; s < 3; ++s) { uint32_t a = is[at + s], b = is[at + (s + 1) % 3]; ok = ok && std::count(f.begin(), f.end(), a) && a != b; if (ed.count({b, a})) { if (!--ed[{b, a}]) ed.erase({b, a}); } else ed[{a, b}]++; } std::map<std::pair<uint32_t, uint32_t>, int> bd; for (size_t j = 0; j < f.size(); ++j) bd[{f[j], f[(j + 1) % f.size()]}]++; if (!ok || ed != bd) { c.fail("obj-triangulation", "the triangles of a %zu-gon do not tile it", f.size()); break; } } }
    // polyhedra and compounds built from the same file
    std::vector<polyhedron_with_center> ph; if (file) ph = load_convex_polyhedrons_from_obj(tf.path, pos, orn, scale); else { std::stringstream ss(o.text); ph = load_convex_polyhedrons_from_obj(ss, pos, orn, scale); }
    if (ph.size() != o.objs.size()) c.fail("obj-polyhedra", "%zu polyhedra", ph.size()); else for (size_t k = 0; k < ph.size(); ++k) { Poly w = o.objs[k]; for (auto &v : w.v) v = want(v); auto mp = poly_mass(w); double tc = tol * 4; if (ddist(ph[k].center, mp.c) > tc) c.fail("obj-center", "polyhedron %zu: center " F3 ", centroid " F3, k, P3(ph[k].center), P3(mp.c)); auto &mm = *ph[k].shape.mesh; if (mm.vertices.size() != w.v.size()) { c.fail("obj-polyhedra", "vertices"); continue; } for (size_t i = 0; i < w.v.size(); ++i) if (ddist(D3(mm.vertices[i]) + D3(ph[k].center), w.v[i]) > tol) c.fail("obj-polyhedron-vertex", "vertex %zu of polyhedron %zu is misplaced", i, k); check_mesh(c, mm, "loaded"); }
    compound_shape co; if (file) co = load_compound_shape_from_obj(tf.path, pos, orn, scale); else { std::stringstream ss(o.text); co = load_compound_shape_from_obj(ss, pos, orn, scale); } if (co.nodes.size() != o.objs.size()) c.fail("obj-compound", "%zu nodes", co.nodes.size()); else for (size_t k = 0; k < co.nodes.size(); ++k) { auto *s = std::get_if<polyhedron_shape>(&co.nodes[k].shape_var); if (!s) { c.fail("obj-compound", "not a polyhedron"); continue; } for (size_t i = 0; i < o.objs[k].v.size() && i < s->mesh->vertices.size(); ++i) { D3 w = dto_world(s->mesh->vertices[i], co.nodes[k].position, co.nodes[k].orientation); if (ddist(w, want(o.objs[k].v[i])) > tol) c.fail("obj-compound-vertex", "vertex %zu of node %zu is misplaced", i, k); auto &bb = co.nodes[k].aabb; for (int x = 0; x < 3; ++x) if (w[x] < bb.min[x] - tol || w[x] > bb.max[x] + tol) c.fail("obj-compound-aabb", "vertex outside of its node's box"); } } 
    for (auto &p : o.objs) nv += p.v.size(); c.event("files", file); c.event("objects", o.objs.size()); c.event("vertices", nv); c.event("faces", af.size()); c.hit(vf::hash_str(o.text)); c.sample("%zu objects, %zu vertices, %zu faces, colours %d", o.objs.size(), nv, af.size(), (int)!ac.empty());
}

VF_SECTION(obj_missing_file, 20, 200) {
    std::vector<obj_mesh> ms; std::vector<vector3> vs; std::vector<uint32_t> is; std::string p = "/tmp/vf_no_such_dir_" + std::to_string(c.idx) + "/none.obj"; if (load_meshes_from_obj(p, ms) || !ms.empty()) c.fail("obj-missing", "load_meshes_from_obj"); if (load_tri_mesh_from_obj(p, vs, is) || !vs.empty() || !is.empty()) c.fail("obj-missing", "load_tri_mesh_from_obj"); if (!load_convex_polyhedrons_from_obj(p).empty()) c.fail("obj-missing", "load_convex_polyhedrons_from_obj"); if (!load_compound_shape_from_obj(p).nodes.empty()) c.fail("obj-missing", "load_compound_shape_from_obj"); c.event("refused"); c.hit(c.idx); c.sample("missing file reported by all four loaders");
}
#endif
