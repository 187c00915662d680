// Support mappings of convex shapes and box topology, against brute force and
// closed forms in double precision.  VF_PART 1: support; 2: planar hulls/polygons.
#include "geo.hpp"
#include "edyn/math/geom.hpp"
#include "edyn/math/triangle.hpp"
#include "edyn/util/shape_util.hpp"
#include "edyn/shapes/box_shape.hpp"
#include "edyn/shapes/cylinder_shape.hpp"
#include "edyn/shapes/capsule_shape.hpp"
using namespace edyn;
static double SC(vf::rng &r) { return r.logu(0.2, 8); }

#if VF_PART == 1
VF_SECTION(box_support, 20000, 500000) {
    auto &r = c.r; double S = SC(r); box_shape b{{(scalar)(S * r.uni(0.1, 1)), (scalar)(S * r.uni(0.1, 1)), (scalar)(S * r.uni(0.1, 1))}};
    vector3 pos = rnd_vec(r, 2 * S), dir = rnd_unit(r); quaternion q = rnd_quat(r); double k = r.uni(0.3, 3); vector3 dk = dir * (scalar)k;
    // reference: all 8 corners
    double best = -1e30, bestL = -1e30; D3 ld = drot(dconj(q), D3(dir));
    for (int m = 0; m < 8; ++m) { D3 v{(m & 1 ? 1 : -1) * (double)b.half_extents.x, (m & 2 ? 1 : -1) * (double)b.half_extents.y, (m & 4 ? 1 : -1) * (double)b.half_extents.z}; best = std::max(best, ddot(dto_world(v, pos, q), dir)); bestL = std::max(bestL, ddot(v, dir)); }
    double tol = kTol * S; auto inside = [&](D3 v) { return std::abs(v.x) <= b.half_extents.x + tol && std::abs(v.y) <= b.half_extents.y + tol && std::abs(v.z) <= b.half_extents.z + tol; };
    auto p0 = b.support_point(dk); if (!inside(p0) || std::abs(ddot(p0, dir) - bestL) > tol) c.fail("box-support-local", "half extents " F3 " dir " F3 ": point " F3 " projects to %g, maximum %g", P3(b.half_extents), P3(dir), P3(p0), ddot(p0, dir), bestL);
    auto p1 = b.support_point(q, dk); if (!inside(dto_object(p1, D3(), q)) || std::abs(ddot(p1, dir) - (best - ddot(pos, dir))) > tol) c.fail("box-support-rotated", "point projects to %g, maximum %g", ddot(p1, dir), best - ddot(pos, dir));
    auto p2 = b.support_point(pos, q, dk); if (!inside(dto_object(p2, pos, q)) || std::abs(ddot(p2, dir) - best) > tol) c.fail("box-support-world", "point projects to %g, maximum %g", ddot(p2, dir), best);
    auto pr = b.support_projection(pos, q, dk); if (std::abs(pr - best * k) > tol * std::max(1.0, k)) c.fail("box-support-projection", "projection %g, maximum %g", (double)pr, best * k);
    // support features
    scalar thr = (scalar)r.pick(std::vector<double>{0.005, 0.005, 0.001, 0.05}); box_feature f; size_t fi = 999; scalar proj = -77; vector3 apos = rnd_vec(r, S);
    b.support_feature(pos, q, apos, dir, f, fi, proj, thr); double want = best - ddot(apos, dir);
    if (std::abs(proj - want) > tol * 2) c.fail("box-feature-projection", "support_feature projection %g, maximum %g", (double)proj, want);
    std::vector<vector3> fv; size_t nv = get_box_feature_num_vertices(f);
    if (fi >= get_box_num_features(f)) c.fail("box-feature-index", "feature %d index %zu out of range", (int)f, fi);
    else {
        if (f == box_feature::vertex) fv = {b.get_vertex(fi, pos, q)}; else if (f == box_feature::edge) { auto e = b.get_edge(fi, pos, q); fv.assign(e.begin(), e.end()); } else { auto e = b.get_face(fi, pos, q); fv.assign(e.begin(), e.end()); }
        if (fv.size() != nv) c.fail("box-feature-count", "feature has %zu vertices", nv);
        for (auto &v : fv) if (ddot(v, dir) < best - thr - tol) c.fail("box-feature-extreme", "half extents " F3 " local dir " F3 ": vertex of feature (%d,%zu) is %g below the maximum (threshold %g)", P3(b.half_extents), P3(ld), (int)f, fi, best - ddot(v, dir), (double)thr);
        // completeness: no face/edge of the box entirely within the threshold is missed
        int within = 0; for (int i = 0; i < 8; ++i) { double d = best - ddot(b.get_vertex(i, pos, q), dir); if (d < thr - tol) within++; }
        double minHe = std::min((double)b.half_extents.x, std::min((double)b.half_extents.y, (double)b.half_extents.z));
        if (minHe > thr * 4) { if (within == 4 && f != box_feature::face) c.fail("box-feature-complete", "a whole face is within the threshold but feature %d was returned", (int)f); if (within >= 2 && f == box_feature::vertex) c.fail("box-feature-complete", "%d vertices within the threshold but a vertex was returned", within); }
        c.event(f == box_feature::face ? "face" : f == box_feature::edge ? "edge" : "vertex");
    }
    box_feature f2; size_t fi2; b.support_feature(pos, q, dir, f2, fi2, thr); if (f2 != f || fi2 != fi) c.fail("box-feature-overload", "overloads disagree");
    // face whose normal best aligns
    size_t fa = b.support_face_index(dir); double bn = -2; for (int i = 0; i < 6; ++i) bn = std::max(bn, ddot(b.get_face_normal(i), dir)); if (fa >= 6 || ddot(b.get_face_normal(fa), dir) < bn - 1e-6) c.fail("box-face-index", "support_face_index %zu is not the best aligned face", fa);
    c.event("queries"); c.hit(hv(b, pos, q, dir)); c.sample("box " F3 " dir " F3 ": support %g == brute force %g", P3(b.half_extents), P3(dir), (double)pr, best * k);
}

// box_shape tables: vertices, edges, faces, adjacency and bases agree with each other
VF_SECTION(box_topology, 600, 5000) {
    auto &r = c.r; double S = SC(r); box_shape b{{(scalar)(S * r.uni(0.1, 1)), (scalar)(S * r.uni(0.1, 1)), (scalar)(S * r.uni(0.1, 1))}}; vector3 pos = rnd_vec(r, S); quaternion q = rnd_quat(r); double tol = kTol * S; double he[3] = {b.half_extents.x, b.half_extents.y, b.half_extents.z};
    std::set<std::array<int, 3>> seen; for (int i = 0; i < 8; ++i) { auto v = b.get_vertex(i); std::array<int, 3> s; for (int k = 0; k < 3; ++k) { s[k] = v[k] > 0 ? 1 : -1; if (std::abs(std::abs((double)v[k]) - he[k]) > tol) c.fail("box-vertex", "vertex %d not a corner", i); } seen.insert(s); if (ddist(b.get_vertex(i, pos, q), dto_world(v, pos, q)) > tol) c.fail("box-vertex-world", "vertex %d world position", i); }
    if (seen.size() != 8) c.fail("box-vertex", "%zu distinct corners", seen.size());
    std::set<std::pair<size_t, size_t>> es;
    for (int e = 0; e < 12; ++e) { size_t a = box_shape::edge_indices[e * 2], d = box_shape::edge_indices[e * 2 + 1]; es.insert({std::min(a, d), std::max(a, d)}); auto va = b.get_vertex(a), vb = b.get_vertex(d); int diff = 0; for (int k = 0; k < 3; ++k) diff += va[k] != vb[k]; if (diff != 1) c.fail("box-edge", "edge %d joins non-adjacent corners", e);
        auto ev = b.get_edge(e); if (ev[0] != va || ev[1] != vb) c.fail("box-edge", "get_edge(%d)", e); auto ew = b.get_edge(e, pos, q); if (ddist(ew[0], dto_world(va, pos, q)) > tol || ddist(ew[1], dto_world(vb, pos, q)) > tol) c.fail("box-edge-world", "edge %d", e);
        if (b.get_edge_index(a, d) != (size_t)e || b.get_edge_index(d, a) != (size_t)e) c.fail("box-edge-index", "edge %d", e);
        auto fs = b.get_edge_face_indices(e); if (fs[0] == fs[1]) c.fail("box-edge-faces", "edge %d", e); auto ns = b.get_edge_face_normals(e), nw = b.get_edge_face_normals(e, q);
        for (int k = 0; k < 2; ++k) { int cnt = 0; for (int j = 0; j < 4; ++j) { auto vi = b.get_vertex_index_from_face(fs[k], j); cnt += vi == a || vi == d; } if (cnt != 2) c.fail("box-edge-faces", "face %zu does not contain edge %d", fs[k], e); if (ddist(ns[k], b.get_face_normal(fs[k])) > 1e-6 || ddist(nw[k], drot(q, b.get_face_normal(fs[k]))) > 1e-4) c.fail("box-edge-normals", "edge %d", e); }
        // orientation contract used by the Gauss map: n0 x n1 is along v1 - v0
        D3 cr = dcross(ns[0], ns[1]), ed = D3(vb) - D3(va); if (ddot(cr, ed) <= 0) c.fail("box-edge-orientation", "normals of edge %d are not ordered consistently with its vertices", e); }
    if (es.size() != 12) c.fail("box-edge", "%zu distinct edges", es.size());
    for (int f = 0; f < 6; ++f) { auto n = b.get_face_normal(f); auto fv = b.get_face(f); auto fw = b.get_face(f, pos, q); int ax = f / 2; if (std::abs(std::abs((double)n[ax]) - 1) > 1e-6) c.fail("box-face-normal", "face %d", f);
        D3 ctr; for (int j = 0; j < 4; ++j) { if (std::abs(ddot(fv[j], n) - he[ax]) > tol) c.fail("box-face", "vertex %d of face %d not on it", j, f); ctr = ctr + D3(fv[j]) * 0.25; if (ddist(fw[j], dto_world(fv[j], pos, q)) > tol) c.fail("box-face-world", "face %d", f); if (fv[j] != b.get_vertex(b.get_vertex_index_from_face(f, j))) c.fail("box-face", "index of vertex %d of face %d", j, f);
            auto ei = b.get_face_edge_index(f, j); size_t x = b.get_vertex_index_from_face(f, j), y = b.get_vertex_index_from_face(f, (j + 1) % 4); if (ei >= 12 || b.get_edge_index(x, y) != ei) c.fail("box-face-edge", "edge %d of face %d", j, f); }
        if (ddot(dcross(D3(fv[1]) - D3(fv[0]), D3(fv[2]) - D3(fv[1])), n) <= 0) c.fail("box-face-winding", "face %d is not counter-clockwise", f);
        if (ddist(b.get_face_center(f, pos, q), dto_world(ctr, pos, q)) > tol) c.fail("box-face-center", "face %d", f); if (ddist(b.get_face_normal(f, q), drot(q, n)) > 1e-4) c.fail("box-face-normal-world", "face %d", f);
        auto B = b.get_face_basis(f, q); D3 X = B.column(0), Y = B.column(1), Z = B.column(2); if (ddist(Y, drot(q, n)) > 1e-4 || std::abs(ddot(X, Y)) > 1e-4 || std::abs(ddot(X, Z)) > 1e-4 || std::abs(ddot(Y, Z)) > 1e-4 || std::abs(dlen(X) - 1) > 1e-4 || std::abs(dlen(Z) - 1) > 1e-4 || ddot(dcross(X, Y), Z) < 0.9) c.fail("box-face-basis", "face %d basis", f);
        auto h2 = b.get_face_half_extents(f); double ex = 0, ez = 0; for (auto &v : fw) { ex = std::max(ex, std::abs(ddot(D3(v) - dto_world(ctr, pos, q), X))); ez = std::max(ez, std::abs(ddot(D3(v) - dto_world(ctr, pos, q), Z))); } if (std::abs(ex - h2.x) > tol || std::abs(ez - h2.y) > tol) c.fail("box-face-extents", "face %d extents %g,%g, expected %g,%g", f, (double)h2.x, (double)h2.y, ex, ez);
        // closest feature of a point on the face
        for (int t = 0; t < 6; ++t) { D3 p; int u = (ax + 1) % 3, w = (ax + 2) % 3; double tl = 0.02 * S; p.at(ax) = n[ax] * he[ax]; int su = r.range(-1, 1), sw = r.range(-1, 1); if (he[u] < 3 * tl || he[w] < 3 * tl) continue; p.at(u) = su ? su * (he[u] - tl * r.uni(0, 0.8)) : r.uni(-1, 1) * (he[u] - 1.2 * tl); p.at(w) = sw ? sw * (he[w] - tl * r.uni(0, 0.8)) : r.uni(-1, 1) * (he[w] - 1.2 * tl);
            auto fe = b.get_closest_feature_on_face(f, p.v(), (scalar)tl); int k = (su != 0) + (sw != 0); box_feature wf = k == 2 ? box_feature::vertex : k == 1 ? box_feature::edge : box_feature::face; if (fe.first != wf || fe.second >= get_box_num_features(fe.first)) { c.fail("box-closest-feature", "face %d point " F3 ": feature (%d,%zu)", f, P3(p), (int)fe.first, fe.second); continue; }
            D3 a, d2; if (wf == box_feature::vertex) a = d2 = b.get_vertex(fe.second); else if (wf == box_feature::edge) { auto e = b.get_edge(fe.second); a = e[0]; d2 = e[1]; } else { if (fe.second != (size_t)f) c.fail("box-closest-feature", "face index %zu instead of %d", fe.second, f); continue; }
            if (ref_point_segment(p, a, d2) > 1.5 * tl) c.fail("box-closest-feature", "face %d point " F3 ": feature (%d,%zu) is %g away", f, P3(p), (int)fe.first, fe.second, ref_point_segment(p, a, d2)); else c.event("closest_feature"); } }
    // convex mesh of a box: outward CCW faces covering the 6 sides
    std::vector<vector3> vs; std::vector<uint32_t> idx, faces; make_box_mesh(b.half_extents, vs, idx, faces); double vol = 0; for (size_t i = 0; i < faces.size(); i += 2) for (uint32_t j = 1; j + 1 < faces[i + 1]; ++j) { D3 a(vs.at(idx.at(faces[i]))), e(vs.at(idx.at(faces[i] + j))), g(vs.at(idx.at(faces[i] + j + 1))); vol += ddot(a, dcross(e, g)) / 6; }
    if (std::abs(vol - 8 * he[0] * he[1] * he[2]) > kTol * S * S * S * 8) c.fail("box-mesh", "mesh of box encloses %g, expected %g", vol, 8 * he[0] * he[1] * he[2]);
    auto cen = mesh_centroid(vs, idx, faces); if (dlen(cen) > tol) c.fail("box-mesh-centroid", "centroid " F3, P3(cen));
    c.event("boxes"); c.hit(hv(b, pos, q));
}

VF_SECTION(round_support, 20000, 500000) {
    auto &r = c.r; double S = SC(r); scalar R = (scalar)(S * r.uni(0.1, 1)), h = (scalar)(S * r.uni(0.1, 1.5)); auto ax = rnd_axis(r); vector3 pos = rnd_vec(r, 2 * S), dir = rnd_unit(r); quaternion q = rnd_quat(r); D3 n = drot(q, axis_dir(ax)); double k = r.uni(0.5, 3); vector3 dk = dir * (scalar)k;
    if (r.chance(0.1)) dir = n.v(), dk = dir * (scalar)k; if (r.chance(0.05)) dir = (-n).v(), dk = dir * (scalar)k;
    double along = ddot(n, dir), plan = std::sqrt(std::max(0.0, dlen2(dir) - along * along)); double tol = (kDouble ? 1e-6 : 2e-3) * S;
    double cyl = ddot(pos, dir) + std::abs(along) * h + plan * R, circ = ddot(pos, dir) + plan * R, caps = ddot(pos, dir) + std::abs(along) * h + R;
    auto on_cyl = [&](D3 w, D3 o) { D3 rel = w - o; double a = ddot(rel, n); return std::abs(a) <= h + tol && dlen(rel - n * a) <= R + tol; };
    cylinder_shape cs{R, h, ax}; auto p = cs.support_point(pos, q, dk); if (!on_cyl(p, pos) || std::abs(ddot(p, dir) - cyl) > tol) c.fail("cylinder-support", "R=%g h=%g axis %d dir " F3 ": point " F3 " projects to %g, maximum %g", (double)R, (double)h, (int)ax, P3(dir), P3(p), ddot(p, dir), cyl);
    auto pq = cylinder_support_point(R, h, ax, q, dk); if (!on_cyl(pq, D3()) || std::abs(ddot(pq, dir) - (cyl - ddot(pos, dir))) > tol) c.fail("cylinder-support-rotated", "rotated support point");
    auto pl = cylinder_support_point(R, h, ax, dk); { D3 e = axis_dir(ax); double a = ddot(e, dir), pn = std::sqrt(std::max(0.0, dlen2(dir) - a * a)); double ref = std::abs(a) * h + pn * R; double aa = ddot(pl, e); if (std::abs(ddot(pl, dir) - ref) > tol || std::abs(aa) > h + tol || dlen(D3(pl) - e * aa) > R + tol) c.fail("cylinder-support-local", "local support point projects to %g, maximum %g", ddot(pl, dir), ref); }
    auto pr = cs.support_projection(pos, q, dk); if (std::abs(pr - cyl * k) > tol * k) c.fail("cylinder-projection", "projection %g, maximum %g", (double)pr, cyl * k);
    auto pc = support_point_circle(pos, q, R, ax, dk); { D3 rel = D3(pc) - D3(pos); if (std::abs(ddot(rel, n)) > tol || std::abs(dlen(rel) - R) > tol || std::abs(ddot(pc, dir) - circ) > tol) c.fail("circle-support", "support point of circle projects to %g, maximum %g", ddot(pc, dir), circ); }
    capsule_shape cp{R, h, ax}; auto vs = cp.get_vertices(pos, q); if (ddist(vs[0], D3(pos) + n * (double)h) > tol || ddist(vs[1], D3(pos) - n * (double)h) > tol) c.fail("capsule-vertices", "capsule vertices"); auto cpj = capsule_support_projection(vs, R, dir), cpj2 = capsule_support_projection(vs[1], vs[0], R, dir); if (std::abs(cpj - caps) > tol || std::abs(cpj2 - caps) > tol) c.fail("capsule-projection", "projection %g/%g, maximum %g", (double)cpj, (double)cpj2, caps);
    auto cv = cs.get_vertices(pos, q); if (ddist(cv[0], D3(pos) + n * (double)h) > tol || ddist(cv[1], D3(pos) - n * (double)h) > tol) c.fail("cylinder-vertices", "cap centres");
    // feature classification
    scalar thr = (scalar)0.005; cylinder_feature f; size_t fi = 0; vector3 udir = dnorm(D3(dir)).v(); cs.support_feature(pos, q, udir, f, fi, thr); double capw = 2 * R * plan, sidew = 2 * h * std::abs(along), g = kTol * S + 1e-4 * S;
    if (std::abs(capw - thr) > g && std::abs(sidew - thr) > g) { cylinder_feature w = capw < thr ? cylinder_feature::face : sidew < thr ? cylinder_feature::side_edge : cylinder_feature::cap_edge; if (f != w) c.fail("cylinder-feature", "cap extent %g, side extent %g, threshold %g: feature %d", capw, sidew, (double)thr, (int)f); if (f != cylinder_feature::side_edge && fi != (along > 0 ? 0u : 1u)) c.fail("cylinder-feature-index", "axis projection %g but index %zu", along, fi); c.event(w == cylinder_feature::face ? "face" : w == cylinder_feature::side_edge ? "side_edge" : "cap_edge"); }
    c.event("queries"); c.hit(hv(R, h, pos, q, dir));
}

// convex polytopes: points on an ellipsoid with a brute-force convex hull
VF_SECTION(point_cloud, 6000, 150000) {
    auto &r = c.r; double S = SC(r); int N = r.range(4, 24); std::vector<vector3> v; vector3 e{(scalar)(S * r.uni(0.3, 1)), (scalar)(S * r.uni(0.3, 1)), (scalar)(S * r.uni(0.3, 1))};
    for (int i = 0; i < N; ++i) v.push_back(rnd_unit(r) * e); vector3 dir = rnd_unit(r); double best = -1e30; for (auto &x : v) best = std::max(best, ddot(x, dir)); double tol = kTol * S;
    auto p = point_cloud_support_point(v, dir); bool member = false; for (auto &x : v) member |= x == p; if (!member || std::abs(ddot(p, dir) - best) > tol) c.fail("cloud-support", "support point %s, projects to %g, maximum %g", member ? "member" : "not a member", ddot(p, dir), best);
    if (std::abs(point_cloud_support_projection(v, dir) - best) > tol) c.fail("cloud-projection", "projection %g, maximum %g", (double)point_cloud_support_projection(v, dir), best);
    std::array<vector3, 4> a4{v[0], v[1], v[2], v[3]}; size_t ai = 99; scalar ap; support_point_vertices(a4, dir, ai, ap); double b4 = -1e30; for (auto &x : a4) b4 = std::max(b4, ddot(x, dir)); if (ai > 3 || std::abs(ap - b4) > tol || std::abs(ddot(a4[ai % 4], dir) - b4) > tol) c.fail("vertices-support", "index %zu projection %g, maximum %g", ai, (double)ap, b4);
    // polygon selection
    vector3 off = r.chance(0.3) ? vector3_zero : rnd_vec(r, S); bool pos_side = r.chance(0.5); double lo = 1e30, hi = -1e30; for (auto &x : v) { double d = ddot(D3(x) + D3(off), dir); lo = std::min(lo, d); hi = std::max(hi, d); } double proj = pos_side ? lo : hi; scalar tl = (scalar)(0.05 * S); auto poly = point_cloud_support_polygon(v.begin(), v.end(), off, dir, (scalar)proj, pos_side, tl);
    size_t cnt = 0; bool edge_case = false; for (auto &x : v) { double d = ddot(D3(x) + D3(off), dir); double m = pos_side ? (proj + tl) - d : d - (proj - tl); if (std::abs(m) < tol) edge_case = true; if (m > 0) cnt++; }
    if (!edge_case && poly.vertices.size() != cnt) c.fail("cloud-polygon-count", "%zu vertices selected, %zu are within the tolerance", poly.vertices.size(), cnt);
    if (poly.plane_vertices.size() != poly.vertices.size()) c.fail("cloud-polygon-plane", "plane vertices"); for (size_t i = 0; i < poly.vertices.size(); ++i) { double m = ddot(poly.vertices[i], dir) - proj; D3 rec = D3(poly.origin) + D3(poly.basis.column(0)) * (double)poly.plane_vertices[i].x + D3(poly.basis.column(2)) * (double)poly.plane_vertices[i].y + dnorm(dir) * m; if (ddist(rec, poly.vertices[i]) > tol * 4) c.fail("cloud-polygon-plane", "plane coordinates do not reproduce vertex %zu (off by %g)", i, ddist(rec, poly.vertices[i])); }
    for (auto h : poly.hull) if (h >= poly.vertices.size()) c.fail("cloud-polygon-hull", "hull index %zu of %zu", h, poly.vertices.size());
    // hill climbing over the adjacency of the convex hull
    if (N <= 14) {
        std::vector<std::set<uint32_t>> adj(N); bool degenerate = false;
        for (int i = 0; i < N && !degenerate; ++i) for (int j = i + 1; j < N; ++j) { if (ddist(v[i], v[j]) < 0.05 * S) { degenerate = true; break; } for (int k = j + 1; k < N; ++k) { D3 n = dcross(D3(v[j]) - D3(v[i]), D3(v[k]) - D3(v[i])); if (dlen(n) < 1e-3 * S * S) continue; n = dnorm(n); double mx = -1e30, mn = 1e30; for (int l = 0; l < N; ++l) { double d = ddot(D3(v[l]) - D3(v[i]), n); mx = std::max(mx, d); mn = std::min(mn, d); } if (mx < 1e-3 * S || mn > -1e-3 * S) { adj[i].insert(j); adj[i].insert(k); adj[j].insert(i); adj[j].insert(k); adj[k].insert(i); adj[k].insert(j); } } }
        for (auto &s : adj) if (s.size() < 3) degenerate = true;
        if (!degenerate) { std::vector<uint32_t> st{0}, ni; for (auto &s : adj) { for (auto x : s) ni.push_back(x); st.push_back((uint32_t)ni.size()); } auto hp = polyhedron_support_projection(v, st, ni, dir); if (std::abs(hp - best) > tol + 2e-3 * S * 0.5) c.fail("polyhedron-projection", "hill climbing found %g, maximum %g (%d vertices)", (double)hp, best, N); c.event("polyhedra"); }
    }
    c.event("queries"); c.hit(hv(v[0], v[1], v[2], v[3], dir));
}

VF_SECTION(triangle_support, 20000, 400000) {
    auto &r = c.r; double S = SC(r); triangle_vertices v{rnd_vec(r, S), rnd_vec(r, S), rnd_vec(r, S)}; vector3 dir = rnd_unit(r), ap = rnd_vec(r, S); double mx = std::max(ddist(v[0], v[1]), std::max(ddist(v[1], v[2]), ddist(v[2], v[0]))); D3 cr = dcross(D3(v[1]) - D3(v[0]), D3(v[2]) - D3(v[0])); if (dlen(cr) < 0.1 * mx * mx) return;
    if (r.chance(0.25)) dir = dnorm(cr).v(); else if (r.chance(0.4)) { int i = (int)r.below(3); D3 e = dnorm(D3(v[(i + 1) % 3]) - D3(v[i])); D3 d = D3(dir) - e * ddot(dir, e); if (dlen(d) < 0.2) return; dir = dnorm(d).v(); }
    double pj[3], best = -1e30; for (int i = 0; i < 3; ++i) { pj[i] = ddot(D3(v[i]) - D3(ap), dir); best = std::max(best, pj[i]); } double tol = kTol * S; scalar thr = (scalar)(0.02 * S);
    triangle_feature f = (triangle_feature)7; size_t fi = 77; scalar pr = -77; get_triangle_support_feature(v, ap, dir, f, fi, pr, thr);
    if (std::abs(pr - best) > thr + tol) c.fail("triangle-feature-projection", "projection %g, maximum %g", (double)pr, best);
    int n = 0; for (int i = 0; i < 3; ++i) n += pj[i] > best - thr * 0.9; int n2 = 0; for (int i = 0; i < 3; ++i) n2 += pj[i] > best - thr * 1.1 - tol; bool clear = n == n2; std::vector<int> fv; if (f == triangle_feature::vertex) fv = {(int)fi}; else if (f == triangle_feature::edge) fv = {(int)fi, (int)((fi + 1) % 3)}; else fv = {0, 1, 2};
    if ((int)f > 2 || (f != triangle_feature::face && fi > 2)) c.fail("triangle-feature-index", "feature %d index %zu", (int)f, fi); else { for (int i : fv) if (pj[i] < best - 2 * thr - tol) c.fail("triangle-feature-extreme", "feature (%d,%zu): vertex %d is %g below the maximum, threshold %g", (int)f, fi, i, best - pj[i], (double)thr); if (clear && (int)fv.size() != n) { /* chained tolerances may add one more vertex */ if ((int)fv.size() < n) c.fail("triangle-feature-complete", "%d vertices within the threshold, feature has %zu", n, fv.size()); } c.event(f == triangle_feature::vertex ? "vertex" : f == triangle_feature::edge ? "edge" : "face"); }
    double b0 = std::max(ddot(v[0], dir), std::max(ddot(v[1], dir), ddot(v[2], dir))); auto sp = get_triangle_support_point(v, dir); if (std::abs(ddot(sp, dir) - b0) > tol || !(sp == v[0] || sp == v[1] || sp == v[2])) c.fail("triangle-support", "support point"); if (std::abs(get_triangle_support_projection(v, dir) - b0) > tol) c.fail("triangle-projection", "projection");
    auto bb = get_triangle_aabb(v); for (int k = 0; k < 3; ++k) if (bb.min[k] != std::min(v[0][k], std::min(v[1][k], v[2][k])) || bb.max[k] != std::max(v[0][k], std::max(v[1][k], v[2][k]))) c.fail("triangle-aabb", "axis %d", k); auto te = get_triangle_edges(v); for (int k = 0; k < 3; ++k) if (ddist(te[k], D3(v[(k + 1) % 3]) - D3(v[k])) > tol) c.fail("triangle-edges", "edge %d", k);
    c.event("queries"); c.hit(hv(v[0], v[1], v[2], dir));
}
#endif

#if VF_PART == 2
struct D2 { double x, y; D2(double a = 0, double b = 0) : x(a), y(b) {} D2(vector2 v) : x(v.x), y(v.y) {} };
static D2 operator-(D2 a, D2 b) { return {a.x - b.x, a.y - b.y}; }
static double perp(D2 a, D2 b) { return a.x * b.y - a.y * b.x; }
static double dot2(D2 a, D2 b) { return a.x * b.x + a.y * b.y; }
static double seg2(D2 p, D2 a, D2 b) { D2 d = b - a; double l = dot2(d, d), t = l > 0 ? std::min(1.0, std::max(0.0, dot2(p - a, d) / l)) : 0; return std::hypot(p.x - a.x - d.x * t, p.y - a.y - d.y * t); }
#define F2 "(%.9g, %.9g)"
#define P2(v) (double)(v).x, (double)(v).y

VF_SECTION(hull, 20000, 400000) {
    auto &r = c.r; int N = r.range(1, 24); int mode = (int)r.below(5); double S = mode == 1 ? 4 : r.logu(0.02, 6); std::vector<vector2> p; scalar tolr = (scalar)r.pick(std::vector<double>{0.001, 0.001, 1e-5, 0.01});
    D2 u{std::cos(1.0), std::sin(1.0)}; if (r.chance(0.3)) u = {1, 0}; else if (r.chance(0.3)) u = {0, 1};
    for (int i = 0; i < N; ++i) { if (mode == 0) p.push_back({(scalar)r.uni(-S, S), (scalar)r.uni(-S, S)}); else if (mode == 1) p.push_back({(scalar)r.range(-4, 4), (scalar)r.range(-4, 4)}); else if (mode == 2) { double t = r.uni(0, 2 * M_PI); p.push_back({(scalar)(S * std::cos(t)), (scalar)(S * std::sin(t) * 0.7)}); } else if (mode == 3) { double t = r.uni(-S, S); p.push_back({(scalar)(u.x * t), (scalar)(u.y * t)}); } else p.push_back(i && r.chance(0.4) ? p[r.below(i)] : vector2{(scalar)r.uni(-S, S), (scalar)r.uni(-S, S)}); }
    vf::note("mode %d N %d", mode, N); auto copy = p; auto h = calculate_convex_hull(p, tolr); if (h.empty()) { c.fail("hull-empty", "no hull vertices for %d points", N); return; }
    std::set<size_t> u2; for (auto i : h) { if (i >= p.size()) { c.fail("hull-index", "index %zu of %zu", i, p.size()); return; } u2.insert(i); } bool same = true; for (auto &x : p) same = same && std::abs(x.x - p[0].x) <= tolr && std::abs(x.y - p[0].y) <= tolr; if (u2.size() != h.size() && !same) c.fail("hull-duplicate", "mode %d, %d points: hull repeats a vertex", mode, N);
    double eps = kEps * 32 * S * S;
    if (h.size() >= 3) { for (size_t i = 0; i < h.size(); ++i) { D2 a(p[h[i]]), b(p[h[(i + 1) % h.size()]]), d(p[h[(i + 2) % h.size()]]); double ab = std::hypot(b.x - a.x, b.y - a.y); if (perp(b - a, d - b) < -(double)tolr * ab * 1.001 - eps) c.fail("hull-ccw", "mode %d, %d points: hull turns clockwise (%g) at vertex %zu of %zu", mode, N, perp(b - a, d - b), i, h.size());
            if (p.size() > 3 || true) for (auto &x : p) { double o = -perp(b - a, D2(x) - a); if (o > tolr * ab * 1.001 + eps) { c.fail("hull-contains", "mode %d, %d points, tolerance %g: point " F2 " is outside edge " F2 "-" F2 " of the hull by %g", mode, N, (double)tolr, P2(x), P2(a), P2(b), o / std::hypot(b.x - a.x, b.y - a.y)); break; } } }
        double area = 0; for (size_t i = 0; i < h.size(); ++i) area += perp(p[h[i]], p[h[(i + 1) % h.size()]]); if (area < -eps) c.fail("hull-orientation", "signed area %g", area); c.event("polygon"); }
    else if (h.size() == 2) { D2 a(p[h[0]]), b(p[h[1]]); double len = std::hypot(b.x - a.x, b.y - a.y); for (auto &x : p) { double t = tolr * 1.001 + eps / std::max(len, 0.01), ex = len > 0 && std::abs(b.x - a.x) >= tolr ? t * std::abs(b.y - a.y) / std::abs(b.x - a.x) : t; if (seg2(x, a, b) > std::hypot(t, ex)) c.fail("hull-segment", "mode %d, %d points, tolerance %g: point " F2 " is %g away from the segment hull of length %g", mode, N, (double)tolr, P2(x), seg2(x, a, b), len); } c.event("segment"); } else { c.event("point"); if (N > 1) { for (auto &x : p) if (std::hypot(D2(x).x - D2(p[h[0]]).x, D2(x).y - D2(p[h[0]]).y) > tolr + eps) c.fail("hull-point", "hull is one point"); } }
    (void)copy; c.hit(vf::hash_bytes(p.data(), p.size() * sizeof(vector2))); c.sample("mode %d: %d points -> hull of %zu", mode, N, h.size());
}

static std::vector<vector2> convex_poly(vf::rng &r, double &S) {
    S = r.logu(0.3, 6); std::vector<vector2> v; int mode = (int)r.below(4);
    if (mode == 0) { scalar a = (scalar)r.range(1, 4), b = (scalar)r.range(1, 4); v = {{a, -b}, {a, b}, {-a, b}, {-a, -b}}; S = 4; return v; } // axis-aligned rectangle, CCW
    if (mode == 1) { // sharp triangle
        double a = r.uni(0, 2 * M_PI), w = r.uni(0.15, 1.2); v = {{(scalar)(S * std::cos(a)), (scalar)(S * std::sin(a))}, {(scalar)(S * std::cos(a + M_PI - w)), (scalar)(S * std::sin(a + M_PI - w))}, {(scalar)(S * std::cos(a + M_PI + w)), (scalar)(S * std::sin(a + M_PI + w))}}; return v; }
    int N = r.range(3, 9); std::vector<double> th; for (int i = 0; i < N; ++i) th.push_back(2 * M_PI * (i + r.uni(0, 0.7)) / N); double rx = S * r.uni(0.3, 1), ry = S * r.uni(0.3, 1); for (double t : th) v.push_back({(scalar)(rx * std::cos(t)), (scalar)(ry * std::sin(t))}); return v; }

VF_SECTION(polygon_inside, 20000, 400000) {
    auto &r = c.r; double S; auto v = convex_poly(r, S); vector2 p{(scalar)r.uni(-1.5 * S, 1.5 * S), (scalar)r.uni(-1.5 * S, 1.5 * S)}; if (r.chance(0.4)) { double sx = 0, sy = 0, sw = 0; for (auto &x : v) { double w = r.unit(); sx += w * x.x; sy += w * x.y; sw += w; } double k = r.uni(0.9, 1.3); p = {(scalar)(sx / sw * k), (scalar)(sy / sw * k)}; }
    double m = 1e30; for (size_t i = 0; i < v.size(); ++i) { D2 a(v[i]), b(v[(i + 1) % v.size()]); double l = std::hypot(b.x - a.x, b.y - a.y); if (l < 0.01 * S) return; m = std::min(m, perp(b - a, D2(p) - a) / l); } if (std::abs(m) < kTol * S) return; bool want = m > 0; if (point_inside_convex_polygon(v, p) != want) c.fail("polygon-inside", "%zu-gon, point " F2 " margin %g: reported %d", v.size(), P2(p), m, !want);
    c.event(want ? "inside" : "outside"); c.hit(hv(v[0], v[1], v[2], p));
}

VF_SECTION(polygon_closest, 20000, 400000) {
    auto &r = c.r; double S; auto v = convex_poly(r, S); vector2 p{(scalar)r.uni(-2 * S, 2 * S), (scalar)r.uni(-2 * S, 2 * S)}; if (r.chance(0.35)) { // aligned with a vertex along an edge normal or an axis: Voronoi boundaries
        auto &x = v[r.below(v.size())]; if (r.chance(0.5)) p.x = x.x; else p.y = x.y; }
    std::vector<size_t> idx(v.size()); std::vector<vector2> sh(v.size()); std::vector<int> pm(v.size()); for (size_t i = 0; i < v.size(); ++i) pm[i] = (int)i; r.shuffle(pm); for (size_t i = 0; i < v.size(); ++i) { sh[pm[i]] = v[i]; idx[i] = (size_t)pm[i]; }
    double m = 1e30, ref = 1e30; for (size_t i = 0; i < v.size(); ++i) { D2 a(v[i]), b(v[(i + 1) % v.size()]); double l = std::hypot(b.x - a.x, b.y - a.y); if (l < 0.01 * S) return; m = std::min(m, perp(b - a, D2(p) - a) / l); ref = std::min(ref, seg2(p, a, b)); } if (std::abs(m) < kTol * S) return;
    vector2 q{(scalar)1e9, (scalar)1e9}; bool got = closest_point_convex_polygon(sh, idx, p, q), want = m < 0;
    if (got != want) { c.fail("polygon-closest-found", "%zu-gon, point " F2 " at signed distance %g: returned %d (vertices " F2 F2 F2 ")", v.size(), P2(p), m, got, P2(v[0]), P2(v[1]), P2(v[2])); return; }
    if (got) { double d = std::hypot((double)q.x - p.x, (double)q.y - p.y); if (std::abs(d - ref) > kTol * S * 2) c.fail("polygon-closest-optimal", "closest point at %g, minimum %g", d, ref); double on = 1e30; for (size_t i = 0; i < v.size(); ++i) on = std::min(on, seg2(q, v[i], v[(i + 1) % v.size()])); if (on > kTol * S) c.fail("polygon-closest-member", "point is %g off the boundary", on);
        support_polygon sp; sp.plane_vertices = sh; sp.hull = idx; vector2 q2; if (!closest_point_polygon(sp, p, q2) || q2.x != q.x || q2.y != q.y) c.fail("polygon-closest-overload", "closest_point_polygon disagrees"); }
    c.event(want ? "outside" : "inside"); c.hit(hv(v[0], v[1], v[2], p));
}

VF_SECTION(triangle_ccw, 4000, 50000) {
    auto &r = c.r; vector2 a{(scalar)r.range(-9, 9), (scalar)r.range(-9, 9)}, b{(scalar)r.range(-9, 9), (scalar)r.range(-9, 9)}, d{(scalar)r.range(-9, 9), (scalar)r.range(-9, 9)}; double ar = perp(D2(b) - D2(a), D2(d) - D2(a)); if (ar == 0) return;
    if (is_triangle_ccw(a, b, d) != (ar > 0)) c.fail("triangle-ccw", "area %g", ar); auto x = a, y = b, z = d; bool sw = sort_triangle_ccw(x, y, z); if (sw != (ar < 0) || perp(D2(y) - D2(x), D2(z) - D2(x)) <= 0) c.fail("triangle-sort", "area %g after sorting, swapped=%d", perp(D2(y) - D2(x), D2(z) - D2(x)), sw); c.event("triangles"); c.hit(hv(a, b, d));
}

// grid meshes: dimensions, winding, coverage
VF_SECTION(plane_mesh, 400, 4000) {
    auto &r = c.r; int nx = r.range(2, 12), nz = r.range(2, 12); double ex = r.uni(0.5, 20), ez = r.uni(0.5, 20); std::vector<vector3> v; std::vector<uint16_t> idx; make_plane_mesh((scalar)ex, (scalar)ez, nx, nz, v, idx); if ((int)v.size() != nx * nz || (int)idx.size() != (nx - 1) * (nz - 1) * 6) c.fail("plane-mesh-size", "%zu vertices %zu indices for a %dx%d grid", v.size(), idx.size(), nx, nz);
    double area = 0; for (size_t i = 0; i + 2 < idx.size(); i += 3) { for (int k = 0; k < 3; ++k) if (idx[i + k] >= v.size()) { c.fail("plane-mesh-index", "index out of range"); return; } D3 n = dcross(D3(v[idx[i + 1]]) - D3(v[idx[i]]), D3(v[idx[i + 2]]) - D3(v[idx[i + 1]])); if (n.y <= 0 || std::abs(n.x) > 1e-3 || std::abs(n.z) > 1e-3) c.fail("plane-mesh-winding", "triangle %zu does not face up", i / 3); area += n.y / 2; } if (std::abs(area - ex * ez) > 1e-3 * ex * ez) c.fail("plane-mesh-area", "area %g expected %g", area, ex * ez); double mxx = 0, mxz = 0; for (auto &x : v) { mxx = std::max(mxx, std::abs((double)x.x)); mxz = std::max(mxz, std::abs((double)x.z)); } if (std::abs(mxx - ex / 2) > 1e-3 * ex || std::abs(mxz - ez / 2) > 1e-3 * ez) c.fail("plane-mesh-extent", "extent"); c.event("grids"); c.hit(hv(nx, nz, ex, ez));
}
#endif
