// Bounding volume trees (VF_PART 1) and triangle meshes (VF_PART 2).
#include "geo.hpp"
#include "edyn/collision/static_tree.hpp"
#include "edyn/collision/query_tree.hpp"
#include "edyn/shapes/triangle_mesh.hpp"
#include "edyn/math/triangle.hpp"
#include "edyn/util/shape_util.hpp"
using namespace edyn;
static const double M = kDouble ? 1e-9 : 1e-4; // relative margin within which a decision may go either way
struct box3 { D3 a, b; };
static box3 grow(box3 x, double m) { return {x.a - D3{m, m, m}, x.b + D3{m, m, m}}; }
static bool seg_box(D3 p, D3 q, box3 x) { double lo = 0, hi = 1; for (int i = 0; i < 3; ++i) { if (x.a[i] > x.b[i]) return false; double d = q[i] - p[i]; if (d == 0) { if (p[i] < x.a[i] || p[i] > x.b[i]) return false; continue; } double t0 = (x.a[i] - p[i]) / d, t1 = (x.b[i] - p[i]) / d; if (t0 > t1) std::swap(t0, t1); lo = std::max(lo, t0); hi = std::min(hi, t1); if (lo > hi) return false; } return true; }
static bool box_box(const AABB &a, const AABB &b) { for (int i = 0; i < 3; ++i) if (a.min[i] > b.max[i] || b.min[i] > a.max[i]) return false; return true; } // exact
static AABB rbox(vf::rng &r, double s, double ext) { auto c = rnd_vec(r, s); vector3 h{(scalar)r.uni(0, ext), (scalar)r.uni(0, ext), (scalar)r.uni(0, ext)}; if (r.chance(0.2)) h[r.below(3)] = 0; if (r.chance(0.05)) h = vector3_zero; return {c - h, c + h}; }

#if VF_PART == 1
static std::vector<AABB> rset(vf::rng &r, double &s) {
    int n = r.chance(0.1) ? 1 : r.chance(0.1) ? 2 : r.chance(0.1) ? r.range(200, 500) : r.range(2, 60); s = r.logu(0.1, 1000); std::vector<AABB> v; int mode = (int)r.below(5);
    for (int i = 0; i < n; ++i) {
        if (mode == 0) v.push_back(rbox(r, s, s * 0.2)); else if (mode == 1) { double u = s / 8; auto c = vector3{(scalar)(r.range(-8, 8) * u), (scalar)(r.range(-8, 8) * u), (scalar)(r.range(-8, 8) * u)}; vector3 h{(scalar)u, (scalar)u, (scalar)u}; v.push_back({c, c + h}); } // grid, exactly touching
        else if (mode == 2) { auto b = rbox(r, s, s * 0.01); v.push_back(b); if (r.chance(0.5)) v.push_back(b); } // duplicates
        else if (mode == 3) { if (i == 0) v.push_back({vector3{(scalar)-s, (scalar)-s, (scalar)-s}, vector3{(scalar)s, (scalar)s, (scalar)s}}); else v.push_back(rbox(r, s * 0.9, r.logu(s * 1e-4, s))); } // very different sizes
        else { auto c = vector3{(scalar)(s * (i % 3)), 0, 0}; v.push_back({c, c + vector3{(scalar)(s * 0.1), (scalar)(s * 0.1), (scalar)(s * 0.1)}}); } // all equal centres
    }
    return v;
}
VF_SECTION(build_query, 3000, 60000) {
    auto &r = c.r; double s; auto boxes = rset(r, s); uint32_t per = r.chance(0.5) ? 1 : r.range(1, 8); static_tree tree; std::map<uint32_t, std::vector<uint32_t>> leaves; uint32_t next = 0; std::vector<int> seen(boxes.size(), 0); bool bad = false;
    auto report = [&](static_tree::tree_node &node, auto b, auto e) { node.id = next; std::vector<uint32_t> ids(b, e); if (ids.empty() || ids.size() > per) bad = true; for (auto i : ids) { if (i >= boxes.size()) bad = true; else seen[i]++; } leaves[next++] = ids; };
    tree.build(boxes.begin(), boxes.end(), report, per); if (bad) c.fail("leaf-size", "a leaf holds no object, too many objects or an unknown one"); for (size_t i = 0; i < boxes.size(); ++i) if (seen[i] != 1) { c.fail("leaf-partition", "object %zu of %zu is in %d leaves", i, boxes.size(), seen[i]); return; }
    AABB all = boxes[0]; for (auto &b : boxes) for (int i = 0; i < 3; ++i) { all.min[i] = std::min(all.min[i], b.min[i]); all.max[i] = std::max(all.max[i], b.max[i]); } auto root = tree.root_aabb(); if (root.min != all.min || root.max != all.max) c.fail("root-aabb", "root box does not enclose exactly all objects");
    std::map<uint32_t, AABB> la; for (auto &l : leaves) { AABB a = boxes[l.second[0]]; for (auto i : l.second) for (int k = 0; k < 3; ++k) { a.min[k] = std::min(a.min[k], boxes[i].min[k]); a.max[k] = std::max(a.max[k], boxes[i].max[k]); } la[l.first] = a; }
    for (int q = 0; q < 12; ++q) {
        AABB b = r.chance(0.3) ? boxes[r.below(boxes.size())] : r.chance(0.2) ? all : rbox(r, s, r.logu(s * 1e-3, s)); if (r.chance(0.2)) { auto k = r.below(3); auto &o = boxes[r.below(boxes.size())]; auto d = b.max[k] - b.min[k]; b.min[k] = o.max[k]; b.max[k] = b.min[k] + d; } // exactly touching
        std::map<uint32_t, int> hits; tree.query(b, [&](auto id) { auto &n = tree.get_node(id); if (!n.leaf()) c.fail("query-leaf", "query visited an inner node"); hits[n.id]++; }); size_t want = 0; for (auto &l : la) { bool in = box_box(l.second, b); want += in; int h = hits.count(l.first) ? hits[l.first] : 0; if (h != (in ? 1 : 0)) { c.fail("query-exact", "%zu objects, %u per leaf: a leaf %s the query box was visited %d times", boxes.size(), per, in ? "touching" : "away from", h); break; } } c.event("query_hits", want); c.event("queries");
    }
    for (int q = 0; q < 12; ++q) {
        D3 p = rnd_vec(r, s * 1.5), e = rnd_vec(r, s * 1.5); if (r.chance(0.3)) { auto &o = boxes[r.below(boxes.size())]; D3 m = dlerp(D3(o.min), D3(o.max), 0.5); D3 d = rnd_unitD(r) * (s * 2); p = (m - d * r.unit()).v(); e = (m + d * r.unit()).v(); } if (r.chance(0.2)) { int k = (int)r.below(3); e = p; e.at(k) = r.uni(-s, s); } std::map<uint32_t, int> hits; tree.raycast(p.v(), e.v(), [&](auto id) { hits[tree.get_node(id).id]++; }); D3 pf = p.v(), ef = e.v(); double m = M * (s * 3 + 1);
        for (auto &l : la) { box3 x{D3(l.second.min), D3(l.second.max)}; int h = hits.count(l.first) ? hits[l.first] : 0; if (h > 1) c.fail("raycast-once", "leaf visited %d times", h); if (!h && seg_box(pf, ef, grow(x, -m))) { c.fail("raycast-missed", "%zu objects: the ray passes through a leaf that was not visited", boxes.size()); break; } if (h && !seg_box(pf, ef, grow(x, m + 2e-3 * (kDouble ? 1e-6 : 1)))) c.event("raycast_extra"); c.event(h ? "ray_hit" : "ray_miss"); }
    }
    c.event("trees"); c.event("objects", boxes.size()); c.hit(vf::hash_bytes(boxes.data(), boxes.size() * sizeof(AABB))); c.sample("%zu objects, %u per leaf, scale %g", boxes.size(), per, s);
}
// The generic traversal on an arbitrary tree: visits every leaf all of whose ancestors pass the test, once, and nothing else.
struct fake_tree { struct node { AABB aabb; uint32_t child1, child2; bool leaf() const { return child1 == EDYN_NULL_NODE; } }; std::vector<node> n; const node &get_node(uint32_t i) const { return n.at(i); } };
VF_SECTION(traverse, 3000, 40000) {
    auto &r = c.r; fake_tree t; std::function<uint32_t(int)> mk = [&](int d) -> uint32_t { uint32_t i = (uint32_t)t.n.size(); t.n.push_back({rbox(r, 5, 6), EDYN_NULL_NODE, EDYN_NULL_NODE}); if (d > 0 && r.chance(0.85)) { auto a = mk(d - 1); auto b = r.chance(0.05) ? EDYN_NULL_NODE : mk(d - 1); t.n[i].child1 = a; t.n[i].child2 = b; } return i; }; std::function<uint32_t(int, int)> chain = [&](int d, int side) -> uint32_t { uint32_t i = (uint32_t)t.n.size(); t.n.push_back({rbox(r, 5, 12), EDYN_NULL_NODE, EDYN_NULL_NODE}); if (d > 0) { auto a = chain(d - 1, r.chance(0.1) ? 1 - side : side); auto b = mk(r.range(0, 1)); t.n[i].child1 = side ? b : a; t.n[i].child2 = side ? a : b; } return i; }; // degenerate trees: as deep as they are big
    bool deep = r.chance(0.05); uint32_t root = deep ? chain(r.range(20, 400), r.range(0, 1)) : mk(r.range(0, 8)); if (r.chance(0.03)) root = EDYN_NULL_NODE;
    double pp = deep ? 0.999 : 0.8; if (deep) c.event("deep_trees"); std::set<uint32_t> pass; for (uint32_t i = 0; i < t.n.size(); ++i) if (r.chance(pp)) pass.insert(i); std::map<uint32_t, int> want, got; std::function<void(uint32_t)> ref = [&](uint32_t i) { if (i == EDYN_NULL_NODE || !pass.count(i)) return; if (t.n[i].leaf()) want[i]++; else { ref(t.n[i].child1); ref(t.n[i].child2); } }; ref(root); size_t tests = 0; traverse_tree(t, root, EDYN_NULL_NODE, [&](auto &n) { ++tests; return pass.count((uint32_t)(&n - t.n.data())) > 0; }, [&](uint32_t id) { got[id]++; }); if (want != got) c.fail("traverse", "%zu nodes: visited %zu leaves instead of %zu", t.n.size(), got.size(), want.size()); if (tests > t.n.size()) c.fail("traverse-twice", "%zu tests for %zu nodes", tests, t.n.size());
    AABB q = rbox(r, 5, 5); got.clear(); want.clear(); pass.clear(); for (uint32_t i = 0; i < t.n.size(); ++i) if (box_box(t.n[i].aabb, q)) pass.insert(i); ref(root); query_tree(t, root, EDYN_NULL_NODE, q, [&](uint32_t id) { got[id]++; }); if (want != got) c.fail("query-generic", "query visits %zu leaves instead of %zu", got.size(), want.size()); c.event("nodes", t.n.size()); c.hit(hv(t.n.size(), tests, r.next()));
}
#endif

#if VF_PART == 2
struct mesh_in { std::vector<vector3> v; std::vector<uint32_t> i; double s; std::vector<scalar> fr, re; };
static mesh_in rmesh(vf::rng &r) {
    mesh_in m; m.s = r.logu(0.2, 50); int mode = (int)r.below(5);
    if (mode == 0) { bool big = r.chance(0.012); int nx = big ? r.range(10, 40) : r.range(2, 10), nz = big ? r.range(10, 24) : r.range(2, 10); make_plane_mesh((scalar)m.s, (scalar)(m.s * r.uni(0.3, 2)), nx, nz, m.v, m.i); for (auto &p : m.v) p.y = (scalar)r.uni(-0.1 * m.s, 0.1 * m.s); }
    else if (mode == 1) { make_plane_mesh((scalar)m.s, (scalar)m.s, r.range(2, 6), r.range(2, 6), m.v, m.i); } // flat
    else if (mode == 2) { // closed: octahedron-like double fan
        int n = r.range(3, 12); for (int k = 0; k < n; ++k) { double a = 2 * M_PI * k / n; m.v.push_back(D3{std::cos(a) * m.s, 0, std::sin(a) * m.s}.v()); } m.v.push_back(D3{0, m.s * r.uni(0.2, 2), 0}.v()); m.v.push_back(D3{0, -m.s * r.uni(0.2, 2), 0}.v()); for (uint32_t k = 0; k < (uint32_t)n; ++k) { uint32_t j = (k + 1) % n; m.i.insert(m.i.end(), {(uint32_t)n, j, k, (uint32_t)n + 1, k, j}); } }
    else if (mode == 3) { // fan around a vertex, open
        int n = r.range(2, 9); m.v.push_back(vector3_zero); for (int k = 0; k <= n; ++k) { double a = 5.0 * k / n; m.v.push_back(D3{std::cos(a) * m.s, r.uni(-0.4, 0.4) * m.s, -std::sin(a) * m.s}.v()); } for (uint32_t k = 1; k <= (uint32_t)n; ++k) m.i.insert(m.i.end(), {0u, k, k + 1}); }
    else { // separate triangles
        int n = r.range(1, 12); for (int k = 0; k < n; ++k) for (int j = 0; j < 3; ++j) m.v.push_back(rnd_vec(r, m.s)), m.i.push_back((uint32_t)m.v.size() - 1); }
    if (r.chance(0.4)) { std::vector<std::array<uint32_t, 3>> t(m.i.size() / 3); for (size_t k = 0; k < m.i.size(); ++k) t[k / 3][k % 3] = m.i[k]; r.shuffle(t); for (size_t k = 0; k < m.i.size(); ++k) m.i[k] = t[k / 3][k % 3]; } // faces in any order
    auto q = rnd_quat(r); D3 off = r.chance(0.5) ? D3() : D3(rnd_vec(r, m.s)); for (auto &p : m.v) p = dto_world(p, off, q).v();
    // relabel vertices and rotate the starting corner of triangles
    std::vector<uint32_t> perm(m.v.size()); for (uint32_t k = 0; k < perm.size(); ++k) perm[k] = k; r.shuffle(perm); std::vector<vector3> v(m.v.size()); for (uint32_t k = 0; k < perm.size(); ++k) v[perm[k]] = m.v[k]; m.v = v; for (auto &k : m.i) k = perm[k]; for (size_t t = 0; t < m.i.size(); t += 3) for (int k = r.range(0, 2); k; --k) { auto x = m.i[t]; m.i[t] = m.i[t + 1]; m.i[t + 1] = m.i[t + 2]; m.i[t + 2] = x; }
    if (r.chance(0.7)) for (size_t k = 0; k < m.v.size(); ++k) m.fr.push_back((scalar)r.unit()); if (r.chance(0.7)) for (size_t k = 0; k < m.v.size(); ++k) m.re.push_back((scalar)r.unit()); return m;
}
static void fill(triangle_mesh &t, mesh_in &m) { t.insert_vertices(m.v.begin(), m.v.end()); t.insert_indices(m.i.begin(), m.i.end()); if (!m.fr.empty()) t.insert_friction_coefficients(m.fr.begin(), m.fr.end()); if (!m.re.empty()) t.insert_restitution_coefficients(m.re.begin(), m.re.end()); t.initialize(); }
static double tri_quality(D3 a, D3 b, D3 c) { double l = std::max({ddist(a, b), ddist(b, c), ddist(c, a)}); return dlen(dcross(b - a, c - a)) / (l * l); }
VF_SECTION(topology, 1500, 30000) {
    auto &r = c.r; auto m = rmesh(r); triangle_mesh t; fill(t, m); size_t T = m.i.size() / 3; if (t.num_vertices() != m.v.size() || t.num_triangles() != T) { c.fail("mesh-counts", "%zu vertices %zu triangles", t.num_vertices(), t.num_triangles()); return; }
    std::map<std::pair<uint32_t, uint32_t>, std::vector<std::pair<size_t, int>>> E; for (size_t k = 0; k < T; ++k) for (int j = 0; j < 3; ++j) { auto a = m.i[k * 3 + j], b = m.i[k * 3 + (j + 1) % 3]; E[{std::min(a, b), std::max(a, b)}].push_back({k, j}); } if (t.num_edges() != E.size()) c.fail("mesh-edges", "%zu edges, expected %zu", t.num_edges(), E.size()); std::set<size_t> used;
    for (size_t k = 0; k < T; ++k) {
        D3 a = m.v[m.i[k * 3]], b = m.v[m.i[k * 3 + 1]], d = m.v[m.i[k * 3 + 2]]; auto tv = t.get_triangle_vertices(k); for (int j = 0; j < 3; ++j) if (tv[j] != m.v[m.i[k * 3 + j]] || t.get_face_vertex_index(k, j) != m.i[k * 3 + j]) c.fail("mesh-face", "vertex %d of triangle %zu", j, k); double qu = tri_quality(a, b, d); if (qu < 1e-2) continue; D3 n = dnorm(dcross(b - a, d - a)); if (dlen(D3(t.get_triangle_normal(k)) - n) > 1e3 * kEps / qu + 1e2 * kEps) c.fail("mesh-normal", "normal of triangle %zu is " F3 " instead of " F3, k, P3(t.get_triangle_normal(k)), P3(n));
    }
    for (auto &e : E) {
        size_t ei = SIZE_MAX; for (auto &u : e.second) { auto x = t.get_face_edge_index(u.first, u.second); if (x >= t.num_edges()) { c.fail("mesh-edge-range", "edge index %u", x); return; } if (ei != SIZE_MAX && ei != x) c.fail("mesh-edge-shared", "two triangles give different indices to their common edge"); ei = x; } if (!used.insert(ei).second) c.fail("mesh-edge-unique", "one index for two edges"); auto ev = t.get_edge_vertex_indices(ei); if (std::minmax(ev[0], ev[1]) != std::minmax(e.first.first, e.first.second)) c.fail("mesh-edge-vertices", "edge %zu joins %u and %u", ei, ev[0], ev[1]); auto ep = t.get_edge_vertices(ei); if (ep[0] != m.v[ev[0]] || ep[1] != m.v[ev[1]]) c.fail("mesh-edge-vertices", "positions of edge %zu", ei); if (t.is_boundary_edge(ei) != (e.second.size() == 1)) c.fail("mesh-boundary", "edge shared by %zu triangles: boundary=%d", e.second.size(), (int)t.is_boundary_edge(ei));
        auto ef = t.get_edge_face_indices(ei); if (e.second.size() == 1) { if (ef[0] != e.second[0].first || ef[1] != ef[0]) c.fail("mesh-edge-faces", "faces of a boundary edge"); if (!t.is_convex_edge(ei)) c.fail("mesh-boundary-convex", "boundary edge not convex"); auto k = e.second[0].first; int j = e.second[0].second; D3 a = m.v[m.i[k * 3]], b = m.v[m.i[k * 3 + 1]], d = m.v[m.i[k * 3 + 2]]; if (tri_quality(a, b, d) > 1e-2) { D3 n = dnorm(dcross(b - a, d - a)), ed = D3(m.v[m.i[k * 3 + (j + 1) % 3]]) - D3(m.v[m.i[k * 3 + j]]); D3 adj = t.get_adjacent_face_normal(k, j); if (std::abs(dlen(adj) - 1) > 1e-3 || ddot(adj, n) >= 0 || ddot(adj, dcross(ed, n)) <= 0) c.fail("mesh-boundary-normal", "adjacent normal of a boundary edge must point back and outside"); } }
        else if (e.second.size() == 2) { auto k0 = e.second[0].first, k1 = e.second[1].first; if (std::set<size_t>{ef[0], ef[1]} != std::set<size_t>{k0, k1}) c.fail("mesh-edge-faces", "edge %zu is shared by %zu and %zu, faces reported %u and %u", ei, k0, k1, ef[0], ef[1]); for (int w = 0; w < 2; ++w) { auto me = e.second[w], ot = e.second[1 - w]; if (t.get_adjacent_face_normal(me.first, me.second) != t.get_triangle_normal(ot.first)) c.fail("mesh-adjacent-normal", "triangle %zu edge %d", me.first, me.second); }
            // convexity: the apex of the other triangle lies below this triangle's plane
            auto me = e.second[0], ot = e.second[1]; D3 a = m.v[m.i[me.first * 3]], b = m.v[m.i[me.first * 3 + 1]], d = m.v[m.i[me.first * 3 + 2]]; D3 oa = m.v[m.i[ot.first * 3]], ob = m.v[m.i[ot.first * 3 + 1]], od = m.v[m.i[ot.first * 3 + 2]]; if (tri_quality(a, b, d) > 1e-2 && tri_quality(oa, ob, od) > 1e-2) { D3 n = dnorm(dcross(b - a, d - a)), on = dnorm(dcross(ob - oa, od - oa)), ap = m.v[m.i[ot.first * 3 + (ot.second + 2) % 3]]; double h = ddot(ap - a, n) / m.s; double ang = dlen(dcross(n, on)); bool consistent = m.i[me.first * 3 + me.second] == m.i[ot.first * 3 + (ot.second + 1) % 3]; if (consistent && ang > 0.02 && ddot(n, on) > -0.99 && std::abs(h) > 1e-3) { if (t.is_convex_edge(ei) != (h < 0)) c.fail("mesh-convex", "edge %zu is %s (apex %g off the plane) but reported %s", ei, h < 0 ? "convex" : "concave", h * m.s, t.is_convex_edge(ei) ? "convex" : "concave"); c.event(h < 0 ? "convex" : "concave"); } else if (ang < (kDouble ? 1e-9 : 1e-7) && ddot(n, on) > 0 && t.is_convex_edge(ei) && m.s < 5 && a.y == 0 && b.y == 0 && d.y == 0 && oa.y == 0 && ob.y == 0 && od.y == 0) c.fail("mesh-flat-edge", "an edge between coplanar triangles is reported convex"); } }
    }
    c.event("meshes"); c.event("edges", E.size()); c.hit(vf::hash_bytes(m.v.data(), m.v.size() * sizeof(vector3))); c.sample("%zu vertices, %zu triangles, %zu edges, scale %g", m.v.size(), T, E.size(), m.s);
}
VF_SECTION(queries, 1500, 30000) {
    auto &r = c.r; auto m = rmesh(r); triangle_mesh t; fill(t, m); size_t T = m.i.size() / 3; std::vector<AABB> tb(T); AABB all; for (size_t k = 0; k < T; ++k) { for (int ax = 0; ax < 3; ++ax) { auto x0 = m.v[m.i[k * 3]][ax], x1 = m.v[m.i[k * 3 + 1]][ax], x2 = m.v[m.i[k * 3 + 2]][ax]; tb[k].min[ax] = std::min({x0, x1, x2}); tb[k].max[ax] = std::max({x0, x1, x2}); } if (!k) all = tb[k]; for (int ax = 0; ax < 3; ++ax) { all.min[ax] = std::min(all.min[ax], tb[k].min[ax]); all.max[ax] = std::max(all.max[ax], tb[k].max[ax]); } } if (t.get_aabb().min != all.min || t.get_aabb().max != all.max) c.fail("mesh-aabb", "box of the mesh");
    for (int q = 0; q < 10; ++q) { AABB b = rbox(r, m.s, r.logu(m.s * 1e-3, m.s)); if (r.chance(0.3)) b = tb[r.below(T)]; std::map<size_t, int> hits; t.visit_triangles(b, [&](auto i) { hits[i]++; }); for (size_t k = 0; k < T; ++k) { int h = hits.count(k) ? hits[k] : 0; if (h != (int)box_box(tb[k], b)) { c.fail("mesh-visit", "triangle %zu of %zu whose box is %s the query was visited %d times", k, T, box_box(tb[k], b) ? "in" : "outside", h); break; } } c.event("box_hits", hits.size()); }
    for (int q = 0; q < 10; ++q) { size_t k = r.below(T); double u = r.unit(), w = r.unit(); if (u + w > 1) { u = 1 - u; w = 1 - w; } D3 a = m.v[m.i[k * 3]], b = m.v[m.i[k * 3 + 1]], d = m.v[m.i[k * 3 + 2]]; D3 x = a + (b - a) * u + (d - a) * w, dir = rnd_unitD(r) * (m.s * 3); D3 p = (x - dir * r.uni(0.05, 1)).v(), e = (x + dir * r.uni(0.05, 1)).v(); std::map<size_t, int> hits; t.raycast(p.v(), e.v(), [&](auto i) { hits[i]++; }); double mg = M * (3 * m.s + 1); for (size_t i = 0; i < T; ++i) { int h = hits.count(i) ? hits[i] : 0; if (h > 1) c.fail("mesh-ray-once", "triangle visited %d times", h); if (!h && seg_box(p, e, grow({D3(tb[i].min), D3(tb[i].max)}, -mg))) { c.fail("mesh-ray-missed", "ray through the box of triangle %zu does not visit it", i); break; } } 
        // the ray passes through triangle k up to rounding: it must be visited unless its box is thinner than rounding
        if (!hits.count(k) && u > 0.02 && w > 0.02 && u + w < 0.98 && seg_box(p, e, {D3(tb[k].min), D3(tb[k].max)}) ) { double thin = std::min({tb[k].max.x - tb[k].min.x, tb[k].max.y - tb[k].min.y, tb[k].max.z - tb[k].min.z}); if (thin > 4 * mg) c.fail("mesh-ray-hit", "ray through triangle %zu does not visit it", k); } c.event("rays"); }
    size_t n = 0; bool ok = true; t.visit_all([&](size_t i, auto &tv) { ok = ok && i == n && tv[0] == m.v[m.i[i * 3]] && tv[1] == m.v[m.i[i * 3 + 1]] && tv[2] == m.v[m.i[i * 3 + 2]]; ++n; }); if (!ok || n != T) c.fail("mesh-visit-all", "visit_all visited %zu of %zu triangles", n, T); c.hit(vf::hash_bytes(m.v.data(), m.v.size() * sizeof(vector3)));
}
VF_SECTION(interpolation, 2000, 40000) {
    auto &r = c.r; auto m = rmesh(r); if (m.fr.empty()) for (size_t k = 0; k < m.v.size(); ++k) m.fr.push_back((scalar)r.unit()); triangle_mesh t; fill(t, m); size_t T = m.i.size() / 3; if (!t.has_per_vertex_friction() || t.has_per_vertex_restitution() != !m.re.empty() || t.has_per_vertex_material_id()) c.fail("mesh-has-material", "per-vertex material flags"); for (size_t k = 0; k < m.v.size(); ++k) { if (t.get_vertex_friction(k) != m.fr[k]) c.fail("mesh-vertex-friction", "vertex %zu", k); if (!m.re.empty() && t.get_vertex_restitution(k) != m.re[k]) c.fail("mesh-vertex-restitution", "vertex %zu", k); }
    for (int q = 0; q < 20; ++q) {
        size_t k = r.below(T); D3 V[3] = {m.v[m.i[k * 3]], m.v[m.i[k * 3 + 1]], m.v[m.i[k * 3 + 2]]}; double qu = tri_quality(V[0], V[1], V[2]); if (qu < 0.05) continue; double w[3]; w[0] = r.unit(); w[1] = r.unit() * (1 - w[0]); w[2] = 1 - w[0] - w[1]; if (r.chance(0.2)) { int z = (int)r.below(3); w[(z + 1) % 3] += w[z]; w[z] = 0; } if (r.chance(0.1)) { w[0] = w[1] = w[2] = 0; w[r.below(3)] = 1; } D3 p = V[0] * w[0] + V[1] * w[1] + V[2] * w[2]; double mag = std::max({dlen(V[0]), dlen(V[1]), dlen(V[2])}) / std::min({ddist(V[0], V[1]), ddist(V[1], V[2]), ddist(V[2], V[0])}); double tol = 100 * kEps * (1 + mag) / (qu * qu) + 1e-12; auto bc = t.barycentric_coordinates(k, p.v()); for (int j = 0; j < 3; ++j) if (std::abs(bc[j] - w[j]) > tol) { c.fail("mesh-barycentric", "coordinate %d is %g instead of %g", j, (double)bc[j], w[j]); break; } double f = 0, s = 0, vi = 0; vector3 vals = rnd_vec(r, 3); for (int j = 0; j < 3; ++j) { f += w[j] * m.fr[m.i[k * 3 + j]]; if (!m.re.empty()) s += w[j] * m.re[m.i[k * 3 + j]]; vi += w[j] * vals[j]; } if (std::abs(t.get_face_friction(k, p.v()) - f) > 3 * tol) c.fail("mesh-face-friction", "friction %g instead of %g", (double)t.get_face_friction(k, p.v()), f); if (!m.re.empty() && std::abs(t.get_face_restitution(k, p.v()) - s) > 3 * tol) c.fail("mesh-face-restitution", "restitution %g instead of %g", (double)t.get_face_restitution(k, p.v()), s); if (std::abs(t.interpolate_triangle(k, p.v(), vals) - vi) > 9 * tol) c.fail("mesh-interpolate", "%g instead of %g", (double)t.interpolate_triangle(k, p.v(), vals), vi);
        int j = (int)r.below(3); auto ei = t.get_face_edge_index(k, j); auto ev = t.get_edge_vertex_indices(ei); double fr = r.chance(0.2) ? (double)r.below(2) : r.unit(); double ff = m.fr[ev[0]] * (1 - fr) + m.fr[ev[1]] * fr; D3 ep = dlerp(D3(m.v[ev[0]]), D3(m.v[ev[1]]), fr); if (std::abs(t.get_edge_friction(ei, (scalar)fr) - ff) > 10 * kEps) c.fail("mesh-edge-friction", "friction at fraction %g of an edge is %g instead of %g", fr, (double)t.get_edge_friction(ei, (scalar)fr), ff); if (std::abs(t.get_edge_friction(ei, ep.v()) - ff) > 3 * tol) c.fail("mesh-edge-friction-point", "friction at a point at fraction %g of an edge from %g to %g is %g instead of %g", fr, (double)m.fr[ev[0]], (double)m.fr[ev[1]], (double)t.get_edge_friction(ei, ep.v()), ff); if (!m.re.empty()) { double rr = m.re[ev[0]] * (1 - fr) + m.re[ev[1]] * fr; if (std::abs(t.get_edge_restitution(ei, (scalar)fr) - rr) > 10 * kEps) c.fail("mesh-edge-restitution", "restitution at fraction %g", fr); if (std::abs(t.get_edge_restitution(ei, ep.v()) - rr) > 3 * tol) c.fail("mesh-edge-restitution-point", "restitution at fraction %g of an edge is %g instead of %g", fr, (double)t.get_edge_restitution(ei, ep.v()), rr); } c.event("points");
    }
    c.hit(vf::hash_bytes(m.v.data(), m.v.size() * sizeof(vector3)));
}
// Projection of a separating axis into the Voronoi region of a triangle feature.
VF_SECTION(voronoi_clip, 3000, 60000) {
    auto &r = c.r; auto m = rmesh(r); triangle_mesh t; fill(t, m); size_t T = m.i.size() / 3;
    for (int q = 0; q < 15; ++q) {
        size_t k = r.below(T); auto tv = t.get_triangle_vertices(k); if (tri_quality(tv[0], tv[1], tv[2]) < 0.02) continue; auto n = t.get_triangle_normal(k); auto axis = rnd_unit(r); if (r.chance(0.3)) axis = normalize(n + rnd_vec(r, 0.5)); auto f = (triangle_feature)r.below(3); size_t idx = f == triangle_feature::face ? 0 : r.below(3); auto res = clip_triangle_separating_axis(axis, t, k, tv, n, f, idx);
        if (f == triangle_feature::face) { if (res != n) c.fail("clip-face", "axis of a face contact is not its normal"); c.event("face"); continue; }
        auto info = [&](size_t e, double &ax, double &cv, vector3 &adj) { adj = t.get_adjacent_face_normal(k, e); D3 en = dnorm(dcross(D3(tv[(e + 1) % 3]) - D3(tv[e]), D3(adj))); ax = ddot(D3(axis), en); cv = ddot(D3(n), en); };
        auto check = [&](size_t e, double ax, double cv, vector3 adj) { vector3 want; if (std::abs(cv) < 1e-3) return; if (cv > 0) want = n; else if (std::abs(ax) < 1e-3) return; else want = ax > 0 ? adj : axis; if (res != want) c.fail(f == triangle_feature::edge ? "clip-edge" : "clip-vertex", "%s edge, axis is %g %s the region: wrong direction", cv > 0 ? "concave" : "convex", std::abs(ax), ax > 0 ? "outside" : "inside"); c.event(cv > 0 ? "concave" : ax > 0 ? "outside" : "inside"); };
        if (f == triangle_feature::edge) { double ax, cv; vector3 adj; info(idx, ax, cv, adj); check(idx, ax, cv, adj); }
        else { double a0, c0, a1, c1; vector3 j0, j1; size_t e0 = idx, e1 = (idx + 2) % 3; info(e0, a0, c0, j0); info(e1, a1, c1, j1); bool in0 = c0 < -1e-3 && a0 < -1e-3, in1 = c1 < -1e-3 && a1 < -1e-3; if (in0 && in1 && res != axis) c.fail("clip-vertex", "an axis inside the region of both edges was changed"); if (!(res == axis || res == n || res == j0 || res == j1)) c.fail("clip-vertex", "direction is neither the axis nor a face normal"); if (std::abs(c0) < 1e-3 || std::abs(c1) < 1e-3) continue; if (c0 > 0 && c1 > 0 && res != n) c.fail("clip-vertex", "vertex between two concave edges must use the triangle normal"); if (in0 == false && in1 == false && c0 < 0 && c1 < 0 && a0 > 1e-3 && a1 > 1e-3 && res == axis) c.fail("clip-vertex", "axis outside the region of both edges was kept"); c.event("vertex"); }
    }
    c.hit(vf::hash_bytes(m.v.data(), m.v.size() * sizeof(vector3)));
}
#endif
