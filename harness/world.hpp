// Whole-engine scenes: construction helpers and structural monitors.
#ifndef VF_WORLD_HPP
#define VF_WORLD_HPP
#include "convex.hpp"
#include <map>
#include <set>
#include "edyn/edyn.hpp"
#include "edyn/collision/broadphase.hpp"
#include "edyn/collision/contact_manifold.hpp"
#include "edyn/collision/contact_manifold_map.hpp"
#include "edyn/collision/contact_point.hpp"
#include "edyn/collision/narrowphase.hpp"
#include "edyn/collision/query_aabb.hpp"
#include "edyn/comp/graph_edge.hpp"
#include "edyn/comp/graph_node.hpp"
#include "edyn/comp/island.hpp"
#include "edyn/comp/tree_resident.hpp"
#include "edyn/comp/tag.hpp"
#include "edyn/comp/origin.hpp"
#include "edyn/comp/delta_linvel.hpp"
#include "edyn/constraints/null_constraint.hpp"
#include "edyn/context/settings.hpp"
#include "edyn/simulation/stepper_sequential.hpp"
#include "edyn/util/contact_manifold_util.hpp"
#include "edyn/util/settings_util.hpp"
#include "edyn/util/aabb_util.hpp"
#include "edyn/util/gravity_util.hpp"
#include "edyn/util/island_util.hpp"
#include "edyn/context/step_callback.hpp"
using ent = entt::entity;
struct World {
    entt::registry reg; double t = 0; double dt;
    World(double dt_ = 1.0 / 60, edyn::execution_mode mode = edyn::execution_mode::sequential, size_t workers = 0, double t0 = 0) : t(t0), dt((edyn::scalar)dt_) { edyn::init_config cfg; cfg.execution_mode = mode; cfg.fixed_dt = (edyn::scalar)dt_; cfg.timestamp = t0; cfg.num_worker_threads = workers; edyn::attach(reg, cfg); }
    ~World() { edyn::detach(reg); }
    void step(int n = 1) { for (int i = 0; i < n; ++i) { t += dt * (1 + 1e-6); edyn::update(reg, t); } }
    D3 pos(ent e) { return reg.get<edyn::position>(e); } DQ orn(ent e) { return reg.get<edyn::orientation>(e); } D3 vel(ent e) { auto *v = reg.try_get<edyn::linvel>(e); return v ? D3(*v) : D3(); } D3 ang(ent e) { auto *v = reg.try_get<edyn::angvel>(e); return v ? D3(*v) : D3(); }
};
inline edyn::shapes_variant_t rnd_shape(vf::rng &r, double S, bool compound = true) {
    int k = (int)r.below(compound ? 6 : 5); if (k < 5) { edyn::shapes_variant_t v; rnd_conv(r, k, S).with([&](auto s) { v = s; }); if (auto *p = std::get_if<edyn::polyhedron_shape>(&v)) p->rotated = nullptr; return v; }
    edyn::compound_shape cs; int n = 1 + (int)r.below(3); for (int i = 0; i < n; ++i) { Conv c = rnd_conv(r, (int)r.below(5), S * 0.5); edyn::vector3 p = rnd_vec(r, S * 0.5); edyn::quaternion q = rnd_quat(r); c.with([&](auto s) { if constexpr (std::is_same_v<decltype(s), edyn::polyhedron_shape>) { s.rotated = nullptr; } cs.add_shape(s, p, q); }); } cs.finish(); return cs;
}
inline std::shared_ptr<edyn::triangle_mesh> grid_mesh(vf::rng &r, int n, double cell, double amp) { auto m = std::make_shared<edyn::triangle_mesh>(); std::vector<edyn::vector3> v; std::vector<uint32_t> idx; for (int z = 0; z <= n; ++z) for (int x = 0; x <= n; ++x) v.push_back(edyn::vector3{(edyn::scalar)((x - n * 0.5) * cell), (edyn::scalar)(amp ? r.uni(-amp, amp) : 0), (edyn::scalar)((z - n * 0.5) * cell)}); for (int z = 0; z < n; ++z) for (int x = 0; x < n; ++x) { uint32_t a = z * (n + 1) + x, b = a + 1, c = a + n + 1, d = c + 1; for (uint32_t i : {a, c, b, b, c, d}) idx.push_back(i); } m->insert_vertices(v.begin(), v.end()); m->insert_indices(idx.begin(), idx.end()); m->initialize(); return m; }
inline ent make_floor(entt::registry &g, double h = 0) { edyn::rigidbody_def d; d.kind = edyn::rigidbody_kind::rb_static; d.shape = edyn::plane_shape{{0, 1, 0}, (edyn::scalar)h}; d.material->restitution = 0; d.material->friction = (edyn::scalar)0.6; return edyn::make_rigidbody(g, d); }
inline bool is_proc(entt::registry &g, ent e) { return g.all_of<edyn::procedural_tag>(e); }
// Structure that must hold after every update.
inline void check_structure(vf::ctx &c, entt::registry &g, const char *when) {
    using namespace edyn; auto &graph = g.ctx().get<entity_graph>(); auto I = [](ent e) { return (uint32_t)e; };
    size_t nodes = 0, edges = 0;
    for (auto e : g.view<rigidbody_tag>()) {
        nodes++; if (!g.all_of<graph_node>(e)) { c.fail("body-node", "%s: body %u is not in the graph", when, I(e)); return; } auto n = g.get<graph_node>(e).node_index; if (graph.node_entity(n) != e) c.fail("body-node", "%s: the graph node of body %u holds another entity", when, I(e)); if (graph.is_connecting_node(n) != is_proc(g, e)) c.fail("body-connecting", "%s: graph node of body %u is connecting=%d but procedural=%d", when, I(e), graph.is_connecting_node(n), is_proc(g, e));
        int kinds = g.all_of<dynamic_tag>(e) + g.all_of<kinematic_tag>(e) + g.all_of<static_tag>(e); if (kinds != 1) c.fail("body-kind", "%s: body %u is of %d kinds", when, I(e), kinds);
        D3 p = g.get<position>(e); if (!finite(p)) c.fail("finite", "%s: position of body %u is not finite", when, I(e)); auto q = g.get<orientation>(e); double ql = std::sqrt((double)q.x * q.x + (double)q.y * q.y + (double)q.z * q.z + (double)q.w * q.w); if (!(std::abs(ql - 1) < 1e-3)) c.fail("unit-orientation", "%s: orientation of body %u has length %g", when, I(e), ql);
        if (auto *v = g.try_get<linvel>(e)) if (!finite(D3(*v))) c.fail("finite", "%s: velocity of body %u is not finite", when, I(e)); if (auto *v = g.try_get<angvel>(e)) if (!finite(D3(*v))) c.fail("finite", "%s: angular velocity of body %u is not finite", when, I(e));
        if (is_proc(g, e)) { auto *ir = g.try_get<island_resident>(e); if (!ir || ir->island_entity == entt::null || !g.valid(ir->island_entity) || !g.all_of<island>(ir->island_entity)) { c.fail("island-resident", "%s: dynamic body %u belongs to no island", when, I(e)); return; } if (!g.get<island>(ir->island_entity).nodes.contains(e)) c.fail("island-resident", "%s: the island of body %u does not list it", when, I(e)); if (g.all_of<multi_island_resident>(e)) c.fail("island-resident", "%s: body %u is both kinds of resident", when, I(e));
            if (g.all_of<sleeping_tag>(e) != g.all_of<sleeping_tag>(ir->island_entity)) c.fail("sleep", "%s: body %u sleeping=%d but its island sleeping=%d", when, I(e), g.all_of<sleeping_tag>(e), g.all_of<sleeping_tag>(ir->island_entity));
            if (g.all_of<sleeping_tag>(e)) { c.event("sleeping"); if (dlen(D3(g.get<linvel>(e))) != 0 || dlen(D3(g.get<angvel>(e))) != 0) c.fail("sleep", "%s: sleeping body %u has a velocity", when, I(e)); } }
        else { auto *mr = g.try_get<multi_island_resident>(e); if (!mr || g.all_of<island_resident>(e)) { c.fail("island-resident", "%s: non-dynamic body %u has the wrong kind of residency", when, I(e)); return; } for (auto i : mr->island_entities) { if (!g.valid(i) || !g.all_of<island>(i)) { c.fail("multi-resident", "%s: body %u lists an island that does not exist", when, I(e)); return; } if (!g.get<island>(i).nodes.contains(e)) c.fail("multi-resident", "%s: body %u lists an island that does not list it", when, I(e)); } }
    }
    if (graph.num_nodes() != nodes) c.fail("graph-nodes", "%s: the graph has %zu nodes for %zu bodies", when, (size_t)graph.num_nodes(), nodes);
    for (auto [e, ge] : g.view<graph_edge>().each()) {
        edges++; if (graph.edge_entity(ge.edge_index) != e) { c.fail("edge-entity", "%s: the graph edge of %u holds another entity", when, I(e)); return; } auto pr = graph.edge_node_entities(ge.edge_index); if (!g.valid(pr.first) || !g.valid(pr.second)) { c.fail("edge-bodies", "%s: edge %u joins dead bodies", when, I(e)); return; }
        auto *ir = g.try_get<island_resident>(e); if (!is_proc(g, pr.first) && !is_proc(g, pr.second)) { if (g.all_of<contact_manifold>(e)) c.fail("contact-static", "%s: a contact manifold joins two non-dynamic bodies", when); continue; }
        if (!ir || ir->island_entity == entt::null || !g.valid(ir->island_entity)) { c.fail("edge-island", "%s: edge %u belongs to no island", when, I(e)); return; } auto &isl = g.get<island>(ir->island_entity); if (!isl.edges.contains(e)) c.fail("edge-island", "%s: the island of edge %u does not list it", when, I(e));
        for (auto b : {pr.first, pr.second}) { if (is_proc(g, b)) { if (g.get<island_resident>(b).island_entity != ir->island_entity) c.fail("island-connected", "%s: edge %u and body %u it touches are in different islands", when, I(e), I(b)); } else { if (!isl.nodes.contains(b)) c.fail("island-multi", "%s: an island does not list the non-dynamic body %u it touches", when, I(b)); if (!g.get<multi_island_resident>(b).island_entities.contains(ir->island_entity)) c.fail("island-multi", "%s: non-dynamic body %u does not list an island it touches", when, I(b)); } }
        if (g.all_of<sleeping_tag>(e) != g.all_of<sleeping_tag>(ir->island_entity)) c.fail("sleep", "%s: edge %u sleeping differs from its island", when, I(e));
    }
    if (graph.num_edges() != edges) c.fail("graph-edges", "%s: the graph has %zu edges for %zu constraints and contacts", when, (size_t)graph.num_edges(), edges);
    size_t nisl = 0; for (auto [ie, isl] : g.view<island>().each()) { nisl++; for (auto e : isl.nodes) { if (!g.valid(e) || !g.all_of<rigidbody_tag>(e)) { c.fail("island-dead", "%s: an island lists a dead body", when); return; } if (is_proc(g, e) ? g.get<island_resident>(e).island_entity != ie : !g.get<multi_island_resident>(e).island_entities.contains(ie)) c.fail("island-lists", "%s: an island lists body %u that does not reside in it", when, I(e)); } for (auto e : isl.edges) { if (!g.valid(e) || !g.all_of<graph_edge>(e)) { c.fail("island-dead", "%s: an island lists a dead edge", when); return; } if (g.get<island_resident>(e).island_entity != ie) c.fail("island-lists", "%s: an island lists an edge of another", when); } }
    // islands are the connected components of dynamic bodies
    { std::map<uint32_t, uint32_t> up; auto find = [&](uint32_t x) { while (up[x] != x) x = up[x] = up[up[x]]; return x; }; for (auto e : g.view<rigidbody_tag, procedural_tag>()) up[I(e)] = I(e); for (auto [e, ge] : g.view<graph_edge>().each()) { (void)e; auto pr = graph.edge_node_entities(ge.edge_index); if (is_proc(g, pr.first) && is_proc(g, pr.second)) up[find(I(pr.first))] = find(I(pr.second)); }
        std::map<uint32_t, uint32_t> root; for (auto e : g.view<rigidbody_tag, procedural_tag>()) { uint32_t i = I(g.get<island_resident>(e).island_entity), f = find(I(e)); auto it = root.emplace(i, f); if (it.first->second != f) { c.fail("island-split", "%s: an island holds dynamic bodies that are not connected", when); break; } }
        if (root.size() != nisl) c.fail("island-empty", "%s: %zu islands for %zu groups of dynamic bodies", when, nisl, root.size()); }
    c.event("islands", (long)nisl); c.event("edges", (long)edges);
    // contacts
    auto &map = g.ctx().get<contact_manifold_map>(); std::set<std::pair<uint32_t, uint32_t>> pairs; size_t pts = 0; std::set<uint32_t> seen;
    for (auto [e, m, st] : g.view<contact_manifold, contact_manifold_state>().each()) {
        auto a = I(m.body[0]), b = I(m.body[1]); if (a > b) std::swap(a, b); if (!pairs.insert({a, b}).second) c.fail("manifold-unique", "%s: two manifolds for bodies %u and %u", when, a, b); if (!g.valid(m.body[0]) || !g.valid(m.body[1])) { c.fail("manifold-bodies", "%s: a manifold of dead bodies", when); return; } if (!map.contains(m.body[0], m.body[1]) || map.get(m.body[1], m.body[0]) != e) c.fail("manifold-map", "%s: the manifold of %u and %u is not in the map", when, a, b);
        if (st.num_points > max_contacts) c.fail("contact-count", "%s: %d contact points", when, st.num_points); int n = 0; for (ent p = st.contact_entity; p != entt::null;) { if (!g.valid(p) || !g.all_of<contact_point, contact_point_geometry, contact_point_list>(p)) { c.fail("contact-list", "%s: a contact list contains a dead point", when); return; } if (!seen.insert(I(p)).second) { c.fail("contact-list", "%s: a contact point is listed twice", when); return; } auto &l = g.get<contact_point_list>(p); if (l.parent != e) c.fail("contact-list", "%s: a listed contact point has another parent", when); n++; pts++; auto &cp = g.get<contact_point>(p); double nl = dlen(D3(cp.normal)); if (!finite(D3(cp.pivotA)) || !finite(D3(cp.pivotB)) || !(std::abs(nl - 1) < 1e-3)) c.fail("contact-normal", "%s: contact normal of length %g between %u and %u", when, nl, a, b); if (!std::isfinite(g.get<contact_point_geometry>(p).distance)) c.fail("finite", "%s: contact distance", when); if (auto *im = g.try_get<contact_point_impulse>(p)) { if (!(im->normal_impulse >= 0)) c.fail("contact-pull", "%s: contact impulse %g pulls", when, (double)im->normal_impulse); } p = l.next; }
        if (n != st.num_points) c.fail("contact-count", "%s: manifold of %u and %u reports %d points but lists %d", when, a, b, st.num_points, n);
    }
    size_t all = 0; for (auto e : g.view<contact_point>()) { (void)e; all++; } if (all != pts) c.fail("contact-orphan", "%s: %zu contact points exist, %zu are listed", when, all, pts); c.event("contact-points", (long)pts); c.event("structures");
    // broad phase residency
    for (auto e : g.view<rigidbody_tag, AABB>()) { auto *tr = g.try_get<tree_resident>(e); if (tr && tr->procedural != is_proc(g, e)) c.fail("tree-resident", "%s: body %u is in the wrong tree", when, I(e)); if (!tr) c.fail("tree-resident", "%s: body %u is not in a tree", when, I(e)); }
}
#endif
