// Entity graph and dynamic bounding volume tree against abstract models.
#include "geo.hpp"
#include <map>
#include <set>
#include "edyn/core/entity_graph.hpp"
#include "edyn/collision/dynamic_tree.hpp"
using namespace edyn;
static entt::entity E(uint32_t i) { return entt::entity{i}; }
static uint64_t mix2(uint64_t h, uint64_t v) { return vf::mix(h * 31 + v); }
static uint32_t U(entt::entity e) { return (uint32_t)e; }
#if VF_PART == 1
struct Model { struct N { uint32_t e; bool nc; }; struct D { uint32_t e; size_t a, b; }; std::map<size_t, N> n; std::map<size_t, D> d; };
using SetU = std::set<uint32_t>;
static std::string str(const std::multiset<uint32_t> &s) { std::string o = "{"; for (auto x : s) o += std::to_string(x) + " "; return o + "}"; }
static void check_graph(vf::ctx &c, const entity_graph &g, const Model &m, vf::rng &r) {
    if (g.num_nodes() != m.n.size()) c.fail("graph-count", "the graph reports %zu nodes but has %zu", (size_t)g.num_nodes(), m.n.size());
    if (g.num_edges() != m.d.size()) c.fail("graph-count", "the graph reports %zu edges but has %zu", (size_t)g.num_edges(), m.d.size());
    for (auto &[i, n] : m.n) {
        if (U(g.node_entity(i)) != n.e) c.fail("graph-node", "node %zu holds entity %u instead of %u", i, U(g.node_entity(i)), n.e);
        if (g.is_connecting_node(i) == n.nc) c.fail("graph-connecting", "node %zu reports connecting=%d", i, !n.nc ? 0 : 1);
        std::multiset<uint32_t> nb, ed, gn, ge; std::set<size_t> adj; for (auto &[j, d] : m.d) if (d.a == i || d.b == i) { ed.insert(d.e); adj.insert(d.a == i ? d.b : d.a); } for (auto j : adj) nb.insert(m.n.at(j).e);
        g.visit_neighbors(i, [&](entt::entity e) { gn.insert(U(e)); if (gn.size() > 10000) c.fail("graph-neighbors", "visit_neighbors does not end"); }); if (gn != nb) c.fail("graph-neighbors", "neighbours of node %zu are %s, expected %s", i, str(gn).c_str(), str(nb).c_str());
        g.visit_edges(i, [&](size_t x) { ge.insert(U(g.edge_entity(x))); }); if (ge != ed) c.fail("graph-edges", "edges of node %zu are %s, expected %s", i, str(ge).c_str(), str(ed).c_str());
        for (int k = 0; k < 3; ++k) { auto it = m.n.begin(); std::advance(it, r.below(m.n.size())); size_t j = it->first; if (g.has_adjacency(i, j) != (adj.count(j) > 0)) c.fail("graph-adjacency", "has_adjacency(%zu,%zu) is %d", i, j, g.has_adjacency(i, j)); std::multiset<uint32_t> a, b; for (auto &[x, d] : m.d) if ((d.a == i && d.b == j) || (d.a == j && d.b == i)) a.insert(d.e); g.visit_edges(i, j, [&](size_t x) { b.insert(U(g.edge_entity(x))); }); if (a != b) c.fail("graph-edges", "edges between %zu and %zu are %s, expected %s", i, j, str(b).c_str(), str(a).c_str()); }
        if (ed.size() > 1) { size_t stop = 1 + r.below(ed.size()), seen = 0; g.visit_edges(i, [&](size_t) -> bool { return ++seen < stop; }); if (seen != stop) c.fail("graph-abort", "an aborted visit saw %zu edges instead of %zu", seen, stop); }
    }
    for (auto &[i, d] : m.d) { if (U(g.edge_entity(i)) != d.e) c.fail("graph-edge", "edge %zu holds entity %u instead of %u", i, U(g.edge_entity(i)), d.e); auto x = g.edge_node_indices(i); auto p = g.edge_node_entities(i); if (!(x[0] == d.a && x[1] == d.b)) c.fail("graph-edge", "edge %zu joins %zu,%zu instead of %zu,%zu", i, x[0], x[1], d.a, d.b); if (U(p.first) != m.n.at(d.a).e || U(p.second) != m.n.at(d.b).e) c.fail("graph-edge", "entities of edge %zu", i); }
    // connected components of connecting nodes; non-connecting ones belong to every component they touch
    std::map<size_t, int> comp; std::vector<std::pair<std::multiset<uint32_t>, std::multiset<uint32_t>>> ref; std::vector<std::set<size_t>> refn;
    for (auto &[s, n] : m.n) { if (n.nc || comp.count(s)) continue; std::vector<size_t> q{s}; comp[s] = (int)ref.size(); std::set<size_t> ns{s}, es; while (!q.empty()) { size_t u = q.back(); q.pop_back(); for (auto &[x, d] : m.d) if (d.a == u || d.b == u) { es.insert(x); size_t v = d.a == u ? d.b : d.a; if (m.n.at(v).nc) ns.insert(v); else if (!comp.count(v)) { comp[v] = (int)ref.size(); ns.insert(v); q.push_back(v); } } } std::multiset<uint32_t> a, b; for (auto x : ns) a.insert(m.n.at(x).e); for (auto x : es) b.insert(m.d.at(x).e); ref.push_back({a, b}); refn.push_back(ns); }
    auto key = [](auto v) { std::sort(v.begin(), v.end()); return v; };
    std::vector<std::pair<std::multiset<uint32_t>, std::multiset<uint32_t>>> got; for (auto &k : g.connected_components()) { if (k.nodes.empty() && k.edges.empty()) continue; std::multiset<uint32_t> a, b; for (auto e : k.nodes) a.insert(U(e)); for (auto e : k.edges) b.insert(U(e)); got.push_back({a, b}); }
    if (key(got) != key(ref)) c.fail("graph-components", "%zu connected components instead of %zu, or with different members", got.size(), ref.size());
    if (!m.n.empty() && g.is_single_connected_component() != (ref.size() <= 1)) c.fail("graph-single", "is_single_connected_component is %d with %zu components", g.is_single_connected_component(), ref.size());
    c.event("components", (long)ref.size());
    if (!ref.empty()) { // traverse and reach
        size_t k = r.below(ref.size()); size_t s = 0; bool ok = false; for (auto x : refn[k]) if (!m.n.at(x).nc) { s = x; ok = true; if (r.chance(0.5)) break; } if (!ok) return;
        std::multiset<uint32_t> a, b; g.traverse(s, [&](size_t x) { a.insert(U(g.node_entity(x))); }, [&](size_t x) { b.insert(U(g.edge_entity(x))); }); if (a != ref[k].first || b != ref[k].second) c.fail("graph-traverse", "traversal from %zu visits %s %s, expected %s %s", s, str(a).c_str(), str(b).c_str(), str(ref[k].first).c_str(), str(ref[k].second).c_str());
        std::multiset<uint32_t> a2; g.traverse(s, [&](size_t x) { a2.insert(U(g.node_entity(x))); }); if (a2 != a) c.fail("graph-traverse", "traversal without edges visits other nodes");
        std::vector<size_t> starts; std::set<int> touched; for (auto &[x, n] : m.n) if (!n.nc && r.chance(0.4)) { starts.push_back(x); touched.insert(comp[x]); } if (starts.empty()) { starts.push_back(s); touched.insert(comp[s]); }
        got.clear(); std::multiset<uint32_t> cn, ce; g.reach(starts.begin(), starts.end(), [&](entt::entity e) { cn.insert(U(e)); }, [&](entt::entity e) { ce.insert(U(e)); }, [](size_t) { return true; }, [&] { got.push_back({cn, ce}); cn.clear(); ce.clear(); });
        std::vector<std::pair<std::multiset<uint32_t>, std::multiset<uint32_t>>> want; for (auto t : touched) want.push_back(ref[t]); if (key(got) != key(want)) c.fail("graph-reach", "reach visits %zu components, expected %zu, or other members", got.size(), want.size()); if (!cn.empty() || !ce.empty()) c.fail("graph-reach", "visits after the last component");
    }
}
VF_SECTION(entity_graph, 600, 6000) {
    auto &r = c.r; entity_graph g; Model m; uint32_t ne = 1; int len = 10 + (int)r.below(120); double pin = r.uni(0.2, 0.8); std::vector<size_t> ks; auto anyn = [&] { auto it = m.n.begin(); std::advance(it, r.below(m.n.size())); return it->first; };
    uint64_t h = 0; std::string tr;
    for (int i = 0; i < len; ++i) {
        double x = r.uni(0, 1);
        if (m.n.empty() || x < 0.22) { bool nc = r.chance(0.25); uint32_t e = ne++; size_t k = g.insert_node(E(e), nc); if (m.n.count(k)) c.fail("graph-node", "node index %zu is handed out twice", k); m.n[k] = {e, nc}; h = mix2(h, 1 + nc); }
        else if (x < 0.22 + 0.5 * pin && m.n.size() > 1) { size_t a = anyn(), b = anyn(); if (a == b) continue; if (r.chance(0.3) && !m.d.empty()) { auto it = m.d.begin(); std::advance(it, r.below(m.d.size())); a = it->second.b; b = it->second.a; } uint32_t e = ne++; size_t k = g.insert_edge(E(e), a, b); if (m.d.count(k)) c.fail("graph-edge", "edge index %zu is handed out twice", k); m.d[k] = {e, a, b}; h = mix2(h, a * 1000 + b); }
        else if (x < 0.85 && !m.d.empty()) { auto it = m.d.begin(); std::advance(it, r.below(m.d.size())); h = mix2(h, it->first + 77777); g.remove_edge(it->first); m.d.erase(it); }
        else if (x < 0.95) { size_t a = anyn(); g.remove_all_edges(a); for (auto it = m.d.begin(); it != m.d.end();) it = it->second.a == a || it->second.b == a ? m.d.erase(it) : std::next(it); if (r.chance(0.7)) { g.remove_node(a); m.n.erase(a); } h = mix2(h, a + 5555); }
        else if (x < 0.985) { size_t a = anyn(); bool k = r.chance(0.5); g.set_connecting_node(a, k); m.n[a].nc = !k; }
        else if (r.chance(0.3)) { g.clear(); m.n.clear(); m.d.clear(); }
        if (r.chance(0.15) || i == len - 1) { g.optimize_if_needed(); check_graph(c, g, m, r); }
    }
    c.hit(h);
}
#elif VF_PART == 2
static bool overlaps(const AABB &a, const AABB &b) { for (int i = 0; i < 3; ++i) if (a.min[i] > b.max[i] || b.min[i] > a.max[i]) return false; return true; }
static bool inside(const AABB &o, const AABB &i, double tol) { for (int k = 0; k < 3; ++k) if ((double)i.min[k] < o.min[k] - tol || (double)i.max[k] > o.max[k] + tol) return false; return true; }
// slab test in double: 1 certainly hits, 0 certainly misses, -1 undecided
static int ray_hits(D3 p, D3 q, D3 lo, D3 hi, double tol) { auto go = [&](double t) { double a = 0, b = 1; for (int k = 0; k < 3; ++k) { double d = q[k] - p[k], l = lo[k] - t, u = hi[k] + t; if (l > u) return false; if (std::abs(d) < 1e-12) { if (p[k] < l || p[k] > u) return false; continue; } double x = (l - p[k]) / d, y = (u - p[k]) / d; if (x > y) std::swap(x, y); a = std::max(a, x); b = std::min(b, y); } return a <= b; }; if (go(-tol)) return 1; if (!go(tol)) return 0; return -1; }
VF_SECTION(dynamic_tree, 500, 5000) {
    auto &r = c.r; dynamic_tree t; std::map<uint32_t, std::pair<uint32_t, AABB>> m; double S = std::vector<double>{2.0, 20.0, 200.0}[r.below(3)]; uint32_t ne = 1; int len = 20 + (int)r.below(r.chance(0.1) ? 800 : 200); int mode = (int)r.below(4); uint64_t h = 0;
    auto box = [&]() -> AABB { D3 p = rnd_vec(r, S), e; if (mode == 1) p = D3(S * r.uni(-1, 1), 0, 0); if (mode == 2 && r.chance(0.5)) p = D3(std::round(p.x), std::round(p.y), std::round(p.z)); double k = r.chance(0.1) ? S * 0.5 : S * 0.05; e = D3(r.chance(0.1) ? 0 : r.uni(0, k), r.chance(0.1) ? 0 : r.uni(0, k), r.chance(0.1) ? 0 : r.uni(0, k)); return {(p - e).v(), (p + e).v()}; };
    auto pickm = [&] { auto it = m.begin(); std::advance(it, r.below(m.size())); return it; };
    auto validate = [&] {
        uint32_t some = 0; for (auto &[id, x] : m) { auto &n = t.get_node(id); if (!n.leaf() || n.height != 0) c.fail("dtree-leaf", "node %u of a live object is not a leaf", id); if (U(n.entity) != x.first) c.fail("dtree-leaf", "leaf %u holds entity %u instead of %u", id, U(n.entity), x.first); if (!inside(n.aabb, x.second, 0)) c.fail("dtree-bounds", "leaf %u does not contain the box of its object", id); some = id; }
        if (m.empty()) { t.query({{(scalar)-1e6, (scalar)-1e6, (scalar)-1e6}, {(scalar)1e6, (scalar)1e6, (scalar)1e6}}, [&](uint32_t) { c.fail("dtree-query", "an empty tree reports an object"); }); return; }
        uint32_t root = some; int g = 0; while (t.get_node(root).parent != null_tree_node_id) { uint32_t p = t.get_node(root).parent; auto &n = t.get_node(p); if (n.child1 != root && n.child2 != root) c.fail("dtree-links", "node %u is not a child of its parent %u", root, p); root = p; if (++g > 100000) c.fail("dtree-links", "cycle"); }
        size_t leaves = 0; std::vector<uint32_t> st{root}; size_t guard = 0; while (!st.empty()) { uint32_t i = st.back(); st.pop_back(); if (++guard > 4 * m.size() + 10) c.fail("dtree-links", "the tree has a cycle"); auto &n = t.get_node(i); if (n.leaf()) { leaves++; if (!m.count(i)) c.fail("dtree-leaf", "leaf %u belongs to no object", i); continue; } for (uint32_t k : {n.child1, n.child2}) { auto &q = t.get_node(k); if (q.parent != i) c.fail("dtree-links", "child %u of %u has parent %u", k, i, q.parent); if (!inside(n.aabb, q.aabb, 0)) c.fail("dtree-bounds", "node %u does not contain its child %u", i, k); st.push_back(k); } if (n.height != std::max(t.get_node(n.child1).height, t.get_node(n.child2).height) + 1) c.fail("dtree-height", "node %u has height %d", i, n.height); }
        if (leaves != m.size()) c.fail("dtree-leaf", "%zu leaves for %zu objects", leaves, m.size()); c.event("validated");
    };
    auto queries = [&] { for (int k = 0; k < 4; ++k) { AABB q = box(); if (r.chance(0.3)) { D3 e = D3(S, S, S) * r.uni(0, 0.5); q.min -= e.v(); q.max += e.v(); } std::map<uint32_t, int> got; t.query(q, [&](uint32_t id) { got[id]++; }); for (auto &[id, n] : got) { if (!m.count(id)) c.fail("dtree-query", "a query reports node %u of no object", id); if (n > 1) c.fail("dtree-query", "a query reports object %u %d times", m[id].first, n); if (!overlaps(t.get_node(id).aabb, q)) c.fail("dtree-query", "a query reports object %u whose node does not overlap it", m[id].first); } for (auto &[id, x] : m) if (overlaps(x.second, q) && !got.count(id)) c.fail("dtree-query", "a query misses object %u", x.first); c.event("query-hits", (long)got.size());
            D3 p = rnd_vec(r, 2 * S), d = rnd_vec(r, 2 * S); if (r.chance(0.3) && !m.empty()) { auto it = pickm(); d = (D3(it->second.second.min) + D3(it->second.second.max)) * 0.5; } if (r.chance(0.2)) { d = p; d.x += S; } D3 pp = D3(p.v()), dd = D3(d.v()); got.clear(); t.raycast(p.v(), d.v(), [&](uint32_t id) { got[id]++; }); for (auto &[id, n] : got) { if (!m.count(id)) c.fail("dtree-raycast", "a ray reports node %u of no object", id); if (n > 1) c.fail("dtree-raycast", "a ray reports an object twice"); if (ray_hits(pp, dd, t.get_node(id).aabb.min, t.get_node(id).aabb.max, 1e-4 * S) == 0) c.fail("dtree-raycast", "a ray reports object %u which it misses", m[id].first); } for (auto &[id, x] : m) if (!got.count(id) && ray_hits(pp, dd, x.second.min, x.second.max, 1e-5 * S) == 1) c.fail("dtree-raycast", "a ray misses object %u", x.first); c.event("ray-hits", (long)got.size()); } };
    for (int i = 0; i < len; ++i) {
        double x = r.uni(0, 1); double ins = i < len / 2 ? 0.5 : 0.25;
        if (m.empty() || x < ins) { AABB b = box(); uint32_t e = ne++, id = t.create(b, E(e)); if (m.count(id)) c.fail("dtree-id", "node id %u is handed out twice", id); m[id] = {e, b}; h = mix2(h, id); }
        else if (x < 0.75) { auto it = pickm(); AABB b; if (r.chance(0.6)) { D3 d = rnd_vec(r, r.chance(0.5) ? 0.05 : S * 0.2); b = it->second.second; b.min += d.v(); b.max += d.v(); } else b = box(); AABB old = t.get_node(it->first).aabb; bool mv = t.move(it->first, b); it->second.second = b; if (!mv && !inside(old, b, 0)) c.fail("dtree-move", "move reports no change although the box left its node"); if (mv && inside(old, b, 0)) c.fail("dtree-move", "move reports a change although the node still contains the box"); h = mix2(h, it->first + 1000 * mv); c.event(mv ? "moved" : "kept"); }
        else if (x < 0.98) { auto it = pickm(); t.destroy(it->first); m.erase(it); h = mix2(h, 3); }
        else if (r.chance(0.1)) { t.clear(); m.clear(); }
        if (r.chance(0.1) || i == len - 1) { validate(); queries(); }
    }
    c.hit(h);
}
#endif
