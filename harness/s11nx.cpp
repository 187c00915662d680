// Components, shapes, constraints, contacts and network packets: round trips (VF_PART 1) and hostile input (VF_PART 2).
// Fields are enumerated here, independently of the serialization code.
#include "geo.hpp"
#include "poly.hpp"
#include <map>
#include <memory>
#include <optional>
#include <variant>
#include "edyn/serialization/memory_archive.hpp"
#include "edyn/serialization/math_s11n.hpp"
#include "edyn/serialization/std_s11n.hpp"
#include "edyn/serialization/entt_s11n.hpp"
#include "edyn/networking/comp/networked_comp.hpp"
#include "edyn/networking/packet/edyn_packet.hpp"
#include "edyn/networking/util/pool_snapshot.hpp"
#include "edyn/collision/contact_point.hpp"
#include "edyn/collision/contact_manifold.hpp"
#include "edyn/collision/collision_feature.hpp"
#include "edyn/shapes/shapes.hpp"
#include "edyn/constraints/constraint.hpp"
#include "fields.hpp"
using namespace edyn;
// Packets. Pools hold components of one type each.
template<class T> std::shared_ptr<pool_snapshot_data> rnd_pool(V &v, size_t entities) { auto p = std::make_shared<pool_snapshot_data_impl<T>>(); for (size_t n = v.r->below(5); n; --n) { p->entity_indices.push_back((uint8_t)v.r->below(entities)); if constexpr (!std::is_empty_v<T>) { T t{}; v.one(t); p->components.push_back(t); } } return p; }
template<size_t... I> static void with_comp(size_t k, std::index_sequence<I...>, V &v, pool_snapshot &s, size_t entities) { ((I == k ? (void)([&] { using T = std::tuple_element_t<I, networked_components_t>; if (v.r) { s.component_index = (component_index_type)I; s.ptr = rnd_pool<T>(v, entities); } else { auto *p = dynamic_cast<pool_snapshot_data_impl<T> *>(s.ptr.get()); if (!p) { v.out->append("not this type"); return; } v(p->entity_indices); if constexpr (!std::is_empty_v<T>) { dumpsize(v, p->components); for (auto &e : p->components) v.one(e); } } }()) : (void)0), ...); }
constexpr size_t NC = std::tuple_size_v<networked_components_t>;
static void pools(V &v, std::vector<entt::entity> &ents, std::vector<pool_snapshot> &x) {
    if (v.r) { ents.clear(); for (size_t n = 1 + v.r->below(20); n; --n) ents.push_back(entt::entity{(uint32_t)v.r->below(100000)}); x.clear(); for (size_t n = v.r->below(5); n; --n) { x.emplace_back(); with_comp(v.r->below(NC), std::make_index_sequence<NC>{}, v, x.back(), ents.size()); } return; }
    v(ents); dumpsize(v, x); for (auto &p : x) { v.one(p.component_index); if (p.ptr) with_comp((size_t)p.component_index, std::make_index_sequence<NC>{}, v, p, 0); }
}
template<> struct fields<packet::registry_snapshot> { static void go(V &v, packet::registry_snapshot &x) { v(x.timestamp); pools(v, x.entities, x.pools); } };
template<> struct fields<packet::create_entity> { static void go(V &v, packet::create_entity &x) { v(x.timestamp); pools(v, x.entities, x.pools); } };
template<> struct fields<packet::entity_response> { static void go(V &v, packet::entity_response &x) { v(x.id); pools(v, x.entities, x.pools); } };
template<> struct fields<packet::asset_sync_response> { static void go(V &v, packet::asset_sync_response &x) { v(x.id, x.entity); pools(v, x.entities, x.pools); } };
template<> struct fields<packet::entity_entered::asset_info> { static void go(V &v, packet::entity_entered::asset_info &x) { v(x.entity, x.asset, x.owner); pools(v, x.entities, x.pools); } };
F(packet::entity_entered, x.entry) F(packet::entity_exited, x.entities) F(packet::destroy_entity, x.timestamp, x.entities) F(packet::update_entity_map, x.timestamp, x.pairs) F(packet::client_created, x.client_entity) F(packet::set_playout_delay, x.value) F(packet::time_request, x.id) F(packet::time_response, x.id, x.timestamp) F(packet::set_aabb_of_interest, x.min, x.max) F(packet::query_entity, x.id, x.entities) F(packet::asset_sync, x.id, x.entity)
F(packet::server_settings, x.fixed_dt, x.gravity, x.num_solver_velocity_iterations, x.num_solver_position_iterations, x.num_restitution_iterations, x.num_individual_restitution_iterations, x.allow_full_ownership)
F(packet::edyn_packet, x.var)
template<class T> static std::string dump(T &x) { std::string s; V v; v.out = &s; v.one(x); return s; }
template<class T> static void randomize(vf::rng &r, T &x) { V v; v.r = &r; v.one(x); }
struct exact { std::unique_ptr<uint8_t[]> p; size_t n; exact(const uint8_t *d, size_t n) : p(new uint8_t[n]), n(n) { if (n) std::memcpy(p.get(), d, n); } };
template<class T> static std::vector<uint8_t> encode(T &x, size_t prefix = 0) { std::vector<uint8_t> b(prefix, 0x55); memory_output_archive o(b); o(x); return b; }
template<class... T> using list = std::tuple<T...>;
using all_t = decltype(std::tuple_cat(networked_components_t{}, list<inertia_inv, inertia_world_inv, mass_inv, AABB, contact_point, contact_point_list, contact_point_material, contact_point_impulse, contact_point_spin_friction_impulse, contact_point_roll_friction_impulse, contact_manifold, contact_manifold_state, contact_constraint, contact_extras_constraint>{}, list<packet::registry_snapshot, packet::create_entity, packet::entity_response, packet::asset_sync_response, packet::entity_entered, packet::entity_exited, packet::destroy_entity, packet::update_entity_map, packet::client_created, packet::set_playout_delay, packet::time_request, packet::time_response, packet::set_aabb_of_interest, packet::query_entity, packet::asset_sync, packet::server_settings, packet::edyn_packet>{}));
template<class T> static const char *name() { return __PRETTY_FUNCTION__ + sizeof("const char* name() [with T = ") - 1; }

#if VF_PART == 1
template<class T> static void trip(vf::ctx &c) {
    auto &r = c.r; auto xp = std::make_unique<T>(), yp = std::make_unique<T>(); auto &x = *xp, &y = *yp; randomize(r, x); if (r.chance(0.6)) randomize(r, y); auto want = dump(x); size_t prefix = r.below(9); vf::note("%s", name<T>());
    auto b = encode(x, prefix); if (dump(x) != want) c.fail("x-source", "writing modified the value: %s", name<T>());
    exact e(b.data(), b.size()); memory_input_archive in(e.p.get(), e.n); for (size_t i = 0; i < prefix; ++i) { uint8_t t; in(t); } in(y); if (in.failed() || !in.eof()) { c.fail("x-complete", "reading back %zu bytes: failed=%d end=%d: %s", b.size() - prefix, in.failed(), in.eof(), name<T>()); return; }
    if (dump(y) != want) c.fail("x-roundtrip", "value read back differs: %s", name<T>());
    if constexpr (std::is_same_v<T, polyhedron_shape>) { double g = mesh_gap(*x.mesh, *y.mesh); if (!(g < 2e-5)) c.fail("x-mesh", "mesh read back differs by %g", g); } // moved to its centroid up to rounding
    else { auto again = encode(y, prefix); if (want.find('\0') == std::string::npos || !std::is_same_v<T, compound_shape>) { bool mesh = false; if (again.size() != b.size()) c.fail("x-rewrite", "the value read back is written with %zu bytes instead of %zu: %s", again.size(), b.size(), name<T>()); (void)mesh; } }
    c.event("values"); c.event("bytes", b.size() - prefix); c.hit(vf::hash_bytes(b.data(), b.size())); if (c.want_sample()) c.sample("%zu bytes: %s", b.size() - prefix, name<T>());
}
template<size_t... I> static void trips(vf::ctx &c, size_t k, std::index_sequence<I...>) { ((I == k ? trip<std::tuple_element_t<I, all_t>>(c) : (void)0), ...); }
VF_SECTION(everything, 400, 4000) { for (size_t k = 0; k < std::tuple_size_v<all_t>; ++k) trips(c, k, std::make_index_sequence<std::tuple_size_v<all_t>>{}); }
#endif

#if VF_PART == 2
template<class T> static bool decode(vf::ctx &c, const uint8_t *d, size_t n, T &y, bool *end) { exact e(d, n); memory_input_archive in(e.p.get(), e.n); in(y); *end = in.eof(); if (in.failed()) { uint64_t probe = 77; in(probe); if (!in.failed() || probe != 77) c.fail("x-sticky", "reading goes on after a failure: %s", name<T>()); } return !in.failed(); }
// Without the meshes of polyhedra, whose geometry must be that of a convex solid.
template<class T> constexpr bool has_mesh = std::is_same_v<T, polyhedron_shape> || std::is_same_v<T, compound_shape>;
template<class T> static void use(vf::ctx &c, T &y) { // a decoded value can be looked at, copied and written again
    auto s = dump(y); T z = y; auto b = encode(z); T w{}; bool end; if (!decode(c, b.data(), b.size(), w, &end) || !end) c.fail("x-rewrite", "a decoded value cannot be written and read again: %s", name<T>()); else if constexpr (!has_mesh<T>) if (dump(w) != s) c.fail("x-rewrite", "a decoded value differs after being written and read again: %s", name<T>());
}
template<class T> static void attack(vf::ctx &c) {
    auto &r = c.r; T x{}; randomize(r, x); auto b = encode(x); bool end; vf::note("%s", name<T>());
    for (int k = 0; k < 4 && !b.empty(); ++k) { size_t cut = k == 0 ? b.size() - 1 : r.below(b.size()); T y{}; if (r.chance(0.3)) randomize(r, y); if (decode(c, b.data(), cut, y, &end)) c.fail("x-truncation", "input cut from %zu to %zu bytes was accepted: %s", b.size(), cut, name<T>()); c.event("truncated"); }
    if constexpr (!has_mesh<T>) for (int k = 0; k < 4; ++k) { auto d = b; int mode = (int)r.below(3); if (mode == 0 || d.empty()) { d.clear(); for (size_t n = r.below(200); n; --n) d.push_back((uint8_t)(r.chance(0.3) ? 0xff : r.chance(0.4) ? r.below(4) : r.next())); } else for (int m = r.range(1, 6); m; --m) { size_t at = r.below(d.size()); d[at] = (uint8_t)(r.chance(0.3) ? 0xff : r.next()); if (r.chance(0.1)) d.insert(d.begin() + at, (uint8_t)r.next()); if (r.chance(0.1) && d.size() > 2) d.erase(d.begin() + at); } vf::note("%s from %zu bytes", name<T>(), d.size()); T y{}; if (r.chance(0.3)) randomize(r, y); bool ok = decode(c, d.data(), d.size(), y, &end); c.event(ok ? "accepted" : "rejected"); use(c, y); c.hit(vf::hash_bytes(d.data(), d.size())); }
}
template<size_t... I> static void attacks(vf::ctx &c, size_t k, std::index_sequence<I...>) { ((I == k ? attack<std::tuple_element_t<I, all_t>>(c) : (void)0), ...); }
VF_SECTION(everything_hostile, 40, 1200) { for (size_t k = 0; k < std::tuple_size_v<all_t>; ++k) attacks(c, k, std::make_index_sequence<std::tuple_size_v<all_t>>{}); }
// Meshes whose faces or indices do not fit each other must not be followed.
VF_SECTION(hostile_mesh, 800, 10000) {
    auto &r = c.r; polyhedron_shape s; randomize(r, s); auto m = *s.mesh; std::vector<uint8_t> b; memory_output_archive o(b); int kind = (int)r.below(5); uint32_t bad = r.chance(0.5) ? (uint32_t)r.next() | 0x10000u : 0xffffffffu;
    auto vs = m.vertices; auto is = m.indices; auto fs = m.faces; if (kind == 0) is[r.below(is.size())] = r.chance(0.5) ? (uint32_t)vs.size() : bad; else if (kind == 1) fs[2 * r.below(fs.size() / 2)] = r.chance(0.5) ? (uint32_t)is.size() : bad; else if (kind == 2) fs[2 * r.below(fs.size() / 2) + 1] = r.chance(0.5) ? (uint32_t)is.size() + 1 : bad; else if (kind == 3) fs.pop_back(); else { fs.clear(); is.clear(); if (r.chance(0.5)) vs.clear(); }
    o(vs); o(is); o(fs); vf::note("mesh with spoiled faces or indices, kind %d", kind); polyhedron_shape y; bool end; decode(c, b.data(), b.size(), y, &end); if (y.mesh) for (size_t i = 0; i + 1 < y.mesh->faces.size(); i += 2) { size_t first = y.mesh->faces[i], n = y.mesh->faces[i + 1]; if (first + n > y.mesh->indices.size()) { c.fail("x-mesh-faces", "face %zu of a decoded mesh has vertices %zu to %zu of %zu", i / 2, first, first + n, y.mesh->indices.size()); break; } for (size_t k = first; k < first + n; ++k) if (y.mesh->indices[k] >= y.mesh->vertices.size()) { c.fail("x-mesh-indices", "vertex %u of %zu in a decoded mesh", y.mesh->indices[k], y.mesh->vertices.size()); return; } } c.event("meshes"); c.hit(vf::hash_bytes(b.data(), b.size()));
}
#endif
