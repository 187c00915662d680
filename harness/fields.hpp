// Every field of every component, enumerated here independently of the code under test.
#ifndef VF_FIELDS_HPP
#define VF_FIELDS_HPP
#include "geo.hpp"
#include "poly.hpp"
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <variant>
#include "edyn/networking/comp/networked_comp.hpp"
#include "edyn/collision/contact_point.hpp"
#include "edyn/collision/contact_manifold.hpp"
#include "edyn/collision/collision_feature.hpp"
#include "edyn/shapes/shapes.hpp"
#include "edyn/constraints/constraint.hpp"
using namespace edyn;
struct V; // visits the fields of a value: makes them random or writes them down
template<class T, class = void> struct fields { static void go(V &, T &) { static_assert(std::is_empty_v<T>, "fields of this type are not listed"); } };
struct V {
    vf::rng *r = nullptr; std::string *out = nullptr; bool meshes = true; std::function<entt::entity(vf::rng &)> pick; std::function<uint32_t(entt::entity)> id;
    void raw(const void *p, size_t n) { out->append((const char *)p, n); }
    template<class T> void one(T &x) {
        if constexpr (std::is_same_v<T, bool>) { if (r) x = r->chance(0.5); if (out) { out->push_back(x ? 1 : 0); } }
        else if constexpr (std::is_floating_point_v<T>) { if (r) x = (T)(r->chance(0.1) ? 0 : r->uni(-1000, 1000)); if (out) raw(&x, sizeof x); }
        else if constexpr (std::is_integral_v<T>) { if (r) x = (T)r->next(); if (out) raw(&x, sizeof x); }
        else if constexpr (std::is_same_v<T, entt::entity>) { if (out && id) { uint32_t k = id(x); raw(&k, 4); return; } if (r) x = pick ? pick(*r) : r->chance(0.1) ? entt::entity{entt::null} : entt::entity{(uint32_t)r->next()}; if (out) raw(&x, sizeof x); }
        else if constexpr (std::is_enum_v<T>) { if (r) x = (T)r->below(3); if (std::is_same_v<T, capsule_feature> && r) x = (T)r->below(2); if (out) raw(&x, sizeof x); }
        else fields<T>::go(*this, x);
    }
    template<class... T> void operator()(T &...x) { (one(x), ...); }
    size_t len() { return r->chance(0.2) ? 0 : r->chance(0.1) ? 30 + r->below(6) : 1 + r->below(6); }
};
template<class T> void dumpsize(V &v, const T &x) { if (v.out) { uint32_t n = (uint32_t)x.size(); v.raw(&n, 4); } }
template<class T> struct fields<std::vector<T>> { static void go(V &v, std::vector<T> &x) { if (v.r) x.resize(v.len()); dumpsize(v, x); for (auto &e : x) v.one(e); } };
template<class T, size_t N> struct fields<std::array<T, N>> { static void go(V &v, std::array<T, N> &x) { for (auto &e : x) v.one(e); } };
template<> struct fields<std::string> { static void go(V &v, std::string &x) { if (v.r) x.resize(v.len()); dumpsize(v, x); for (auto &e : x) v.one(e); } };
template<class A, class B> struct fields<std::pair<A, B>> { static void go(V &v, std::pair<A, B> &x) { v(x.first, x.second); } };
template<class A, class B> struct fields<std::map<A, B>> { static void go(V &v, std::map<A, B> &x) { if (v.r) { x.clear(); for (size_t n = v.len(); n; --n) { A a; B b; v(a, b); x.emplace(a, b); } return; } dumpsize(v, x); for (auto &e : x) { A a = e.first; v(a, e.second); } } };
template<class T> struct fields<std::optional<T>> { static void go(V &v, std::optional<T> &x) { if (v.r) { x.reset(); if (v.r->chance(0.6)) x.emplace(); } if (v.out) v.out->push_back(x ? 1 : 0); if (x) v.one(*x); } };
template<class... T> struct fields<std::variant<T...>> { static void go(V &v, std::variant<T...> &x) { if (v.r) { size_t k = v.r->below(sizeof...(T)), i = 0; ((i++ == k ? (void)(x = T{}) : (void)0), ...); } if (v.out) v.out->push_back((char)x.index()); std::visit([&](auto &e) { v.one(e); }, x); } };
template<> struct fields<vector3> { static void go(V &v, vector3 &x) { v(x.x, x.y, x.z); } };
template<> struct fields<quaternion> { static void go(V &v, quaternion &x) { if (v.r) x = rnd_quat(*v.r); v.r ? (void)0 : v(x.x, x.y, x.z, x.w); } };
template<> struct fields<matrix3x3> { static void go(V &v, matrix3x3 &x) { v(x.row[0], x.row[1], x.row[2]); } };
#define F(T, ...) template<> struct fields<T> { static void go(V &v, T &x) { v(__VA_ARGS__); } };
F(linvel, static_cast<vector3 &>(x)) F(angvel, static_cast<vector3 &>(x)) F(position, static_cast<vector3 &>(x)) F(gravity, static_cast<vector3 &>(x)) F(center_of_mass, static_cast<vector3 &>(x)) F(roll_direction, static_cast<vector3 &>(x)) F(orientation, static_cast<quaternion &>(x))
F(inertia, static_cast<matrix3x3 &>(x)) F(inertia_inv, static_cast<matrix3x3 &>(x)) F(inertia_world_inv, static_cast<matrix3x3 &>(x)) F(mass, x.s) F(mass_inv, x.s) F(AABB, x.min, x.max) F(parent_comp, x.child) F(child_list, x.parent, x.next) F(shape_index, x.value) F(transient, x.ids) F(collision_filter, x.group, x.mask)
F(material, x.restitution, x.friction, x.spin_friction, x.roll_friction, x.stiffness, x.damping, x.id)
template<> struct fields<collision_exclusion> { static void go(V &v, collision_exclusion &x) { if (v.r) { x = {}; size_t n = v.r->below(17); for (size_t i = 0; i < n; ++i) x.entity[i] = entt::entity{(uint32_t)v.r->below(1000)}; return; } if (v.id) { std::vector<uint32_t> l; for (auto &e : x.entity) { if (e == entt::null) break; if (uint32_t k = v.id(e); k != 0xffffffffu) l.push_back(k); } for (auto k : l) v.raw(&k, 4); return; } for (auto &e : x.entity) { if (e == entt::null) break; v.one(e); } } };
// The two ends of an edge; without both of them it means nothing.
template<> struct fields<std::array<entt::entity, 2>> { static void go(V &v, std::array<entt::entity, 2> &x) { if (v.out && v.id && (v.id(x[0]) == 0xffffffffu || v.id(x[1]) == 0xffffffffu)) { v.out->push_back('?'); return; } for (auto &e : x) v.one(e); } };
F(collision_feature, x.feature, x.index, x.part) F(contact_point, x.pivotA, x.pivotB, x.normal, x.lifetime) F(contact_point_list, x.parent, x.next) F(contact_point_geometry, x.local_normal, x.normal_attachment, x.distance, x.featureA, x.featureB) F(contact_point_material, x.friction, x.spin_friction, x.roll_friction, x.restitution, x.stiffness, x.damping) F(contact_point_impulse, x.normal_impulse, x.friction_impulse, x.normal_restitution_impulse, x.friction_restitution_impulse) F(contact_point_spin_friction_impulse, x.spin_friction_impulse) F(contact_point_roll_friction_impulse, x.rolling_friction_impulse) F(contact_manifold, x.body) F(contact_manifold_state, x.num_points, x.contact_entity)
F(sphere_shape, x.radius) F(plane_shape, x.normal, x.constant) F(box_shape, x.half_extents) F(capsule_shape, x.radius, x.half_length, x.axis) F(cylinder_shape, x.radius, x.half_length, x.axis)
F(null_constraint, x.body) F(gravity_constraint, x.body, x.applied_impulse) F(point_constraint, x.body, x.pivot, x.friction_torque, x.applied_impulse, x.applied_friction_impulse) F(distance_constraint, x.body, x.pivot, x.distance, x.applied_impulse) F(soft_distance_constraint, x.body, x.pivot, x.distance, x.stiffness, x.damping, x.applied_spring_impulse, x.applied_damping_impulse)
F(hinge_constraint, x.body, x.pivot, x.frame, x.angle_min, x.angle_max, x.limit_restitution, x.bump_stop_angle, x.bump_stop_stiffness, x.torque, x.speed, x.rest_angle, x.stiffness, x.damping, x.angle, x.applied_impulse.linear, x.applied_impulse.hinge, x.applied_impulse.limit, x.applied_impulse.bump_stop, x.applied_impulse.spring, x.applied_impulse.torque)
F(generic_constraint::linear_dof, x.limit_enabled, x.offset_min, x.offset_max, x.limit_restitution, x.bump_stop_length, x.bump_stop_stiffness, x.friction_force, x.rest_offset, x.spring_stiffness, x.damping) F(generic_constraint::angular_dof, x.limit_enabled, x.angle_min, x.angle_max, x.limit_restitution, x.bump_stop_angle, x.bump_stop_stiffness, x.friction_torque, x.rest_angle, x.spring_stiffness, x.damping, x.current_angle) F(generic_constraint, x.body, x.pivot, x.frame, x.linear_dofs, x.angular_dofs)
F(cone_constraint, x.body, x.pivot, x.frame, x.span_tan, x.restitution, x.bump_stop_stiffness, x.bump_stop_length, x.limit_impulse, x.bump_stop_impulse)
F(cvjoint_constraint, x.body, x.pivot, x.frame, x.twist_min, x.twist_max, x.twist_restitution, x.twist_angle, x.twist_bump_stop_angle, x.twist_bump_stop_stiffness, x.twist_friction_torque, x.twist_rest_angle, x.twist_stiffness, x.twist_damping, x.rest_direction, x.bend_stiffness, x.bend_friction_torque, x.bend_damping, x.applied_impulse.linear, x.applied_impulse.twist_limit, x.applied_impulse.twist_bump_stop, x.applied_impulse.twist_spring, x.applied_impulse.twist_friction_damping, x.applied_impulse.bend_friction_damping, x.applied_impulse.bend_spring)
F(contact_constraint, x.body) F(contact_extras_constraint, x.body) F(entity_owner, x.client_entity) F(asset_ref, x.id, x.entity_map)
template<> struct fields<action_history> { static void go(V &v, action_history &x) { if (v.r) { x.entries.clear(); for (size_t n = v.len(); n; --n) { std::vector<uint8_t> d; v.one(d); x.entries.emplace_back(v.r->uni(0, 1e5), (uint8_t)v.r->next(), std::move(d)); } return; } dumpsize(v, x.entries); for (auto &e : x.entries) v(e.timestamp, e.action_index, e.data); } };
// Meshes are moved to their centroid when read: compared up to rounding.
static std::shared_ptr<convex_mesh> rnd_mesh(vf::rng &r) {
    auto p = rnd_poly(r, false); auto m = std::make_shared<convex_mesh>(); D3 s{r.uni(0.5, 2), r.uni(0.5, 2), r.uni(0.5, 2)}; for (auto &q : p.v) m->vertices.push_back(vector3{(scalar)(q.x * s.x), (scalar)(q.y * s.y), (scalar)(q.z * s.z)}); for (auto &f : p.f) { m->faces.push_back((uint32_t)m->indices.size()); m->faces.push_back((uint32_t)f.size()); m->indices.insert(m->indices.end(), f.begin(), f.end()); } m->initialize(); return m;
}
static void coarse(V &v, std::vector<vector3> &x) { dumpsize(v, x); for (auto &e : x) for (int i = 0; i < 3; ++i) { int32_t k = (int32_t)std::lround((double)e[i] * 512 + 0.25); v.raw(&k, 4); } }
template<> struct fields<polyhedron_shape> { static void go(V &v, polyhedron_shape &x) {
    if (v.r) { x.mesh = rnd_mesh(*v.r); for (auto *l : {&x.mesh->vertices}) for (auto &e : *l) for (int i = 0; i < 3; ++i) (void)e; return; }
    if (!x.mesh) { v.out->push_back(0); return; } auto &m = *x.mesh; if (v.meshes) { dumpsize(v, m.vertices); v(m.indices, m.edges, m.faces, m.edge_faces, m.neighbors_start, m.neighbor_indices); uint32_t n[] = {(uint32_t)m.normals.size(), (uint32_t)m.edge_vertices.size(), (uint32_t)m.edge_normals.size()}; v.raw(n, sizeof n); } } };
template<> struct fields<compound_shape> { static void go(V &v, compound_shape &x) {
    if (v.r) { x.nodes.clear(); x.tree.clear(); for (size_t n = 1 + v.r->below(6); n; --n) { compound_shape::shape_node k{}; v(k.shape_var); std::visit([&](auto &s) { using S = std::decay_t<decltype(s)>; if constexpr (std::is_same_v<S, box_shape>) s.half_extents = {1, 2, 3}; else if constexpr (!std::is_same_v<S, polyhedron_shape>) s.radius = std::abs(s.radius) + 1; }, k.shape_var); v(k.position, k.orientation); std::visit([&](auto &s) { x.add_shape(s, k.position, k.orientation); }, k.shape_var); } x.finish(); return; }
    dumpsize(v, x.nodes); for (auto &k : x.nodes) v(k.shape_var, k.position, k.orientation); std::vector<uint32_t> ids; if (!x.nodes.empty()) x.visit({{-1e6, -1e6, -1e6}, {1e6, 1e6, 1e6}}, [&](auto &&, auto id) { ids.push_back((uint32_t)id); }); std::sort(ids.begin(), ids.end()); v(ids); } };
static double mesh_gap(const convex_mesh &a, const convex_mesh &b) { double d = 0; for (size_t i = 0; i < std::min(a.vertices.size(), b.vertices.size()); ++i) d = std::max(d, (double)length(a.vertices[i] - b.vertices[i])); for (size_t i = 0; i < std::min(a.normals.size(), b.normals.size()); ++i) d = std::max(d, (double)length(a.normals[i] - b.normals[i])); return d; }
#endif
