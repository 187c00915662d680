// Archives: round trips of every kind of value through every archive (VF_PART 1)
// and hostile input (VF_PART 2).  Buffers are exactly sized heap blocks so that
// AddressSanitizer sees any access past them.
#include "geo.hpp"
#include <optional>
#include <variant>
#include <memory>
#include "edyn/serialization/math_s11n.hpp"
#include "edyn/serialization/std_s11n.hpp"
#include "edyn/serialization/memory_archive.hpp"
#include "edyn/serialization/file_archive.hpp"
#include "edyn/serialization/triangle_mesh_s11n.hpp"
#include "edyn/serialization/static_tree_s11n.hpp"
#include "edyn/comp/action_list.hpp"
#include "edyn/networking/comp/action_history.hpp"
#include "edyn/comp/material.hpp"
#include "edyn/comp/collision_filter.hpp"
#include "edyn/comp/shape_index.hpp"
#include "edyn/collision/contact_normal_attachment.hpp"
#include "edyn/util/shape_util.hpp"
using namespace edyn;
#define NANLESS 1
// ---- a composite value covering nested containers ----
struct inner { bool flag; int8_t i8; uint16_t u16; vector3 v; };
template<class A> void serialize(A &a, inner &x) { a(x.flag); a(x.i8); a(x.u16); a(x.v); }
static bool operator==(const inner &a, const inner &b) { return a.flag == b.flag && a.i8 == b.i8 && a.u16 == b.u16 && a.v == b.v; }
using var_t = std::variant<int32_t, double, std::string, inner, uint8_t>;
struct value {
    bool b; char ch; int8_t i8; uint8_t u8; int16_t i16; uint16_t u16; int32_t i32; uint32_t u32; int64_t i64; uint64_t u64; float f; double d;
    vector3 v; quaternion q; matrix3x3 m; std::string s; std::vector<uint8_t> bytes; std::vector<double> dv; std::vector<vector3> vv; std::vector<std::string> sv; std::vector<std::vector<uint16_t>> nested; std::vector<bool> bits; std::array<int32_t, 5> arr; std::pair<uint8_t, double> pr; std::optional<inner> opt; std::optional<std::string> opts; std::map<std::string, int32_t> map; std::map<uint16_t, std::vector<float>> map2; var_t var; std::vector<var_t> vars; coordinate_axis ax; contact_normal_attachment att; std::vector<inner> ins;
};
template<class A> void serialize(A &a, value &x) { a(x.b); a(x.ch); a(x.i8); a(x.u8); a(x.i16); a(x.u16); a(x.i32); a(x.u32); a(x.i64); a(x.u64); a(x.f); a(x.d); a(x.v); a(x.q); a(x.m); a(x.s); a(x.bytes); a(x.dv); a(x.vv); a(x.sv); a(x.nested); a(x.bits); a(x.arr); a(x.pr); a(x.opt); a(x.opts); a(x.map); a(x.map2); a(x.var); a(x.vars); a(x.ax); a(x.att); a(x.ins); }
static bool operator==(const value &a, const value &b) { return a.b == b.b && a.ch == b.ch && a.i8 == b.i8 && a.u8 == b.u8 && a.i16 == b.i16 && a.u16 == b.u16 && a.i32 == b.i32 && a.u32 == b.u32 && a.i64 == b.i64 && a.u64 == b.u64 && a.f == b.f && a.d == b.d && a.v == b.v && a.q == b.q && a.m == b.m && a.s == b.s && a.bytes == b.bytes && a.dv == b.dv && a.vv == b.vv && a.sv == b.sv && a.nested == b.nested && a.bits == b.bits && a.arr == b.arr && a.pr == b.pr && a.opt == b.opt && a.opts == b.opts && a.map == b.map && a.map2 == b.map2 && a.var == b.var && a.vars == b.vars && a.ax == b.ax && a.att == b.att && a.ins == b.ins; }
static size_t S(vf::rng &r) { switch (r.below(8)) { case 0: return 0; case 1: return 1; case 2: return 31 + r.below(4); case 3: return 63 + r.below(3); default: return r.below(20); } }
static std::string rstr(vf::rng &r) { std::string s; for (size_t n = S(r); n > 0; --n) s += (char)r.below(256); return s; }
static inner rinner(vf::rng &r) { return {r.chance(0.5), (int8_t)r.next(), (uint16_t)r.next(), rnd_vec(r, 100)}; }
static var_t rvar(vf::rng &r) { switch (r.below(5)) { case 0: return (int32_t)r.next(); case 1: return r.uni(-1e9, 1e9); case 2: return rstr(r); case 3: return rinner(r); default: return (uint8_t)r.next(); } }
static value rvalue(vf::rng &r) {
    value x; x.b = r.chance(0.5); x.ch = (char)r.next(); x.i8 = (int8_t)r.next(); x.u8 = (uint8_t)r.next(); x.i16 = (int16_t)r.next(); x.u16 = (uint16_t)r.next(); x.i32 = (int32_t)r.next(); x.u32 = (uint32_t)r.next(); x.i64 = (int64_t)r.next(); x.u64 = r.next(); x.f = (float)r.uni(-1e9, 1e9); x.d = r.uni(-1e12, 1e12); x.v = rnd_vec(r, 1000); x.q = rnd_quat(r); for (int i = 0; i < 3; ++i) x.m[i] = rnd_vec(r, 10); x.s = rstr(r);
    for (size_t n = S(r); n; --n) x.bytes.push_back((uint8_t)r.next()); for (size_t n = S(r); n; --n) x.dv.push_back(r.uni(-5, 5)); for (size_t n = S(r); n; --n) x.vv.push_back(rnd_vec(r, 5)); for (size_t n = r.below(5); n; --n) x.sv.push_back(rstr(r)); for (size_t n = r.below(5); n; --n) { x.nested.emplace_back(); for (size_t k = S(r); k; --k) x.nested.back().push_back((uint16_t)r.next()); } for (size_t n = S(r); n; --n) x.bits.push_back(r.chance(0.5)); for (auto &y : x.arr) y = (int32_t)r.next(); x.pr = {(uint8_t)r.next(), r.uni(-1, 1)}; if (r.chance(0.5)) x.opt = rinner(r); if (r.chance(0.5)) x.opts = rstr(r); for (size_t n = S(r); n; --n) x.map[rstr(r)] = (int32_t)r.next(); for (size_t n = r.below(6); n; --n) { auto &y = x.map2[(uint16_t)r.next()]; for (size_t k = r.below(9); k; --k) y.push_back((float)r.uni(-9, 9)); } x.var = rvar(r); for (size_t n = r.below(7); n; --n) x.vars.push_back(rvar(r)); x.ax = rnd_axis(r); x.att = (contact_normal_attachment)r.below(3); for (size_t n = r.below(6); n; --n) x.ins.push_back(rinner(r)); return x; }
static std::vector<uint8_t> write(value &x, size_t prefix) { std::vector<uint8_t> b(prefix, 0xAA); memory_output_archive a(b); a(x); return b; }
struct exact { std::unique_ptr<uint8_t[]> p; size_t n; exact(const std::vector<uint8_t> &v, size_t from = 0) : p(new uint8_t[v.size() - from]), n(v.size() - from) { if (n) std::memcpy(p.get(), v.data() + from, n); } };
static triangle_mesh rmesh(vf::rng &r, std::vector<vector3> *vo = nullptr, std::vector<triangle_mesh::index_type> *io = nullptr) {
    int nx = r.range(2, 9), nz = r.range(2, 9); std::vector<vector3> v; std::vector<triangle_mesh::index_type> idx; make_plane_mesh((scalar)r.uni(1, 20), (scalar)r.uni(1, 20), nx, nz, v, idx); for (auto &p : v) p.y = (scalar)r.uni(-0.5, 0.5); triangle_mesh t; t.insert_vertices(v.begin(), v.end()); t.insert_indices(idx.begin(), idx.end()); std::vector<scalar> fr, re; if (r.chance(0.5)) { for (size_t i = 0; i < v.size(); ++i) fr.push_back((scalar)r.unit()); t.insert_friction_coefficients(fr.begin(), fr.end()); } if (r.chance(0.5)) { for (size_t i = 0; i < v.size(); ++i) re.push_back((scalar)r.unit()); t.insert_restitution_coefficients(re.begin(), re.end()); } if (r.chance(0.5)) t.set_thickness((scalar)r.uni(0.1, 3)); t.initialize(); if (vo) *vo = v; if (io) *io = idx; return t; }

#if VF_PART == 1
VF_SECTION(memory_roundtrip, 4000, 80000) {
    auto &r = c.r; auto x = rvalue(r); auto orig = x; size_t prefix = r.below(9); auto b = write(x, prefix); for (size_t i = 0; i < prefix; ++i) if (b[i] != 0xAA) c.fail("output-prefix", "writing changed bytes already in the buffer"); if (!(x == orig)) c.fail("output-source", "writing modified the value");
    // misaligned reading position
    exact e(b); memory_input_archive in(e.p.get(), e.n); for (size_t i = 0; i < prefix; ++i) { uint8_t t; in(t); } value y = r.chance(0.5) ? value{} : rvalue(r); in(y); if (in.failed() || !in.eof()) c.fail("memory-complete", "reading back %zu bytes: failed=%d eof=%d", e.n, in.failed(), in.eof()); if (!(y == orig)) c.fail("memory-roundtrip", "value read back differs"); // reading into a non-empty value replaces it
    // a fixed-size buffer yields the same bytes, never writes past the end and reports truncation
    size_t need = b.size() - prefix; std::unique_ptr<uint8_t[]> fb(new uint8_t[need]); fixed_memory_output_archive fo(fb.get(), need); fo(x); if (fo.failed() || std::memcmp(fb.get(), b.data() + prefix, need)) c.fail("fixed-roundtrip", "fixed buffer of the exact size: failed=%d or different bytes", fo.failed());
    size_t cut = r.below(need); std::unique_ptr<uint8_t[]> sb(new uint8_t[cut ? cut : 1]); fixed_memory_output_archive so(sb.get(), cut); so(x); if (!so.failed()) c.fail("fixed-overflow", "writing %zu bytes into a buffer of %zu was not reported", need, cut); if (!(x == orig)) c.fail("output-source", "writing modified the value");
    const value &cx = x; std::vector<uint8_t> b2; memory_output_archive co(b2); co(cx); if (b2.size() != need || std::memcmp(b2.data(), b.data() + prefix, need)) c.fail("const-output", "const and non-const writes differ"); auto b3 = write(y, prefix); if (b3 != b) c.fail("rewrite", "writing the value read back gives other bytes");
    c.event("values"); c.event("bytes", need); c.hit(vf::hash_bytes(b.data(), b.size())); c.sample("%zu bytes at offset %zu", need, prefix);
}
VF_SECTION(file_roundtrip, 300, 4000) {
    auto &r = c.r; char path[] = "/tmp/vf-s11n-XXXXXX"; int fd = mkstemp(path); if (fd < 0) return; close(fd); auto x = rvalue(r), x2 = rvalue(r); auto m = rmesh(r); { file_output_archive o(path); o(x); o(m); o(x2); o.close(); } { file_input_archive in; in.open(path); if (!in.is_file_open()) c.fail("file-open", "cannot open"); value y, y2; triangle_mesh t; in(y); size_t pos = in.tell_position(); in(t); in(y2); if (!(y == x) || !(y2 == x2)) c.fail("file-roundtrip", "value read back from file differs"); std::vector<uint8_t> a, b; memory_output_archive oa(a), ob(b); oa(m); ob(t); if (a != b) c.fail("file-mesh", "mesh read back from file differs"); if (pos + serialization_sizeof(m) + write(x2, 0).size() != in.tell_position()) c.fail("file-size", "mesh occupies %zu bytes, expected %zu", in.tell_position() - pos - write(x2, 0).size(), serialization_sizeof(m)); in.seek_position(0); value z; in(z); if (!(z == x)) c.fail("file-seek", "value read after seeking differs"); in.close(); } unlink(path); c.event("files"); c.hit(hv(x.u64, x2.u64));
}
template<class T> static size_t written(T &t) { std::vector<uint8_t> b; memory_output_archive a(b); a(t); return b.size(); }
VF_SECTION(sizes, 3000, 40000) {
    auto &r = c.r; auto x = rvalue(r); auto ck = [&](const char *n, size_t got, size_t want) { if (got != want) c.fail("sizeof", "predicted size of %s is %zu, written %zu", n, got, want); c.event("sizes"); };
    ck("vector<double>", serialization_sizeof(x.dv), written(x.dv)); ck("vector<vector3>", serialization_sizeof(x.vv), written(x.vv)); ck("bytes", serialization_sizeof(x.bytes), written(x.bytes)); ck("vector<bool>", serialization_sizeof(x.bits), written(x.bits)); ck("array", serialization_sizeof(x.arr), written(x.arr)); ck("pair", serialization_sizeof(x.pr), written(x.pr)); std::optional<std::array<int32_t, 3>> oa; if (r.chance(0.5)) oa = std::array<int32_t, 3>{1, 2, 3}; ck("optional", serialization_sizeof(oa), written(oa)); std::map<uint32_t, double> m; for (size_t n = S(r); n; --n) m[(uint32_t)r.next()] = 1; ck("map", serialization_sizeof(m), written(m)); std::variant<int32_t, double, uint8_t> v; if (r.chance(0.5)) v = 1.5; else if (r.chance(0.5)) v = (uint8_t)3; ck("variant", serialization_sizeof(v), written(v)); auto t = rmesh(r); ck("triangle_mesh", serialization_sizeof(t), written(t)); c.hit(hv(x.u64));
}
VF_SECTION(mesh_roundtrip, 300, 5000) {
    auto &r = c.r; auto m = rmesh(r); std::vector<uint8_t> b; memory_output_archive o(b); o(m); exact e(b); memory_input_archive in(e.p.get(), e.n); triangle_mesh t; in(t); if (in.failed() || !in.eof()) c.fail("mesh-complete", "failed=%d eof=%d", in.failed(), in.eof()); if (t.num_vertices() != m.num_vertices() || t.num_triangles() != m.num_triangles() || t.num_edges() != m.num_edges()) { c.fail("mesh-counts", "counts differ"); return; }
    for (size_t i = 0; i < m.num_vertices(); ++i) if (t.get_vertex_position(i) != m.get_vertex_position(i)) c.fail("mesh-vertex", "vertex %zu", i); for (size_t i = 0; i < m.num_triangles(); ++i) { for (int j = 0; j < 3; ++j) { if (t.get_face_vertex_index(i, j) != m.get_face_vertex_index(i, j) || t.get_face_edge_index(i, j) != m.get_face_edge_index(i, j)) c.fail("mesh-face", "face %zu", i); } if (t.get_triangle_normal(i) != m.get_triangle_normal(i)) c.fail("mesh-normal", "normal %zu", i); } for (size_t i = 0; i < m.num_edges(); ++i) { if (t.is_convex_edge(i) != m.is_convex_edge(i) || t.is_boundary_edge(i) != m.is_boundary_edge(i)) c.fail("mesh-edge", "edge %zu", i); } if (t.has_per_vertex_friction() != m.has_per_vertex_friction() || t.has_per_vertex_restitution() != m.has_per_vertex_restitution() || t.has_per_vertex_material_id() != m.has_per_vertex_material_id()) c.fail("mesh-material", "per-vertex material presence"); if (t.get_thickness() != m.get_thickness()) c.fail("mesh-thickness", "thickness"); for (size_t i = 0; i < m.num_vertices(); ++i) { if (m.has_per_vertex_friction() && t.has_per_vertex_friction() && m.get_vertex_friction(i) != t.get_vertex_friction(i)) c.fail("mesh-friction", "vertex %zu", i); if (m.has_per_vertex_restitution() && t.has_per_vertex_restitution() && m.get_vertex_restitution(i) != t.get_vertex_restitution(i)) c.fail("mesh-restitution", "vertex %zu", i); } std::vector<uint8_t> b2; memory_output_archive o2(b2); o2(t); if (b2 != b) c.fail("mesh-roundtrip", "written bytes differ"); std::set<size_t> va, vb; auto bb = m.get_aabb(); AABB q{bb.min, lerp(bb.min, bb.max, scalar(0.5))}; m.visit_triangles(q, [&](auto i) { va.insert(i); }); t.visit_triangles(q, [&](auto i) { vb.insert(i); }); if (va != vb) c.fail("mesh-query", "queries differ after reading back"); c.event("meshes"); c.event("triangles", m.num_triangles()); c.hit(vf::hash_bytes(b.data(), b.size()));
}
// components and network types available without the registry
VF_SECTION(components, 3000, 40000) {
    auto &r = c.r; material m; m.restitution = (scalar)r.unit(); m.friction = (scalar)r.unit(); m.spin_friction = (scalar)r.unit(); m.roll_friction = (scalar)r.unit(); m.stiffness = (scalar)r.logu(1, 1e9); m.damping = (scalar)r.logu(1, 1e9); m.id = (material::id_type)r.next(); collision_filter f; f.group = r.next(); f.mask = r.next(); action_history h; for (size_t n = r.chance(0.05) ? 255 : r.below(12); n; --n) { std::vector<uint8_t> d; for (size_t k = S(r); k; --k) d.push_back((uint8_t)r.next()); h.entries.emplace_back(r.uni(0, 1e6), (uint8_t)r.next(), std::move(d)); } action_list<inner> l; for (size_t n = r.chance(0.05) ? 255 : r.below(9); n; --n) l.actions.push_back(rinner(r)); size_t hn = h.entries.size(), ln = l.actions.size();
    std::vector<uint8_t> b; memory_output_archive o(b); o(m); o(f); o(h); o(l); if (h.entries.size() != hn || l.actions.size() != ln) c.fail("component-source", "writing modified the source"); exact e(b); memory_input_archive in(e.p.get(), e.n); material m2; collision_filter f2; action_history h2; action_list<inner> l2; l2.actions.resize(3); in(m2); in(f2); in(h2); in(l2); if (in.failed() || !in.eof()) { c.fail("component-complete", "failed=%d eof=%d", in.failed(), in.eof()); return; } if (m2.restitution != m.restitution || m2.friction != m.friction || m2.spin_friction != m.spin_friction || m2.roll_friction != m.roll_friction || m2.stiffness != m.stiffness || m2.damping != m.damping || m2.id != m.id) c.fail("component-material", "material"); if (f2.group != f.group || f2.mask != f.mask) c.fail("component-filter", "collision filter"); bool ok = h2.entries.size() == hn; for (size_t i = 0; ok && i < hn; ++i) ok = h2.entries[i].timestamp == h.entries[i].timestamp && h2.entries[i].action_index == h.entries[i].action_index && h2.entries[i].data == h.entries[i].data; if (!ok) c.fail("component-history", "action history of %zu entries", hn); if (!(l2.actions == l.actions)) c.fail("component-actions", "action list of %zu actions", ln); c.event("components"); c.hit(vf::hash_bytes(b.data(), b.size()));
}
// containers past the representable count: a prefix is written and the source is kept
VF_SECTION(oversized, 12, 60) {
    auto &r = c.r; size_t n = r.pick(std::vector<size_t>{65534, 65535, 65536, 70000}); std::vector<uint16_t> v(n); for (size_t i = 0; i < n; ++i) v[i] = (uint16_t)(i * 7); std::vector<bool> bits(n); for (size_t i = 0; i < n; ++i) bits[i] = (i * 7 / 3) & 1; std::string s(n, 'x'); std::map<uint32_t, uint8_t> m; for (size_t i = 0; i < n; ++i) m[(uint32_t)i] = (uint8_t)i; int32_t tail = 1234567; size_t keep = std::min<size_t>(n, 65535); std::vector<uint8_t> b; memory_output_archive o(b); o(v); o(bits); o(s); o(m); o(tail); if (v.size() != n || bits.size() != n || s.size() != n || m.size() != n) c.fail("oversized-source", "writing a container of %zu elements truncated it", n); exact e(b); memory_input_archive in(e.p.get(), e.n); std::vector<uint16_t> v2; std::vector<bool> b2; std::string s2; std::map<uint32_t, uint8_t> m2; int32_t t2 = 0; in(v2); in(b2); in(s2); in(m2); in(t2); if (in.failed() || !in.eof() || t2 != tail) c.fail("oversized-framing", "data after a container of %zu elements is misread", n); if (v2.size() != keep || !std::equal(v2.begin(), v2.end(), v.begin()) || b2.size() != keep || !std::equal(b2.begin(), b2.end(), bits.begin()) || s2.size() != keep || m2.size() != keep) c.fail("oversized-prefix", "%zu elements: read back %zu/%zu/%zu/%zu", n, v2.size(), b2.size(), s2.size(), m2.size()); c.event("oversized"); c.hit(n);
}
#endif

#if VF_PART == 2
template<class T> static bool read_all(vf::ctx &c, const std::vector<uint8_t> &b, T &t, bool *failed) { exact e(b); memory_input_archive in(e.p.get(), e.n); in(t); *failed = in.failed(); uint64_t probe = 0x1122334455667788ull, keep = probe; if (in.failed()) { in(probe); if (!in.failed()) c.fail("failure-sticky", "failure was forgotten"); if (probe != keep) c.fail("failure-writes", "reading continued after a failure"); } return in.eof(); }
VF_SECTION(truncated, 2500, 40000) {
    auto &r = c.r; auto x = rvalue(r); auto b = write(x, 0); for (int k = 0; k < 6; ++k) { size_t cut = k == 0 ? 0 : k == 1 ? b.size() - 1 : r.below(b.size()); std::vector<uint8_t> t(b.begin(), b.begin() + cut); value y{}; bool f; read_all(c, t, y, &f); if (!f) c.fail("truncation-unreported", "input cut from %zu to %zu bytes was accepted", b.size(), cut); c.event("truncated"); } auto m = rmesh(r); std::vector<uint8_t> mb; memory_output_archive o(mb); o(m); for (int k = 0; k < 3; ++k) { size_t cut = r.below(mb.size()); std::vector<uint8_t> t(mb.begin(), mb.begin() + cut); triangle_mesh y; bool f; read_all(c, t, y, &f); if (!f) c.fail("truncation-unreported", "mesh cut from %zu to %zu bytes was accepted", mb.size(), cut); c.event("truncated_mesh"); } c.hit(vf::hash_bytes(b.data(), b.size()));
}
VF_SECTION(every_prefix, 60, 600) {
    auto &r = c.r; inner i = rinner(r); std::vector<var_t> v; for (size_t n = 1 + r.below(4); n; --n) v.push_back(rvar(r)); std::optional<std::string> o = rstr(r); std::vector<uint8_t> b; memory_output_archive a(b); a(i); a(v); a(o); for (size_t cut = 0; cut <= b.size(); ++cut) { exact e(std::vector<uint8_t>(b.begin(), b.begin() + cut)); memory_input_archive in(e.p.get(), e.n); inner i2{}; std::vector<var_t> v2; std::optional<std::string> o2; in(i2); in(v2); in(o2); if (in.failed() != (cut < b.size())) c.fail("prefix-failed", "prefix of %zu of %zu bytes: failed=%d", cut, b.size(), in.failed()); c.event("prefixes"); } c.hit(vf::hash_bytes(b.data(), b.size()));
}
VF_SECTION(corrupted, 6000, 150000) {
    auto &r = c.r; std::vector<uint8_t> b; int mode = (int)r.below(3); if (mode == 0) { for (size_t n = r.below(600); n; --n) b.push_back((uint8_t)(r.chance(0.4) ? r.below(4) : r.next())); } else { auto x = rvalue(r); b = write(x, 0); for (int k = r.range(1, 8); k; --k) { size_t at = r.below(b.size()); b[at] = (uint8_t)(r.chance(0.3) ? 0xff : r.next()); if (r.chance(0.1)) b.insert(b.begin() + at, (uint8_t)r.next()); if (r.chance(0.1) && b.size() > 2) b.erase(b.begin() + at); } }
    value y{}; bool f; bool eof = read_all(c, b, y, &f); c.event(f ? "rejected" : eof ? "accepted" : "partial"); if (y.var.valueless_by_exception()) c.fail("variant-valueless", "variant left without a value"); // every decoded value is a valid value of its type (UBSan checks bools and enums on use)
    volatile bool bb = y.b; (void)bb; std::vector<uint8_t> w; memory_output_archive o(w); o(y); value z{}; bool f2; read_all(c, w, z, &f2); if (f2) c.fail("corrupt-rewrite", "a decoded value cannot be written and read again"); c.hit(vf::hash_bytes(b.data(), b.size()));
}
VF_SECTION(hostile_components, 800, 20000) {
    auto &r = c.r; std::vector<uint8_t> b; for (size_t n = r.below(300); n; --n) b.push_back((uint8_t)(r.chance(0.3) ? 0xff : r.chance(0.3) ? 0 : r.next())); bool f; { action_history h; read_all(c, b, h, &f); } { action_list<inner> l; read_all(c, b, l, &f); if (!f) for (auto &a : l.actions) { volatile bool q = a.flag; (void)q; } } { triangle_mesh t; read_all(c, b, t, &f); } { static_tree t; read_all(c, b, t, &f); } { std::map<std::string, std::vector<bool>> m; read_all(c, b, m, &f); } { std::vector<std::optional<std::vector<std::string>>> m; read_all(c, b, m, &f); } { std::variant<uint8_t, std::string, std::vector<uint16_t>> v; read_all(c, b, v, &f); } { material m; material w; std::vector<uint8_t> wb; memory_output_archive wo(wb); wo(w); read_all(c, b, m, &f); if (f != (b.size() < wb.size())) c.fail("material-length", "%zu bytes: failed=%d", b.size(), f); } c.event("inputs", 8); c.hit(vf::hash_bytes(b.data(), b.size()));
}
#endif
