// Containers, tables, histories and constraint rows against independent models.
#include "geo.hpp"
#if VF_PART == 1
#include "edyn/core/free_list.hpp"
#include "edyn/core/flat_nested_array.hpp"
#include "edyn/util/vector_util.hpp"
#include "edyn/util/array_util.hpp"
#include "edyn/util/tuple_util.hpp"
#include <memory>
using namespace edyn;
struct node { uint64_t payload = 0; std::shared_ptr<int> res; size_t next = 0; };
struct node32 { uint64_t payload = 0; std::string text; uint32_t next = 0; };
static constexpr uint32_t null32 = ~uint32_t(0);

template<class L, class N, class Mk, class Rd> void drive(vf::ctx &c, Mk mk, Rd rd) {
    auto &r = c.r; L fl; std::map<size_t, uint64_t> live; uint64_t tag = 1, h = 3; int N0 = r.range(10, 400); double pi = r.uni(0.35, 0.7);
    auto audit = [&](const char *when) { if (fl.count() != live.size() || fl.empty() != live.empty()) { c.fail("free-list-count", "%s: count %zu, %zu live", when, (size_t)fl.count(), live.size()); return false; } for (auto &kv : live) if (kv.first >= fl.range() || rd(std::as_const(fl)[kv.first]) != kv.second) { c.fail("free-list-value", "%s: element %zu holds %llu instead of %llu", when, kv.first, (unsigned long long)rd(std::as_const(fl)[kv.first]), (unsigned long long)kv.second); return false; } for (size_t k = 0; k < fl.range(); ++k) if (!live.count(k) && rd(std::as_const(fl)[k]) != 0) { c.fail("free-list-vacant", "%s: vacant slot %zu still holds a removed element", when, k); return false; } return true; };
    for (int i = 0; i < N0; ++i) { double x = r.unit(); h = vf::mix(h ^ (uint64_t)(x * 3));
        if (x < pi || live.empty()) { uint64_t t = tag++; auto idx = fl.insert(mk(t)); if (idx >= fl.range()) { c.fail("free-list-range", "index %zu of %zu", (size_t)idx, (size_t)fl.range()); return; } if (live.count(idx)) { c.fail("free-list-reuse", "insert returned index %zu which is in use", (size_t)idx); return; } live[idx] = t; c.event("insert"); }
        else if (x < 0.985) { auto it = live.begin(); std::advance(it, r.below(live.size())); fl.remove(it->first); live.erase(it); c.event("remove"); }
        else { fl.clear(); live.clear(); c.event("clear"); }
        if (!audit("step")) return; if (i % 16 == 0 && !live.empty()) { auto it = live.begin(); std::advance(it, r.below(live.size())); auto &e = fl[it->first]; e.payload = tag; it->second = tag; tag++; } }
    c.hit(h ^ live.size()); c.sample("%d operations, %zu live of range %zu", N0, live.size(), (size_t)fl.range());
}
VF_SECTION(free_list_model, 2000, 60000) {
    if (c.idx % 2) drive<free_list<node, size_t, SIZE_MAX>, node>(c, [](uint64_t t) { node n; n.payload = t; n.res = std::make_shared<int>((int)t); return n; }, [](const node &n) { return n.payload; });
    else drive<free_list<node32, uint32_t, null32>, node32>(c, [](uint64_t t) { node32 n; n.payload = t; n.text = std::string(t % 40, 'x'); return n; }, [](const node32 &n) { return n.payload; });
}
// resources of removed elements are released
VF_SECTION(free_list_release, 400, 4000) {
    auto &r = c.r; free_list<node, size_t, SIZE_MAX> fl; std::vector<std::pair<size_t, std::weak_ptr<int>>> v; int N = r.range(1, 60); for (int i = 0; i < N; ++i) { node n; n.res = std::make_shared<int>(i); std::weak_ptr<int> w = n.res; auto k = fl.insert(std::move(n)); v.push_back({k, w}); } if (r.chance(0.2)) { fl.clear(); for (auto &x : v) if (!x.second.expired()) c.fail("free-list-leak", "cleared element still owns its resource"); c.event("cleared", v.size()); c.hit(1000 + N); return; } r.shuffle(v); for (size_t i = 0; i < v.size(); ++i) { if (v[i].second.expired()) c.fail("free-list-early-release", "live element destroyed"); fl.remove(v[i].first); if (!v[i].second.expired()) c.fail("free-list-leak", "removed element still owns its resource"); for (size_t j = i + 1; j < v.size(); j += 7) if (v[j].second.expired()) c.fail("free-list-early-release", "removing one element destroyed another"); } c.event("released", v.size()); c.hit(N);
}
VF_SECTION(flat_nested, 2000, 40000) {
    auto &r = c.r; flat_nested_array<uint32_t> f; std::vector<std::vector<uint32_t>> m; int N = r.range(0, 30); if (r.chance(0.5)) { f.reserve_nested(r.below(40)); f.reserve_data(r.below(200)); } uint32_t t = 1; uint64_t h = 5; for (int i = 0; i < N; ++i) { f.push_array(); m.emplace_back(); int k = r.chance(0.3) ? 0 : r.range(0, 9); for (int j = 0; j < k; ++j) { f.push_back(t); m.back().push_back(t++); } h = vf::mix(h ^ k); if (f.size() != m.size()) { c.fail("nested-size", "size %zu expected %zu", f.size(), m.size()); return; } }
    for (size_t i = 0; i < m.size(); ++i) { auto a = f[i]; if (a.size() != m[i].size()) { c.fail("nested-inner-size", "array %zu has %zu elements, expected %zu", i, a.size(), m[i].size()); return; } for (size_t j = 0; j < m[i].size(); ++j) if (a[j] != m[i][j]) { c.fail("nested-value", "array %zu element %zu", i, j); return; } c.event("arrays"); } c.hit(h);
}
VF_SECTION(small_utils, 1000, 20000) {
    auto &r = c.r; std::vector<int> v, m; for (int i = 0, n = r.range(0, 20); i < n; ++i) v.push_back(r.range(0, 6)); m = v; int x = r.range(0, 6); if (vector_contains(v, x) != (std::count(m.begin(), m.end(), x) > 0)) c.fail("vector-contains", "vector_contains"); vector_erase(v, x); std::vector<int> e; for (int y : m) if (y != x) e.push_back(y); if (v != e) c.fail("vector-erase", "vector_erase"); auto a = make_array<5>(x); for (int y : a) if (y != x) c.fail("make-array", "make_array");
    std::tuple<int, double, std::string, char> tp{1, 2.5, "s", 'c'}; const auto &ct = tp; for (uint8_t i = 0; i < 4; ++i) { int kind = -1, ckind = -1; auto vis = [](int &k) { return [&k](auto &&y) { using Y = std::decay_t<decltype(y)>; k = std::is_same_v<Y, int> ? 0 : std::is_same_v<Y, double> ? 1 : std::is_same_v<Y, std::string> ? 2 : 3; }; }; visit_tuple(tp, i, vis(kind)); visit_tuple(ct, i, vis(ckind)); if (kind != i || ckind != i) c.fail("visit-tuple", "index %d visited element %d/%d", i, kind, ckind); } visit_tuple(tp, 0u, [](auto &&y) { using Y = std::decay_t<decltype(y)>; if constexpr (std::is_same_v<Y, int>) y = 42; }); if (std::get<0>(tp) != 42) c.fail("visit-tuple", "element not mutable");
    if ((tuple_index_of<unsigned, std::string>(tp)) != 2 || (index_of_v<size_t, char, int, double, std::string, char>) != 3 || !has_type<int, double, int>::value || has_type<float, double, int>::value || tuple_has_type<float, std::tuple<int, char>>::value || !tuple_has_type<char, std::tuple<int, char>>::value) c.fail("tuple-index", "type indices"); c.event("utils"); c.hit(hv(x, m.size()));
}
#endif

#if VF_PART == 2
#include "edyn/dynamics/material_mixing.hpp"
using namespace edyn;
using P = unordered_pair<uint16_t>;
VF_SECTION(pair_order, 60000, 1000000) {
    auto &r = c.r; int K = r.range(2, 12); auto mk = [&] { return P{(uint16_t)r.below(K), (uint16_t)r.below(K)}; }; P a = mk(), b = mk(), d = mk(), ar{a.second, a.first}; auto same = [](P x, P y) { return std::minmax(x.first, x.second) == std::minmax(y.first, y.second); };
    if (!(a == ar) || (a == b) != same(a, b)) c.fail("pair-equal", "(%d,%d) == (%d,%d) is %d", a.first, a.second, b.first, b.second, a == b); if (a < ar || ar < a || a < a) c.fail("pair-irreflexive", "(%d,%d) is ordered against its own mirror", a.first, a.second); if ((a < b) && (b < a)) c.fail("pair-asymmetric", "(%d,%d) and (%d,%d) are each less than the other", a.first, a.second, b.first, b.second); if (a < b && b < d && !(a < d)) c.fail("pair-transitive", "(%d,%d) < (%d,%d) < (%d,%d) is not transitive", a.first, a.second, b.first, b.second, d.first, d.second);
    bool eqv = !(a < b) && !(b < a); if (eqv != same(a, b)) c.fail("pair-equivalence", "(%d,%d) and (%d,%d): neither is less is %d but equality is %d", a.first, a.second, b.first, b.second, eqv, same(a, b)); P br{b.second, b.first}; if ((a < b) != (ar < b) || (a < b) != (a < br)) c.fail("pair-mirror", "ordering of (%d,%d) and (%d,%d) depends on the order within the pair", a.first, a.second, b.first, b.second); if (a[0] != a.first || a[1] != a.second) c.fail("pair-index", "operator[]"); c.event(same(a, b) ? "equal" : "different"); c.hit(hv(a.first, a.second, b.first, b.second, d.first, d.second));
}
VF_SECTION(mix_table, 3000, 80000) {
    auto &r = c.r; material_mix_table t; std::map<std::pair<int, int>, scalar> m; int K = r.range(2, 14), N = r.range(5, 150); uint64_t h = 9; scalar tag = 1;
    for (int i = 0; i < N; ++i) { uint16_t a = (uint16_t)r.below(K), b = (uint16_t)r.below(K); if (r.chance(0.05)) a = 65534; P p{a, b}; std::pair<int, int> k = std::minmax((int)a, (int)b); int op = (int)r.below(10); h = vf::mix(h ^ (a * 131 + b * 7 + op));
        if (op < 5) { material_base mb; mb.friction = tag; t.insert(p, mb); m[k] = tag; tag += 1; c.event("insert"); } else if (op < 7) { t.remove(p); m.erase(k); c.event("remove"); }
        for (int x = 0; x < K; ++x) for (int y = 0; y < K; ++y) { P q{(uint16_t)x, (uint16_t)y}; auto it = m.find(std::minmax(x, y)); bool want = it != m.end(); if (t.contains(q) != want) { c.fail("mix-contains", "after %d operations the table %s the pair (%d,%d)", i + 1, want ? "lost" : "still has", x, y); return; } auto *pp = std::as_const(t).try_get(q); if ((pp != nullptr) != want || (pp && pp->friction != it->second)) { c.fail("mix-value", "pair (%d,%d) has friction %g instead of %g", x, y, pp ? (double)pp->friction : -1, want ? (double)it->second : -1); return; } if (want) { if (&t.get(q) != pp || t.try_get(q) != pp || &std::as_const(t).get(q) != pp) c.fail("mix-get", "accessors disagree"); c.event("lookup"); } } }
    c.hit(h); c.sample("%d operations over %d material ids, %zu pairs stored", N, K, m.size());
}
VF_SECTION(mix_functions, 20000, 200000) {
    auto &r = c.r; scalar a = (scalar)r.uni(0, 1.5), b = (scalar)r.uni(0, 1.5); if (r.chance(0.2)) a = 0; if (r.chance(0.1)) b = 1; auto ck = [&](const char *n, scalar x, scalar y, double want) { if (x != y) c.fail("mix-symmetric", "%s(%g,%g) is not symmetric", n, (double)a, (double)b); if (!(std::abs(x - want) <= 1e-5 * (1 + std::abs(want)))) c.fail("mix-rule", "%s(%g,%g) = %g, expected %g", n, (double)a, (double)b, (double)x, want); };
    ck("restitution", material_mix_restitution(a, b), material_mix_restitution(b, a), std::min(a, b)); ck("friction", material_mix_friction(a, b), material_mix_friction(b, a), std::sqrt((double)a * b)); ck("spin friction", material_mix_spin_friction(a, b), material_mix_spin_friction(b, a), std::max(a, b)); ck("roll friction", material_mix_roll_friction(a, b), material_mix_roll_friction(b, a), std::max(a, b));
    a = (scalar)r.logu(1, 1e6); b = r.chance(0.3) ? large_scalar : (scalar)r.logu(1, 1e6); double s = r.chance(0.1) ? 1 : 0; (void)s; double ser = b >= large_scalar ? (double)a : 1 / (1 / (double)a + 1 / (double)b); auto near = [](double x, double y) { return std::abs(x - y) <= 1e-4 * y; }; if (!near(material_mix_stiffness(a, b), ser) || !near(material_mix_damping(a, b), ser) || !near(material_mix_stiffness(b, a), ser) || !near(material_mix_damping(b, a), ser)) c.fail("mix-series", "stiffness/damping of %g and %g in series: %g, expected %g", (double)a, (double)b, (double)material_mix_stiffness(a, b), ser); scalar both = material_mix_stiffness(large_scalar, large_scalar); if (!(both >= large_scalar / 4)) c.fail("mix-rigid", "two rigid materials mix to stiffness %g", (double)both); c.event("mixes"); c.hit(hv(a, b));
}
#endif

#if VF_PART == 3
#include "edyn/networking/comp/action_history.hpp"
#include "edyn/comp/action_list.hpp"
#include "edyn/comp/merge_component.hpp"
using namespace edyn;
// A client records actions and keeps re-sending its recent history; packets may
// be lost, duplicated or trimmed.  The receiver merges what arrives.
VF_SECTION(history_delivery, 4000, 120000) {
    auto &r = c.r; action_history client, server; struct A { double t; uint8_t idx; uint8_t d; }; std::vector<A> sent, consumed; size_t acked = 0; double now = r.uni(0, 3), erased = -1; int N = r.range(5, 120); uint64_t h = 11; size_t delivered_upto = 0; double lastDelivered = 0; server.last_timestamp = now - 1;
    double loss = r.pick(std::vector<double>{0, 0.2, 0.6}), dup = r.pick(std::vector<double>{0, 0.3}); action_history lastPacket; bool have = false; (void)acked; (void)erased;
    auto absorb = [&](const action_history &pk) { size_t before = server.entries.size(); auto copy = pk; server.merge(pk); if (pk.entries.size() != copy.entries.size()) c.fail("history-source", "merge changed its source"); if (server.entries.size() < before) c.fail("history-shrank", "merge lost entries"); c.event("merge"); };
    for (int i = 0; i < N; ++i) { now += r.logu(1e-4, 0.2); if (r.chance(0.6)) { A a{now, (uint8_t)r.below(256), (uint8_t)r.below(256)}; sent.push_back(a); std::vector<uint8_t> data(r.below(12), a.d); data.push_back(a.d); client.entries.emplace_back(a.t, a.idx, std::move(data)); client.last_timestamp = a.t; c.event("action"); }
        if (!client.empty() && r.chance(0.5)) { bool lost = r.chance(loss); h = vf::mix(h ^ lost); if (!lost) { absorb(client); delivered_upto = sent.size(); lastDelivered = sent.back().t; lastPacket = client; have = true; if (r.chance(dup)) { absorb(client); c.event("duplicate"); } } else c.event("lost"); }
        if (have && r.chance(dup)) { absorb(lastPacket); c.event("stale"); } // reordered old packet
        if (r.chance(0.15)) { double t = lastDelivered - r.uni(0, 0.3) * r.chance(0.5); client.erase_until(t); c.event("trim"); for (auto &e : client.entries) if (e.timestamp < t) { c.fail("history-erase", "entry at %g survived erase_until(%g)", e.timestamp, t); return; } // nothing at or after t is erased
            size_t want = 0; for (auto &s : sent) want += s.t >= t && s.t > erased; erased = std::max(erased, std::nextafter(t, -1e9)); size_t have2 = client.entries.size(); if (have2 != want) { c.fail("history-erase", "erase_until(%g) kept %zu of %zu entries at or after it", t, have2, want); return; } }
        if (r.chance(0.1) && !server.entries.empty()) { // receiver consumes
            for (auto &e : server.entries) consumed.push_back({e.timestamp, e.action_index, e.data.empty() ? (uint8_t)0 : e.data[0]}); server.entries.clear(); } }
    for (auto &e : server.entries) consumed.push_back({e.timestamp, e.action_index, e.data.empty() ? (uint8_t)0 : e.data[0]});
    if (consumed.size() != delivered_upto) { c.fail("history-exactly-once", "%zu actions delivered in at least one packet, %zu executed", delivered_upto, consumed.size()); return; } for (size_t i = 0; i < consumed.size(); ++i) if (consumed[i].t != sent[i].t || consumed[i].idx != sent[i].idx || consumed[i].d != sent[i].d) { c.fail("history-order", "action %zu executed out of order or altered", i); return; }
    c.event("executed", consumed.size()); c.hit(h ^ hv(sent.size(), consumed.size(), now)); c.sample("%zu actions, %zu delivered across loss %.1f dup %.1f: each executed once, in order", sent.size(), consumed.size(), loss, dup);
}
VF_SECTION(history_sort, 2000, 20000) {
    auto &r = c.r; action_history h; std::multiset<std::pair<double, int>> m; int N = r.range(0, 40); for (int i = 0; i < N; ++i) { double t = r.range(0, 20) * 0.5; uint8_t id = (uint8_t)r.below(200); h.entries.emplace_back(t, id, std::vector<uint8_t>{id}); m.insert({t, id}); } h.sort(); std::multiset<std::pair<double, int>> g; for (size_t i = 0; i < h.entries.size(); ++i) { if (i && h.entries[i].timestamp < h.entries[i - 1].timestamp) c.fail("history-sort", "not sorted"); if (h.entries[i].data.size() != 1 || h.entries[i].data[0] != h.entries[i].action_index) c.fail("history-sort", "data moved to another entry"); g.insert({h.entries[i].timestamp, h.entries[i].action_index}); } if (g != m) c.fail("history-sort", "entries lost or duplicated"); c.event("sorted"); c.hit(hv(N, c.idx));
}
VF_SECTION(action_merge, 2000, 40000) {
    auto &r = c.r; action_list<int> l; std::vector<int> m; int t = 0; uint64_t h = 2; for (int i = 0, n = r.range(0, 12); i < n; ++i) { action_list<int> nl; for (int k = r.range(0, 6); k > 0; --k) { nl.actions.push_back(t); m.push_back(t++); } auto sz = nl.actions.size(); merge_component(l, nl); h = vf::mix(h ^ sz); if (nl.actions.size() != sz) c.fail("actions-source", "source changed"); if (l.actions != m) { c.fail("actions-merge", "after %d merges %zu actions are pending instead of %zu, or in another order", i + 1, l.actions.size(), m.size()); return; } c.event("merge"); } int a = 1, b = 2; merge_component(a, b); if (a != 2) c.fail("merge-default", "default merge does not take the new value"); c.hit(h);
}
#endif

#if VF_PART == 4
#include "edyn/dynamics/row_cache.hpp"
using namespace edyn;
struct bodies { delta_linvel dv[2]; delta_angvel dw[2]; D3 v[2], w[2]; double im[2]; matrix3x3 iI[2]; };
static matrix3x3 rnd_inv_inertia(vf::rng &r) { if (r.chance(0.15)) return matrix3x3_zero; auto q = rnd_quat(r); auto R = to_matrix3x3(q); auto m = scale_matrix(R, {(scalar)r.uni(0.2, 3), (scalar)r.uni(0.2, 3), (scalar)r.uni(0.2, 3)}) * transpose(R); for (int i = 0; i < 3; ++i) for (int j = 0; j < i; ++j) m[i][j] = m[j][i]; return m; }
static D3 mul(const matrix3x3 &m, D3 v) { return {ddot(m[0], v), ddot(m[1], v), ddot(m[2], v)}; }
static const double RT = kDouble ? 1e-9 : 3e-4;

static constraint_row make_row(vf::rng &r, bodies &b, int kind) {
    constraint_row row; D3 n = rnd_unitD(r); D3 rA(rnd_vec(r, 1)), rB(rnd_vec(r, 1)); if (kind == 0) { row.J = {n.v(), dcross(rA, n).v(), (-n).v(), (-dcross(rB, n)).v()}; } else row.J = {vector3_zero, n.v(), vector3_zero, (-n).v()};
    row.inv_mA = (scalar)b.im[0]; row.inv_mB = (scalar)b.im[1]; row.inv_IA = b.iI[0]; row.inv_IB = b.iI[1]; row.dvA = &b.dv[0]; row.dvB = &b.dv[1]; row.dwA = &b.dw[0]; row.dwB = &b.dw[1]; row.impulse = 0; int lim = (int)r.below(4); row.lower_limit = lim == 0 ? 0 : lim == 1 ? -large_scalar : (scalar)-r.uni(0, 2); row.upper_limit = lim == 0 || lim == 1 ? large_scalar : (scalar)r.uni(0, 2); return row; }
static bodies make_bodies(vf::rng &r) { bodies b; for (int i = 0; i < 2; ++i) { b.dv[i] = vector3_zero; b.dw[i] = vector3_zero; b.v[i] = D3(rnd_vec(r, 3)); b.w[i] = D3(rnd_vec(r, 3)); b.im[i] = (double)(scalar)r.uni(0.1, 3); b.iI[i] = rnd_inv_inertia(r); } if (r.chance(0.15)) { b.im[1] = 0; b.iI[1] = matrix3x3_zero; } return b; }
static double relvel(const constraint_row &row, const bodies &b, bool delta) { double s = ddot(row.J[0], b.dv[0]) + ddot(row.J[1], b.dw[0]) + ddot(row.J[2], b.dv[1]) + ddot(row.J[3], b.dw[1]); if (!delta) s += ddot(row.J[0], b.v[0]) + ddot(row.J[1], b.w[0]) + ddot(row.J[2], b.v[1]) + ddot(row.J[3], b.w[1]); return s; }

VF_SECTION(single_row, 20000, 400000) {
    auto &r = c.r; auto b = make_bodies(r); auto row = make_row(r, b, (int)r.below(2)); double k = ddot(row.J[0], row.J[0]) * b.im[0] + ddot(mul(b.iI[0], row.J[1]), row.J[1]) + ddot(row.J[2], row.J[2]) * b.im[1] + ddot(mul(b.iI[1], row.J[3]), row.J[3]); if (k < 0.02) return; constraint_row_options o; o.error = r.chance(0.5) ? 0 : (scalar)r.uni(-1, 1); o.erp = (scalar)r.uni(0, 1); o.restitution = r.chance(0.5) ? 0 : (scalar)r.unit();
    prepare_row(row, o, b.v[0].v(), b.w[0].v(), b.v[1].v(), b.w[1].v()); if (std::abs(row.eff_mass * k - 1) > RT) c.fail("row-effmass", "effective mass %g, expected %g", (double)row.eff_mass, 1 / k); double rv0 = relvel(row, b, false); double target = -(rv0 * (double)o.restitution) - (double)o.error * o.erp; // desired relative velocity
    if (std::abs(row.rhs - (target - rv0)) > RT * 20) c.fail("row-rhs", "rhs %g, expected %g", (double)row.rhs, target - rv0);
    double before = row.impulse; scalar d = solve(row); if (row.impulse < row.lower_limit || row.impulse > row.upper_limit) c.fail("row-limits", "impulse %g outside [%g, %g]", (double)row.impulse, (double)row.lower_limit, (double)row.upper_limit); if (std::abs(row.impulse - before - d) > RT * (1 + std::abs(d))) c.fail("row-delta", "returned %g but the impulse changed by %g", (double)d, row.impulse - before);
    apply_row_impulse(d, row); double rv = relvel(row, b, false); bool clamped = row.impulse == row.lower_limit || row.impulse == row.upper_limit; double unc = (target - rv0) / k;
    if (!clamped) { if (std::abs(rv - target) > RT * 30) c.fail("row-satisfied", "relative velocity %g after solving, wanted %g", rv, target); c.event("satisfied"); } else { double want = std::min((double)row.upper_limit, std::max((double)row.lower_limit, unc)); if (std::abs(row.impulse - want) > RT * (1 + std::abs(want))) c.fail("row-clamp", "impulse %g, expected %g", (double)row.impulse, want); c.event("clamped"); }
    if (std::abs(unc) < 1e6) { double want = std::min((double)row.upper_limit, std::max((double)row.lower_limit, unc)); if (std::abs(row.impulse - want) > RT * 30 * (1 + std::abs(want))) c.fail("row-impulse", "impulse %g, expected %g", (double)row.impulse, want); }
    // linear momentum: opposite impulses on the two bodies
    if (b.im[0] > 0 && b.im[1] > 0) { D3 p = D3(b.dv[0]) / b.im[0] + D3(b.dv[1]) / b.im[1]; if (dlen(p) > RT * (1 + std::abs(row.impulse))) c.fail("row-momentum", "solving changed the linear momentum by %g", dlen(p)); } if (b.im[1] == 0 && (D3(b.dv[1]).x != 0 || dlen(b.dv[1]) + dlen(b.dw[1]) != 0)) c.fail("row-static", "a body of infinite mass was accelerated");
    // solving again is a no-op; warm starting from scratch reproduces the velocities
    scalar d2 = solve(row); if (std::abs(d2) > RT * 30 * (1 + std::abs(row.impulse))) c.fail("row-converged", "second iteration applies %g more", (double)d2); bodies w = b; for (int i = 0; i < 2; ++i) { w.dv[i] = vector3_zero; w.dw[i] = vector3_zero; } auto row2 = row; row2.dvA = &w.dv[0]; row2.dvB = &w.dv[1]; row2.dwA = &w.dw[0]; row2.dwB = &w.dw[1]; warm_start(row2); for (int i = 0; i < 2; ++i) if (ddist(w.dv[i], b.dv[i]) > RT * 30 * (1 + dlen(b.dv[i])) || ddist(w.dw[i], b.dw[i]) > RT * 30 * (1 + dlen(b.dw[i]))) c.fail("row-warmstart", "warm starting with the accumulated impulse gives another velocity");
    c.hit(hv(row.J, row.impulse)); c.sample("relvel %g -> %g (target %g), impulse %g in [%g,%g]", rv0, rv, target, (double)row.impulse, (double)row.lower_limit, (double)row.upper_limit);
}

// Projected Gauss-Seidel over several rows: accumulated impulses stay within the
// limits at every step, equal the applied momentum, and converge.
VF_SECTION(row_system, 1500, 30000) {
    auto &r = c.r; int nb = r.range(2, 5), nr = r.range(1, 6); std::vector<delta_linvel> dv(nb, delta_linvel{vector3_zero}); std::vector<delta_angvel> dw(nb, delta_angvel{vector3_zero}); std::vector<double> im(nb); std::vector<matrix3x3> iI(nb); std::vector<D3> v(nb), w(nb); for (int i = 0; i < nb; ++i) { im[i] = (double)(scalar)r.uni(0.2, 2); iI[i] = rnd_inv_inertia(r); v[i] = D3(rnd_vec(r, 2)); w[i] = D3(rnd_vec(r, 2)); } std::vector<constraint_row> rows; std::vector<std::pair<int, int>> ix; std::vector<constraint_row_spin_friction> spins; D3 P0; for (int i = 0; i < nb; ++i) P0 = P0 + v[i] / im[i];
    for (int k = 0; k < nr; ++k) { int a = r.range(0, nb - 1), b = r.range(0, nb - 2); if (b >= a) ++b; bodies bb; constraint_row row = [&] { bodies t; t.im[0] = im[a]; t.im[1] = im[b]; t.iI[0] = iI[a]; t.iI[1] = iI[b]; return make_row(r, t, 0); }(); row.dvA = &dv[a]; row.dwA = &dw[a]; row.dvB = &dv[b]; row.dwB = &dw[b]; if (r.chance(0.4)) { row.lower_limit = 0; row.upper_limit = large_scalar; } constraint_row_options o; prepare_row(row, o, v[a].v(), w[a].v(), v[b].v(), w[b].v()); rows.push_back(row); ix.push_back({a, b});
        if (r.chance(0.5)) { constraint_row_spin_friction s; D3 n = rnd_unitD(r); s.J = {n.v(), (-n).v()}; double kk = ddot(mul(iI[a], n), n) + ddot(mul(iI[b], n), n); if (kk > 0.05) { s.eff_mass = (scalar)(1 / kk); s.rhs = (scalar)-(ddot(n, w[a]) - ddot(n, w[b])); s.impulse = 0; s.friction_coefficient = (scalar)r.uni(0, 1); s.normal_row_index = (unsigned)rows.size() - 1; spins.push_back(s); } } }
    double last = 0; for (int it = 0; it < 300; ++it) { last = 0; for (auto &row : rows) { double b = row.impulse; auto d = solve(row); apply_row_impulse(d, row); last = std::max(last, std::abs(row.impulse - b)); if (row.impulse < row.lower_limit || row.impulse > row.upper_limit) { c.fail("system-limits", "accumulated impulse %g outside [%g, %g] at iteration %d", (double)row.impulse, (double)row.lower_limit, (double)row.upper_limit, it); return; } }
        for (auto &s : spins) { if (rows[s.normal_row_index].impulse < 0) continue; auto &nrw = rows[s.normal_row_index]; solve_spin_friction(s, rows); double lim = s.friction_coefficient * (double)nrw.impulse; if (std::abs(s.impulse) > lim * (1 + 1e-5) + 1e-9) { c.fail("spin-cone", "spin friction impulse %g exceeds %g", (double)s.impulse, lim); return; } c.event("spin"); } }
    // applied == accumulated
    std::vector<D3> ev(nb), ew(nb); for (int i = 0; i < nb; ++i) { ev[i] = D3(); ew[i] = D3(); } double mag = 1; for (size_t k = 0; k < rows.size(); ++k) { auto &row = rows[k]; auto [a, b] = ix[k]; double i = row.impulse; mag += std::abs(i); ev[a] = ev[a] + D3(row.J[0]) * (im[a] * i); ev[b] = ev[b] + D3(row.J[2]) * (im[b] * i); ew[a] = ew[a] + mul(iI[a], row.J[1]) * i; ew[b] = ew[b] + mul(iI[b], row.J[3]) * i; } for (auto &s : spins) { auto [a, b] = ix[s.normal_row_index]; mag += std::abs(s.impulse); ew[a] = ew[a] + mul(iI[a], s.J[0]) * s.impulse; ew[b] = ew[b] + mul(iI[b], s.J[1]) * s.impulse; } double tol = (kDouble ? 1e-8 : 3e-3) * mag * 3; for (int i = 0; i < nb; ++i) if (ddist(dv[i], ev[i]) > tol || ddist(dw[i], ew[i]) > tol * 3) { c.fail("system-conservation", "velocity changes differ from the accumulated impulses by %g/%g", ddist(dv[i], ev[i]), ddist(dw[i], ew[i])); return; }
    D3 dP; for (int i = 0; i < nb; ++i) dP = dP + D3(dv[i]) / im[i]; if (dlen(dP) > tol * 5) c.fail("system-momentum", "total linear momentum changed by %g", dlen(dP));
    c.event("systems"); c.event(last < 1e-3 ? "converged" : "iterating"); c.hit(hv(nb, nr, mag)); c.sample("%d rows, %zu spin rows on %d bodies: residual %g, |impulses| %g", nr, spins.size(), nb, last, mag);
}

VF_SECTION(spin_row, 20000, 400000) {
    auto &r = c.r; auto b = make_bodies(r); std::vector<constraint_row> rows; if (r.chance(0.5)) rows.push_back(make_row(r, b, 0)); rows.push_back(make_row(r, b, 0)); unsigned nri = (unsigned)rows.size() - 1; rows[nri].impulse = (scalar)r.uni(0, 3); constraint_row_spin_friction s; D3 n = rnd_unitD(r), n2 = r.chance(0.5) ? n : rnd_unitD(r); s.J = {n.v(), (-n2).v()}; double k = ddot(mul(b.iI[0], n), n) + ddot(mul(b.iI[1], n2), n2); if (k < 0.02) return;
    bool fresh = r.chance(0.4); for (int i = 0; i < 2; ++i) { static_cast<vector3&>(b.dw[i]) = fresh ? vector3_zero : rnd_vec(r, 2); static_cast<vector3&>(b.dv[i]) = fresh ? vector3_zero : rnd_vec(r, 2); } D3 dw0[2] = {b.dw[0], b.dw[1]}, dv0[2] = {b.dv[0], b.dv[1]}; s.eff_mass = (scalar)(1 / k); double rel0 = ddot(n, b.w[0]) - ddot(n2, b.w[1]); s.rhs = (scalar)-rel0; s.friction_coefficient = (scalar)r.uni(0, 1.5); s.normal_row_index = nri; double lim = s.friction_coefficient * (double)rows[nri].impulse; s.impulse = fresh ? 0 : (scalar)(r.uni(-1, 1) * lim); double i0 = s.impulse; double rel = rel0 + ddot(n, D3(dw0[0])) - ddot(n2, D3(dw0[1]));
    solve_spin_friction(s, rows); double want = std::min(lim, std::max(-lim, i0 - rel / k)), tl = RT * 10 * (1 + std::abs(want) + std::abs(rel / k)); if (std::abs(s.impulse - want) > tl) c.fail("spin-impulse", "impulse %g, expected %g (limit %g)", (double)s.impulse, want, lim); double after = rel0 + ddot(n, D3(b.dw[0])) - ddot(n2, D3(b.dw[1])); double at = RT * 40 * (1 + k) * (1 + std::abs(rel)); if (std::abs(want) < lim * 0.999 && std::abs(after) > at) c.fail("spin-stop", "relative spin %g remains although friction was not saturated", after); if (std::abs(after) > std::abs(rel) + at) c.fail("spin-energy", "friction increased the relative spin from %g to %g", rel, after);
    double di = (double)s.impulse - i0; for (int i = 0; i < 2; ++i) { if (ddist(b.dv[i], dv0[i]) != 0) c.fail("spin-linear", "spin friction moved the bodies"); D3 e = D3(dw0[i]) + mul(b.iI[i], s.J[i]) * di; if (ddist(b.dw[i], e) > RT * 20 * (1 + dlen(e) + dlen(D3(dw0[i])))) c.fail("spin-apply", "angular velocity of body %d changed by something else than the impulse", i); }
    bodies w = b; for (int i = 0; i < 2; ++i) static_cast<vector3&>(w.dw[i]) = dw0[i].v(); rows[nri].dwA = &w.dw[0]; rows[nri].dwB = &w.dw[1]; rows[nri].dvA = &w.dv[0]; rows[nri].dvB = &w.dv[1]; warm_start(s, rows); for (int i = 0; i < 2; ++i) { D3 e = D3(dw0[i]) + mul(b.iI[i], s.J[i]) * (double)s.impulse; if (ddist(w.dw[i], e) > RT * 20 * (1 + dlen(e) + dlen(D3(dw0[i])))) c.fail("spin-warmstart", "warm start differs"); } c.event(std::abs(want) < lim ? "stick" : "slip"); c.hit(hv(s.J, s.impulse));
}

VF_SECTION(prep_cache, 3000, 60000) {
    auto &r = c.r; constraint_row_prep_cache pc; int rounds = r.range(1, 3); uint64_t h = 4; for (int q = 0; q < rounds; ++q) { std::vector<std::vector<std::pair<scalar, int>>> m; scalar tag = 1; int total = 0; int nc = r.range(1, (int)constraint_row_prep_cache::max_constraints); for (int k = 0; k < nc; ++k) { pc.add_constraint(); m.emplace_back(); int n = std::min<int>(r.range(0, 4), (int)constraint_row_prep_cache::max_rows - total); for (int i = 0; i < n; ++i) { auto &row = pc.add_row(); row.impulse = tag; int fl = 0; auto &o = pc.get_options(); if (o.error != 0 || o.restitution != 0 || o.erp != scalar(0.2)) { c.fail("prep-options", "row options are not reset"); return; } o.error = tag; if (r.chance(0.3)) { pc.add_friction_row().friction_coefficient = tag; fl |= constraint_row_flag_friction; } if (r.chance(0.3)) { pc.add_rolling_row().friction_coefficient = tag; fl |= constraint_row_flag_rolling_friction; } if (r.chance(0.3)) { pc.add_spinning_row().friction_coefficient = tag; fl |= constraint_row_flag_spinning_friction; } if (&pc.get_current_row() != &row) c.fail("prep-current", "current row"); m.back().push_back({tag, fl}); tag += 1; ++total; h = vf::mix(h ^ fl ^ (k << 4)); } }
        if (pc.num_rows != total || pc.num_constraints != nc) { c.fail("prep-count", "%d rows %d constraints, expected %d and %d", pc.num_rows, pc.num_constraints, total, nc); return; }
        for (int k = 0; k < nc; ++k) { if (pc.current_num_rows() != m[k].size()) { c.fail("prep-num-rows", "constraint %d has %d rows, expected %zu", k, pc.current_num_rows(), m[k].size()); return; } size_t i = 0; bool ok = true; pc.consume_rows([&](auto &e) { if (i >= m[k].size() || e.row.impulse != m[k][i].first || e.flags != m[k][i].second || e.options.error != m[k][i].first || ((e.flags & constraint_row_flag_friction) && e.friction.friction_coefficient != m[k][i].first) || ((e.flags & constraint_row_flag_rolling_friction) && e.rolling.friction_coefficient != m[k][i].first) || ((e.flags & constraint_row_flag_spinning_friction) && e.spinning.friction_coefficient != m[k][i].first)) ok = false; ++i; }); if (!ok || i != m[k].size()) { c.fail("prep-consume", "rows of constraint %d come back altered, lost or out of order", k); return; } c.event("constraints"); } pc.clear(); if (pc.num_rows || pc.num_constraints) c.fail("prep-clear", "not empty after clear"); } row_cache rc; rc.rows.resize(3); rc.flags.resize(3); rc.con_num_rows.resize(1); rc.friction.resize(1); rc.rolling.resize(1); rc.spinning.resize(1); rc.clear(); if (!rc.rows.empty() || !rc.flags.empty() || !rc.con_num_rows.empty() || !rc.friction.empty() || !rc.rolling.empty() || !rc.spinning.empty()) c.fail("cache-clear", "row cache not empty after clear"); c.hit(h);
}
#endif
