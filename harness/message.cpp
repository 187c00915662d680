// VF_PART 1: message queues between threads. VF_PART 2: replication of one registry into another.
#if VF_PART == 1
#include "vf.hpp"
#include "delay.hpp"
#include <atomic>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include "edyn/parallel/message_dispatcher.hpp"
using namespace edyn;
// Three kinds of messages; all say who sent them, to whom and in which order.
struct head { uint32_t from, to, seq; };
struct small_msg { head h; };
struct text_msg { head h; std::string s; };
struct owner_msg { head h; std::shared_ptr<std::vector<uint32_t>> v; };
struct foreign_msg { head h; };
static std::string text(const head &h) { return std::string(h.seq % 70, 'a') + std::to_string(h.from) + ":" + std::to_string(h.seq); }
struct receiver {
    message_queue_handle<small_msg, text_msg, owner_msg> q; uint32_t id; std::vector<std::array<uint32_t, 3>> log; std::vector<std::string> bad; uint32_t replies = 0, reply_every = 0; message_dispatcher *d = nullptr; std::vector<std::string> *names = nullptr; std::atomic<uint32_t> *own = nullptr; bool inside = false;
    receiver(message_queue_handle<small_msg, text_msg, owner_msg> q, uint32_t id) : q(q), id(id) {}
    void take(int kind, const message_queue_identifier &s, const head &h) {
        if (h.to != id) bad.push_back(vf::fmt("a message for queue %u arrived at queue %u", h.to, id)); if (s.value != (*names)[h.from]) bad.push_back(vf::fmt("a message of %s says it comes from %s", (*names)[h.from].c_str(), s.value.c_str()));
        if (!inside) bad.push_back("a message was delivered outside of update"); log.push_back({(uint32_t)kind, h.from, h.seq});
        if (reply_every && h.from != id && log.size() % reply_every == 0) { auto n = own->fetch_add(1); ++replies; d->send<small_msg>({(*names)[id]}, {(*names)[id]}, head{id, id, n}); } // to itself, from within a handler
    }
    void on_small(message<small_msg> &m) { take(0, m.sender, m.content.h); }
    void on_text(message<text_msg> &m) { if (m.content.s != text(m.content.h)) bad.push_back("the text of a message changed"); take(1, m.sender, m.content.h); }
    void on_owner(message<owner_msg> &m) { auto &v = m.content.v; if (!v || v->size() != m.content.h.seq % 40 || (v->size() && v->back() != m.content.h.seq)) bad.push_back("the contents of a message changed"); take(2, m.sender, m.content.h); }
    void connect() { q.sink<small_msg>().connect<&receiver::on_small>(*this); q.sink<text_msg>().connect<&receiver::on_text>(*this); q.sink<owner_msg>().connect<&receiver::on_owner>(*this); }
    void update() { inside = true; q.update(); inside = false; }
};
struct bell { std::atomic<uint32_t> n{0}; void ring() { n.fetch_add(1); } };
static void deliver(vf::ctx &c, bool threads) {
    auto &r = c.r; auto d = std::make_unique<message_dispatcher>(); uint32_t nq = 1 + (uint32_t)r.below(4), ns = 1 + (uint32_t)r.below(5), per = 1 + (uint32_t)r.below(threads ? 120 : 60);
    std::vector<std::string> names; for (uint32_t i = 0; i < nq; ++i) names.push_back("queue" + std::to_string(i)); for (uint32_t i = 0; i < ns; ++i) names.push_back(r.chance(0.1) && i ? std::string(60, 's') + std::to_string(i) : "sender" + std::to_string(i)); // the source of a message need not be a queue
    std::vector<std::unique_ptr<receiver>> R; std::vector<std::unique_ptr<bell>> B; auto own = std::make_unique<std::atomic<uint32_t>[]>(nq);
    for (uint32_t i = 0; i < nq; ++i) { own[i] = 0; R.push_back(std::make_unique<receiver>(d->make_queue<small_msg, text_msg, owner_msg>(names[i]), i)); B.push_back(std::make_unique<bell>()); auto &x = *R.back(); if (x.q.identifier.value != names[i]) c.fail("msg-name", "queue %s calls itself %s", names[i].c_str(), x.q.identifier.value.c_str()); x.connect(); x.d = d.get(); x.names = &names; x.own = &own[i]; x.reply_every = r.chance(0.4) ? 2 + (uint32_t)r.below(9) : 0; x.q.push_sink().connect<&bell::ring>(*B.back()); }
    struct plan { uint32_t to; int kind; }; std::vector<std::vector<plan>> P(ns); std::vector<std::map<uint32_t, uint32_t>> want(ns); std::vector<uint32_t> rings(nq, 0); uint64_t h = nq * 31 + ns;
    for (uint32_t s = 0; s < ns; ++s) for (uint32_t k = 0; k < per; ++k) { plan p{(uint32_t)r.below(nq), (int)r.below(5)}; P[s].push_back(p); if (p.kind != 3) ++rings[p.to]; h = vf::mix(h ^ p.to * 7 ^ (uint64_t)p.kind); }
    auto send = [&](uint32_t s, size_t k, std::vector<uint32_t> &seq) { auto &p = P[s][k]; auto &n = seq[p.to]; message_queue_identifier src{names[nq + s]}, dst{names[p.to]};
        if (p.kind == 0) d->send<small_msg>(dst, src, head{nq + s, p.to, n++}); else if (p.kind == 1) { head x{nq + s, p.to, n++}; d->send<text_msg>(dst, src, text_msg{x, text(x)}); } else if (p.kind == 2) { head x{nq + s, p.to, n++}; auto v = std::make_shared<std::vector<uint32_t>>(x.seq % 40, x.seq); d->send<owner_msg>(dst, src, x, v); }
        else if (p.kind == 3) d->send<small_msg>({"nobody" + std::to_string(k)}, src, head{nq + s, p.to, 0}); else d->send<foreign_msg>(dst, src, head{nq + s, p.to, 0}); };
    std::vector<std::vector<uint32_t>> seqs(ns, std::vector<uint32_t>(nq, 0)); uint64_t updates = 0;
    if (threads) {
        vfdelay::seed = r.next(); static const int lv[] = {0, 5, 30, 120, 300}; vfdelay::enabled = lv[r.below(5)]; std::atomic<int> live{(int)ns}; std::atomic<uint64_t> ups{0}; std::vector<std::thread> T; bool late = r.chance(0.3);
        for (uint32_t i = 0; i < nq; ++i) T.emplace_back([&, i] { while (live.load() > 0) { R[i]->update(); ups++; if (late) std::this_thread::yield(); } R[i]->update(); });
        for (uint32_t s = 0; s < ns; ++s) T.emplace_back([&, s] { for (size_t k = 0; k < P[s].size(); ++k) send(s, k, seqs[s]); live.fetch_sub(1); });
        if (r.chance(0.4)) for (int k = 0; k < 20; ++k) (void)d->make_queue<foreign_msg>("extra" + std::to_string(k)); // queues may appear while others are in use
        for (auto &t : T) t.join(); vfdelay::enabled = 0; if (auto n = vfdelay::injected.exchange(0)) c.event("delays_injected", n); updates = ups;
    } else { std::vector<size_t> at(ns, 0); size_t left = (size_t)ns * per; while (left) { uint32_t s = (uint32_t)r.below(ns); if (at[s] < per) { send(s, at[s]++, seqs[s]); --left; } if (r.chance(0.1)) { R[r.below(nq)]->update(); ++updates; } if (r.chance(0.05)) { auto twin = d->make_queue<small_msg, text_msg, owner_msg>(names[r.below(nq)]); (void)twin; } } }
    for (int k = 0; k < 8; ++k) for (auto &x : R) x->update(); // answers to answers
    for (uint32_t i = 0; i < nq; ++i) {
        auto &x = *R[i]; for (auto &b : x.bad) c.fail("msg-content", "%s", b.c_str()); std::map<uint32_t, uint32_t> next; std::set<std::pair<uint32_t, uint32_t>> seen;
        for (auto &l : x.log) { if (!seen.insert({l[1], l[2]}).second) c.fail("msg-once", "message %u of %s was delivered twice", l[2], names[l[1]].c_str()); else if (l[2] != next[l[1]]) c.fail("msg-order", "message %u of %s arrived when %u was due", l[2], names[l[1]].c_str(), next[l[1]]); next[l[1]] = l[2] + 1; }
        for (uint32_t s = 0; s < ns; ++s) if (next[nq + s] != seqs[s][i]) c.fail("msg-lost", "%u messages of %s arrived at %s of %u sent", next[nq + s], names[nq + s].c_str(), names[i].c_str(), seqs[s][i]);
        if (next[i] != x.replies) c.fail("msg-lost", "%u of %u messages a handler sent to its own queue arrived", next[i], x.replies);
        if (B[i]->n != rings[i] + x.replies) c.fail("msg-signal", "%u messages were announced as pushed instead of %u", B[i]->n.load(), rings[i] + x.replies);
        size_t before = x.log.size(); x.update(); if (x.log.size() != before) c.fail("msg-once", "an update without new messages delivered some"); c.event("delivered", x.log.size()); c.event("replies", x.replies);
        uint64_t o = 0; for (auto &l : x.log) o = vf::mix(o ^ (l[1] * 1000003ull + l[2])); h = vf::mix(h ^ o);
    }
    c.event("updates", updates); c.hit(h); if (c.want_sample()) c.sample("%u senders x %u messages to %u queues, %llu updates meanwhile", ns, per, nq, (unsigned long long)updates);
}
VF_SECTION(one_thread, 150, 4000) { deliver(c, false); }
VF_SECTION(many_threads, 40, 1200) { deliver(c, true); }
#else
#include "fields.hpp"
#include <deque>
#include <set>
#include "edyn/edyn.hpp"
#include "edyn/comp/shared_comp.hpp"
#include "edyn/context/registry_operation_context.hpp"
#include "edyn/replication/registry_operation_builder.hpp"
#include "edyn/replication/registry_operation_observer.hpp"
F(island_AABB, x.min, x.max) F(island_resident, x.island_entity) F(origin, x.x, x.y, x.z)
using ent = entt::entity; static uint32_t U(ent e) { return (uint32_t)e; }
// What a registry is made of, listed independently of the library's own list.
using list_t = std::tuple<AABB, island_AABB, collision_filter, collision_exclusion, inertia, inertia_inv, inertia_world_inv, gravity, angvel, linvel, mass, mass_inv, material, position, orientation, contact_point, contact_point_list, contact_point_geometry, contact_point_material, contact_point_impulse, contact_point_spin_friction_impulse, contact_point_roll_friction_impulse, contact_manifold, contact_manifold_state, contact_manifold_with_restitution, clear_contact_manifold_tag, center_of_mass, origin, dynamic_tag, kinematic_tag, static_tag, procedural_tag, sleeping_tag, sleeping_disabled_tag, disabled_tag, external_tag, shape_index, island_resident, rigidbody_tag, constraint_tag, island_tag, rolling_tag, contact_started_tag, roll_direction, child_list, parent_comp, transient, null_constraint, contact_constraint, contact_extras_constraint, gravity_constraint, point_constraint, distance_constraint, soft_distance_constraint, hinge_constraint, generic_constraint, cone_constraint, cvjoint_constraint, sphere_shape, plane_shape, box_shape, capsule_shape, cylinder_shape, polyhedron_shape, compound_shape>;
constexpr size_t NL = std::tuple_size_v<list_t>;
template<class T> static const char *tname() { return __PRETTY_FUNCTION__ + sizeof("const char* tname() [with T = edyn::") - 1; }
template<class F, size_t... I> static void at_(size_t k, F f, std::index_sequence<I...>) { ((I == k ? f((std::tuple_element_t<I, list_t> *)nullptr) : (void)0), ...); }
template<class F> static void at(size_t k, F f) { at_(k, f, std::make_index_sequence<NL>{}); }
template<class F> static void each(F f) { for (size_t k = 0; k < NL; ++k) at(k, [&](auto *p) { f(k, p); }); }
template<class T, class = void> struct has_array : std::false_type {};
template<class T> struct has_array<T, std::void_t<decltype(std::declval<T>().body)>> : std::true_type {};
using content = std::map<size_t, std::string>; // component index -> its fields
using model_t = std::map<uint32_t, content>;   // entity of the source -> what the copy must hold
template<class T> static std::string write(T &x, std::function<uint32_t(ent)> id) { std::string s; V v; v.out = &s; v.id = std::move(id); v.one(x); return s; }
static void setup() { static bool done = false; if (done) return; done = true; entt::registry reg; auto cfg = init_config{}; cfg.execution_mode = execution_mode::sequential; attach(reg, cfg); detach(reg); }
struct source {
    entt::registry a; std::unique_ptr<registry_operation_builder> builder; std::unique_ptr<registry_operation_observer> obs; bool active = true; std::vector<ent> alive, dead; std::set<uint32_t> observed; model_t m; vf::rng &r; uint64_t h = 7; size_t ops = 0;
    explicit source(vf::rng &r) : r(r) { builder = make_reg_op_builder_default(a); obs = make_reg_op_observer_default(*builder); }
    template<class T> T value() { T x{}; V v; v.r = &r; bool strict = has_array<T>::value; v.pick = [&, strict](vf::rng &q) { if (!strict && q.chance(0.15)) return ent{entt::null}; if (!strict && !dead.empty() && q.chance(0.1)) return q.pick(dead); if (strict) { std::vector<ent> k; for (auto e : alive) if (m.count(U(e))) k.push_back(e); return k.empty() ? ent{entt::null} : q.pick(k); } return alive.empty() ? ent{entt::null} : q.pick(alive); };
        v.one(x); if constexpr (std::is_same_v<T, collision_exclusion>) { x = {}; std::vector<ent> k; for (auto e : alive) if (m.count(U(e))) k.push_back(e); for (size_t i = 0, n = r.below(5); i < n && !k.empty(); ++i) x.entity[i] = r.pick(k); } return x; }
    std::function<uint32_t(ent)> id() { return [this](ent e) { return m.count(U(e)) ? U(e) : 0xffffffffu; }; }
    bool seen(ent e) { return active && observed.count(U(e)); }
    void put(ent e, size_t k) { at(k, [&](auto *p) { using T = std::remove_pointer_t<decltype(p)>; if (a.all_of<T>(e)) return; auto x = value<T>(); if constexpr (std::is_empty_v<T>) a.emplace<T>(e); else a.emplace<T>(e, x); if (seen(e)) { ++ops; note_put<T>(e, k, x); } }); }
    template<class T> void note_put(ent e, size_t k, T &x) { auto it = m.find(U(e)); if (it != m.end() && !it->second.count(k)) it->second[k] = write(x, id()); }
    void change(ent e, size_t k) { at(k, [&](auto *p) { using T = std::remove_pointer_t<decltype(p)>; if (!a.all_of<T>(e)) return; if constexpr (!std::is_empty_v<T>) { auto x = value<T>(); if (r.chance(0.5)) a.replace<T>(e, x); else a.patch<T>(e, [&](auto &c) { c = x; }); if (seen(e)) { ++ops; auto it = m.find(U(e)); if (it != m.end() && it->second.count(k)) it->second[k] = write(x, id()); } } }); }
    void drop(ent e, size_t k) { at(k, [&](auto *p) { using T = std::remove_pointer_t<decltype(p)>; if (!a.all_of<T>(e)) return; a.remove<T>(e); if (seen(e)) { ++ops; auto it = m.find(U(e)); if (it != m.end()) it->second.erase(k); } }); }
    void observe(ent e) { obs->observe(e); observed.insert(U(e)); if (active) { ++ops; m.emplace(U(e), content{}); each([&](size_t k, auto *p) { using T = std::remove_pointer_t<decltype(p)>; if constexpr (std::is_empty_v<T>) { if (a.all_of<T>(e)) { ++ops; T x; note_put<T>(e, k, x); } } else if (auto *x = a.try_get<T>(e)) { ++ops; note_put<T>(e, k, *x); } }); } }
    void unobserve(ent e) { obs->unobserve(e); observed.erase(U(e)); if (active) { ++ops; m.erase(U(e)); } }
    void act() {
        int op = (int)r.below(20); h = vf::mix(h * 31 + (uint64_t)op);
        if (alive.empty() || op < 3) { ent e = a.create(); alive.push_back(e); for (size_t n = r.below(6); n; --n) put(e, r.below(NL)); if (r.chance(0.8)) observe(e); return; }
        ent e = r.pick(alive); bool on = observed.count(U(e));
        if (op < 8) put(e, r.below(NL)); else if (op < 13) { std::vector<size_t> k; each([&](size_t i, auto *p) { using T = std::remove_pointer_t<decltype(p)>; if (a.all_of<T>(e)) k.push_back(i); }); if (!k.empty()) { if (op < 11) change(e, r.pick(k)); else drop(e, r.pick(k)); } }
        else if (op == 13) { if (on) unobserve(e); else observe(e); } else if (op == 14) { if (on) unobserve(e); a.destroy(e); dead.push_back(e); alive.erase(std::find(alive.begin(), alive.end(), e)); }
        else if (op == 15 && r.chance(0.3)) { active = !active; obs->set_active(active); } else if (!on) observe(e); else change(e, r.below(NL));
    }
};
struct copy_t { entt::registry b; entity_map em; std::map<uint32_t, uint32_t> back; };
static void compare(vf::ctx &c, copy_t &t, const model_t &m) {
    size_t n = 0; t.em.each([&](ent, ent) { ++n; }); if (n != m.size()) c.fail("rep-entities", "the copy maps %zu entities instead of %zu", n, m.size());
    auto id = [&](ent e) { if (e == entt::null) return 0xffffffffu; auto it = t.back.find(U(e)); return it == t.back.end() ? 0xfffffffeu : it->second; }; size_t comps = 0;
    for (auto &[a, cont] : m) {
        ent e{a}; if (!t.em.contains(e)) { c.fail("rep-entities", "entity %u is missing in the copy", a); continue; } ent l = t.em.at(e); if (!t.b.valid(l)) { c.fail("rep-entities", "entity %u maps to an invalid one", a); continue; }
        if (!t.em.contains_local(l) || t.em.at_local(l) != e) c.fail("rep-map", "entity %u does not map back", a);
        each([&](size_t k, auto *p) { using T = std::remove_pointer_t<decltype(p)>; bool want = cont.count(k), got = t.b.all_of<T>(l); if (want != got) { c.fail("rep-presence", "%s %s in the copy", tname<T>(), want ? "is missing" : "should not be"); return; } if (!want) return; ++comps; if constexpr (!std::is_empty_v<T>) if (write(t.b.get<T>(l), id) != cont.at(k)) c.fail("rep-value", "%s differs in the copy", tname<T>()); });
    }
    size_t total = 0; each([&](size_t, auto *p) { using T = std::remove_pointer_t<decltype(p)>; auto v = t.b.view<T>(); for (auto e : v) { (void)e; ++total; } }); if (total != comps) c.fail("rep-presence", "the copy holds %zu components instead of %zu", total, comps);
    c.event("components_compared", comps);
}
VF_SECTION(replicate, 40, 2000) {
    setup(); auto &r = c.r; source s(r); copy_t t; struct parcel { registry_operation ops; model_t m; size_t n; }; std::deque<parcel> q; size_t steps = 20 + r.below(120);
    auto run = [&] { auto &p = q.front(); size_t called = 0; auto *first = p.ops.operations.empty() ? nullptr : p.ops.operations[0]; p.ops.execute(t.b, t.em, [&](operation_base *op) { if (called == 0 && op != first) c.fail("rep-callback", "the callback got another operation"); ++called; auto ty = op->operation_type(); if (ty == registry_operation_type::create && t.em.contains(op->entity)) t.back[U(t.em.at(op->entity))] = U(op->entity); if ((ty == registry_operation_type::create || ty == registry_operation_type::destroy) != op->payload_type_any_of<void>()) c.fail("rep-payload", "an operation misreports what it carries"); });
        if (called != p.ops.size() || p.ops.empty() != (called == 0)) c.fail("rep-callback", "%zu operations, %zu callbacks", p.ops.size(), called); if (p.ops.size() != p.n) c.fail("rep-ops", "%zu operations were recorded for %zu changes", p.ops.size(), p.n); c.event("operations", called); compare(c, t, p.m); q.pop_front(); };
    for (size_t i = 0; i < steps && !c.failed; ++i) {
        s.act();
        if (r.chance(0.2)) { if (s.builder->size() != s.ops) c.fail("rep-ops", "%zu operations were recorded for %zu changes", (size_t)s.builder->size(), s.ops); registry_operation o(s.builder->finish()); if (r.chance(0.3)) { registry_operation o2; if (r.chance(0.5)) { source other(r); for (int z = 0; z < 6; ++z) other.act(); o2 = other.builder->finish(); } o2 = std::move(o); o = std::move(o2); } if (!s.builder->empty()) c.fail("rep-finish", "operations are left after finish"); q.push_back({std::move(o), s.m, s.ops}); s.ops = 0; }
        while (!q.empty() && r.chance(0.3)) run();
    }
    registry_operation o; o = s.builder->finish(); q.push_back({std::move(o), s.m, s.ops}); while (!q.empty() && !c.failed) run();
    c.hit(s.h); c.event("entities", s.m.size()); if (c.want_sample()) c.sample("%zu steps, %zu entities at the end", steps, s.m.size());
}
// Operations put together by hand, then carried over to the other registry's own entities.
VF_SECTION(by_hand, 30, 1500) {
    setup(); auto &r = c.r; source s(r); s.active = false; s.obs->set_active(false); auto &b = *s.builder; size_t n = 2 + r.below(12); std::vector<ent> es; for (size_t i = 0; i < n; ++i) { ent e = s.a.create(); es.push_back(e); s.alive.push_back(e); s.m[U(e)]; } bool remap = r.chance(0.5);
    copy_t t; if (remap) { for (size_t k = r.below(5); k; --k) { auto x = t.b.create(); if (r.chance(0.5)) t.b.destroy(x); } for (auto e : es) { auto l = t.b.create(); t.em.insert(e, l); t.back[U(l)] = U(e); } }
    std::set<uint32_t> created; size_t want = 0; model_t m; auto id = [&](ent e) { return m.count(U(e)) ? U(e) : 0xffffffffu; };
    if (!remap) { std::vector<ent> k; for (auto e : es) if (r.chance(0.85)) k.push_back(e); if (r.chance(0.5)) b.create(k.begin(), k.end()); else for (auto e : k) b.create(e); want += k.size(); for (auto e : k) m[U(e)]; } else for (auto e : es) m[U(e)];
    for (size_t step = 4 + r.below(30); step; --step) at(r.below(NL), [&](auto *p) {
        using T = std::remove_pointer_t<decltype(p)>; size_t k = 0; each([&](size_t i, auto *q) { if (std::is_same_v<decltype(q), decltype(p)>) k = i; }); std::vector<ent> sub; for (auto e : es) if (r.chance(0.5)) sub.push_back(e); int how = (int)r.below(4), op = (int)r.below(3); s.h = vf::mix(s.h * 31 + (uint64_t)(k * 16 + how * 4 + op));
        auto val = [&](ent e) { if constexpr (!std::is_empty_v<T>) return write(s.a.get<T>(e), id); else return std::string{}; };
        if (op < 2) { for (auto e : sub) { auto x = s.value<T>(); if constexpr (std::is_empty_v<T>) { if (!s.a.all_of<T>(e)) s.a.emplace<T>(e); } else s.a.emplace_or_replace<T>(e, x); } if (how == 3) { sub.clear(); for (auto e : es) if (s.a.all_of<T>(e)) sub.push_back(e); } }
        else if (how == 3) { sub.clear(); for (auto e : es) if (s.a.all_of<T>(e)) sub.push_back(e); }
        auto tid = entt::type_id<T>().hash();
        if (op == 0) { if (how == 0) b.emplace<T>(sub.begin(), sub.end()); else if (how == 1) for (auto e : sub) b.emplace<T>(e); else if (how == 2) for (auto e : sub) b.emplace_type_id(e, tid); else b.emplace<T>(); for (auto e : sub) if (m.count(U(e))) m[U(e)].emplace(k, val(e)); }
        else if (op == 1) { if (how == 0) b.replace<T>(sub.begin(), sub.end()); else if (how == 1) for (auto e : sub) b.replace<T>(e); else if (how == 2) for (auto e : sub) b.replace_type_id(e, tid); else b.replace<T>(); if (!std::is_empty_v<T>) for (auto e : sub) if (m.count(U(e)) && m[U(e)].count(k)) m[U(e)][k] = val(e); }
        else { if (how == 0) b.remove<T>(sub.begin(), sub.end()); else if (how == 1) for (auto e : sub) b.remove<T>(e); else if (how == 2) for (auto e : sub) b.remove_type_id(e, tid); else b.remove<T>(); for (auto e : sub) if (m.count(U(e))) m[U(e)].erase(k); }
        want += sub.size(); });
    if (!remap) { std::vector<ent> gone; for (auto e : es) if (r.chance(0.2)) gone.push_back(e); if (r.chance(0.5)) b.destroy(gone.begin(), gone.end()); else for (auto e : gone) b.destroy(e); want += gone.size(); for (auto e : gone) m.erase(U(e)); }
    if (b.size() != want) c.fail("rep-ops", "%zu operations instead of %zu", (size_t)b.size(), want); registry_operation ops(b.finish());
    if (remap) { ops.remap(t.em); ops.execute(t.b); } else ops.execute(t.b, t.em, [&](operation_base *op) { if (op->operation_type() == registry_operation_type::create && t.em.contains(op->entity)) t.back[U(t.em.at(op->entity))] = U(op->entity); });
    compare(c, t, m);
    // Mappings announced by the other side.
    if (!remap) { copy_t u; std::map<uint32_t, uint32_t> mp; std::vector<ent> loc; for (auto e : es) { auto l = u.b.create(); loc.push_back(l); b.add_entity_mapping(e, l); if (r.chance(0.2)) { u.b.destroy(l); } else mp[U(e)] = U(l); } registry_operation o(b.finish()); o.execute(u.b, u.em); o.execute(u.b, u.em); size_t k = 0; u.em.each([&](ent x, ent l) { ++k; if (!mp.count(U(x)) || mp[U(x)] != U(l)) c.fail("rep-map", "an announced mapping differs"); }); if (k != mp.size()) c.fail("rep-map", "%zu mappings instead of %zu", k, mp.size()); c.event("mappings", k); }
    c.hit(s.h); c.event(remap ? "remapped" : "executed"); if (c.want_sample()) c.sample("%zu operations on %zu entities%s", want, n, remap ? ", remapped" : "");
}
VF_SECTION(entity_maps, 200, 8000) {
    auto &r = c.r; entity_map em; std::map<uint32_t, uint32_t> m; uint64_t h = 3; for (int k = 0; k < 60; ++k) {
        int op = (int)r.below(10); h = vf::mix(h * 31 + (uint64_t)op); auto pick = [&] { auto it = m.begin(); std::advance(it, r.below(m.size())); return *it; };
        if (op < 5 || m.empty()) { uint32_t x = (uint32_t)r.below(40), y = 100 + (uint32_t)r.below(40); bool used = m.count(x); for (auto &p : m) used |= p.second == y; if (!used) { em.insert(ent{x}, ent{y}); m[x] = y; } }
        else if (op == 5) { auto p = pick(); em.erase(ent{p.first}); m.erase(p.first); } else if (op == 6) { auto p = pick(); em.erase_local(ent{p.second}); m.erase(p.first); } else if (op == 7) { uint32_t k3 = (uint32_t)r.below(7); bool loc = r.chance(0.5); em.erase_if([&](ent a, ent b) { return (loc ? U(b) : U(a)) % 7 == k3; }); for (auto it = m.begin(); it != m.end();) it = (loc ? it->second : it->first) % 7 == k3 ? m.erase(it) : std::next(it); }
        else if (op == 8 && r.chance(0.1)) { em.clear(); m.clear(); } else if (op == 9) { em.swap(); std::map<uint32_t, uint32_t> n; for (auto &p : m) n[p.second] = p.first; std::map<uint32_t, uint32_t> got; em.each([&](ent a, ent b) { got[U(a)] = U(b); }); if (got != n) c.fail("map-swap", "the swapped map differs"); em.swap(); }
        std::map<uint32_t, uint32_t> got; em.each([&](ent a, ent b) { if (!got.emplace(U(a), U(b)).second) c.fail("map-each", "a pair was visited twice"); }); if (got != m) c.fail("map-each", "the map differs: %zu pairs instead of %zu", got.size(), m.size());
        for (uint32_t x = 0; x < 40; ++x) { bool w = m.count(x), l = false; uint32_t o = 0; for (auto &p : m) if (p.second == 100 + x) { l = true; o = p.first; } if (em.contains(ent{x}) != w || em.contains_local(ent{100 + x}) != l) c.fail("map-contains", "contains differs"); else { if (w && U(em.at(ent{x})) != m[x]) c.fail("map-at", "at differs"); if (l && U(em.at_local(ent{100 + x})) != o) c.fail("map-at", "at_local differs"); } }
    } c.hit(h); c.event("maps");
}
#endif
