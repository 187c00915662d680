// A small stand-in for the part of EnTT (3.12+) that edyn uses, written for
// these monitors because EnTT itself is not available in this sandbox. It
// keeps EnTT's observable contract: versioned entities recycled LIFO, packed
// sparse sets with swap-and-pop (or in-place) deletion and reverse iteration,
// paged component storage (references survive growth), signals published
// after construction/update and before destruction, read-only lookups that
// never write. Beyond EnTT it checks misuse: access to absent components,
// duplicate insertion, invalid entities and stale iterators abort, and the
// slots of destroyed components are poisoned under AddressSanitizer.
#ifndef MINIENTT_HPP
#define MINIENTT_HPP
#include <algorithm>
#include <array>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iterator>
#include <map>
#include <memory>
#include <set>
#include <new>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define MENTT_POISON(p, n) __asan_poison_memory_region((p), (n))
#define MENTT_UNPOISON(p, n) __asan_unpoison_memory_region((p), (n))
#else
#define MENTT_POISON(p, n) ((void)0)
#define MENTT_UNPOISON(p, n) ((void)0)
#endif
#define MENTT_CHECK(c, m) ((c) ? (void)0 : ::entt::internal::misuse(__FILE__, __LINE__, m))

namespace entt {
namespace internal {
[[noreturn]] inline void misuse(const char *f, int l, const char *m) {
    fprintf(stderr, "%s:%d: entt: Assertion `%s' failed.\n", f, l, m); fflush(stderr); abort();
}
}
using id_type = std::uint32_t;
struct identity { template<class T> constexpr T &&operator()(T &&v) const noexcept { return std::forward<T>(v); } };

// ---- type information -------------------------------------------------
namespace internal {
constexpr id_type fnv(const char *s, std::size_t n) { id_type h = 2166136261u; for (std::size_t i = 0; i < n; ++i) h = (h ^ (id_type)(unsigned char)s[i]) * 16777619u; return h; }
template<class T> constexpr std::string_view pretty() { return std::string_view{__PRETTY_FUNCTION__}; }
}
template<class T, class = void> struct type_hash { static constexpr id_type value() noexcept { constexpr auto s = internal::pretty<T>(); return internal::fnv(s.data(), s.size()); } constexpr operator id_type() const noexcept { return value(); } };
struct type_info {
    id_type h; std::string_view n;
    constexpr id_type hash() const noexcept { return h; }
    constexpr id_type index() const noexcept { return h; }
    constexpr std::string_view name() const noexcept { return n; }
};
inline bool operator==(const type_info &a, const type_info &b) { return a.h == b.h; }
inline bool operator!=(const type_info &a, const type_info &b) { return a.h != b.h; }
inline bool operator<(const type_info &a, const type_info &b) { return a.h < b.h; }
template<class T> const type_info &type_id() noexcept { static const type_info i{type_hash<std::remove_cv_t<std::remove_reference_t<T>>>::value(), internal::pretty<T>()}; return i; }

struct hashed_string { id_type h; const char *s; constexpr operator id_type() const { return h; } constexpr id_type value() const { return h; } constexpr const char *data() const { return s; } };
inline namespace literals { constexpr hashed_string operator""_hs(const char *s, std::size_t n) { return {internal::fnv(s, n), s}; } }

template<class... T> struct type_list { using type = type_list; static constexpr auto size = sizeof...(T); };

// ---- entities ----------------------------------------------------------
enum class entity : std::uint32_t {};
template<class E> struct entt_traits {
    using value_type = E; using entity_type = std::uint32_t; using version_type = std::uint16_t;
    static constexpr entity_type entity_mask = 0xFFFFF, version_mask = 0xFFF; static constexpr std::size_t length = 20;
    static constexpr entity_type to_integral(E e) { return static_cast<entity_type>(e); }
    static constexpr entity_type to_entity(E e) { return to_integral(e) & entity_mask; }
    static constexpr version_type to_version(E e) { return (version_type)(to_integral(e) >> length); }
    static constexpr E construct(entity_type i, version_type v) { return E((i & entity_mask) | ((entity_type)v << length)); }
};
constexpr std::uint32_t to_integral(entity e) { return static_cast<std::uint32_t>(e); }
constexpr std::uint32_t to_entity(entity e) { return entt_traits<entity>::to_entity(e); }
constexpr std::uint16_t to_version(entity e) { return entt_traits<entity>::to_version(e); }
struct null_t {
    constexpr operator entity() const { return entity{0xFFFFFFFFu}; }
    constexpr bool operator==(null_t) const { return true; }
    constexpr bool operator!=(null_t) const { return false; }
};
constexpr bool operator==(null_t, entity e) { return to_entity(e) == 0xFFFFF; }
constexpr bool operator==(entity e, null_t n) { return n == e; }
constexpr bool operator!=(null_t n, entity e) { return !(n == e); }
constexpr bool operator!=(entity e, null_t n) { return !(n == e); }
inline constexpr null_t null{};
struct tombstone_t { constexpr operator entity() const { return entity{0xFFFFFFFFu}; } };
constexpr bool operator==(tombstone_t, entity e) { return to_version(e) == 0xFFF; }
constexpr bool operator==(entity e, tombstone_t t) { return t == e; }
constexpr bool operator!=(tombstone_t t, entity e) { return !(t == e); }
constexpr bool operator!=(entity e, tombstone_t t) { return !(t == e); }
inline constexpr tombstone_t tombstone{};

// ---- delegates and signals ----------------------------------------------
template<auto> struct connect_arg_t { explicit connect_arg_t() = default; };
template<auto C> inline constexpr connect_arg_t<C> connect_arg{};
template<class> class delegate;
namespace internal {
template<class F> struct fn_sig;
template<class R, class... A> struct fn_sig<R (*)(A...)> { using args = type_list<A...>; using ret = R; };
template<class R, class... A> struct fn_sig<R (*)(A...) noexcept> { using args = type_list<A...>; using ret = R; };
template<class R, class C, class... A> struct fn_sig<R (C::*)(A...)> { using args = type_list<A...>; using ret = R; using cls = C; };
template<class R, class C, class... A> struct fn_sig<R (C::*)(A...) const> { using args = type_list<A...>; using ret = R; using cls = C; };
template<class R, class C, class... A> struct fn_sig<R (C::*)(A...) noexcept> { using args = type_list<A...>; using ret = R; using cls = C; };
template<class R, class C, class... A> struct fn_sig<R (C::*)(A...) const noexcept> { using args = type_list<A...>; using ret = R; using cls = C; };
template<class F, class P> struct payload_sig;
template<class R, class X, class... A, class P> struct payload_sig<R (*)(X, A...), P> { using type = R(A...); };
template<class R, class C, class... A, class P> struct payload_sig<R (C::*)(A...), P> { using type = R(A...); };
template<class R, class C, class... A, class P> struct payload_sig<R (C::*)(A...) const, P> { using type = R(A...); };
template<class Ret, auto C, class... Bound, class Tuple, std::size_t... I> Ret call_n(Tuple &t, std::index_sequence<I...>, Bound &&...b) {
    if constexpr (std::is_void_v<Ret>) std::invoke(C, std::forward<Bound>(b)..., std::forward<std::tuple_element_t<I, Tuple>>(std::get<I>(t))...);
    else return Ret(std::invoke(C, std::forward<Bound>(b)..., std::forward<std::tuple_element_t<I, Tuple>>(std::get<I>(t))...));
}
template<class F, class Bound, class Tuple, class Seq> struct inv;
template<class F, class... B, class Tuple, std::size_t... I> struct inv<F, type_list<B...>, Tuple, std::index_sequence<I...>> { static constexpr bool value = std::is_invocable_v<F, B..., std::tuple_element_t<I, Tuple>...>; };
template<class F, class Bound, class Tuple, std::size_t N> constexpr std::size_t best() {
    if constexpr (inv<F, Bound, Tuple, std::make_index_sequence<N>>::value) return N;
    else { static_assert(N > 0, "candidate cannot be connected"); return best<F, Bound, Tuple, N - 1>(); }
}
}
template<class Ret, class... Args> class delegate<Ret(Args...)> {
    using proto = Ret(const void *, Args...);
    const void *m_instance{}; proto *m_fn{};
public:
    using function_type = Ret(const void *, Args...); using type = Ret(Args...); using result_type = Ret;
    delegate() = default;
    template<auto C> delegate(connect_arg_t<C>) { connect<C>(); }
    template<auto C, class T> delegate(connect_arg_t<C>, T &&v) { connect<C>(std::forward<T>(v)); }
    delegate(function_type *f, const void *p = nullptr) { m_fn = f; m_instance = p; }
    template<auto C> void connect() noexcept {
        m_instance = nullptr;
        m_fn = [](const void *, Args... a) -> Ret { using T = std::tuple<Args &&...>; T t(std::forward<Args>(a)...); return internal::call_n<Ret, C>(t, std::make_index_sequence<internal::best<decltype(C), type_list<>, std::tuple<Args...>, sizeof...(Args)>()>{}); };
    }
    template<auto C, class P> void connect(P &v) noexcept {
        m_instance = (const void *)std::addressof(v);
        m_fn = [](const void *p, Args... a) -> Ret { P &q = *static_cast<P *>(const_cast<std::remove_const_t<P> *>(static_cast<const std::remove_const_t<P> *>(p))); using T = std::tuple<Args &&...>; T t(std::forward<Args>(a)...); return internal::call_n<Ret, C, P &>(t, std::make_index_sequence<internal::best<decltype(C), type_list<P &>, std::tuple<Args...>, sizeof...(Args)>()>{}, q); };
    }
    template<auto C, class P> void connect(P *v) noexcept {
        m_instance = (const void *)v;
        m_fn = [](const void *p, Args... a) -> Ret { P *q = static_cast<P *>(const_cast<std::remove_const_t<P> *>(static_cast<const std::remove_const_t<P> *>(p))); using T = std::tuple<Args &&...>; T t(std::forward<Args>(a)...); return internal::call_n<Ret, C, P *>(t, std::make_index_sequence<internal::best<decltype(C), type_list<P *>, std::tuple<Args...>, sizeof...(Args)>()>{}, std::move(q)); };
    }
    void connect(function_type *f, const void *p = nullptr) noexcept { m_fn = f; m_instance = p; }
    void reset() noexcept { m_instance = nullptr; m_fn = nullptr; }
    const void *data() const noexcept { return m_instance; }
    Ret operator()(Args... a) const { MENTT_CHECK(m_fn, "delegate is not empty"); return m_fn(m_instance, std::forward<Args>(a)...); }
    explicit operator bool() const noexcept { return m_fn != nullptr; }
    bool operator==(const delegate &o) const noexcept { return m_fn == o.m_fn && m_instance == o.m_instance; }
    bool operator!=(const delegate &o) const noexcept { return !(*this == o); }
};
template<auto C> delegate(connect_arg_t<C>) -> delegate<typename internal::payload_sig<decltype(C), void>::type>;
template<auto C, class T> delegate(connect_arg_t<C>, T &&) -> delegate<typename internal::payload_sig<decltype(C), T>::type>;

template<class> class sigh;
template<class> class sink;
template<class Ret, class... Args> class sigh<Ret(Args...)> {
    friend class sink<sigh<Ret(Args...)>>;
    std::vector<delegate<Ret(Args...)>> calls;
public:
    using size_type = std::size_t; using sink_type = sink<sigh<Ret(Args...)>>;
    bool empty() const noexcept { return calls.empty(); }
    size_type size() const noexcept { return calls.size(); }
    void publish(Args... args) const {
#ifdef MINIENTT_FORWARD_SIGNALS
        for (std::size_t i = 0; i < calls.size(); ++i) { auto f = calls[i]; f(args...); }
#else
        for (auto pos = calls.size(); pos; --pos) { if (pos > calls.size()) continue; auto f = calls[pos - 1]; f(args...); }
#endif
    }
};
class connection {
    template<class> friend class sink;
    delegate<void(void *)> disc{}; void *signal{};
    connection(delegate<void(void *)> fn, void *ref) : disc{fn}, signal{ref} {}
public:
    connection() = default;
    explicit operator bool() const noexcept { return static_cast<bool>(disc); }
    void release() { if (disc) { disc(signal); disc.reset(); } }
};
struct scoped_connection {
    scoped_connection() = default;
    scoped_connection(const connection &o) : conn{o} {}
    scoped_connection(const scoped_connection &) = delete;
    scoped_connection(scoped_connection &&o) noexcept : conn{std::exchange(o.conn, {})} {}
    ~scoped_connection() { conn.release(); }
    scoped_connection &operator=(const scoped_connection &) = delete;
    scoped_connection &operator=(scoped_connection &&o) noexcept { conn = std::exchange(o.conn, {}); return *this; }
    scoped_connection &operator=(connection o) { conn = std::move(o); return *this; }
    explicit operator bool() const noexcept { return static_cast<bool>(conn); }
    void release() { conn.release(); }
private:
    connection conn;
};
template<class Ret, class... Args> class sink<sigh<Ret(Args...)>> {
    using signal_type = sigh<Ret(Args...)>;
    signal_type *signal;
    template<auto C> static void release_free(void *s) { sink{*static_cast<signal_type *>(s)}.template disconnect<C>(); }
    template<auto C, class T> static void release_bound(T &v, void *s) { sink{*static_cast<signal_type *>(s)}.template disconnect<C>(v); }
    void erase(const delegate<Ret(Args...)> &d) { auto &c = signal->calls; c.erase(std::remove(c.begin(), c.end(), d), c.end()); }
public:
    sink() : signal{} {}
    sink(signal_type &s) : signal{&s} {}
    bool empty() const noexcept { return signal->calls.empty(); }
    template<auto C> connection connect() {
        disconnect<C>(); delegate<Ret(Args...)> d; d.template connect<C>(); signal->calls.push_back(d);
        delegate<void(void *)> r; r.template connect<&sink::template release_free<C>>(); return {r, signal};
    }
    template<auto C, class T> connection connect(T &v) {
        disconnect<C>(v); delegate<Ret(Args...)> d; d.template connect<C>(v); signal->calls.push_back(d);
        delegate<void(void *)> r; r.template connect<&sink::template release_bound<C, T>>(v); return {r, signal};
    }
    template<auto C> void disconnect() { delegate<Ret(Args...)> d; d.template connect<C>(); erase(d); }
    template<auto C, class T> void disconnect(T &v) { delegate<Ret(Args...)> d; d.template connect<C>(v); erase(d); }
    void disconnect(const void *p) { auto &c = signal->calls; c.erase(std::remove_if(c.begin(), c.end(), [p](auto &d) { return d.data() == p; }), c.end()); }
    void disconnect() { signal->calls.clear(); }
    explicit operator bool() const noexcept { return signal; }
};
template<class Ret, class... Args> sink(sigh<Ret(Args...)> &) -> sink<sigh<Ret(Args...)>>;

// ---- any ------------------------------------------------------------------
class any {
    struct base { virtual ~base() = default; virtual std::unique_ptr<base> clone() const = 0; virtual const type_info &type() const = 0; virtual void *ptr() = 0; };
    template<class T> struct box final : base {
        T v; template<class... A> explicit box(A &&...a) : v(make(std::forward<A>(a)...)) {} // elided: works for immovable values
        template<class... A> static T make(A &&...a) { if constexpr (std::is_aggregate_v<T> && (sizeof...(A) != 0 || !std::is_default_constructible_v<T>)) return T{std::forward<A>(a)...}; else return T(std::forward<A>(a)...); }
        std::unique_ptr<base> clone() const override { if constexpr (std::is_copy_constructible_v<T>) return std::make_unique<box>(v); else return nullptr; }
        const type_info &type() const override { return type_id<T>(); } void *ptr() override { return &v; }
    };
    std::unique_ptr<base> m;
public:
    any() = default;
    template<class T, class... A> explicit any(std::in_place_type_t<T>, A &&...a) : m(new box<T>(std::forward<A>(a)...)) {}
    template<class T, class = std::enable_if_t<!std::is_same_v<std::decay_t<T>, any>>> any(T &&v) : m(new box<std::decay_t<T>>(std::forward<T>(v))) {}
    any(const any &o) : m(o.m ? o.m->clone() : nullptr) {}
    any(any &&) noexcept = default;
    any &operator=(const any &o) { m = o.m ? o.m->clone() : nullptr; return *this; }
    any &operator=(any &&) noexcept = default;
    const type_info &type() const noexcept { return m ? m->type() : type_id<void>(); }
    void *data() { return m ? m->ptr() : nullptr; } const void *data() const { return m ? m->ptr() : nullptr; }
    explicit operator bool() const { return (bool)m; }
    void reset() { m.reset(); }
};
template<class T> T *any_cast(any *a) { return a && a->type() == type_id<T>() ? static_cast<T *>(a->data()) : nullptr; }
template<class T> const T *any_cast(const any *a) { return a && a->type() == type_id<T>() ? static_cast<const T *>(a->data()) : nullptr; }
template<class T> T any_cast(any &a) { auto *p = any_cast<std::remove_cv_t<std::remove_reference_t<T>>>(&a); MENTT_CHECK(p, "any_cast type"); return static_cast<T>(*p); }

// ---- maps -------------------------------------------------------------------
template<class K, class V, class H = std::hash<K>, class E = std::equal_to<K>> using dense_map = std::unordered_map<K, V, H, E>;

// ---- sparse sets --------------------------------------------------------------
class sparse_set;
enum class deletion_policy : std::uint8_t { swap_and_pop = 0, in_place = 1 };
class sparse_set {
    std::vector<std::uint32_t> m_sparse; // index + 1, 0: absent
    std::vector<entity> m_packed;
    std::vector<std::uint32_t> m_free; // in-place holes
    deletion_policy m_mode;
public:
    struct iterator {
        using value_type = entity; using pointer = const entity *; using reference = const entity &; using difference_type = std::ptrdiff_t; using iterator_category = std::random_access_iterator_tag;
        const std::vector<entity> *p{}; difference_type off{};
        iterator() = default; iterator(const std::vector<entity> &v, difference_type o) : p(&v), off(o) {}
        reference operator*() const { MENTT_CHECK(off > 0 && (std::size_t)off <= p->size(), "iterator in range of a sparse set"); return (*p)[(std::size_t)off - 1]; }
        pointer operator->() const { return &**this; }
        reference operator[](difference_type n) const { return *(*this + n); }
        iterator &operator++() { --off; return *this; } iterator operator++(int) { auto t = *this; --off; return t; }
        iterator &operator--() { ++off; return *this; } iterator operator--(int) { auto t = *this; ++off; return t; }
        iterator &operator+=(difference_type n) { off -= n; return *this; } iterator operator+(difference_type n) const { auto t = *this; t.off -= n; return t; }
        iterator &operator-=(difference_type n) { off += n; return *this; } iterator operator-(difference_type n) const { auto t = *this; t.off += n; return t; }
        difference_type operator-(const iterator &o) const { return o.off - off; }
        bool operator==(const iterator &o) const { return off == o.off; } bool operator!=(const iterator &o) const { return off != o.off; }
        bool operator<(const iterator &o) const { return off > o.off; } bool operator>(const iterator &o) const { return off < o.off; }
        bool operator<=(const iterator &o) const { return !(*this > o); } bool operator>=(const iterator &o) const { return !(*this < o); }
        difference_type index() const { return off - 1; }
    };
    using entity_type = entity; using const_iterator = iterator; using size_type = std::size_t; using value_type = entity;
    using reverse_iterator = std::reverse_iterator<iterator>;
    sparse_set(deletion_policy m = deletion_policy::swap_and_pop) : m_mode(m) {}
    sparse_set(sparse_set &&o) noexcept : m_sparse(std::move(o.m_sparse)), m_packed(std::move(o.m_packed)), m_free(std::move(o.m_free)), m_mode(o.m_mode) { o.m_sparse.clear(); o.m_packed.clear(); o.m_free.clear(); }
    sparse_set(const sparse_set &) = delete;
    sparse_set &operator=(const sparse_set &) = delete;
    sparse_set &operator=(sparse_set &&o) noexcept { m_sparse = std::move(o.m_sparse); m_packed = std::move(o.m_packed); m_free = std::move(o.m_free); m_mode = o.m_mode; o.m_sparse.clear(); o.m_packed.clear(); o.m_free.clear(); return *this; }
    virtual ~sparse_set() = default;
    deletion_policy policy() const { return m_mode; }
    bool contains(entity e) const { auto i = to_entity(e); return i < m_sparse.size() && m_sparse[i] && m_packed[m_sparse[i] - 1] == e; }
    size_type index(entity e) const { MENTT_CHECK(contains(e), "set contains entity"); return m_sparse[to_entity(e)] - 1; }
    entity at(size_type i) const { return i < m_packed.size() ? m_packed[i] : entity(null); }
    entity operator[](size_type i) const { MENTT_CHECK(i < m_packed.size(), "position is in bounds"); return m_packed[i]; }
    size_type size() const { return m_packed.size(); }
    bool empty() const { return m_packed.empty(); }
    const entity *data() const { return m_packed.data(); }
    void reserve(size_type n) { m_packed.reserve(n); }
    iterator begin() const { return {m_packed, (std::ptrdiff_t)m_packed.size()}; }
    iterator end() const { return {m_packed, 0}; }
    iterator cbegin() const { return begin(); } iterator cend() const { return end(); }
    reverse_iterator rbegin() const { return std::make_reverse_iterator(end()); } reverse_iterator rend() const { return std::make_reverse_iterator(begin()); }
    iterator find(entity e) const { return contains(e) ? iterator{m_packed, (std::ptrdiff_t)m_sparse[to_entity(e)]} : end(); }
    iterator push(entity e) { insert_entity(e); return find(e); }
    iterator emplace(entity e, const void * = nullptr) { return push(e); }
    template<class It, class = std::enable_if_t<!std::is_same_v<It, entity>>> iterator push(It f, It l) { for (; f != l; ++f) insert_entity(*f); return begin(); }
    void erase(entity e) { MENTT_CHECK(contains(e), "set contains entity"); pop(e); }
    template<class It, class = std::enable_if_t<!std::is_convertible_v<It, entity>>> void erase(It f, It l) { std::vector<entity> v(f, l); for (auto e : v) erase(e); }
    bool remove(entity e) { if (!contains(e)) return false; pop(e); return true; }
    template<class It, class = std::enable_if_t<!std::is_convertible_v<It, entity>>> size_type remove(It f, It l) { std::vector<entity> v(f, l); size_type n = 0; for (auto e : v) n += remove(e); return n; }
    void clear() { pop_all(); m_sparse.clear(); m_packed.clear(); m_free.clear(); }
    void swap_elements(entity a, entity b) { auto i = index(a), j = index(b); if (i == j) return; swap_at(i, j); std::swap(m_packed[i], m_packed[j]); m_sparse[to_entity(a)] = (std::uint32_t)j + 1; m_sparse[to_entity(b)] = (std::uint32_t)i + 1; }
    void compact() {}
    const type_info &type() const { return *m_info; }
    const type_info &info() const { return *m_info; }
    void swap(sparse_set &o) { std::swap(m_sparse, o.m_sparse); std::swap(m_packed, o.m_packed); std::swap(m_free, o.m_free); std::swap(m_mode, o.m_mode); }
    virtual void bind_registry(void *) {}
    template<class C> void sort(C cmp) {
        std::vector<entity> v(m_packed.begin(), m_packed.end()); std::stable_sort(v.rbegin(), v.rend(), cmp);
        for (size_type i = 0; i < v.size(); ++i) if (m_packed[i] != v[i]) swap_elements(m_packed[i], v[i]);
    }
protected:
    const type_info *m_info = &type_id<void>();
    size_type insert_entity(entity e) {
        MENTT_CHECK(e != null && !(e == tombstone), "entity can be inserted");
        MENTT_CHECK(!contains(e), "set does not contain entity");
        auto i = to_entity(e); if (i >= m_sparse.size()) m_sparse.resize(i + 1 + i / 2, 0);
        MENTT_CHECK(m_sparse[i] == 0, "slot available");
        if (!m_free.empty()) { auto pos = m_free.back(); m_free.pop_back(); m_packed[pos] = e; m_sparse[i] = pos + 1; return pos; }
        m_packed.push_back(e); m_sparse[i] = (std::uint32_t)m_packed.size(); return m_packed.size() - 1;
    }
    // component hooks: move the last element over pos / destroy in place
    virtual void pop_component(size_type pos, size_type last) { (void)pos; (void)last; }
    virtual void destroy_component(size_type pos) { (void)pos; }
    virtual void swap_at(size_type, size_type) {}
    void basic_pop(entity e) {
        auto pos = index(e); m_sparse[to_entity(e)] = 0;
        if (m_mode == deletion_policy::in_place) { m_packed[pos] = tombstone; m_free.push_back((std::uint32_t)pos); destroy_component(pos); return; }
        auto last = m_packed.size() - 1; auto le = m_packed[last];
        if (pos != last) { m_packed[pos] = le; m_sparse[to_entity(le)] = (std::uint32_t)pos + 1; }
        m_packed.pop_back(); pop_component(pos, last);
    }
    virtual void pop(entity e) { basic_pop(e); }
    void basic_pop_all() { for (size_type i = 0; i < m_packed.size(); ++i) if (!(m_packed[i] == tombstone)) destroy_component(i); m_packed.clear(); m_sparse.clear(); m_free.clear(); }
    virtual void pop_all() { basic_pop_all(); }
};

// ---- component storage ---------------------------------------------------------
namespace internal {
template<class T, class = void> struct in_place : std::bool_constant<!(std::is_move_constructible_v<T> && std::is_move_assignable_v<T>)> {};
template<class T> struct in_place<T, std::enable_if_t<T::in_place_delete>> : std::true_type {};
template<class T, class... A> T construct_value(A &&...a) { if constexpr (std::is_aggregate_v<T> && (sizeof...(A) != 0 || !std::is_default_constructible_v<T>)) return T{std::forward<A>(a)...}; else return T(std::forward<A>(a)...); }
template<class It> struct iterable { It b, e; It begin() const { return b; } It end() const { return e; } It cbegin() const { return b; } It cend() const { return e; } };
}
template<class T, class = void> class basic_storage_impl;
template<class T> class basic_storage_impl<T, std::enable_if_t<!std::is_empty_v<T>>> : public sparse_set {
    static constexpr std::size_t page = 128;
    std::vector<T *> m_pages;
    T *slot(std::size_t i) const { return m_pages[i / page] + i % page; }
    T *assure_slot(std::size_t i) {
        while (i / page >= m_pages.size()) { auto *p = static_cast<T *>(::operator new(sizeof(T) * page, std::align_val_t(alignof(T) < 8 ? 8 : alignof(T)))); MENTT_POISON(p, sizeof(T) * page); m_pages.push_back(p); }
        return slot(i);
    }
    void kill(std::size_t i) { auto *p = slot(i); p->~T(); MENTT_POISON(p, sizeof(T)); }
    void free_pages() { for (auto *p : m_pages) { MENTT_UNPOISON(p, sizeof(T) * page); ::operator delete(p, std::align_val_t(alignof(T) < 8 ? 8 : alignof(T))); } m_pages.clear(); }
protected:
    void pop_component(std::size_t pos, std::size_t last) override {
        if constexpr (std::is_move_constructible_v<T> && std::is_move_assignable_v<T>) {
            if (pos != last) { [[maybe_unused]] auto unused = std::exchange(*slot(pos), std::move(*slot(last))); }
        }
        kill(last);
    }
    void destroy_component(std::size_t pos) override { kill(pos); }
    void swap_at(std::size_t a, std::size_t b) override { if constexpr (std::is_move_constructible_v<T> && std::is_move_assignable_v<T>) std::swap(*slot(a), *slot(b)); }
public:
    using value_type = T; using element_type = T;
    static constexpr bool is_empty_type = false;
    basic_storage_impl() : sparse_set(internal::in_place<T>::value ? deletion_policy::in_place : deletion_policy::swap_and_pop) { m_info = &type_id<T>(); }
    basic_storage_impl(basic_storage_impl &&o) noexcept : sparse_set(std::move(o)), m_pages(std::move(o.m_pages)) { m_info = o.m_info; o.m_pages.clear(); }
    basic_storage_impl &operator=(basic_storage_impl &&o) noexcept { basic_pop_all(); free_pages(); sparse_set::operator=(std::move(o)); m_pages = std::move(o.m_pages); o.m_pages.clear(); return *this; }
    ~basic_storage_impl() override { basic_pop_all(); free_pages(); }
    T &get(entity e) { return *slot(index(e)); }
    const T &get(entity e) const { return *slot(index(e)); }
    std::tuple<T &> get_as_tuple(entity e) { return {get(e)}; }
    std::tuple<const T &> get_as_tuple(entity e) const { return {get(e)}; }
    template<class... A> T &emplace(entity e, A &&...a) {
        // arguments may alias stored elements: build before exposing
        auto pos = insert_entity(e); auto *p = assure_slot(pos); MENTT_UNPOISON(p, sizeof(T));
        if constexpr (std::is_aggregate_v<T> && (sizeof...(A) != 0 || !std::is_default_constructible_v<T>)) new (p) T{std::forward<A>(a)...}; else new (p) T(std::forward<A>(a)...);
        return *p;
    }
    template<class... F> T &patch(entity e, F &&...f) { auto &v = get(e); (std::forward<F>(f)(v), ...); return v; }
    template<class It> void insert(It f, It l, const T &v = {}) { for (; f != l; ++f) emplace(*f, v); }
    template<class It, class CIt, class = std::enable_if_t<std::is_same_v<typename std::iterator_traits<CIt>::value_type, T>>> void insert(It f, It l, CIt from) { for (; f != l; ++f, ++from) emplace(*f, *from); }
    template<class S, class V> struct each_it {
        using value_type = std::tuple<entity, V &>; using reference = value_type; using pointer = void; using difference_type = std::ptrdiff_t; using iterator_category = std::input_iterator_tag;
        S *s; sparse_set::iterator it; each_it &operator++() { ++it; return *this; } each_it operator++(int) { auto t = *this; ++it; return t; }
        value_type operator*() const { return {*it, s->get(*it)}; } bool operator==(const each_it &o) const { return it == o.it; } bool operator!=(const each_it &o) const { return it != o.it; }
    };
    auto each() { using I = each_it<basic_storage_impl, T>; return internal::iterable<I>{{this, sparse_set::begin()}, {this, sparse_set::end()}}; }
    auto each() const { using I = each_it<const basic_storage_impl, const T>; return internal::iterable<I>{{this, sparse_set::begin()}, {this, sparse_set::end()}}; }
};
template<class T> class basic_storage_impl<T, std::enable_if_t<std::is_empty_v<T>>> : public sparse_set {
public:
    using value_type = T; using element_type = void;
    static constexpr bool is_empty_type = true;
    basic_storage_impl() : sparse_set(internal::in_place<T>::value ? deletion_policy::in_place : deletion_policy::swap_and_pop) { m_info = &type_id<T>(); }
    basic_storage_impl(basic_storage_impl &&) noexcept = default; basic_storage_impl &operator=(basic_storage_impl &&) noexcept = default;
    void get(entity e) const { (void)index(e); }
    std::tuple<> get_as_tuple(entity) const { return {}; }
    template<class... A> void emplace(entity e, A &&...a) { [[maybe_unused]] auto v = internal::construct_value<T>(std::forward<A>(a)...); insert_entity(e); }
    template<class... F> void patch(entity e, F &&...f) { (void)index(e); (std::forward<F>(f)(), ...); }
    template<class It, class... A> void insert(It f, It l, A &&...) { for (; f != l; ++f) emplace(*f); }
    struct each_it { using value_type = std::tuple<entity>; using reference = value_type; using pointer = void; using difference_type = std::ptrdiff_t; using iterator_category = std::input_iterator_tag; sparse_set::iterator it; each_it &operator++() { ++it; return *this; } value_type operator*() const { return {*it}; } bool operator==(const each_it &o) const { return it == o.it; } bool operator!=(const each_it &o) const { return it != o.it; } };
    auto each() const { return internal::iterable<each_it>{{sparse_set::begin()}, {sparse_set::end()}}; }
};
template<class T> class storage : public basic_storage_impl<T> { public: using basic_storage_impl<T>::basic_storage_impl; };

class registry;
template<class T> class registry_storage final : public storage<T> {
    registry *m_owner{}; sigh<void(registry &, const entity)> m_construct, m_destroy, m_update;
    using super = storage<T>;
    void pop(entity e) override { if (!m_destroy.empty()) { m_destroy.publish(*m_owner, e); } if (this->contains(e)) this->basic_pop(e); }
    void pop_all() override {
        if (!m_destroy.empty()) for (auto pos = (std::ptrdiff_t)this->size() - 1; pos >= 0; --pos) { if ((std::size_t)pos >= this->size()) continue; auto e = (*this)[(std::size_t)pos]; if (!(e == tombstone)) m_destroy.publish(*m_owner, e); }
        this->basic_pop_all();
    }
public:
    void bind_registry(void *r) override { m_owner = static_cast<registry *>(r); }
    auto on_construct() { return sink{m_construct}; } auto on_update() { return sink{m_update}; } auto on_destroy() { return sink{m_destroy}; }
    template<class... A> decltype(auto) emplace(entity e, A &&...a) { super::emplace(e, std::forward<A>(a)...); m_construct.publish(*m_owner, e); return super::get(e); }
    template<class... F> decltype(auto) patch(entity e, F &&...f) { super::patch(e, std::forward<F>(f)...); m_update.publish(*m_owner, e); return super::get(e); }
    template<class It, class... A> void insert(It f, It l, A &&...a) { for (; f != l; ++f) emplace(*f, std::forward<A>(a)...); }
};

// ---- views ---------------------------------------------------------------------
template<class... T> struct get_t : type_list<T...> { explicit constexpr get_t() {} };
template<class... T> struct exclude_t : type_list<T...> { explicit constexpr exclude_t() {} };
template<class... T> inline constexpr exclude_t<T...> exclude{};
template<class... T> inline constexpr get_t<T...> get{};
template<class, class> class basic_view;
template<class... G, class... X> class basic_view<get_t<G...>, exclude_t<X...>> {
    template<class, class> friend class basic_view;
    static constexpr std::size_t NG = sizeof...(G), NX = sizeof...(X);
    std::tuple<G *...> m_pools{}; std::array<const sparse_set *, NX> m_filter{}; const sparse_set *m_lead{};
    template<class T> using nth = typename std::remove_const_t<T>::value_type;
    template<class T> static constexpr std::size_t index_of() { std::size_t i = 0, r = NG; ((std::is_same_v<nth<G>, std::remove_const_t<T>> && r == NG ? (void)(r = i, ++i) : (void)++i), ...); return r; }
    void refresh() { m_lead = nullptr; bool ok = true; std::apply([&](auto *...p) { ((ok = ok && p), ...); if (ok) ((m_lead = (!m_lead || p->size() < m_lead->size()) ? static_cast<const sparse_set *>(p) : m_lead), ...); }, m_pools); }
    template<class P> static auto tup(P *p, entity e) { return p->get_as_tuple(e); }
public:
    struct iterator {
        using value_type = entity; using pointer = const entity *; using reference = const entity &; using difference_type = std::ptrdiff_t; using iterator_category = std::forward_iterator_tag;
        const basic_view *dummy{}; sparse_set::iterator it{}, last{}; std::array<const sparse_set *, NG> pools{}; std::array<const sparse_set *, NX> filter{};
        bool ok() const { auto e = *it; if (e == tombstone) return false; for (auto *p : pools) if (!p->contains(e)) return false; for (auto *f : filter) if (f && f->contains(e)) return false; return true; }
        void seek() { while (it != last && !ok()) ++it; }
        iterator &operator++() { ++it; seek(); return *this; } iterator operator++(int) { auto t = *this; ++*this; return t; }
        reference operator*() const { return *it; } pointer operator->() const { return &*it; }
        bool operator==(const iterator &o) const { return it == o.it; } bool operator!=(const iterator &o) const { return it != o.it; }
    };
    using entity_type = entity; using size_type = std::size_t; using common_type = sparse_set;
    basic_view() = default;
    basic_view(G &...g, X &...x) : m_pools{&g...}, m_filter{&x...} { refresh(); }
    basic_view(std::tuple<G *...> p, std::array<const sparse_set *, NX> f) : m_pools(p), m_filter(f) { refresh(); }
    iterator begin() const { iterator i; if (!m_lead) return i; i.it = m_lead->begin(); i.last = m_lead->end(); std::size_t k = 0; std::apply([&](auto *...p) { ((i.pools[k++] = p), ...); }, m_pools); i.filter = m_filter; i.seek(); return i; }
    iterator end() const { iterator i; if (!m_lead) return i; i.it = i.last = m_lead->end(); return i; }
    bool contains(entity e) const { if (!m_lead) return false; bool r = true; std::apply([&](auto *...p) { ((r = r && p->contains(e)), ...); }, m_pools); for (auto *f : m_filter) if (f && f->contains(e)) r = false; return r; }
    size_type size_hint() const { return m_lead ? m_lead->size() : 0; }
    template<std::size_t N = NG, std::size_t M = NX, class = std::enable_if_t<N == 1 && M == 0>> size_type size() const { return m_lead ? m_lead->size() : 0; }
    template<std::size_t N = NG, std::size_t M = NX, class = std::enable_if_t<N == 1 && M == 0>> bool empty() const { return !m_lead || m_lead->empty(); }
    iterator find(entity e) const { if (!contains(e)) return end(); auto i = begin(); i.it = m_lead->find(e); return i; }
    entity front() const { auto i = begin(); return i == end() ? entity(null) : *i; }
    explicit operator bool() const { return m_lead; }
    template<class T> auto *storage() const { return std::get<index_of<T>()>(m_pools); }
    template<std::size_t I> auto *storage() const { return std::get<I>(m_pools); }
    template<class T, class... R> decltype(auto) get(entity e) const {
        if constexpr (sizeof...(R) == 0) { static_assert(index_of<T>() < NG, "type not in view"); MENTT_CHECK(std::get<index_of<T>()>(m_pools), "view storage exists"); return std::get<index_of<T>()>(m_pools)->get(e); }
        else return std::tuple_cat(tup(std::get<index_of<T>()>(m_pools), e), tup(std::get<index_of<R>()>(m_pools), e)...);
    }
    template<std::size_t I, std::size_t... J> decltype(auto) get(entity e) const {
        if constexpr (sizeof...(J) == 0) return std::get<I>(m_pools)->get(e);
        else return std::tuple_cat(tup(std::get<I>(m_pools), e), tup(std::get<J>(m_pools), e)...);
    }
    auto get(entity e) const { MENTT_CHECK(m_lead, "view has storages"); return std::apply([&](auto *...p) { return std::tuple_cat(tup(p, e)...); }, m_pools); }
    auto operator[](entity e) const { return get(e); }
    template<std::size_t N = NG, std::size_t M = NX, class = std::enable_if_t<N == 1 && M == 0>> auto *operator->() const { return std::get<0>(m_pools); }
    struct each_it {
        using value_type = decltype(std::tuple_cat(std::tuple<entity>{}, std::declval<G *>()->get_as_tuple(entity{})...)); using reference = value_type; using pointer = void; using difference_type = std::ptrdiff_t; using iterator_category = std::input_iterator_tag;
        iterator it; std::tuple<G *...> pools;
        each_it &operator++() { ++it; return *this; } each_it operator++(int) { auto t = *this; ++it; return t; }
        value_type operator*() const { auto e = *it; return std::apply([&](auto *...p) { return std::tuple_cat(std::tuple<entity>{e}, p->get_as_tuple(e)...); }, pools); }
        bool operator==(const each_it &o) const { return it == o.it; } bool operator!=(const each_it &o) const { return it != o.it; }
    };
    auto each() const { return internal::iterable<each_it>{{begin(), m_pools}, {end(), m_pools}}; }
    template<class F> void each(F f) const {
        for (auto i = begin(), l = end(); i != l; ++i) { auto e = *i; auto t = get(e); using TT = decltype(std::tuple_cat(std::tuple<entity>{}, t));
            if constexpr (is_app<F, TT>::value) std::apply(f, std::tuple_cat(std::tuple<entity>{e}, t)); else std::apply(f, t); }
    }
    template<class... G2, class... X2> auto operator|(const basic_view<get_t<G2...>, exclude_t<X2...>> &o) const {
        std::array<const sparse_set *, NX + sizeof...(X2)> f{}; std::copy(m_filter.begin(), m_filter.end(), f.begin()); std::copy(o.m_filter.begin(), o.m_filter.end(), f.begin() + NX);
        return basic_view<get_t<G..., G2...>, exclude_t<X..., X2...>>(std::tuple_cat(m_pools, o.m_pools), f);
    }
private:
    template<class F, class T> struct is_app; template<class F, class... A> struct is_app<F, std::tuple<A...>> : std::is_invocable<F, A...> {};
};

// ---- registry --------------------------------------------------------------------
namespace internal {
template<class A> class registry_context {
    std::map<id_type, any> m; // by type; copies are deep, values that cannot be copied are dropped
    template<class T> static id_type key() { return type_id<T>().hash(); }
public:
    explicit registry_context(const A & = A{}) {}
    template<class T, class... Args> T &emplace(Args &&...a) { auto &p = m[key<T>()]; if (!p) p = any(std::in_place_type_t<T>{}, std::forward<Args>(a)...); return *static_cast<T *>(p.data()); }
    template<class T> std::decay_t<T> &insert_or_assign(T &&v) { using D = std::decay_t<T>; auto &p = m[key<D>()]; p = any(std::in_place_type_t<D>{}, std::forward<T>(v)); return *static_cast<D *>(p.data()); }
    template<class T> bool erase() { return m.erase(key<T>()) > 0; }
    template<class T> T *find() { auto it = m.find(key<std::remove_const_t<T>>()); return it == m.end() ? nullptr : static_cast<T *>(it->second.data()); }
    template<class T> const T *find() const { auto it = m.find(key<std::remove_const_t<T>>()); return it == m.end() ? nullptr : static_cast<const T *>(it->second.data()); }
    template<class T> T &get() { auto *p = find<T>(); MENTT_CHECK(p, "context contains value"); return *p; }
    template<class T> const T &get() const { auto *p = find<T>(); MENTT_CHECK(p, "context contains value"); return *p; }
    template<class T> bool contains() const { return m.count(key<std::remove_const_t<T>>()) != 0; }
};
}
class registry {
    std::unordered_map<id_type, std::size_t> m_index; std::vector<std::unique_ptr<sparse_set>> m_pools;
    std::vector<entity> m_entities; std::vector<std::uint32_t> m_free; // versions are kept while dead
    std::vector<bool> m_alive;
public:
    using allocator_type = std::allocator<entity>; using entity_type = entity; using size_type = std::size_t; using common_type = sparse_set; using version_type = std::uint16_t;
    using context = internal::registry_context<allocator_type>;
    template<class T> using storage_for_type = std::conditional_t<std::is_const_v<T>, const registry_storage<std::remove_const_t<T>>, registry_storage<T>>;
private:
    context m_ctx{allocator_type{}};
    template<class T> storage_for_type<T> &assure() {
        using D = std::remove_const_t<T>; auto id = type_hash<D>::value(); auto it = m_index.find(id);
        if (it != m_index.end()) return static_cast<storage_for_type<D> &>(*m_pools[it->second]);
        m_index.emplace(id, m_pools.size()); m_pools.push_back(std::make_unique<storage_for_type<D>>()); m_pools.back()->bind_registry(this); return static_cast<storage_for_type<D> &>(*m_pools.back());
    }
    template<class T> const storage_for_type<std::remove_const_t<T>> *peek() const { auto it = m_index.find(type_hash<std::remove_const_t<T>>::value()); return it == m_index.end() ? nullptr : static_cast<const storage_for_type<std::remove_const_t<T>> *>(m_pools[it->second].get()); }
public:
    registry() = default;
    registry(registry &&o) noexcept : m_index(std::move(o.m_index)), m_pools(std::move(o.m_pools)), m_entities(std::move(o.m_entities)), m_free(std::move(o.m_free)), m_alive(std::move(o.m_alive)), m_ctx(std::move(o.m_ctx)) { for (auto &p : m_pools) p->bind_registry(this); }
    registry &operator=(registry &&o) noexcept { m_index = std::move(o.m_index); m_pools = std::move(o.m_pools); m_entities = std::move(o.m_entities); m_free = std::move(o.m_free); m_alive = std::move(o.m_alive); m_ctx = std::move(o.m_ctx); for (auto &p : m_pools) p->bind_registry(this); return *this; }
    ~registry() { m_ctx = context{allocator_type{}}; }
    context &ctx() { return m_ctx; } const context &ctx() const { return m_ctx; }
    bool valid(entity e) const { auto i = to_entity(e); return i < m_entities.size() && m_alive[i] && m_entities[i] == e; }
    version_type current(entity e) const { auto i = to_entity(e); return i < m_entities.size() ? to_version(m_entities[i]) : 0xFFF; }
    [[nodiscard]] entity create() {
        if (!m_free.empty()) { auto i = m_free.back(); m_free.pop_back(); m_alive[i] = true; return m_entities[i]; }
        auto i = (std::uint32_t)m_entities.size(); m_entities.push_back(entity{i}); m_alive.push_back(true); return m_entities.back();
    }
    template<class It> void create(It f, It l) { for (; f != l; ++f) *f = create(); }
    version_type destroy(entity e) {
        MENTT_CHECK(valid(e), "registry: entity is valid");
        for (auto i = m_pools.size(); i; --i) m_pools[i - 1]->remove(e);
        MENTT_CHECK(valid(e), "registry: entity destroyed while being destroyed");
        auto i = to_entity(e); auto v = (std::uint16_t)((to_version(e) + 1) & 0xFFF); if (v == 0xFFF) v = 0;
        m_entities[i] = entt_traits<entity>::construct(i, v); m_alive[i] = false; m_free.push_back(i); return v;
    }
    template<class It, class = std::enable_if_t<!std::is_convertible_v<It, entity>>> void destroy(It f, It l) { std::vector<entity> v(f, l); for (auto e : v) destroy(e); }
    size_type alive() const { return m_entities.size() - m_free.size(); }
    std::vector<entity> all_entities() const { std::vector<entity> v; for (std::size_t i = 0; i < m_entities.size(); ++i) if (m_alive[i]) v.push_back(m_entities[i]); return v; } // for monitors
    const std::vector<std::unique_ptr<sparse_set>> &all_pools() const { return m_pools; } // for monitors
    bool orphan(entity e) const { for (auto &p : m_pools) if (p->contains(e)) return false; return true; }
    template<class T> storage_for_type<T> &storage() { if constexpr (std::is_same_v<T, entity>) static_assert(!sizeof(T), "unsupported"); else return assure<T>(); }
    template<class T> const storage_for_type<std::remove_const_t<T>> *storage() const { return peek<T>(); }
    template<class T, class... A> decltype(auto) emplace(const entity e, A &&...a) { MENTT_CHECK(valid(e), "registry: entity is valid"); return assure<T>().emplace(e, std::forward<A>(a)...); }
    template<class T, class It> void insert(It f, It l, const T &v = {}) { assure<T>().insert(f, l, v); }
    template<class T, class... A> decltype(auto) replace(entity e, A &&...a) {
        if constexpr (std::is_empty_v<T>) return patch<T>(e); else return patch<T>(e, [&a...](auto &v) { v = internal::construct_value<T>(std::forward<A>(a)...); });
    }
    template<class T, class... A> decltype(auto) emplace_or_replace(entity e, A &&...a) { if (assure<T>().contains(e)) return replace<T>(e, std::forward<A>(a)...); return emplace<T>(e, std::forward<A>(a)...); }
    template<class T, class... F> decltype(auto) patch(entity e, F &&...f) { return assure<T>().patch(e, std::forward<F>(f)...); }
    template<class T, class... R> size_type remove(entity e) { return (size_type)assure<T>().remove(e) + ((size_type)assure<R>().remove(e) + ... + 0u); }
    template<class T, class... R, class It, class = std::enable_if_t<!std::is_convertible_v<It, entity>>> size_type remove(It f, It l) { size_type n = 0; std::vector<entity> v(f, l); for (auto e : v) n += remove<T, R...>(e); return n; }
    template<class T, class... R> void erase(entity e) { assure<T>().erase(e); (assure<R>().erase(e), ...); }
    template<class T, class... R, class It, class = std::enable_if_t<!std::is_convertible_v<It, entity>>> void erase(It f, It l) { std::vector<entity> v(f, l); for (auto e : v) erase<T, R...>(e); }
    template<class... T> bool all_of(entity e) const { return ([&] { auto *p = peek<T>(); return p && p->contains(e); }() && ...); }
    template<class... T> bool any_of(entity e) const { return ([&] { auto *p = peek<T>(); return p && p->contains(e); }() || ...); }
    template<class... T> decltype(auto) get(entity e) {
        if constexpr (sizeof...(T) == 1) return (assure<T>().get(e), ...); else return std::forward_as_tuple(get<T>(e)...);
    }
    template<class... T> decltype(auto) get(entity e) const {
        if constexpr (sizeof...(T) == 1) return (static_cast<const storage_for_type<std::remove_const_t<T>> &>(*checked<T>()).get(e), ...); else return std::forward_as_tuple(get<T>(e)...);
    }
    template<class T> const storage_for_type<std::remove_const_t<T>> *checked() const { auto *p = peek<T>(); MENTT_CHECK(p, "storage exists"); return p; }
    template<class T, class... A> decltype(auto) get_or_emplace(entity e, A &&...a) { if (assure<T>().contains(e)) return assure<T>().get(e); return emplace<T>(e, std::forward<A>(a)...); }
    template<class... T> auto try_get(entity e) {
        if constexpr (sizeof...(T) == 1) { auto f = [&](auto *p) { using P = decltype(&p->get(e)); return p->contains(e) ? &p->get(e) : P(nullptr); }; return (f(&assure<T>()), ...); } else return std::make_tuple(try_get<T>(e)...);
    }
    template<class... T> auto try_get(entity e) const {
        if constexpr (sizeof...(T) == 1) { auto f = [&](auto *p) { using P = decltype(&p->get(e)); return p && p->contains(e) ? &p->get(e) : P(nullptr); }; return (f(peek<T>()), ...); } else return std::make_tuple(try_get<T>(e)...);
    }
    template<class... T> void clear() {
        if constexpr (sizeof...(T) == 0) { for (auto i = m_pools.size(); i; --i) m_pools[i - 1]->clear(); for (std::size_t i = 0; i < m_entities.size(); ++i) if (m_alive[i]) destroy(m_entities[i]); }
        else (assure<T>().clear(), ...);
    }
    void compact() {}
    template<class T> auto on_construct() { return assure<T>().on_construct(); }
    template<class T> auto on_update() { return assure<T>().on_update(); }
    template<class T> auto on_destroy() { return assure<T>().on_destroy(); }
    template<class... T, class... X> basic_view<get_t<storage_for_type<T>...>, exclude_t<storage_for_type<X>...>> view(exclude_t<X...> = exclude_t<>{}) { return {std::tuple<storage_for_type<T> *...>(&assure<T>()...), std::array<const sparse_set *, sizeof...(X)>{&assure<X>()...}}; }
    template<class... T, class... X> basic_view<get_t<storage_for_type<const T>...>, exclude_t<storage_for_type<const X>...>> view(exclude_t<X...> = exclude_t<>{}) const { return {std::tuple<storage_for_type<const T> *...>(peek<T>()...), std::array<const sparse_set *, sizeof...(X)>{peek<X>()...}}; }
    template<class C, class Cmp> void sort(Cmp cmp) { auto &p = assure<C>(); if constexpr (std::is_invocable_v<Cmp, entity, entity>) p.sort(cmp); else p.sort([&](entity a, entity b) { return cmp(std::as_const(p).get(a), std::as_const(p).get(b)); }); }
};
template<class... T> using view = basic_view<get_t<registry::storage_for_type<T>...>, exclude_t<>>;

// ---- meta --------------------------------------------------------------------------
struct as_ref_t {}; struct as_is_t {}; struct as_cref_t {}; struct as_void_t {};
class meta_any; class meta_type; class meta_data; class meta_handle; class meta_sequence_container; class meta_associative_container;
namespace internal {
struct data_node { id_type id; struct type_node *(*type)(); void *(*get)(void *); void (*set)(void *, const void *); };
struct seq_ops { type_node *(*value)(); std::size_t (*size)(const void *); void *(*at)(void *, std::size_t); bool (*erase)(void *, std::size_t); bool (*clear)(void *); };
struct assoc_ops { type_node *(*key)(); type_node *(*mapped)(); std::size_t (*size)(const void *); void (*nth)(void *, std::size_t, const void **, void **); bool (*erase)(void *, const void *); };
struct type_node { const type_info *info; id_type id; bool registered = false; std::vector<data_node> data; const seq_ops *seq{}; const assoc_ops *assoc{}; void *(*clone)(const void *); void (*del)(void *); void (*assign)(void *, const void *); };
template<class T> struct is_seq : std::false_type {}; template<class T, class A> struct is_seq<std::vector<T, A>> : std::true_type { static constexpr bool dyn = true; }; template<class T, std::size_t N> struct is_seq<std::array<T, N>> : std::true_type { static constexpr bool dyn = false; };
template<class T> struct is_assoc : std::false_type {}; template<class K, class V, class... R> struct is_assoc<std::map<K, V, R...>> : std::true_type {}; template<class K, class V, class... R> struct is_assoc<std::unordered_map<K, V, R...>> : std::true_type {};
inline std::unordered_map<id_type, type_node *> &meta_types() { static auto *m = new std::unordered_map<id_type, type_node *>; return *m; }
template<class T> type_node *node() {
    static type_node *n = [] {
        auto *t = new type_node; t->info = &type_id<T>(); t->id = t->info->hash();
        if constexpr (std::is_copy_constructible_v<T>) t->clone = [](const void *p) -> void * { return new T(*static_cast<const T *>(p)); }; else t->clone = [](const void *) -> void * { return nullptr; };
        t->del = [](void *p) { delete static_cast<T *>(p); };
        if constexpr (std::is_copy_assignable_v<T>) t->assign = [](void *a, const void *b) { *static_cast<T *>(a) = *static_cast<const T *>(b); }; else t->assign = nullptr;
        if constexpr (is_seq<T>::value) {
            using V = typename T::value_type;
            static const seq_ops ops{&node<V>, [](const void *p) { return static_cast<const T *>(p)->size(); }, [](void *p, std::size_t i) -> void * { return &(*static_cast<T *>(p))[i]; },
                [](void *p, std::size_t i) { if constexpr (is_seq<T>::dyn) { auto &c = *static_cast<T *>(p); c.erase(c.begin() + (std::ptrdiff_t)i); return true; } else return false; },
                [](void *p) { if constexpr (is_seq<T>::dyn) { static_cast<T *>(p)->clear(); return true; } else return false; }};
            t->seq = &ops;
        }
        if constexpr (is_assoc<T>::value) {
            static const assoc_ops ops{&node<typename T::key_type>, &node<typename T::mapped_type>, [](const void *p) { return static_cast<const T *>(p)->size(); },
                [](void *p, std::size_t i, const void **k, void **v) { auto it = std::next(static_cast<T *>(p)->begin(), (std::ptrdiff_t)i); *k = &it->first; *v = &it->second; },
                [](void *p, const void *k) { return static_cast<T *>(p)->erase(*static_cast<const typename T::key_type *>(k)) > 0; }};
            t->assoc = &ops;
        }
        return t;
    }();
    return n;
}
template<class M> struct mem; template<class C, class V> struct mem<V C::*> { using cls = C; using val = V; };
}
class meta_type {
    internal::type_node *n{};
public:
    meta_type() = default; meta_type(internal::type_node *p) : n(p) {}
    explicit operator bool() const { return n; }
    bool operator==(const meta_type &o) const { return n == o.n; } bool operator!=(const meta_type &o) const { return n != o.n; }
    id_type id() const { return n ? n->id : 0; } const type_info &info() const { return *n->info; }
    bool is_sequence_container() const { return n && n->seq; } bool is_associative_container() const { return n && n->assoc; }
    inline std::vector<std::pair<id_type, meta_data>> data() const;
    internal::type_node *raw() const { return n; }
};
class meta_any {
    internal::type_node *n{}; void *p{}; bool own{};
public:
    meta_any() = default;
    meta_any(internal::type_node *t, void *q, bool o) : n(t), p(q), own(o) {}
    template<class T, class = std::enable_if_t<!std::is_same_v<std::decay_t<T>, meta_any>>> meta_any(T &&v) : n(internal::node<std::decay_t<T>>()), p(new std::decay_t<T>(std::forward<T>(v))), own(true) {}
    meta_any(const meta_any &o) : n(o.n), p(o.p ? o.n->clone(o.p) : nullptr), own(o.p) {}
    meta_any(meta_any &&o) noexcept : n(o.n), p(std::exchange(o.p, nullptr)), own(std::exchange(o.own, false)) {}
    meta_any &operator=(meta_any o) noexcept { std::swap(n, o.n); std::swap(p, o.p); std::swap(own, o.own); return *this; }
    ~meta_any() { if (own && p) n->del(p); }
    explicit operator bool() const { return p; }
    meta_type type() const { return {n}; }
    void *data() { return p; } const void *data() const { return p; }
    template<class T> T cast() { using D = std::remove_cv_t<std::remove_reference_t<T>>; MENTT_CHECK(p && n == internal::node<D>(), "meta_any holds the type"); return static_cast<T>(*static_cast<D *>(p)); }
    template<class T> T cast() const { using D = std::remove_cv_t<std::remove_reference_t<T>>; MENTT_CHECK(p && n == internal::node<D>(), "meta_any holds the type"); return static_cast<T>(*static_cast<D *>(p)); }
    inline meta_sequence_container as_sequence_container(); inline meta_associative_container as_associative_container();
};
class meta_handle {
    meta_any a;
public:
    meta_handle() = default;
    meta_handle(meta_any &v) : a(v.type().raw(), v.data(), false) {}
    template<class T, class = std::enable_if_t<!std::is_same_v<std::decay_t<T>, meta_handle> && !std::is_same_v<std::decay_t<T>, meta_any>>> explicit meta_handle(T &v) : a(internal::node<std::remove_const_t<T>>(), const_cast<std::remove_const_t<T> *>(&v), false) {}
    meta_any *operator->() { return &a; } explicit operator bool() const { return (bool)a; }
    void *ptr() { return a.data(); } meta_type type() const { return a.type(); }
};
class meta_data {
    internal::data_node n;
public:
    meta_data(internal::data_node d) : n(d) {}
    meta_type type() const { return {n.type()}; }
    meta_any get(meta_handle h) const { return {n.type(), n.get(h.ptr()), false}; }
    template<class T> bool set(meta_handle h, T &&v) const { MENTT_CHECK(internal::node<std::decay_t<T>>() == n.type(), "meta_data::set type"); n.set(h.ptr(), &v); return true; }
    explicit operator bool() const { return true; }
};
inline std::vector<std::pair<id_type, meta_data>> meta_type::data() const { std::vector<std::pair<id_type, meta_data>> r; if (n) for (auto &d : n->data) r.emplace_back(d.id, meta_data(d)); return r; }
class meta_sequence_container {
    internal::type_node *n{}; void *p{};
public:
    struct iterator {
        using difference_type = std::ptrdiff_t; using value_type = meta_any; using pointer = void; using reference = meta_any; using iterator_category = std::input_iterator_tag;
        internal::type_node *n{}; void *p{}; std::ptrdiff_t i{};
        iterator &operator++() { ++i; return *this; } iterator operator++(int) { auto t = *this; ++i; return t; } iterator &operator--() { --i; return *this; }
        reference operator*() const { return {n->seq->value(), n->seq->at(p, (std::size_t)i), false}; }
        explicit operator bool() const { return n; } bool operator==(const iterator &o) const { return p == o.p && i == o.i; } bool operator!=(const iterator &o) const { return !(*this == o); }
    };
    meta_sequence_container(internal::type_node *t, void *q) : n(t), p(q) {}
    meta_type value_type() const { return {n->seq->value()}; } std::size_t size() const { return n->seq->size(p); }
    meta_any operator[](std::size_t i) { return {n->seq->value(), n->seq->at(p, i), false}; }
    iterator begin() { return {n, p, 0}; } iterator end() { return {n, p, (std::ptrdiff_t)size()}; }
    iterator erase(iterator it) { return n->seq->erase(p, (std::size_t)it.i) ? it : iterator{}; }
    bool clear() { return n->seq->clear(p); } explicit operator bool() const { return n; }
};
class meta_associative_container {
    internal::type_node *n{}; void *p{};
public:
    struct iterator { internal::type_node *n; void *p; std::size_t i; iterator &operator++() { ++i; return *this; } bool operator!=(const iterator &o) const { return i != o.i; } bool operator==(const iterator &o) const { return i == o.i; }
        std::pair<meta_any, meta_any> operator*() const { const void *k; void *v; n->assoc->nth(p, i, &k, &v); return {meta_any(n->assoc->key(), const_cast<void *>(k), false), meta_any(n->assoc->mapped(), v, false)}; } };
    meta_associative_container(internal::type_node *t, void *q) : n(t), p(q) {}
    meta_type key_type() const { return {n->assoc->key()}; } meta_type mapped_type() const { return {n->assoc->mapped()}; } std::size_t size() const { return n->assoc->size(p); }
    iterator begin() { return {n, p, 0}; } iterator end() { return {n, p, size()}; }
    bool erase(const meta_any &k) { return n->assoc->erase(p, k.data()); } explicit operator bool() const { return n; }
};
inline meta_sequence_container meta_any::as_sequence_container() { return {n, p}; }
inline meta_associative_container meta_any::as_associative_container() { return {n, p}; }
template<class T> class meta_factory {
public:
    meta_factory() { auto *n = internal::node<T>(); if (!n->registered) { n->registered = true; internal::meta_types()[n->id] = n; } }
    meta_factory type(id_type id) { auto *n = internal::node<T>(); n->id = id; internal::meta_types()[id] = n; return *this; }
    template<auto D, class Policy = as_is_t> meta_factory data(id_type id) {
        using M = internal::mem<decltype(D)>; using V = typename M::val; auto *n = internal::node<T>();
        internal::data_node d{id, [] { return internal::node<V>(); }, [](void *p) -> void * { return &(static_cast<T *>(p)->*D); }, [](void *p, const void *v) { static_cast<T *>(p)->*D = *static_cast<const V *>(v); }};
        for (auto &x : n->data) if (x.id == id) { x = d; return *this; }
        n->data.push_back(d); return *this;
    }
};
template<class T> meta_factory<T> meta() { return {}; }
template<class T> meta_type resolve() { return {internal::node<std::remove_cv_t<std::remove_reference_t<T>>>()}; }
inline meta_type resolve(id_type id) { auto &m = internal::meta_types(); auto it = m.find(id); return it == m.end() ? meta_type{} : meta_type{it->second}; }
inline void meta_reset() {}
} // namespace entt
namespace std {
template<> struct hash<entt::entity> { size_t operator()(entt::entity e) const noexcept { return (size_t)entt::to_integral(e); } };
}
#endif
