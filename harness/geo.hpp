// Double-precision reference geometry and generators for the geometric monitors.
#ifndef VF_GEO_HPP
#define VF_GEO_HPP
#include "vf.hpp"
#include <array>
#include <cmath>
#include <limits>
#include "edyn/build_settings.h"
#include "edyn/math/scalar.hpp"
#include "edyn/math/vector2.hpp"
#include "edyn/math/vector3.hpp"
#include "edyn/math/quaternion.hpp"
#include "edyn/math/matrix3x3.hpp"
#include "edyn/math/transform.hpp"
#include "edyn/math/math.hpp"
#include "edyn/math/coordinate_axis.hpp"

struct D3 {
    double x = 0, y = 0, z = 0;
    D3() = default;
    D3(double a, double b, double c) : x(a), y(b), z(c) {}
    D3(const edyn::vector3 &v) : x(v.x), y(v.y), z(v.z) {}
    double operator[](int i) const { return i == 0 ? x : i == 1 ? y : z; }
    double &at(int i) { return i == 0 ? x : i == 1 ? y : z; }
    edyn::vector3 v() const { return {(edyn::scalar)x, (edyn::scalar)y, (edyn::scalar)z}; }
};
inline D3 operator+(D3 a, D3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline D3 operator-(D3 a, D3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline D3 operator-(D3 a) { return {-a.x, -a.y, -a.z}; }
inline D3 operator*(D3 a, double s) { return {a.x * s, a.y * s, a.z * s}; }
inline D3 operator*(double s, D3 a) { return a * s; }
inline D3 operator/(D3 a, double s) { return {a.x / s, a.y / s, a.z / s}; }
inline double ddot(D3 a, D3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline D3 dcross(D3 a, D3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline double dlen2(D3 a) { return ddot(a, a); }
inline double dlen(D3 a) { return std::sqrt(dlen2(a)); }
inline double ddist(D3 a, D3 b) { return dlen(a - b); }
inline D3 dnorm(D3 a) { double l = dlen(a); return l > 0 ? a / l : D3{1, 0, 0}; }
inline D3 dlerp(D3 a, D3 b, double t) { return a + (b - a) * t; }
inline bool finite(D3 a) { return std::isfinite(a.x) && std::isfinite(a.y) && std::isfinite(a.z); }

struct DQ { double x = 0, y = 0, z = 0, w = 1; DQ() = default; DQ(double a, double b, double c, double d) : x(a), y(b), z(c), w(d) {}
    DQ(const edyn::quaternion &q) : x(q.x), y(q.y), z(q.z), w(q.w) {} };
inline D3 drot(DQ q, D3 v) { // normalises
    double n = std::sqrt(q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w);
    q = {q.x / n, q.y / n, q.z / n, q.w / n};
    D3 r{q.x, q.y, q.z};
    D3 t = dcross(r, v) * 2.0;
    return v + t * q.w + dcross(r, t);
}
inline DQ dconj(DQ q) { return {-q.x, -q.y, -q.z, q.w}; }
inline D3 dto_world(D3 p, D3 pos, DQ q) { return pos + drot(q, p); }
inline D3 dto_object(D3 p, D3 pos, DQ q) { return drot(dconj(q), p - pos); }

#ifdef EDYN_DOUBLE_PRECISION
static const bool kDouble = true;
static const double kEps = 2.220446049250313e-16;
static const double kTol = 1e-7;   // absolute tolerance at unit scale
#else
static const bool kDouble = false;
static const double kEps = 1.1920929e-7;
static const double kTol = 2e-3;
#endif

// ---- generators ----
inline edyn::vector3 rnd_vec(vf::rng &r, double s) { return {(edyn::scalar)r.uni(-s, s), (edyn::scalar)r.uni(-s, s), (edyn::scalar)r.uni(-s, s)}; }
inline D3 rnd_unitD(vf::rng &r) {
    if (r.chance(0.2)) { D3 d; d.at((int)r.below(3)) = r.sign(); return d; }       // axis aligned
    if (r.chance(0.1)) { D3 d{r.sign(), r.sign(), r.sign()}; if (r.chance(0.5)) d.at((int)r.below(3)) = 0; return dnorm(d); } // diagonals
    for (;;) { D3 d{r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)}; double l = dlen(d); if (l > 0.05 && l <= 1) return d / l; }
}
inline edyn::vector3 rnd_unit(vf::rng &r) { return rnd_unitD(r).v(); }
inline edyn::quaternion rnd_quat(vf::rng &r) {
    if (r.chance(0.15)) return edyn::quaternion_identity;
    D3 ax = rnd_unitD(r);
    double a = r.chance(0.25) ? (r.range(-4, 4) * 0.78539816339744830962) : r.uni(-3.14159, 3.14159);
    double s = std::sin(a / 2), c = std::cos(a / 2);
    double n = std::sqrt(s * s * dlen2(ax) + c * c);
    return {(edyn::scalar)(ax.x * s / n), (edyn::scalar)(ax.y * s / n), (edyn::scalar)(ax.z * s / n), (edyn::scalar)(c / n)};
}
inline edyn::coordinate_axis rnd_axis(vf::rng &r) { return (edyn::coordinate_axis)r.below(3); }
inline D3 axis_dir(edyn::coordinate_axis a) { D3 d; d.at((int)a) = 1; return d; }

#define P3(v) (double)(v).x, (double)(v).y, (double)(v).z
#define F3 "(%.9g, %.9g, %.9g)"
#define P4(q) (double)(q).x, (double)(q).y, (double)(q).z, (double)(q).w
#define F4 "(%.9g, %.9g, %.9g, %.9g)"

template<class... T> inline uint64_t hv(const T &... t) { uint64_t h = 99; ((h = vf::hash_bytes(&t, sizeof t, h)), ...); return h; }

// ---- reference distances ----
inline double ref_point_segment(D3 p, D3 a, D3 b, double *t = nullptr) {
    D3 d = b - a; double l = dlen2(d); double s = l > 0 ? ddot(p - a, d) / l : 0; s = std::min(1.0, std::max(0.0, s)); if (t) *t = s; return ddist(p, a + d * s);
}
inline double ref_segment_segment(D3 p1, D3 q1, D3 p2, D3 q2) {
    double m = std::min(std::min(ref_point_segment(p1, p2, q2), ref_point_segment(q1, p2, q2)), std::min(ref_point_segment(p2, p1, q1), ref_point_segment(q2, p1, q1)));
    D3 d1 = q1 - p1, d2 = q2 - p2, r = p1 - p2; double a = dlen2(d1), e = dlen2(d2), b = ddot(d1, d2), c = ddot(d1, r), f = ddot(d2, r), den = a * e - b * b;
    if (den > 1e-14 * a * e) { double s = (b * f - c * e) / den, t = (a * f - b * c) / den; if (s >= 0 && s <= 1 && t >= 0 && t <= 1) m = std::min(m, ddist(p1 + d1 * s, p2 + d2 * t)); }
    return m;
}
#endif
