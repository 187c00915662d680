// Intersection and containment predicates decided against a double-precision
// reference; verdicts are only demanded where the reference margin exceeds the
// rounding error of the queried precision.
#include "geo.hpp"
#include "edyn/math/geom.hpp"
#include "edyn/math/triangle.hpp"
#include "edyn/math/vector2_3_util.hpp"
#include "edyn/comp/aabb.hpp"
using namespace edyn;

static vector2 rnd2(vf::rng &r, double s) { return {(scalar)r.uni(-s, s), (scalar)r.uni(-s, s)}; }
struct D2 { double x, y; D2(double a, double b) : x(a), y(b) {} D2(vector2 v) : x(v.x), y(v.y) {} };
static D2 operator-(D2 a, D2 b) { return {a.x - b.x, a.y - b.y}; }
static D2 operator+(D2 a, D2 b) { return {a.x + b.x, a.y + b.y}; }
static D2 operator*(D2 a, double s) { return {a.x * s, a.y * s}; }
static double perp(D2 a, D2 b) { return a.x * b.y - a.y * b.x; }
static double dot2(D2 a, D2 b) { return a.x * b.x + a.y * b.y; }
static double len2d(D2 a) { return std::hypot(a.x, a.y); }
#define F2 "(%.9g, %.9g)"
#define P2(v) (double)(v).x, (double)(v).y

VF_SECTION(segments_2d, 30000, 800000) {
    auto &r = c.r;
    int mode = (int)r.below(3);
    vector2 p0, p1, q0, q1;
    if (mode == 0) { // collinear, small integers: exact arithmetic
        vector2 o{(scalar)r.range(-4, 4), (scalar)r.range(-4, 4)}, d{(scalar)r.range(-3, 3), (scalar)r.range(-3, 3)};
        if (d.x == 0 && d.y == 0) return;
        auto at = [&](int k) { return vector2{o.x + d.x * k, o.y + d.y * k}; };
        int a = r.range(-4, 4), b = r.range(-4, 4), e = r.range(-4, 4), f = r.range(-4, 4);
        if (a == b || e == f) return;
        p0 = at(a); p1 = at(b); q0 = at(e); q1 = at(f);
        scalar s0 = -9, t0 = -9, s1 = -9, t1 = -9;
        auto n = intersect_segments(p0, p1, q0, q1, s0, t0, s1, t1);
        int lo = std::max(std::min(a, b), std::min(e, f)), hi = std::min(std::max(a, b), std::max(e, f));
        size_t want = lo > hi ? 0 : lo == hi ? 1 : 2;
        if (n != want) { c.fail("seg2-collinear-count", "collinear segments [%d,%d] and [%d,%d]: %zu intersections reported, expected %zu", a, b, e, f, n, want); return; }
        auto pos = [&](double s, int u, int v) { return u + (v - u) * s; };
        if (want) {
            double x0 = pos(s0, a, b), x1 = want == 2 ? pos(s1, a, b) : x0, y0 = pos(t0, e, f), y1 = want == 2 ? pos(t1, e, f) : y0;
            if (std::abs(std::min(x0, x1) - lo) > 1e-3 || std::abs(std::max(x0, x1) - hi) > 1e-3) c.fail("seg2-collinear-s", "collinear [%d,%d],[%d,%d]: overlap [%d,%d] but s gives [%g,%g]", a, b, e, f, lo, hi, std::min(x0, x1), std::max(x0, x1));
            if (std::abs(std::min(y0, y1) - lo) > 1e-3 || std::abs(std::max(y0, y1) - hi) > 1e-3) c.fail("seg2-collinear-t", "collinear [%d,%d],[%d,%d]: overlap [%d,%d] but t gives [%g,%g]", a, b, e, f, lo, hi, std::min(y0, y1), std::max(y0, y1));
        }
        c.event(want == 0 ? "collinear_disjoint" : want == 1 ? "collinear_touch" : "collinear_overlap");
        c.hit(hv(p0, p1, q0, q1)); return;
    }
    if (mode == 1) { // parallel, not collinear
        p0 = {(scalar)r.range(-4, 4), (scalar)r.range(-4, 4)}; vector2 d{(scalar)r.range(-3, 3), (scalar)r.range(-3, 3)}; if (d.x == 0 && d.y == 0) return;
        vector2 o{(scalar)r.range(-3, 3), (scalar)r.range(-3, 3)}; if (perp(o, d) == 0) return;
        p1 = p0 + d; q0 = p0 + o; q1 = q0 + d * (scalar)(r.chance(0.5) ? 1 : -2);
        scalar s0, t0, s1, t1; if (intersect_segments(p0, p1, q0, q1, s0, t0, s1, t1) != 0) c.fail("seg2-parallel", "parallel segments reported as intersecting");
        c.event("parallel"); c.hit(hv(p0, p1, q0, q1)); return;
    }
    double S = r.logu(0.2, 10); p0 = rnd2(r, S); p1 = rnd2(r, S); q0 = rnd2(r, S); q1 = rnd2(r, S);
    if (r.chance(0.3)) p1.x = p0.x; if (r.chance(0.3)) q1.y = q0.y;
    D2 dp = D2(p1) - D2(p0), dq = D2(q1) - D2(q0), e = D2(q0) - D2(p0); double den = perp(dp, dq);
    if (std::abs(den) < 0.05 * len2d(dp) * len2d(dq) || len2d(dp) < 0.05 * S || len2d(dq) < 0.05 * S || std::abs(den) < 1e-3) return;
    double s = perp(e, dq) / den, t = perp(e, dp) / den, m = kTol * 10;
    scalar s0 = -9, t0 = -9, s1, t1; auto n = intersect_segments(p0, p1, q0, q1, s0, t0, s1, t1);
    double out = std::max(std::max(-s, s - 1), std::max(-t, t - 1));
    if (std::abs(out) > m) {
        if (n != (out < 0 ? 1u : 0u)) c.fail("seg2-cross-count", "p0=" F2 " p1=" F2 " q0=" F2 " q1=" F2 ": lines cross at s=%g t=%g, %zu intersections reported", P2(p0), P2(p1), P2(q0), P2(q1), s, t, n);
        if (n == 1 && (std::abs(s0 - s) > m || std::abs(t0 - t) > m)) c.fail("seg2-cross-param", "intersection parameters (%g,%g), expected (%g,%g)", (double)s0, (double)t0, s, t);
        c.event(out < 0 ? "crossing" : "missing"); c.hit(hv(p0, p1, q0, q1));
        c.sample("2D segments cross at s=%g t=%g -> %zu reported", s, t, n);
    }
}

VF_SECTION(line_circle, 20000, 500000) {
    auto &r = c.r; double S = r.logu(0.3, 6); scalar R = (scalar)(S * r.uni(0.2, 1.5));
    vector2 p0 = rnd2(r, 2 * S), p1 = rnd2(r, 2 * S); if (r.chance(0.2)) p1.x = p0.x; if (r.chance(0.2)) p1.y = p0.y;
    if (r.chance(0.1)) p0 = {0, 0};
    D2 d = D2(p1) - D2(p0); if (len2d(d) < 0.1 * S) return;
    double dist = std::abs(perp(d, D2(p0))) / len2d(d);
    scalar s0 = -99, s1 = -99; auto n = intersect_line_circle(p0, p1, R, s0, s1); double m = (kDouble ? 1e-6 : 0.02) * S;
    if (std::abs(dist - R) < m) { c.event("near_tangent"); if (n > 2) c.fail("linecircle-count", "%zu", n);
        // whatever is reported must be (close to) on the circle
        double tl = std::sqrt(2 * m * R) + m;
        for (size_t k = 0; k < n; ++k) { double s = k ? s1 : s0; double rr = len2d(D2(p0) + d * s); if (std::abs(rr - R) > 3 * m) c.fail("linecircle-tangent", "reported point at radius %g of %g (line at distance %g)", rr, (double)R, dist); } (void)tl;
        c.hit(hv(p0, p1, R)); return; }
    if (n != (dist < R ? 2u : 0u)) c.fail("linecircle-count", "line at distance %g, radius %g: %zu intersections", dist, (double)R, n);
    if (dist < R && n == 2) {
        double ll = dot2(d, d), b = -dot2(D2(p0), d) / ll, h = std::sqrt((R * (double)R - dist * dist) / ll), a0 = b - h, a1 = b + h;
        double lo = std::min(s0, s1), hi = std::max(s0, s1), tl = kTol * 20 * S / len2d(d) + m * 0.1;
        if (std::abs(lo - a0) > tl || std::abs(hi - a1) > tl) c.fail("linecircle-param", "p0=" F2 " p1=" F2 " R=%g: parameters %g,%g expected %g,%g", P2(p0), P2(p1), (double)R, lo, hi, a0, a1);
        c.event("two");
    } else c.event("none");
    c.hit(hv(p0, p1, R));
}

VF_SECTION(circle_circle_2d, 20000, 500000) {
    auto &r = c.r; double S = r.logu(0.3, 6); scalar RA = (scalar)(S * r.uni(0.2, 1.5)), RB = (scalar)(S * r.uni(0.2, 1.5));
    vector2 a = rnd2(r, 1.5 * S), b = rnd2(r, 1.5 * S);
    if (r.chance(0.1)) b = a; if (r.chance(0.1)) RB = RA; if (r.chance(0.1)) b.x = a.x; if (r.chance(0.1)) b.y = a.y;
    double d = len2d(D2(b) - D2(a)), m = (kDouble ? 1e-6 : 0.01) * S;
    double out = std::max(d - (RA + (double)RB), std::abs((double)RA - RB) - d);
    if (std::abs(out) < m || d < m) { if (!(d == 0 && std::abs((double)RA - RB) > m)) { c.event("margin"); return; } }
    vector2 r0{}, r1{}; auto n = intersect_circle_circle(a, RA, b, RB, r0, r1);
    if (n != (out < 0 ? 2u : 0u)) { c.fail("circles2-count", "circles at distance %g with radii %g, %g: %zu intersections", d, (double)RA, (double)RB, n); return; }
    if (n == 2) {
        double tl = (kDouble ? 1e-7 : 5e-3) * S * std::sqrt(S / std::max(1e-9, -out)) + kTol * S;
        for (auto q : {r0, r1}) if (std::abs(len2d(D2(q) - D2(a)) - RA) > tl || std::abs(len2d(D2(q) - D2(b)) - RB) > tl) c.fail("circles2-point", "reported point is at %g / %g of radii %g / %g", len2d(D2(q) - D2(a)), len2d(D2(q) - D2(b)), (double)RA, (double)RB);
        double cr0 = perp(D2(b) - D2(a), D2(r0) - D2(a)), cr1 = perp(D2(b) - D2(a), D2(r1) - D2(a));
        if (cr0 * cr1 > 0) c.fail("circles2-distinct", "both reported points lie on the same side of the line of centres");
        c.event("two");
    } else c.event("none");
    c.hit(hv(a, b, RA, RB));
}

VF_SECTION(line_aabb_2d, 20000, 500000) {
    auto &r = c.r; double S = r.logu(0.3, 6);
    vector2 lo = rnd2(r, S), ext{(scalar)(S * r.uni(0.1, 2)), (scalar)(S * r.uni(0.1, 2))}, hi = lo + ext, p0 = rnd2(r, 2 * S), p1 = rnd2(r, 2 * S);
    bool vert = r.chance(0.2), hor = !vert && r.chance(0.2);
    if (vert) p1.x = p0.x; if (hor) p1.y = p0.y;
    D2 d = D2(p1) - D2(p0); if (len2d(d) < 0.1 * S) return;
    if (!vert && std::abs(d.x) < 0.02 * S) return; if (!hor && std::abs(d.y) < 0.02 * S) return;
    // reference slab interval on the infinite line, with shrunk and grown boxes
    auto slab = [&](double g, double &a, double &b) { a = -1e30; b = 1e30; double P[2] = {p0.x, p0.y}, D[2] = {d.x, d.y}, L[2] = {lo.x - g, lo.y - g}, H[2] = {hi.x + g, hi.y + g};
        for (int i = 0; i < 2; ++i) { if (D[i] == 0) { if (P[i] < L[i] || P[i] > H[i]) return false; } else { double u = (L[i] - P[i]) / D[i], v = (H[i] - P[i]) / D[i]; a = std::max(a, std::min(u, v)); b = std::min(b, std::max(u, v)); } } return a < b; };
    double a, b, a2, b2, g = (kDouble ? 1e-8 : 1e-3) * S; bool in = slab(-g, a, b), outb = !slab(g, a2, b2);
    scalar s0 = -99, s1 = -99; auto n = intersect_line_aabb(p0, p1, lo, hi, s0, s1);
    if (n > 2) c.fail("lineaabb-count", "%zu", n);
    if (in) {
        slab(0, a, b);
        if (n != 2) c.fail("lineaabb-count", "p0=" F2 " p1=" F2 " box " F2 "-" F2 " crossing reported %zu points", P2(p0), P2(p1), P2(lo), P2(hi), n);
        else { double x = std::min(s0, s1), y = std::max(s0, s1), tl = 0.2 * g / std::min(std::abs(d.x) > 0 ? std::abs(d.x) : 1e30, std::abs(d.y) > 0 ? std::abs(d.y) : 1e30) + kTol * 5; if (std::abs(x - a) > tl || std::abs(y - b) > tl) c.fail("lineaabb-param", "parameters %g,%g expected %g,%g", x, y, a, b); }
        c.event("crossing"); c.hit(hv(p0, p1, lo, hi));
    } else if (outb) { if (n != 0) c.fail("lineaabb-count", "line missing the box reported %zu points", n); c.event("missing"); c.hit(hv(p0, p1, lo, hi)); }
    else c.event("margin");
}

VF_SECTION(segment_aabb_3d, 30000, 800000) {
    auto &r = c.r; double S = r.logu(0.3, 6);
    vector3 lo = rnd_vec(r, S), hi = lo + vector3{(scalar)(S * r.uni(0.05, 2)), (scalar)(S * r.uni(0.05, 2)), (scalar)(S * r.uni(0.05, 2))};
    vector3 p0 = rnd_vec(r, 2 * S), p1 = rnd_vec(r, 2 * S);
    if (r.chance(0.2)) p1[(int)r.below(3)] = p0[(int)r.below(3)]; if (r.chance(0.15)) { int k = (int)r.below(3); auto t = p0; t[k] = p1[k]; p1 = t; }
    if (r.chance(0.05)) p1 = p0; if (r.chance(0.2)) { auto m = (lo + hi) * (scalar)0.5; p0 = m + (p0 - m) * (scalar)r.uni(0, 0.5); }
    auto slab = [&](double g) { double a = 0, b = 1; for (int i = 0; i < 3; ++i) { double P = p0[i], D = (double)p1[i] - p0[i], L = lo[i] - g, H = hi[i] + g; if (L > H) return false; if (D == 0) { if (P < L || P > H) return false; } else { double u = (L - P) / D, v = (H - P) / D; a = std::max(a, std::min(u, v)); b = std::min(b, std::max(u, v)); } } return a <= b; };
    double g = (kDouble ? 1e-8 : 2e-3) * S; bool in = slab(-g), out = !slab(g); bool got = intersect_segment_aabb(p0, p1, lo, hi);
    // the epsilon of the cross tests matters for (nearly) zero-length segments only when they already pass the axis tests
    if (in && !got) c.fail("segaabb-miss", "segment " F3 "-" F3 " crosses box " F3 "-" F3 " but no intersection was reported", P3(p0), P3(p1), P3(lo), P3(hi));
    if (out && got) c.fail("segaabb-false", "segment " F3 "-" F3 " does not touch box " F3 "-" F3 " but an intersection was reported", P3(p0), P3(p1), P3(lo), P3(hi));
    if (in || out) { c.event(in ? "crossing" : "missing"); c.hit(hv(p0, p1, lo, hi)); } else c.event("margin");
}

VF_SECTION(aabb_overlap, 30000, 500000) {
    auto &r = c.r; // integer boxes: exact, touching boxes count as intersecting
    auto box = [&](vector3 &a, vector3 &b) { for (int i = 0; i < 3; ++i) { int x = r.range(-4, 4), y = x + r.range(0, 4); a[i] = (scalar)x; b[i] = (scalar)y; } };
    AABB A, B; box(A.min, A.max); box(B.min, B.max);
    bool want = true, contains = true; double area = 0; for (int i = 0; i < 3; ++i) { if (A.max[i] < B.min[i] || B.max[i] < A.min[i]) want = false; if (B.min[i] < A.min[i] || B.max[i] > A.max[i]) contains = false; }
    bool g1 = intersect_aabb(A.min, A.max, B.min, B.max), g2 = intersect(A, B), g3 = intersect(B, A);
    if (g1 != want || g2 != want || g3 != want) c.fail("aabb-intersect", "boxes " F3 "-" F3 " and " F3 "-" F3 ": %d/%d/%d, expected %d", P3(A.min), P3(A.max), P3(B.min), P3(B.max), g1, g2, g3, want);
    if (A.contains(B) != contains) c.fail("aabb-contains", "contains=%d expected %d", A.contains(B), contains);
    auto U = enclosing_aabb(A, B); for (int i = 0; i < 3; ++i) if (U.min[i] != std::min(A.min[i], B.min[i]) || U.max[i] != std::max(A.max[i], B.max[i])) c.fail("aabb-union", "enclosing box wrong on axis %d", i);
    auto in = A.inset(vector3{-1, -1, -1}); for (int i = 0; i < 3; ++i) if (in.min[i] != A.min[i] - 1 || in.max[i] != A.max[i] + 1) c.fail("aabb-inset", "inset by -1 wrong on axis %d", i);
    double ex = A.max.x - A.min.x, ey = A.max.y - A.min.y, ez = A.max.z - A.min.z; area = 2 * (ex * ey + ey * ez + ez * ex);
    if (std::abs(A.area() - area) > 1e-3) c.fail("aabb-area", "area %g expected %g", (double)A.area(), area);
    D3 ctr = (D3(A.min) + D3(A.max)) * 0.5; if (ddist(A.center(), ctr) > 1e-5) c.fail("aabb-center", "centre wrong");
    c.event(want ? "overlap" : "disjoint"); c.hit(hv(A.min, A.max, B.min, B.max));
}

VF_SECTION(ray_sphere, 30000, 600000) {
    auto &r = c.r; double S = r.logu(0.3, 6); vector3 p0 = rnd_vec(r, 2 * S), p1 = rnd_vec(r, 2 * S), pos = rnd_vec(r, S); scalar R = (scalar)(S * r.uni(0.1, 1.5));
    if (r.chance(0.15)) p1 = pos; if (r.chance(0.1)) p0 = pos;
    D3 d = D3(p1) - D3(p0), m = D3(p0) - D3(pos); double dd = dlen2(d); if (std::sqrt(dd) < 0.1 * S) return;
    double tc = -ddot(m, d) / dd, dist = dlen(m + d * tc), c0 = dlen(m); double g = (kDouble ? 1e-7 : 0.01) * S;
    if (std::abs(dist - R) < g || std::abs(c0 - R) < g) { c.event("margin"); return; }
    bool inside = c0 < R, want = inside || (dist < R && tc > 0); scalar t = -9; bool got = intersect_ray_sphere(p0, p1, pos, R, t);
    if (got != want) { c.fail("raysphere-hit", "ray " F3 "-" F3 " sphere " F3 " R=%g: reported %d, expected %d", P3(p0), P3(p1), P3(pos), (double)R, got, want); return; }
    if (got) { double ref = inside ? 0 : tc - std::sqrt((R * (double)R - dist * dist) / dd); double tl = (kDouble ? 1e-6 : 2e-2) * std::max(1.0, S / std::sqrt(dd)); if (std::abs(t - ref) > tl) c.fail("raysphere-t", "t=%g expected %g", (double)t, ref); c.event(inside ? "inside" : "hit"); }
    else c.event("miss");
    c.hit(hv(p0, p1, pos, R));
}

VF_SECTION(ray_cylinder, 20000, 500000) {
    auto &r = c.r; double S = r.logu(0.4, 4); vector3 p0 = rnd_vec(r, 2 * S), p1 = rnd_vec(r, 2 * S), pos = rnd_vec(r, S); quaternion q = rnd_quat(r); auto ax = rnd_axis(r); scalar R = (scalar)(S * r.uni(0.1, 1.2)), hl = (scalar)(S * r.uni(0.2, 1.5));
    D3 n = drot(q, axis_dir(ax)); bool par = r.chance(0.1); if (par) { auto iv = [&] { return vector3{(scalar)r.range(-4, 4), (scalar)r.range(-4, 4), (scalar)r.range(-4, 4)}; }; q = quaternion_identity; n = axis_dir(ax); p0 = iv(); pos = iv(); hl = (scalar)r.range(1, 3); S = 3; p1 = p0 + (n * (r.sign() * r.range(1, 4))).v(); } // integers: exact
    D3 d = D3(p1) - D3(p0); double L = dlen(d); if (L < 0.2 * S) return; double sn = dlen(dcross(n, d)) / L;
    scalar fi = -99, fo = -99; auto res = intersect_ray_cylinder(p0, p1, pos, q, R, hl, ax, fi, fo); using K = decltype(res.kind);
    if (par) { if (res.kind != K::parallel_directions) c.fail("raycyl-parallel", "ray along the axis was not reported as parallel"); c.event("parallel"); c.hit(hv(p0, p1, pos, q, R)); return; }
    if (sn < 0.15) return;
    D3 m = D3(p0) - D3(pos); D3 dp = d - n * ddot(d, n), mp = m - n * ddot(m, n); double a = dlen2(dp), b = ddot(mp, dp), cc = dlen2(mp); double tc = -b / a, dist = dlen(mp + dp * tc), g = (kDouble ? 1e-6 : 0.02) * S;
    if (std::abs(dist - R) < g) { c.event("margin"); return; }
    K want = dist > R ? K::distance_greater_than_radius : K::intersects;
    if (res.kind != want) { c.fail("raycyl-kind", "axes at distance %g, radius %g: kind %d", dist, (double)R, (int)res.kind); return; }
    if (want == K::intersects) {
        double h = std::sqrt((R * (double)R - dist * dist) / a); double tl = (kDouble ? 1e-6 : 3e-2) * (1 + S / L) / sn;
        if (std::abs(fi - (tc - h)) > tl || std::abs(fo - (tc + h)) > tl) c.fail("raycyl-fraction", "ray " F3 "-" F3 " cylinder at " F3 " R=%g hl=%g axis %d: fractions %g,%g expected %g,%g", P3(p0), P3(p1), P3(pos), (double)R, (double)hl, (int)ax, (double)fi, (double)fo, tc - h, tc + h);
        double tl2 = (kDouble ? 1e-6 : 2e-2) * S / sn;
        if (std::abs(std::sqrt((double)res.dist_sqr) - dist) > tl2) c.fail("raycyl-distance", "distance %g expected %g", std::sqrt((double)res.dist_sqr), dist);
        if (ddist(res.normal, mp + dp * tc) > 2 * tl2) c.fail("raycyl-normal", "vector between closest points " F3 " expected " F3, P3(res.normal), P3((mp + dp * tc)));
        c.event("intersects");
    } else c.event("misses");
    c.hit(hv(p0, p1, pos, q, R));
}

static double tri_margin(const std::array<vector3, 3> &v, D3 n, D3 p) { // >0 inside the prism, distance to nearest edge plane
    double m = 1e30; for (int i = 0; i < 3; ++i) { D3 e = D3(v[(i + 1) % 3]) - D3(v[i]); D3 t = dnorm(dcross(n, e)); m = std::min(m, ddot(p - D3(v[i]), t)); } return m; }

VF_SECTION(triangle_queries, 30000, 800000) {
    auto &r = c.r; double S = r.logu(0.4, 4); std::array<vector3, 3> v{rnd_vec(r, S), rnd_vec(r, S), rnd_vec(r, S)};
    D3 cr = dcross(D3(v[1]) - D3(v[0]), D3(v[2]) - D3(v[1])); double area = dlen(cr), mx = std::max(ddist(v[0], v[1]), std::max(ddist(v[1], v[2]), ddist(v[2], v[0])));
    if (area < 0.05 * mx * mx || mx < 0.2 * S) return; D3 n = dnorm(cr); vector3 nf = n.v();
    vector3 p0 = rnd_vec(r, 2 * S), p1 = rnd_vec(r, 2 * S);
    if (r.chance(0.6)) { double u = r.uni(-0.3, 1.3), w = r.uni(-0.3, 1.3); D3 x = D3(v[0]) + (D3(v[1]) - D3(v[0])) * u + (D3(v[2]) - D3(v[0])) * w; D3 dir = rnd_unitD(r); double a = r.uni(-0.5, 2) * S, b = r.uni(-0.5, 2) * S; p0 = (x + dir * a).v(); p1 = (x - dir * b).v(); }
    // containment in the infinite prism
    double mg = tri_margin(v, n, p0), g = (kDouble ? 1e-6 : 5e-3) * S;
    if (std::abs(mg) > g) {
        bool want = mg > 0;
        if (point_in_triangle(v, nf, p0) != want) c.fail("point-in-triangle", "p=" F3 " margin %g: reported %d", P3(p0), mg, !want);
        if (point_in_triangle(v, -nf, p0) != want) c.fail("point-in-triangle", "with the opposite normal p=" F3 " margin %g: reported %d", P3(p0), mg, !want);
        bool a1 = point_in_polygonal_prism(v, nf, p0); std::vector<vector3> pad{vector3_zero, v[2], vector3_one, v[0], v[1]}; std::vector<size_t> idx{3, 4, 1};
        bool a2 = point_in_polygonal_prism(pad, idx, nf, p0);
        if (a1 != want || a2 != want) c.fail("point-in-prism", "triangle prism p=" F3 " margin %g: %d %d", P3(p0), mg, a1, a2);
        c.event(want ? "prism_in" : "prism_out");
    }
    double d = ddot(D3(p1) - D3(p0), n), e = ddot(D3(v[0]) - D3(p0), n), L = ddist(p0, p1); if (L < 0.1 * S || std::abs(d) < 0.1 * L) return;
    double t = e / d; D3 x = dlerp(p0, p1, t); double m = std::min(tri_margin(v, n, x), std::min(t, 1 - t) * L); double g2 = g * 3 * L / std::abs(d);
    if (std::abs(m) < g2) { c.event("margin"); return; }
    scalar tt = -9; bool got = intersect_segment_triangle(p0, p1, v, nf, tt), want = m > 0;
    if (got != want) c.fail("segtri-hit", "segment " F3 "-" F3 " triangle " F3 F3 F3 ": reported %d, plane crossed at t=%g with margin %g", P3(p0), P3(p1), P3(v[0]), P3(v[1]), P3(v[2]), got, t, m);
    if (got && want && std::abs(tt - t) > g2 / L * 2) c.fail("segtri-t", "t=%g expected %g", (double)tt, t);
    c.event(want ? "hit" : "miss"); c.hit(hv(v[0], v[1], v[2], p0, p1));
}

VF_SECTION(polygon_prism, 15000, 300000) {
    auto &r = c.r; double S = r.logu(0.4, 4); int N = r.range(3, 9); quaternion q = rnd_quat(r); D3 pos(rnd_vec(r, S)); auto ax = rnd_axis(r); D3 n = drot(q, axis_dir(ax)); D3 u = drot(q, axis_dir((coordinate_axis)(((int)ax + 1) % 3))), w = dcross(n, u);
    std::vector<double> th; for (int i = 0; i < N; ++i) th.push_back(r.uni(0, 2 * M_PI)); std::sort(th.begin(), th.end()); for (int i = 0; i < N; ++i) { double gap = i + 1 < N ? th[i + 1] - th[i] : th[0] + 2 * M_PI - th[i]; if (gap < 0.15) return; }
    double rx = S * r.uni(0.4, 1), ry = S * r.uni(0.4, 1); std::vector<vector3> vs; for (double t : th) vs.push_back((pos + u * (rx * std::cos(t)) + w * (ry * std::sin(t))).v());
    D3 p = pos + u * r.uni(-1.3, 1.3) * rx + w * r.uni(-1.3, 1.3) * ry + n * r.uni(-2, 2) * S; vector3 pf = p.v(); double m = 1e30; for (int i = 0; i < N; ++i) { D3 e = D3(vs[(i + 1) % N]) - D3(vs[i]); m = std::min(m, ddot(D3(pf) - D3(vs[i]), dnorm(dcross(n, e)))); }
    if (std::abs(m) < (kDouble ? 1e-6 : 5e-3) * S) { c.event("margin"); return; } bool want = m > 0; std::vector<size_t> idx(N); std::vector<vector3> sh(N); std::vector<int> perm(N); for (int i = 0; i < N; ++i) perm[i] = i; r.shuffle(perm); for (int i = 0; i < N; ++i) { sh[perm[i]] = vs[i]; idx[i] = (size_t)perm[i]; }
    if (point_in_polygonal_prism(sh, idx, n.v(), pf) != want) c.fail("polygon-prism", "convex %d-gon, margin %g: reported %d", N, m, !want);
    if (N == 4) { std::array<vector3, 4> a4{vs[0], vs[1], vs[2], vs[3]}; if (point_in_polygonal_prism(a4, n.v(), pf) != want) c.fail("polygon-prism", "quad overload, margin %g: reported %d", m, !want); }
    c.event(want ? "inside" : "outside"); c.hit(hv(vs[0], vs[1], vs[2], pf));
}

VF_SECTION(minkowski_face, 20000, 300000) {
    auto &r = c.r; D3 A = rnd_unitD(r), B = rnd_unitD(r), C = rnd_unitD(r), Dd = rnd_unitD(r); D3 ba = dcross(B, A), dc = dcross(Dd, C); if (dlen(ba) < 0.1 || dlen(dc) < 0.1) return;
    // C and D are the outward normals of the faces of the second edge as every caller passes them; the Minkowski
    // difference pairs arc AB with arc (-C)(-D)
    auto in_arc = [&](D3 x, D3 a, D3 b) { D3 n = dcross(a, b); return std::min(ddot(dcross(a, x), n), ddot(dcross(x, b), n)); };
    D3 C1 = -C, D1 = -Dd; D3 l = dcross(dcross(A, B), dcross(C1, D1)); if (dlen(l) < 0.05) return; l = dnorm(l);
    double m1 = std::min(in_arc(l, A, B), in_arc(l, C1, D1)), m2 = std::min(in_arc(-l, A, B), in_arc(-l, C1, D1)); double m = std::max(m1, m2);
    if (std::abs(m) < 1e-3) return; bool want = m > 0;
    bool got = edges_generate_minkowski_face(A.v(), B.v(), C.v(), Dd.v(), ba.v(), dcross(Dd, C).v());
    if (got != want) c.fail("minkowski-face", "arcs A=" F3 " B=" F3 " C=" F3 " D=" F3 " intersect=%d (margin %g), reported %d", P3(A), P3(B), P3(C1), P3(D1), want, m, got);
    c.event(want ? "face" : "no_face"); c.hit(hv(A, B, C, Dd));
}
