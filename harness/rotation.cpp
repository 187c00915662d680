// Vector, matrix and rotation algebra against a double-precision reference.
#include "geo.hpp"
#include "edyn/math/geom.hpp"
#include "edyn/math/vector2_3_util.hpp"
#include "edyn/math/constants.hpp"
using namespace edyn;
static const double T = kDouble ? 1e-10 : 4e-5;

static DQ qmul(DQ a, DQ b) { return {a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y, a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x, a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w, a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z}; }
static double qdot(DQ a, DQ b) { return a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w; }
static double qlen(DQ a) { return std::sqrt(qdot(a, a)); }
// angle between rotations, accurate near 0
static double qangle(DQ a, DQ b) { DQ d = qmul(dconj(a), b); double v = std::sqrt(d.x * d.x + d.y * d.y + d.z * d.z); return 2 * std::atan2(v, std::abs(d.w)); }
static bool bad(quaternion q) { return !std::isfinite(q.x) || !std::isfinite(q.y) || !std::isfinite(q.z) || !std::isfinite(q.w); }

VF_SECTION(vector_algebra, 20000, 400000) {
    auto &r = c.r; double S = r.logu(0.01, 1000); vector3 a = rnd_vec(r, S), b = rnd_vec(r, S), d = rnd_vec(r, S); scalar k = (scalar)r.uni(0.1, 4); if (r.chance(0.2)) b[r.below(3)] = a[r.below(3)];
    D3 A(a), B(b), Dd(d); double t = T * S, t2 = T * S * S, t3 = T * S * S * S; auto near = [&](D3 x, D3 y, double tol) { return ddist(x, y) <= tol; };
    if (!near(a + b, A + B, t) || !near(a - b, A - B, t) || !near(-a, -A, 0) || !near(a * k, A * (double)k, t * 4) || !near(k * a, A * (double)k, t * 4) || !near(a / k, A / (double)k, t * 10)) c.fail("vec-linear", "linear operations on " F3 " and " F3, P3(a), P3(b));
    auto e = a; e += b; auto f = a; f -= b; auto g = a; g *= k; auto h = a; h /= k; auto m = a; m *= b; if (!near(e, A + B, t) || !near(f, A - B, t) || !near(g, A * (double)k, t * 4) || !near(h, A / (double)k, t * 10) || !near(m, D3{A.x * B.x, A.y * B.y, A.z * B.z}, t2 * 4) || !near(a * b, m, t2)) c.fail("vec-assign", "compound assignment");
    if (std::abs(dot(a, b) - ddot(A, B)) > t2 * 4) c.fail("vec-dot", "dot %g expected %g", (double)dot(a, b), ddot(A, B)); if (!near(cross(a, b), dcross(A, B), t2 * 4)) c.fail("vec-cross", "cross of " F3 " and " F3, P3(a), P3(b));
    if (std::abs(triple_product(a, b, d) - ddot(A, dcross(B, Dd))) > t3 * 12) c.fail("vec-triple", "triple product %g expected %g", (double)triple_product(a, b, d), ddot(A, dcross(B, Dd)));
    if (std::abs(length(a) - dlen(A)) > t * 2 || std::abs(length_sqr(a) - dlen2(A)) > t2 * 4 || std::abs(distance(a, b) - ddist(A, B)) > t * 4 || std::abs(distance_sqr(a, b) - dlen2(A - B)) > t2 * 16) c.fail("vec-length", "lengths");
    if (dlen(A) > 1e-3) { if (std::abs(dlen(normalize(a)) - 1) > T || !near(normalize(a), dnorm(A), T * 4)) c.fail("vec-normalize", "normalize"); auto n = a; if (!try_normalize(n) || !near(n, dnorm(A), T * 4)) c.fail("vec-try-normalize", "try_normalize"); } vector3 z = vector3_zero; if (try_normalize(z)) c.fail("vec-try-normalize", "zero vector normalized");
    vector3 u = rnd_unit(r); D3 U(u); if (!near(project_direction(a, u), A - U * ddot(A, U), t * 8) || std::abs(ddot(D3(project_direction(a, u)), U)) > t * 8) c.fail("vec-project-direction", "project_direction of " F3 " on " F3, P3(a), P3(u)); auto pp = project_plane(a, b, u); if (std::abs(ddot(D3(pp) - B, U)) > t * 16 || dlen(dcross(D3(pp) - A, U)) > t * 16) c.fail("vec-project-plane", "project_plane");
    for (int i = 0; i < 3; ++i) { if (min(a, b)[i] != std::min(a[i], b[i]) || max(a, b)[i] != std::max(a[i], b[i]) || abs(a)[i] != std::abs(a[i]) || floor(a)[i] != std::floor(a[i]) || ceil(a)[i] != std::ceil(a[i])) c.fail("vec-minmax", "component %d", i); if (a[min_index(a)] > a[i] || a[max_index(a)] < a[i] || std::abs(a[min_index_abs(a)]) > std::abs(a[i]) || std::abs(a[max_index_abs(a)]) < std::abs(a[i])) c.fail("vec-index", "min/max index of " F3, P3(a)); }
    bool lt = true, le = true, gt = true, ge = true, eq = true; for (int i = 0; i < 3; ++i) { lt &= a[i] < b[i]; le &= a[i] <= b[i]; gt &= a[i] > b[i]; ge &= a[i] >= b[i]; eq &= a[i] == b[i]; } if ((a < b) != lt || (a <= b) != le || (a > b) != gt || (a >= b) != ge || (a == b) != eq || (a != b) == eq || !(a == a) || (a != a)) c.fail("vec-compare", "comparison of " F3 " and " F3, P3(a), P3(b));
    vector2 p{a.x, a.y}, q{b.x, b.y}; if (std::abs(dot(p, q) - ((double)p.x * q.x + (double)p.y * q.y)) > t2 * 4 || std::abs(perp_product(p, q) - ((double)p.x * q.y - (double)p.y * q.x)) > t2 * 4) c.fail("vec2-products", "2D products"); auto o = orthogonal(p); if (std::abs((double)o.x * p.x + (double)o.y * p.y) > t2 || std::abs(std::hypot((double)o.x, (double)o.y) - std::hypot((double)p.x, (double)p.y)) > t || perp_product(p, o) < 0) c.fail("vec2-orthogonal", "orthogonal is not a quarter turn counter-clockwise");
    { double kk = k, px = p.x, py = p.y, qx = q.x, qy = q.y; auto n2 = [&](vector2 u, double x, double y, double tol) { return std::abs(u.x - x) <= tol && std::abs(u.y - y) <= tol; }; auto e2 = p; e2 += q; auto f2 = p; f2 -= q; auto g2 = p; g2 *= k; auto h2 = p; h2 /= k;
        if (!n2(p + q, px + qx, py + qy, t) || !n2(p - q, px - qx, py - qy, t) || !n2(-p, -px, -py, 0) || !n2(p * k, px * kk, py * kk, t * 4) || !n2(k * p, px * kk, py * kk, t * 4) || !n2(p / k, px / kk, py / kk, t * 10) || !n2(p * q, px * qx, py * qy, t2 * 4) || !n2(e2, px + qx, py + qy, t) || !n2(f2, px - qx, py - qy, t) || !n2(g2, px * kk, py * kk, t * 4) || !n2(h2, px / kk, py / kk, t * 10)) c.fail("vec2-linear", "2D linear operations on (%g, %g) and (%g, %g)", px, py, qx, qy);
        if (std::abs(px) > 1e-3 * S && std::abs(py) > 1e-3 * S) { auto i2 = k / p; if (std::abs(i2.x * px / kk - 1) > T || std::abs(i2.y * py / kk - 1) > T) c.fail("vec2-inverse", "scalar divided by a 2D vector"); if (p[0] != p.x || p[1] != p.y) c.fail("vec2-index", "2D indexing"); auto u2 = normalize(p); double l = std::hypot(px, py); if (l > 1e-3 && !n2(u2, px / l, py / l, T * 4)) c.fail("vec2-normalize", "2D normalize"); } if (std::abs(length_sqr(p) - (px * px + py * py)) > t2 * 4 || std::abs(distance_sqr(p, q) - ((px - qx) * (px - qx) + (py - qy) * (py - qy))) > t2 * 16) c.fail("vec2-length", "2D squared lengths");
        auto av = average(std::array<vector3, 3>{a, b, d}); if (!near(av, (A + B + Dd) / 3, t * 4) || std::abs(average(std::array<scalar, 4>{a.x, a.y, b.x, b.z}) - (A.x + A.y + B.x + B.z) / 4) > t * 4) c.fail("average", "average"); if (std::abs(square(a.x) - A.x * A.x) > t2 * 4 || to_sign(true) != 1 || to_sign(false) != -1) c.fail("square", "square or sign"); }
    if (std::abs(length(p) - std::hypot((double)p.x, (double)p.y)) > t * 2 || std::abs(distance(p, q) - std::hypot((double)p.x - q.x, (double)p.y - q.y)) > t * 4) c.fail("vec2-length", "2D length");
    auto v2 = to_vector2_xz(a); if (v2.x != a.x || v2.y != a.z || to_vector2_xy(a).y != a.y || to_vector2_yz(a).x != a.y || to_vector2_zy(a).x != a.z || to_vector2_yx(a).y != a.x || to_vector2_zx(a).y != a.x) c.fail("vec2-3", "plane projections"); auto v3 = to_vector3_xz(v2); if (v3.x != a.x || v3.y != 0 || v3.z != a.z || to_vector3_xy(v2).y != v2.y || to_vector3_yz(v2).z != v2.y || to_vector3_zy(v2).z != v2.x || to_vector3_yx(v2).x != v2.y || to_vector3_zx(v2).x != v2.y) c.fail("vec2-3", "plane embeddings");
    double s = r.uni(-0.5, 1.5); if (!near(lerp(a, b, (scalar)s), A * (1 - s) + B * s, t * 16)) c.fail("lerp", "lerp at %g", s); if (clamp_unit((scalar)s) != (scalar)std::min(1.0, std::max(0.0, (double)(scalar)s))) c.fail("clamp-unit", "clamp_unit %g", s); if (std::abs(to_radians(to_degrees((scalar)s)) - s) > T * 4 || std::abs(to_degrees((scalar)M_PI) - 180) > 1e-3) c.fail("angles", "degrees/radians");
    c.event("vectors"); c.hit(hv(a, b, d)); c.sample("|a|=%g, a.b=%g, axb=" F3, (double)length(a), (double)dot(a, b), P3(cross(a, b)));
}

VF_SECTION(angle_wrap, 20000, 200000) {
    auto &r = c.r; double a = r.chance(0.2) ? r.range(-9, 9) * M_PI / 2 : r.uni(-60, 60); scalar s = (scalar)a; double n = normalize_angle(s); double turns = ((double)s - n) / (2 * M_PI); double tol = kDouble ? 1e-12 : 2e-5;
    if (!(n >= -M_PI - tol && n <= M_PI + tol) || std::abs(turns - std::round(turns)) > tol) c.fail("normalize-angle", "normalize_angle(%.9g) = %.9g", (double)s, n); c.event("angles"); c.hit(hv(s));
}

VF_SECTION(quaternion_rotation, 20000, 400000) {
    auto &r = c.r; quaternion q = rnd_quat(r), p = rnd_quat(r); double S = r.logu(0.01, 100); vector3 v = rnd_vec(r, S), pos = rnd_vec(r, S); D3 V(v); double t = T * S * 4;
    auto w = rotate(q, v); if (ddist(w, drot(q, V)) > t) c.fail("rotate", "rotation of " F3 " by " F4 ": " F3, P3(v), P4(q), P3(w)); if (std::abs(dlen(w) - dlen(V)) > t) c.fail("rotate-isometry", "length changed"); if (ddist(rotate(conjugate(q), w), V) > t) c.fail("rotate-inverse", "conjugate does not undo the rotation");
    if (ddist(rotate(q * p, v), drot(q, drot(p, V))) > t) c.fail("rotate-compose", "product is not the composition"); auto q2 = q; q2 *= p; if (qangle(q2, q * p) > T) c.fail("rotate-compose", "compound product");
    quaternion pure{v.x, v.y, v.z, 0}; auto x1 = q * v, x2 = q * pure, y1 = v * q, y2 = pure * q; for (int i = 0; i < 4; ++i) if (std::abs((double)x1[i] - x2[i]) > t || std::abs((double)y1[i] - y2[i]) > t) c.fail("quat-vector-product", "quaternion-vector product");
    auto M = to_matrix3x3(q); if (ddist(M * v, drot(q, V)) > t) c.fail("matrix-rotation", "matrix of quaternion rotates differently"); if (ddist(v * M, drot(dconj(q), V)) > t) c.fail("matrix-transpose-product", "v*M is not the inverse rotation"); if (std::abs(M.determinant() - 1) > T * 4) c.fail("matrix-det", "determinant %g", (double)M.determinant());
    auto qb = to_quaternion(M); if (bad(qb) || std::abs(qlen(qb) - 1) > T * 4 || qangle(qb, q) > T * 40) c.fail("to-quaternion", "round trip of " F4 " gives " F4, P4(q), P4(qb));
    for (int i = 0; i < 3; ++i) { D3 e; e.at(i) = 1; vector3 ax = i == 0 ? quaternion_x(q) : i == 1 ? quaternion_y(q) : quaternion_z(q); if (ddist(ax, drot(q, e)) > T * 4 || ddist(M.column(i), drot(q, e)) > T * 4) c.fail("basis", "basis vector %d", i); }
    auto ws = to_world_space(v, pos, q), wm = to_world_space(v, pos, M); if (ddist(ws, dto_world(V, pos, q)) > t || ddist(wm, ws) > t) c.fail("to-world", "to_world_space"); if (ddist(to_object_space(ws, pos, q), V) > t * 3 || ddist(to_object_space(ws, pos, M), V) > t * 3) c.fail("to-object", "to_object_space does not invert to_world_space");
    double k = r.uni(0.2, 5); auto qn = normalize(q * (scalar)k); if (qangle(qn, q) > T * 4 || std::abs(qlen(qn) - 1) > T) c.fail("quat-normalize", "normalize"); auto ms = to_matrix3x3(q * (scalar)k); if (ddist(ms * v, drot(q, V)) > t * 2) c.fail("matrix-scale-invariant", "matrix of a scaled quaternion");
    c.event("rotations"); c.hit(hv(q, p, v)); c.sample("q=" F4 " v=" F3 " -> " F3, P4(q), P3(v), P3(w));
}

VF_SECTION(matrix_algebra, 20000, 300000) {
    auto &r = c.r; double S = r.logu(0.1, 10); matrix3x3 a, b; for (int i = 0; i < 3; ++i) { a[i] = rnd_vec(r, S); b[i] = rnd_vec(r, S); } vector3 v = rnd_vec(r, S); double m[3][3], n[3][3]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { m[i][j] = a[i][j]; n[i][j] = b[i][j]; } double t2 = T * S * S * 12;
    auto p = a * b, s = a + b, d = a - b, tr = transpose(a), sc = scale_matrix(a, v), md = a * diagonal_matrix(v), sk = skew_matrix(v); auto pa = a; pa *= b; auto sa = a; sa += b; auto da = a; da -= b;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double e = 0; for (int k = 0; k < 3; ++k) e += m[i][k] * n[k][j]; if (std::abs(p[i][j] - e) > t2 || p[i][j] != pa[i][j]) c.fail("mat-product", "entry %d,%d: %g expected %g", i, j, (double)p[i][j], e); if (std::abs(s[i][j] - (m[i][j] + n[i][j])) > T * S * 2 || sa[i][j] != s[i][j] || std::abs(d[i][j] - (m[i][j] - n[i][j])) > T * S * 2 || da[i][j] != d[i][j]) c.fail("mat-sum", "sum/difference"); if (tr[i][j] != a[j][i] || a.column(j)[i] != a[i][j]) c.fail("mat-transpose", "transpose"); if (std::abs(sc[i][j] - m[i][j] * v[j]) > t2 || std::abs(md[i][j] - sc[i][j]) > t2) c.fail("mat-scale", "scale_matrix"); if (std::abs(a.column_dot(j, v) - (m[0][j] * v.x + m[1][j] * v.y + m[2][j] * v.z)) > t2) c.fail("mat-column-dot", "column_dot"); }
    vector3 w = rnd_vec(r, S); if (ddist(sk * w, dcross(v, w)) > t2) c.fail("mat-skew", "skew matrix is not the cross product"); D3 mv{ddot(a[0], v), ddot(a[1], v), ddot(a[2], v)}; if (ddist(a * v, mv) > t2 || ddist(v * a, transpose(a) * v) > t2) c.fail("mat-vector", "matrix-vector product"); auto dg = get_diagonal(a); if (dg.x != a[0][0] || dg.y != a[1][1] || dg.z != a[2][2]) c.fail("mat-diagonal", "diagonal"); auto mc = matrix3x3_columns(a[0], a[1], a[2]); if (mc != tr) c.fail("mat-columns", "columns");
    double det = m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]); if (std::abs(a.determinant() - det) > T * S * S * S * 20) c.fail("mat-det", "determinant %g expected %g", (double)a.determinant(), det);
    if (std::abs(det) > 0.05 * S * S * S) { auto inv = inverse_matrix(a); auto id = a * inv; double cond = S * S * S / std::abs(det); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (!(std::abs(id[i][j] - (i == j)) < T * 200 * cond)) { c.fail("mat-inverse", "M*inverse differs from identity by %g", std::abs(id[i][j] - (i == j))); i = 3; break; } c.event("inverted");
        // symmetric positive definite (inertia-like)
        auto sym = transpose(a) * a + matrix3x3_identity * (scalar)(0.3 * S * S); for (int i = 0; i < 3; ++i) for (int j = 0; j < i; ++j) sym[i][j] = sym[j][i]; auto si = inverse_matrix_symmetric(sym); auto sid = sym * si; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (!(std::abs(sid[i][j] - (i == j)) < T * 4000)) { c.fail("mat-inverse-symmetric", "M*inverse differs from identity by %g", std::abs(sid[i][j] - (i == j))); i = 3; break; } auto gi = inverse_matrix(sym); if (sym.determinant() > 4 * EDYN_EPSILON) /* below, the general inverse takes the matrix for singular */ for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (std::abs(gi[i][j] - si[i][j]) > T * 4000 / (0.3 * S * S)) { c.fail("mat-inverse-symmetric", "differs from general inverse"); i = 3; break; } }
    matrix3x3 sing{vector3{1, 2, 3}, vector3{2, 4, 6}, vector3{1, 0, 1}}; auto zi = inverse_matrix(sing); if (zi != matrix3x3_zero) c.fail("mat-inverse-singular", "inverse of a singular matrix is not zero");
    c.event("matrices"); c.hit(hv(a, b));
}

VF_SECTION(axis_angle, 20000, 300000) {
    auto &r = c.r; D3 ax = rnd_unitD(r); double a = r.uni(0.02, 3.1), k = r.uni(0.1, 5); auto q = quaternion_axis_angle((ax * k).v(), (scalar)a); double h = a / 2; DQ want{ax.x * std::sin(h), ax.y * std::sin(h), ax.z * std::sin(h), std::cos(h)}; if (bad(q) || qangle(q, want) > T * 4 || std::abs(qlen(q) - 1) > T) c.fail("axis-angle", "rotation of %g about " F3, a, P3(ax));
    if (std::abs(quaternion_angle(q) - a) > (kDouble ? 1e-7 : 2e-3)) c.fail("quaternion-angle", "angle %g expected %g", (double)quaternion_angle(q), a); if (ddist(quaternion_axis(q), ax) > (kDouble ? 1e-6 : 2e-2)) c.fail("quaternion-axis", "axis " F3 " expected " F3 " (angle %g)", P3(quaternion_axis(q)), P3(ax), a);
    // products of unit quaternions may have |w| slightly above 1
    auto rq = rnd_quat(r); auto i = conjugate(rq) * rq; double za = quaternion_angle(i); if (!(za >= 0 && za < (kDouble ? 1e-6 : 5e-3))) c.fail("quaternion-angle-identity", "angle of conj(q)*q is %g for q=" F4 " (w=%.9g)", za, P4(rq), (double)i.w); quaternion over{0, 0, 0, std::nextafter((scalar)1, (scalar)2)}; if (!std::isfinite(quaternion_angle(over)) || !finite(D3(quaternion_axis(over)))) c.fail("quaternion-angle-identity", "angle of a rounded identity is not finite");
    vector3 e = axis_dir(rnd_axis(r)).v(); auto qu = quaternion_axis_angle_unit(e, (scalar)a); auto qv = quaternion_axis_angle(e, (scalar)a); if (qangle(qu, qv) > T * 2) c.fail("axis-angle-unit", "unit-axis overload differs"); c.event("axis_angles"); c.hit(hv(ax, a));
}

VF_SECTION(angle_between, 20000, 300000) {
    auto &r = c.r; auto q0 = rnd_quat(r), q1 = rnd_quat(r); int m = (int)r.below(4); if (m == 0) q1 = q0; if (m == 1) q1 = {-q0.x, -q0.y, -q0.z, -q0.w}; if (m == 2) { q1 = q0 * quaternion_axis_angle(rnd_unit(r), (scalar)r.logu(1e-5, 0.1)); } if (r.chance(0.3)) q0 = q0 * (scalar)r.uni(0.5, 2);
    DQ u0 = q0, u1 = q1; double l0 = qlen(u0), l1 = qlen(u1); u0 = {u0.x / l0, u0.y / l0, u0.z / l0, u0.w / l0}; u1 = {u1.x / l1, u1.y / l1, u1.z / l1, u1.w / l1}; double want = qangle(u0, u1), got = angle_between(q0, q1); if (!std::isfinite(got) || std::abs(got - want) > (kDouble ? 1e-6 : 4e-3)) c.fail("angle-between", "angle between " F4 " and " F4 ": %g, shortest rotation is %g", P4(q0), P4(q1), got, want); c.event(m == 0 ? "same" : m == 1 ? "antipodal" : "pairs"); c.hit(hv(q0, q1));
}

VF_SECTION(slerp, 20000, 300000) {
    auto &r = c.r; auto q0 = rnd_quat(r), q1 = rnd_quat(r); int m = (int)r.below(4); if (m == 0) q1 = q0 * quaternion_axis_angle(rnd_unit(r), (scalar)r.logu(1e-4, 0.3)); if (r.chance(0.1)) q1 = q0; if (r.chance(0.3)) q1 = {-q1.x, -q1.y, -q1.z, -q1.w}; double s = r.chance(0.2) ? (double)r.below(2) : r.unit(); double th = qangle(q0, q1); if (th > 3.13) return; // antipodal: not unique
    auto q = slerp(q0, q1, (scalar)s); if (bad(q) || std::abs(qlen(q) - 1) > (kDouble ? 1e-6 : 2e-3)) { c.fail("slerp-unit", "slerp(%g) of " F4 " and " F4 " has length %g", s, P4(q0), P4(q1), qlen(q)); return; } double tol = kDouble ? 1e-6 : 4e-3;
    if (std::abs(qangle(q0, q) - s * th) > tol || std::abs(qangle(q, q1) - (1 - s) * th) > tol) c.fail("slerp-rate", "slerp(%g) over an angle of %g is at %g from the start and %g from the end", s, th, qangle(q0, q), qangle(q, q1)); c.event("slerps"); c.hit(hv(q0, q1, s));
}

VF_SECTION(integrate, 20000, 300000) {
    auto &r = c.r; auto q = rnd_quat(r); double ws = r.chance(0.2) ? 0 : r.logu(1e-5, 60); D3 ax = rnd_unitD(r); vector3 w = (ax * ws).v(); double dt = r.logu(1e-4, 0.05); auto n = integrate(q, w, (scalar)dt); double a = dlen(w) * dt; D3 e = dnorm(w); DQ d{e.x * std::sin(a / 2), e.y * std::sin(a / 2), e.z * std::sin(a / 2), std::cos(a / 2)}; DQ want = ws > 0 ? qmul(d, q) : DQ(q); if (bad(n) || std::abs(qlen(n) - 1) > (kDouble ? 1e-12 : 1e-6)) { c.fail("integrate-unit", "integrated orientation has length %.9g (w=" F3 ", dt=%g)", qlen(n), P3(w), dt); return; } if (qangle(n, want) > T * 4) c.fail("integrate", "integrating w=" F3 " for %g from " F4 ": off by %g rad", P3(w), dt, P4(q), qangle(n, want));
    // many steps keep the orientation normalized and accumulate the exact rotation
    if (c.idx % 50 == 0) { quaternion x = q; int N = 2000; for (int i = 0; i < N; ++i) x = integrate(x, w, (scalar)dt); if (bad(x) || std::abs(qlen(x) - 1) > 1e-5) c.fail("integrate-drift", "after %d steps the length is %g", N, qlen(x)); double b = std::fmod(a * N, 4 * M_PI); DQ d2{e.x * std::sin(b / 2), e.y * std::sin(b / 2), e.z * std::sin(b / 2), std::cos(b / 2)}; DQ w2 = ws > 0 ? qmul(d2, q) : DQ(q); if (qangle(x, w2) > (kDouble ? 1e-7 : 0.02)) c.fail("integrate-accumulate", "after %d steps of %g rad the orientation is off by %g rad", N, a, qangle(x, w2)); c.event("long_runs"); }
    auto dq = quaternion_derivative(q, w); DQ wd = qmul(DQ(w.x, w.y, w.z, 0), q); for (int i = 0; i < 4; ++i) { double x = 0.5 * (i == 0 ? wd.x : i == 1 ? wd.y : i == 2 ? wd.z : wd.w); if (std::abs(dq[i] - x) > T * (1 + ws)) c.fail("derivative", "quaternion derivative"); }
    c.event("steps"); c.hit(hv(q, w, dt)); c.sample("w=" F3 " dt=%g: rotated %g rad", P3(w), dt, a);
}

VF_SECTION(shortest_arc, 20000, 300000) {
    auto &r = c.r; vector3 a = rnd_unit(r), b = rnd_unit(r); int m = (int)r.below(5); if (m == 0) b = a; if (m == 1) b = -a; if (m == 2) b = dnorm(-D3(a) + D3(rnd_vec(r, r.logu(1e-7, 0.05)))).v(); if (m == 3) b = dnorm(D3(a) + D3(rnd_vec(r, r.logu(1e-7, 0.05)))).v(); auto q = shortest_arc(a, b); if (bad(q) || std::abs(qlen(q) - 1) > (kDouble ? 1e-9 : 1e-4)) { c.fail("shortest-arc-unit", "shortest arc from " F3 " to " F3 " is " F4, P3(a), P3(b), P4(q)); return; } double tol = kDouble ? 1e-6 : 4e-3; if (ddist(drot(q, a), b) > tol) c.fail("shortest-arc", "shortest arc takes " F3 " to " F3 " instead of " F3, P3(a), P3(drot(q, a)), P3(b)); double ang = std::atan2(dlen(dcross(a, b)), ddot(a, b)); if (std::abs(qangle(quaternion_identity, q) - ang) > tol * 2) c.fail("shortest-arc-angle", "rotation angle %g instead of %g", qangle(quaternion_identity, q), ang); c.event(m == 1 || m == 2 ? "opposite" : "arcs"); c.hit(hv(a, b));
}

VF_SECTION(tangent_basis, 20000, 200000) {
    auto &r = c.r; vector3 n = rnd_unit(r); if (r.chance(0.2)) { D3 x{r.uni(-1, 1) * 0.01, 0, 0}; x.z = std::sqrt(0.5) * (1 + r.uni(-1, 1) * 1e-6); x.y = std::sqrt(std::max(0.0, 1 - x.z * x.z - x.x * x.x)); n = dnorm(x).v(); } vector3 p, q; plane_space(n, p, q); D3 N(n), P(p), Q(q); if (std::abs(dlen(P) - 1) > T * 4 || std::abs(dlen(Q) - 1) > T * 4 || std::abs(ddot(P, N)) > T * 4 || std::abs(ddot(Q, N)) > T * 4 || std::abs(ddot(P, Q)) > T * 4 || ddist(dcross(N, P), Q) > T * 4) c.fail("plane-space", "tangents of " F3 " are " F3 " and " F3, P3(n), P3(p), P3(q)); auto B = make_tangent_basis(n); D3 c0 = B.column(0), c1 = B.column(1), c2 = B.column(2); if (ddist(c1, N) > T || std::abs(ddot(c0, c1)) > T * 4 || std::abs(ddot(c0, c2)) > T * 4 || std::abs(ddot(c1, c2)) > T * 4 || std::abs(dlen(c0) - 1) > T * 4 || std::abs(dlen(c2) - 1) > T * 4) c.fail("tangent-basis", "tangent basis of " F3, P3(n)); c.event("bases"); c.hit(hv(n));
}

VF_SECTION(euler_angles, 20000, 200000) {
    auto &r = c.r; double x = r.uni(-3.1, 3.1), y = r.uni(-1.5, 1.5), z = r.uni(-3.1, 3.1); if (r.chance(0.15)) y = r.sign() * M_PI / 2; auto M = rotation_matrix_xyz((scalar)x, (scalar)y, (scalar)z); auto P = rotation_matrix_x((scalar)x) * rotation_matrix_y((scalar)y) * rotation_matrix_z((scalar)z); for (int i = 0; i < 3; ++i) if (ddist(M[i], P[i]) > T * 4) c.fail("euler-matrix", "XYZ matrix is not Rx*Ry*Rz"); D3 ex{1, 0, 0}, ey{0, 1, 0}, ez{0, 0, 1}; vector3 v = rnd_vec(r, 1); auto rot = [](D3 ax, double a, D3 p) { return drot(DQ(ax.x * std::sin(a / 2), ax.y * std::sin(a / 2), ax.z * std::sin(a / 2), std::cos(a / 2)), p); }; if (ddist(M * v, rot(ex, x, rot(ey, y, rot(ez, z, v)))) > T * 8) c.fail("euler-rotation", "rotation by (%g, %g, %g)", x, y, z); auto e = get_euler_angles_xyz(M); auto N = rotation_matrix_xyz(e.x, e.y, e.z); for (int i = 0; i < 3; ++i) if (!(ddist(M[i], N[i]) < (kDouble ? 1e-6 : 2e-3))) { c.fail("euler-roundtrip", "angles (%g, %g, %g) come back as (%g, %g, %g)", x, y, z, (double)e.x, (double)e.y, (double)e.z); break; } c.event("eulers"); c.hit(hv(x, y, z));
}
