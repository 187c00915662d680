// Closest-point queries: membership, consistency of the outputs and
// optimality against an independent double-precision reference.
#include "geo.hpp"
#include "edyn/math/geom.hpp"
using namespace edyn;

static double SC(vf::rng &r) { return r.logu(0.2, 8); }

VF_SECTION(point_segment, 6000, 300000) {
    auto &r = c.r; double S = SC(r);
    vector3 q0 = rnd_vec(r, S), q1 = rnd_vec(r, S), p = rnd_vec(r, 2 * S);
    int mode = (int)r.below(6);
    if (mode == 0) p = q0; else if (mode == 1) p = q1; else if (mode == 2) p = lerp(q0, q1, (scalar)r.uni(-0.5, 1.5)); else if (mode == 3) q1 = q0 + rnd_unit(r) * (scalar)(S * 0.05);
    if (ddist(q0, q1) < 0.02 * S) return;
    scalar t = -7; vector3 q{};
    auto d2 = closest_point_segment(q0, q1, p, t, q);
    double ref = ref_point_segment(p, q0, q1), tol = kTol * S;
    if (!(t >= 0 && t <= 1)) c.fail("segment-param", "closest_point_segment: t=%g outside [0,1]", (double)t);
    if (ddist(q, dlerp(q0, q1, t)) > tol) c.fail("segment-point", "closest_point_segment: q is not q(t), off by %g", ddist(q, dlerp(q0, q1, t)));
    if (std::abs(ddist(p, q) - ref) > tol) c.fail("segment-optimal", "closest_point_segment q0=" F3 " q1=" F3 " p=" F3 ": |p-q|=%g, the minimum is %g", P3(q0), P3(q1), P3(p), ddist(p, q), ref);
    if (std::abs(std::sqrt((double)d2) - ref) > 2 * tol) c.fail("segment-distance", "closest_point_segment returned distance^2 %g, the minimum distance is %g", (double)d2, ref);
    // infinite line
    vector3 dir = q1 - q0; scalar lt; vector3 lr;
    auto l2 = closest_point_line(q0, dir, p, lt, lr); auto l2b = distance_sqr_line(q0, dir, p);
    double lref = dlen(dcross(D3(p) - D3(q0), D3(dir))) / dlen(dir);
    double ltol = tol * 4 * std::max(1.0, std::abs((double)lt) * dlen(dir) / S * 0.05);
    if (ddist(lr, D3(q0) + D3(dir) * lt) > ltol || std::abs(ddist(p, lr) - lref) > ltol || std::abs(std::sqrt((double)l2) - lref) > 2 * ltol) c.fail("line-optimal", "closest_point_line: distance %g (returned^2 %g), the minimum is %g", ddist(p, lr), (double)l2, lref);
    if (std::abs(std::sqrt((double)l2b) - lref) > 2 * ltol) c.fail("line-distance", "distance_sqr_line = %g, distance is %g", (double)l2b, lref);
    c.event("queries"); c.hit(hv(q0, q1, p));
    c.sample("segment " F3 "-" F3 " point " F3 " -> t=%g dist=%g (reference %g)", P3(q0), P3(q1), P3(p), (double)t, ddist(p, q), ref);
}

VF_SECTION(line_line, 3000, 100000) {
    auto &r = c.r; double S = SC(r);
    vector3 p1 = rnd_vec(r, S), p2 = rnd_vec(r, S);
    D3 u = rnd_unitD(r), v = rnd_unitD(r); double l1 = S * r.uni(0.3, 1.5), l2 = S * r.uni(0.3, 1.5);
    bool par = r.chance(0.15);
    vector3 q1 = p1 + (u * l1).v();
    vector3 q2 = p2 + (v * l2).v();
    if (par) { vector3 d{(scalar)r.range(-4, 4), (scalar)r.range(-4, 4), (scalar)r.range(1, 4)}; p1 = vector3{(scalar)r.range(-4, 4), (scalar)r.range(-4, 4), 0}; p2 = vector3{(scalar)r.range(-4, 4), 1, 2}; q1 = p1 + d; q2 = p2 + d * (scalar)(r.chance(0.5) ? 2 : -1); }
    double sn = dlen(dcross(dnorm(D3(q1) - D3(p1)), dnorm(D3(q2) - D3(p2))));
    scalar s = 0, t = 0;
    bool ok = closest_point_line_line(p1, q1, p2, q2, s, t);
    if (par) { if (ok) c.fail("lines-parallel", "closest_point_line_line did not report parallel lines"); c.event("parallel"); c.hit(hv(p1, q1, p2, q2)); return; }
    if (sn < 0.1) return;
    if (!ok) { if (l1 * l2 * sn > (kDouble ? 1e-6 : 2e-3)) c.fail("lines-parallel", "lines at sin(angle)=%g reported parallel", sn); return; }
    D3 a = dlerp(p1, q1, s), b = dlerp(p2, q2, t), n = dnorm(dcross(D3(q1) - D3(p1), D3(q2) - D3(p2)));
    double ref = std::abs(ddot(D3(p2) - D3(p1), n)), tol = kTol * S * 4 / sn;
    if (std::abs(ddist(a, b) - ref) > tol) c.fail("lines-optimal", "closest_point_line_line p1=" F3 " q1=" F3 " p2=" F3 " q2=" F3 ": distance %g, minimum %g", P3(p1), P3(q1), P3(p2), P3(q2), ddist(a, b), ref);
    c.event("queries"); c.hit(hv(p1, q1, p2, q2));
}

VF_SECTION(segment_segment, 12000, 600000) {
    auto &r = c.r; double S = SC(r);
    vector3 p1 = rnd_vec(r, S), q1 = rnd_vec(r, S), p2 = rnd_vec(r, S), q2 = rnd_vec(r, S);
    int mode = (int)r.below(8); bool exact_par = false;
    if (mode == 0) { // exactly parallel or antiparallel, integer coordinates
        exact_par = true;
        vector3 d{(scalar)r.range(-3, 3), (scalar)r.range(-3, 3), (scalar)r.range(1, 3)};
        p1 = {(scalar)r.range(-6, 6), (scalar)r.range(-6, 6), (scalar)r.range(-6, 6)}; q1 = p1 + d;
        vector3 off = r.chance(0.6) ? vector3{(scalar)r.range(-2, 2), (scalar)r.range(-2, 2), (scalar)r.range(-2, 2)} : d * (scalar)(r.range(-8, 8) * 0.25) + cross(d, vector3{(scalar)r.range(-1, 1), (scalar)r.range(-1, 1), 1}) * (scalar)0.5;
        p2 = p1 + off; static const double ks[] = {-2, -1, -0.5, 0.5, 1, 2}; q2 = p2 + d * (scalar)ks[r.below(6)];
        S = 6;
    } else if (mode == 1) q1 = p1;                                   // degenerate to points
    else if (mode == 2) q2 = p2;
    else if (mode == 3) { q1 = p1; q2 = p2; }
    else if (mode == 4) { auto d = q1 - p1; q2 = p2 + d * (scalar)r.uni(-1.5, 1.5) + rnd_vec(r, S * r.logu(1e-4, 0.1)); } // nearly parallel
    else if (mode == 5) { p2 = lerp(p1, q1, (scalar)r.unit()); if (r.chance(0.5)) q2 = p2 + (p2 - q2) ; } // touching
    double L1 = ddist(p1, q1), L2 = ddist(p2, q2);
    if ((L1 > 0 && L1 < 0.05 * S) || (L2 > 0 && L2 < 0.05 * S)) return;
    double ref = ref_segment_segment(p1, q1, p2, q2), tol = kTol * S * 2;
    if (mode == 4) tol = (kDouble ? 1e-5 : 5e-3) * S + 3 * std::sqrt(kEps) / std::max(1e-3, std::min(L1, L2)); // parallelism is decided with an absolute epsilon
    for (int variant = 0; variant < 2; ++variant) {
        scalar s = -7, t = -7, sp = -7, tp = -7; vector3 c1{}, c2{}, c1p{}, c2p{}; size_t np = 77;
        scalar d2 = variant == 0 ? closest_point_segment_segment(p1, q1, p2, q2, s, t, c1, c2)
                                 : closest_point_segment_segment(p1, q1, p2, q2, s, t, c1, c2, &np, &sp, &tp, &c1p, &c2p);
        if (!(s >= 0 && s <= 1 && t >= 0 && t <= 1)) c.fail("segseg-param", "s=%g t=%g outside [0,1]", (double)s, (double)t);
        if (ddist(c1, dlerp(p1, q1, s)) > tol || ddist(c2, dlerp(p2, q2, t)) > tol) c.fail("segseg-point", "closest points do not match their parameters");
        if (!(std::abs(ddist(c1, c2) - ref) <= tol)) c.fail("segseg-optimal", "mode %d p1=" F3 " q1=" F3 " p2=" F3 " q2=" F3 ": distance between the returned points %g, minimum %g", mode, P3(p1), P3(q1), P3(p2), P3(q2), ddist(c1, c2), ref);
        if (!(std::abs(std::sqrt((double)d2) - ref) <= 2 * tol)) c.fail("segseg-distance", "returned distance^2 %g, minimum distance %g", (double)d2, ref);
        if (variant == 1) {
            if (np != 1 && np != 2) { c.fail("segseg-count", "mode %d: num_points = %zu", mode, np); continue; }
            if (np == 2) {
                c.event("parallel_pairs");
                if (!(sp >= 0 && sp <= 1 && tp >= 0 && tp <= 1) || ddist(c1p, dlerp(p1, q1, sp)) > tol || ddist(c2p, dlerp(p2, q2, tp)) > tol) c.fail("segseg-second-point", "second pair inconsistent with its parameters s=%g t=%g", (double)sp, (double)tp);
                else if (!(std::abs(ddist(c1p, c2p) - ref) <= tol)) c.fail("segseg-second-optimal", "p1=" F3 " q1=" F3 " p2=" F3 " q2=" F3 ": second pair of points is %g apart, the minimum distance is %g", P3(p1), P3(q1), P3(p2), P3(q2), ddist(c1p, c2p), ref);
            }
            if (exact_par) { // length of the overlap of the projections on segment 1
                D3 d = D3(q1) - D3(p1); double a = ddot(D3(p2) - D3(p1), d) / dlen2(d), b = ddot(D3(q2) - D3(p1), d) / dlen2(d);
                double lo = std::max(0.0, std::min(a, b)), hi = std::min(1.0, std::max(a, b));
                if (hi - lo > 1e-3) {
                    c.event("parallel_overlap");
                    if (np != 2) c.fail("segseg-parallel-count", "parallel segments overlapping over [%g,%g]: %zu closest points reported", lo, hi, np);
                    else if (std::abs(std::min(s, sp) - lo) > 1e-3 || std::abs(std::max(s, sp) - hi) > 1e-3) c.fail("segseg-parallel-range", "parallel segments overlap over [%g,%g] but the points are at %g and %g", lo, hi, (double)s, (double)sp);
                } else if (np != 1 && hi - lo < -1e-3) c.fail("segseg-parallel-count", "parallel segments that do not overlap reported %zu points", np);
            }
        }
    }
    c.event("queries"); c.hit(hv(p1, q1, p2, q2));
    c.sample("segments mode %d: minimum distance %g confirmed", mode, ref);
}

VF_SECTION(disc, 5000, 200000) {
    auto &r = c.r; double S = SC(r);
    vector3 pos = rnd_vec(r, S), p = rnd_vec(r, 2 * S); quaternion orn = rnd_quat(r); auto ax = rnd_axis(r); scalar rad = (scalar)(S * r.uni(0.1, 1.2));
    int mode = (int)r.below(5);
    D3 n = drot(orn, axis_dir(ax));
    if (mode == 0) p = (D3(pos) + n * r.uni(-S, S)).v(); // above the centre
    if (mode == 1) p = pos;
    vector3 q{}; auto d2 = closest_point_disc(pos, orn, rad, ax, p, q);
    D3 rel = D3(p) - D3(pos); double h = ddot(rel, n); D3 pl = rel - n * h; double rho = dlen(pl);
    double ref = rho <= rad ? std::abs(h) : std::sqrt(h * h + (rho - rad) * (rho - rad)); double tol = kTol * S * 2;
    D3 qr = D3(q) - D3(pos);
    if (std::abs(ddot(qr, n)) > tol || dlen(qr) > rad + tol) c.fail("disc-member", "closest_point_disc: q=" F3 " is not on the disc (height %g, radius %g of %g)", P3(q), ddot(qr, n), dlen(qr), (double)rad);
    if (!(std::abs(ddist(p, q) - ref) <= tol)) c.fail("disc-optimal", "closest_point_disc: distance %g, minimum %g", ddist(p, q), ref);
    if (!(std::abs(std::sqrt((double)d2) - ref) <= 2 * tol)) c.fail("disc-distance", "closest_point_disc returned distance^2 %g, minimum distance %g", (double)d2, ref);
    c.event("queries"); c.hit(hv(pos, orn, p, rad));
}

VF_SECTION(box, 6000, 200000) {
    auto &r = c.r; double S = SC(r);
    vector3 he{(scalar)(S * r.uni(0.2, 1)), (scalar)(S * r.uni(0.2, 1)), (scalar)(S * r.uni(0.2, 1))};
    vector3 p = rnd_vec(r, 2 * S);
    if (r.chance(0.2)) p[(int)r.below(3)] = he[(int)r.below(3)];
    auto q = closest_point_box_outside(he, p);
    bool inside = true; D3 cl;
    for (int i = 0; i < 3; ++i) { cl.at(i) = std::min((double)he[i], std::max(-(double)he[i], (double)p[i])); if (std::abs(p[i]) > he[i]) inside = false; }
    if (ddist(q, cl) > kTol * S) c.fail("box-outside", "closest_point_box_outside he=" F3 " p=" F3 " -> " F3 ", expected " F3, P3(he), P3(p), P3(q), P3(cl));
    vector3 pi{(scalar)(he.x * r.uni(-1, 1)), (scalar)(he.y * r.uni(-1, 1)), (scalar)(he.z * r.uni(-1, 1))};
    if (r.chance(0.1)) pi = vector3_zero;
    if (r.chance(0.1)) pi[(int)r.below(3)] = 0;
    vector3 cq{}, cn{}; auto d = closest_point_box_inside(he, pi, cq, cn);
    double ref = 1e30; for (int i = 0; i < 3; ++i) ref = std::min(ref, (double)he[i] - std::abs((double)pi[i]));
    double tol = kTol * S;
    if (std::abs(ddist(pi, cq) - ref) > tol) c.fail("box-inside-optimal", "closest_point_box_inside he=" F3 " p=" F3 ": point at %g, nearest face at %g", P3(he), P3(pi), ddist(pi, cq), ref);
    if (std::abs((double)d - ref) > tol) c.fail("box-inside-distance", "closest_point_box_inside he=" F3 " p=" F3 " returned %g, the distance is %g", P3(he), P3(pi), (double)d, ref);
    int face = -1; for (int i = 0; i < 3; ++i) if (std::abs(std::abs((double)cn[i]) - 1) < 1e-6) face = i;
    if (face < 0 || std::abs(dlen(cn) - 1) > 1e-5) c.fail("box-inside-normal", "normal " F3 " is not a face normal", P3(cn));
    else if (std::abs((double)cq[face] * (double)cn[face] - he[face]) > tol) c.fail("box-inside-normal", "closest point " F3 " is not on the face with normal " F3, P3(cq), P3(cn));
    c.event(inside ? "inside" : "outside"); c.hit(hv(he, p, pi));
}

// distance from a point (circle frame) to circle of radius R around z
static double pt_circle(D3 q, double R) { double rho = std::hypot(q.x, q.y); return std::hypot(rho - R, q.z); }
static void ref_frame(coordinate_axis ax, D3 q, D3 &o) { int n = (int)ax; o = {q[(n + 1) % 3], q[(n + 2) % 3], q[n]}; }

VF_SECTION(circle_line, 5000, 200000) {
    auto &r = c.r; double S = r.logu(0.5, 4);
    vector3 pos = rnd_vec(r, S); quaternion orn = rnd_quat(r); auto ax = rnd_axis(r); scalar R = (scalar)(S * r.uni(0.2, 1));
    vector3 p0 = rnd_vec(r, 2 * S), p1;
    int mode = (int)r.below(6);
    D3 n = drot(orn, axis_dir(ax));
    D3 d = rnd_unitD(r);
    if (mode == 0) { d = d - n * ddot(d, n); if (dlen(d) < 0.1) return; d = dnorm(d); }  // parallel to the plane
    if (mode == 1) { d = n; p0 = (D3(pos) + n * r.uni(-S, S)).v(); }                      // through the centre, orthogonal
    if (mode == 2) { // tangent to the circle, in a parallel plane
        D3 u = n - D3(); D3 a = dcross(n, rnd_unitD(r)); if (dlen(a) < 0.1) return; a = dnorm(a); d = dcross(n, a); p0 = (D3(pos) + a * (double)R + n * r.uni(-0.3, 0.3) + d * r.uni(-2, 2)).v(); (void)u; }
    p1 = (D3(p0) + d * (S * r.uni(0.5, 2))).v();
    size_t np = 77; scalar s0 = 0, s1 = 0; vector3 rc0{}, rl0{}, rc1{}, rl1{}, nor{};
    vf::note("mode %d", mode);
    auto d2 = closest_point_circle_line(pos, orn, R, ax, p0, p1, np, s0, rc0, rl0, s1, rc1, rl1, nor);
    double tol = kTol * S * 4;
    if (np != 1 && np != 2) { c.fail("circleline-count", "num_points=%zu", np); return; }
    for (size_t k = 0; k < np; ++k) {
        vector3 rc = k ? rc1 : rc0, rl = k ? rl1 : rl0; double s = k ? s1 : s0;
        D3 l; ref_frame(ax, dto_object(rc, pos, orn), l);
        double off = pt_circle(l, R);
        // in the (nearly) parallel branch the circle point is the projection of a point of a slightly tilted line
        if (!(off <= tol + 0.011)) c.fail("circleline-on-circle", "mode %d: point %zu is %g away from the circle", mode, k, off);
        if (!(ddist(rl, dlerp(p0, p1, s)) <= tol + 0.011)) c.fail("circleline-on-line", "mode %d: point %zu=" F3 " is not the line point at its parameter %g", mode, k, P3(rl), s);
    }
    if (!(std::abs(dlen(nor) - 1) < 1e-3)) c.fail("circleline-normal", "normal length %g", dlen(nor));
    // reference minimum over the circle: dense scan + refinement
    auto f = [&](double th) { D3 q; q.at(((int)ax + 1) % 3) = R * std::cos(th); q.at(((int)ax + 2) % 3) = R * std::sin(th); D3 w = dto_world(q, pos, orn); return dlen(dcross(w - D3(p0), D3(p1) - D3(p0))) / ddist(p0, p1); };
    double best = 1e30, bt = 0; const int N = 180; for (int i = 0; i < N; ++i) { double th = 2 * M_PI * i / N, v = f(th); if (v < best) { best = v; bt = th; } }
    double lo = bt - 2 * M_PI / N, hi = bt + 2 * M_PI / N; for (int k = 0; k < 60; ++k) { double a = lo + (hi - lo) / 3, b = hi - (hi - lo) / 3; if (f(a) < f(b)) hi = b; else lo = a; }
    best = std::min(best, f((lo + hi) / 2));
    double got = std::sqrt(std::max(0.0, (double)d2));
    if (!(got >= best - tol - 0.011)) c.fail("circleline-distance", "mode %d returned distance %g, the minimum is %g", mode, got, best);
    if (got > best + tol + 0.02) c.event("suboptimal"); else c.event("optimal");
    if (mode == 0 || mode == 2) { c.event("parallel"); }
    c.event("queries"); c.hit(hv(pos, orn, p0, p1, R));
}

VF_SECTION(circle_circle, 4000, 150000) {
    auto &r = c.r; double S = r.logu(0.5, 4);
    vector3 pA = rnd_vec(r, S), pB = rnd_vec(r, S); quaternion oA = rnd_quat(r), oB = rnd_quat(r); auto aA = rnd_axis(r), aB = rnd_axis(r);
    scalar RA = (scalar)(S * r.uni(0.2, 1)), RB = (scalar)(S * r.uni(0.2, 1));
    int mode = (int)r.below(6);
    bool same = r.chance(0.4); if (same) aB = aA;
    D3 nA = drot(oA, axis_dir(aA));
    if (mode <= 2) { // parallel planes: choose oB so that its axis is along nA
        D3 want = nA; // rotate axis aB onto nA
        D3 e = axis_dir(aB); D3 cr = dcross(e, want); double dt = ddot(e, want); DQ q;
        if (dt < -0.999999) { D3 o = std::abs(e.x) < 0.5 ? D3{1, 0, 0} : D3{0, 1, 0}; o = dnorm(dcross(e, o)); q = {o.x, o.y, o.z, 0}; } else { q = {cr.x, cr.y, cr.z, 1 + dt}; }
        double l = std::sqrt(q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w); oB = {(scalar)(q.x / l), (scalar)(q.y / l), (scalar)(q.z / l), (scalar)(q.w / l)};
        if (mode == 1) { D3 t = dcross(nA, rnd_unitD(r)); if (dlen(t) < 0.1) return; t = dnorm(t); pB = (D3(pA) + nA * r.uni(-1, 1) * S + t * (S * r.uni(0, 2.5))).v(); }
        if (mode == 2) { pB = (D3(pA) + nA * r.uni(-1, 1) * S).v(); if (r.chance(0.3)) RB = RA; } // concentric
    }
    D3 nB = drot(oB, axis_dir(aB));
    double sn = dlen(dcross(nA, nB));
    if (mode > 2 ? sn < 0.05 : sn > (kDouble ? 1e-9 : 1e-4)) return;
    size_t np = 77; vector3 A0{}, B0{}, A1{}, B1{}, nor{};
    vf::note("mode %d", mode);
    auto d2 = closest_point_circle_circle(pA, oA, RA, aA, pB, oB, RB, aB, np, A0, B0, A1, B1, nor);
    double tol = kTol * S * 4 + (mode <= 2 ? (kDouble ? 1e-5 : 3e-3) * S : 0);
    if (np != 1 && np != 2) { c.fail("circles-count", "num_points=%zu", np); return; }
    for (size_t k = 0; k < np; ++k) {
        D3 l; ref_frame(aA, dto_object(k ? A1 : A0, pA, oA), l); double offA = pt_circle(l, RA);
        ref_frame(aB, dto_object(k ? B1 : B0, pB, oB), l); double offB = pt_circle(l, RB);
        if (!(offA <= tol)) c.fail("circles-on-A", "mode %d axes %d,%d: point %zu is %g away from circle A", mode, (int)aA, (int)aB, k, offA);
        if (!(offB <= tol)) c.fail("circles-on-B", "mode %d axes %d,%d: point %zu is %g away from circle B", mode, (int)aA, (int)aB, k, offB);
    }
    if (!(std::abs(dlen(nor) - 1) < 1e-3)) c.fail("circles-normal", "normal length %g", dlen(nor));
    double got = std::sqrt(std::max(0.0, (double)d2));
    if (!(std::abs(got - ddist(A0, B0)) <= 2 * tol)) c.fail("circles-distance", "mode %d: returned distance %g but the points are %g apart", mode, got, ddist(A0, B0));
    auto f = [&](double th) { D3 q; q.at(((int)aB + 1) % 3) = RB * std::cos(th); q.at(((int)aB + 2) % 3) = RB * std::sin(th); D3 l; ref_frame(aA, dto_object(dto_world(q, pB, oB), pA, oA), l); return pt_circle(l, RA); };
    double best = 1e30, bt = 0; const int N = 360; for (int i = 0; i < N; ++i) { double th = 2 * M_PI * i / N, v = f(th); if (v < best) { best = v; bt = th; } }
    double lo = bt - 2 * M_PI / N, hi = bt + 2 * M_PI / N; for (int k = 0; k < 60; ++k) { double a = lo + (hi - lo) / 3, b = hi - (hi - lo) / 3; if (f(a) < f(b)) hi = b; else lo = a; }
    best = std::min(best, f((lo + hi) / 2));
    if (mode <= 2) {
        if (!(std::abs(got - best) <= tol + 1e-3 * S)) c.fail("circles-parallel-optimal", "mode %d axes %d,%d RA=%g RB=%g: distance %g, minimum %g", mode, (int)aA, (int)aB, (double)RA, (double)RB, got, best);
        c.event(np == 2 ? "parallel_2" : "parallel_1");
    } else {
        if (!(got >= best - tol)) c.fail("circles-distance", "returned distance %g below the minimum %g", got, best);
        c.event(got > best + 0.02 * S ? "suboptimal" : "optimal");
    }
    c.event("queries"); c.hit(hv(pA, oA, pB, oB, RA, RB));
}

// orthonormal bases built from one vector
VF_SECTION(plane_space, 3000, 100000) {
    auto n = rnd_unit(c.r); vector3 p, q; plane_space(n, p, q);
    double t = kDouble ? 1e-10 : 1e-4;
    auto ortho = [&](D3 a, D3 b, D3 d, const char *k) { if (std::abs(dlen(a) - 1) > t || std::abs(dlen(b) - 1) > t || std::abs(dlen(d) - 1) > t || std::abs(ddot(a, b)) > t || std::abs(ddot(a, d)) > t || std::abs(ddot(b, d)) > t) c.fail(k, "basis built from n=" F3 " is not orthonormal: " F3 " " F3, P3(n), P3(a), P3(d)); };
    ortho(p, n, q, "plane-space");
    if (ddist(dcross(D3(n), D3(p)), q) > 10 * t) c.fail("plane-space-handed", "q is not n x p for n=" F3, P3(n));
    auto m = make_tangent_basis(n);
    ortho(m.column(0), m.column(1), m.column(2), "tangent-basis");
    if (ddist(m.column(1), n) > t) c.fail("tangent-basis-normal", "second column of the tangent basis is not n");
    c.event("bases"); c.hit(hv(n));
}
