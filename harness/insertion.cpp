// Contact point selection: the small set of points kept for a pair of bodies.
#include "geo.hpp"
#include "edyn/math/geom.hpp"
#include "edyn/config/constants.hpp"
using namespace edyn;
using PT = point_insertion_type;
static double score(D3 p0, D3 p1, D3 p2, D3 p3) { return dlen2(dcross(p0 - p1, p0 - p2)) + dlen2(dcross(p0 - p2, p0 - p3)) + dlen2(dcross(p0 - p3, p0 - p1)) + dlen2(dcross(p1 - p2, p2 - p3)); }
static double span(const std::array<vector3, 4> &a, size_t n) { double m = 0; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) m = std::max(m, ddist(a[i], a[j])); return m; }

// One step of insertion, watched: returns false if the step was invalid
static bool step(vf::ctx &c, std::array<vector3, 4> &pts, size_t &n, vector3 np) {
    auto before = pts; size_t n0 = n; auto res = insertion_point_index(pts, n, np);
    for (size_t i = 0; i < 4; ++i) if (std::memcmp(&pts[i], &before[i], sizeof(vector3))) { c.fail("insert-mutates", "the points were modified"); return false; }
    switch (res.type) {
    case PT::append: c.event("append"); if (n != n0 + 1 || res.index != n0) { c.fail("insert-append", "append to index %zu of %zu, count %zu", res.index, n0, n); return false; } break;
    case PT::none: c.event("none"); if (n != n0) { c.fail("insert-count", "ignored point changed the count"); return false; } if (n0 == 0) { c.fail("insert-first", "first point ignored"); return false; } break;
    case PT::similar: case PT::replace: c.event(res.type == PT::similar ? "similar" : "replace"); if (n != n0 || res.index >= n0) { c.fail("insert-replace", "replaced index %zu of %zu, count %zu", res.index, n0, n); return false; }
        if (res.type == PT::similar && ddist(pts[res.index], np) > contact_merging_threshold * 1.001) c.fail("insert-similar", "point " F3 " reported similar to " F3, P3(np), P3(pts[res.index])); break;
    default: c.fail("insert-type", "type %d", (int)res.type); return false;
    }
    if (n > max_contacts) { c.fail("insert-capacity", "%zu points", n); return false; }
    auto after = pts; if (res.type != PT::none) after[res.index] = np;
    double S = std::max(span(before, n0), 1e-3); S = std::max(S, span(after, n)); double eps = kEps * 64;
    if (n0 == 1 && ddist(np, before[0]) > contact_merging_threshold * 1.01 && res.type != PT::append) c.fail("insert-second", "a second point %g away was not kept", ddist(np, before[0]));
    if (n0 == 2 && res.type != PT::append) { // collinear: the segment does not shrink
        if (span(after, n) < span(before, 2) - eps * S - contact_merging_threshold * 1e-3) c.fail("insert-span", "the segment shrank from %g to %g", span(before, 2), span(after, n)); }
    if (n0 == 2) { double area2 = dlen2(dcross(D3(np) - D3(before[0]), D3(np) - D3(before[1]))); if (area2 > 4 * kEps + 1e-6 * S * S * S * S && res.type != PT::append) c.fail("insert-third", "a point off the line was not kept (area^2 %g)", area2); }
    if (n0 == 3) { D3 nn = dcross(D3(before[1]) - D3(before[0]), D3(before[2]) - D3(before[0])); double A = dlen(nn);
        if (A > 0.01 * S * S && A * A > 16 * kEps) { nn = nn / A; double off = std::abs(ddot(D3(np) - D3(before[0]), nn)); // barycentric
            D3 P = D3(np) - nn * ddot(D3(np) - D3(before[0]), nn); double m = 1e30; for (int i = 0; i < 3; ++i) { D3 a = before[i], b = before[(i + 1) % 3]; m = std::min(m, ddot(dcross(b - a, P - a), nn) / ddist(a, b)); }
            if ((off > 1e-3 * S || m < -1e-3 * S) && res.type != PT::append) c.fail("insert-fourth", "a point outside the triangle (%g off the plane, %g off the edges) was not kept", off, m);
            if (off == 0 && m > 1e-3 * S && res.type != PT::none && kDouble && false) c.fail("insert-inner", "inner point kept"); }
        else if (A * A < 1e-3 * kEps && A < 1e-4 * S * S) { c.event("collinear3"); if (res.type == PT::replace) { // the outermost two of three collinear points are kept
                double keep = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < i; ++j) if (i != (int)res.index && j != (int)res.index) keep = std::max(keep, ddist(before[i], before[j])); if (keep < span(before, 3) - 1e-3 * S - 1e-5) c.fail("insert-collinear", "three collinear points " F3 F3 F3 ": replaced %zu, the remaining two span %g of %g", P3(before[0]), P3(before[1]), P3(before[2]), res.index, keep, span(before, 3)); } } }
    if (n0 == 4) { double s0 = score(before[0], before[1], before[2], before[3]), best = s0; for (int i = 0; i < 4; ++i) { auto t = before; t[i] = np; best = std::max(best, score(t[0], t[1], t[2], t[3])); } double s1 = score(after[0], after[1], after[2], after[3]); double tol = 1e-4 * best + 1e-12 + kEps * 16 * S * S * S * S;
        if (s1 < s0 - tol) c.fail("insert-score", "the kept set got worse: %g -> %g", s0, s1); if (s1 < best - tol && best > s0 * 1.01) c.fail("insert-best", "kept %g although %g was possible", s1, best); }
    if (res.type != PT::none) pts[res.index] = np;
    return true;
}

VF_SECTION(sequences, 6000, 150000) {
    auto &r = c.r; std::array<vector3, 4> pts; for (auto &p : pts) p = {(scalar)1e30, (scalar)1e30, (scalar)1e30}; size_t n = 0; double S = r.logu(0.02, 10); int mode = (int)r.below(6); vector3 o = rnd_vec(r, 3), d = rnd_unit(r); D3 u = rnd_unitD(r), w = dnorm(dcross(u, D3(0.3, 0.4, 0.7))); uint64_t h = 7; int N = r.range(2, 24); std::vector<vector3> hist;
    for (int i = 0; i < N; ++i) { D3 p; if (mode == 0) p = D3(o) + D3(rnd_vec(r, S)); else if (mode == 1) p = D3(o) + u * r.uni(-S, S) + w * r.uni(-S, S); else if (mode == 2) p = D3(o) + D3(d) * r.uni(-S, S); else if (mode == 3) p = D3(o) + u * (S * r.range(-2, 2)) + w * (S * r.range(-2, 2)); else if (mode == 4) p = D3(o) + u * r.uni(-S, S) + w * (0.02 * S * r.uni(-1, 1)); else p = hist.empty() || r.chance(0.4) ? D3(o) + D3(rnd_vec(r, S)) : D3(r.pick(hist)) + D3(rnd_vec(r, r.logu(1e-5, 0.02)));
        hist.push_back(p.v()); if (!step(c, pts, n, p.v())) return; h = vf::mix(h ^ hv(hist.back())); }
    c.event("sequences"); c.hit(h); c.sample("mode %d, %d candidate points in a region of size %g: kept %zu", mode, N, S, n);
}

// Sets that moved since they were inserted (persistent contacts): any
// configuration, including coincident and collinear points.
VF_SECTION(arbitrary_sets, 20000, 400000) {
    auto &r = c.r; std::array<vector3, 4> pts; size_t n = r.below(5); double S = r.logu(0.05, 5); int mode = (int)r.below(5); D3 d = rnd_unitD(r); for (auto &p : pts) { if (mode == 0) p = rnd_vec(r, S); else if (mode == 1) p = (d * r.uni(-S, S)).v(); else if (mode == 2) { p = vector3_zero; p[0] = (scalar)(S * r.range(-3, 3)); } else if (mode == 3) p = vector3_zero; else { p = rnd_vec(r, S); p.y = 0; } } vector3 np = mode == 3 && r.chance(0.5) ? vector3_zero : mode == 2 && r.chance(0.5) ? vector3{(scalar)r.uni(-S, S), 0, 0} : rnd_vec(r, 1.5 * S); if (mode == 4 && r.chance(0.5)) np.y = 0; step(c, pts, n, np); c.hit(hv(pts, n, np));
}
