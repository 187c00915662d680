// Narrow phase: contact generation between all pairs of shapes.
#include "convex.hpp"
#include <cfenv>
#include "edyn/collision/collide.hpp"
using namespace edyn;
static collision_context mk_ctx(const Conv &a, const Conv &b) { collision_context x; x.posA = a.pos; x.ornA = a.orn; x.posB = b.pos; x.ornB = b.orn; x.threshold = collision_threshold; a.with([&](auto &&s) { x.aabbA = shape_aabb(s, a.pos, a.orn); }); b.with([&](auto &&s) { x.aabbB = shape_aabb(s, b.pos, b.orn); }); return x; }
static collision_result run_collide(const Conv &a, const Conv &b) { collision_result r; auto x = mk_ctx(a, b); a.with([&](auto &&s) { b.with([&](auto &&t) { collide(s, t, x, r); }); }); return r; }
#ifdef VF_PROBE
struct St { std::vector<double> miss, sdA, sdB, dist, opt, nrm, sepn; int n = 0; };
static std::map<std::string, St> S_; static void pct(const char *n, std::vector<double> v) { if (v.empty()) return; std::sort(v.begin(), v.end()); printf("   %s n=%zu p50=%.2e p90=%.2e p99=%.2e p999=%.2e max=%.2e\n", n, v.size(), v[v.size() / 2], v[v.size() * 9 / 10], v[v.size() * 99 / 100], v[v.size() * 999 / 1000], v.back()); }
struct Dump { ~Dump() { for (auto &p : S_) { printf("%s: %d\n", p.first.c_str(), p.second.n); pct("miss", p.second.miss); pct("sdA", p.second.sdA); pct("sdB", p.second.sdB); pct("dist", p.second.dist); pct("sepn", p.second.sepn); pct("opt", p.second.opt); } } };
static Dump *dump_ = nullptr;
VF_SECTION(probe, 60000, 100000) {
    if (!dump_) { dump_ = new Dump; atexit([] { delete dump_; }); }
    auto &r = c.r; int ka = (int)r.below(5), kb = (int)r.below(5); double S = 1; Conv a = rnd_conv(r, ka, S), b = rnd_conv(r, kb, S); a.place(rnd_vec(r, 2), rnd_quat(r)); b.place(vector3_zero, rnd_quat(r)); D3 n = rnd_unitD(r); double gap = r.chance(0.5) ? r.uni(-0.05, 0.015) : r.uni(-0.3, 0.02); D3 t = rnd_unitD(r) * r.uni(0, 0.5); t = t - n * ddot(t, n);
    double s0 = sep(a, b, n); b.place((D3(b.p) + n * (s0 - gap) + t).v(), b.orn); D3 bn; double D = sep_max(a, b, r, &bn, 40); for (int it = 0; it < 3 && std::abs(D - gap) > 1e-3; ++it) { b.place((D3(b.p) + bn * (D - gap)).v(), b.orn); D = sep_max(a, b, r, &bn, it ? 150 : 60); } D = sep_max(a, b, r, &bn); if (D > 0.03) return; vf::note("%s %s D=%g", kShapeName[ka], kShapeName[kb], D); if (getenv("FPE")) feenableexcept(FE_INVALID); auto res = run_collide(a, b); fedisableexcept(FE_INVALID); auto &s = S_[std::string(kShapeName[ka]) + "-" + kShapeName[kb]]; s.n++;
    auto rep = [&](const char *w, double v) { printf("ANOM %s %s-%s case=%lld D=%g v=%g | A r=%g h=%g ax=%d he=%g,%g,%g %s; B r=%g h=%g ax=%d he=%g,%g,%g %s pts=%zu bn=(%g %g %g)\n", w, kShapeName[ka], kShapeName[kb], c.idx, D, v, a.r, a.h, a.ax, a.he.x, a.he.y, a.he.z, a.poly.kind, b.r, b.h, b.ax, b.he.x, b.he.y, b.he.z, b.poly.kind, res.num_points, P3(bn)); };
    if (!res.num_points && D < -0.001) rep("miss", D);
    for (size_t i = 0; i < res.num_points; ++i) { auto &p = res.point[i]; D3 A = dto_world(p.pivotA, a.p, a.q), B = dto_world(p.pivotB, b.p, b.q); if (!finite(A) || !finite(B)) rep("nan", 0); double e; if ((e = std::abs(a.sd(A))) > 6e-3) rep("sdA", e); if ((e = std::abs(b.sd(B))) > 6e-3) rep("sdB", e); if ((e = std::abs(ddot(A - B, p.normal) - p.distance)) > 6e-3) rep("dist", e); if ((e = std::abs(p.distance - sep(a, b, p.normal))) > 6e-3) rep("sepn", e); if ((e = D - p.distance) > 3e-3) rep("opt", e); }
    if (!res.num_points) { if (D < 0.01) s.miss.push_back(0.01 - D); return; } double dm = 1e9;
    for (size_t i = 0; i < res.num_points; ++i) { auto &p = res.point[i]; D3 A = dto_world(p.pivotA, a.p, a.q), B = dto_world(p.pivotB, b.p, b.q); s.sdA.push_back(std::abs(a.sd(A))); s.sdB.push_back(std::abs(b.sd(B))); s.dist.push_back(std::abs(ddot(A - B, p.normal) - p.distance)); dm = std::min(dm, (double)p.distance); s.sepn.push_back(std::abs(p.distance - sep(a, b, p.normal))); }
    s.opt.push_back(D - dm);
    c.hit(c.idx);
}
#endif
