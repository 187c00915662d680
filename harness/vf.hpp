// Monitoring runtime shared by all harnesses: deterministic case generation,
// violation recording, coverage accounting, crash attribution and replay.
#ifndef VF_HPP
#define VF_HPP

#include <algorithm>
#include <array>
#include <atomic>
#include <cinttypes>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <unistd.h>
#include <fcntl.h>

namespace vf {

inline uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
    auto *b = (const unsigned char *)p;
    for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; }
    return mix(h);
}
inline uint64_t hash_str(const std::string &s) { return hash_bytes(s.data(), s.size()); }

// xoshiro-like small generator
struct rng {
    uint64_t s;
    explicit rng(uint64_t seed = 1) : s(mix(seed)) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b) { return a + (b - a) * unit(); }
    bool chance(double p) { return unit() < p; }
    double logu(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
    double sign() { return (next() & 1) ? 1.0 : -1.0; }
    template<class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
    template<class T> void shuffle(std::vector<T> &v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]); }
};

struct state {
    uint64_t seed = 1;
    bool thorough = false;
    double scale = 1;
    unsigned shard = 0, shards = 1;
    std::string only_section; long long only_case = -1;
    std::string out;
    unsigned case_timeout = 45; // watchdog per case, seconds (cases take milliseconds)
    // accounting
    uint64_t evaluations = 0;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> events;
    std::vector<std::string> samples;
    std::map<std::string, int> samples_per_section;
    struct viol { std::string key, section, msg; long long idx; };
    std::vector<viol> violations;
    std::map<std::string, int> viol_per_key;
    std::vector<std::string> inconclusive;
    // crash attribution (plain buffers: read from signal handlers)
    char cur_section[128] = "";
    volatile long long cur_case = -1;
    char cur_note[512] = "";
    int fd_crash = -1;
};
inline state &st() { static state *s = new state; return *s; } // never destroyed

inline std::string fmt(const char *f, ...) { char b[256]; va_list v; va_start(v, f); vsnprintf(b, sizeof b, f, v); va_end(v); return b; }
inline void note(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt); vsnprintf(st().cur_note, sizeof(st().cur_note), fmt, ap); va_end(ap);
}

inline void dump_current(const char *why) {
    char buf[1024];
    int n = snprintf(buf, sizeof buf, "VF-CRASH why=%s section=%s case=%lld note=%s\n", why, st().cur_section, (long long)st().cur_case, st().cur_note);
    if (n > 0) { ssize_t r = write(2, buf, (size_t)std::min<int>(n, sizeof buf)); (void)r; }
}

// One generated case.
struct ctx {
    rng r;
    const char *section;
    long long idx;
    bool failed = false;

    // Record a violation of the monitored property. key: stable identifier
    // of the oracle that fired (used for known-findings matching).
    void fail(const std::string &key, const char *fmt, ...) __attribute__((format(printf, 3, 4))) {
        char buf[4096];
        va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
        failed = true;
        auto &s = st();
        if (s.viol_per_key[key]++ < 3) {
            s.violations.push_back({key, section, buf, idx});
            fprintf(stderr, "VF-VIOLATION key=%s section=%s case=%lld: %s\n", key.c_str(), section, idx, buf);
        }
    }
    // Case is non-trivial; identified by h.
    void hit(uint64_t h) { if (st().distinct.size() < 400000) st().distinct.insert(mix(h ^ hash_str(section))); }
    void event(const char *name, uint64_t n = 1) { st().events[std::string(section) + "/" + name] += n; }
    void sample(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
        auto &s = st();
        if (s.samples_per_section[section] >= 2) return;
        s.samples_per_section[section]++;
        char buf[1024];
        va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
        s.samples.push_back(std::string(section) + "#" + std::to_string(idx) + ": " + buf);
    }
    bool want_sample() const { auto &s = st(); auto it = s.samples_per_section.find(section); return it == s.samples_per_section.end() || it->second < 2; }
};

using body_t = std::function<void(ctx &)>;

struct section_def { std::string name; uint64_t quick, thorough; body_t body; };
inline std::vector<section_def> &sections() { static std::vector<section_def> v; return v; }
struct reg { reg(const char *n, uint64_t q, uint64_t t, body_t b) { sections().push_back({n, q, t, std::move(b)}); } };

#define VF_CAT2(a, b) a##b
#define VF_CAT(a, b) VF_CAT2(a, b)
// VF_SECTION(name, quick cases, thorough cases) { body using ctx &c }
#define VF_SECTION(NAME, Q, T) \
    static void VF_CAT(vf_sec_, NAME)(::vf::ctx &c); \
    static ::vf::reg VF_CAT(vf_reg_, NAME)(#NAME, Q, T, VF_CAT(vf_sec_, NAME)); \
    static void VF_CAT(vf_sec_, NAME)(::vf::ctx &c)

inline std::string jesc(const std::string &s) {
    std::string o;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
        else if (ch < 0x20 || ch >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else o += (char)ch;
    }
    return o;
}

inline void write_out() {
    auto &s = st();
    if (s.out.empty()) return;
    FILE *f = fopen(s.out.c_str(), "w");
    if (!f) return;
    fprintf(f, "{\"evaluations\": %" PRIu64 ", \"events\": {", s.evaluations);
    bool first = true;
    for (auto &p : s.events) { fprintf(f, "%s\"%s\": %" PRIu64, first ? "" : ", ", jesc(p.first).c_str(), p.second); first = false; }
    fprintf(f, "}, \"samples\": [");
    first = true;
    for (auto &x : s.samples) { fprintf(f, "%s\"%s\"", first ? "" : ", ", jesc(x).c_str()); first = false; }
    fprintf(f, "], \"inconclusive\": [");
    first = true;
    for (auto &x : s.inconclusive) { fprintf(f, "%s\"%s\"", first ? "" : ", ", jesc(x).c_str()); first = false; }
    fprintf(f, "], \"violations\": [");
    first = true;
    for (auto &v : s.violations) {
        fprintf(f, "%s{\"key\": \"%s\", \"section\": \"%s\", \"case\": %lld, \"msg\": \"%s\"}", first ? "" : ", ",
                jesc(v.key).c_str(), jesc(v.section).c_str(), v.idx, jesc(v.msg).c_str());
        first = false;
    }
    fprintf(f, "], \"viol_counts\": {");
    first = true;
    for (auto &p : s.viol_per_key) { fprintf(f, "%s\"%s\": %d", first ? "" : ", ", jesc(p.first).c_str(), p.second); first = false; }
    fprintf(f, "}, \"complete\": true}\n");
    fclose(f);
    // distinct hashes
    std::string hp = s.out + ".hashes";
    f = fopen(hp.c_str(), "wb");
    if (f) { for (auto h : s.distinct) fwrite(&h, sizeof h, 1, f); fclose(f); }
}

} // namespace vf

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
extern "C" void __sanitizer_print_stack_trace() __attribute__((weak));

namespace vf {
inline void on_signal(int sig) {
    const char *n = sig == SIGABRT ? "SIGABRT" : sig == SIGSEGV ? "SIGSEGV" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : sig == SIGILL ? "SIGILL" : (sig == SIGTERM || sig == SIGALRM) ? "TIMEOUT" : "SIGNAL";
    dump_current(n);
    if (sig == SIGABRT && __sanitizer_print_stack_trace) __sanitizer_print_stack_trace();
    signal(sig, SIG_DFL);
    raise(sig);
}

inline int run(int argc, char **argv) {
    auto &s = st();
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--seed") s.seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--thorough") s.thorough = true;
        else if (a == "--scale") s.scale = atof(val().c_str());
        else if (a == "--shard") { auto v = val(); sscanf(v.c_str(), "%u/%u", &s.shard, &s.shards); }
        else if (a == "--section") s.only_section = val();
        else if (a == "--case") s.only_case = atoll(val().c_str());
        else if (a == "--out") s.out = val();
        else if (a == "--list") { for (auto &d : sections()) printf("%s %" PRIu64 " %" PRIu64 "\n", d.name.c_str(), d.quick, d.thorough); return 0; }
    }
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback([] { dump_current("SANITIZER"); });
    signal(SIGABRT, on_signal);
    signal(SIGTERM, on_signal);
    signal(SIGALRM, on_signal);
#if !defined(VF_ASAN) && !defined(VF_TSAN)
    signal(SIGSEGV, on_signal); signal(SIGFPE, on_signal); signal(SIGBUS, on_signal); signal(SIGILL, on_signal);
#endif
    for (auto &d : sections()) {
        if (!s.only_section.empty() && d.name != s.only_section) continue;
        uint64_t n = (uint64_t)std::max(1.0, std::ceil((s.thorough ? d.thorough : d.quick) * s.scale));
        if ((s.thorough ? d.thorough : d.quick) == 0) continue;
        snprintf(s.cur_section, sizeof s.cur_section, "%s", d.name.c_str());
        for (uint64_t i = 0; i < n; ++i) {
            if (s.only_case >= 0 && (long long)i != s.only_case) continue;
            if (s.only_case < 0 && (i % s.shards) != s.shard) continue;
            s.cur_case = (long long)i;
            s.cur_note[0] = 0;
            ctx c{rng(mix(s.seed) ^ hash_str(d.name) ^ mix(i * 2654435761ull)), d.name.c_str(), (long long)i};
            ++s.evaluations;
            alarm(s.case_timeout);
            d.body(c);
        }
        s.cur_case = -1;
    }
    alarm(0);
    write_out();
    return s.violations.empty() ? 0 : 3;
}
} // namespace vf

#ifndef VF_NO_MAIN
int main(int argc, char **argv) { return vf::run(argc, argv); }
#endif

#endif
