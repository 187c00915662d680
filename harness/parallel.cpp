// C01/C02: job queue, worker, dispatcher, counter sync.
// Every job carries a unique id; monitors record executions at the client
// boundary and check them against the submitted set.
#include "vf.hpp"
#include "delay.hpp"
#include <chrono>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>
#include "edyn/build_settings.h"
#include "edyn/parallel/job.hpp"
#include "edyn/parallel/job_queue.hpp"
#include "edyn/parallel/job_dispatcher.hpp"
#include "edyn/parallel/worker.hpp"
#include "edyn/parallel/atomic_counter_sync.hpp"
#include "edyn/context/start_thread.hpp"

using namespace edyn;
#ifndef VF_PART
#define VF_PART 3
#endif
static void perturb(vf::ctx &c) {
    vfdelay::seed = c.r.next();
    static const int lv[] = {0, 5, 30, 120, 300};
    vfdelay::enabled = lv[c.r.below(5)];
}
static void calm(vf::ctx &c) {
    vfdelay::enabled = 0;
    if (auto n = vfdelay::injected.exchange(0)) c.event("delays_injected", n);
}

// ---- the recorded history ----
struct history {
    std::unique_ptr<std::atomic<uint32_t>[]> runs;   // executions per id
    std::atomic<uint64_t> executed{0}, corrupt{0}, foreign{0}, after_stop{0};
    std::atomic<uint64_t> order_hash{0};
    std::atomic<bool> stopped{false};
    std::mutex mtx;
    std::vector<std::pair<uint32_t, std::thread::id>> order; // id, executing thread
    std::set<std::thread::id> producers;
    size_t n;
    explicit history(size_t n) : runs(new std::atomic<uint32_t>[n]), n(n) { for (size_t i = 0; i < n; ++i) runs[i] = 0; }
};
struct payload { history *h; uint32_t id; uint32_t spin; uint8_t fill[40]; };
static_assert(sizeof(payload) <= job::data_size);

static void exec_job(job::data_type &d) {
    payload p;
    std::memcpy(&p, d.data(), sizeof p);
    auto *h = p.h;
    for (size_t i = 0; i < sizeof p.fill; ++i)
        if (p.fill[i] != (uint8_t)(p.id * 31 + i)) { h->corrupt++; break; }
    if (p.id >= h->n) { h->corrupt++; return; }
    if (h->stopped.load()) h->after_stop++;
    for (volatile uint32_t k = 0; k < p.spin; k = k + 1) {}
    if (p.spin & 1) std::this_thread::yield();
    h->runs[p.id]++;
    {
        std::lock_guard<std::mutex> l(h->mtx);
        h->order.emplace_back(p.id, std::this_thread::get_id());
    }
    h->executed++;
}
static job make_job(history &h, uint32_t id, uint32_t spin) {
    job j{};
    payload p{&h, id, spin, {}};
    for (size_t i = 0; i < sizeof p.fill; ++i) p.fill[i] = (uint8_t)(id * 31 + i);
    std::memcpy(j.data.data(), &p, sizeof p);
    j.func = &exec_job;
    return j;
}
static bool wait_for(const std::function<bool()> &f, double secs = 20) {
    auto t = std::chrono::steady_clock::now();
    while (!f()) {
        if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t).count() > secs) return false;
        std::this_thread::sleep_for(std::chrono::microseconds(50));
    }
    return true;
}
static uint64_t interleaving(const history &h) { // order of producers' jobs as executed, threads normalised
    std::map<std::thread::id, int> tn; uint64_t k = 7;
    for (auto &e : h.order) { int t = tn.emplace(e.second, (int)tn.size()).first->second; k = vf::mix(k ^ (e.first * 64ull + t)); }
    return k;
}

#if VF_PART & 1
// Queue under P producers and C consumers: no loss, no duplication, FIFO.
VF_SECTION(queue_mpmc, 400, 6000) {
    perturb(c);
    int P = c.r.range(1, 4), C = c.r.range(1, 4), K = c.r.range(1, 120);
    bool tries = c.r.chance(0.4);
    history h((size_t)P * K);
    job_queue q;
    int total = P * K;
    std::atomic<int> taken{0};
    std::vector<std::vector<uint32_t>> got(C);
    std::vector<std::thread> th;
    for (int k = 0; k < C; ++k)
        th.emplace_back([&, k] {
            for (;;) {
                if (taken.fetch_add(1) >= total) break;
                job j;
                if (tries && (k & 1)) { while (!q.try_pop(j)) std::this_thread::yield(); }
                else j = q.pop();
                payload p; std::memcpy(&p, j.data.data(), sizeof p);
                got[k].push_back(p.id);
                j();
            }
        });
    uint64_t sd = c.r.next();
    for (int k = 0; k < P; ++k)
        th.emplace_back([&, k] {
            vf::rng r(sd + k);
            for (int i = 0; i < K; ++i) {
                q.push(make_job(h, (uint32_t)(k * K + i), 0));
                if (r.chance(0.1)) std::this_thread::yield();
            }
        });
    for (auto &t : th) t.join();
    calm(c);
    for (int i = 0; i < total; ++i)
        if (h.runs[i] != 1) { c.fail("queue-exactly-once", "P=%d C=%d K=%d: job %d obtained %u times", P, C, K, i, h.runs[i].load()); break; }
    if (h.corrupt) c.fail("job-payload", "%llu jobs ran with a payload different from the one submitted", (unsigned long long)h.corrupt.load());
    for (auto &g : got) { // each consumer must see each producer's jobs in submission order
        std::vector<int> last(P, -1);
        for (auto id : g) { int p = (int)(id / K), s = (int)(id % K); if (s <= last[p]) { c.fail("queue-fifo", "consumer saw job %d of producer %d after job %d", s, p, last[p]); break; } last[p] = s; }
    }
    job j;
    if (q.size() != 0 || q.try_pop(j)) c.fail("queue-size", "queue not empty after every job was taken (size %zu)", q.size());
    c.event("jobs", total); c.hit(interleaving(h));
    c.sample("%d producers x %d jobs, %d consumers (%s): all %d jobs obtained exactly once in FIFO order", P, K, C, tries ? "pop+try_pop" : "pop", total);
}

// Sequential model: arbitrary op sequences against a deque.
VF_SECTION(queue_model, 400, 5000) {
    history h(4096);
    job_queue q; std::vector<uint32_t> m; size_t head = 0; uint32_t id = 0; uint64_t hh = 0;
    int n = c.r.range(1, 200);
    for (int i = 0; i < n; ++i) {
        int op = (int)c.r.below(5);
        hh = vf::mix(hh ^ op);
        if (op < 2 && id < 4096) { q.push(make_job(h, id, 0)); m.push_back(id++); }
        else if (op == 2 && head < m.size()) { auto j = q.pop(); payload p; std::memcpy(&p, j.data.data(), sizeof p); if (p.id != m[head]) c.fail("queue-fifo", "pop returned job %u, oldest is %u", p.id, m[head]); ++head; }
        else if (op == 3) { job j; bool ok = q.try_pop(j); if (ok != (head < m.size())) c.fail("queue-try-pop", "try_pop returned %d with %zu jobs queued", ok, m.size() - head); else if (ok) { payload p; std::memcpy(&p, j.data.data(), sizeof p); if (p.id != m[head]) c.fail("queue-fifo", "try_pop returned job %u, oldest is %u", p.id, m[head]); ++head; } }
        if (q.size() != m.size() - head) c.fail("queue-size", "size() is %zu with %zu jobs queued", q.size(), m.size() - head);
        if (c.failed) break;
    }
    c.event("ops", n); c.hit(hh);
}

// A consumer blocked on an empty queue is woken by a push (bounded progress).
VF_SECTION(queue_wakeup, 150, 2000) {
    perturb(c);
    int C = c.r.range(1, 6), rounds = c.r.range(1, 30);
    job_queue q; history h((size_t)C * rounds);
    std::atomic<int> done{0};
    std::vector<std::thread> th;
    for (int k = 0; k < C; ++k) th.emplace_back([&] { for (int i = 0; i < rounds; ++i) { auto j = q.pop(); j(); done++; } });
    bool ok = true;
    for (int i = 0; i < C * rounds && ok; ++i) {
        q.push(make_job(h, i, 0));
        if (c.r.chance(0.5)) { int want = i + 1; ok = wait_for([&] { return done.load() >= want; }); }
    }
    if (ok) ok = wait_for([&] { return done.load() >= C * rounds; });
    if (!ok) { c.fail("queue-lost-wakeup", "%d consumers blocked in pop() although %zu jobs are queued", C, q.size()); for (int i = 0; i < C * rounds; ++i) q.push(job::noop()); }
    for (auto &t : th) t.join();
    calm(c);
    c.event("wakeups", (uint64_t)C * rounds); c.hit(interleaving(h));
}

// Dispatcher: several producers, jobs that submit jobs; exactly once each.
struct nested_payload { job_dispatcher *d; history *h; uint32_t id, fan; };
static void exec_nested(job::data_type &dd) {
    nested_payload p; std::memcpy(&p, dd.data(), sizeof p);
    for (uint32_t i = 1; i <= p.fan; ++i) p.d->async(make_job(*p.h, p.id + i, i & 3));
    p.h->runs[p.id]++;
    { std::lock_guard<std::mutex> l(p.h->mtx); p.h->order.emplace_back(p.id, std::this_thread::get_id()); }
    p.h->executed++;
}
VF_SECTION(dispatcher_exactly_once, 300, 5000) {
    perturb(c);
    int W = c.r.range(1, 6), P = c.r.range(1, 4), K = c.r.range(1, 80), F = c.r.range(0, 3);
    size_t per = (size_t)K * (F + 1), total = per * P;
    history h(total);
    auto self = std::this_thread::get_id();
    {
        job_dispatcher d;
        d.start(W);
        if (!d.running() || d.num_workers() != (size_t)W) c.fail("dispatcher-workers", "start(%d): running=%d num_workers=%zu", W, d.running(), d.num_workers());
        std::vector<std::thread> th;
        uint64_t sd = c.r.next();
        std::vector<std::thread::id> pid(P);
        for (int k = 0; k < P; ++k) th.emplace_back([&, k] {
            vf::rng r(sd + k);
            for (int i = 0; i < K; ++i) {
                uint32_t id = (uint32_t)(k * per + (size_t)i * (F + 1));
                if (F == 0) d.async(make_job(h, id, (uint32_t)r.below(40)));
                else { job j{}; nested_payload p{&d, &h, id, (uint32_t)F}; std::memcpy(j.data.data(), &p, sizeof p); j.func = &exec_nested; d.async(j); }
                if (r.chance(0.05)) std::this_thread::yield();
            }
        });
        for (int k = 0; k < P; ++k) pid[k] = th[k].get_id();
        for (auto &t : th) t.join();
        if (!wait_for([&] { return h.executed.load() >= total; }))
            c.fail("dispatcher-lost-job", "W=%d P=%d K=%d F=%d: %llu of %zu jobs executed, the rest never ran", W, P, K, F, (unsigned long long)h.executed.load(), total);
        d.stop();
        if (d.running() || d.num_workers() != 0) c.fail("dispatcher-workers", "after stop: running=%d num_workers=%zu", d.running(), d.num_workers());
        for (size_t i = 0; i < total; ++i) if (h.runs[i] > 1) { c.fail("dispatcher-duplicate", "job %zu executed %u times", i, h.runs[i].load()); break; }
        if (h.corrupt) c.fail("job-payload", "%llu jobs ran with a payload different from the one submitted", (unsigned long long)h.corrupt.load());
        std::set<std::thread::id> ex; for (auto &e : h.order) ex.insert(e.second);
        if (ex.size() > (size_t)W || ex.count(self)) c.fail("dispatcher-threads", "%zu threads executed jobs for %d workers (caller included: %d)", ex.size(), W, (int)ex.count(self));
        for (auto &p : pid) if (ex.count(p)) c.fail("dispatcher-threads", "a job ran on the submitting thread");
        if (W == 1 && F == 0) { // a single worker preserves each producer's order
            std::vector<long> last(P, -1);
            for (auto &e : h.order) { int p = (int)(e.first / per); long s = (long)(e.first % per); if (s <= last[p]) { c.fail("dispatcher-fifo", "single worker ran job %ld of producer %d after %ld", s, p, last[p]); break; } last[p] = s; }
        }
    }
    calm(c);
    c.event("jobs", total); c.event(W == 1 ? "single_worker" : "multi_worker"); c.hit(interleaving(h));
    c.sample("%d workers, %d producers x %d jobs each fanning out %d: %zu jobs executed exactly once", W, P, K, F, total);
}

// W jobs given to W idle workers run concurrently (they meet at a barrier).
struct barrier { std::atomic<int> n{0}; int want = 0; std::atomic<int> timeouts{0}; };
VF_SECTION(dispatcher_concurrency, 80, 1200) {
    perturb(c);
    int W = c.r.range(1, 6);
    job_dispatcher d; d.start(W);
    barrier b; b.want = W;
    auto fn = +[](job::data_type &dd) {
        barrier *b; std::memcpy(&b, dd.data(), sizeof b);
        b->n++;
        if (!wait_for([&] { return b->n.load() >= b->want; }, 10)) b->timeouts++;
        b->n++; // leave count
    };
    for (int i = 0; i < W; ++i) { job j{}; barrier *p = &b; std::memcpy(j.data.data(), &p, sizeof p); j.func = fn; d.async(j); }
    wait_for([&] { return b.n.load() >= 2 * W; }, 60);
    if (b.timeouts) c.fail("dispatcher-concurrency", "%d jobs given to %d idle workers did not run concurrently", W, W);
    d.stop(); calm(c);
    c.event("barriers"); c.hit(W * 977 + c.idx);
}

// worker::once drains everything queued, in order, and returns.
VF_SECTION(worker_once, 200, 2000) {
    worker w; int n = c.r.range(0, 60); history h(n + 1);
    if (w.size() != 0) c.fail("worker-size", "fresh worker reports %zu jobs", w.size());
    for (int i = 0; i < n; ++i) { w.push_job(make_job(h, i, 0)); if (w.size() != (size_t)i + 1) c.fail("worker-size", "size %zu after %d pushes", w.size(), i + 1); }
    w.once();
    if (h.order.size() != (size_t)n) c.fail("worker-once", "once() ran %zu of %d jobs", h.order.size(), n);
    for (size_t i = 0; i < h.order.size(); ++i) if (h.order[i].first != i) { c.fail("worker-fifo", "job %u ran in position %zu", h.order[i].first, i); break; }
    if (w.size() != 0) c.fail("worker-size", "size %zu after draining", w.size());
    c.event("jobs", n); c.hit(n);
}

// atomic_counter_sync: wait() returns exactly when the last party decremented.
VF_SECTION(counter_sync, 300, 4000) {
    perturb(c);
    int N = c.r.range(1, 8);
    std::vector<int> plain(N, 0); // written before decrement, read after wait: must be visible and race-free
    std::vector<std::thread> th;
    {
        auto sync = std::make_unique<atomic_counter_sync>((size_t)N);
        for (int k = 0; k < N; ++k) th.emplace_back([&, s = sync.get(), k] { plain[k] = k + 1; s->decrement(); });
        sync->wait();
        for (int k = 0; k < N; ++k) if (plain[k] != k + 1) { c.fail("counter-early", "wait() returned before party %d of %d decremented", k, N); break; }
        for (auto &t : th) t.join();
    }
    calm(c);
    c.event("parties", N); c.hit(N * 131 + c.idx % 64);
}
#endif

#if VF_PART & 2
// ---------------- lifecycle (C02) ----------------
// start/stop in any pattern terminates; nothing runs after stop returned.
VF_SECTION(start_stop, 600, 8000) {
    perturb(c);
    int cycles = c.r.range(1, 5);
    auto d = std::make_unique<job_dispatcher>();
    if (d->running() || d->num_workers() != 0) c.fail("lifecycle-idle", "a dispatcher that was never started reports running=%d workers=%zu", d->running(), d->num_workers());
    if (c.r.chance(0.1)) d->stop(); // stop before start is a no-op
    uint64_t hh = 3;
    for (int k = 0; k < cycles; ++k) {
        int W = c.r.range(1, 6), J = c.r.chance(0.4) ? 0 : c.r.range(1, 40);
        history h(J + 1);
        vf::note("cycle %d of %d, %d workers, %d jobs", k, cycles, W, J);
        d->start(W);
        if (!d->running() || d->num_workers() != (size_t)W) c.fail("lifecycle-workers", "start(%d): running=%d num_workers=%zu", W, d->running(), d->num_workers());
        for (int i = 0; i < J; ++i) d->async(make_job(h, i, (uint32_t)c.r.below(200)));
        bool drain = c.r.chance(0.3);
        if (drain && !wait_for([&] { return h.executed.load() >= (uint64_t)J; })) c.fail("lifecycle-lost-job", "W=%d: %llu of %d jobs executed by a dispatcher restarted %d times", W, (unsigned long long)h.executed.load(), J, k);
        bool dtor = k + 1 == cycles && c.r.chance(0.5);
        if (dtor) d.reset(); else d->stop();
        h.stopped = true;
        auto ex = h.executed.load();
        if (!dtor && (d->running() || d->num_workers() != 0)) c.fail("lifecycle-workers", "after stop: running=%d num_workers=%zu", d->running(), d->num_workers());
        for (int i = 0; i < J; ++i) if (h.runs[i] > 1) { c.fail("lifecycle-duplicate", "job %d executed %u times", i, h.runs[i].load()); break; }
        if (c.r.chance(0.1)) std::this_thread::sleep_for(std::chrono::microseconds(300));
        if (h.after_stop || h.executed.load() != ex) c.fail("lifecycle-after-stop", "a job ran after stop() returned");
        if (h.corrupt) c.fail("job-payload", "a job ran with a corrupted payload");
        c.event(dtor ? "stopped_by_destructor" : "stopped"); c.event(J == 0 ? "immediate_stop" : drain ? "drained_stop" : "pending_stop");
        c.event("jobs_dropped_at_stop", J - ex);
        hh = vf::mix(hh ^ (W * 64 + J) ^ (ex << 20) ^ (drain << 30));
        if (dtor) break;
        if (c.r.chance(0.15)) d->stop(); // idempotent
    }
    calm(c);
    c.hit(hh ^ c.idx);
    c.sample("%d start/stop cycles with delayed thread start and queued jobs: every stop returned, no job ran afterwards", cycles);
}

// A bare worker on its own thread: stop() requested at any time ends run(),
// including before the thread got to run().
VF_SECTION(worker_stop, 400, 5000) {
    perturb(c);
    auto w = std::make_unique<worker>(); int J = c.r.range(0, 20); history h(J + 1);
    bool before = c.r.chance(0.3);
    for (int i = 0; before && i < J; ++i) w->push_job(make_job(h, i, 0));
    std::atomic<bool> ended{false};
    std::thread t([&] { w->run(); ended = true; });
    for (int i = 0; !before && i < J; ++i) w->push_job(make_job(h, i, 0));
    if (c.r.chance(0.4)) std::this_thread::sleep_for(std::chrono::microseconds(c.r.below(200)));
    w->stop();
    vf::note("J=%d before=%d", J, before);
    if (!wait_for([&] { return ended.load(); }, 20)) c.fail("worker-stop", "run() did not return although stop() was called (%d jobs)", J);
    if (c.failed) { vf::write_out(); _exit(3); }
    t.join();
    for (int i = 0; i < J; ++i) if (h.runs[i] > 1) { c.fail("worker-duplicate", "job %d executed %u times", i, h.runs[i].load()); break; }
    calm(c);
    c.event("stops"); c.hit(J * 2 + before + (h.executed.load() << 12));
}

// The number of jobs a worker reports never goes below zero, whatever the
// interleaving of submission and completion (it drives load balancing).
VF_SECTION(worker_load, 200, 3000) {
    perturb(c);
    worker w; int J = c.r.range(1, 200); history h(J);
    std::thread t([&] { w.run(); });
    std::atomic<bool> stop{false}; std::atomic<size_t> worst{0};
    std::thread mon([&] { while (!stop) { auto s = w.size(); if (s > worst) worst = s; } });
    for (int i = 0; i < J; ++i) w.push_job(make_job(h, i, 0));
    bool ok = wait_for([&] { return h.executed.load() >= (uint64_t)J; });
    if (!ok) c.fail("worker-lost-job", "%llu of %d jobs ran", (unsigned long long)h.executed.load(), J);
    if (!wait_for([&] { return w.size() == 0; }, 10)) c.fail("worker-load", "idle worker reports %zu queued jobs", w.size());
    stop = true; mon.join();
    w.stop(); t.join();
    if (worst > (size_t)J + 1) c.fail("worker-load", "worker reported %zu queued jobs after only %d were submitted", worst.load(), J);
    calm(c);
    c.event("jobs", J); c.hit(J + (uint64_t)worst * 1000);
}
// A started thread runs its function exactly once, with its argument, without the caller waiting for it.
VF_SECTION(thread_start, 150, 2000) {
    perturb(c);
    struct call { std::atomic<int> runs{0}; std::atomic<bool> go{false}, done{false}; int plain{0}; std::thread::id id; call *self; };
    int n = c.r.range(1, 6); std::vector<call> calls(n); void (*f)(void *) = [](void *p) { auto *k = static_cast<call *>(p); ++k->plain; k->id = std::this_thread::get_id(); ++k->runs; while (!k->go) std::this_thread::yield(); k->done = true; };
    for (auto &k : calls) { vf::note("starting a thread"); k.plain = 41; edyn::start_thread_func_default(f, &k); }
    bool run = wait_for([&] { for (auto &k : calls) if (!k.runs) return false; return true; }, 20);
    if (!run) c.fail("thread-start", "a thread that was started does not run its function");
    for (auto &k : calls) if (k.runs && k.plain != 42) c.fail("thread-start", "a started function ran with something else than its argument");
    for (auto &k : calls) if (k.runs && k.id == std::this_thread::get_id()) c.fail("thread-start", "a started function ran in the calling thread");
    for (auto &k : calls) k.go = true;
    if (run && !wait_for([&] { for (auto &k : calls) if (!k.done) return false; return true; }, 20)) c.fail("thread-start", "a started thread does not end");
    for (auto &k : calls) if (k.runs > 1) c.fail("thread-start", "a started function ran %d times", k.runs.load());
    if (c.failed) { vf::write_out(); _exit(3); }
    calm(c);
    c.event("threads", n); c.hit(n);
}
#endif
