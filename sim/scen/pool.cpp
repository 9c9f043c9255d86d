// Thread pool scenarios: exactly-once execution, progress, failure handling, many callers.
#include "simrt.h"
#include "svs/lib/threads.h"
#include "svs/lib/exception.h"
#include <algorithm>
#include <limits>
#include <memory>
#include <stdexcept>
#include <thread>
#include <vector>

using namespace sim;
namespace th = svs::threads;
using Pool = th::NativeThreadPoolBase<th::DefaultBuilder>;

namespace {

// Spin budgets: from "goes to sleep at once" to "never sleeps".
uint64_t draw_spin() {
    static const uint64_t v[] = {1, 2, 3, 8, 40, 400, 3000};
    return v[knob("spin", 0, 6)];
}

void faults_schedule() {
    static const uint32_t r[] = {0, 2000, 50000, 300000};
    fault_rate(F_SPURIOUS_WAKE, r[knob("rate_spurious", 0, 3)]);
    fault_rate(F_CAS_WEAK, r[knob("rate_cas", 0, 3)]);
}

// Some pauses are long enough for every worker to fall asleep.
void pause_for(uint64_t kind) {
    switch (kind) {
        case 0: break;
        case 1: sim::yield(); break;
        case 2: std::this_thread::sleep_for(std::chrono::microseconds(3)); break;
        default: std::this_thread::sleep_for(std::chrono::milliseconds(50)); break;
    }
}

struct Tally {
    std::vector<uint32_t> started, finished;
    explicit Tally(size_t n)
        : started(n, 0)
        , finished(n, 0) {}
};

struct OtherFailure {
    int code;
};

// An exception type of the user's own, holding a message of its own.
struct Derived : std::exception {
    std::string text;
    explicit Derived(std::string t)
        : text(std::move(t)) {}
    const char* what() const noexcept override { return text.c_str(); }
};

// ---------------------------------------------------------------- one job of each kind
void job_raw(Pool& pool, uint64_t tag) {
    size_t n = pool.size();
    Tally t(n + 4);
    uint64_t input = tag * 77 + 1; // written by the caller, read by the workers
    auto f = [&](size_t tid) {
        SIM_CHECK(tid < n, "worker-number", "worker number %zu of %zu", tid, n);
        t.started[tid]++;
        SIM_CHECK(input == tag * 77 + 1, "stale-input", "a worker saw stale input");
        t.finished[tid]++;
    };
    pool.run(th::FunctionRef(f));
    for (size_t i = 0; i < n; ++i) {
        SIM_CHECK(t.started[i] == 1 && t.finished[i] == 1, "not-exactly-once",
                  "worker %zu of %zu ran the job %u times (finished %u) when run returned", i, n,
                  t.started[i], t.finished[i]);
    }
    input = 0; // would be a race if a worker were still inside the job
    note(tag);
}

// How a partition is described to the pool.
template <typename P>
void job_partition(Pool& pool, size_t n, P&& part, bool is_static, uint64_t off = 0) {
    size_t nthreads = pool.size();
    std::vector<uint32_t> seen(n, 0);
    std::vector<uint32_t> calls(nthreads + 2, 0);
    th::run(pool, std::forward<P>(part), [&](const auto& is, uint64_t tid) {
        SIM_CHECK(tid < nthreads, "worker-number", "worker number %llu of %zu",
                  (unsigned long long)tid, nthreads);
        calls[tid]++;
        for (auto i : is) {
            SIM_CHECK(i - off < n, "out-of-range", "element %zu of %zu handed out", (size_t)(i - off), n);
            seen[i - off]++;
        }
    });
    for (size_t i = 0; i < n; ++i) {
        SIM_CHECK(seen[i] == 1, "not-covered-once",
                  "element %zu of %zu was processed %u times by %zu workers", i, n, seen[i],
                  nthreads);
    }
    if (is_static) {
        for (size_t i = 0; i < nthreads; ++i) {
            SIM_CHECK(calls[i] <= 1, "static-twice", "worker %zu got two static parts", i);
        }
    }
    note(n);
}

// Ranges far too long to be walked: the parts handed out must tile `[first, first + n)`.
template <typename T, typename P>
void job_tiles(Pool& pool, T first, uint64_t n, P&& part, const char* what) {
    struct Part {
        T first;
        uint64_t count;
        T last;
    };
    size_t nthreads = pool.size();
    std::vector<std::vector<Part>> parts(nthreads);
    th::run(pool, std::forward<P>(part), [&](const auto& is, uint64_t tid) {
        SIM_CHECK(tid < nthreads, "worker-number", "worker number %llu of %zu",
                  (unsigned long long)tid, nthreads);
        parts[tid].push_back({*is.begin(), is.size(), *(is.end() - 1)});
    });
    std::vector<Part> all;
    for (auto& v : parts) {
        all.insert(all.end(), v.begin(), v.end());
    }
    std::sort(all.begin(), all.end(), [](const Part& a, const Part& b) {
        return a.first < b.first;
    });
    using U = std::make_unsigned_t<T>;
    uint64_t covered = 0;
    for (auto& q : all) {
        uint64_t at = (uint64_t)(U)((U)q.first - (U)first);
        SIM_CHECK(at == covered, "not-covered-once",
                  "%s of %llu elements from %lld on %zu workers: a part starts at element %llu, "
                  "the parts before it end at %llu",
                  what, (unsigned long long)n, (long long)first, nthreads, (unsigned long long)at,
                  (unsigned long long)covered);
        SIM_CHECK(q.count >= 1 && q.count <= n - covered, "not-covered-once",
                  "%s of %llu elements: a part at %llu has %llu elements", what,
                  (unsigned long long)n, (unsigned long long)at, (unsigned long long)q.count);
        SIM_CHECK((U)((U)q.last - (U)q.first) == (U)(q.count - 1), "not-covered-once",
                  "%s of %llu elements: the part at %llu ends at the wrong element", what,
                  (unsigned long long)n, (unsigned long long)at);
        covered += q.count;
    }
    SIM_CHECK(covered == n, "not-covered-once", "%s of %llu elements on %zu workers covers %llu",
              what, (unsigned long long)n, nthreads, (unsigned long long)covered);
    note(n ^ all.size());
}

// A length around a power of two, or anything at all.
uint64_t long_length(Rng& r, uint64_t limit) {
    uint64_t n = 0;
    uint64_t k = r.below(3);
    if (k == 0) {
        n = (uint64_t(1) << r.below(44)) + r.below(9);
        n -= std::min<uint64_t>(n - 1, 4);
    } else if (k == 1) {
        n = r.next() >> (20 + r.below(44));
    } else {
        n = r.below(40);
    }
    return std::clamp<uint64_t>(n, 1, limit);
}

template <typename T> void job_long(Pool& pool, Rng& r, uint32_t i) {
    using L = std::numeric_limits<T>;
    // Lengths are differences of iterators, so they must fit the signed type.
    uint64_t n = long_length(r, (uint64_t)std::numeric_limits<std::make_signed_t<T>>::max());
    T first{0};
    switch (r.below(4)) {
        case 0: break;
        case 1: first = (T)(L::max() - (T)n); break;
        case 2: first = L::min(); break;
        default: {
            uint64_t span = (uint64_t)L::max() - n;
            first = (T)(span ? (r.next() >> r.below(64)) % span : 0);
        }
    }
    T last = (T)(first + (T)n);
    if (r.chance(50)) {
        log("%u: static partition of %llu from %lld on %zu workers", i, (unsigned long long)n,
            (long long)first, pool.size());
        job_tiles<T>(pool, first, n, th::StaticPartition(first, last), "static partition");
    } else {
        uint64_t chunks = 1 + r.below(20);
        uint64_t g = std::max<uint64_t>(n / chunks, 1) + r.below(3);
        if (n / g > 64) {
            g = n / 64 + 1;
        }
        log("%u: dynamic partition of %llu by %llu from %lld on %zu workers", i,
            (unsigned long long)n, (unsigned long long)g, (long long)first, pool.size());
        job_tiles<T>(pool, first, n, th::DynamicPartition(first, last, g), "dynamic partition");
    }
}

void one_job(Pool& pool, Rng& r, uint32_t i) {
    switch (r.below(8)) {
        case 6:
        case 7: {
            switch (r.below(5)) {
                case 0: job_long<int32_t>(pool, r, i); break;
                case 1: job_long<uint32_t>(pool, r, i); break;
                case 2: job_long<int64_t>(pool, r, i); break;
                default: job_long<uint64_t>(pool, r, i); break;
            }
            break;
        }
        case 0:
        case 1: {
            log("%u: run on %zu workers", i, pool.size());
            job_raw(pool, i);
            break;
        }
        case 2:
        case 3: {
            size_t n = r.chance(25) ? r.below(3) : r.below(40);
            log("%u: static partition of %zu on %zu workers", i, n, pool.size());
            uint64_t off = r.below(1000);
            uint64_t form = r.below(3);
            if (form == 0) {
                job_partition(pool, n, th::StaticPartition(n), true);
            } else if (form == 1) {
                job_partition(pool, n, th::StaticPartition(off, off + n), true, off);
            } else {
                std::vector<uint64_t> v(n);
                for (size_t k = 0; k < n; ++k) {
                    v[k] = off + n - 1 - k;
                }
                job_partition(pool, n, th::StaticPartition(v), true, off);
            }
            break;
        }
        default: {
            size_t n = r.chance(25) ? r.below(3) : r.below(60);
            size_t g = 1 + r.below(9);
            log("%u: dynamic partition of %zu by %zu on %zu workers", i, n, g, pool.size());
            uint64_t form = r.below(3);
            uint64_t off = r.below(1000);
            if (form == 0) {
                job_partition(pool, n, th::DynamicPartition(n, g), false);
            } else if (form == 1) {
                job_partition(pool, n, th::DynamicPartition(off, off + n, g), false, off);
            } else {
                std::vector<uint64_t> v(n);
                for (size_t k = 0; k < n; ++k) {
                    v[k] = off + (k * 7919 + 13) % n;
                }
                if (n % 7919) {
                    job_partition(pool, n, th::DynamicPartition(v, g), false, off);
                }
            }
        }
    }
}

} // namespace

// C01: single caller.
SCENARIO(pool_once) {
    size_t nt = flag("many_threads", 10) ? knob("threads_many", 7, 20) : knob("threads", 1, 6);
    uint64_t spin = draw_spin();
    faults_schedule();
    Armed armed;
    Pool pool(nt, spin);
    SIM_CHECK(pool.size() == nt, "size", "pool of %zu reports %zu", nt, pool.size());
    Rng r("ops");
    uint32_t nops = (uint32_t)knob("nops", 1, 12);
    for (uint32_t i = 0; i < nops; ++i) {
        Rng q(r.next());
        if (!keep_op(i)) {
            continue;
        }
        if (q.chance(15)) {
            size_t k = q.below(8); // zero is allowed and means one
            log("%u: resize %zu -> %zu", i, pool.size(), k);
            pool.resize(k);
            SIM_CHECK(pool.size() == std::max<size_t>(k, 1), "size", "resize(%zu) gives %zu", k,
                      pool.size());
        } else {
            one_job(pool, q, i);
        }
        pause_for(q.below(5));
    }
    if (nt > 1 && nops > 1) {
        nontrivial();
    }
}

// C02: hand-over, going to sleep, start-up and shutdown at every relative timing.
SCENARIO(pool_progress) {
    uint64_t spin = draw_spin();
    faults_schedule();
    bool create_faults = flag("create_faults", 30);
    Armed armed;
    uint32_t nops = (uint32_t)knob("nops", 1, 10);
    size_t nt = knob("threads", 1, 5);
    Rng r("ops");
    std::unique_ptr<Pool> pool;
    if (create_faults) {
        fault_rate(F_THREAD_CREATE, 150000);
    }
    for (uint32_t i = 0; i < nops; ++i) {
        Rng q(r.next());
        if (!keep_op(i)) {
            continue;
        }
        if (!pool) {
            try {
                log("%u: start %zu", i, nt);
                pool = std::make_unique<Pool>(nt, spin);
            } catch (const std::system_error&) {
                SIM_CHECK(create_faults, "spurious-error", "thread creation error without a fault");
                SIM_CHECK(live_threads() == 1, "leaked-thread",
                          "%u threads live after the pool failed to start", live_threads());
                probe("pool failed to start");
                continue;
            }
        }
        switch (q.below(8)) {
            case 0: {
                log("%u: stop", i);
                pool.reset();
                SIM_CHECK(live_threads() == 1, "leaked-thread",
                          "%u threads live after the pool was destroyed", live_threads());
                break;
            }
            case 1: {
                size_t k = 1 + q.below(6);
                log("%u: resize %zu", i, k);
                try {
                    pool->resize(k);
                    SIM_CHECK(pool->size() == k, "size", "resize(%zu) gives %zu", k, pool->size());
                } catch (const std::system_error&) {
                    SIM_CHECK(create_faults, "spurious-error",
                              "thread creation error without a fault");
                    probe("resize failed");
                }
                break;
            }
            case 2: {
                log("%u: move", i);
                Pool p2 = std::move(*pool);
                job_raw(p2, i);
                *pool = std::move(p2);
                break;
            }
            default: one_job(*pool, q, i);
        }
        pause_for(q.below(5));
    }
    pool.reset();
    SIM_CHECK(live_threads() == 1, "leaked-thread", "%u threads live at the end", live_threads());
    if (nops > 2) {
        nontrivial();
    }
}

// C02: many jobs in short order, handed over while the workers are giving up waiting for them.
SCENARIO(pool_handover) {
    static const uint64_t spins[] = {1, 2, 3, 5, 12, 30};
    uint64_t spin = spins[knob("spin", 0, 5)];
    if (flag("spurious", 25)) {
        fault_rate(F_SPURIOUS_WAKE, 50000);
    }
    Armed armed;
    size_t nt = 2 + knob("threads", 0, 2);
    Pool pool(nt, spin);
    Rng r("ops");
    uint32_t nops = (uint32_t)knob("nops", 1, 40);
    size_t wait = knob("wait", 1, 20);
    for (uint32_t i = 0; i < nops; ++i) {
        Rng q(r.next());
        if (!keep_op(i)) {
            continue;
        }
        for (size_t w = q.below(wait); w; --w) {
            sim::yield();
        }
        if (q.chance(4)) {
            pool.resize(2 + q.below(3));
        }
        job_raw(pool, i);
    }
    if (nops > 2) {
        nontrivial();
    }
}

// C03: a job fails on some workers.
SCENARIO(pool_fail) {
    size_t nt = knob("threads", 1, 6);
    uint64_t spin = draw_spin();
    faults_schedule();
    bool create_faults = flag("create_faults", 25);
    Armed armed;
    Pool pool(nt, spin);
    Rng r("ops");
    uint32_t nops = (uint32_t)knob("nops", 1, 8);
    for (uint32_t i = 0; i < nops; ++i) {
        Rng q(r.next());
        if (!keep_op(i)) {
            continue;
        }
        if (q.chance(30)) {
            one_job(pool, q, i);
            pause_for(q.below(5));
            continue;
        }
        size_t n = pool.size();
        std::vector<int> mode(n, 0);
        size_t bad = 0;
        auto std_mode = [&] {
            static const int m[] = {1, 2, 4, 5};
            return m[q.below(4)];
        };
        int kinds = (int)q.below(4); // 0: mixed, 1: std only, 2: other only, 3: worker 0 only
        for (size_t k = 0; k < n; ++k) {
            if (kinds == 3 ? k == 0 : q.chance(40)) {
                mode[k] = kinds == 1 ? std_mode() : kinds == 2 ? 3 : 1 + (int)q.below(5);
                bad++;
            }
        }
        log("%u: failing job on %zu workers, %zu fail (kinds %d)", i, n, bad, kinds);
        if (create_faults) {
            fault_rate(F_THREAD_CREATE, 200000);
        }
        uint64_t f0 = fired(F_THREAD_CREATE);
        Tally t(n);
        int delay = (int)q.below(6);
        // The text after the number: must be passed on as it is.
        static const char* const tails[] = {".", ". {}", ". {:d} {0} %s %n", ".\n", ". long"};
        std::string tail = tails[q.below(5)];
        if (tail == ". long") {
            tail = "." + std::string(1 + q.below(5000), 'x');
        }
        int shape = (int)q.below(4); // 1: partitioned, otherwise the job itself
        auto body = [&](size_t tid) {
            t.started[tid]++;
            if (delay && delay < 4 && (tid % 2)) {
                sim::yield();
                sim::yield();
            }
            if (delay == 2 && mode[tid] == 0) {
                std::this_thread::sleep_for(std::chrono::microseconds(50));
            }
            if (delay >= 4 && tid != 0) {
                // The caller's own part is over long before the last worker's.
                if (delay == 5 || tid + 1 == n) {
                    std::this_thread::sleep_for(std::chrono::milliseconds(tid));
                }
            }
            t.finished[tid]++;
            switch (mode[tid]) {
                case 1: throw std::runtime_error("failure-of-worker-" + std::to_string(tid) + tail);
                case 2: throw ANNEXCEPTION("failure-of-worker-{}{}", tid, tail);
                case 3: throw OtherFailure{(int)tid};
                case 4: throw std::logic_error("failure-of-worker-" + std::to_string(tid) + tail);
                case 5: throw Derived("failure-of-worker-" + std::to_string(tid) + tail);
                default: break;
            }
        };
        auto f = [&](size_t tid) { body(tid); };
        bool threw = false;
        bool other = false;
        std::string what;
        try {
            if (shape == 1) {
                th::run(pool, th::StaticPartition(n), [&](const auto& is, uint64_t) {
                    for (auto k : is) {
                        body(k);
                    }
                });
            } else {
                pool.run(th::FunctionRef(f));
            }
        } catch (const std::exception& e) {
            threw = true;
            what = e.what();
        } catch (...) {
            threw = true;
            other = true;
        }
        for (size_t k = 0; k < n; ++k) {
            SIM_CHECK(t.started[k] == 1 && t.finished[k] == 1, "failed-run-not-exactly-once",
                      "worker %zu of %zu: started %u finished %u when the failed run returned", k,
                      n, t.started[k], t.finished[k]);
        }
        SIM_CHECK(threw == (bad > 0), "failure-not-reported", "%zu workers failed, error raised: %d",
                  bad, threw);
        bool rebuilt_failed = fired(F_THREAD_CREATE) != f0;
        fault_rate(F_THREAD_CREATE, 0);
        if (threw && !other && !rebuilt_failed) {
            for (size_t k = 0; k < n; ++k) {
                std::string m = "failure-of-worker-" + std::to_string(k) + tail;
                bool want = mode[k] != 0 && mode[k] != 3;
                if (!want) {
                    m = "failure-of-worker-" + std::to_string(k) + ".";
                }
                bool in = what.find(m) != std::string::npos;
                SIM_CHECK(in == want, "failure-message",
                          "message of worker %zu %s although it %s: %s", k,
                          in ? "reported" : "missing", want ? "failed" : "did not fail",
                          what.c_str());
            }
        }
        if (rebuilt_failed) {
            probe("restart of a worker failed");
        }
        // The caller's data dies here; afterwards the pool must be usable.
        pause_for(q.below(5));
        if (rebuilt_failed) {
            // Replacing the crashed worker failed too: the pool may refuse work, but must
            // neither hang nor run a job partially without saying so.
            size_t m = pool.size();
            Tally t2(m);
            auto g = [&](size_t tid) { t2.started[tid]++; };
            try {
                pool.run(th::FunctionRef(g));
                for (size_t k = 0; k < m; ++k) {
                    SIM_CHECK(t2.started[k] == 1, "silent-partial-run",
                              "worker %zu of %zu ran %u times after a failed restart", k, m,
                              t2.started[k]);
                }
            } catch (const std::exception&) {
                probe("pool refuses work after a failed restart");
            }
        } else {
            SIM_CHECK(pool.size() == n, "size", "pool size changed by a failing job: %zu -> %zu", n,
                      pool.size());
            if (q.chance(25)) {
                Pool moved = std::move(pool);
                job_raw(moved, 2000 + i);
                pool = std::move(moved);
            }
            job_raw(pool, 1000 + i);
        }
        if (bad) {
            nontrivial();
        }
    }
}

// C04: several threads use one pool at the same time, one may resize it.
SCENARIO(pool_multi) {
    size_t nt = knob("threads", 1, 4);
    size_t callers = knob("callers", 2, 4);
    uint64_t spin = draw_spin();
    bool resizer = flag("resizer", 50);
    bool partitions = flag("partitions", 50);
    bool failing = flag("failing", 30);
    faults_schedule();
    Armed armed;
    Pool pool(nt, spin);
    std::atomic<int> inside{0};
    std::atomic<uint64_t> done{0};
    uint32_t per = (uint32_t)knob("per_caller", 1, 5);
    std::vector<std::thread> ts;
    Rng r("callers");
    for (size_t c = 0; c < callers; ++c) {
        uint64_t s = r.next();
        ts.emplace_back([&, c, s] {
            Rng q(s);
            for (uint32_t i = 0; i < per; ++i) {
                uint64_t s2 = q.next();
                if (!keep_op((uint32_t)(c * 16 + i))) {
                    continue;
                }
                Rng z(s2);
                pause_for(z.below(6));
                if (partitions && z.chance(50)) {
                    size_t n = z.below(30);
                    std::vector<uint32_t> seen(n, 0);
                    auto body = [&](const auto& is, uint64_t) {
                        for (auto k : is) {
                            seen[k]++;
                        }
                    };
                    if (z.chance(50)) {
                        th::run(pool, th::StaticPartition(n), body);
                    } else {
                        th::run(pool, th::DynamicPartition(n, 1 + z.below(5)), body);
                    }
                    for (size_t k = 0; k < n; ++k) {
                        SIM_CHECK(seen[k] == 1, "not-covered-once",
                                  "caller %zu: element %zu of %zu processed %u times", c, k, n,
                                  seen[k]);
                    }
                } else {
                    bool fails = failing && z.chance(50);
                    // Which worker fails: the pool may be smaller, then nobody does.
                    size_t victim = z.below(4);
                    std::string text = "failure of caller " + std::to_string(c) + "#" +
                                       std::to_string(i) + ";";
                    uint32_t seen[16] = {};
                    int owner = -1;
                    auto f = [&](size_t tid) {
                        int in = inside.fetch_add(1);
                        (void)in;
                        seen[tid]++;
                        if (tid == 0) {
                            owner = (int)c;
                        }
                        inside.fetch_sub(1);
                        if (fails && tid == victim) {
                            throw std::runtime_error(text);
                        }
                    };
                    bool threw = false;
                    try {
                        pool.run(th::FunctionRef(f));
                    } catch (const th::ThreadingException& e) {
                        threw = true;
                        std::string w = e.what();
                        size_t own = w.find(text);
                        SIM_CHECK(own != std::string::npos &&
                                      w.find("failure of caller", own + 1) == std::string::npos &&
                                      w.rfind("failure of caller", own) == own,
                                  "failure-crossed", "caller %zu call %u gets the message: %s", c,
                                  i, w.c_str());
                    }
                    bool failed = fails && seen[victim];
                    SIM_CHECK(threw == failed, "failure-crossed",
                              "caller %zu: own job fails: %d, error raised: %d", c, failed, threw);
                    // Workers 0..m-1 ran it exactly once for some pool size m.
                    size_t m = 0;
                    while (m < 16 && seen[m]) {
                        m++;
                    }
                    for (size_t k = 0; k < 16; ++k) {
                        SIM_CHECK(seen[k] == (k < m ? 1u : 0u), "not-exactly-once",
                                  "caller %zu: worker %zu ran %u times (pool of %zu)", c, k,
                                  seen[k], m);
                    }
                    SIM_CHECK(m >= 1 && (resizer || m == nt), "not-exactly-once",
                              "caller %zu: job ran on %zu of %zu workers", c, m, nt);
                    SIM_CHECK(owner == (int)c, "wrong-owner", "job of another caller");
                }
                done++;
            }
        });
    }
    if (resizer) {
        uint64_t s = r.next();
        ts.emplace_back([&, s] {
            Rng q(s);
            for (uint32_t i = 0; i < 4; ++i) {
                uint64_t k = 1 + q.below(5);
                uint64_t p = q.below(6);
                if (!keep_op(100 + i)) {
                    continue;
                }
                pause_for(p);
                pool.resize(k);
            }
        });
    }
    for (auto& t : ts) {
        t.join();
    }
    SIM_CHECK(inside.load() == 0, "still-running", "a job is still running");
    note(done);
    if (done > 1) {
        nontrivial();
    }
}
