// Exhaustive search: exact for every tiling, thread count and schedule.
#include "svsx.h"
#include "svs/index/flat/flat.h"

using namespace svsx;
namespace fl = svs::index::flat;

namespace {

template <typename T> struct Ask {
    Points qs;
    std::vector<Data<T>> q; // one element, absent when there are no queries
    svs::QueryResult<size_t> res;
    size_t k;
    fl::FlatParameters par;
    unsigned keep_percent; // of the stored vectors that the predicate lets through
    uint64_t salt;

    bool pass(size_t i) const {
        uint64_t h = (i + 1) * 0x9E3779B97F4A7C15ull + salt;
        h ^= h >> 29;
        h *= 0xBF58476D1CE4E5B9ull;
        h ^= h >> 32;
        return h % 100 < keep_percent;
    }
};

template <typename T>
Ask<T> make_ask(Rng& r, size_t n, size_t d, int spread, const Points& pts) {
    size_t nq = r.chance(5) ? 0 : 1 + r.below(9);
    Ask<T> a{gen_points(r, nq, d, spread), {}, svs::QueryResult<size_t>(nq, 1), 1, {}, 100, r.next()};
    for (size_t i = 0; i < nq; ++i) {
        if (r.chance(25)) { // a stored vector
            std::copy_n(pts.row(r.below(n)), d, a.qs.v.data() + i * d);
        }
    }
    a.q.push_back(to_data<T>(a.qs));
    a.k = r.chance(15) ? n + r.below(4) : 1 + r.below(std::min<size_t>(n, 12));
    a.res = svs::QueryResult<size_t>(nq, a.k);
    for (size_t i = 0; i < nq; ++i) {
        for (size_t j = 0; j < a.k; ++j) { // left-overs must not survive
            a.res.index(i, j) = 0;
            a.res.distance(i, j) = -12345;
        }
    }
    a.par.data_batch_size_ = r.chance(30) ? 0 : 1 + r.below(n + 2);
    a.par.query_batch_size_ = r.chance(30) ? 0 : 1 + r.below(nq + 2);
    a.keep_percent = r.chance(50) ? 100 : (unsigned)r.below(101);
    return a;
}

template <typename M, typename T>
void verify(const Points& pts, const Ask<T>& a, size_t lo, size_t hi, const char* what) {
    Quiet quiet;
    std::vector<size_t> ids;
    for (size_t i = lo; i < hi; ++i) {
        if (a.keep_percent == 100 || a.pass(i)) {
            ids.push_back(i);
        }
    }
    for (size_t q = 0; q < a.qs.n; ++q) {
        auto b = brute<M>(pts, a.qs.row(q), ids);
        std::set<size_t> seen;
        for (size_t j = 0; j < a.k; ++j) {
            size_t id = a.res.index(q, j);
            double dist = a.res.distance(q, j);
            if (j >= b.size()) {
                SIM_CHECK(id >= pts.n, "invented-result",
                          "%s: query %zu, place %zu holds identifier %zu, only %zu are eligible",
                          what, q, j, id, b.size());
                continue;
            }
            SIM_CHECK(id >= lo && id < hi, "bad-id",
                      "%s: query %zu, place %zu holds identifier %zu outside [%zu, %zu)", what, q, j,
                      id, lo, hi);
            SIM_CHECK(a.keep_percent == 100 || a.pass(id), "excluded-id",
                      "%s: query %zu returned %zu, which the predicate excludes", what, q, id);
            SIM_CHECK(seen.insert(id).second, "duplicate-id", "%s: query %zu returned %zu twice",
                      what, q, id);
            double t = M::exact(pts.row(id), a.qs.row(q), pts.d);
            SIM_CHECK(t == dist, "wrong-distance", "%s: query %zu, identifier %zu: %g, truth %g",
                      what, q, id, dist, t);
            SIM_CHECK(dist == b[j].dist, "not-nearest",
                      "%s: query %zu, place %zu: distance %g, the %zu-th nearest is at %g (k %zu, "
                      "data batch %zu, query batch %zu)",
                      what, q, j, dist, j, b[j].dist, a.k, a.par.data_batch_size_,
                      a.par.query_batch_size_);
            note(id);
        }
        if (b.size() < a.k) {
            probe("fewer eligible than asked");
        }
    }
}

template <typename M, typename T, typename Index>
void ask(Index& ix, Ask<T>& a) {
    log("search %zu queries, %zu neighbours, batches %zu/%zu, %u%% eligible", a.qs.n, a.k,
        a.par.data_batch_size_, a.par.query_batch_size_, a.keep_percent);
    if (a.qs.n == 0) {
        probe("no queries");
    }
    if (a.keep_percent == 100) {
        ix.search(a.res.view(), a.q[0].cview(), a.par);
    } else {
        ix.search(a.res.view(), a.q[0].cview(), a.par, [&a](size_t i) { return a.pass(i); });
    }
}

template <typename M, typename T> void exact_history() {
    Rng r("flat");
    size_t n = knob("n", 1, knob("big", 0, 3) == 0 ? 90 : 25), d = knob("dim", 1, 20);
    int spread = knob("spread", 0, 1) ? 2 : 40;
    Points pts = gen_points(r, n, d, spread, 10);
    size_t threads = knob("threads", 1, 5);
    using Index = fl::FlatIndex<Data<T>, typename M::dist>;
    Index ix(to_data<T>(pts), typename M::dist(), make_pool(threads));
    schedule_faults();
    Armed armed;
    SIM_CHECK(ix.size() == n && ix.dimensions() == d, "shape", "%zu x %zu", ix.size(),
              ix.dimensions());
    size_t steps = knob("steps", 1, 6);
    for (size_t s = 0; s < steps; ++s) {
        Rng o(r.next());
        if (!keep_op((uint32_t)s)) {
            continue;
        }
        if (o.chance(40)) {
            threads = o.below(6);
            log("%zu threads", threads);
            ix.set_num_threads(threads);
            SIM_CHECK(ix.get_num_threads() == std::max<size_t>(threads, 1), "thread-count",
                      "%zu asked, %zu reported", threads, ix.get_num_threads());
        }
        unsigned kind = (unsigned)o.below(10);
        if (kind < 6) {
            auto a = make_ask<T>(o, n, d, spread, pts);
            ask<M, T>(ix, a);
            verify<M, T>(pts, a, 0, n, "search");
            nontrivial();
        } else if (kind < 8) {
            // Two callers at once.
            auto a = make_ask<T>(o, n, d, spread, pts), b = make_ask<T>(o, n, d, spread, pts);
            std::thread other([&] { ask<M, T>(ix, b); });
            ask<M, T>(ix, a);
            other.join();
            verify<M, T>(pts, a, 0, n, "one of two");
            verify<M, T>(pts, b, 0, n, "other of two");
            probe("two callers");
            nontrivial();
        } else {
            // Part of the data, in several calls over adjoining ranges.
            auto a = make_ask<T>(o, n, d, spread, pts);
            if (a.qs.n == 0) {
                continue;
            }
            size_t lo = o.below(n), hi = lo + 1 + o.below(n - lo);
            size_t mid = lo + o.below(hi - lo + 1);
            log("ranges [%zu, %zu) and [%zu, %zu)", lo, mid, mid, hi);
            typename Index::sorter_type best(a.qs.n, a.k, typename Index::compare());
            best.prepare();
            for (auto [b, e] : {std::pair{lo, mid}, std::pair{mid, hi}}) {
                ix.search_subset(a.q[0].cview(), th::UnitRange<size_t>(b, e), best, a.par,
                                 [&a](size_t i) { return a.keep_percent == 100 || a.pass(i); });
            }
            best.cleanup();
            for (size_t q = 0; q < a.qs.n; ++q) {
                for (size_t j = 0; j < a.k; ++j) {
                    a.res.set(best.result(q)[j], q, j);
                }
            }
            verify<M, T>(pts, a, lo, hi, "ranges");
            probe("ranges");
            nontrivial();
        }
    }
}

// Short-lived indexes over several data sets that share one pool.
void shared_pool() {
    Rng r("flat-shared");
    size_t d = knob("dim", 1, 8);
    Points p1 = gen_points(r, knob("n1", 1, 30), d, 20, 10);
    Points p2 = gen_points(r, knob("n2", 1, 30), d, 20, 10);
    auto d1 = to_data<float>(p1);
    auto d2 = to_data<int8_t>(p2);
    auto pool = make_pool(knob("threads", 1, 5));
    auto a1 = make_ask<float>(r, p1.n, d, 20, p1);
    auto a2 = make_ask<float>(r, p2.n, d, 20, p2);
    schedule_faults();
    Armed armed;
    std::thread other([&] {
        auto ix = fl::temporary_flat_index(d1, svs::distance::DistanceL2(), pool);
        ask<L2, float>(ix, a1);
    });
    {
        auto ix = fl::temporary_flat_index(d2, svs::distance::DistanceIP(), pool);
        ask<IP, float>(ix, a2);
    }
    other.join();
    verify<L2, float>(p1, a1, 0, p1.n, "first data set");
    verify<IP, float>(p2, a2, 0, p2.n, "second data set");
    nontrivial();
}
} // namespace

SCENARIO(flat_exact) {
    switch (knob("type", 0, 2)) {
        case 0: exact_history<L2, float>(); break;
        case 1: exact_history<IP, float>(); break;
        default: exact_history<L2, int8_t>(); break;
    }
}
SCENARIO(flat_shared_pool) { shared_pool(); }
