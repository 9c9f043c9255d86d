// Data sets of reduced dimension (LeanVec): parallel reduction, graph search, building, files.
//
// The vector library and the linear algebra library are replaced by stand-ins, see sim/stubs.
#include "lvq_search.h"
#include "io.h"
#include "svs/extensions/vamana/leanvec.h"
#include "svs/leanvec/leanvec.h"

using namespace svsx;
using namespace svsx::search;
namespace lv = svs::leanvec;

namespace {
template <typename T> constexpr size_t bits_of = 0;
template <size_t N> constexpr size_t bits_of<lv::UsingLVQ<N>> = N;
template <typename A, typename B> struct Kind {
    using data = lv::LeanDataset<A, B, svs::Dynamic, svs::Dynamic>;
    using first = A;
    using second = B;
    static constexpr bool half =
        std::is_same_v<A, svs::Float16> || std::is_same_v<B, svs::Float16>;
};
using F = float;
using H = svs::Float16;
using Q8 = lv::UsingLVQ<8>;
using Q4 = lv::UsingLVQ<4>;

template <typename D> Floats values(const D& x) {
    if constexpr (lvq::IsLVQDataset<D>) {
        return stored(x);
    } else {
        Floats out;
        for (size_t i = 0; i < x.size(); ++i) {
            auto s = x.get_datum(i);
            out.emplace_back();
            for (auto e : s) {
                out.back().push_back((float)e);
            }
        }
        return out;
    }
}
template <typename D> std::vector<double> offset(const D& x) {
    std::vector<double> c(x.dimensions(), 0.0);
    if constexpr (lvq::IsLVQDataset<D>) {
        auto s = x.get_centroid(0);
        std::copy(s.begin(), s.end(), c.begin());
    }
    return c;
}
using Mat = lv::LeanVecMatrices<svs::Dynamic>;
struct World {
    size_t n, d, low;
    Floats v;
    bool given; // transformations given by the caller
    Floats a, b; // of the data, of the queries
    std::vector<double> mean;
    size_t align;
};
World gen_world(Rng& r, size_t n, size_t d) {
    World w;
    w.n = n;
    w.d = d;
    w.low = 1 + r.below(d);
    if (r.chance(25)) {
        w.low = d;
    }
    w.v = gen_floats(r, n, d, 40);
    w.given = r.chance(50);
    w.align = r.chance(50) ? 0 : 32;
    if (w.given) {
        w.a = gen_floats(r, d, w.low, 4);
        w.b = r.chance(50) ? w.a : gen_floats(r, d, w.low, 4);
    }
    w.mean.assign(d, 0);
    for (auto& x : w.v) {
        for (size_t k = 0; k < d; ++k) {
            w.mean[k] += x[k];
        }
    }
    for (auto& e : w.mean) {
        e /= (double)n;
    }
    return w;
}
template <typename D, typename Pool> D reduce(const World& w, Pool& pool) {
    std::optional<Mat> m;
    if (w.given) {
        m.emplace(to_floats<float>(w.a, w.low), to_floats<float>(w.b, w.low));
    }
    return D::reduce(to_floats<float>(w.v, w.d), std::move(m), pool, w.align,
                     svs::lib::MaybeStatic<svs::Dynamic>(w.low));
}
Floats product(const Floats& x, const Floats& m) {
    Floats out;
    for (auto& row : x) {
        out.emplace_back(m[0].size(), 0.0);
        for (size_t j = 0; j < m[0].size(); ++j) {
            for (size_t k = 0; k < row.size(); ++k) {
                out.back()[j] += row[k] * m[k][j];
            }
        }
    }
    return out;
}
// The values within what compressing them, or half precision, may cost.
template <typename D> void close(const D& x, const Floats& truth, size_t bits, bool half, double mag,
                                 const char* what) {
    auto now = values(x);
    auto c = offset(x);
    SIM_CHECK(now.size() == truth.size() && x.dimensions() == truth[0].size(), "size",
              "%s: %zu x %zu, not %zu x %zu", what, now.size(), x.dimensions(), truth.size(),
              truth[0].size());
    for (size_t i = 0; i < truth.size(); ++i) {
        double ok = mag * 1e-5 + 1e-5, big = 0;
        for (auto e : truth[i]) {
            big = std::max(big, std::fabs(e));
        }
        ok += half ? big / 500 : 0;
        if (bits) {
            ok += allowance(truth[i], c, bits, 0, half);
        }
        for (size_t k = 0; k < truth[i].size(); ++k) {
            SIM_CHECK(std::fabs(now[i][k] - truth[i][k]) <= ok, "too-far",
                      "%s: element %zu of vector %zu is %g, stored as %g; at most %g away is allowed",
                      what, k, i, truth[i][k], now[i][k], ok);
        }
    }
}
double magnitude(const World& w) {
    double m = 1;
    for (auto& x : w.v) {
        double s = 0;
        for (auto e : x) {
            s += std::fabs(e);
        }
        m = std::max(m, s);
    }
    return m * 4;
}
template <typename D> Floats transformed(const D& x, const Floats& q, size_t d, bool l2) {
    auto qd = to_floats<float>(q, d);
    auto p = l2 ? x.preprocess_queries(svs::DistanceL2(), qd.cview())
                : x.preprocess_queries(svs::DistanceIP(), qd.cview());
    return values(p);
}

template <typename K> void reduction(Rng& r) {
    using D = typename K::data;
    size_t d = 1 + r.below(r.chance(70) ? 12 : 30);
    auto w = gen_world(r, 1 + knob("n", 0, 60), d);
    schedule_faults();
    size_t threads = 1 + knob("threads", 0, 4);
    log("%zu vectors, %zu of %zu dimensions, given %d, %zu threads", w.n, w.low, d, (int)w.given,
        threads);
    std::unique_ptr<D> x;
    {
        Armed a;
        auto pool = make_pool(threads);
        x = std::make_unique<D>(reduce<D>(w, pool));
    }
    Quiet q;
    double mag = magnitude(w);
    SIM_CHECK(x->size() == w.n && x->dimensions() == d && x->inner_dimensions() == w.low,
              "dimensions", "%zu vectors of %zu (%zu) dimensions, not %zu of %zu (%zu)", x->size(),
              x->dimensions(), x->inner_dimensions(), w.n, d, w.low);
    close(x->view_secondary_dataset(), w.v, bits_of<typename K::second>,
          std::is_same_v<typename K::second, H>, 0, "full");
    auto half = std::is_same_v<typename K::first, H>;
    auto qs = gen_floats(r, 4, d, 40);
    if (w.given) {
        close(x->view_primary_dataset(), product(w.v, w.a), bits_of<typename K::first>, half, mag,
              "reduced");
        auto t = transformed(*x, qs, d, r.chance(50));
        auto u = product(qs, w.b);
        for (size_t i = 0; i < qs.size(); ++i) {
            for (size_t k = 0; k < w.low; ++k) {
                SIM_CHECK(std::fabs(t[i][k] - u[i][k]) <= 1e-3, "wrong-query",
                          "transformed query %zu element %zu: %g, %g by the matrix", i, k, t[i][k],
                          u[i][k]);
            }
        }
    } else {
        // Queries and data go through one transformation, which keeps lengths if it is complete.
        auto t = transformed(*x, w.v, d, true);
        close(x->view_primary_dataset(), t, bits_of<typename K::first>, half, mag, "reduced");
        auto u = transformed(*x, qs, d, true), p = transformed(*x, qs, d, false);
        auto p0 = transformed(*x, {w.mean}, d, false)[0];
        for (size_t i = 0; i < qs.size(); ++i) {
            for (size_t k = 0; k < w.low; ++k) {
                SIM_CHECK(std::fabs(u[i][k] + p0[k] - p[i][k]) <= 1e-5 * mag + 1e-3, "wrong-query",
                          "transformed query %zu element %zu: %g centred, %g not, mean %g", i, k,
                          u[i][k], p[i][k], p0[k]);
            }
            for (size_t j = 0; j < w.n; ++j) {
                double a = true_l2(u[i], t[j]), b = true_l2(qs[i], w.v[j]);
                double tol = 1e-4 * mag * mag + 1e-2;
                SIM_CHECK(a <= b + tol, "longer",
                          "query %zu and vector %zu are %g apart, %g after reduction", i, j, b, a);
                SIM_CHECK(w.low < d || a >= b - tol, "shorter",
                          "query %zu and vector %zu are %g apart, %g after rotation", i, j, b, a);
            }
        }
    }
    svs::threads::SequentialThreadPool one;
    auto y = reduce<D>(w, one);
    SIM_CHECK(values(y.view_primary_dataset()) == values(x->view_primary_dataset()) &&
                  values(y.view_secondary_dataset()) == values(x->view_secondary_dataset()),
              "schedule-dependent", "another result with %zu threads than with one", threads);
    if (threads > 1) {
        nontrivial();
    }
}

// ---- graphs ----------------------------------------------------------------------------------
template <typename K, typename M> void searching() {
    using D = typename K::data;
    Rng r("world");
    size_t d = 1 + r.below(r.chance(70) ? 12 : 24), degree = 1 + knob("degree", 0, 8);
    auto w = gen_world(r, 1 + knob("n", 0, 50), d);
    size_t n = w.n, ep = r.below(n);
    auto qs = gen_floats(r, 2 + r.below(7), d, 40);
    auto g = random_graph(r, n, degree);
    auto reachable = reach(g, ep);
    svs::threads::SequentialThreadPool one;
    auto copy = [&] {
        Graph h(n, degree);
        for (uint32_t i = 0; i < n; ++i) {
            h.replace_node(i, g.get_node(i));
        }
        return h;
    };
    D x = reduce<D>(w, one);
    auto rec = values(x.view_secondary_dataset());
    auto c = offset(x.view_secondary_dataset());
    using Vam = va::VamanaIndex<Graph, D, typename M::dist>;
    schedule_faults();
    arm(true);
    Vam ix(copy(), reduce<D>(w, one), (uint32_t)ep, typename M::dist(),
           make_pool(1 + knob("threads", 0, 3)));
    Vam alone(copy(), std::move(x), (uint32_t)ep, typename M::dist(), make_pool(1));
    auto once = [&](Rng q) {
        Floats batch;
        for (size_t i = 0, e = 1 + q.below(6); i < e; ++i) {
            batch.push_back(qs[q.below(qs.size())]);
        }
        auto qd = to_floats<float>(batch, d);
        size_t k = 1 + q.below(q.chance(70) ? 6 : n + 3);
        Result res(batch.size(), k), again(batch.size(), k);
        spoil(res);
        spoil(again);
        auto sp = draw(q, n);
        ix.search(res.view(), qd.cview(), sp);
        for (size_t i = 0; i < batch.size(); ++i) {
            Result row(1, k);
            spoil(row);
            auto qi = to_floats<float>({batch[i]}, d);
            ix.search(row.view(), qi.cview(), sp);
            for (size_t j = 0; j < k; ++j) {
                again.index(i, j) = row.index(0, j);
                again.distance(i, j) = row.distance(0, j);
            }
        }
        Quiet quiet;
        same_answers(res, again, "in a batch and by itself");
        size_t win = sp.buffer_config_.get_search_window_size();
        if (sp.buffer_config_.get_total_capacity() < k) {
            win = k;
        }
        for (size_t i = 0; i < batch.size(); ++i) {
            size_t f = sound<M>(res, i, batch[i], rec, c, [&](size_t id) { return id < n; });
            SIM_CHECK(f >= std::min({k, win, reachable.size()}), "too-few",
                      "query %zu: %zu results, %zu can be reached, %zu asked for, window %zu", i, f,
                      reachable.size(), k, win);
            if (win >= reachable.size()) { // all of it is evaluated in full
                probe("everything reachable");
                std::vector<double> t;
                double sl = 0;
                for (size_t j : reachable) {
                    t.push_back(true_dist<M>(batch[i], rec[j]));
                    sl = std::max(sl, slack(batch[i], rec[j], c));
                }
                std::sort(t.begin(), t.end(), [](double a, double b) { return M::better(a, b); });
                for (size_t j = 0; j < f; ++j) {
                    SIM_CHECK(std::fabs(t[j] - res.distance(i, j)) <= 2 * sl, "not-nearest",
                              "query %zu position %zu: distance %g, the nearest that can be reached "
                              "has %g",
                              i, j, res.distance(i, j), t[j]);
                }
            }
        }
        note(res.index(0, 0));
    };
    uint32_t nops = (uint32_t)knob("nops", 1, 5);
    for (uint32_t i = 0; i < nops; ++i) {
        Rng q(r.next());
        if (!keep_op(i)) {
            continue;
        }
        if (q.chance(30)) {
            ix.set_num_threads(1 + q.below(4));
        }
        if (q.chance(30)) {
            std::thread other([&, s = q.next()] { once(Rng(s)); });
            once(Rng(q.next()));
            other.join();
        } else {
            once(Rng(q.next()));
        }
        auto sp = draw(q, n);
        size_t k = 1 + q.below(5);
        auto qd = to_floats<float>(qs, d);
        Result a(qs.size(), k), b(qs.size(), k);
        ix.search(a.view(), qd.cview(), sp);
        alone.search(b.view(), qd.cview(), sp);
        Quiet quiet;
        same_answers(a, b, "many threads and one");
        nontrivial();
    }
    arm(false);
}
template <typename K, typename M> void building() {
    using D = typename K::data;
    Rng r("world");
    size_t d = 1 + r.below(12), deg = 1 + knob("degree", 0, 7);
    size_t slackness = knob("prune_slack", 0, 3);
    auto w = gen_world(r, 2 + knob("n", 0, 40), d);
    size_t n = w.n;
    va::VamanaBuildParameters bp(std::is_same_v<M, L2> ? 1.2f : 0.95f, deg,
                                 1 + knob("window", 0, 12), 1 + knob("pool", 0, 30),
                                 deg > slackness ? deg - slackness : 1, knob("history", 0, 1));
    svs::threads::SequentialThreadPool one;
    D x = reduce<D>(w, one);
    auto rec = values(x.view_secondary_dataset());
    auto c = offset(x.view_secondary_dataset());
    schedule_faults();
    Armed armed;
    auto ix =
        va::auto_build(bp, std::move(x), typename M::dist(), make_pool(1 + knob("threads", 0, 3)));
    ix.save("config", "graph", "data");
    auto g = svs::lib::load_from_disk<Graph>("graph");
    {
        Quiet quiet;
        for (size_t i = 0; i < n; ++i) {
            auto l = g.get_node(i);
            std::set<uint32_t> s;
            SIM_CHECK(l.size() <= deg, "degree", "node %zu has %zu links", i, l.size());
            for (auto j : l) {
                SIM_CHECK(j < n && j != i && s.insert(j).second, "bad-link",
                          "node %zu: link to %u is itself, repeated or unknown", i, j);
            }
        }
    }
    auto again = va::auto_assemble(
        "config", svs::lib::Lazy([] { return svs::lib::load_from_disk<Graph>("graph"); }),
        svs::lib::Lazy([] { return svs::lib::load_from_disk<D>("data"); }), typename M::dist(),
        size_t{1});
    auto qs = gen_floats(r, 4, d, 40);
    auto qd = to_floats<float>(qs, d);
    auto sp = draw(r, n);
    Result a(4, 3), b(4, 3);
    spoil(a);
    spoil(b);
    ix.search(a.view(), qd.cview(), sp);
    again.search(b.view(), qd.cview(), sp);
    Quiet quiet;
    same_answers(a, b, "before and after saving");
    for (size_t i = 0; i < 4; ++i) {
        sound<M>(a, i, qs[i], rec, c, [&](size_t id) { return id < n; });
    }
    nontrivial();
}

// ---- files -----------------------------------------------------------------------------------
struct Lean : Object {
    virtual Floats rows() const = 0;
    void same(const Object& o, const char* cls) const override {
        auto a = rows(), b = static_cast<const Lean&>(o).rows();
        SIM_CHECK(a.size() == b.size(), cls, "%zu vectors saved, %zu loaded", a.size(), b.size());
        for (size_t i = 0; i < a.size(); ++i) {
            SIM_CHECK(a[i] == b[i], cls, "row %zu of %zu differs", i, a.size());
        }
    }
};
template <typename D> struct LeanObject : Lean {
    D x;
    size_t align;
    explicit LeanObject(D x_, size_t a)
        : x{std::move(x_)}
        , align{a} {}
    void save(const fs::path& dir) override { svs::lib::save_to_disk(x, dir / "data"); }
    std::unique_ptr<Object> load(const fs::path& dir) const override {
        size_t a = align ? 0 : 32;
        return std::make_unique<LeanObject>(svs::lib::load_from_disk<D>(dir / "data", a), a);
    }
    Floats rows() const override {
        auto a = values(x.view_primary_dataset()), b = values(x.view_secondary_dataset());
        a.insert(a.end(), b.begin(), b.end());
        // What queries go through: the matrix and the mean.
        Floats unit(1 + x.dimensions(), std::vector<double>(x.dimensions(), 0.0));
        for (size_t k = 0; k < x.dimensions(); ++k) {
            unit[k][k] = 1;
        }
        for (bool l2 : {false, true}) {
            auto t = transformed(x, unit, x.dimensions(), l2);
            a.insert(a.end(), t.begin(), t.end());
        }
        return a;
    }
};
template <typename K> std::unique_ptr<Object> pack(Rng& r) {
    auto w = gen_world(r, 1 + r.below(r.chance(70) ? 60 : 300), 1 + r.below(20));
    svs::threads::SequentialThreadPool one;
    return std::make_unique<LeanObject<typename K::data>>(reduce<typename K::data>(w, one), w.align);
}
std::unique_ptr<Object> make(Rng& r, size_t kind) {
    switch (kind) {
        case 0: return pack<Kind<F, F>>(r);
        case 1: return pack<Kind<Q8, F>>(r);
        case 2: return pack<Kind<Q4, Q8>>(r);
        default: return pack<Kind<H, Q4>>(r);
    }
}

// ---- memory runs out while reducing ----------------------------------------------------------
template <typename K> struct ReduceTask : Task {
    World w;
    Floats qs;
    size_t threads;
    explicit ReduceTask(Rng& r)
        : w{gen_world(r, 1 + r.below(30), 1 + r.below(12))}
        , threads{1 + r.below(3)} {
        qs = gen_floats(r, 2, w.d, 40);
    }
    void perform(Report& o) override {
        auto pool = make_pool(threads);
        auto x = reduce<typename K::data>(w, pool);
        auto qd = to_floats<float>(qs, w.d);
        auto t = x.preprocess_queries(svs::DistanceL2(), qd.cview());
        Quiet quiet;
        for (auto& row : values(t)) {
            for (double e : row) {
                o.add(e);
            }
        }
        for (auto& row : values(x.view_primary_dataset())) {
            for (double e : row) {
                o.add(e);
            }
        }
        for (auto& row : values(x.view_secondary_dataset())) {
            for (double e : row) {
                o.add(e);
            }
        }
    }
};
std::unique_ptr<Task> make_task(Rng& r, size_t kind) {
    switch (kind) {
        case 0: return std::make_unique<ReduceTask<Kind<F, F>>>(r);
        case 1: return std::make_unique<ReduceTask<Kind<Q8, F>>>(r);
        case 2: return std::make_unique<ReduceTask<Kind<Q4, Q8>>>(r);
        default: return make_io_task<make>(r, kind - 3);
    }
}
} // namespace

SCENARIO(lean_memory) { short_of(make_task, 7); }
SCENARIO(lean_reduce) {
    Rng r("world");
    switch (knob("kind", 0, 4)) {
        case 0: reduction<Kind<F, F>>(r); break;
        case 1: reduction<Kind<Q8, F>>(r); break;
        case 2: reduction<Kind<Q4, Q8>>(r); break;
        case 3: reduction<Kind<H, H>>(r); break;
        default: reduction<Kind<Q8, Q8>>(r);
    }
}
SCENARIO(lean_search) {
    switch (knob("kind", 0, 2)) {
        case 0: searching<Kind<F, F>, L2>(); break;
        case 1: searching<Kind<Q8, F>, IP>(); break;
        default: searching<Kind<Q4, Q8>, L2>();
    }
}
SCENARIO(lean_build) {
    switch (knob("kind", 0, 1)) {
        case 0: building<Kind<F, F>, L2>(); break;
        default: building<Kind<Q4, Q8>, IP>();
    }
}
SCENARIO(lean_round_trip) { round_trip(make, 4); }
SCENARIO(lean_failing_save) { failing_save(make, 4); }
SCENARIO(lean_damaged_load) { damaged_load(make, 4); }
SCENARIO(lean_crashed_save) { crashed_save(make, 4); }
