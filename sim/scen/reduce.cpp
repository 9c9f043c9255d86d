// Medoid, k-means training, element-wise reductions and compaction against their sequential
// definitions.
#include "svsx.h"
#include "svs/core/compact.h"
#include "svs/core/kmeans.h"
#include "svs/core/medioid.h"
#include "svs/lib/float16.h"
#include <optional>

using namespace svsx;

namespace {
template <typename T> auto blocks(size_t log2) {
    return svs::data::Blocked<svs::lib::Allocator<T>>(
        svs::data::BlockingParameters{.blocksize_bytes = svs::lib::PowerOfTwo(log2)});
}
template <typename T>
using Blocks = svs::data::BlockedData<T, svs::Dynamic, svs::lib::Allocator<T>>;

// Values in double, and whether sums of them are exact.
struct Values {
    size_t n, d;
    std::vector<double> v;
    bool exact;
    const double* row(size_t i) const { return v.data() + i * d; }
};
template <typename T> Values gen_values(Rng& r, size_t n, size_t d, int kind) {
    Values x{n, d, std::vector<double>(n * d), kind < 2};
    for (auto& y : x.v) {
        switch (kind) {
            case 0: y = (double)r.below(7) - 3; break;                 // ties
            case 1: y = (double)r.below(201) - 100; break;             // integers
            case 2: y = ((double)r.below(20001) - 10000) / 7919; break; // fractions
            case 3: y = ((double)r.below(20001) - 10000) * 1e17; break; // squares beyond float
            case 4: y = ((double)r.below(20001) - 10000) * 1e-24; break; // squares below float
        }
        y = (double)(float)(T)(float)y;
    }
    return x;
}
template <typename D, typename T> void fill(D& out, const Values& x) {
    std::vector<T> b(x.d);
    for (size_t i = 0; i < x.n; ++i) {
        for (size_t k = 0; k < x.d; ++k) {
            b[k] = (T)(float)x.row(i)[k];
        }
        out.set_datum(i, std::span<const T>(b.data(), b.size()));
    }
}
// Converts into a buffer of its own: a copy is needed for each thread.
template <typename T> struct Decode {
    std::vector<double> buffer;
    double scale = 1;
    template <typename S> std::span<const double> operator()(const S& s) {
        buffer.resize(s.size());
        for (size_t k = 0; k < s.size(); ++k) {
            buffer[k] = scale * (double)(float)s[k];
        }
        return {buffer.data(), buffer.size()};
    }
};

struct Skip {
    const std::vector<char>* keep;
    bool operator()(size_t i) const { return (*keep)[i]; }
};

template <typename D> void medoid_of(Rng& r, const D& data, const Values& x) {
    std::vector<char> keep(x.n, 1);
    bool some = r.chance(50);
    size_t kept = x.n;
    if (some) {
        size_t sure = r.below(x.n);
        for (size_t i = 0; i < x.n; ++i) {
            if (i != sure && r.chance(40)) {
                keep[i] = 0;
                kept--;
            }
        }
    }
    double scale = r.chance(30) ? 2.0 : 1.0;
    bool mapped = scale != 1.0 || r.chance(30);
    // Sequential definition.
    std::vector<long double> mean(x.d, 0), var(x.d, 0);
    long double biggest = 0;
    for (size_t i = 0; i < x.n; ++i) {
        for (size_t k = 0; keep[i] && k < x.d; ++k) {
            mean[k] += scale * x.row(i)[k];
            biggest = std::max<long double>(biggest, std::fabs(scale * x.row(i)[k]));
        }
    }
    for (auto& m : mean) {
        m /= kept;
    }
    auto dist = [&](size_t i) {
        long double s = 0;
        for (size_t k = 0; k < x.d; ++k) {
            long double e = scale * x.row(i)[k] - mean[k];
            s += e * e;
        }
        return s;
    };
    long double least = -1;
    for (size_t i = 0; i < x.n; ++i) {
        if (keep[i] && (least < 0 || dist(i) < least)) {
            least = dist(i);
        }
        for (size_t k = 0; keep[i] && k < x.d; ++k) {
            long double e = scale * x.row(i)[k] - mean[k];
            var[k] += e * e / kept;
        }
    }
    const long double slack = 1e-12L * (biggest * biggest) * x.d * (x.n + 1);
    static const size_t linear[] = {1, 2, 3, 1024};
    static const size_t batch[] = {1, 2, 5, 16, 1000000};
    std::optional<size_t> first;
    for (int round = 0; round < 3; ++round) {
        size_t threads = round == 0 ? 1 : r.range(1, 4);
        svs::utils::PairwiseSumParameters p{linear[r.below(4)], batch[r.below(5)]};
        auto pool = make_pool(threads);
        Armed a;
        size_t got;
        std::vector<double> m, v;
        if (mapped) {
            Decode<double> f{{}, scale};
            got = svs::utils::find_medioid(data, pool, Skip{&keep}, f, p);
            m = svs::utils::compute_medioid(data, pool, Skip{&keep}, f, p);
            std::vector<double> md(mean.begin(), mean.end());
            v = svs::utils::op_pairwise(data, svs::utils::CountVariance(md), pool, Skip{&keep}, f,
                                        p);
        } else if (some) {
            got = svs::utils::find_medioid(data, pool, Skip{&keep}, svs::lib::identity(), p);
            m = svs::utils::compute_medioid(data, pool, Skip{&keep}, svs::lib::identity(), p);
        } else {
            got = svs::utils::find_medioid(data, pool);
            m = svs::utils::compute_medioid(data, pool);
        }
        arm(false);
        SIM_CHECK(got < x.n && keep[got], "medoid-not-stored", "%zu of %zu points, %zu threads",
                  got, x.n, threads);
        SIM_CHECK(dist(got) <= least + slack, "medoid-not-nearest",
                  "point %zu is at %Lg from the mean, another at %Lg (%zu threads)", got,
                  dist(got), least, threads);
        for (size_t k = 0; k < x.d; ++k) {
            SIM_CHECK(std::fabs((double)(m[k] - mean[k])) <= 1e-12L * biggest * (x.n + 1),
                      "mean-differs", "component %zu of the mean is %g, not %Lg (%zu threads)", k,
                      m[k], mean[k], threads);
            if (!v.empty()) {
                SIM_CHECK(std::fabs((double)(v[k] - var[k])) <= slack, "variance-differs",
                          "component %zu of the variance is %g, not %Lg (%zu threads)", k, v[k],
                          var[k], threads);
            }
        }
        if (x.exact) {
            // Every sum is exact, so nothing may depend on how it was split.
            if (!first) {
                first = got;
            }
            SIM_CHECK(*first == got, "medoid-depends-on-threads",
                      "point %zu with one thread, %zu with %zu", *first, got, threads);
        }
        note(got);
    }
    nontrivial();
}
template <typename T> void medoid() {
    Rng r("reduce");
    size_t n = r.range(1, 40), d = r.range(1, 4);
    int kind = (int)r.below(std::is_same_v<T, float> ? 5 : 2);
    auto x = gen_values<T>(r, n, d, kind);
    schedule_faults();
    if (r.chance(60)) {
        Data<T> data(n, d);
        fill<Data<T>, T>(data, x);
        medoid_of(r, data, x);
    } else {
        Blocks<T> data(n, d, blocks<T>(5));
        fill<Blocks<T>, T>(data, x);
        medoid_of(r, data, x);
    }
}

// ---- k-means ----------------------------------------------------------------------------
template <typename T> void kmeans() {
    Rng r("reduce");
    size_t n = r.range(1, 40), d = r.range(1, 4);
    auto x = gen_values<T>(r, n, d, std::is_same_v<T, float> ? (int)r.below(3) : (int)r.below(2));
    Data<T> data(n, d);
    fill<Data<T>, T>(data, x);
    size_t clusters = r.chance(20) ? n : r.range(1, std::min<size_t>(n, 8));
    size_t minibatch = r.chance(30) ? n + r.below(3) : r.range(1, n);
    size_t epochs = r.below(4);
    uint64_t seed = r.next();
    svs::KMeansParameters none(clusters, minibatch, 0, seed), p(clusters, minibatch, epochs, seed);
    schedule_faults();
    if (r.chance(15)) {
        svs::KMeansParameters many(n + r.range(1, 3), minibatch, epochs, seed);
        bool threw = false;
        try {
            svs::train(many, data, r.range(1, 2));
        } catch (const svs::ANNException&) {
            threw = true;
        }
        SIM_CHECK(threw, "no-error", "%zu clusters from %zu points", many.clusters, n);
        probe("more clusters than points");
    }
    Data<float> start = [&] {
        auto c = svs::train(none, data, 1);
        Data<float> o(c.size(), c.dimensions());
        for (size_t i = 0; i < c.size(); ++i) {
            o.set_datum(i, c.get_datum(i));
        }
        return o;
    }();
    SIM_CHECK(start.size() == clusters && start.dimensions() == d, "wrong-shape",
              "%zu centroids of %zu dimensions", start.size(), start.dimensions());
    // Each initial centroid is another stored point.
    {
        std::vector<char> used(n, 0);
        for (size_t c = 0; c < clusters; ++c) {
            bool found = false;
            for (size_t i = 0; !found && i < n; ++i) {
                if (!used[i]) {
                    found = true;
                    for (size_t k = 0; found && k < d; ++k) {
                        found = (double)start.get_datum(c)[k] == x.row(i)[k];
                    }
                    used[i] = found;
                }
            }
            SIM_CHECK(found, "centroid-not-stored",
                      "initial centroid %zu is no stored point, or one that was picked already", c);
        }
    }
    // Sequential definition, in double.
    std::vector<double> c(clusters * d);
    double scale = 1;
    for (size_t i = 0; i < clusters; ++i) {
        for (size_t k = 0; k < d; ++k) {
            c[i * d + k] = start.get_datum(i)[k];
        }
    }
    for (auto y : x.v) {
        scale = std::max(scale, std::fabs(y));
    }
    std::vector<std::vector<double>> after; // per epoch
    size_t known = epochs;                  // epochs until a tie makes the rest ambiguous
    {
        Quiet q;
        std::vector<int64_t> counts(clusters, 0);
        for (size_t e = 0; e < epochs && known == epochs; ++e) {
            std::vector<int64_t> now(clusters, 0);
            for (size_t b = 0; b < n && known == epochs; b += minibatch) {
                size_t to = std::min(n, b + minibatch);
                std::vector<size_t> which(to - b);
                for (size_t i = b; i < to; ++i) {
                    double best = INFINITY, second = INFINITY;
                    for (size_t j = 0; j < clusters; ++j) {
                        double s = 0;
                        for (size_t k = 0; k < d; ++k) {
                            double y = x.row(i)[k] - c[j * d + k];
                            s += y * y;
                        }
                        if (s < best) {
                            second = best;
                            best = s;
                            which[i - b] = j;
                        } else {
                            second = std::min(second, s);
                        }
                    }
                    if (second - best <= 1e-4 * scale * scale) {
                        known = e;
                    }
                }
                for (size_t i = b; i < to; ++i) {
                    size_t j = which[i - b];
                    now[j]++;
                    counts[j]++;
                    double lr = 1.0 / (double)counts[j];
                    for (size_t k = 0; k < d; ++k) {
                        c[j * d + k] = (1 - lr) * c[j * d + k] + lr * x.row(i)[k];
                    }
                }
            }
            counts = now;
            if (known == epochs) {
                after.push_back(c);
            }
        }
    }
    std::vector<float> first;
    for (int round = 0; round < 3; ++round) {
        size_t threads = round == 0 ? 1 : r.range(1, 4);
        size_t calls = 0;
        std::optional<double> error;
        auto cb = [&](const auto& dd, const auto& cc, auto& pool, auto&) {
            SIM_CHECK(dd.size() == n && cc.size() == clusters, "wrong-shape", "%zu, %zu",
                      dd.size(), cc.size());
            if (calls < after.size()) {
                for (size_t i = 0; i < clusters; ++i) {
                    for (size_t k = 0; k < d; ++k) {
                        double got = cc.get_datum(i)[k], want = after[calls][i * d + k];
                        SIM_CHECK(std::fabs(got - want) <= 1e-4 * scale, "training-differs",
                                  "epoch %zu, %zu threads: component %zu of centroid %zu is %g, "
                                  "not %g",
                                  calls, threads, k, i, got, want);
                    }
                }
                probe("epoch compared");
            }
            calls++;
            error = svs::mean_squared_error(dd, cc, pool);
            double sum = 0;
            for (size_t i = 0; i < n; ++i) {
                double best = INFINITY;
                for (size_t j = 0; j < clusters; ++j) {
                    double s = 0;
                    for (size_t k = 0; k < d; ++k) {
                        double y = x.row(i)[k] - cc.get_datum(j)[k];
                        s += y * y;
                    }
                    best = std::min(best, s);
                }
                sum += best;
            }
            SIM_CHECK(std::fabs(*error - sum / (double)n) <= 1e-5 * scale * scale, "error-differs",
                      "mean squared error %g, not %g (%zu threads)", *error, sum / (double)n,
                      threads);
        };
        Armed a;
        auto got = round == 2 ? svs::train(p, data, make_pool(threads), cb)
                              : svs::train(p, data, threads, cb);
        arm(false);
        SIM_CHECK(calls == epochs, "epochs", "%zu epochs of %zu", calls, epochs);
        SIM_CHECK(got.size() == clusters && got.dimensions() == d, "wrong-shape",
                  "%zu centroids of %zu dimensions", got.size(), got.dimensions());
        std::vector<float> flat;
        for (size_t i = 0; i < clusters; ++i) {
            for (auto y : got.get_datum(i)) {
                SIM_CHECK(std::isfinite(y), "not-finite", "centroid %zu (%zu threads)", i, threads);
                flat.push_back(y);
            }
        }
        if (first.empty()) {
            first = flat;
        }
        SIM_CHECK(first == flat, "depends-on-threads",
                  "training with %zu threads gives another result", threads);
        if (epochs == 0) {
            for (size_t i = 0; i < flat.size(); ++i) {
                SIM_CHECK(flat[i] == start.get_datum(i / d)[i % d], "depends-on-threads",
                          "the initial centroids with %zu threads", threads);
            }
        }
    }
    nontrivial();
}

// ---- compaction ----------------------------------------------------------------------------
template <typename I, typename T, typename D> void compact_of(Rng& r, D& data, const Values& x) {
    std::vector<I> kept;
    unsigned percent = (unsigned)r.below(101);
    for (size_t i = 0; i < x.n; ++i) {
        if (r.chance(percent)) {
            kept.push_back((I)i);
        }
    }
    size_t batch = r.chance(20) ? 1000000 : r.range(1, x.n + 3);
    size_t threads = r.range(1, 4);
    int form = (int)r.below(3);
    log("%zu of %zu elements, batches of %zu, %zu threads, form %d", kept.size(), x.n, batch,
        threads, form);
    if (r.chance(10)) {
        // No room for anything: an error, and nothing is moved.
        bool threw = false;
        auto pool = make_pool(threads);
        try {
            data.compact(svs::lib::as_const_span(kept), pool, 0);
        } catch (const svs::ANNException&) {
            threw = true;
        }
        SIM_CHECK(threw || kept.empty(), "no-error", "compaction without room");
        for (size_t i = 0; i < x.n; ++i) {
            for (size_t k = 0; k < x.d; ++k) {
                SIM_CHECK((double)(float)data.get_datum(i)[k] == x.row(i)[k], "compaction-differs",
                          "a failed compaction moved element %zu", i);
            }
        }
    }
    {
        auto pool = make_pool(threads);
        Armed a;
        switch (form) {
            case 0: data.compact(svs::lib::as_const_span(kept), pool, batch); break;
            case 1: data.compact(svs::lib::as_const_span(kept), pool); break;
            case 2: {
                svs::data::SimpleData<T, svs::Dynamic> buffer(std::min<size_t>(batch, x.n), x.d);
                svs::compact_data(data, buffer, svs::lib::as_const_span(kept), pool);
                break;
            }
        }
    }
    SIM_CHECK(data.size() == x.n, "size-changed", "%zu elements", data.size());
    for (size_t i = 0; i < kept.size(); ++i) {
        for (size_t k = 0; k < x.d; ++k) {
            SIM_CHECK((double)(float)data.get_datum(i)[k] == x.row(kept[i])[k],
                      "compaction-differs", "position %zu of %zu does not hold element %zu", i,
                      kept.size(), (size_t)kept[i]);
        }
    }
    data.resize(kept.size());
    SIM_CHECK(data.size() == kept.size(), "size-changed", "%zu elements after shrinking to %zu",
              data.size(), kept.size());
    for (size_t i = 0; i < kept.size(); ++i) {
        SIM_CHECK((double)(float)data.get_datum(i)[0] == x.row(kept[i])[0], "compaction-differs",
                  "shrinking changed position %zu", i);
    }
    nontrivial();
}
template <typename T> void compaction() {
    Rng r("reduce");
    size_t n = r.range(1, 60), d = r.range(1, 4);
    Values x{n, d, std::vector<double>(n * d), true};
    for (size_t i = 0; i < x.v.size(); ++i) {
        x.v[i] = (double)(float)(T)(float)(sizeof(T) == 1 ? (double)(i % 251) - 125 : (double)i);
    }
    schedule_faults();
    if (r.chance(50)) {
        Data<T> data(n, d);
        fill<Data<T>, T>(data, x);
        r.chance(50) ? compact_of<uint32_t, T>(r, data, x) : compact_of<uint64_t, T>(r, data, x);
    } else {
        Blocks<T> data(n, d, blocks<T>(r.range(5, 8)));
        fill<Blocks<T>, T>(data, x);
        r.chance(50) ? compact_of<uint32_t, T>(r, data, x) : compact_of<uint64_t, T>(r, data, x);
    }
}
} // namespace
SCENARIO(reduce_medoid) {
    switch (knob("type", 0, 3)) {
        case 0:
        case 1: medoid<float>(); break;
        case 2: medoid<int8_t>(); break;
        case 3: medoid<svs::Float16>(); break;
    }
}
SCENARIO(reduce_kmeans) { knob("type", 0, 2) ? kmeans<float>() : kmeans<int8_t>(); }
SCENARIO(reduce_compact) { knob("type", 0, 2) ? compaction<float>() : compaction<int8_t>(); }
