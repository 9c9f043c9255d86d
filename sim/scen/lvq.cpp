// Compressed data sets: parallel compression, distances, files.
#include "lvq.h"
#include "io.h"

using namespace svsx;

namespace {

template <typename D, typename T> D compress(const Floats& v, size_t d, size_t threads, size_t align) {
    auto pool = make_pool(threads);
    return D::compress(to_floats<T>(v, d), pool, align);
}

// Distances between queries and the stored vectors, and between stored vectors.
template <typename D, typename M> void distances(const D& x, const Floats& qs, Rng& r) {
    auto rec = stored(x);
    std::vector<double> c;
    for (auto e : x.get_centroid(0)) {
        c.push_back(e);
    }
    auto f = lvq::adapt(x, typename M::dist());
    for (auto& q : qs) {
        std::vector<float> qf(q.begin(), q.end());
        auto span = svs::lib::as_const_span(qf);
        svs::distance::maybe_fix_argument(f, span);
        for (size_t i = 0; i < x.size(); ++i) {
            double t = true_dist<M>(q, rec[i]);
            double g = svs::distance::compute(f, span, x.get_datum(i));
            SIM_CHECK(std::fabs(t - g) <= slack(q, rec[i], c), "wrong-distance",
                      "%s distance of a query to vector %zu of %zu elements: %g, %g by its elements",
                      M::name, i, q.size(), g, t);
        }
    }
    auto self = lvq::adapt_for_self(x, typename M::dist());
    for (int rep = 0; rep < 3; ++rep) {
        size_t i = r.below(x.size());
        svs::distance::maybe_fix_argument(self, x.get_datum(i));
        for (size_t j = 0; j < x.size(); ++j) {
            double t = true_dist<M>(rec[i], rec[j]);
            double g = svs::distance::compute(self, x.get_datum(i), x.get_datum(j));
            SIM_CHECK(std::fabs(t - g) <= slack(rec[i], rec[j], c), "wrong-distance",
                      "%s distance of stored vectors %zu and %zu: %g, %g by their elements", M::name,
                      i, j, g, t);
        }
    }
}

template <typename D, typename T> void compression(Rng& r) {
    bool big = flag("many", 4);
    size_t d = big ? 1 + r.below(2) : 1 + (r.chance(70) ? r.below(40) : r.below(150));
    size_t n = big ? 100000 + knob("beyond", 1, 60000) : 1 + knob("n", 0, 40);
    auto v = gen_floats(r, n, d, 1 + (int)r.below(r.chance(50) ? 40 : 2000));
    size_t align = r.chance(50) ? 0 : 32;
    constexpr bool half = std::is_same_v<T, svs::Float16>;
    if (half) {
        for (auto& x : v) {
            for (auto& e : x) {
                e = (float)svs::Float16((float)e);
            }
        }
    }
    schedule_faults();
    size_t threads = 1 + knob("threads", 0, 4);
    log("%zu vectors of %zu elements, %zu+%zu bits, %zu threads", n, d, D::primary_bits,
        D::residual_bits, threads);
    std::unique_ptr<D> x, y;
    {
        Armed a;
        x = std::make_unique<D>(compress<D, T>(v, d, threads, align));
    }
    Quiet q;
    SIM_CHECK(x->dimensions() == d, "dimensions", "%zu dimensions, not %zu", x->dimensions(), d);
    within_bound(*x, v, half, "compressed");
    if (!big) {
        auto qs = gen_floats(r, 3, d, 40);
        distances<D, L2>(*x, qs, r);
        distances<D, IP>(*x, qs, r);
    }
    {
        svs::threads::SequentialThreadPool one;
        y = std::make_unique<D>(D::compress(to_floats<T>(v, d), one, align ? 0 : 32));
    }
    auto a = stored(*x), b = stored(*y);
    // (the mean is summed by thread, in double precision)
    for (size_t i = 0; i < n; ++i) {
        for (size_t k = 0; k < d; ++k) {
            SIM_CHECK(a[i][k] == b[i][k], "schedule-dependent",
                      "element %zu of vector %zu: %g with %zu threads, %g with one", k, i, a[i][k],
                      threads, b[i][k]);
        }
        note_bytes(a[i].data(), d * 8);
    }
    if (threads > 1) {
        nontrivial();
    }
    if (big) {
        probe("several chunks");
    }
}

// ---- files ---------------------------------------------------------------------------------
struct Packed : Object {
    size_t bits1, bits2, dims;
    virtual Floats rows() const = 0;
    void same(const Object& o, const char* cls) const override {
        auto& p = static_cast<const Packed&>(o);
        SIM_CHECK(dims == p.dims, cls, "%zu dimensions saved, %zu loaded", dims, p.dims);
        auto a = rows(), b = p.rows();
        SIM_CHECK(a.size() == b.size(), cls, "%zu vectors saved, %zu loaded", a.size(), b.size());
        for (size_t i = 0; i < a.size(); ++i) {
            SIM_CHECK(a[i] == b[i], cls, "vector %zu of %zu differs", i, a.size());
        }
    }
};
// Saved as one packing, loaded as another.
template <typename A, typename B> struct LvqObject : Packed {
    A x;
    size_t align;
    LvqObject(A x_, size_t a)
        : x{std::move(x_)}
        , align{a} {
        bits1 = A::primary_bits;
        bits2 = A::residual_bits;
        dims = x.dimensions();
    }
    void save(const fs::path& dir) override { svs::lib::save_to_disk(x, dir / "data"); }
    std::unique_ptr<Object> load(const fs::path& dir) const override {
        return std::make_unique<LvqObject<B, A>>(
            svs::lib::load_from_disk<B>(dir / "data", align ? 0 : 32), align ? 0 : 32);
    }
    Floats rows() const override { return stored(x); }
};
template <typename A, typename B> std::unique_ptr<Object> pack(Rng& r) {
    size_t n = 1 + r.below(r.chance(70) ? 60 : 400), d = 1 + r.below(r.chance(70) ? 40 : 140);
    auto v = gen_floats(r, n, d, 40);
    svs::threads::SequentialThreadPool one;
    size_t align = r.chance(50) ? 0 : 32;
    return std::make_unique<LvqObject<A, B>>(A::compress(to_floats<float>(v, d), one, align), align);
}
std::unique_ptr<Object> make(Rng& r, size_t kind) {
    switch (kind) {
        case 0: return pack<L8, L8>(r);
        case 1: return pack<L5, L5>(r);
        case 2: return pack<L4T, L4T>(r);
        case 3: return pack<L4, L4T>(r);
        case 4: return pack<L8T, L8>(r);
        case 5: return pack<L48, L48T>(r);
        case 6: return pack<L48T, L48T>(r);
        case 7: return pack<L44, L44>(r);
        default: return pack<L88, L88>(r);
    }
}

// ---- memory runs out while compressing -------------------------------------------------------
template <typename D> struct PackTask : Task {
    Floats v, qs;
    size_t d, threads, align;
    svs::data::SimpleData<float> raw;
    explicit PackTask(Rng& r)
        : v{gen_floats(r, 1 + r.below(30), 1, 40)}
        , d{1 + r.below(20)}
        , threads{1 + r.below(3)}
        , align{r.chance(50) ? 0u : 32u}
        , raw{1, 1} {
        v = gen_floats(r, v.size(), d, 40);
        qs = gen_floats(r, 2, d, 40);
        raw = to_floats<float>(v, d);
    }
    void perform(Report& o) override {
        auto pool = make_pool(threads);
        D x = D::compress(raw, pool, align);
        auto f = lvq::adapt(x, svs::DistanceL2());
        auto dec = x.decompressor();
        std::vector<float> q(d);
        for (auto& y : qs) {
            for (size_t k = 0; k < d; ++k) {
                q[k] = (float)y[k];
            }
            auto span = svs::lib::as_const_span(q);
            svs::distance::maybe_fix_argument(f, span);
            for (size_t i = 0; i < x.size(); ++i) {
                double g = svs::distance::compute(f, span, x.get_datum(i));
                Quiet quiet;
                o.add(g);
            }
        }
        for (size_t i = 0; i < x.size(); ++i) {
            for (float e : dec(x.get_datum(i))) {
                Quiet quiet;
                o.add(e);
            }
        }
    }
    void inputs(Report& o) override {
        for (size_t i = 0; i < raw.size(); ++i) {
            for (float e : raw.get_datum(i)) {
                o.add(e);
            }
        }
    }
};
std::unique_ptr<Task> make_task(Rng& r, size_t kind) {
    switch (kind) {
        case 0: return std::make_unique<PackTask<L8>>(r);
        case 1: return std::make_unique<PackTask<L4T>>(r);
        case 2: return std::make_unique<PackTask<L48>>(r);
        default: return make_io_task<make>(r, kind - 3);
    }
}
} // namespace

SCENARIO(lvq_memory) { short_of(make_task, 12); }
SCENARIO(lvq_compress) {
    Rng r("world");
    bool half = flag("half", 25);
    with_kind(knob("kind", 0, lvq_kinds - 1), [&](auto of) {
        using D = typename decltype(of)::type;
        if (half) {
            compression<D, svs::Float16>(r);
        } else {
            compression<D, float>(r);
        }
    });
}
SCENARIO(lvq_round_trip) { round_trip(make, 9); }
SCENARIO(lvq_failing_save) { failing_save(make, 9); }
SCENARIO(lvq_damaged_load) { damaged_load(make, 9); }
SCENARIO(lvq_crashed_save) { crashed_save(make, 9); }
