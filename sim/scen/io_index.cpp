// Saved static graph index.
#include "io.h"
#include "svs/core/data.h"
#include "svs/core/graph.h"
#include "svs/index/vamana/index.h"

using namespace svsx;
namespace lib = svs::lib;
namespace va = svs::index::vamana;

namespace {
template <typename M, typename T> struct StaticObject : Object {
    using BuiltGraph = svs::graphs::SimpleGraph<uint32_t, lib::Allocator<uint32_t>>;
    using Loader = svs::VectorDataLoader<T, svs::Dynamic, lib::Allocator<T>>;
    using Built = va::VamanaIndex<BuiltGraph, Data<T>, typename M::dist>;
    using Loaded = decltype(va::auto_assemble(fs::path(), svs::GraphLoader<uint32_t>(fs::path()),
                                              Loader(fs::path()), typename M::dist(), size_t{1}));
    std::shared_ptr<const Points> qs;
    std::unique_ptr<Built> built;
    std::unique_ptr<Loaded> loaded;
    mutable fs::path config; // of the latest save or load

    template <typename F> auto with(F&& f) const { return built ? f(*built) : f(*loaded); }

    void save(const fs::path& dir) override {
        with([&](auto& ix) { ix.save(dir / "config", dir / "graph", dir / "data"); });
        config = dir / "config";
    }
    std::unique_ptr<Object> load(const fs::path& dir) const override {
        auto o = std::make_unique<StaticObject>();
        o->qs = qs;
        size_t threads = knob("load_threads", 1, 3);
        o->loaded.reset(new Loaded(va::auto_assemble(
            dir / "config", svs::GraphLoader<uint32_t>(dir / "graph"), Loader(dir / "data"),
            typename M::dist(), threads)));
        o->loaded->set_num_threads(1);
        o->config = dir / "config";
        return o;
    }
    std::vector<Hit> answers(size_t window, size_t k) const {
        return with([&](auto& ix) {
            std::vector<Hit> out;
            auto sp = ix.get_search_parameters();
            if (window) {
                sp.buffer_config(va::SearchBufferConfig(window));
            }
            svs::QueryResult<size_t> r(qs->n, k);
            auto data = to_data<T>(*qs);
            ix.search(r.view(), data, sp);
            for (size_t q = 0; q < qs->n; ++q) {
                for (size_t j = 0; j < k; ++j) {
                    out.push_back({r.index(q, j), r.distance(q, j)});
                }
            }
            return out;
        });
    }
    void same(const Object& x, const char* cls) const override {
        auto& b = static_cast<const StaticObject&>(x);
        auto shape = [](auto& ix) {
            return std::tuple(ix.size(), ix.dimensions(), ix.get_alpha(), ix.get_max_candidates(),
                              ix.get_construction_window_size(), ix.get_full_search_history(),
                              ix.max_degree());
        };
        SIM_CHECK(with(shape) == b.with(shape), cls, "sizes or construction parameters differ");
        auto sp = [](auto& ix) { return ix.get_search_parameters(); };
        SIM_CHECK(with(sp) == b.with(sp), cls, "search parameters differ");
        size_t n = std::get<0>(with(shape));
        for (size_t w : {size_t{0}, n}) {
            size_t k = std::min<size_t>(n, w ? n : 3);
            auto p = answers(w, k), q = b.answers(w, k);
            for (size_t i = 0; i < p.size(); ++i) {
                // Positions without a result hold no number.
                bool eq = p[i].id == q[i].id &&
                          (p[i].dist == q[i].dist || (p[i].dist != p[i].dist && q[i].dist != q[i].dist));
                SIM_CHECK(eq, cls, "query %zu neighbour %zu: %zu at %g saved, %zu at %g loaded",
                          i / k, i % k, p[i].id, p[i].dist, q[i].id, q[i].dist);
            }
        }
        if (built && fs::exists(config)) {
            auto c = lib::load_from_disk<va::VamanaIndexParameters>(config);
            auto d = lib::load_from_disk<va::VamanaIndexParameters>(b.config);
            SIM_CHECK(c == d, cls, "stored parameters differ");
        }
    }
};

template <typename M, typename T> std::unique_ptr<Object> make_static(Rng& r) {
    auto o = std::make_unique<StaticObject<M, T>>();
    size_t n = r.chance(70) ? r.range(1, 30) : r.range(20, 150), d = r.range(1, 9);
    auto pts = gen_points(r, n, d, 50, 10);
    o->qs = std::make_shared<const Points>(gen_points(r, 3, d, 50));
    size_t degree = r.range(1, 8);
    typename StaticObject<M, T>::BuiltGraph g(n, degree);
    for (size_t i = 0; i < n; ++i) {
        std::vector<uint32_t> l(r.below(degree + 1));
        for (auto& x : l) {
            x = (uint32_t)r.below(n);
        }
        std::sort(l.begin(), l.end());
        l.erase(std::unique(l.begin(), l.end()), l.end());
        g.replace_node((uint32_t)i, l);
    }
    o->built.reset(new typename StaticObject<M, T>::Built(
        std::move(g), to_data<T>(pts), (uint32_t)r.below(n), typename M::dist(),
        th::NativeThreadPool(1)));
    // As after assembling: everything that a configuration holds.
    float alpha = std::bit_cast<float>((uint32_t)(0x3f800000u + r.below(1u << 23)));
    size_t w = r.range(1, 40);
    o->built->apply(va::VamanaIndexParameters(
        r.below(n),
        va::VamanaBuildParameters(alpha, degree, r.range(1, 1000), r.range(1, 100000),
                                  r.range(1, degree), r.chance(50)),
        va::VamanaSearchParameters(va::SearchBufferConfig(w, w + r.below(20)), r.chance(50),
                                   r.below(10), r.below(5))));
    return o;
}

// Settings in a file of their own.
template <typename P> struct ParamObject : Object {
    P p;
    explicit ParamObject(P x)
        : p{x} {}
    void save(const fs::path& dir) override { lib::save_to_file(p, dir / "p.toml"); }
    std::unique_ptr<Object> load(const fs::path& dir) const override {
        return std::make_unique<ParamObject>(lib::load_from_file<P>(dir / "p.toml"));
    }
    void same(const Object& o, const char* cls) const override {
        SIM_CHECK(p == static_cast<const ParamObject&>(o).p, cls, "parameters differ");
    }
};
template <typename P> std::unique_ptr<Object> as_object(P p) {
    return std::make_unique<ParamObject<P>>(p);
}
size_t any_size(Rng& r) {
    switch (r.below(4)) {
        case 0: return r.below(3);
        case 1: return r.below(1000);
        case 2: return r.next() >> 1;
        default: return std::numeric_limits<int64_t>::max() - r.below(2);
    }
}
float any_float(Rng& r) {
    while (true) {
        float f = r.chance(30) ? (float)r.below(100) / 8 : std::bit_cast<float>((uint32_t)r.next());
        if (f == f) {
            return f;
        }
    }
}
va::VamanaBuildParameters any_build(Rng& r) {
    return {any_float(r), any_size(r), any_size(r), any_size(r), any_size(r), r.chance(50)};
}
va::VamanaSearchParameters any_search(Rng& r) {
    size_t a = any_size(r), b = any_size(r);
    return {va::SearchBufferConfig(std::min(a, b), std::max(a, b)), r.chance(50), any_size(r),
            any_size(r)};
}

std::unique_ptr<Object> make(Rng& r, size_t kind) {
    switch (kind) {
        case 0: return make_static<L2, float>(r);
        case 1: return make_static<IP, uint8_t>(r);
        case 2: return as_object(any_build(r));
        case 3: return as_object(any_search(r));
        default:
            return as_object(va::VamanaIndexParameters(any_size(r), any_build(r), any_search(r)));
    }
}
constexpr size_t kinds = 5;
} // namespace

SCENARIO(io_index_round_trip) { round_trip(make, kinds); }
SCENARIO(io_index_failing_save) { failing_save(make, kinds); }
SCENARIO(io_index_damaged_load) { damaged_load(make, kinds); }
SCENARIO(io_index_crashed_save) { crashed_save(make, kinds); }
SCENARIO(io_index_starved) { starved_io<make>(kinds); }
