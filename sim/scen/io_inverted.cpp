// Saved clustered index, clusterings and settings of clustered indexes.
#include "io.h"
#include "svs/core/data.h"
#include "svs/index/inverted/memory_based.h"

using namespace svsx;
namespace lib = svs::lib;
namespace inv = svs::index::inverted;
namespace va = svs::index::vamana;

namespace {
using Clustering = inv::Clustering<uint32_t>;

struct ClusteringObject : Object {
    Clustering c;
    explicit ClusteringObject(Clustering x)
        : c{std::move(x)} {}
    void save(const fs::path& dir) override { lib::save_to_disk(c, dir / "c"); }
    std::unique_ptr<Object> load(const fs::path& dir) const override {
        return std::make_unique<ClusteringObject>(lib::load_from_disk<Clustering>(dir / "c"));
    }
    void same(const Object& o, const char* cls) const override {
        auto& b = static_cast<const ClusteringObject&>(o).c;
        SIM_CHECK(c.size() == b.size(), cls, "%zu clusters saved, %zu loaded", c.size(), b.size());
        for (auto& kv : c) {
            auto it = b.begin();
            for (; it != b.end() && it->first != kv.first; ++it) {
            }
            SIM_CHECK(it != b.end(), cls, "cluster %u is missing", kv.first);
            SIM_CHECK(kv.second == it->second, cls, "cluster %u differs", kv.first);
        }
    }
};
std::unique_ptr<Object> make_clustering(Rng& r) {
    Clustering c;
    size_t n = r.chance(10) ? 0 : r.range(1, 40);
    for (size_t i = 0; i < n; ++i) {
        inv::Cluster<uint32_t> cl((uint32_t)(i * 7 + r.below(7)));
        size_t m = r.chance(20) ? 0 : r.below(r.chance(20) ? 600 : 20);
        for (size_t j = 0; j < m; ++j) {
            cl.push_back(svs::Neighbor<uint32_t>((uint32_t)r.next(), (float)r.below(1000) / 8));
        }
        c.insert(std::move(cl));
    }
    return std::make_unique<ClusteringObject>(std::move(c));
}

struct InvObject : Object {
    using Loader = svs::VectorDataLoader<float, svs::Dynamic, lib::Allocator<float>>;
    using Dist = svs::distance::DistanceL2;
    using Built = decltype(inv::auto_build(std::declval<inv::InvertedBuildParameters>(),
                                           std::declval<Data<float>>(), Dist(), size_t{1}));
    using Loaded =
        decltype(inv::assemble_from_clustering(fs::path(), Loader(fs::path()), Dist(),
                                               inv::SparseStrategy(), fs::path(), fs::path(),
                                               size_t{1}));
    std::shared_ptr<const Points> pts, qs;
    std::shared_ptr<Clustering> clustering;
    std::unique_ptr<Built> built;
    std::unique_ptr<Loaded> loaded;

    template <typename F> auto with(F&& f) const { return built ? f(*built) : f(*loaded); }
    // What a user stores of a clustered index: its clustering, the primary index, the vectors.
    void save(const fs::path& dir) override {
        lib::save_to_disk(*clustering, dir / "clustering");
        with([&](auto& ix) {
            ix.save_primary_index(dir / "config", dir / "graph", dir / "primary");
        });
        lib::save_to_disk(to_data<float>(*pts), dir / "data");
    }
    std::unique_ptr<Object> load(const fs::path& dir) const override {
        auto o = std::make_unique<InvObject>();
        o->pts = pts;
        o->qs = qs;
        o->clustering = clustering;
        size_t threads = knob("load_threads", 1, 3);
        o->loaded.reset(new Loaded(inv::assemble_from_clustering(
            dir / "clustering", Loader(dir / "data"), Dist(), inv::SparseStrategy(), dir / "config",
            dir / "graph", threads)));
        o->loaded->set_num_threads(1);
        return o;
    }
    void same(const Object& x, const char* cls) const override {
        auto& b = static_cast<const InvObject&>(x);
        auto sp = [](auto& ix) { return ix.get_search_parameters().primary_parameters_; };
        SIM_CHECK(with(sp) == b.with(sp), cls, "search parameters of the primary index differ");
        auto data = to_data<float>(*qs);
        for (size_t w : {size_t{0}, size_t{4}, pts->n}) {
            size_t k = std::min<size_t>(pts->n, 6);
            auto ask = [&](auto& ix) {
                auto p = ix.get_search_parameters();
                p.refinement_epsilon_ = 3;
                if (w) {
                    p.primary_parameters_.buffer_config(va::SearchBufferConfig(w));
                }
                svs::QueryResult<size_t> r(qs->n, k);
                ix.search(r.view(), data, p);
                std::vector<Hit> h;
                for (size_t i = 0; i < qs->n * k; ++i) {
                    h.push_back({r.index(i / k, i % k), r.distance(i / k, i % k)});
                }
                return h;
            };
            auto p = with(ask), q = b.with(ask);
            for (size_t i = 0; i < p.size(); ++i) {
                bool eq = p[i].id == q[i].id &&
                          (p[i].dist == q[i].dist || (p[i].dist != p[i].dist && q[i].dist != q[i].dist));
                SIM_CHECK(eq, cls, "query %zu neighbour %zu: %zu at %g saved, %zu at %g loaded",
                          i / k, i % k, p[i].id, p[i].dist, q[i].id, q[i].dist);
            }
        }
    }
};
std::unique_ptr<Object> make_inverted(Rng& r) {
    auto o = std::make_unique<InvObject>();
    size_t n = r.range(2, 40), d = r.range(1, 6);
    o->pts = std::make_shared<const Points>(gen_points(r, n, d, 50, 10));
    o->qs = std::make_shared<const Points>(gen_points(r, 3, d, 50));
    inv::ClusteringParameters cp;
    cp.percent_centroids_ = lib::Percent(0.1 + 0.1 * r.below(4));
    cp.epsilon(r.below(4)).max_replicas(r.range(1, 4)).seed(r.next()).batchsize(r.range(1, n + 3));
    va::VamanaBuildParameters bp{1.2f, r.range(2, 7), r.range(2, 12), 50, 2, true};
    auto keep = std::make_shared<Clustering>();
    o->built.reset(new InvObject::Built(inv::auto_build(
        inv::InvertedBuildParameters(cp, bp), to_data<float>(*o->pts), InvObject::Dist(), size_t{1},
        inv::SparseStrategy(), inv::PickRandomly(), [&](const auto& c) { *keep = c; })));
    o->clustering = keep;
    auto p = o->built->get_search_parameters();
    size_t w = r.range(1, 12);
    p.primary_parameters_ = va::VamanaSearchParameters(
        va::SearchBufferConfig(w, w + r.below(20)), r.chance(50), r.below(10), r.below(5));
    o->built->set_search_parameters(p);
    return o;
}

template <typename P> struct ParamObject : Object {
    P p;
    explicit ParamObject(P x)
        : p{x} {}
    void save(const fs::path& dir) override { lib::save_to_file(p, dir / "p.toml"); }
    std::unique_ptr<Object> load(const fs::path& dir) const override {
        return std::make_unique<ParamObject>(lib::load_from_file<P>(dir / "p.toml"));
    }
    void same(const Object& o, const char* cls) const override {
        SIM_CHECK(p == static_cast<const ParamObject&>(o).p, cls, "parameters differ");
    }
};
template <typename P> std::unique_ptr<Object> as_object(P p) {
    return std::make_unique<ParamObject<P>>(p);
}
size_t any_size(Rng& r) {
    switch (r.below(4)) {
        case 0: return r.below(3);
        case 1: return r.below(1000);
        case 2: return r.next() >> 1;
        default: return std::numeric_limits<int64_t>::max() - r.below(2);
    }
}
double any_double(Rng& r) {
    while (true) {
        double f = r.chance(30) ? (double)r.below(100) / 8 : std::bit_cast<double>(r.next());
        if (f == f) {
            return f;
        }
    }
}
inv::ClusteringParameters any_clustering(Rng& r) {
    return {lib::Percent((double)r.below(1u << 30) / (1u << 30)), any_double(r), any_size(r),
            any_size(r), r.next(), any_size(r), any_size(r), any_size(r), any_double(r)};
}
va::VamanaBuildParameters any_build(Rng& r) {
    return {(float)r.below(1u << 20) / 1024, any_size(r), any_size(r), any_size(r), any_size(r),
            r.chance(50)};
}
va::VamanaSearchParameters any_search(Rng& r) {
    size_t a = any_size(r), b = any_size(r);
    return {va::SearchBufferConfig(std::min(a, b), std::max(a, b)), r.chance(50), any_size(r),
            any_size(r)};
}

std::unique_ptr<Object> make(Rng& r, size_t kind) {
    switch (kind) {
        case 0: return make_inverted(r);
        case 1: return make_clustering(r);
        case 2: return as_object(any_clustering(r));
        case 3: return as_object(inv::InvertedBuildParameters(any_clustering(r), any_build(r)));
        default: return as_object(inv::InvertedSearchParameters(any_search(r), any_double(r)));
    }
}
constexpr size_t kinds = 5;
} // namespace

SCENARIO(io_inverted_round_trip) { round_trip(make, kinds); }
SCENARIO(io_inverted_failing_save) { failing_save(make, kinds); }
SCENARIO(io_inverted_damaged_load) { damaged_load(make, kinds); }
SCENARIO(io_inverted_crashed_save) { crashed_save(make, kinds); }
SCENARIO(io_inverted_starved) { starved_io<make>(kinds); }
