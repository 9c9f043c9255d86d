// Memory runs out while clustered and dynamic indexes are built, changed and searched.
#include "mem.h"
#include "svs/index/inverted/memory_based.h"
#include "svs/index/vamana/dynamic_index.h"
#include <set>

using namespace svsx;
namespace va = svs::index::vamana;
namespace inv = svs::index::inverted;

namespace {
struct ClusterTask : Task {
    Points pts, qs;
    inv::ClusteringParameters cp;
    va::VamanaBuildParameters bp{1.2f, 6, 12, 50, 6, true};
    size_t threads;
    explicit ClusterTask(Rng& r)
        : pts{gen_points(r, r.range(4, 26), r.range(1, 5), 50, 10)}
        , qs{gen_points(r, 3, pts.d, 50)}
        , threads{r.range(1, 3)} {
        cp.percent_centroids_ = svs::lib::Percent(0.3);
        cp.epsilon(3).max_replicas(1 + r.below(4)).seed(r.next()).batchsize(1 + r.below(pts.n));
        cp.search_window_size(10).num_intermediate_results(6).refinement_alpha(1.0);
    }
    void perform(Report& o) override {
        o.any_order = true;
        auto ix = inv::auto_build(inv::InvertedBuildParameters(cp, bp), to_data<float>(pts),
                                  svs::distance::DistanceL2(), threads);
        auto q = to_data<float>(qs);
        svs::QueryResult<size_t> r(qs.n, 3);
        auto p = ix.get_search_parameters();
        p.refinement_epsilon_ = 3;
        p.primary_parameters_.buffer_config(va::SearchBufferConfig(8));
        ix.search(r.view(), q, p);
        Quiet quiet;
        for (size_t i = 0; i < qs.n; ++i) {
            for (size_t j = 0; j < 3; ++j) {
                size_t id = r.index(i, j);
                if (id < pts.n) {
                    SIM_CHECK(r.distance(i, j) == exact_l2(qs.row(i), pts.row(id), pts.d),
                              "wrong-distance", "query %zu, identifier %zu: %g", i, id,
                              r.distance(i, j));
                }
            }
        }
    }
};

using GData = svs::data::BlockedData<uint32_t, svs::Dynamic, svs::lib::Allocator<uint32_t>>;
template <typename T> auto blocks(size_t log2) {
    return svs::data::Blocked<svs::lib::Allocator<T>>(
        svs::data::BlockingParameters{.blocksize_bytes = svs::lib::PowerOfTwo(log2)});
}
struct SmallGraph : svs::graphs::SimpleGraphBase<uint32_t, GData> {
    using parent = svs::graphs::SimpleGraphBase<uint32_t, GData>;
    SmallGraph(size_t max_degree, size_t num_nodes)
        : parent{num_nodes, max_degree, blocks<uint32_t>(9)} {}
    explicit SmallGraph(parent&& p)
        : parent(std::move(p)) {}
    void unsafe_resize(size_t n) { parent::data_.resize(n); }
};

// A whole life of a dynamic index.
struct LifeTask : Task {
    using BD = svs::data::BlockedData<float, svs::Dynamic, svs::lib::Allocator<float>>;
    using Index = va::MutableVamanaIndex<SmallGraph, BD, svs::distance::DistanceL2>;
    Points pts, extra;
    va::VamanaBuildParameters bp{1.2f, 5, 10, 30, 5, true};
    size_t threads;
    uint64_t script;
    explicit LifeTask(Rng& r)
        : pts{gen_points(r, r.range(1, 20), r.range(1, 5), 50, 10)}
        , extra{gen_points(r, r.range(1, 12), pts.d, 50, 10)}
        , threads{r.range(1, 3)}
        , script{r.next()} {}
    void perform(Report& o) override {
        o.any_order = true;
        BD data(pts.n, pts.d, blocks<float>(8));
        std::vector<float> b(pts.d);
        std::vector<size_t> ids;
        for (size_t i = 0; i < pts.n; ++i) {
            for (size_t k = 0; k < pts.d; ++k) {
                b[k] = pts.row(i)[k];
            }
            data.set_datum(i, std::span<const float>(b.data(), b.size()));
            ids.push_back(100 + i);
        }
        Index ix(bp, std::move(data), ids, svs::distance::DistanceL2(), threads);
        auto more = to_data<float>(extra);
        std::vector<size_t> new_ids;
        for (size_t i = 0; i < extra.n; ++i) {
            new_ids.push_back(500 + i);
        }
        ix.add_points(more, new_ids);
        std::vector<size_t> gone;
        for (size_t i = 0; i < pts.n; i += 2) {
            gone.push_back(100 + i);
        }
        ix.delete_entries(gone);
        if (script & 1) {
            ix.consolidate();
        }
        if (script & 2) {
            ix.compact(4);
        }
        auto sp = va::VamanaSearchParameters();
        sp.buffer_config(va::SearchBufferConfig(pts.n + extra.n + 1));
        svs::QueryResult<size_t> r(extra.n, 2);
        ix.search(r.view(), more.cview(), sp);
        Quiet q;
        SIM_CHECK(ix.size() == pts.n + extra.n - gone.size(), "size", "%zu points", ix.size());
        for (size_t i = 0; i < extra.n; ++i) {
            size_t id = r.index(i, 0);
            SIM_CHECK(!(id >= 100 && id < 500 && (id - 100) % 2 == 0), "deleted-id",
                      "%zu was deleted", id);
        }
    }
};
std::unique_ptr<Task> make(Rng& r, size_t kind) {
    if (kind == 0) {
        return std::make_unique<ClusterTask>(r);
    }
    return std::make_unique<LifeTask>(r);
}
} // namespace
SCENARIO(mem_more) { short_of(make, 2); }
