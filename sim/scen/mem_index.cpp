// Memory runs out while static indexes are built and searched.
#include "mem.h"
#include "svs/core/graph/graph.h"
#include "svs/index/flat/flat.h"
#include "svs/index/vamana/index.h"

using namespace svsx;
namespace va = svs::index::vamana;
namespace fl = svs::index::flat;

namespace {
using Graph = svs::graphs::SimpleGraph<uint32_t, svs::lib::Allocator<uint32_t>>;

template <typename R> void report_hits(const R& r, size_t n, size_t k, Report& out) {
    Quiet q;
    for (size_t i = 0; i < n; ++i) {
        for (size_t j = 0; j < k; ++j) {
            out.add(r.index(i, j));
            out.add(r.distance(i, j));
        }
    }
}

// Exhaustive search: a new index, and one that is kept.
struct FlatTask : Task {
    using Index = fl::FlatIndex<Data<float>, svs::distance::DistanceL2>;
    Points pts, qs;
    Data<float> queries;
    size_t k, threads, more;
    fl::FlatParameters par;
    std::unique_ptr<Index> kept;
    bool fresh;
    explicit FlatTask(Rng& r)
        : pts{gen_points(r, r.range(1, 30), r.range(1, 6), 50, 10)}
        , qs{gen_points(r, r.range(1, 6), pts.d, 50)}
        , queries{to_data<float>(qs)}
        , k{r.range(1, 8)}
        , threads{r.range(1, 4)}
        , more{r.range(1, 4)}
        , par{r.below(12), r.below(4)}
        , fresh{r.chance(50)} {}
    void prepare() override {
        if (!fresh) {
            kept = std::make_unique<Index>(to_data<float>(pts), svs::distance::DistanceL2(),
                                           th::NativeThreadPool(threads));
        }
    }
    void inputs(Report& o) override {
        o.add(queries.size());
        if (kept) {
            o.add(kept->size());
            o.add(kept->dimensions());
        }
    }
    void ask(Index& ix, Report& o) {
        svs::QueryResult<size_t> r(qs.n, k);
        ix.search(r.view(), queries.cview(), par);
        report_hits(r, qs.n, k, o);
    }
    void perform(Report& o) override {
        if (fresh) {
            auto ix = Index(to_data<float>(pts), svs::distance::DistanceL2(),
                            th::NativeThreadPool(threads));
            ask(ix, o);
            ix.set_num_threads(more);
            ask(ix, o);
        } else {
            ask(*kept, o);
        }
    }
};

// Graph search in an index that is kept; the thread count and settings change.
struct SearchTask : Task {
    using Index = va::VamanaIndex<Graph, Data<float>, svs::distance::DistanceL2>;
    Points pts, qs;
    Data<float> queries;
    size_t k;
    uint32_t entry;
    size_t threads, more;
    bool fresh;
    Graph graph;
    va::VamanaSearchParameters sp;
    std::unique_ptr<Index> ix;
    static Graph links(Rng& r, size_t n) {
        Graph g(n, 6);
        for (uint32_t i = 0; i < n; ++i) {
            for (int j = 0; j < 5; ++j) {
                auto x = (uint32_t)r.below(n);
                if (x != i) {
                    g.add_edge(i, x);
                }
            }
        }
        return g;
    }
    explicit SearchTask(Rng& r)
        : pts{gen_points(r, r.range(1, 30), r.range(1, 6), 50, 10)}
        , qs{gen_points(r, r.range(1, 6), pts.d, 50)}
        , queries{to_data<float>(qs)}
        , k{r.range(1, 8)}
        , entry{(uint32_t)r.below(pts.n)}
        , threads{r.range(1, 4)}
        , more{r.range(1, 4)}
        , fresh{r.chance(40)}
        , graph{links(r, pts.n)} {
        sp.buffer_config(va::SearchBufferConfig(k + r.below(10)));
        sp.search_buffer_visited_set(r.chance(50));
    }
    std::unique_ptr<Index> index() {
        Graph g(pts.n, 6);
        for (uint32_t i = 0; i < pts.n; ++i) {
            g.replace_node(i, graph.get_node(i));
        }
        auto p = std::make_unique<Index>(std::move(g), to_data<float>(pts), entry,
                                         svs::distance::DistanceL2(),
                                         th::NativeThreadPool(threads));
        p->set_search_parameters(sp);
        return p;
    }
    void prepare() override {
        if (!fresh) {
            ix = index();
        }
    }
    void inputs(Report& o) override {
        if (ix) {
            o.add(ix->size());
            o.add(ix->dimensions());
            o.add(ix->get_num_threads());
            auto p = ix->get_search_parameters();
            o.add(p == sp);
        }
    }
    void ask(Index& x, Report& o) {
        svs::QueryResult<size_t> r(qs.n, k);
        auto p = sp;
        x.search(r.view(), queries.cview(), p);
        report_hits(r, qs.n, k, o);
        auto scratch = x.scratchspace();
        x.search(queries.get_datum(0), scratch);
        Quiet q;
        o.add(scratch.buffer.size());
    }
    void perform(Report& o) override {
        if (fresh) {
            auto x = index();
            ask(*x, o);
            x->set_num_threads(more);
            ask(*x, o);
        } else {
            ask(*ix, o);
        }
    }
};

struct BuildTask : Task {
    Points pts;
    size_t threads;
    va::VamanaBuildParameters bp;
    explicit BuildTask(Rng& r)
        : pts{gen_points(r, r.range(1, 24), r.range(1, 5), 50, 10)}
        , threads{r.range(1, 3)} {
        bp = va::VamanaBuildParameters{1.2f, 2 + r.below(6), 1 + r.below(12), 50, 0, r.chance(50)};
        bp.max_candidate_pool_size = bp.window_size + r.below(10);
        bp.prune_to = bp.graph_max_degree;
    }
    void perform(Report& o) override {
        o.any_order = true;
        auto ix = va::auto_build(bp, to_data<float>(pts), svs::distance::DistanceL2(), threads,
                                 svs::lib::Allocator<uint32_t>());
        auto q = to_data<float>(pts);
        size_t k = std::min<size_t>(pts.n, 4);
        svs::QueryResult<size_t> r(pts.n, k);
        va::VamanaSearchParameters sp;
        sp.buffer_config(va::SearchBufferConfig(pts.n + 1));
        ix.search(r.view(), q.cview(), sp);
        Quiet quiet;
        for (size_t i = 0; i < pts.n; ++i) {
            for (size_t j = 0; j < k; ++j) {
                size_t id = r.index(i, j);
                SIM_CHECK(id < pts.n || id == (size_t)-1 || id == 0xffffffffu, "bad-id",
                          "query %zu, place %zu: identifier %zu", i, j, id);
                if (id < pts.n) {
                    SIM_CHECK(r.distance(i, j) == exact_l2(pts.row(i), pts.row(id), pts.d),
                              "wrong-distance", "query %zu, identifier %zu: %g", i, id,
                              r.distance(i, j));
                }
            }
        }
    }
};

std::unique_ptr<Task> make(Rng& r, size_t kind) {
    switch (kind) {
        case 0: return std::make_unique<FlatTask>(r);
        case 1: return std::make_unique<SearchTask>(r);
        default: return std::make_unique<BuildTask>(r);
    }
}
} // namespace
SCENARIO(mem_index) { short_of(make, 3); }
