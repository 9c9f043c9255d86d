// The exhaustive and the clustered index behind their type-erased interfaces.
#include "orch.h"
#include "svs/core/data.h"
#include "svs/orchestrators/exhaustive.h"
#include "svs/orchestrators/inverted.h"

using namespace svsx;
namespace lib = svs::lib;
namespace fl = svs::index::flat;
namespace inv = svs::index::inverted;
namespace va = svs::index::vamana;

namespace {
using Loader = svs::VectorDataLoader<float, svs::Dynamic, lib::Allocator<float>>;

void flat() {
    Rng r("orch-flat");
    Measure m = pick_measure();
    size_t n = 1 + knob("n", 0, 60), d = 1 + knob("dim", 0, 20);
    int spread = knob("spread", 0, 1) ? 3 : 50;
    auto pts = gen_points(r, n, d, spread, 10);
    auto qs = gen_points(r, 1 + r.below(5), d, spread);
    no_zero(pts);
    no_zero(qs);
    auto all = iota_ids(n);
    size_t threads = 1 + knob("threads", 0, 4);
    bool from_file = knob("from_file", 0, 3) == 0;
    schedule_faults();
    Armed armed;
    if (from_file) {
        lib::save_to_disk(to_data<float>(pts), "vectors");
    }
    bool own_pool = knob("own_pool", 0, 4) != 0; // a pool whose threads sleep sooner
    auto ix = own_pool    ? svs::DistanceDispatcher(m.type)([&](auto dist) {
        // (the exhaustive index takes the pool by copy unless it is given its parts)
        return svs::make_flat<AskTypes>(to_data<float>(pts), dist, make_pool(threads));
    })
              : from_file ? svs::Flat::assemble<AskTypes>(Loader("vectors"), m.type, threads)
                        : svs::Flat::assemble<AskTypes>(to_data<float>(pts), m.type, threads);
    SIM_CHECK(ix.size() == n && ix.dimensions() == d && ix.get_num_threads() == threads &&
                  ix.query_types().size() == 2,
              "shape", "%zu x %zu, %zu threads", ix.size(), ix.dimensions(), ix.get_num_threads());
    auto check = [&](const Request& a) {
        Quiet quiet;
        for (size_t i = 0; i < a.q.size(); ++i) {
            size_t found =
                judge(m, a, i, qs, [&](size_t id) { return id < n ? pts.row(id) : nullptr; });
            judge_exact(m, a, i, qs, pts, all, found);
        }
    };
    auto draw = [&](Rng& o) {
        fl::FlatParameters p;
        p.data_batch_size_ = o.chance(30) ? 0 : 1 + o.below(n + 2);
        p.query_batch_size_ = o.chance(30) ? 0 : 1 + o.below(8);
        return p;
    };
    auto run = [&](Request& a, const fl::FlatParameters& p, bool def) {
        log("search %zu queries, %zu neighbours, batches %zu/%zu", a.q.size(), a.k,
            p.data_batch_size_, p.query_batch_size_);
        perform(ix, a, qs, p, def);
    };
    size_t steps = knob("steps", 1, 6);
    for (size_t s = 0; s < steps; ++s) {
        Rng o(r.next());
        if (!keep_op((uint32_t)s)) {
            continue;
        }
        if (o.chance(40)) {
            size_t t = o.below(6);
            ix.set_num_threads(t);
            SIM_CHECK(ix.get_num_threads() == std::max<size_t>(t, 1), "thread-count",
                      "%zu asked, %zu reported", t, ix.get_num_threads());
        }
        if (o.chance(10)) {
            reject_type(ix, d);
        }
        auto a = draw_request(o, qs, n);
        auto p = draw(o);
        if (o.chance(30)) {
            auto b = draw_request(o, qs, n);
            auto pb = draw(o);
            std::thread other([&] { run(b, pb, false); });
            run(a, p, false);
            other.join();
            check(b);
            probe("two callers");
        } else {
            bool def = o.chance(40);
            run(a, p, def);
            auto g = ix.get_search_parameters();
            SIM_CHECK(!def || (g.data_batch_size_ == p.data_batch_size_ &&
                               g.query_batch_size_ == p.query_batch_size_),
                      "parameters", "not as set");
        }
        check(a);
        nontrivial();
    }
}

// Clustered index: built, its clustering kept, put together again from what was saved.
struct Keep {
    std::string* where;
    std::map<uint32_t, std::vector<uint32_t>>* out;
    template <typename C> void operator()(const C& c) const {
        for (const auto& kv : c) {
            auto& v = (*out)[kv.first];
            for (const auto& e : kv.second.elements()) {
                v.push_back(e.id());
            }
        }
        lib::save_to_disk(c, *where);
    }
};

template <typename Dist> void clustered(Measure m, Dist dist) {
    Rng r("orch-inverted");
    size_t n = 2 + knob("n", 0, 40), d = 1 + knob("dim", 0, 10);
    auto pts = gen_points(r, n, d, knob("spread", 0, 1) ? 3 : 50, 10);
    auto qs = gen_points(r, 1 + r.below(4), d, 50);
    no_zero(pts);
    no_zero(qs);
    inv::ClusteringParameters cp;
    cp.percent_centroids_ = lib::Percent(0.1 + 0.1 * r.below(4));
    static const double eps[] = {0, 0.01, 0.05, 0.5, 1, 7};
    cp.epsilon(eps[r.below(6)]).max_replicas(1 + r.below(4)).seed(r.next()).batchsize(1 + r.below(n + 3))
        .search_window_size(1 + r.below(n)).num_intermediate_results(1 + r.below(8));
    va::VamanaBuildParameters bp{m.type == svs::DistanceType::L2 ? 1.2f : 0.95f, 2 + r.below(6),
                                 1 + r.below(12), 60, 0, true};
    bp.prune_to = bp.graph_max_degree;
    size_t threads = 1 + knob("threads", 0, 3);
    std::string where = "clustering";
    std::map<uint32_t, std::vector<uint32_t>> cl;
    schedule_faults();
    Armed armed;
    auto build = [&] {
        return svs::Inverted::build<AskTypes>(
            inv::InvertedBuildParameters{cp, bp}, to_data<float>(pts), dist, make_pool(threads),
            inv::SparseStrategy(), svs::tag_t<inv::pick_centroids_randomly>(), Keep{&where, &cl});
    };
    std::unique_ptr<svs::Inverted> ix;
    try {
        ix = std::make_unique<svs::Inverted>(build());
    } catch (const svs::ANNException& e) {
        // Too few vectors for one centroid.
        SIM_CHECK((size_t)(n * (double)cp.percent_centroids_.value()) == 0, "build-failed", "%s",
                  e.what());
        discard("no centroid");
        return;
    }
    SIM_CHECK(ix->get_num_threads() == threads && ix->dimensions() == d, "shape",
              "%zu dimensions, %zu threads", ix->dimensions(), ix->get_num_threads());
    {
        Quiet q;
        std::set<uint32_t> have;
        for (auto& [c, v] : cl) {
            have.insert(c);
            have.insert(v.begin(), v.end());
        }
        SIM_CHECK(have.size() == n && *have.rbegin() == n - 1, "lost-vector",
                  "%zu of %zu vectors are in clusters", have.size(), n);
    }
    std::map<std::tuple<size_t, bool, size_t, size_t, double>, Row> first;
    struct Ask {
        Request a;
        inv::InvertedSearchParameters sp;
        double eps;
        size_t window;
    };
    auto draw = [&](Rng& o) {
        Ask x{draw_request(o, qs, n), {}, eps[o.below(6)], 1 + o.below(cl.size() + 2)};
        x.sp.primary_parameters(
            va::VamanaSearchParameters().buffer_config(va::SearchBufferConfig(x.window)));
        x.sp.refinement_epsilon(x.eps);
        return x;
    };
    auto run = [&](Ask& x, bool def) {
        log("search %zu queries, %zu neighbours, window %zu, epsilon %g", x.a.q.size(), x.a.k,
            x.window, x.eps);
        perform(*ix, x.a, qs, x.sp, def);
        SIM_CHECK(!def || ix->get_search_parameters() == x.sp, "parameters", "not as set");
    };
    auto check = [&](const Ask& x) {
        Quiet quiet;
        for (size_t i = 0; i < x.a.q.size(); ++i) {
            size_t found =
                judge(m, x.a, i, qs, [&](size_t id) { return id < n ? pts.row(id) : nullptr; });
            SIM_CHECK(found, "no-result", "query %zu: nothing found among %zu vectors", x.a.q[i], n);
            auto [it, fresh] =
                first.try_emplace({x.a.q[i], x.a.narrow, x.a.k, x.window, x.eps}, x.a.row(i));
            SIM_CHECK(fresh || it->second == x.a.row(i), "answer-differs",
                      "query %zu, %zu neighbours, window %zu, epsilon %g: differs from an earlier "
                      "answer",
                      x.a.q[i], x.a.k, x.window, x.eps);
            if (!fresh) {
                probe("asked again");
            }
        }
    };
    size_t steps = knob("steps", 1, 6), saved = 0;
    for (size_t s = 0; s < steps; ++s) {
        Rng o(r.next());
        if (!keep_op((uint32_t)s)) {
            continue;
        }
        if (o.chance(40)) {
            ix->set_num_threads(o.below(6));
        }
        switch (o.below(6)) {
            case 0: {
                std::string b = "s" + std::to_string(saved++);
                size_t t = 1 + o.below(4);
                log("save, assemble with %zu threads", t);
                ix->save_primary_index(b + "c", b + "g", b + "d");
                lib::save_to_disk(to_data<float>(pts), b + "v");
                auto sp = ix->get_search_parameters();
                auto other = svs::Inverted::assemble_from_clustering<AskTypes>(
                    where, Loader(b + "v"), dist, b + "c", b + "g", t);
                SIM_CHECK(other.get_num_threads() == t && other.dimensions() == d &&
                              other.get_search_parameters().primary_parameters_ ==
                                  sp.primary_parameters_,
                          "reload-settings", "settings differ after saving and loading");
                ix = std::make_unique<svs::Inverted>(std::move(other));
                probe("assembled");
                break;
            }
            case 1: reject_type(*ix, d); break;
            case 2: {
                auto a = draw(o), b = draw(o);
                std::thread other([&] { run(b, false); });
                run(a, false);
                other.join();
                check(a);
                check(b);
                probe("two callers");
                nontrivial();
                break;
            }
            default: {
                auto a = draw(o);
                run(a, o.chance(40));
                check(a);
                nontrivial();
            }
        }
    }
}
} // namespace

SCENARIO(orch_flat) { flat(); }
// (Clustered indexes know no cosine.)
SCENARIO(orch_inverted) {
    if (knob("measure", 0, 1)) {
        clustered({svs::DistanceType::L2}, svs::distance::DistanceL2());
    } else {
        clustered({svs::DistanceType::MIP}, svs::distance::DistanceIP());
    }
}
