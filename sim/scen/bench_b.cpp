// Calibration through the benchmarks: tuning an index for a list of target recalls and reporting
// what it then does, under a clock that stalls and jumps.
#include "svsx.h"
#include "svs-benchmark/benchmark.h"
#include "svs-benchmark/inverted/memory/traits.h"
#include "svs-benchmark/search.h"
#include "svs-benchmark/vamana/build.h"
#include "svs-benchmark/vamana/static_traits.h"
#include "svs/core/logging.h"

using namespace svsx;
namespace va = svs::index::vamana;
namespace inv = svs::index::inverted;
namespace sb = svsbenchmark;

namespace {
struct Quiet_output {
    Quiet_output() { std::cout.setstate(std::ios::failbit); }
};

struct Asked {
    Data<float> queries;
    Data<uint32_t> truth;
    size_t k;
};
Asked draw_queries(Rng& r, const Points& pts, size_t at_least, bool garbage) {
    auto qs = gen_points(r, at_least + r.below(4), pts.d, 30);
    size_t k = 1 + r.below(std::min<size_t>(pts.n, 4));
    size_t gk = k + r.below(pts.n - k + 1);
    Asked a{to_data<float>(qs), Data<uint32_t>(qs.n, gk), k};
    std::vector<uint32_t> b(gk);
    for (size_t i = 0; i < qs.n; ++i) {
        auto best = brute<L2>(pts, qs.row(i), iota_ids(pts.n));
        for (size_t j = 0; j < gk; ++j) {
            b[j] = (uint32_t)(garbage && r.chance(50) ? 70000 + j : best[j].id);
        }
        a.truth.set_datum(i, std::span<const uint32_t>(b.data(), b.size()));
    }
    return a;
}
void clock_faults() {
    static const uint32_t rate[] = {0, 2000, 100000, 500000};
    schedule_faults();
    fault_rate(F_CLOCK_STALL, rate[knob("rate_stall", 0, 3)]);
    fault_rate(F_CLOCK_JUMP, rate[knob("rate_jump", 0, 3)]);
    static const uint64_t step[] = {0, 0, 0, 1000, 1000000, 1000000000, 1ull << 62};
    clock_step(step[knob("clock_step", 0, 6)]);
}
std::vector<double> draw_targets(Rng& r) {
    static const double targets[] = {0.0, 0.3, 0.5, 0.8, 0.95, 1.0, 1.0, 1.5};
    std::vector<double> t(1 + r.below(2));
    for (auto& x : t) {
        x = targets[r.below(8)];
    }
    return t;
}

// What a report says against the index it is about.
template <typename Index>
void check_report(Index& ix, const sb::search::RunReport<Index>& rep, const Data<float>& queries,
                  const Data<uint32_t>& truth, size_t k, size_t threads) {
    SIM_CHECK(rep.num_queries_ == queries.size() && rep.num_neighbors_ == k, "report-shape",
              "%zu queries and %zu neighbours reported; %zu and %zu searched", rep.num_queries_,
              rep.num_neighbors_, queries.size(), k);
    SIM_CHECK(!rep.latencies_.empty(), "report-shape", "no time is reported");
    for (auto l : rep.latencies_) {
        SIM_CHECK(l >= 0 && std::isfinite(l), "invalid-latency", "a search took %g s", l);
    }
    SIM_CHECK(ix.get_num_threads() == threads, "thread-count", "%zu threads before, %zu after",
              threads, ix.get_num_threads());
    ix.set_search_parameters(rep.config_);
    auto found = ix.search(queries, k);
    double recall = svsx::recall_of(truth, found, k);
    SIM_CHECK(rep.recall_ == recall, "report-recall",
              "the report says %.17g, and its configuration finds %.17g", rep.recall_, recall);
}
} // namespace

// The inverted index: window and refinement are searched by the benchmark itself.
SCENARIO(bench_calibrate_inverted) {
    Quiet_output q;
    Rng r("calibration");
    svs::logging::set(std::make_shared<spdlog::logger>("none", svs::logging::null_sink()));
    size_t d = r.range(1, 3);
    auto pts = gen_points(r, r.range(8, 40), d, 40, 10);
    inv::ClusteringParameters cp;
    cp.percent_centroids_ = svs::lib::Percent(0.1 + 0.1 * r.below(4));
    static const double eps[] = {0, 0.01, 0.5};
    cp.epsilon(eps[r.below(3)]).max_replicas(1 + r.below(3)).seed(r.next()).batchsize(1 + r.below(pts.n))
        .search_window_size(1 + r.below(pts.n)).num_intermediate_results(1 + r.below(4));
    va::VamanaBuildParameters bp{1.2f, 2 + r.below(4), 1 + r.below(8), 30, 0, true};
    bp.prune_to = bp.graph_max_degree;
    size_t threads = 1 + knob("threads", 0, 2);
    std::unique_ptr<svs::Inverted> ix;
    try {
        ix = std::make_unique<svs::Inverted>(svs::Inverted::build<float>(
            inv::InvertedBuildParameters{cp, bp}, to_data<float>(pts), svs::distance::DistanceL2(),
            make_pool(threads), inv::SparseStrategy(), svs::tag_t<inv::pick_centroids_randomly>()));
    } catch (const svs::ANNException& e) {
        discard("no centroid");
        return;
    }
    size_t most = (size_t)(pts.n * cp.percent_centroids_.value());
    auto a = draw_queries(r, pts, 2, r.chance(20));
    size_t training = 1 + r.below(a.queries.size() - 1);
    auto targets = draw_targets(r);
    inv::InvertedSearchParameters start;
    start.primary_parameters(
        va::VamanaSearchParameters().buffer_config(va::SearchBufferConfig(1 + r.below(most + 1))));
    start.refinement_epsilon(eps[r.below(3)]);
    ix->set_search_parameters(start);
    std::vector<sb::search::RunReport<svs::Inverted>> reps;
    clock_faults();
    log("n=%zu k=%zu training on %zu of %zu, first target %g", pts.n, a.k, training,
        a.queries.size(), targets[0]);
    Data<float> test(a.queries.size() - training, d);
    Data<uint32_t> test_truth(test.size(), a.truth.dimensions());
    for (size_t i = 0; i < test.size(); ++i) {
        test.set_datum(i, a.queries.get_datum(i + training));
        test_truth.set_datum(i, a.truth.get_datum(i + training));
    }
    {
        svs::data::SimpleData<float> qd(a.queries.size(), d);
        svs::data::SimpleData<uint32_t> td(a.truth.size(), a.truth.dimensions());
        svs::data::copy(a.queries, qd);
        svs::data::copy(a.truth, td);
        Armed armed;
        sb::search::QuerySet<float, uint32_t> split(qd, td, training);
        reps = sb::search::tune_and_search(*ix, sb::search::SearchParameters(a.k, targets), split,
                                           sb::CalibrateContext::InitialTrainingSet,
                                           sb::Placeholder());
    }
    fault_clear();
    SIM_CHECK(reps.size() == targets.size(), "report-shape", "%zu targets, %zu reports",
              targets.size(), reps.size());
    for (size_t t = 0; t < targets.size(); ++t) {
        auto& rep = reps[t];
        check_report(*ix, rep, test, test_truth, a.k, threads);
        if (rep.recall_ >= targets[t]) {
            probe(targets[t] > 0 ? "target met" : "no target");
            continue;
        }
        for (double e : {0.8, 1.0, 2.0, 5.0, 10.0, 20.0}) {
            auto c = start;
            c.refinement_epsilon(e);
            c.primary_parameters_.buffer_config(va::SearchBufferConfig(299));
            ix->set_search_parameters(c);
            double best = svsx::recall_of(test_truth, ix->search(test, a.k), a.k);
            // A window beyond the range that is searched: see known_findings.txt.
            bool beyond =
                rep.config_.primary_parameters_.buffer_config_.get_search_window_size() >= 300;
            SIM_CHECK(best < targets[t], beyond ? "window-past-the-end" : "target-missed",
                      "tuned for a recall of %g, which refinement %g reaches with the largest "
                      "window: the configuration reports %g",
                      targets[t], e, rep.recall_);
        }
        probe("target unattainable");
    }
    nontrivial();
}

// The Vamana index: calibrated on one part of the queries, tuned up on the other.
SCENARIO(bench_calibrate_vamana) {
    Quiet_output q;
    Rng r("calibration");
    svs::logging::set(std::make_shared<spdlog::logger>("none", svs::logging::null_sink()));
    size_t d = r.range(1, 4);
    auto pts = gen_points(r, r.range(6, 40), d, 30, 10);
    va::VamanaBuildParameters bp{1.2f, 1 + r.below(6), 1 + r.below(8), 30, 0, r.chance(50)};
    bp.prune_to = bp.graph_max_degree;
    size_t threads = 1 + knob("threads", 0, 2);
    auto ix = svs::Vamana::build<float>(bp, to_data<float>(pts), svs::distance::DistanceL2(),
                                        threads, svs::lib::Allocator<uint32_t>());
    auto a = draw_queries(r, pts, 2, r.chance(20));
    size_t training = 1 + r.below(a.queries.size() - 1);
    auto targets = draw_targets(r);
    size_t upper = a.k + 1 + r.below(30);
    bool prefetch = r.chance(50), again = r.chance(30);
    size_t repeats = r.below(3);
    auto make = [&] {
        va::CalibrationParameters c;
        c.search_window_size_upper_ = upper;
        c.search_window_capacity_upper_ = upper + 5;
        c.train_prefetchers_ = prefetch;
        c.timing_iterations_ = repeats;
        c.search_timeout_ = 0.125;
        c.prefetch_steps_ = {1, 2};
        return c;
    };
    svs::data::SimpleData<float> qd(a.queries.size(), d);
    svs::data::SimpleData<uint32_t> td(a.truth.size(), a.truth.dimensions());
    svs::data::copy(a.queries, qd);
    svs::data::copy(a.truth, td);
    Data<float> test(a.queries.size() - training, d);
    Data<uint32_t> test_truth(test.size(), a.truth.dimensions());
    for (size_t i = 0; i < test.size(); ++i) {
        test.set_datum(i, a.queries.get_datum(i + training));
        test_truth.set_datum(i, a.truth.get_datum(i + training));
    }
    using Traits = sb::IndexTraits<svs::Vamana>;
    Traits::calibration_constructor f = make;
    clock_faults();
    log("n=%zu k=%zu training on %zu of %zu, first target %g, windows below %zu", pts.n, a.k,
        training, a.queries.size(), targets[0], upper);
    std::vector<sb::search::RunReport<svs::Vamana>> reps;
    {
        Armed armed;
        sb::search::QuerySet<float, uint32_t> split(qd, td, training);
        sb::search::SearchParameters sp(a.k, targets);
        reps = sb::search::tune_and_search(ix, sp, split,
                                           sb::CalibrateContext::InitialTrainingSet, f);
        if (again) {
            // A configuration that was reported is measured once more.
            std::vector<va::VamanaSearchParameters> cs;
            for (auto& x : reps) {
                cs.push_back(x.config_);
            }
            auto second = sb::search::search_with_config(ix, cs, split.test_set_,
                                                         split.test_set_groundtruth_, a.k);
            SIM_CHECK(second.size() == reps.size(), "report-shape", "%zu configurations, %zu reports",
                      cs.size(), second.size());
            for (size_t i = 0; i < second.size(); ++i) {
                SIM_CHECK(second[i].recall_ == reps[i].recall_, "report-recall",
                          "the same configuration: recall %.17g, then %.17g", reps[i].recall_,
                          second[i].recall_);
            }
        }
    }
    fault_clear();
    SIM_CHECK(reps.size() == targets.size(), "report-shape", "%zu targets, %zu reports",
              targets.size(), reps.size());
    for (size_t t = 0; t < targets.size(); ++t) {
        auto& rep = reps[t];
        check_report(ix, rep, test, test_truth, a.k, threads);
        if (rep.recall_ >= targets[t]) {
            probe(targets[t] > 0 ? "target met" : "no target");
            continue;
        }
        auto widest = rep.config_;
        widest.buffer_config(va::SearchBufferConfig(
            upper - 1, std::max(upper - 1, rep.config_.buffer_config_.get_total_capacity())));
        ix.set_search_parameters(widest);
        double best = svsx::recall_of(test_truth, ix.search(test, a.k), a.k);
        SIM_CHECK(best < targets[t], "target-missed",
                  "tuned for a recall of %g, which the widest search reaches: the configuration "
                  "reports %g",
                  targets[t], rep.recall_);
        probe("target unattainable");
    }
    nontrivial();
}
