// Calibration of search parameters under a clock that stalls and jumps.
#include "svsx.h"
#include "svs/core/graph/graph.h"
#include "svs/core/logging.h"
#include "svs/core/recall.h"
#include "svs/index/vamana/dynamic_index.h"
#include "svs/index/vamana/index.h"
#include "spdlog/sinks/base_sink.h"

using namespace svsx;
namespace va = svs::index::vamana;

namespace calib {
// Data for which the split search buffer is optimised as well.
struct RData : Data<float> {
    using Data<float>::SimpleData;
    explicit RData(Data<float>&& d)
        : Data<float>(std::move(d)) {}
};
constexpr bool
svs_invoke(svs::tag_t<va::extensions::calibration_uses_reranking<calib::RData>>) {
    return true;
}
} // namespace calib

namespace {
using Graph = svs::graphs::SimpleGraph<uint32_t, svs::lib::Allocator<uint32_t>>;
using GData = svs::data::BlockedData<uint32_t, svs::Dynamic, svs::lib::Allocator<uint32_t>>;
using BD = svs::data::BlockedData<float, svs::Dynamic, svs::lib::Allocator<float>>;
template <typename T> auto blocks(size_t log2) {
    return svs::data::Blocked<svs::lib::Allocator<T>>(
        svs::data::BlockingParameters{.blocksize_bytes = svs::lib::PowerOfTwo(log2)});
}
struct SmallGraph : svs::graphs::SimpleGraphBase<uint32_t, GData> {
    using parent = svs::graphs::SimpleGraphBase<uint32_t, GData>;
    SmallGraph(size_t max_degree, size_t num_nodes)
        : parent{num_nodes, max_degree, blocks<uint32_t>(9)} {}
    explicit SmallGraph(parent&& p)
        : parent(std::move(p)) {}
    void unsafe_resize(size_t n) { parent::data_.resize(n); }
};

// Counts what is reported.
struct CountSink : spdlog::sinks::base_sink<spdlog::details::null_mutex> {
    size_t warnings = 0;
    void sink_it_(const spdlog::details::log_msg& m) override {
        warnings += m.level >= spdlog::level::warn;
    }
    void flush_() override {}
};

using SP = va::VamanaSearchParameters;
SP some_parameters(Rng& r) {
    SP p;
    size_t w = 1 + r.below(20);
    p.buffer_config(r.chance(50) ? va::SearchBufferConfig(w)
                                 : va::SearchBufferConfig(w, w + r.below(15)));
    p.search_buffer_visited_set(r.chance(50));
    p.prefetch_lookahead(r.below(6));
    p.prefetch_step(r.below(4));
    return p;
}
bool same(const SP& a, const SP& b) {
    return a.buffer_config_ == b.buffer_config_ &&
           a.search_buffer_visited_set_ == b.search_buffer_visited_set_ &&
           a.prefetch_lookahead_ == b.prefetch_lookahead_ && a.prefetch_step_ == b.prefetch_step_;
}

template <typename Index>
svs::QueryResult<size_t> ask(Index& ix, const Data<float>& qs, size_t k, const SP& p) {
    svs::QueryResult<size_t> r(qs.size(), k);
    ix.search(r.view(), qs.cview(), p);
    return r;
}
template <typename R> bool same_hits(const R& a, const R& b, size_t n, size_t k) {
    for (size_t i = 0; i < n; ++i) {
        for (size_t j = 0; j < k; ++j) {
            if (a.index(i, j) != b.index(i, j) || a.distance(i, j) != b.distance(i, j)) {
                return false;
            }
        }
    }
    return true;
}

// `external`: identifiers of the points that can be found.
template <typename Index>
void run_calibration(Rng& r, Index& ix, const Points& pts, const std::vector<size_t>& rows,
                     size_t id_offset) {
    auto qs = gen_points(r, r.range(1, 4), pts.d, 30);
    size_t k = 1 + r.below(std::min<size_t>(rows.size(), 4));
    size_t gk = k + r.below(rows.size() - k + 1);
    auto queries = to_data<float>(qs);
    Data<uint32_t> truth(qs.n, gk);
    bool garbage = r.chance(15);
    std::vector<uint32_t> b(gk);
    for (size_t i = 0; i < qs.n; ++i) {
        auto best = brute<L2>(pts, qs.row(i), rows);
        for (size_t j = 0; j < gk; ++j) {
            b[j] = (uint32_t)(garbage ? 70000 + j : best[j].id + id_offset);
        }
        truth.set_datum(i, std::span<const uint32_t>(b.data(), b.size()));
    }
    static const double targets[] = {0.0, 0.3, 0.5, 0.8, 0.95, 1.0, 1.0, 1.5};
    double target = targets[r.below(8)];
    va::CalibrationParameters cp;
    using SBO = va::CalibrationParameters::SearchBufferOptimization;
    static const SBO modes[] = {SBO::All, SBO::All, SBO::Disable, SBO::ROIOnly, SBO::ROITuneUp};
    cp.search_buffer_optimization_ = modes[r.below(5)];
    cp.search_window_size_upper_ = k + 1 + r.below(40);
    cp.search_window_capacity_upper_ = cp.search_window_size_upper_ + r.below(20);
    cp.timing_iterations_ = r.below(4);
    static const double limits[] = {0, 1e-6, 0.125, 1e9};
    cp.search_timeout_ = limits[r.below(4)];
    cp.train_prefetchers_ = r.chance(60);
    cp.use_existing_parameter_values_ = r.chance(60);
    static const std::vector<size_t> steps[] = {{}, {1}, {1, 2}, {1, 2, 4}, {3, 0}};
    cp.prefetch_steps_ = steps[r.below(5)];

    auto preset = some_parameters(r);
    ix.set_search_parameters(preset);
    const SP probe_p = some_parameters(r);
    const size_t threads = ix.get_num_threads(), size = ix.size(), dims = ix.dimensions();
    const float alpha = ix.get_alpha();
    auto before = ask(ix, queries, k, probe_p);

    auto sink = std::make_shared<CountSink>();
    auto logger = std::make_shared<spdlog::logger>("calibration", sink);
    logger->set_level(spdlog::level::warn);
    svs::logging::set(logger);

    static const uint32_t rate[] = {0, 2000, 100000, 500000};
    schedule_faults();
    fault_rate(F_CLOCK_STALL, rate[knob("rate_stall", 0, 3)]);
    fault_rate(F_CLOCK_JUMP, rate[knob("rate_jump", 0, 3)]);
    static const uint64_t step[] = {0, 0, 0, 1000, 1000000, 1000000000, 1ull << 62};
    clock_step(step[knob("clock_step", 0, 6)]);
    bool starve = knob("starve", 0, 9) == 0;
    if (starve) {
        fault_at(F_ALLOC, knob("at", 0, 4000), 0);
    }
    log("n=%zu k=%zu target=%g upper=%zu mode=%d train=%d", pts.n, k, target,
        cp.search_window_size_upper_, (int)cp.search_buffer_optimization_, cp.train_prefetchers_);
    SP got;
    bool threw = false;
    {
        Armed a;
        try {
            got = ix.calibrate(queries, truth, k, target, cp);
        } catch (const std::exception& e) {
            threw = true;
            log("error: %.100s", e.what());
        }
    }
    bool refused = fired(F_ALLOC) != 0;
    fault_clear();
    svs::logging::set(std::make_shared<spdlog::logger>("none", svs::logging::null_sink()));
    SIM_CHECK(!threw || refused, "spurious-error", "calibration failed");
    SIM_CHECK(ix.get_num_threads() == threads || refused, "thread-count",
              "%zu threads before, %zu after", threads, ix.get_num_threads());
    SIM_CHECK(ix.size() == size && ix.dimensions() == dims && ix.get_alpha() == alpha,
              "index-changed", "size %zu, dimensions %zu", ix.size(), ix.dimensions());
    if (threw) {
        SIM_CHECK(same(ix.get_search_parameters(), preset), "parameters-changed",
                  "calibration failed, and the search parameters are not those from before");
        auto after = ask(ix, queries, k, probe_p);
        SIM_CHECK(same_hits(before, after, qs.n, k), "index-changed",
                  "the same search finds something else");
        probe("failed for lack of memory");
        return;
    }
    SIM_CHECK(same(ix.get_search_parameters(), got), "parameters-differ",
              "the index does not use the parameters that were returned");
    auto seed = cp.use_existing_parameter_values_ ? preset : SP();
    size_t w = got.buffer_config_.get_search_window_size(),
           c = got.buffer_config_.get_total_capacity();
    SIM_CHECK(w <= c && (w >= 1 || !cp.should_optimize_search_buffer()), "invalid-parameters",
              "window %zu, capacity %zu", w, c);
    SIM_CHECK(got.search_buffer_visited_set_ == seed.search_buffer_visited_set_,
              "parameters-changed", "the visited set is switched");
    if (!cp.should_optimize_search_buffer()) {
        SIM_CHECK(got.buffer_config_ == seed.buffer_config_, "parameters-changed",
                  "the search buffer was not to be optimised: window %zu, capacity %zu", w, c);
    }
    bool step_ok = got.prefetch_step_ == 0;
    for (auto s : cp.prefetch_steps_) {
        step_ok = step_ok || s == got.prefetch_step_;
    }
    bool reported = cp.should_optimize_search_buffer() && sink->warnings == 0;
    if (!cp.train_prefetchers_ || sink->warnings) {
        SIM_CHECK(got.prefetch_step_ == seed.prefetch_step_ &&
                      got.prefetch_lookahead_ == seed.prefetch_lookahead_,
                  "parameters-changed", "prefetching was not to be trained: %zu, %zu",
                  got.prefetch_lookahead_, got.prefetch_step_);
    } else {
        SIM_CHECK(step_ok && got.prefetch_lookahead_ <= ix.max_degree(), "invalid-parameters",
                  "prefetch lookahead %zu, step %zu; degree %zu", got.prefetch_lookahead_,
                  got.prefetch_step_, ix.max_degree());
    }
    auto found = ask(ix, queries, k, got);
    double recall = svsx::recall_of(truth, found, k);
    if (reported) {
        SIM_CHECK(recall >= target, "target-missed",
                  "recall %g with window %zu and capacity %zu; %g was to be met", recall, w, c,
                  target);
        probe(target > 0 ? "target met" : "no target");
    } else if (cp.should_optimize_search_buffer()) {
        auto widest = got;
        widest.buffer_config(va::SearchBufferConfig(
            cp.search_window_size_upper_ - 1,
            cp.search_buffer_optimization_ == SBO::ROITuneUp
                ? std::max(cp.search_window_size_upper_ - 1,
                           seed.buffer_config_.get_total_capacity())
                : cp.search_window_size_upper_ - 1));
        auto most = ask(ix, queries, k, widest);
        double best = svsx::recall_of(truth, most, k);
        SIM_CHECK(best < target, "target-missed",
                  "reported that %g cannot be met, and window %zu meets it (%g)", target,
                  cp.search_window_size_upper_ - 1, best);
        probe("target unattainable");
    }
    auto plain = got;
    plain.prefetch_lookahead(0);
    plain.prefetch_step(0);
    auto unfetched = ask(ix, queries, k, plain);
    SIM_CHECK(same_hits(found, unfetched, qs.n, k), "prefetch-changes-results",
              "lookahead %zu, step %zu", got.prefetch_lookahead_, got.prefetch_step_);
    auto after = ask(ix, queries, k, probe_p);
    SIM_CHECK(same_hits(before, after, qs.n, k), "index-changed",
              "the same search finds something else");
    nontrivial();
}

template <typename D> void calib_static() {
    Rng r("calibration");
    auto pts = gen_points(r, r.range(3, 40), r.range(1, 4), 30, 10);
    size_t degree = r.range(1, 9);
    Graph g(pts.n, degree);
    bool ring = r.chance(60);
    for (uint32_t i = 0; i < pts.n; ++i) {
        if (ring) {
            g.add_edge(i, (uint32_t)((i + 1) % pts.n));
        }
        for (size_t j = ring; j < degree; ++j) {
            auto x = (uint32_t)r.below(pts.n);
            if (x != i) {
                g.add_edge(i, x);
            }
        }
    }
    va::VamanaIndex<Graph, D, svs::distance::DistanceL2> ix(
        std::move(g), D(to_data<float>(pts)), (uint32_t)r.below(pts.n), svs::distance::DistanceL2(),
        make_pool(r.range(1, 3)));
    run_calibration(r, ix, pts, iota_ids(pts.n), 0);
}
} // namespace
SCENARIO(calib_static) { calib_static<Data<float>>(); }
SCENARIO(calib_split) {
    if (!va::extensions::calibration_uses_reranking<calib::RData>()) {
        discard("the data set does not rerank");
    }
    calib_static<calib::RData>();
}
SCENARIO(calib_dynamic) {
    Rng r("calibration");
    auto pts = gen_points(r, r.range(3, 30), r.range(1, 4), 30, 10);
    BD data(pts.n, pts.d, blocks<float>(8));
    std::vector<float> b(pts.d);
    std::vector<size_t> ids, gone, rows;
    for (size_t i = 0; i < pts.n; ++i) {
        for (size_t k = 0; k < pts.d; ++k) {
            b[k] = (float)pts.row(i)[k];
        }
        data.set_datum(i, std::span<const float>(b.data(), b.size()));
        ids.push_back(100 + i);
        (i > 1 && r.chance(30) ? gone : rows).push_back(i);
    }
    for (auto& x : gone) {
        x += 100;
    }
    va::VamanaBuildParameters bp{1.2f, 1 + r.below(8), 1 + r.below(10), 30, 0, r.chance(50)};
    bp.max_candidate_pool_size = bp.window_size + 10;
    bp.prune_to = bp.graph_max_degree;
    va::MutableVamanaIndex<SmallGraph, BD, svs::distance::DistanceL2> ix(
        bp, std::move(data), ids, svs::distance::DistanceL2(), r.range(1, 3));
    if (!gone.empty()) {
        ix.delete_entries(gone);
        if (r.chance(50)) {
            ix.consolidate();
        }
    }
    run_calibration(r, ix, pts, rows, 100);
}

// The calibration procedure on a search whose recall is given by a table: how the capacity of the
// buffer matters (as for data that rerank) and how long a search takes is up to the seed.
namespace {
template <typename D> struct ModelIndex {
    using data_type = D;
    SP preset;
    size_t degree;
    SP get_search_parameters() const { return preset; }
    void set_search_parameters(const SP& p) { preset = p; }
    size_t max_degree() const { return degree; }
};
struct SearchFailed : std::runtime_error {
    using std::runtime_error::runtime_error;
};

template <typename D> void calib_model() {
    Rng r("calibration");
    using SBO = va::CalibrationParameters::SearchBufferOptimization;
    ModelIndex<D> ix{some_parameters(r), r.range(1, 70)};
    size_t k = 1 + r.below(12);
    va::CalibrationParameters cp;
    static const SBO modes[] = {SBO::All, SBO::All, SBO::All, SBO::Disable, SBO::ROIOnly,
                                SBO::ROITuneUp};
    cp.search_buffer_optimization_ = modes[r.below(6)];
    size_t upper = cp.search_window_size_upper_ = k + 1 + r.below(60);
    size_t capacity_upper = cp.search_window_capacity_upper_ = upper + r.below(30);
    cp.timing_iterations_ = r.below(5);
    static const double limits[] = {0, 1e-6, 0.125, 1e9};
    cp.search_timeout_ = limits[r.below(4)];
    cp.train_prefetchers_ = r.chance(50);
    cp.use_existing_parameter_values_ = r.chance(60);
    static const std::vector<size_t> steps[] = {{}, {1}, {1, 2}, {1, 2, 4}, {7, 3}};
    cp.prefetch_steps_ = steps[r.below(5)];
    // A neighbour is found by searches with at least this window and capacity.
    std::vector<std::pair<size_t, size_t>> need(1 + r.below(20));
    bool reranks = r.chance(70);
    for (auto& [w, c] : need) {
        w = 1 + r.below(r.chance(70) ? upper / 2 + 1 : upper + 3);
        c = reranks ? 1 + r.below(r.chance(80) ? capacity_upper : 2 * upper) : 1;
    }
    double target = r.chance(20) ? 1.0 : (double)r.below(need.size() + 2) / (double)need.size();
    auto table = [&](const SP& p) {
        size_t n = 0, w = p.buffer_config_.get_search_window_size(),
               c = p.buffer_config_.get_total_capacity();
        for (auto& [a, b] : need) {
            n += w >= a && c >= b;
        }
        return (double)n / (double)need.size();
    };
    uint64_t salt = r.next();
    unsigned how = (unsigned)r.below(4);
    size_t searches = 0, recalls = 0, breaks_at = r.chance(10) ? r.below(60) : ~size_t{0};
    auto look = [&](const SP& p) {
        size_t w = p.buffer_config_.get_search_window_size(),
               c = p.buffer_config_.get_total_capacity();
        if (cp.should_optimize_search_buffer()) {
            SIM_CHECK(w >= 1 && w <= c && c >= k, "invalid-parameters",
                      "tries window %zu, capacity %zu for %zu neighbours", w, c, k);
        }
    };
    auto fails = [&] { return searches + recalls > breaks_at; };
    auto compute_recall = [&](const SP& p) {
        look(p);
        ++recalls;
        if (fails()) {
            throw SearchFailed("the search fails");
        }
        return table(p);
    };
    auto do_search = [&](const SP& p) {
        look(p);
        ++searches;
        if (fails()) {
            throw SearchFailed("the search fails");
        }
        // Its cost: at random, by the window, or by the capacity.
        uint64_t n;
        switch (how) {
            case 0: n = 1 + (salt ^ (searches * 0x9e3779b97f4a7c15ull)) % 17; break;
            case 1: n = 1 + p.buffer_config_.get_search_window_size(); break;
            case 2: n = 1 + p.buffer_config_.get_total_capacity(); break;
            default: n = 1; break;
        }
        for (uint64_t i = 0; i < n; ++i) {
            yield();
        }
    };
    auto sink = std::make_shared<CountSink>();
    auto logger = std::make_shared<spdlog::logger>("calibration", sink);
    logger->set_level(spdlog::level::warn);
    svs::logging::set(logger);
    static const uint32_t rate[] = {0, 2000, 100000, 500000};
    schedule_faults();
    fault_rate(F_CLOCK_STALL, rate[knob("rate_stall", 0, 3)]);
    fault_rate(F_CLOCK_JUMP, rate[knob("rate_jump", 0, 3)]);
    static const uint64_t step[] = {0, 0, 0, 1000, 1000000, 1000000000, 1ull << 62};
    clock_step(step[knob("clock_step", 0, 6)]);
    log("k=%zu target=%g upper=%zu,%zu mode=%d train=%d cost %u", k, target, upper, capacity_upper,
        (int)cp.search_buffer_optimization_, cp.train_prefetchers_, how);
    SP got;
    auto preset = ix.preset;
    bool threw = false;
    {
        Armed a;
        try {
            got = va::calibrate(cp, ix, k, target, compute_recall, do_search);
        } catch (const SearchFailed&) {
            threw = true;
        }
    }
    fault_clear();
    svs::logging::set(std::make_shared<spdlog::logger>("none", svs::logging::null_sink()));
    note(searches);
    if (threw || fails()) {
        SIM_CHECK(threw && fails(), "spurious-error", "failed after %zu searches", searches);
        probe("a search failed");
        return;
    }
    auto seed = cp.use_existing_parameter_values_ ? preset : SP();
    size_t w = got.buffer_config_.get_search_window_size(),
           c = got.buffer_config_.get_total_capacity();
    SIM_CHECK(got.search_buffer_visited_set_ == seed.search_buffer_visited_set_,
              "parameters-changed", "the visited set is switched");
    bool reported = sink->warnings == 0;
    if (!cp.should_optimize_search_buffer()) {
        SIM_CHECK(got.buffer_config_ == seed.buffer_config_, "parameters-changed",
                  "the search buffer was not to be optimised: window %zu, capacity %zu", w, c);
        SIM_CHECK(reported, "parameters-changed", "a warning about nothing");
    } else {
        look(got);
        // The windows to try, by the description of the modes.
        bool tune = cp.search_buffer_optimization_ == SBO::ROITuneUp;
        size_t have = seed.buffer_config_.get_total_capacity();
        size_t best = 0;
        for (size_t x = upper - 1; x >= (tune && have >= k ? 1 : k); --x) {
            auto p = seed;
            p.buffer_config({x, tune ? std::max(x, have) : x});
            if (table(p) >= target) {
                best = x;
            }
        }
        SIM_CHECK(reported == (best != 0), "target-missed",
                  "window %zu meets the target, and it is reported to be %s", best,
                  reported ? "met" : "missed");
        if (reported) {
            SIM_CHECK(table(got) >= target, "target-missed",
                      "recall %g with window %zu and capacity %zu; %g was to be met", table(got),
                      w, c, target);
            SIM_CHECK(cp.search_buffer_optimization_ == SBO::All ? w <= best : w == best,
                      "window-not-smallest", "window %zu, and %zu meets the target", w, best);
            probe(w < best ? "smaller window in a larger buffer" : "target met");
            nontrivial();
        } else {
            probe("target unattainable");
        }
    }
    if (!cp.train_prefetchers_ || !reported) {
        SIM_CHECK(got.prefetch_step_ == seed.prefetch_step_ &&
                      got.prefetch_lookahead_ == seed.prefetch_lookahead_,
                  "parameters-changed", "prefetching was not to be trained: %zu, %zu",
                  got.prefetch_lookahead_, got.prefetch_step_);
    } else {
        bool step_ok = got.prefetch_step_ == 0;
        for (auto x : cp.prefetch_steps_) {
            step_ok = step_ok || x == got.prefetch_step_;
        }
        SIM_CHECK(step_ok && got.prefetch_lookahead_ <= ix.degree, "invalid-parameters",
                  "prefetch lookahead %zu, step %zu; degree %zu", got.prefetch_lookahead_,
                  got.prefetch_step_, ix.degree);
    }
}
} // namespace
SCENARIO(calib_model) {
    if (knob("reranking", 0, 2)) {
        calib_model<calib::RData>();
    } else {
        calib_model<Data<float>>();
    }
}
