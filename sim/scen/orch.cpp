// The graph index behind its type-erased interface.
#include "orch.h"
#include "svs/core/data.h"
#include "svs/core/graph.h"
#include "svs/core/recall.h"
#include "svs/orchestrators/vamana.h"

using namespace svsx;
namespace lib = svs::lib;
namespace va = svs::index::vamana;

namespace {
using SP = va::VamanaSearchParameters;
using Loader = svs::VectorDataLoader<float, svs::Dynamic, lib::Allocator<float>>;

SP draw(Rng& q, size_t n) {
    SP p;
    size_t w = 1 + q.below(q.chance(50) ? 10 : n + 6);
    p.buffer_config(q.chance(60) ? va::SearchBufferConfig(w)
                                 : va::SearchBufferConfig(w, w + q.below(8)));
    p.search_buffer_visited_set(q.chance(50));
    p.prefetch_lookahead(q.below(6));
    p.prefetch_step(q.below(4));
    return p;
}
bool same_parameters(const SP& a, const SP& b) {
    return a.buffer_config_ == b.buffer_config_ &&
           a.search_buffer_visited_set_ == b.search_buffer_visited_set_ &&
           a.prefetch_lookahead_ == b.prefetch_lookahead_ && a.prefetch_step_ == b.prefetch_step_;
}

struct World {
    Measure m;
    Points pts, qs;
    std::unique_ptr<svs::Vamana> ix;
    va::VamanaBuildParameters bp;
    std::vector<size_t> reach;
    // First answer for (query, type, neighbours, window, capacity, visited).
    std::map<std::tuple<size_t, bool, size_t, size_t, size_t>, Row> first;
    int saved = 0;

    // The graph that was built, as it is stored.
    void look(const std::string& base) {
        Quiet quiet;
        auto g = svs::GraphLoader<uint32_t>(base + "g").load();
        auto par = lib::load_from_disk<va::VamanaIndexParameters>(base + "c");
        std::vector<char> seen(pts.n, 0);
        std::vector<size_t> st{par.entry_point}, out;
        SIM_CHECK(g.n_nodes() == pts.n && par.entry_point < pts.n, "graph-shape", "%zu nodes",
                  g.n_nodes());
        seen[par.entry_point] = 1;
        while (!st.empty()) {
            size_t i = st.back();
            st.pop_back();
            out.push_back(i);
            auto l = g.get_node((uint32_t)i);
            std::set<uint32_t> once(l.begin(), l.end());
            SIM_CHECK(l.size() <= bp.graph_max_degree && once.size() == l.size() &&
                          !once.count((uint32_t)i),
                      "graph-shape", "list of node %zu", i);
            for (auto j : l) {
                SIM_CHECK(j < pts.n, "graph-shape", "node %zu names %u", i, j);
                if (!seen[j]) {
                    seen[j] = 1;
                    st.push_back(j);
                }
            }
        }
        reach = out;
    }
    void check(const Request& a, const SP& sp, const char* what) {
        Quiet quiet;
        for (size_t i = 0; i < a.q.size(); ++i) {
            size_t found =
                judge(m, a, i, qs, [&](size_t id) { return id < pts.n ? pts.row(id) : nullptr; });
            auto& b = sp.buffer_config_;
            // Too small a buffer gets one of the number of neighbours asked for.
            size_t window = b.get_search_window_size(), cap = b.get_total_capacity();
            if (cap < a.k) {
                window = cap = a.k;
            }
            if (window >= reach.size() && !reach.empty()) {
                judge_exact(m, a, i, qs, pts, reach, found);
                probe("exact");
            }
            auto [it, fresh] =
                first.try_emplace({a.q[i], a.narrow, a.k, window, cap}, a.row(i));
            SIM_CHECK(fresh || it->second == a.row(i), "answer-differs",
                      "%s: query %zu, %zu neighbours, window %zu, capacity %zu, %zu threads: "
                      "differs from an earlier answer",
                      what, a.q[i], a.k, window, cap, ix->get_num_threads());
            if (!fresh) {
                probe("asked again");
            }
        }
    }
    void run(Request& a, const SP& sp, bool by_default) {
        log("search %zu queries, %zu neighbours, window %zu/%zu, visited %d%s", a.q.size(), a.k,
            sp.buffer_config_.get_search_window_size(), sp.buffer_config_.get_total_capacity(),
            (int)sp.search_buffer_visited_set_, by_default ? ", set before" : "");
        perform(*ix, a, qs, sp, by_default);
    }
};

void history(bool calibrate) {
    Rng r("orch");
    World w;
    w.m = pick_measure();
    size_t n = 1 + knob("n", 0, calibrate ? 14 : 40), d = 1 + knob("dim", 0, 20);
    int spread = knob("spread", 0, 1) ? 3 : 50;
    w.pts = gen_points(r, n, d, spread, 10);
    no_zero(w.pts);
    w.qs = gen_points(r, 1 + r.below(5), d, spread);
    no_zero(w.qs);
    size_t degree = 1 + r.below(8);
    w.bp = va::VamanaBuildParameters(w.m.type == svs::DistanceType::L2 ? 1.2f : 0.95f, degree,
                                     1 + r.below(20), 1 + r.below(60), 1 + r.below(degree),
                                     r.chance(50));
    size_t threads = 1 + knob("threads", 0, 3);
    schedule_faults();
    Armed armed;
    bool from_file = knob("from_file", 0, 3) == 0;
    if (from_file) {
        Quiet q;
        lib::save_to_disk(to_data<float>(w.pts), "vectors");
    }
    log("build over %zu x %zu, %s, degree %zu, %zu threads", n, d, svs::name(w.m.type).data(), degree,
        threads);
    bool own_pool = knob("own_pool", 0, 4) != 0; // a pool whose threads sleep sooner
    w.ix = std::make_unique<svs::Vamana>(
        own_pool
            ? svs::DistanceDispatcher(w.m.type)([&](auto dist) {
                  return svs::make_vamana<AskTypes>(svs::Vamana::BuildTag(), w.bp,
                                                    to_data<float>(w.pts), dist, make_pool(threads),
                                                    lib::Allocator<uint32_t>());
              })
        : from_file ? svs::Vamana::build<AskTypes>(w.bp, Loader("vectors"), w.m.type, threads,
                                                 lib::Allocator<uint32_t>())
                  : svs::Vamana::build<AskTypes>(w.bp, to_data<float>(w.pts), w.m.type, threads,
                                                 lib::Allocator<uint32_t>()));
    auto& ix = w.ix;
    SIM_CHECK(ix->size() == n && ix->dimensions() == d && ix->get_num_threads() == threads &&
                  ix->can_change_threads() && ix->query_types().size() == 2,
              "shape", "%zu x %zu, %zu threads", ix->size(), ix->dimensions(),
              ix->get_num_threads());
    SIM_CHECK(ix->get_alpha() == w.bp.alpha &&
                  ix->get_construction_window_size() == w.bp.window_size &&
                  ix->get_max_candidates() == w.bp.max_candidate_pool_size,
              "build-settings", "alpha %g, window %zu, candidates %zu", ix->get_alpha(),
              ix->get_construction_window_size(), ix->get_max_candidates());
    if (r.chance(80)) {
        Quiet q;
        ix->save("bc", "bg", "bd");
        w.look("b");
    }
    size_t steps = knob("steps", 1, 6);
    for (size_t s = 0; s < steps; ++s) {
        Rng o(r.next());
        if (!keep_op((uint32_t)s)) {
            continue;
        }
        if (o.chance(40)) {
            size_t t = o.below(6);
            log("%zu threads", t);
            ix->set_num_threads(t);
            SIM_CHECK(ix->get_num_threads() == std::max<size_t>(t, 1), "thread-count",
                      "%zu asked, %zu reported", t, ix->get_num_threads());
        }
        switch (calibrate && o.chance(50) ? 8 : o.below(8)) {
            case 0:
            case 1:
            case 2: {
                auto a = draw_request(o, w.qs, n);
                auto sp = draw(o, n);
                bool def = o.chance(40);
                w.run(a, sp, def);
                SIM_CHECK(!def || same_parameters(ix->get_search_parameters(), sp), "parameters",
                          "not as set");
                w.check(a, sp, "search");
                nontrivial();
                break;
            }
            case 3: {
                auto a = draw_request(o, w.qs, n), b = draw_request(o, w.qs, n);
                auto sa = draw(o, n), sb = draw(o, n);
                std::thread other([&] { w.run(b, sb, false); });
                w.run(a, sa, false);
                other.join();
                w.check(a, sa, "one of two");
                w.check(b, sb, "other of two");
                probe("two callers");
                nontrivial();
                break;
            }
            case 4: {
                size_t win = 1 + o.below(n + 4);
                log("window %zu", win);
                ix->set_search_window_size(win);
                bool v = o.chance(50);
                v ? ix->enable_visited_set() : ix->disable_visited_set();
                SIM_CHECK(ix->get_search_window_size() == win && ix->visited_set_enabled() == v,
                          "parameters", "window %zu, visited set %d", ix->get_search_window_size(),
                          (int)ix->visited_set_enabled());
                auto a = draw_request(o, w.qs, n);
                auto part = to_data<float>(a.part(w.qs));
                a.narrow = false;
                a.res = ix->search(part, a.k);
                w.check(a, ix->get_search_parameters(), "own window");
                nontrivial();
                break;
            }
            case 5: {
                std::vector<uint64_t> ids(o.below(2 * n + 1));
                for (auto& i : ids) {
                    i = o.below(n);
                }
                bool bad = o.chance(20) && !ids.empty();
                if (bad) {
                    ids[o.below(ids.size())] = n + o.below(3);
                }
                Data<float> out(ids.size(), d);
                auto view = svs::data::SimpleDataView<float>(out.data(), ids.size(), d);
                log("reconstruct %zu%s", ids.size(), bad ? ", one of them out of bounds" : "");
                try {
                    ix->reconstruct_at(view, std::span<const uint64_t>(ids));
                    SIM_CHECK(!bad, "bad-id-accepted", "reconstructing a vector that is not there");
                    for (size_t i = 0; i < ids.size(); ++i) {
                        for (size_t j = 0; j < d; ++j) {
                            SIM_CHECK(out.get_datum(i)[j] == (float)w.pts.row(ids[i])[j],
                                      "wrong-vector", "vector %zu, element %zu", (size_t)ids[i], j);
                        }
                    }
                } catch (const svs::ANNException& e) {
                    SIM_CHECK(bad, "reconstruct-failed", "%s", e.what());
                }
                break;
            }
            case 6: {
                std::string base = "s" + std::to_string(w.saved++);
                size_t t = 1 + o.below(4);
                log("save, assemble with %zu threads", t);
                auto sp = ix->get_search_parameters();
                ix->save(base + "c", base + "g", base + "d");
                w.look(base);
                auto other = svs::Vamana::assemble<AskTypes>(
                    base + "c", svs::GraphLoader<uint32_t>(base + "g"), Loader(base + "d"), w.m.type,
                    t);
                SIM_CHECK(same_parameters(other.get_search_parameters(), sp) &&
                              other.get_alpha() == ix->get_alpha() &&
                              other.get_construction_window_size() ==
                                  ix->get_construction_window_size() &&
                              other.get_max_candidates() == ix->get_max_candidates() &&
                              other.size() == n && other.dimensions() == d &&
                              other.get_num_threads() == t,
                          "reload-settings", "settings differ after saving and loading");
                ix = std::make_unique<svs::Vamana>(std::move(other));
                probe("assembled");
                break;
            }
            case 7: reject_type(*ix, d); break;
            default: {
                size_t k = 1 + o.below(std::min<size_t>(n, 4));
                Data<uint32_t> truth(w.qs.n, k);
                std::vector<uint32_t> b(k);
                for (size_t i = 0; i < w.qs.n; ++i) {
                    auto ids = iota_ids(n);
                    std::stable_sort(ids.begin(), ids.end(), [&](size_t x, size_t y) {
                        return w.m.better(w.m.exact(w.pts.row(x), w.qs.row(i), d),
                                          w.m.exact(w.pts.row(y), w.qs.row(i), d));
                    });
                    std::copy_n(ids.begin(), k, b.begin());
                    truth.set_datum(i, std::span<const uint32_t>(b.data(), k));
                }
                va::CalibrationParameters cp;
                cp.search_window_size_upper_ = k + 1 + o.below(30);
                cp.search_window_capacity_upper_ = cp.search_window_size_upper_ + o.below(10);
                cp.timing_iterations_ = o.below(3);
                cp.search_timeout_ = 0.01;
                cp.train_prefetchers_ = o.chance(50);
                cp.use_existing_parameter_values_ = o.chance(50);
                cp.prefetch_steps_ = {1, 2};
                double target = o.below(5) * 0.25;
                static const uint32_t rate[] = {0, 2000, 100000, 500000};
                fault_rate(F_CLOCK_STALL, rate[o.below(4)]);
                fault_rate(F_CLOCK_JUMP, rate[o.below(4)]);
                auto queries = to_data<float>(w.qs);
                size_t t = ix->get_num_threads();
                log("calibrate: %zu neighbours, target %g", k, target);
                auto got = ix->experimental_calibrate(queries, truth, k, target, cp);
                fault_rate(F_CLOCK_STALL, 0);
                fault_rate(F_CLOCK_JUMP, 0);
                SIM_CHECK(same_parameters(got, ix->get_search_parameters()), "parameters",
                          "calibration returned other parameters than the index has");
                SIM_CHECK(ix->get_num_threads() == t && ix->size() == n &&
                              ix->get_alpha() == w.bp.alpha,
                          "changed", "calibration changed the index");
                Request a;
                a.q = iota_ids(w.qs.n);
                a.k = k;
                a.prepare();
                w.run(a, got, false);
                w.check(a, got, "after calibration");
                double recall = svsx::recall_of(truth, a.res, k);
                auto widest = got;
                widest.buffer_config(va::SearchBufferConfig(cp.search_window_size_upper_ - 1));
                Request most;
                most.q = a.q;
                most.k = k;
                most.prepare();
                w.run(most, widest, false);
                if (svsx::recall_of(truth, most.res, k) >= target) {
                    SIM_CHECK(recall >= target, "target-missed", "recall %g, target %g", recall,
                              target);
                    probe("target met");
                }
                if (o.chance(50)) {
                    ix->experimental_reset_performance_parameters();
                    auto sp = ix->get_search_parameters();
                    SIM_CHECK(sp.buffer_config_ == got.buffer_config_, "changed",
                              "resetting performance parameters changed the buffer");
                    w.run(a, sp, false);
                    w.check(a, sp, "after reset");
                }
                nontrivial();
                break;
            }
        }
    }
}
} // namespace

SCENARIO(orch_static) { history(false); }
SCENARIO(orch_calibrate) { history(true); }
