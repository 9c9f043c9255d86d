// The dynamic index behind its type-erased interface, compared with a map of live points.
#include "orch.h"
#include "svs/core/data.h"
#include "svs/core/graph.h"
#include "svs/orchestrators/dynamic_vamana.h"

using namespace svsx;
namespace lib = svs::lib;
namespace va = svs::index::vamana;

namespace {
template <typename T> auto blocks(size_t log2) {
    return svs::data::Blocked<lib::Allocator<T>>(
        svs::data::BlockingParameters{.blocksize_bytes = lib::PowerOfTwo(log2)});
}
using GData = svs::data::BlockedData<uint32_t, svs::Dynamic, lib::Allocator<uint32_t>>;
using BData = svs::data::BlockedData<float, svs::Dynamic, lib::Allocator<float>>;
// The library's growable graph with small blocks.
struct SmallGraph : svs::graphs::SimpleGraphBase<uint32_t, GData> {
    using parent = svs::graphs::SimpleGraphBase<uint32_t, GData>;
    SmallGraph(size_t max_degree, size_t num_nodes)
        : parent{num_nodes, max_degree, blocks<uint32_t>(10)} {}
    explicit SmallGraph(GData d)
        : parent{std::move(d)} {}
    explicit SmallGraph(parent&& p)
        : parent(std::move(p)) {}
    void unsafe_resize(size_t n) { parent::data_.resize(n); }
    static SmallGraph load(const lib::LoadTable& table) {
        return parent::load(table, lib::Lazy([](GData d) { return SmallGraph(std::move(d)); }),
                            blocks<uint32_t>(10));
    }
};

struct World {
    Measure m;
    size_t d = 1;
    int spread = 50;
    va::VamanaBuildParameters bp;
    Points qs;
    std::map<size_t, std::vector<int>> live;
    std::set<size_t> gone;
    std::unique_ptr<svs::DynamicVamana> ix;
    int saved = 0;

    std::vector<int> fresh(Rng& o) {
        auto p = gen_points(o, 1, d, spread);
        no_zero(p);
        return p.v;
    }
    template <typename D> void start(D dist, Rng& r, size_t n, size_t threads) {
        std::vector<size_t> ids;
        BData data(n, d, blocks<float>(9));
        for (size_t i = 0; i < n; ++i) {
            size_t id;
            do {
                id = r.chance(60) ? r.below(100) : r.next() >> 1;
            } while (live.count(id));
            auto v = fresh(r);
            std::vector<float> f(v.begin(), v.end());
            data.set_datum(i, std::span<const float>(f));
            ids.push_back(id);
            live[id] = v;
        }
        using Index = va::MutableVamanaIndex<SmallGraph, BData, D>;
        log("build over %zu x %zu, %s, degree %zu, %zu threads", n, d, svs::name(m.type).data(),
            bp.graph_max_degree, threads);
        ix = std::make_unique<svs::DynamicVamana>(
            svs::DynamicVamana::AssembleTag(), AskTypes(),
            Index(bp, std::move(data), std::span<const size_t>(ids), dist, threads));
    }
    template <typename D> std::unique_ptr<svs::DynamicVamana> reload(const std::string& b, size_t t, D dist) {
        return std::make_unique<svs::DynamicVamana>(svs::DynamicVamana::assemble<AskTypes>(
            b + "c", lib::Lazy([&] { return lib::load_from_disk<SmallGraph>(b + "g"); }),
            lib::Lazy([&] { return lib::load_from_disk<BData>(b + "d", blocks<float>(9)); }), dist, t));
    }
    const int* vec(size_t id) const {
        auto it = live.find(id);
        return it == live.end() ? nullptr : it->second.data();
    }
    void state(const char* when) {
        SIM_CHECK(ix->size() == live.size(), "size", "after %s: size %zu, %zu points", when,
                  ix->size(), live.size());
        auto ids = ix->all_ids();
        std::set<size_t> got(ids.begin(), ids.end());
        SIM_CHECK(got.size() == ids.size() && got.size() == live.size(), "listing",
                  "after %s: %zu identifiers are listed (%zu different), %zu points", when,
                  ids.size(), got.size(), live.size());
        std::vector<uint64_t> all;
        for (auto& [id, v] : live) {
            SIM_CHECK(got.count(id) && ix->has_id(id), "lost-point", "after %s: %zu is missing", when,
                      id);
            all.push_back(id);
        }
        for (size_t id : gone) {
            SIM_CHECK(live.count(id) || !ix->has_id(id), "ghost-point", "after %s: %zu is back", when,
                      id);
        }
        Data<float> out(all.size(), d);
        ix->reconstruct_at(svs::data::SimpleDataView<float>(out.data(), all.size(), d),
                           std::span<const uint64_t>(all));
        for (size_t i = 0; i < all.size(); ++i) {
            auto& v = live[all[i]];
            for (size_t j = 0; j < d; ++j) {
                SIM_CHECK(out.get_datum(i)[j] == (float)v[j], "wrong-vector",
                          "after %s: vector of %zu, element %zu", when, (size_t)all[i], j);
            }
        }
    }
    void search(Rng& o, const char* what) {
        auto a = draw_request(o, qs, std::max<size_t>(live.size(), 1));
        va::VamanaSearchParameters sp;
        size_t w = 1 + o.below(live.size() + 6);
        sp.buffer_config(va::SearchBufferConfig(w, w + o.below(5)));
        bool def = o.chance(40);
        log("search %zu queries, %zu neighbours, window %zu", a.q.size(), a.k, w);
        perform(*ix, a, qs, sp, def);
        Quiet quiet;
        for (size_t i = 0; i < a.q.size(); ++i) {
            judge(m, a, i, qs, [&](size_t id) { return vec(id); });
        }
        (void)what;
        nontrivial();
    }
};

void history() {
    Rng r("orch-dynamic");
    World w;
    w.m = pick_measure();
    w.d = 1 + knob("dim", 0, 12);
    w.spread = knob("spread", 0, 1) ? 3 : 50;
    size_t n = 1 + knob("n", 0, 20), threads = 1 + knob("threads", 0, 3);
    w.qs = gen_points(r, 1 + r.below(4), w.d, w.spread);
    no_zero(w.qs);
    size_t degree = 1 + r.below(8);
    w.bp = va::VamanaBuildParameters(w.m.type == svs::DistanceType::L2 ? 1.2f : 0.95f, degree,
                                     1 + r.below(12), 1 + r.below(40), 1 + r.below(degree),
                                     r.chance(50));
    schedule_faults();
    Armed armed;
    svs::DistanceDispatcher(w.m.type)([&](auto dist) { w.start(dist, r, n, threads); });
    SIM_CHECK(w.ix->dimensions() == w.d && w.ix->get_num_threads() == threads &&
                  w.ix->get_alpha() == w.bp.alpha &&
                  w.ix->get_construction_window_size() == w.bp.window_size,
              "shape", "%zu dimensions, %zu threads", w.ix->dimensions(), w.ix->get_num_threads());
    w.state("building");
    size_t steps = knob("steps", 1, 8);
    for (size_t s = 0; s < steps; ++s) {
        Rng o(r.next());
        if (!keep_op((uint32_t)s)) {
            continue;
        }
        if (o.chance(20)) {
            w.ix->set_num_threads(o.below(5));
        }
        switch (o.below(8)) {
            case 0:
            case 1: {
                size_t k = 1 + o.below(6);
                std::vector<size_t> ids;
                std::map<size_t, std::vector<int>> add;
                bool clash = false;
                Data<float> data(k, w.d);
                for (size_t i = 0; i < k; ++i) {
                    size_t id;
                    if (o.chance(20) && !w.gone.empty()) {
                        id = *std::next(w.gone.begin(), (long)o.below(w.gone.size()));
                    } else if (o.chance(5) && !w.live.empty()) {
                        id = std::next(w.live.begin(), (long)o.below(w.live.size()))->first;
                    } else {
                        id = o.chance(60) ? o.below(200) : o.next() >> 1;
                    }
                    clash = clash || w.live.count(id) || add.count(id);
                    auto v = w.fresh(o);
                    std::vector<float> f(v.begin(), v.end());
                    data.set_datum(i, std::span<const float>(f));
                    ids.push_back(id);
                    add[id] = v;
                }
                log("add %zu%s", k, clash ? ", some there already" : "");
                try {
                    w.ix->add_points(data.cview(), ids);
                    SIM_CHECK(!clash, "clash-accepted", "points were added twice");
                    w.live.insert(add.begin(), add.end());
                } catch (const svs::ANNException& e) {
                    SIM_CHECK(clash, "add-failed", "%s", e.what());
                    probe("rejected");
                }
                w.state("adding");
                break;
            }
            case 2: {
                if (w.live.size() < 2) {
                    break;
                }
                size_t k = 1 + o.below(std::min<size_t>(w.live.size() - 1, 6));
                std::set<size_t> pick;
                while (pick.size() < k) {
                    pick.insert(std::next(w.live.begin(), (long)o.below(w.live.size()))->first);
                }
                std::vector<size_t> ids(pick.begin(), pick.end());
                bool bad = o.chance(10);
                if (bad) {
                    size_t id;
                    do {
                        id = o.next() >> 1;
                    } while (w.live.count(id));
                    ids.insert(ids.begin() + (long)o.below(ids.size() + 1), id);
                }
                log("delete %zu%s", ids.size(), bad ? ", one is not there" : "");
                try {
                    w.ix->delete_points(ids);
                    SIM_CHECK(!bad, "absent-accepted", "a point that is not there was deleted");
                    for (auto i : ids) {
                        w.live.erase(i);
                        w.gone.insert(i);
                    }
                } catch (const svs::ANNException& e) {
                    SIM_CHECK(bad, "delete-failed", "%s", e.what());
                    probe("rejected");
                }
                w.state("deleting");
                break;
            }
            case 3:
                log("consolidate");
                w.ix->consolidate();
                w.state("consolidating");
                break;
            case 4:
                log("consolidate and compact");
                w.ix->consolidate();
                w.ix->compact(1 + o.below(20));
                w.state("compacting");
                break;
            case 5: {
                std::string b = "s" + std::to_string(w.saved++);
                size_t t = 1 + o.below(3);
                log("save and load");
                w.ix->save(b + "c", b + "g", b + "d");
                w.state("saving");
                auto next = svs::DistanceDispatcher(w.m.type)(
                    [&](auto dist) { return w.reload(b, t, dist); });
                SIM_CHECK(next->get_alpha() == w.ix->get_alpha() &&
                              next->get_construction_window_size() ==
                                  w.ix->get_construction_window_size() &&
                              next->get_search_parameters() == w.ix->get_search_parameters(),
                          "reload-settings", "settings differ after saving and loading");
                w.ix = std::move(next);
                w.state("loading");
                probe("reloaded");
                break;
            }
            case 6: {
                size_t win = 1 + o.below(20);
                w.ix->set_search_window_size(win);
                SIM_CHECK(w.ix->get_search_window_size() == win, "parameters", "not as set");
                if (o.chance(30)) {
                    w.ix->set_construction_window_size(1 + o.below(15));
                }
                [[fallthrough]];
            }
            default: {
                if (o.chance(10)) {
                    reject_type(*w.ix, w.d);
                }
                w.search(o, "search");
            }
        }
    }
    w.search(r, "last");
}
} // namespace

SCENARIO(orch_dynamic) { history(); }
